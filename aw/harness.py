"""Runs the cases of one property over all cores, decides, writes evidence."""
import argparse
import collections
import importlib
import json
import multiprocessing
import os
import re
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback

from . import build, core, warc

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")

_G = {}


def scratch_base():
    for d in ("/dev/shm", "/tmp"):
        try:
            st = os.statvfs(d)
            if os.access(d, os.W_OK) and st.f_bavail * st.f_frsize > (2 << 30):
                return d
        except OSError:
            pass
    return tempfile.gettempdir()


def limits(mod):
    """In each worker: what runaway commands are stopped by.

    The commands inherit the limits, but not this signal handler.
    """
    def noop(sig, frm):
        pass
    signal.signal(signal.SIGTERM, signal.SIG_DFL)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    signal.signal(signal.SIGXCPU, noop)
    resource.setrlimit(resource.RLIMIT_CPU,
        (getattr(mod, "CPU_LIMIT", 40), resource.RLIM_INFINITY))
    fs = getattr(mod, "FSIZE_LIMIT", 256 << 20)
    if fs:
        resource.setrlimit(resource.RLIMIT_FSIZE, (fs, resource.RLIM_INFINITY))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def known_findings(prop):
    """Lines 'known: property=<id> sig=<signature> <what fails>'.

    Lines 'fixed: ...' record repairs and suppress nothing.
    """
    out = []
    try:
        for ln in open(KNOWN):
            m = re.match(r"known: property=(\S+) sig=(\S+) (.*)", ln.strip())
            if m and m.group(1) == prop:
                out.append(dict(sig=m.group(2), what=m.group(3)))
    except FileNotFoundError:
        pass
    return out


# What a monitor raises when the program's output or files make no sense
OBSERVATION_ERRORS = (ValueError, KeyError, IndexError, AssertionError,
    TypeError, AttributeError, warc.WarcError)


def _one(case):
    r = _attempt(case)
    if r["hung"]:
        # Only believe in a hang when it happens twice
        first = r["hung"]
        r = _attempt(case)
        if r["hung"]:
            r["violations"].append(dict(sig="hang", case=case, details={},
                msg="a command did not terminate (twice): %s; %s" % (
                    first[:800], r["hung"][:800])))
        else:
            r["stats"]["unconfirmed_hangs"] += 1
    return r


def _attempt(case):
    ctx = core.Ctx(_G["prop"], _G["seed"], _G["tier"], case, _G["scratch"], _G["bins"])
    ctx.aux = _G["aux"]
    err = None
    hung = None
    t0 = time.time()
    try:
        _G["mod"].run_case(ctx, case)
    except core.Hung as e:
        hung = str(e) or "?"
    except OBSERVATION_ERRORS as e:
        # Never happens on a tree where the property holds: the program
        # left something the oracle cannot even parse.
        ctx.violate("unparseable:" + type(e).__name__,
            "the oracle could not interpret what it observed: %s" % e,
            traceback=traceback.format_exc()[-1500:])
    except Exception:
        err = traceback.format_exc()
    finally:
        if not os.environ.get("AW_KEEP"):
            ctx.cleanup()
    return dict(case=case, stats=ctx.stats, distinct=ctx.distinct,
        violations=ctx.violations, inconclusive=ctx.inconclusive,
        samples=ctx.samples, err=err, hung=hung, wall=time.time() - t0)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", default=os.environ.get("VERIF_SEED", "1"))
    ap.add_argument("--case", action="append")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=os.cpu_count() or 4)
    a = ap.parse_args(argv)
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    cases = None
    if a.replay:
        d = json.load(open(a.replay))
        a.prop, a.seed, a.tier = d["property"], d["seed"], d["tier"]
        cases = [d["case"]]
    prop = a.prop
    t0 = time.time()
    mod = importlib.import_module("aw.props." + prop.lower())
    scratch = tempfile.mkdtemp(prefix="aw_%s_" % prop, dir=scratch_base())
    os.chmod(scratch, 0o755)

    def bail(sig, frm):
        shutil.rmtree(scratch, ignore_errors=True)
        os._exit(3)
    signal.signal(signal.SIGTERM, bail)
    signal.signal(signal.SIGINT, bail)
    try:
        rc = _run(a, prop, mod, scratch, cases, t0)
    finally:
        if not os.environ.get("AW_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("scratch kept in", scratch)
    return rc


def _run(a, prop, mod, scratch, cases, t0):
    bins = {}
    for v in mod.VARIANTS:
        bins[v] = build.build(v, os.path.join(scratch, "bin_" + v))
    aux = {}
    for name, src in getattr(mod, "AUX_SO", {}).items():
        aux[name] = build.build_so(src, os.path.join(scratch, name + ".so"))
    for name, (src, extra) in getattr(mod, "AUX_EXE", {}).items():
        aux[name] = build.build_exe(src, os.path.join(scratch, name), extra)
    t_build = time.time() - t0
    _G.update(prop=prop, seed=a.seed, tier=a.tier, scratch=scratch, bins=bins,
        mod=mod, aux=aux)
    if a.case:
        cases = [int(c) if c.isdigit() else c for c in a.case]
    if cases is None:
        cases = list(mod.cases(a.tier, a.seed))
    stats = collections.Counter()
    distinct = set()
    viols, incon, samples, errors = [], [], [], []
    ndone = 0
    slow = (0, None)
    limit = float(os.environ.get("AW_WALL", "600" if a.tier == "quick" else "7200"))
    truncated = False
    with multiprocessing.Pool(min(a.jobs, max(1, len(cases))), limits, (mod,)) as pool:
        it = pool.imap_unordered(_one, cases, chunksize=1)
        while True:
            left = limit - (time.time() - t0)
            try:
                r = it.next(timeout=max(1, left))
            except StopIteration:
                break
            except multiprocessing.TimeoutError:
                truncated = True
                pool.terminate()
                break
            ndone += 1
            stats.update(r["stats"])
            distinct |= r["distinct"]
            viols += r["violations"]
            incon += r["inconclusive"]
            if r["wall"] > slow[0]:
                slow = (r["wall"], r["case"])
            if len(samples) < 8:
                samples += r["samples"]
            if r["err"]:
                errors.append((r["case"], r["err"]))
            # enough is enough, when things are thoroughly broken
            hangs = sum(v["sig"] == "hang" for v in viols)
            if len(viols) > 200 or len(errors) > 20 or hangs > 2 or (viols and os.environ.get("AW_STOP")):
                pool.terminate()
                truncated = True
                break

    known = known_findings(prop)
    knownsigs = {k["sig"] for k in known}
    new = [v for v in viols if v["sig"] not in knownsigs]
    hit = {v["sig"] for v in viols if v["sig"] in knownsigs}
    for k in known:
        print("KNOWN-FINDING: property=%s %s%s" % (prop, k["what"],
            "" if k["sig"] in hit else " (not exercised in this run)"))

    rc = 0
    if new:
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        bysig = collections.OrderedDict()
        for v in new:
            bysig.setdefault(v["sig"], []).append(v)
        for sig, vs in list(bysig.items())[:12]:
            v = vs[0]
            fn = os.path.join(HERE, "replays", "%s-%s-%s.json" % (prop, a.seed, v["case"]))
            with open(fn, "w") as f:
                json.dump(dict(property=prop, seed=a.seed, tier=a.tier,
                    case=v["case"], violations=vs[:5]), f, indent=1)
            print("VIOLATION property=%s replay=%s" % (prop, fn))
            print("  [%s] x%d %s" % (sig, len(vs), v["msg"][:1500]))
            for k, d in v["details"].items():
                print("    %s: %s" % (k, d[:600]))
        rc = 1
    for c, e in errors[:3]:
        print("HARNESS ERROR in case %s:\n%s" % (c, e), file=sys.stderr)
    if errors and rc == 0:
        rc = 2
    for m in incon[:10]:
        print("INCONCLUSIVE: %s" % m)
    need = getattr(mod, "NEED", {})
    if rc == 0 and not a.case and not a.replay and not truncated:
        for k, n in need.items():
            if stats[k] < n:
                print("INCONCLUSIVE: monitor observed only %d x %s (want >= %d)" % (stats[k], k, n))
                rc = 2
    wall = time.time() - t0
    ev = dict(property=prop, tier=a.tier, seed=int(a.seed) if str(a.seed).isdigit() else a.seed,
        level=mod.LEVEL,
        coverage=dict(
            evaluations=int(stats.get("evaluations", ndone)),
            distinct_nontrivial=len(distinct),
            rule=mod.RULE,
            samples=samples[:5] or [str(c) for c in cases[:3]],
            cases_run=ndone, cases_planned=len(cases),
            observed={k: v for k, v in sorted(stats.items())},
            inconclusive=len(incon), truncated=truncated),
        assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
        wall_s=round(wall, 2),
        violations=len(new))
    if not a.case and not a.replay:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", ".%s.tmp" % prop)
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.rename(tmp, os.path.join(HERE, "evidence", prop + ".json"))
    print("%s %s: %d/%d cases, %d evaluations, %d distinct, %d violations (%d known), "
        "%d inconclusive, build %.1fs, wall %.1fs, slowest %.1fs (case %s)%s" % (
        prop, a.tier, ndone, len(cases), ev["coverage"]["evaluations"], len(distinct),
        len(new), len(hit), len(incon), t_build, wall, slow[0], slow[1],
        " TRUNCATED" if truncated else ""))
    return rc
