"""C21 byid and dumpindex match exactly the given prefix"""
import os

from .. import core, gen, hist, idx, warc

VARIANTS = ["plain", "ubsan", "san"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real byid and dumpindex look up prefixes of every length in archives with dense, "
    "similar and extreme IDs; output and exit status are compared with what an independent reader of the silos finds")
NOTE = "Every answer is decided completely; bounded by the archives and prefixes generated."
RULE = ("histories with forced IDs (sequences, common prefixes, extremes) in appendix, sorted index or both; prefixes "
    "of 0 to 64 digits of existing IDs, their neighbours and random ones, several per run, mixed case; distinct = "
    "(command, length, number of matches, phase, options)")
NEED = {"lookups": 6000, "matches": 20000, "nomatch": 1500, "nonhex": 150, "over255": 1}


def cases(tier, seed):
    n = 3 if tier == "quick" else 60
    return ["b%d" % i for i in range(3 * n)] + ["h%d" % i for i in range(110 * n)]


def fill(ctx, h, n):
    """n metadata with interesting IDs"""
    rng = ctx.rng
    w = h.a.cfg.idlen
    kind = rng.choice(["seq", "prefix", "low", "high", "rnd", "seq", "odd"])
    base = rng.getrandbits(4 * w)
    k = min(w - 1, rng.choice([1, 2, 3, 7, 8, 15, 22, 23]))
    for j in range(n):
        if kind == "seq":
            sh = 4 * max(0, w - rng.choice([24, 23, 1, 2, 3]))
            x = (base + (j << sh)) % (1 << (4 * w))
        elif kind == "prefix":
            x = (base >> (4 * (w - k))) << (4 * (w - k)) | rng.getrandbits(4 * (w - k))
        elif kind == "low":
            x = rng.getrandbits(rng.choice([1, 4, 20, 4 * w - 40]))
        elif kind == "high":
            x = (1 << (4 * w)) - 1 - rng.getrandbits(rng.choice([1, 4, 20, 4 * w - 40]))
        elif kind == "odd":
            # zeros at the end
            x = rng.getrandbits(4 * k) << (4 * (w - k))
        else:
            x = rng.getrandbits(4 * w)
        i = "%0*x" % (w, x)
        if rng.random() < .2:
            i = i.upper()
        if i.lower() in h.objs:
            continue
        if h.metadata(ref=h.order[0], n=rng.choice([3, 40, 300]), forced=i) is None:
            return False
    return True


def pick(rng, w, ids):
    c = rng.random()
    k = rng.choice(ids)
    ln = rng.choice([0, 1, 1, 2, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 20, 22, 23, 24, 25, w - 1, w, rng.randrange(w + 1)])
    ln = min(ln, w)
    if c < .55:
        return k[:ln]
    if c < .8:
        if ln == 0:
            return k[:1]
        j = rng.choice([ln - 1, ln - 1, rng.randrange(ln)])
        return k[:j] + "%x" % ((int(k[j], 16) + rng.choice([1, 15, rng.randrange(16)])) % 16) + k[j + 1:ln]
    if c < .9:
        # longer than an ID
        return k + "".join(rng.choice("0123456789abcdef") for _ in range(rng.choice([0, 1, 5, 64 - min(w, 64), 200]))) + "1"
    return "%x" % rng.getrandbits(4 * rng.randrange(1, 28) + 1)


def match(i, p):
    """(only the first 96 bits are in the index)"""
    p = p.lower()[:24]
    return i[:24].startswith(p)


def run_case(ctx, case):
    rng = ctx.rng
    a = core.Archive(ctx, cfg=hist.random_cfg(rng, small=rng.random() < .7))
    h = hist.Hist(ctx, a, VARIANTS)
    w = a.cfg.idlen
    big = case[0] == "b"
    if h.store(n=100) is None:
        return
    if big:
        h.variants = ["plain"]
    types = {"warcinfo": idx.F_WARCINFO, "resource": idx.F_RESOURCE, "metadata": idx.F_METADATA}
    for rnd in range(1 if big else rng.choice([1, 2, 3])):
        if not h.random_ops(rng.choice([0, 3, 8])):
            return
        if not fill(ctx, h, rng.choice([250, 260, 400]) if big else rng.choice([0, 2, 10, 30])):
            return
        phase = "appendix"
        if rng.random() < .5:
            h.housekeeping()
            phase = "sorted"
            if rng.random() < .5:
                h.random_ops(2, p_hk=0)
                phase = "both"
        m = warc.load(a)
        for k, msg in m.errs:
            return h.bad("silo-" + k, msg)
        exp = idx.expected(m)
        recs = [(r.id, r.type) for n, r in m.records()]
        ids = [i.lower() for i, t in recs]
        for _ in range(24):
            args = []
            cmd = rng.choice(["byid", "dumpindex"])
            for _ in range(rng.choice([1, 1, 1, 2, 5])):
                p = pick(rng, w, ids)
                if big and rng.random() < .4:
                    p = ""
                if w < 24 and len(p) > w and not p[w:24].strip("0"):
                    # the index pads with zeros
                    continue
                args.append(p)
            if not args:
                continue
            opts = []
            typ = None
            e_flag = False
            if cmd == "dumpindex" and rng.random() < .3:
                typ = rng.choice(sorted(types))
                opts = ["-t", typ]
            if cmd == "byid" and rng.random() < .3:
                e_flag = True
                opts = ["-e"]
            sp = []
            for p in args:
                if rng.random() < .3:
                    p = "".join(rng.choice([x.upper(), x]) for x in p)
                if cmd == "byid" and rng.random() < .3:
                    p = rng.choice([a.cfg.prefix, a.cfg.prefix.upper()]) + p
                sp.append(p)
            bad = None
            if rng.random() < .08:
                # something which is no ID
                k = rng.choice(ids)
                j = rng.randrange(len(k))
                bad = rng.choice([k[:j] + rng.choice("gxz -_:/.\n\x7fé") + k[j + 1:], "0x" + k, " " + k, k + "\n", "xyz", "*", "-",
                    "x" * 5000])
                if cmd == "byid" and bad.lower().startswith(a.cfg.prefix.lower()):
                    bad = "xyz"
                bad = bad.rstrip("\0")
                at = rng.randrange(len(sp) + 1)
                sp.insert(at, bad)
            argv = [cmd] + opts + (["--"] if rng.random() < .2 or bad == "-" else []) + sp
            r = a.cmd(*argv, variant=h.var())
            ctx.stats["lookups"] += len(args)
            ctx.stats["evaluations"] += 1
            brief = " ".join(repr(x[:70]) for x in argv)
            if r.sanitizer:
                return h.bad("sanitizer", brief, r)
            upto = args if bad is None else args[:at]
            out = r.out.decode("latin-1")
            if cmd == "byid":
                want = sorted("id %s wt %s" % (i, t) for p in upto for i, t in recs if match(i.lower(), p))
            else:
                want = sorted(e for p in upto for e in exp if match(e[0], p) and (typ is None or e[1] & types[typ]))
            if bad is not None:
                ctx.stats["nonhex"] += 1
                ctx.seen("nonhex", cmd, len(upto) > 0, r.rc)
                if r.rc == 0 and not e_flag:
                    return h.bad("nonhex-ok", "%s exits 0" % brief, r)
                got = sorted(out.splitlines()) if cmd == "byid" else None
                if cmd == "byid" and got != want:
                    return h.bad("nonhex-match", "%s prints %d lines, not %d" % (brief, len(got), len(want)), r)
                if cmd == "dumpindex":
                    # it may stop without writing what it found before
                    try:
                        got = idx.parse_dump(r.out)
                    except ValueError:
                        got = []
                    if not set(got) <= set(want):
                        return h.bad("nonhex-match", "%s prints %s" % (brief, sorted(set(got) - set(want))[:3]), r)
                continue
            if r.rc is None or r.rc < 0:
                return h.bad("crash", "%s crashes" % brief, r)
            if cmd == "byid":
                got = sorted(out.splitlines())
            else:
                got = sorted(idx.parse_dump(r.out))
            if got != want:
                miss = [x for x in want if x not in got]
                extra = [x for x in got if x not in want]
                return h.bad("match", "%s (%s): %d instead of %d, missing %s, extra %s" % (
                    brief, phase, len(got), len(want), miss[:2], extra[:2]), r)
            code = 0
            if cmd == "byid" and not e_flag:
                code = min(255, len(want))
                if len(want) > 255:
                    ctx.stats["over255"] += 1
            if r.rc != code:
                return h.bad("exit", "%s: exit status %d, %d matches" % (brief, r.rc, len(want)), r)
            ctx.stats["matches"] += len(want)
            ctx.stats["nomatch"] += not want
            ctx.seen(cmd, tuple(sorted(set(map(len, args)))), min(len(want), 3), phase, tuple(opts))
    # and all of them
    r = a.cmd("dumpindex", variant=h.var())
    if sorted(idx.parse_dump(r.out)) != sorted(idx.expected(warc.load(a))):
        h.bad("all", "dumpindex without arguments is not the index", r)
    ctx.sample(dict(history=h.log[-8:], ids=ids[:10]))
