"""C18 filter reports exactly the missing (or present) IDs"""
import os

from .. import core, gen, hist, idx, warc
from . import c08

VARIANTS = ["plain", "ubsan", "san"]
CPU_LIMIT = 120
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real filter on real and synthetic indexes with every way of giving it lists of "
    "IDs; an oracle computes from an independent reading of silos and index which lines must come out, byte by byte")
NOTE = ("Every output is decided completely; bounded by the archives and lists generated. Lines with an ID of full "
    "width followed by other characters are not judged.")
RULE = ("histories with similar (forced) IDs, and synthetic indexes of adversarial distributions, in appendix, sorted "
    "index or both; lists with absent, present, neighbouring, repeated, mixed-case, prefixed, overlong IDs, sorted, "
    "reversed, shuffled; all options; malformed lines; distinct = (kind, options, order, outcome)")
NEED = {"lines": 100000, "filters": 1000, "refused": 300, "s_flag": 100, "similar": 100}


def cases(tier, seed):
    n = 6 if tier == "quick" else 50
    return ["b%d" % i for i in range(3 * n)] + ["h%d" % i for i in range(60 * n)] + \
        ["s%d" % i for i in range(60 * n)] + ["e%d" % i for i in range(30 * n)]


def spell(rng, a, i):
    c = rng.random()
    if c < .2:
        i = i.upper()
    elif c < .3:
        i = "".join(rng.choice([x.upper(), x]) for x in i)
    if rng.random() < .15:
        i += "".join(rng.choice("0123456789abcdefABCDEF") for _ in range(rng.choice([1, 2, 64 - min(63, len(i)), 300])))
    if rng.random() < .3:
        p = a.cfg.prefix
        i = rng.choice([p, p, p.upper(), p.lower()]) + i
    return i


def wanted(rng, a, keys, full, n):
    """n IDs (without prefix), around these"""
    w = a.cfg.idlen
    out = []
    for _ in range(n):
        c = rng.random()
        if keys and c < .55:
            k = rng.choice(full)
        elif keys and c < .75:
            # differs late, or just beside it
            k = rng.choice(full)
            j = rng.choice([w - 1, min(w, 24) - 1, rng.randrange(w)])
            k = k[:j] + "%x" % ((int(k[j], 16) + rng.choice([1, 15, rng.randrange(1, 16)])) % 16) + k[j + 1:]
            if rng.random() < .3:
                k = k[:j + 1] + rng.choice("0f") * (w - j - 1)
        elif c < .8:
            k = rng.choice(["0" * w, "f" * w, "0" * (w - 1) + "1", "f" * (w - 1) + "e", "8" + "0" * (w - 1)])
        else:
            k = gen.rbytes(rng, 32).hex()[:w]
        out.append(k)
        if rng.random() < .05:
            out.append(k)
    o = rng.choice(["random", "random", "sorted", "reversed", "grouped"])
    if o == "sorted":
        out.sort()
    elif o == "reversed":
        out.sort(reverse=True)
    elif o == "grouped":
        out.sort()
        j = rng.randrange(len(out) + 1)
        out = out[j:] + out[:j]
    return out, o


def ask(ctx, h, has, ids, order, opts=(), what=""):
    """One run of filter: has(id) -> whether it must be found"""
    rng, a = ctx.rng, h.a
    w = a.cfg.idlen
    lines = [spell(rng, a, i) for i in ids]
    opts = list(opts)
    r_flag = rng.random() < .4
    v_flag = rng.random() < .25
    if r_flag:
        opts.append("-r")
    if v_flag:
        opts.append("-v")
    if rng.random() < .05:
        opts += rng.choice([["-r", "-r"], ["-v", "-v"]])
    rng.shuffle(opts)
    exp = []
    nf = 0
    for i, ln in zip(ids, lines):
        f = has(i)
        nf += f
        if v_flag:
            exp.append("%d %s\n" % (f, ln))
        elif f == r_flag:
            exp.append(ln + "\n")
    exp = "".join(exp).encode()

    def text(ls):
        t = ""
        for x in ls:
            t += x + "\n"
            if rng.random() < .01:
                t += "\n"
        return t.encode()
    how = rng.choice(["stdin", "stdin", "dash", "file", "files", "mixed"])
    args, stdin = [], None
    fns = []

    def tmp(ls):
        fn = os.path.join(a.root, "ids%d" % ctx.uniq())
        with open(fn, "wb") as f:
            f.write(text(ls))
        fns.append(fn)
        return fn
    c = rng.randrange(len(lines) + 1)
    if how == "stdin":
        stdin = text(lines)
    elif how == "dash":
        stdin = text(lines)
        args = ["-"]
    elif how == "file":
        args = [tmp(lines)]
    elif how == "files":
        args = [tmp(lines[:c]), tmp(lines[c:])]
        if rng.random() < .3:
            args.insert(rng.randrange(3), tmp([]))
    else:
        args = [tmp(lines[:c]), "-"]
        stdin = text(lines[c:])
        if rng.random() < .5:
            args = ["-", tmp(lines[c:])]
            stdin = text(lines[:c])
    of = None
    if rng.random() < .3:
        of = os.path.join(a.root, "out%d" % ctx.uniq())
        if rng.random() < .3:
            open(of, "w").write("old content\n" * 20)
        opts += ["-o", of]
    r = a.cmd("filter", *(opts + args), stdin=stdin, variant=h.var())
    ctx.stats["filters"] += 1
    ctx.stats["lines"] += len(lines)
    ctx.stats["evaluations"] += 1
    if "-s" in opts:
        ctx.stats["s_flag"] += 1
    got = r.out
    if of:
        if r.out:
            h.bad("stdout", "filter -o writes %r to stdout" % r.out[:100], r)
        got = open(of, "rb").read() if os.path.exists(of) else b""
        if os.path.exists(of):
            os.unlink(of)
    for fn in fns:
        os.unlink(fn)
    if not h.ok(r, "filter"):
        return False
    if got != exp:
        g, e = got.decode("latin-1").split("\n"), exp.decode().split("\n")
        k = next((k for k in range(min(len(g), len(e))) if g[k] != e[k]), min(len(g), len(e)))
        h.bad("answer", "filter %s of %d IDs (%s, %s%s): %d lines instead of %d, line %d is %r instead of %r" % (
            " ".join(opts), len(ids), how, order, what, len(g) - 1, len(e) - 1, k,
            "".join(g[k:k + 1])[:150], "".join(e[k:k + 1])[:150]), r)
        return False
    ctx.seen(what, r_flag, v_flag, "-s" in opts, how, order, nf == 0, nf == len(ids), len(ids).bit_length())
    return True


def key(a, i):
    return i[:24]


def synthetic(ctx, case):
    rng = ctx.rng
    big = case[0] == "b"
    bits = rng.choice([None, 64, 68, 92, 96, 100, 128, 256])
    a = core.Archive(ctx, cfg=core.Cfg(bits=bits, prefix=rng.choice(hist.PREFIXES), sort_size=rng.choice(
        ["64k", "1M"] if big else [None, "4096", "5000", "64k"])))
    h = hist.Hist(ctx, a, ["plain"] if big else VARIANTS)
    w = a.cfg.idlen
    n = rng.choice([30000, 60000]) if big else rng.choice([0, 1, 2, 5, 30, 129, 1000, 4000])
    keys = set()
    for rnd in range(rng.choice([1, 2, 3])):
        es = c08.entries(rng, n if rnd == 0 else rng.randrange(n // 3 + 3), rng.choice(c08.DISTS), rnd)
        if w < 24:
            es = [(e[0][:w] + "0" * (24 - w),) + e[1:] for e in es]
        keys |= {e[0][:w] for e in es}
        with open(a.dir + "index.appendix", "ab") as f:
            f.write(c08.packs(es))
        h.log.append("%d entries" % len(es))
        # (filter goes through the list for nearly every entry of the appendix)
        if rng.random() < .6 or (big and len(es) > 1000):
            h.housekeeping()
    kl = sorted(keys)

    def has(i):
        return i[:24] in keys
    for _ in range(2 if big else 5):
        # Complete the keys to IDs
        full = [k + "".join(rng.choice("0123456789abcdef") for _ in range(w - len(k)))
            for k in rng.sample(kl, min(len(kl), 500))]
        ids, order = wanted(rng, a, kl, full, rng.choice([20000, 70000]) if big else rng.choice([0, 1, 2, 10, 100, 1500]))
        if not ask(ctx, h, has, ids, order, what="synthetic"):
            return
        if kl and rng.random() < .1:
            # all of them
            if not ask(ctx, h, has, [k + "0" * (w - len(k)) for k in kl], "sorted", what="all"):
                return
    ctx.sample(dict(history=h.log, bits=bits))


def real(ctx, case):
    """Real archives, with and without looking at the silos"""
    rng = ctx.rng
    a = core.Archive(ctx, cfg=hist.random_cfg(rng, small=True))
    h = hist.Hist(ctx, a, VARIANTS)
    w = a.cfg.idlen
    for rnd in range(rng.choice([1, 2, 3])):
        if not h.random_ops(rng.choice([1, 4, 10])):
            return
        if h.order and rng.random() < .8:
            # similar to one another in the first 96 bits or less
            base = rng.choice(h.order)
            for _ in range(rng.choice([1, 3, 6])):
                k = rng.choice([8, w // 2, 23, 24, 25, 26, w - 1])
                k = min(k, w - 1)
                x = base[:k] + "".join(rng.choice("0123456789abcdef") for _ in range(w - k))
                if x in h.objs:
                    continue
                if h.metadata(ref=rng.choice(h.order), n=rng.choice([5, 100, 20000]), forced=x) is None:
                    return
                ctx.stats["similar"] += 1
        m = warc.load(a)
        ids = {r.id.lower() for n, r in m.records()}
        if not h.objs.keys() <= ids:
            h.bad("lost", "objects are not in the silos")
            return
        keys = {i[:24] for i in ids}
        il = sorted(ids)
        for _ in range(5):
            s = rng.random() < .5
            q, order = wanted(rng, a, keys, il, rng.choice([1, 3, 20, 200]))
            has = (lambda i: i in ids) if s else (lambda i: i[:24] in keys)
            if not ask(ctx, h, has, q, order, ["-s"] if s else [], "real"):
                return
        if not ask(ctx, h, lambda i: i in ids, il + il[:3], "sorted", ["-s"], "all"):
            return
    ctx.sample(dict(history=h.log, ids=il[:10]))


def errors(ctx, case):
    rng = ctx.rng
    a = core.Archive(ctx, cfg=hist.random_cfg(rng, small=True))
    h = hist.Hist(ctx, a, VARIANTS)
    h.random_ops(rng.choice([0, 2, 4]))
    before = a.tree()
    w = a.cfg.idlen
    for _ in range(14):
        good = [gen.rbytes(rng, 32).hex()[:w] for _ in range(rng.choice([0, 1, 30]))] + h.order[:3]
        rng.shuffle(good)
        i = gen.rbytes(rng, 32).hex()[:w]
        j = rng.randrange(w)
        kind = rng.choice(["short", "hex", "prefix", "nonl", "long", "space", "prefix-only", "cr", "double-prefix",
            "nofile", "dashdash", "dir", "badopt", "nul", "short-long"])
        ln = None
        args = []
        nl = "\n"
        if kind == "short":
            ln = i[:j]
            if not ln:
                continue
        elif kind == "hex":
            ln = i[:j] + rng.choice("gGzZxX-_.:@`/ \t\x7f\xe5?") + i[j + 1:]
            if ln.lower().startswith(a.cfg.prefix.lower()):
                continue
        elif kind == "prefix":
            ln = rng.choice(["file://other.example/", a.cfg.prefix[:-1], a.cfg.prefix + "/", "x"]) + i
            if ln == i or (ln.lower().startswith(a.cfg.prefix.lower()) and not ln.startswith(a.cfg.prefix + "/")):
                continue
        elif kind == "nonl":
            ln, nl = i, ""
        elif kind == "long":
            ln = i + "0" * rng.choice([8192 - w, 8191 - w, 10000, 20000])
            if len(ln) + 1 < 8192:
                continue
        elif kind == "space":
            ln = " " + i
        elif kind == "prefix-only":
            ln = a.cfg.prefix
        elif kind == "cr":
            ln = i[:-1] + "\r"
        elif kind == "double-prefix":
            ln = a.cfg.prefix + a.cfg.prefix + i
        elif kind == "nofile":
            args = ["/nonexistent/file"]
        elif kind == "dashdash":
            args = ["-", "-"]
        elif kind == "dir":
            args = [a.root]
        elif kind == "badopt":
            args = ["-" + rng.choice("xhzqi")]
        elif kind == "nul":
            ln = i[:j] + "\0" + i[j + 1:]
        elif kind == "short-long":
            # short after the prefix, long with it
            ln = a.cfg.prefix + i[:w - 1]
        t = good[:]
        last = kind == "nonl"
        if ln is not None:
            t.insert(len(t) if last else rng.randrange(len(t) + 1), ln)
        b = "".join(x + "\n" for x in t)
        if last:
            b = b[:-1]
        if rng.random() < .3 and not args:
            fn = os.path.join(a.root, "f%d" % ctx.uniq())
            open(fn, "wb").write(b.encode("latin-1"))
            args = [fn]
        opts = rng.choice([[], ["-r"], ["-v"], ["-s"]])
        r = a.cmd("filter", *(opts + args), stdin=b.encode("latin-1"), variant=h.var())
        ctx.stats["evaluations"] += 1
        ctx.stats["refused"] += 1
        if r.sanitizer:
            h.bad("sanitizer", "sanitizer report", r)
            return
        if r.rc == 0:
            h.bad("accepted:" + kind, "filter accepts %r" % (ln[:100] if ln is not None else args), r)
            return
        if r.out:
            h.bad("output:" + kind, "filter refuses %r, but prints %r" % (ln, r.out[:100]), r)
            return
        ctx.seen("refused", kind, r.rc, len(opts))
    if a.tree() != before:
        h.bad("changed", "filter changed the archive")


def run_case(ctx, case):
    return {"b": synthetic, "h": real, "s": synthetic, "e": errors}[case[0]](ctx, case)
