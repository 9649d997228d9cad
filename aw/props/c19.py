"""C19 store refuses what it cannot store faithfully"""
import hashlib
import os

from .. import core, gen, hist, warc

VARIANTS = ["plain", "ubsan", "san"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: the real store is run with every combination of options, arguments, inputs and "
    "configured mime-type lists; an independent decision procedure says what must be refused, snapshots of the whole "
    "archive decide that nothing was stored, an independent reader what was")
NOTE = "Every run is decided completely in both directions; bounded by the argument combinations generated."
RULE = ("each of type, mime-type, reference, forced ID, input, list of mime-types drawn from valid, borderline and "
    "invalid ones; long and binary arguments; distinct = (which parts are invalid, accepted, kinds)")
NEED = {"accepted": 800, "refused": 2000, "headers_checked": 600}

MT = ["text/plain", "image/png", "application/octet-stream", "application/json", "x/y", "a", "TEXT/HTML", "*/*", "text/*",
    "æ/ø", "multipart/x;a=b", "x\"y", "a:b", "<x>", "#x"]


def cases(tier, seed):
    return ["a%d" % i for i in range(900 if tier == "quick" else 20000)]


def valid_id(cfg, s):
    """-> the digits or None"""
    if s.lower().startswith(cfg.prefix.lower()):
        s = s[len(cfg.prefix):]
    if len(s) != cfg.idlen or any(c not in "0123456789abcdefABCDEF" for c in s):
        return None
    return s


def bad_id(rng, cfg, good):
    w = cfg.idlen
    j = rng.randrange(w)
    c = rng.randrange(14)
    p = cfg.prefix
    if c == 0:
        return ""
    if c == 1:
        return good[:j]
    if c == 2:
        return good + rng.choice("0f")
    if c == 3:
        return good[:j] + rng.choice("gGzZ -_.:/\n\t@`\x7fæ") + good[j + 1:]
    if c == 4:
        return p + good[:-1]
    if c == 5:
        return p + good + "0"
    if c == 6:
        return p + p + good
    if c == 7:
        return "x" + p + good
    if c == 8:
        return p[:-1] + good if len(p) > 1 else "x" + good
    if c == 9:
        return p
    if c == 10:
        return rng.choice("0fgx/:") * rng.choice([64, 65, 1000, 4095, 4096, 4097, 100000])
    if c == 11:
        return p + rng.choice("0f") * rng.choice([1000, 100000])
    if c == 12:
        return "<" + p + good + ">"
    return " " + good


def mime(rng, allowed):
    """-> something to give to -m"""
    c = rng.random()
    if c < .3 and allowed:
        m = rng.choice(allowed)
        if rng.random() < .4:
            m = "".join(rng.choice([x.upper(), x.lower()]) if x.isascii() else x for x in m)
        return m
    if c < .55:
        m = rng.choice(MT)
        if rng.random() < .2:
            m = m[:-1] if rng.random() < .5 else m + rng.choice("x *")
        return m
    if c < .7:
        n = rng.choice([1, 2, 500, 1000, 1023, 1024, 1025, 1026, 2048, 4000, 4096, 10000, 60000])
        return rng.choice(["x", "é", "text/plain;"])[:1] * (n - 3) + "abc" if n > 3 else "abc"[:n]
    if c < .85:
        m = rng.choice(MT)
        j = rng.randrange(len(m) + 1)
        return m[:j] + chr(rng.choice(list(range(1, 32)) + [127, 10, 13, 9])) + m[j:]
    if c < .9:
        return ""
    if c < .95:
        return rng.choice([" text/plain", "text/plain ", "  ", "text/plain\\r\\nX: y", "%s%n%d", "text/plain; charset=utf-8"])
    return "".join(chr(rng.randrange(32, 127)) for _ in range(rng.randrange(1, 60)))


def legal_mime(m, allowed):
    b = m.encode()
    if len(b) > 1024 or any(c < 32 or c == 127 for c in b):
        return False
    if allowed is None:
        return False
    # (as strcasecmp in the C locale)
    low = bytes.lower
    return any(x == "*" or low(x.encode()) == low(b) for x in allowed)


def mimelist(rng):
    c = rng.random()
    if c < .35:
        return ["*"]
    if c < .4:
        return None
    l = rng.sample(MT, rng.randrange(1, 6))
    l = [x for x in l if x[0] != "#"]
    if c > .85:
        l.insert(rng.randrange(len(l) + 1), "*")
    return l or ["x/y"]


def run_case(ctx, case):
    rng = ctx.rng
    lists = {"resource": mimelist(rng), "metadata": mimelist(rng)}
    cfg = hist.random_cfg(rng, small=True)
    cfg.resource = cfg.metadata = ["*"]
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    for _ in range(3):
        if h.store(n=rng.choice([5, 300, 30000])) is None:
            return
    if h.metadata(n=50) is None:
        return
    if rng.random() < .4:
        h.housekeeping()
    # Now with the lists
    t = cfg.text(a.dir)
    for k, l in lists.items():
        t = t.replace("%s.mime-types:\n\t*\n" % k, "" if l is None else "%s.mime-types:\n%s" % (
            k, "".join("\t%s%s\n" % (x, rng.choice(["", "", "\tsome argument"])) for x in l)))
    with open(a.conf, "w") as f:
        f.write(t)
    w = cfg.idlen
    snap = a.tree()
    have = {i: o["type"] for i, o in h.objs.items()}
    for rnd in range(14):
        opts = []
        why = []
        typ = "resource"
        # At most a few things are wrong at a time
        p_bad = rng.choice([0, 0, .15, .15, .4])

        def wrong():
            return rng.random() < p_bad
        c = rng.random()
        tv = None
        if wrong():
            tv = rng.choice(["", "x", "resourc", "resources", "warcinfo", "continuation", "metadata ", "r" * 5000])
            opts += ["-t", tv]
            why.append("type")
        elif c < .45:
            typ = "metadata"
            opts += ["-t", rng.choice(["metadata", "METADATA", "Metadata"])]
        elif c < .6:
            opts += ["-t", rng.choice(["resource", "RESOURCE", "Resource"])]
        if tv is None and wrong() and rng.random() < .4 and "-t" in opts:
            opts += ["-t", typ]
            why.append("two-types")
        ref = forced = None
        rl = sorted(have)
        if (typ == "metadata") != wrong():
            if wrong():
                ref = bad_id(rng, cfg, rng.choice(rl))
            elif wrong():
                # not there, maybe nearly
                x = rng.choice(rl)
                j = rng.choice([w - 1, w - 1, 0, rng.randrange(w)])
                ref = x[:j] + "%x" % (int(x[j], 16) ^ rng.randrange(1, 16)) + x[j + 1:]
                if rng.random() < .3:
                    ref = a.uri(ref)
            else:
                ref = h.spell(rng.choice(rl))
            opts += ["-r", ref]
            if wrong() and rng.random() < .3:
                opts += ["-r", ref]
                why.append("two-refs")
            v = valid_id(cfg, ref)
            if typ == "resource":
                why.append("ref-not-allowed")
            elif v is None:
                why.append("ref-malformed")
            elif v.lower() not in have:
                why.append("ref-missing")
        elif typ == "metadata":
            why.append("no-ref")
        if rng.random() < .3 if typ == "metadata" else wrong():
            forced = gen.rbytes(rng, 32).hex()[:w]
            if rng.random() < .15:
                forced = rng.choice(rl)
            if rng.random() < .3:
                forced = a.uri(forced)
            if rng.random() < .2:
                forced = forced.upper()
            if wrong():
                forced = bad_id(rng, cfg, gen.rbytes(rng, 32).hex()[:w])
            opts += ["-i", forced]
            if wrong() and rng.random() < .3:
                opts += ["-i", forced]
                why.append("two-ids")
            if typ == "resource":
                why.append("id-not-allowed")
            elif valid_id(cfg, forced) is None:
                why.append("id-malformed")
        allowed = lists[typ]
        mt = "application/octet-stream"
        if rng.random() < .8:
            if wrong():
                mt = mime(rng, allowed)
            elif allowed and allowed != ["*"]:
                mt = rng.choice(allowed)
                if rng.random() < .4:
                    mt = "".join(rng.choice([x.upper(), x.lower()]) if x.isascii() else x for x in mt)
            else:
                while True:
                    mt = mime(rng, allowed)
                    if legal_mime(mt, allowed) or allowed is None:
                        break
            opts += ["-m", mt]
        if not legal_mime(mt, allowed):
            why.append("mime")
        if rng.random() < .05:
            # The last one counts
            opts = ["-m", "no such\x01type"] + opts if "-m" in opts else opts
        body = gen.exact(rng, rng.choice([1, 2, 100, 5000, 20000, 140000]))
        if rng.random() < .05:
            body = h.objs[h.order[0]]["data"]
        stdin = body
        args = []
        kw = {}
        c = rng.choice(["stdin", "dash", "file", "file"])
        fn = os.path.join(a.root, "in%d" % ctx.uniq())
        if wrong():
            c = rng.choice(["empty-stdin", "empty-file", "null", "dir", "nofile", "notdir", "closed", "writeonly",
                "two", "badopt", "emptyname", "longname", "h", "dangling"])
            why.append(c)
        if c in ("dash",):
            args = ["-"]
        elif c == "file":
            fn = os.path.join(a.root, rng.choice(["in", "a b", "x\ny", "*", "%s", "æ"]) + str(ctx.uniq()))
            open(fn, "wb").write(body)
            args = [fn]
            stdin = None
        elif c == "empty-stdin":
            stdin = b""
            args = rng.choice([[], ["-"]])
        elif c == "empty-file":
            open(fn, "wb").close()
            args = [fn]
        elif c == "null":
            args = ["/dev/null"]
        elif c == "dir":
            args = [a.root]
        elif c == "nofile":
            args = [fn]
        elif c == "notdir":
            args = [a.conf + "/x"]
        elif c == "closed":
            stdin = None
            kw["preexec"] = lambda: os.close(0)
        elif c == "writeonly":
            stdin = None
            wf = open(fn, "wb")
            kw["stdin_file"] = wf
        elif c == "two":
            args = [a.conf, a.conf]
        elif c == "badopt":
            opts.insert(0, "-" + rng.choice("xzqno"))
        elif c == "h":
            opts.insert(0, "-h")
        elif c == "emptyname":
            args = [""]
        elif c == "longname":
            args = ["x" * rng.choice([256, 5000, 100000])]
        elif c == "dangling":
            os.symlink("nowhere", fn)
            args = [fn]
        r = a.cmd("store", *(opts + args), stdin=stdin, variant=h.var(), **kw)
        ctx.stats["evaluations"] += 1
        h.log.append("store %s -> %s" % (" ".join(repr(x[:60]) for x in opts + args), r.rc))
        brief = "store %s" % [x[:100] for x in opts + args]
        now = a.tree()
        if why:
            ctx.stats["refused"] += 1
            ctx.seen("refused", tuple(sorted(set(why))))
            if r.rc == 0:
                return h.bad("accepted:" + why[0], "%s succeeds (%s)" % (brief, why), r, lists=lists)
            if r.crashed or (r.err.startswith(b"Assert error")):
                return h.bad("crash:" + why[0], "%s crashes (%s)" % (brief, why), r, lists=lists)
            if r.out:
                return h.bad("output:" + why[0], "%s fails, but prints %r" % (brief, r.out[:100]), r)
            if now != snap:
                ch = sorted(k for k in set(now) | set(snap) if now.get(k) != snap.get(k))
                return h.bad("stored:" + why[0], "%s fails (%s), but changes %s" % (brief, why, ch), r)
            continue
        # This has to work
        if r.rc != 0 or r.crashed:
            return h.bad("refused", "%s does not succeed" % brief, r, lists=lists)
        ctx.stats["accepted"] += 1
        if forced is not None:
            i = valid_id(cfg, forced)
        elif typ == "metadata":
            u = ref if len(ref) != w else cfg.prefix + ref
            x = hashlib.sha256(b"<" + u.encode() + b">\n" + hashlib.sha256(body).hexdigest().encode() + b"\n")
            i = x.hexdigest()[:w]
        else:
            i = a.rid(body)
        if r.out != (cfg.prefix + i + "\n").encode():
            return h.bad("id", "%s printed %r instead of %s" % (brief, r.out[:200], i), r)
        ctx.seen("accepted", typ, c, forced is not None, len(mt) > 1000, i.lower() in have)
        if i.lower() in have:
            if {k: v for k, v in now.items() if k != "_.cache"} != {k: v for k, v in snap.items() if k != "_.cache"}:
                return h.bad("dup-stored", "%s was there already, but changes the archive" % brief, r)
            snap = now
            continue
        m = warc.load(a)
        for k, msg in m.errs:
            return h.bad("silo-" + k, "%s after %s" % (msg, brief), r)
        got = m.objects().get(i.lower())
        if not got or len(got) != 1 or got[0][1] != body or got[0][0] != typ:
            return h.bad("content", "%s did not store it (%r)" % (brief, got and (got[0][0], len(got[0][1]))), r)
        rec = got[0][2][0][1]
        if rec.get("Content-Type") != mt and (rec.get("Content-Type") or "").strip() != mt.strip():
            return h.bad("header-mime", "Content-Type is %r, not %r" % (rec.get("Content-Type"), mt), r)
        if typ == "metadata" and rec.get("WARC-Refers-To") != "<" + (ref if len(ref) != w else cfg.prefix + ref) + ">":
            return h.bad("header-ref", "WARC-Refers-To is %r for %s" % (rec.get("WARC-Refers-To"), brief), r)
        ctx.stats["headers_checked"] += 1
        if rng.random() < .3:
            g = a.cmd("get", "-q", i, variant=h.var())
            if g.rc != 0 or g.out != body:
                return h.bad("get", "what %s stored can not be retrieved" % brief, g)
            ctx.stats["gets"] += 1
        have[i.lower()] = typ
        snap = a.tree()
    ctx.sample(dict(lists=lists, history=h.log[-8:]))
