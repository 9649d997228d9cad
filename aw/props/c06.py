"""C06 CGI"""
import os
import zlib

from .. import core, gen, hist, huge

VARIANTS = ["plain", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: every CGI response of random archives and hostile environments parsed "
    "and compared with a reference model")
NOTE = ("Response header, length and decoded body of every request are checked; bounded by the archives "
    "and environments generated.")
RULE = ("random archives (resources, metadata, segmented) and requests with IDs in all spellings, "
    "accept-encodings, wrong IDs, hostile paths, methods and gateway interfaces; "
    "distinct = (kind of request, segmented, gzip accepted, mime-type)")
NEED = {"huge_requests": 1, "big_silos": 1, "ok_requests": 400, "gzip_responses": 50, "bad_paths": 200, "refused": 100, "segmented_requests": 30}

ENC = [None, None, "gzip", "gzip, deflate, br", "deflate", "identity", "", "deflate;q=0.5, gzip;q=1.0",
    "br", "*", "x" * 5000, "deflate, gz ip", "GZIP" * 0 + "compress"]


def cases(tier, seed):
    return (["g%d" % i for i in range(2 if tier == "quick" else 8)] + ["b%d" % i for i in range(1 if tier == "quick" else 6)] +
        list(range(400 if tier == "quick" else 2500)))


def huge_case(ctx, case):
    """Content-Length of 4 GiB and more"""
    rng = ctx.rng
    a = core.Archive(ctx, "huge", cfg=core.Cfg(maxsize="100M" if case[0] == "g" else "9G"))
    if case[0] == "b":
        # 4 GiB even when compressed
        h = hist.Hist(ctx, a, VARIANTS)
        with huge.NoFsize():
            x = huge.big_silo(ctx, h, 2, "x-huge/x")
        if x is None:
            return
        huge_requests(ctx, a, x[0].id, x[0].sha, x[0].size, 1, [True] + [False] * (case != "b0"))
        a.destroy()
        return
    n = 1 if case == "g0" else rng.randrange(1, 4)
    parts = [huge.Part(rng, rng.randrange(1, 1 << 20), rng.randbytes(rng.randrange(1, 3000))) for _ in range(n)]
    parts[rng.randrange(n)] = huge.Part(rng, (1 << 32) + rng.randrange(1 << 24), rng.randbytes(99))
    f = huge.forge(ctx, a, parts, "x-huge/x")
    if f is None:
        return
    rid, sha, size = f
    huge_requests(ctx, a, rid, sha, size, n, [False] if case == "g1" else [True, False])


def huge_requests(ctx, a, rid, sha, size, n, gzs):
    for gz in gzs:
        env = dict(PATH_INFO="/" + rid, REQUEST_METHOD="GET", GATEWAY_INTERFACE="CGI/1.1")
        if gz:
            env["HTTP_ACCEPT_ENCODING"] = "gzip"
        want = huge.Sum() if not gz or n > 1 else huge.Gunzip()
        st = dict(head=b"", body=False, raw=0)

        def sink(b):
            if not st["body"]:
                st["head"] += b
                head, sep, b = st["head"].partition(b"\n\n")
                if not sep:
                    return
                st["head"] = head
                st["body"] = True
            st["raw"] += len(b)
            want(b)
        r = huge.stream(a.argv("cgi"), sink, env=env)
        ctx.stats["huge_requests"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("huge", n, gz)
        h = dict(x.split(b": ", 1) for x in st["head"].split(b"\n") if b": " in x)
        if r.rc != 0 or h.get(b"Content-Type") != b"x-huge/x":
            ctx.violate("huge-refused", "cgi for %d bytes" % size, result=r.brief(), head=repr(st["head"][:500]))
            return
        if h.get(b"Content-Length", b"").decode() != str(st["raw"]):
            ctx.violate("huge-length", "Content-Length %r, %d bytes in the response" % (h.get(b"Content-Length"), st["raw"]))
        if (h.get(b"Content-Encoding") == b"gzip") != isinstance(want, huge.Gunzip):
            ctx.violate("huge-encoding", "Content-Encoding %r" % h.get(b"Content-Encoding"))
            return
        if isinstance(want, huge.Gunzip) and want.done():
            ctx.violate("huge-gzip", "%s" % want.error)
        elif want.n != size or want.h.hexdigest() != sha:
            ctx.violate("huge-content", "%d bytes, stored %d" % (want.n, size))


def cgi(h, path, enc=None, method="GET", gw="CGI/1.1", extra=None):
    env = {}
    if path is not None:
        env["PATH_INFO"] = path
    if enc is not None:
        env["HTTP_ACCEPT_ENCODING"] = enc
    if method is not None:
        env["REQUEST_METHOD"] = method
    if gw is not None:
        env["GATEWAY_INTERFACE"] = gw
    env.update(extra or {})
    return h.a.cmd("cgi", env=env, variant=h.var())


def parse(h, r):
    """-> (dict of headers, body) or None"""
    head, sep, body = r.out.partition(b"\n\n")
    if not sep:
        h.bad("no-header-end", "no empty line after the headers", r)
        return None
    d = {}
    for ln in head.split(b"\n"):
        k, s, v = ln.rstrip(b"\r").partition(b": ")
        k = k.decode("latin-1").lower()
        if not s or k in d:
            h.bad("bad-header", "header line %r" % ln[:100], r)
            return None
        d[k] = v.decode("utf-8", "replace")
    return d, body


def run_case(ctx, case):
    rng = ctx.rng
    if str(case)[0] in "gb":
        return huge_case(ctx, case)
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if not h.random_ops(rng.randrange(3, 10)):
        return
    if rng.random() < .7:
        h.store(data=gen.exact(rng, int(cfg.maxbytes * rng.uniform(1.3, 3)), "random"))
    if not h.order:
        h.store(n=10)
    if ctx.violations:
        return
    ids = list(h.order)
    for rid in rng.sample(ids, min(len(ids), 8)):
        o = h.objs[rid]
        enc = rng.choice(ENC)
        path = rng.choice(["/", "/", ""]) + h.spell(rid)
        if path[0] != "/" and cfg.prefix == "/":
            pass
        if cfg.prefix[0] == "/" and path.startswith("/") and not path.startswith("//"):
            # the first slash is not part of the ID
            path = "/" + rid
        r = cgi(h, path, enc)
        ctx.stats["ok_requests"] += 1
        ctx.stats["evaluations"] += 1
        if not h.ok(r, "cgi"):
            return
        p = parse(h, r)
        if p is None:
            return
        d, body = p
        if not d.get("status", "200").startswith("200"):
            h.bad("status", "object %s path %r: status %r" % (rid, path, d.get("status")), r)
            continue
        if d.get("content-type") != o["mime"]:
            h.bad("content-type", "object %s: %r, stored as %r" % (rid, d.get("content-type"), o["mime"]), r)
        if d.get("content-length") != str(len(body)):
            h.bad("content-length", "object %s: %r, body has %d bytes" % (rid, d.get("content-length"), len(body)), r)
        ce = d.get("content-encoding")
        if ce is not None:
            if ce != "gzip" or "gzip" not in (enc or ""):
                h.bad("content-encoding", "object %s: %r for accept %r" % (rid, ce, enc), r)
            try:
                body = hist.decompress_all(body)
            except zlib.error as e:
                h.bad("gzip-body", "object %s: %s" % (rid, e), r)
                continue
            ctx.stats["gzip_responses"] += 1
        if body != o["data"]:
            h.bad("body", "object %s: %d bytes differ from the %d stored (encoding %s)" % (
                rid, len(body), len(o["data"]), ce), r)
        segd = len(o["data"]) > cfg.maxbytes * 1.2
        if segd:
            ctx.stats["segmented_requests"] += 1
        ctx.seen("ok", segd, ce, o["mime"], o["type"])
    # Paths which are not the ID of an object
    for _ in range(6):
        k = rng.randrange(11)
        rid = rng.choice(ids)
        if k == 0:
            p = "/%0*x" % (cfg.idlen, rng.getrandbits(cfg.bits or 128))
        elif k == 1:
            p = "/" + rid[:-1]
        elif k == 2:
            p = "/" + rid + "0"
        elif k == 3:
            p = "/" + rid[:-1] + "g"
        elif k == 4:
            p = "/"
        elif k == 5:
            p = ""
        elif k == 6:
            p = "/" + "a" * rng.choice([1000, 70000])
        elif k == 7:
            p = "/../../../etc/passwd"
        elif k == 8:
            p = "/" + cfg.prefix
        elif k == 9:
            p = "/" + rid[:24] + "%0*x" % (cfg.idlen - 24, rng.getrandbits(160)) if cfg.idlen > 40 else "/%s/%s" % (rid, rid)
            if p[1:1 + cfg.idlen].lower() in h.objs and len(p) == cfg.idlen + 1:
                continue
        else:
            p = "/" + "".join(chr(rng.randrange(1, 127)) for _ in range(cfg.idlen))
        r = cgi(h, p, rng.choice(ENC))
        ctx.stats["bad_paths"] += 1
        ctx.stats["evaluations"] += 1
        if r.crashed:
            h.bad("crash", "path %r" % p[:100], r)
            continue
        ctx.seen("bad", k)
        if r.rc == 0:
            q = parse(h, r)
            if q and q[0].get("status", "200").startswith("200"):
                h.bad("bad-path-200", "path %r answered with success" % p[:100], r)
        elif b"200" in r.out.split(b"\n\n")[0]:
            h.bad("bad-path-200", "path %r answered with success" % p[:100], r)
    # Requests which must be refused
    rid = rng.choice(ids)
    for method, gw, path in ((rng.choice(["HEAD", "POST", "PUT", "", "get", "GETX", "GE", None]), "CGI/1.1", "/" + rid),
            ("GET", rng.choice(["CGI/1.0", "", "CGI/1.11", "cgi/1.1", None, "CGI"]), "/" + rid),
            ("GET", "CGI/1.1", None)):
        r = cgi(h, path, rng.choice(ENC), method, gw)
        ctx.stats["refused"] += 1
        ctx.stats["evaluations"] += 1
        ctx.seen("refuse", method, gw, path is None)
        if r.crashed:
            h.bad("crash", "method %r gateway %r" % (method, gw), r)
        elif r.rc == 0 or r.out:
            h.bad("not-refused", "method %r gateway %r path %r: rc=%d %d bytes of output" % (
                method, gw, path, r.rc, len(r.out)), r)
    ctx.sample(dict(config=cfg.text("DIR/"), objects=len(ids)))
