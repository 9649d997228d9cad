"""Random histories of archive operations, with a reference model.

The model is a dictionary {id: (type, bytes, mime, ref-uri)}, the oracle
compares everything the program says with it.
"""
import hashlib
import json
import os
import zlib

from . import core, gen, warc, idx

PREFIXES = ["file://example.com/aa/", "http://x/", "urn:aardwarc/",
    "file://Datamuseum.DK/AA/", "/", "file://a.very.long.host.name.example.com/and/a/path/which/goes/on/",
    "file://" + "a-very-long-prefix/" * 16]
BASENAMES = [None, "%08u.warc.gz", "%u.warc.gz", "AA_%04u.gz", "%u", "silo-%010u-x.warc"]
BITS = [None, 64, 68, 72, 80, 92, 96, 100, 128, 160, 252, 256]
SIZES = ["5k", "6000", "7k", "9k", "12345", "15k", "15k", "20k", "33k", "64k",
    "100k", "129k", "150k", "200k", "260k", "400k", "1M", "1100k", "2M", "3M"]
MIMES = ["application/octet-stream", "text/plain", "image/png",
    "text/plain; charset=utf-8", "application/x-very-long-mime-type-name-for-padding"]


def random_cfg(rng, bits=BITS, sizes=SIZES, small=False):
    ms = rng.choice(sizes[:10] if small else sizes)
    return core.Cfg(
        prefix=rng.choice(PREFIXES), bits=rng.choice(bits), maxsize=ms,
        basename=rng.choice(BASENAMES),
        sort_size=rng.choice([None, "4k", "4096", "5000", "64k", "10M"]),
        warcinfo=rng.choice([
            (("operator:", "Test Operator"), ("publisher:", "Pub")),
            (("operator:", "x"),),
            (("title:", "ignored"), ("isPartOf:", "Some collection"), ("format:", "bogus")),
            (("operator:", "Jens  Jensen"), ("description:", None), ("dc-creator:", "a:b: c")),
            (),
            None,
        ]))


def decompress_all(b):
    """Exactly one gzip member, nothing after it"""
    d = zlib.decompressobj(31)
    o = d.decompress(b) + d.flush()
    if not d.eof:
        raise zlib.error("truncated")
    if d.unused_data:
        raise zlib.error("%d trailing bytes" % len(d.unused_data))
    return o


class Hist(object):
    def __init__(self, ctx, arch, variants=("plain",)):
        self.ctx = ctx
        self.a = arch
        self.rng = ctx.rng
        self.objs = {}          # id -> dict(type, data, mime, ref)
        self.order = []
        self.log = []
        self.variants = variants
        self.mimes = MIMES

    def var(self):
        return self.rng.choice(self.variants)

    # -- operations --------------------------------------------------

    def bad(self, sig, msg, r=None, **kw):
        if r is not None:
            kw["result"] = r.brief()
        kw["config"] = self.a.cfg.text("DIR/").replace("\n", "|")
        kw["history"] = self.log[-12:]
        self.ctx.violate(sig, msg, **kw)

    def ok(self, r, what):
        """A command which has no reason to fail"""
        if r.rc != 0 or r.crashed:
            k = "crash" if r.crashed else "fail"
            self.bad("%s-%s" % (what, k), "%s did not succeed" % what, r)
            return False
        return True

    def store(self, data=None, mime=None, n=None, kind=None, via=None):
        rng = self.rng
        if data is None:
            if n is None:
                n = gen.size(rng, self.a.cfg.maxbytes)
            data = gen.exact(rng, n, kind)
        opts = []
        if mime is None:
            mime = rng.choice([None] * 3 + self.mimes)
        if mime:
            opts += ["-m", mime]
        if rng.random() < .2:
            opts += ["-t", "resource"]
        rid = self.a.rid(data)
        dup = rid in self.objs
        r = self.a.store(data, *opts, via=via or rng.choice(["stdin", "dash", "file"]),
            variant=self.var())
        self.log.append("store %d bytes%s -> %s" % (len(data), " dup" if dup else "", r.rc))
        self.ctx.stats["stores"] += 1
        if not self.ok(r, "store"):
            return None
        if r.out != (self.a.uri(rid) + "\n").encode():
            self.bad("store-id", "printed %r, expected %s" % (r.out[:200], self.a.uri(rid)), r)
            return None
        if not dup:
            self.objs[rid] = dict(type="resource", data=data,
                mime=mime or "application/octet-stream", ref=None)
            self.order.append(rid)
        elif b"already in archive" not in r.err:
            self.bad("store-dup-msg", "duplicate store not reported as such", r)
        return rid

    def metadata(self, ref=None, data=None, n=None, forced=None, kind=None):
        rng = self.rng
        if ref is None:
            ref = rng.choice(self.order)
        if data is None:
            if n is None:
                n = gen.size(rng, self.a.cfg.maxbytes, 2.0)
            data = gen.exact(rng, n, kind)
        mime = rng.choice(self.mimes)
        uri = self.a.uri(ref)
        mid = forced or self.a.mid(uri, data)
        dup = mid.lower() in self.objs
        opts = ["-t", "metadata", "-m", mime, "-r",
            ref if rng.random() < .5 else uri]
        if forced:
            opts += ["-i", forced]
        r = self.a.store(data, *opts, via=rng.choice(["stdin", "dash", "file"]), variant=self.var())
        self.log.append("metadata %d bytes ref %s%s -> %s" % (len(data), ref[:8], " dup" if dup else "", r.rc))
        self.ctx.stats["metadata_stores"] += 1
        if not self.ok(r, "store-metadata"):
            return None
        if r.out != (self.a.uri(mid) + "\n").encode():
            self.bad("metadata-id", "printed %r, expected %s" % (r.out[:200], self.a.uri(mid)), r)
            return None
        if not dup:
            self.objs[mid.lower()] = dict(type="metadata", data=data, mime=mime,
                ref=uri, forced=forced)
            self.order.append(mid.lower())
        return mid.lower()

    def housekeeping(self):
        r = self.a.cmd("housekeeping", variant=self.var())
        self.log.append("housekeeping -> %s" % r.rc)
        self.ctx.stats["housekeepings"] += 1
        return self.ok(r, "housekeeping")

    def mksilo(self, n):
        r = self.a.cmd("mksilo", str(n), variant=self.var())
        self.log.append("mksilo %d -> %s" % (n, r.rc))
        return r

    # -- observations ------------------------------------------------

    def spell(self, rid):
        rng = self.rng
        c = rng.randrange(5)
        s = rid
        if c == 1:
            s = rid.upper()
        elif c == 2:
            s = self.a.uri(rid)
        elif c == 3:
            s = self.a.cfg.prefix + "".join(rng.choice([x.upper(), x]) for x in rid)
        elif c == 4:
            s = self.a.cfg.prefix.upper() + rid
        return s

    def get(self, rid, mode=None):
        """Fetch one object and compare"""
        rng = self.rng
        o = self.objs[rid]
        mode = mode or rng.choice(["plain", "quiet", "file", "gzip", "gzipfile"])
        name = self.spell(rid)
        opts = []
        of = None
        if mode in ("file", "gzipfile"):
            of = os.path.join(self.a.root, "_out%d" % self.ctx.uniq())
            opts += ["-o", of]
        if mode.startswith("gzip"):
            opts += ["-z"]
        if mode in ("quiet", "gzip"):
            opts += ["-q"]
        r = self.a.cmd("get", *(opts + [name]), variant=self.var())
        self.ctx.stats["gets"] += 1
        if not self.ok(r, "get"):
            return False
        hdr = None
        if of:
            b = open(of, "rb").read()
            os.unlink(of)
            hdr = r.out
        else:
            b = r.out
            hdr = r.err
        if mode.startswith("gzip"):
            try:
                b = decompress_all(b)
            except zlib.error as e:
                self.bad("get-gzip", "object %s (%d bytes): -z output is not one gzip member: %s" % (rid, len(o["data"]), e), r)
                return False
        if b != o["data"]:
            self.bad("get-content", "object %s: got %d bytes, stored %d (%s)" % (rid, len(b), len(o["data"]), mode), r)
            return False
        if mode in ("plain", "file", "gzipfile"):
            return self.check_headers(rid, hdr)
        return True

    def check_headers(self, rid, hdr):
        """The headers get shows describe the whole object"""
        o = self.objs[rid]
        try:
            v, f = warc.parse_header(hdr)
        except warc.WarcError as e:
            self.bad("get-headers", "unparseable headers: %s" % e, headers=hdr)
            return False
        d = {k.lower(): x for k, x in f}
        dig = "sha256:" + hashlib.sha256(o["data"]).hexdigest()
        want = {
            "warc-record-id": "<" + self.a.cfg.prefix + rid + ">",
            "warc-type": o["type"],
            "content-type": o["mime"],
            "content-length": str(len(o["data"])),
            "warc-block-digest": dig,
        }
        if o["ref"]:
            want["warc-refers-to"] = "<" + o["ref"] + ">"
        for k, x in want.items():
            g = d.get(k)
            if k == "warc-record-id" and g is not None and o.get("forced"):
                g, x = g.lower(), x.lower()
            if g != x:
                self.bad("get-headers", "object %s: %s is %r, want %r" % (rid, k, d.get(k), x))
                return False
        self.ctx.stats["headers_checked"] += 1
        return True

    def get_all(self, mode=None, sample=None):
        ids = list(self.order)
        if sample and len(ids) > sample:
            ids = self.rng.sample(ids, sample)
        for rid in ids:
            self.get(rid, mode)

    def random_ops(self, nops, p_meta=.15, p_hk=.12, p_dup=.08, p_mksilo=.03, max_n=None):
        rng = self.rng
        for _ in range(nops):
            c = rng.random()
            if c < p_meta and self.order:
                if self.metadata() is None:
                    return False
            elif c < p_meta + p_hk:
                if not self.housekeeping():
                    return False
            elif c < p_meta + p_hk + p_dup and self.order:
                rid = rng.choice(self.order)
                o = self.objs[rid]
                if o["type"] == "resource":
                    self.store(data=o["data"])
            elif c < p_meta + p_hk + p_dup + p_mksilo:
                nums = self.a.silo_nums()
                self.mksilo(rng.randrange(max(nums, default=0) + 3))
            else:
                n = None
                if max_n:
                    n = min(max_n, gen.size(rng, self.a.cfg.maxbytes))
                if self.store(n=n) is None:
                    return False
        return True
