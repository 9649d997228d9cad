"""C10 Audit"""
import hashlib
import os
import re
import struct
import zlib

from .. import core, gen, hist, huge, warc

VARIANTS = ["plain", "o2", "ubsan"]
LEVEL = "exploration"
TECHNIQUE = ("runtime monitoring: audit observed on intact random archives (must be silent and count every "
    "record an independent reader finds) and on archives with one known semantic or byte-level damage "
    "(must report or fail, and terminate)")
NOTE = ("Every damage is applied by an independent WARC writer and re-verified to be one by an independent "
    "reader before audit is asked. Bounded by the archives and damages generated.")
RULE = ("random archives; damages of 34 kinds applied to random records; distinct = (kind of damage, "
    "record type, segment?, id width, reported or failed)")
NEED = {"intact_audits": 250, "records_audited": 2500, "damaged": 1500, "segment_damage": 200, "byte_damage": 300, "parallel_copies": 150, "big_silos": 1}


def cases(tier, seed):
    if tier == "quick":
        return ["b0"] + list(range(500)) + ["p%d" % i for i in range(120)]
    return ["g%d" % i for i in range(8)] + ["b%d" % i for i in range(12)] + list(range(3000)) + ["p%d" % i for i in range(1500)]


def huge_case(ctx, case):
    """Records of 4 GiB and more: intact, or with a length which is wrong by 4 GiB"""
    rng = ctx.rng
    a = core.Archive(ctx, "huge", cfg=core.Cfg(maxsize="100M"))
    n = rng.randrange(1, 4)
    parts = [huge.Part(rng, rng.randrange(1, 1 << 20), rng.randbytes(rng.randrange(1, 3000))) for _ in range(n)]
    k = rng.randrange(n)
    parts[k] = huge.Part(rng, (1 << 32) + rng.randrange(1, 1 << 24), rng.randbytes(99))
    what = ["intact", "Content-Length", "WARC-Segment-Total-Length", "intact"][int(case[1:]) % 4]
    if n == 1 and what == "WARC-Segment-Total-Length":
        what = "Content-Length"

    def lie(i, p, f):
        for j, (name, v) in enumerate(f):
            if name == what and v >= 1 << 32:
                f[j] = (name, v + rng.choice([-1, 1]) * (1 << 32))
    if huge.forge(ctx, a, parts, lie=lie) is None:
        return
    r = a.cmd("audit", timeout=900, preexec=huge.long_run)
    ctx.stats["evaluations"] += 1
    ctx.seen("huge", what, n)
    good = [int(x) for x, y in SUMMARY.findall(r.out)]
    if what == "intact" and (reported(r) or good != [2] * n):
        ctx.violate("huge-intact", "audit of %d bytes in %d records" % (sum(p.size for p in parts), n), result=r.brief())
    elif what != "intact" and not reported(r):
        ctx.violate("huge-missed", "%s wrong by 4 GiB is not reported" % what, result=r.brief())


SUMMARY = re.compile(rb"^(\d+) good (\d+) bad entries in this silo$", re.M)


def reported(r):
    return r.rc != 0 or b"ERROR" in r.out or b"Left on pending" in r.out


def check_intact(ctx, h, m, opts=(), args=()):
    a = h.a
    r = a.cmd("audit", *(list(opts) + list(args)), variant=h.var())
    ctx.stats["intact_audits"] += 1
    ctx.stats["evaluations"] += 1
    if not h.ok(r, "audit"):
        return
    if reported(r):
        i = max(0, r.out.find(b"ERROR"))
        h.bad("false-alarm", "audit reports errors in an intact archive: %r" % r.out[i:i + 300], r)
        return
    t = [(int(g), int(b)) for g, b in SUMMARY.findall(r.out)]
    good, bad = sum(x[0] for x in t), sum(x[1] for x in t)
    n = sum(1 for _ in m.records())
    ctx.stats["records_audited"] += n
    if (good, bad, len(t)) != (n, 0, len(m.silos)):
        h.bad("counts", "audit counts %d good %d bad in %d silos, there are %d records in %d" % (
            good, bad, len(t), n, len(m.silos)), r)
    segs = r.out.count(b"Auditing this segmented object")
    want = sum(1 for _, x in m.records() if x.segno == 1)
    if segs != want:
        h.bad("segmented-count", "audit verified %d segmented objects of %d" % (segs, want), r)


def flip_digit(rng, s, i=None):
    i = rng.randrange(len(s)) if i is None else i
    return s[:i] + rng.choice([c for c in "0123456789abcdef" if c != s[i].lower()]) + s[i + 1:]


class Damage(object):
    """Applies one damage to a cloned archive"""

    def __init__(self, ctx, h, m):
        self.ctx, self.h, self.m, self.rng = ctx, h, m, ctx.rng
        self.recs = list(m.records())
        self.segs = [x for x in self.recs if x[1].segno is not None]
        self.conts = [x for x in self.segs if x[1].segno > 1]
        self.firsts = [x for x in self.segs if x[1].segno == 1]
        self.plain = [x for x in self.recs if x[1].segno is None]
        self.res = [x for x in self.plain if x[1].type == "resource"]
        self.meta = [x for x in self.plain if x[1].type == "metadata" and not h.objs[x[1].id.lower()].get("forced")]
        self.lasts = [x for x in self.conts if x[1].get("WARC-Segment-Total-Length")]

    def path(self, b, n):
        return b.silo_path(n)

    def rewrite(self, b, n, rec, fields=None, body=None, aa=None, drop=False, dup=False):
        """Replace one record in silo n of archive b"""
        with open(b.silo_path(n), "rb") as f:
            buf = f.read()
        if drop:
            new = b""
        else:
            new = warc.record_bytes(rec.fields if fields is None else fields,
                rec.body if body is None else body, self.rng.choice([1, 6, 9]), aa)
        if dup:
            new += new
        with open(b.silo_path(n), "wb") as f:
            f.write(buf[:rec.off] + new + buf[rec.end:])

    def setf(self, rec, name, val):
        """Fields with one of them changed or (None) removed"""
        return [(k, val if k == name else v) for k, v in rec.fields
            if not (k == name and val is None)]

    def mutate_body(self, rec):
        rng = self.rng
        b = bytearray(rec.body)
        k = rng.randrange(4)
        i = rng.randrange(len(b))
        if k == 0:
            b[i] ^= 1 << rng.randrange(8)
        elif k == 1:
            b.insert(i, rng.randrange(256))
        elif k == 2 and len(b) > 1:
            del b[i]
        elif k == 3 and len(b) > 1 and b[i - 1] != b[i]:
            b[i - 1], b[i] = b[i], b[i - 1]
        else:
            b[i] ^= 0xff
        return bytes(b)

    def consistent(self, rec, body, newid):
        """Fields with length and digest (and ID) made to fit body"""
        dig = hashlib.sha256(body).hexdigest()
        f = self.setf(rec, "Content-Length", str(len(body)))
        f = [(k, "sha256:" + dig if k == "WARC-Block-Digest" else v) for k, v in f]
        if newid:
            i = "<%s%s>" % (self.h.a.cfg.prefix, dig[:self.h.a.cfg.idlen])
            f = [(k, i if k == "WARC-Record-ID" else v) for k, v in f]
        return f

    def pick(self, l):
        return self.rng.choice(l) if l else None

    def apply(self, b, kind):
        """-> (silo, record) or None when not applicable"""
        rng = self.rng
        R = self.rewrite
        x = None
        if kind == "body-altered":
            x = self.pick(self.recs)
            R(b, x[0], x[1], body=self.mutate_body(x[1]))
        elif kind == "body-altered-length-adjusted":
            x = self.pick(self.recs)
            nb = self.mutate_body(x[1])
            R(b, x[0], x[1], self.setf(x[1], "Content-Length", str(len(nb))), nb)
        elif kind == "content-length":
            x = self.pick(self.recs)
            n = len(x[1].body)
            R(b, x[0], x[1], self.setf(x[1], "Content-Length",
                rng.choice([str(n + 1), str(n - 1), str(n * 10), "0", "-%d" % n, "", "0%d" % n])))
        elif kind == "no-content-length":
            x = self.pick(self.recs)
            R(b, x[0], x[1], self.setf(x[1], "Content-Length", None))
        elif kind == "block-digest":
            x = self.pick(self.recs)
            R(b, x[0], x[1], self.setf(x[1], "WARC-Block-Digest",
                "sha256:" + flip_digit(rng, x[1].get("WARC-Block-Digest")[7:])))
        elif kind == "block-digest-shape":
            x = self.pick(self.recs)
            d = x[1].get("WARC-Block-Digest")
            R(b, x[0], x[1], self.setf(x[1], "WARC-Block-Digest",
                rng.choice([d[:-1], d + "0", d[7:], "sha1:" + d[7:], "", "sha256:", "sha256"])))
        elif kind == "no-block-digest":
            x = self.pick(self.recs)
            R(b, x[0], x[1], self.setf(x[1], "WARC-Block-Digest", None))
        elif kind in ("resource-id", "metadata-id", "continuation-id"):
            x = self.pick({"r": self.res, "m": self.meta, "c": self.conts}[kind[0]])
            if x is None:
                return None
            R(b, x[0], x[1], self.setf(x[1], "WARC-Record-ID",
                "<%s%s>" % (b.cfg.prefix, flip_digit(rng, x[1].id))))
        elif kind == "warcinfo-id":
            x = self.pick([y for y in self.recs if y[1].type == "warcinfo"])
            R(b, x[0], x[1], self.setf(x[1], "WARC-Record-ID",
                "<%s%s>" % (b.cfg.prefix, flip_digit(rng, x[1].id))))
        elif kind == "resource-replaced":
            # Other content with matching digest and length under this ID
            x = self.pick(self.res)
            if x is None:
                return None
            nb = self.mutate_body(x[1])
            R(b, x[0], x[1], self.consistent(x[1], nb, False), nb)
        elif kind == "metadata-replaced":
            x = self.pick(self.meta)
            if x is None:
                return None
            nb = self.mutate_body(x[1])
            R(b, x[0], x[1], self.consistent(x[1], nb, False), nb)
        elif kind == "metadata-refers-to":
            x = self.pick(self.meta)
            if x is None:
                return None
            rt = x[1].get("WARC-Refers-To")
            R(b, x[0], x[1], self.setf(x[1], "WARC-Refers-To", rt[:-2] + flip_digit(rng, rt[-2]) + ">"))
        elif kind == "ids-swapped":
            if len(self.res) < 2:
                return None
            x, y = rng.sample(self.res, 2)
            if x[0] == y[0] and x[1].off > y[1].off:
                x, y = y, x
            # the later one first, the offsets of the other one stay valid
            R(b, y[0], y[1], self.setf(y[1], "WARC-Record-ID", x[1].get("WARC-Record-ID")))
            R(b, x[0], x[1], self.setf(x[1], "WARC-Record-ID", y[1].get("WARC-Record-ID")))
        elif kind == "bodies-swapped":
            l = self.res + self.meta
            if len(l) < 2:
                return None
            x, y = rng.sample(l, 2)
            if x[1].body == y[1].body:
                return None
            if x[0] == y[0] and x[1].off > y[1].off:
                x, y = y, x
            R(b, y[0], y[1], body=x[1].body)
            R(b, x[0], x[1], body=y[1].body)
        elif kind == "body-aa":
            x = self.pick(self.recs)
            with open(b.silo_path(x[0]), "r+b") as f:
                f.seek(x[1].body_off + 16)
                f.write(struct.pack("<Q", max(0, x[1].body_len + rng.choice([-1, 1, 1000, -20]))))
        # -- segments -------------------------------------------------
        elif kind == "segment-missing":
            x = self.pick(self.segs)
            if x is None:
                return None
            R(b, x[0], x[1], drop=True)
        elif kind == "segment-silo-missing":
            x = self.pick(self.segs)
            if x is None:
                return None
            os.unlink(b.silo_path(x[0]))
        elif kind == "segment-number":
            x = self.pick(self.segs)
            if x is None:
                return None
            n = x[1].segno
            R(b, x[0], x[1], self.setf(x[1], "WARC-Segment-Number",
                rng.choice([str(n + 1), str(n + 2), "0" if n > 1 else "2", "x", "%dx" % n, "", "-1", "99999"])))
        elif kind == "segments-renumbered":
            # two segments of one object change places
            y = self.pick(self.firsts)
            if y is None:
                return None
            l = [c for c in self.conts if c[1].get("WARC-Segment-Origin-ID") == "<%s%s>" % (b.cfg.prefix, y[1].id)]
            l = [c for c in l if c not in self.lasts]
            if len(l) < 2:
                return None
            x, y = rng.sample(l, 2)
            if x[1].body == y[1].body:
                return None
            R(b, y[0], y[1], self.setf(y[1], "WARC-Segment-Number", str(x[1].segno)))
            R(b, x[0], x[1], self.setf(x[1], "WARC-Segment-Number", str(y[1].segno)))
        elif kind == "total-length":
            x = self.pick(self.lasts)
            if x is None:
                return None
            n = int(x[1].get("WARC-Segment-Total-Length"))
            R(b, x[0], x[1], self.setf(x[1], "WARC-Segment-Total-Length",
                rng.choice([str(n + 1), str(n - 1), "0", "", str(len(x[1].body)), "-1"])))
        elif kind == "no-total-length":
            x = self.pick(self.lasts)
            if x is None:
                return None
            R(b, x[0], x[1], self.setf(x[1], "WARC-Segment-Total-Length", None))
        elif kind == "early-total-length":
            l = [c for c in self.conts if c not in self.lasts]
            x = self.pick(l)
            if x is None:
                return None
            R(b, x[0], x[1], x[1].fields + [("WARC-Segment-Total-Length", str(rng.choice([
                len(x[1].body), x[1].segno * len(x[1].body)])))])
        elif kind == "payload-digest":
            x = self.pick(self.firsts)
            if x is None:
                return None
            R(b, x[0], x[1], self.setf(x[1], "WARC-Payload-Digest",
                "sha256:" + flip_digit(rng, x[1].get("WARC-Payload-Digest")[7:])))
        elif kind == "no-payload-digest":
            x = self.pick(self.firsts)
            if x is None:
                return None
            R(b, x[0], x[1], self.setf(x[1], "WARC-Payload-Digest", None))
        elif kind == "origin":
            x = self.pick(self.conts)
            if x is None:
                return None
            o = x[1].get("WARC-Segment-Origin-ID")
            others = ["<%s%s>" % (b.cfg.prefix, y[1].id) for y in self.firsts]
            others = [y for y in others if y != o]
            new = o[:-2] + flip_digit(rng, o[-2]) + ">"
            if others and rng.random() < .6:
                new = rng.choice(others)
            elif rng.random() < .3:
                new = rng.choice([o[1:], o[:-1], o + "x", "", "<>", o[:-2] + ">", o[:-1] + "0>", "<x" + o[1:]])
            R(b, x[0], x[1], self.setf(x[1], "WARC-Segment-Origin-ID", new))
        elif kind == "no-origin":
            x = self.pick(self.conts)
            if x is None:
                return None
            R(b, x[0], x[1], self.setf(x[1], "WARC-Segment-Origin-ID", None))
        elif kind == "segment-replaced":
            # consistent in itself, but not part of the object
            x = self.pick(self.segs)
            if x is None:
                return None
            nb = self.mutate_body(x[1])
            R(b, x[0], x[1], self.consistent(x[1], nb, x[1].segno > 1), nb)
        elif kind == "segmented-id":
            x = self.pick([y for y in self.firsts if y[1].type == "resource" or
                not self.h.objs[y[1].id.lower()].get("forced")])
            if x is None:
                return None
            # all segments agree on the wrong ID
            o = x[1].get("WARC-Record-ID")
            new = "<%s%s>" % (b.cfg.prefix, flip_digit(rng, x[1].id))
            R(b, x[0], x[1], self.setf(x[1], "WARC-Record-ID", new))
            for n, c in self.conts:
                if c.get("WARC-Segment-Origin-ID") == o:
                    R(b, n, c, self.setf(c, "WARC-Segment-Origin-ID", new))
        # -- bytes ----------------------------------------------------
        elif kind == "truncated":
            n = rng.choice(sorted(self.m.silos))
            ends = {0} | {r.end for r in self.m.silos[n]}
            sz = self.m.sizes[n]
            cut = rng.choice([rng.randrange(1, sz), sz - rng.randrange(1, 40),
                rng.choice(self.m.silos[n]).body_off, rng.choice(self.m.silos[n]).body_off + 24,
                rng.choice(self.m.silos[n]).end - 24])
            if cut in ends or cut <= 0:
                return None
            os.truncate(b.silo_path(n), cut)
            x = (n, self.m.silos[n][0])
        elif kind in ("flip", "flip-separator", "overwrite"):
            x = self.pick(self.recs)
            n, r = x
            with open(b.silo_path(n), "rb") as f:
                buf = bytearray(f.read())
            if kind == "flip":
                i = rng.randrange(r.body_off + 24, r.body_off + r.body_len)
                buf[i] ^= 1 << rng.randrange(8)
            elif kind == "overwrite":
                i = rng.randrange(r.body_off + 24, r.body_off + r.body_len)
                k = min(rng.choice([1, 2, 16, 512, 4096]), r.body_off + r.body_len - i)
                buf[i:i + k] = rng.choice([b"\0" * k, b"\xff" * k, gen.rbytes(rng, k)])
            else:
                i = rng.randrange(r.end - 24, r.end)
                buf[i] ^= 1 << rng.randrange(8)
            if kind != "flip-separator":
                # Is it one?
                d = zlib.decompressobj(31)
                try:
                    o = d.decompress(bytes(buf[r.body_off:r.body_off + r.body_len]))
                    if d.eof and not d.unused_data and o == r.body:
                        return None
                except zlib.error:
                    pass
            with open(b.silo_path(n), "wb") as f:
                f.write(buf)
        else:
            raise RuntimeError(kind)
        return x


SEG_KINDS = ["segment-missing", "segment-silo-missing", "segment-number", "segments-renumbered",
    "total-length", "no-total-length", "early-total-length", "payload-digest", "no-payload-digest",
    "origin", "no-origin", "segment-replaced", "segmented-id", "continuation-id"]
BYTE_KINDS = ["truncated", "flip", "flip-separator", "overwrite"]
KINDS = ["body-altered", "body-altered-length-adjusted", "content-length", "no-content-length",
    "block-digest", "block-digest-shape", "no-block-digest", "resource-id", "metadata-id",
    "warcinfo-id", "resource-replaced", "metadata-replaced", "metadata-refers-to", "ids-swapped",
    "bodies-swapped", "body-aa"] + SEG_KINDS + BYTE_KINDS


def damages(ctx, h, m, kinds, forced=False, harmless=None):
    """Apply one damage after the other to copies of the archive, all must be reported"""
    a = h.a
    d = Damage(ctx, h, m)
    for kind in kinds:
        b = a.clone("dam")
        x = d.apply(b, kind)
        if x is not None and harmless is not None and harmless(b):
            x = None
        if x is None:
            b.destroy()
            continue
        opts = []
        if forced or ctx.rng.random() < .1:
            # The IDs of metadata are not looked at with this option, everything else is
            if kind in ("metadata-id", "metadata-replaced", "metadata-refers-to") or \
                    (x[1].type == "metadata" and kind in ("segment-replaced", "segmented-id")):
                b.destroy()
                continue
            opts = ["-i", "ignore-metadata-record-id"]
        r = b.cmd("audit", *opts, variant=h.var())
        ctx.stats["damaged"] += 1
        ctx.stats["evaluations"] += 1
        if kind in SEG_KINDS:
            ctx.stats["segment_damage"] += 1
        if kind in BYTE_KINDS:
            ctx.stats["byte_damage"] += 1
        if r.sanitizer:
            h.bad("sanitizer", "damage %s of record %s" % (kind, x[1].id), r)
        if not reported(r):
            h.bad("missed:" + kind, "audit finds nothing wrong with damage %s to the %s record %s (segment %s) in silo %d" % (
                kind, x[1].type, x[1].id, x[1].segno, x[0]), r)
        ctx.seen(kind, x[1].type, x[1].segno is None, a.cfg.bits, r.rc)
        b.destroy()
        if ctx.violations:
            return False
    return True


def all_whole(b, rid, data):
    """Do the records in archive b make up whole copies of this object (and are in order otherwise)?"""
    m = warc.load(b, strict=False)
    if m.errs:
        return False
    errs = []
    left = []
    org = "<%s>" % b.uri(rid)
    for n, r in m.records():
        warc.check_record(r, b.cfg, errs, "")
        sn = r.get("WARC-Segment-Number")
        if sn is None:
            continue
        if errs:
            return False
        if r.segno == 1:
            ok = r.id == rid and r.get("WARC-Payload-Digest") == "sha256:" + hashlib.sha256(data).hexdigest()
        else:
            ok = r.get("WARC-Segment-Origin-ID") == org
        if not ok:
            return False
        left.append(r)
    if errs:
        return False

    def solve(left, no, off):
        if off == 0 and not left:
            return True
        for i, r in enumerate(left):
            if r.segno != no or data[off:off + len(r.body)] != r.body:
                continue
            t = r.get("WARC-Segment-Total-Length") if no > 1 else None
            e = off + len(r.body)
            if t is not None and (t != str(len(data)) or e != len(data)):
                continue
            if solve(left[:i] + left[i + 1:], 1 if t else no + 1, 0 if t else e):
                return True
            if no == 1:
                break
        return False
    return solve(left, 1, 0)


def big_case(ctx, case):
    """A silo of more than 4 GiB"""
    rng = ctx.rng
    a = core.Archive(ctx, "big", cfg=core.Cfg(maxsize=rng.choice(["5G", "9G", "1000G"]), bits=rng.choice(hist.BITS)))
    h = hist.Hist(ctx, a, VARIANTS)
    with huge.NoFsize():
        x = huge.big_silo(ctx, h, rng.randrange(2, 12))
    if x is None:
        return
    br, want = x
    for damage in (None, rng.choice(["body", "after", "cut"])):
        at = None
        with huge.NoFsize(), open(a.silo_path(0), "r+b") as f:
            if damage == "body":
                # Not in the length of a stored block
                n = rng.randrange(br.gzlen // (br.STORED + 5))
                at = br.end - 24 - 10 - n * (br.STORED + 5) - rng.randrange(1, br.STORED)
            elif damage == "after":
                at = rng.choice([e[3] for e in want if e[3] > br.off]) + rng.randrange(60, 200)
            elif damage == "cut":
                f.truncate(rng.randrange(br.end - 100, br.end))
            if at is not None:
                f.seek(at)
                c = f.read(1)
                f.seek(at)
                f.write(bytes([c[0] ^ (1 << rng.randrange(8))]))
        r = a.cmd("audit", timeout=900, preexec=huge.long_run, variant="o2")
        ctx.stats["evaluations"] += 1
        ctx.seen("big", damage)
        good = [int(x) for x, y in SUMMARY.findall(r.out)]
        if damage is None and (reported(r) or good != [len(want)]):
            ctx.violate("big-intact", "audit of a silo of %d bytes" % br.end, result=r.brief())
            return
        if damage and not reported(r):
            ctx.violate("big-missed", "damage %s at %s is not reported" % (damage, at), result=r.brief())
    a.destroy()


def copies_case(ctx, case):
    """An object which was stored by several commands at once, split in different places"""
    rng = ctx.rng
    cfg = hist.random_cfg(rng, sizes=["40k", "64k", "1M"])
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    for i in range(rng.randrange(4)):
        h.store(n=rng.randrange(1, 3000))
    unit = rng.choice([1, 1, 7, 100])
    n = rng.randrange(2, 6)
    size = rng.randrange(12, 60)
    data = rng.randbytes(size * unit)
    rid = hashlib.sha256(data).hexdigest()[:cfg.idlen]
    base = sorted(rng.sample(range(1, size), n - 1))
    copies = []
    for k in range(rng.randrange(2, 5)):
        nk = n if rng.random() < .8 else rng.randrange(2, 6)
        if nk == n and rng.random() < .7:
            cuts = sorted(set(min(size - 1, max(1, c + rng.choice([0, 0, -1, 1, 2]))) for c in base))
        else:
            cuts = sorted(rng.sample(range(1, size), nk - 1))
        cuts = [0] + cuts + [size]
        copies.append([data[i * unit:j * unit] for i, j in zip(cuts, cuts[1:])])
    todo = [[(k, i, x) for i, x in enumerate(c)] for k, c in enumerate(copies)]
    if rng.random() < .3:
        # not even in the order of the silo numbers
        todo = [[x] for c in todo for x in c]
        rng.shuffle(todo)
    last = {i: len(c) for i, c in enumerate(copies)}
    nums = a.silo_nums()
    silo = max(nums) if nums else -1
    fill = 99
    while todo:
        l = rng.choice(todo)
        k, i, body = l.pop(0)
        if not l:
            todo.remove(l)
        # A segment is alone in its silo, or first or last in it
        if fill > 1 or rng.random() < .8:
            silo += 1
            fill = 0
            if h.mksilo(silo).rc != 0:
                h.bad("mksilo", "mksilo %d failed" % silo)
                return
        fill += 1
        dig = hashlib.sha256(body).hexdigest()
        f = [("WARC-Record-ID", "<%s>" % a.uri(dig[:cfg.idlen] if i else rid)), ("Content-Length", len(body)),
            ("Content-Type", "text/plain"), ("WARC-Block-Digest", "sha256:" + dig),
            ("WARC-Date", "2026-01-02T03:04:05Z")]
        if i == 0:
            f.append(("WARC-Payload-Digest", "sha256:" + hashlib.sha256(data).hexdigest()))
        f.append(("WARC-Segment-Number", i + 1))
        if i:
            f.append(("WARC-Segment-Origin-ID", "<%s>" % a.uri(rid)))
        if i + 1 == last[k]:
            f.append(("WARC-Segment-Total-Length", len(data)))
        f.append(("WARC-Type", "continuation" if i else "resource"))
        with open(a.silo_path(silo), "ab") as fo:
            fo.write(warc.record_bytes(f, body, rng.choice([1, 6, 9])))
    if ctx.violations:
        return
    m = warc.load(a, strict=False)
    if m.errs:
        raise RuntimeError("forged archive is wrong: %r" % m.errs[:3])
    ctx.stats["parallel_copies"] += len(copies)
    check_intact(ctx, h, m)
    ctx.seen("copies", len(copies), n, len(set(map(len, copies))))
    if not ctx.violations:
        damages(ctx, h, m, rng.sample(KINDS, 2) + rng.sample(SEG_KINDS, 4),
            harmless=lambda b: all_whole(b, rid, data))


def run_case(ctx, case):
    rng = ctx.rng
    if str(case)[0] == "g":
        return huge_case(ctx, case)
    if str(case)[0] == "p":
        return copies_case(ctx, case)
    if str(case)[0] == "b":
        return big_case(ctx, case)
    cfg = hist.random_cfg(rng, small=True)
    a = core.Archive(ctx, cfg=cfg)
    h = hist.Hist(ctx, a, VARIANTS)
    if not h.random_ops(rng.randrange(2, 9)):
        return
    for i in range(rng.randrange(3)):
        d = gen.exact(rng, int(min(cfg.maxbytes, 40000) * rng.uniform(1, 5)), "random")
        if i == 1 and h.order:
            h.metadata(data=d)
        else:
            h.store(data=d)
    forced = False
    if rng.random() < .2 and h.order:
        fid = "%0*x" % (cfg.idlen, rng.getrandbits(cfg.idlen * 4))
        n = int(min(cfg.maxbytes, 40000) * rng.uniform(1, 3)) if rng.random() < .3 else 100
        h.metadata(data=gen.exact(rng, n, "random"), forced=fid)
        forced = True
    if rng.random() < .3:
        h.mksilo(rng.choice([7, 50, 101, 5000]))
    h.store(n=rng.randrange(1, 3000))
    if ctx.violations:
        return
    m = warc.load(a)
    for k, msg in m.errs:
        if not (forced and k == "segment-resource-id"):
            h.bad("silo-" + k, msg)
    if ctx.violations:
        return
    iopt = ["-i", "ignore-metadata-record-id"]
    t0 = a.tree()
    if not forced:
        check_intact(ctx, h, m)
    if forced or rng.random() < .3:
        check_intact(ctx, h, m, iopt)
    if rng.random() < .3 and not forced:
        files = [a.silo_path(n) for n in m.silos]
        rng.shuffle(files)
        check_intact(ctx, h, m, args=files)
    if a.tree() != t0:
        h.bad("changed", "audit changed the archive")
    if ctx.violations:
        return
    kinds = rng.sample(KINDS, 12)
    if any(x.segno is not None for _, x in m.records()):
        kinds += rng.sample(SEG_KINDS, 5)
    if not damages(ctx, h, m, kinds, forced):
        return
    # Silos which are not there
    r = a.cmd("audit", a.silo_path(9998), a.silo_path(0) if 0 in m.silos else a.silo_path(min(m.silos)))
    if not reported(r):
        h.bad("missed:cannot-open", "audit of a file which does not exist reports no error", r)
    ctx.sample(dict(config=cfg.text("DIR/"), history=h.log[:8], damages=kinds))
