import atexit, hashlib, os, shutil, subprocess, sys, tempfile, time, zlib, random, re
BIN = os.path.abspath("_build/aardwarc")
HERE = os.path.dirname(os.path.abspath(__file__))
TMP = tempfile.mkdtemp(prefix="demo_")
atexit.register(shutil.rmtree, TMP, True)


def fail(*a):
    print("FAIL:", *a)
    sys.exit(1)


class A(object):
    """A scratch archive"""
    def __init__(self, name="a", maxsize="15k", bits=128, prefix="file://example.com/aa/",
            extra="", res="*", meta="*"):
        self.root = os.path.join(TMP, name)
        self.dir = self.root + "/silos/"
        os.makedirs(self.dir)
        self.prefix = prefix
        self.idlen = bits // 4
        self.conf = self.root + "/conf"
        with open(self.conf, "w") as f:
            f.write("WARC-Record-ID:\n\t%s %d\nwarcinfo.body:\n\toperator: me\n"
                "silo.directory:\n\t%s\nsilo.max_size:\n\t%s\n"
                "resource.mime-types:\n\t%s\nmetadata.mime-types:\n\t%s\n%s" % (
                prefix, bits, self.dir, maxsize, res, meta, extra))

    def argv(self, *a):
        return [BIN, "-c", self.conf] + list(a)

    def __call__(self, *a, stdin=b"", env=None, timeout=60):
        e = dict(os.environ)
        e.update(env or {})
        return subprocess.run(self.argv(*a), input=stdin, stdout=subprocess.PIPE,
            stderr=subprocess.PIPE, env=e, timeout=timeout)

    def store(self, data, *opt, **kw):
        r = self("store", *opt, stdin=data, **kw)
        if r.returncode:
            fail("store", r)
        return r.stdout.decode().strip().split("/")[-1]

    def get(self, rid, *opt):
        r = self("get", "-q", *(list(opt) + [rid]))
        return r.stdout if r.returncode == 0 else None


def so(src):
    """Compile an interposer"""
    fn = os.path.join(TMP, "i%d" % len(os.listdir(TMP)))
    with open(fn + ".c", "w") as f:
        f.write("#define _GNU_SOURCE\n#include <dlfcn.h>\n#include <errno.h>\n#include <fcntl.h>\n#include <stdarg.h>\n"
            "#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <sys/stat.h>\n"
            "#include <sys/types.h>\n#include <sys/uio.h>\n#include <unistd.h>\n" + src)
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-w", "-o", fn + ".so", fn + ".c", "-ldl"])
    return {"LD_PRELOAD": fn + ".so"}


def rnd(n, seed=1):
    return random.Random(seed).randbytes(n)
