"""Builds instrumented variants of AardWARC from /repo's current working tree."""
import hashlib
import os
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("AW_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

WRAPPED = ("inflateInit2_ inflate inflateEnd deflateInit2_ deflate deflateEnd crc32 SHA256Init SHA256Update "
    "SHA256Final SHA256End SHA256Data strlcpy strnunvis_netbsd").split()

VARIANTS = {
    # As build.sh does it: gcc -O1
    "plain": dict(cc="gcc", cflags=["-O1", "-g"], ldflags=[]),
    # ASan + UBSan
    "san": dict(cc="clang", cflags=["-O1", "-g", "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined", "-fno-sanitize=alignment,function",
        "-fno-sanitize-recover=all"], ldflags=["-fsanitize=address,undefined"]),
    # UBSan only (works together with LD_PRELOAD)
    "ubsan": dict(cc="clang", cflags=["-O1", "-g",
        "-fsanitize=undefined", "-fno-sanitize=alignment,function",
        "-fno-sanitize-recover=all"], ldflags=["-fsanitize=undefined"]),
    # ASan + UBSan, coverage, and a fork server
    "fuzz": dict(cc="clang", cflags=["-O1", "-g", "-fno-omit-frame-pointer",
        "-fsanitize=address,undefined,local-bounds", "-fno-sanitize=alignment,function",
        "-fno-sanitize-recover=all", "-fsanitize-coverage=trace-pc-guard",
        "-Dmain=aw_main"],
        ldflags=["-fsanitize=address,undefined"], extra=["fsrv.c"],
        extraflags=["-fsanitize=address"]),
    # MemorySanitizer, coverage, and a fork server
    "msan": dict(cc="clang", cflags=["-O1", "-g", "-fno-omit-frame-pointer",
        "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-sanitize-recover=all",
        "-fsanitize-coverage=trace-pc-guard", "-Dmain=aw_main"],
        ldflags=["-fsanitize=memory"] + ["-Wl,--wrap=" + f for f in WRAPPED],
        extra=["fsrv.c", "msanwrap.c"], extraflags=["-fsanitize=memory"]),
    # clang -O2: a second optimiser's view of the same code
    "o2": dict(cc="clang", cflags=["-O2", "-g"], ldflags=[]),
}


class BuildError(Exception):
    pass


def sources():
    srcs = []
    mk = open(os.path.join(REPO, "Makefile")).read()
    for m in re.finditer(r"^SRCS\s*\+?=\s*(.+)$", mk, re.M):
        srcs += [s for s in m.group(1).split() if s.endswith(".c")]
    if not srcs:
        raise BuildError("no SRCS in Makefile")
    return srcs


def build(variant, outdir):
    """Compile; returns the path of the binary"""
    v = VARIANTS[variant]
    os.makedirs(outdir, exist_ok=True)
    compat = "/opt/vp/compat/freebsd.h"
    if not os.path.exists(compat):
        compat = os.path.join(HERE, "src", "freebsd.h")
    common = ["-std=gnu99", "-include", compat, "-DLIBBSD_NETBSD_VIS",
        "-isystem", "/usr/include/x86_64-linux-gnu/bsd", "-DLIBBSD_OVERLAY",
        '-DGITREV="abc123"', "-w", "-I", REPO]
    objs = []

    def one(src):
        o = os.path.join(outdir, src.replace("/", "_") + ".o")
        if src in v.get("extra", ()):
            cmd = [v["cc"], "-O1", "-g", "-w"] + v["extraflags"] + \
                ["-c", os.path.join(HERE, "src", src), "-o", o]
        else:
            cmd = [v["cc"]] + v["cflags"] + common + \
                ["-c", os.path.join(REPO, src), "-o", o]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return (o, r.returncode, r.stdout)

    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for o, rc, out in ex.map(one, sources() + v.get("extra", [])):
            if rc:
                raise BuildError(out.decode(errors="replace")[-4000:])
            objs.append(o)
    binary = os.path.join(outdir, "aardwarc")
    cmd = [v["cc"]] + v["ldflags"] + ["-o", binary] + objs + \
        ["-Wl,--no-as-needed", "-lbsd", "-lmd", "-lm", "-lz"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    for o in objs:
        os.unlink(o)
    return binary


def build_so(src, out):
    cmd = ["gcc", "-O1", "-g", "-shared", "-fPIC", "-o", out,
        os.path.join(HERE, "src", src), "-ldl", "-lpthread"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    return out


def build_exe(src, out, extra=()):
    cmd = ["gcc", "-O1", "-g", "-o", out, os.path.join(HERE, "src", src)] + list(extra)
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(r.stdout.decode(errors="replace")[-4000:])
    return out
