"""Watches what a python program does to files: one line of JSON for every
event, with what is in the directory AW_WATCH just before it.  Ends the
process before event number AW_KILL, and lets the file AW_GROW ("path:bytes")
grow when event number AW_GROWAT is reached."""
import json
import os
import signal
import sys


def _setup():
    log = os.open(os.environ["AW_EVENTS"], os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o666)
    watch = os.environ["AW_WATCH"]
    root = os.environ["AW_ROOT"]
    kill = int(os.environ.get("AW_KILL", "0"))
    growat = int(os.environ.get("AW_GROWAT", "0"))
    names = ("os.rename", "os.mkdir", "os.remove", "os.rmdir", "open", "shutil.rmtree", "aw.update", "os.truncate", "os.link",
        "os.symlink", "os.chmod", "os.utime", "exit")
    st = dict(n=0, busy=False)

    def look():
        try:
            l = sorted(os.listdir(watch))
        except FileNotFoundError:
            return None
        except NotADirectoryError:
            return "?"
        r = [[".", os.stat(watch).st_ino]]
        for f in l:
            try:
                s = os.lstat(os.path.join(watch, f))
                r.append([f, s.st_size, s.st_mtime_ns, s.st_ino])
            except FileNotFoundError:
                r.append([f])
        return r

    def hook(ev, args):
        if st["busy"] or ev not in names:
            return
        st["busy"] = True
        try:
            w = True
            if ev == "open":
                p, mode, flags = args
                w = isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR)
                if not isinstance(p, (str, bytes)) or not os.path.abspath(os.fsdecode(p)).startswith(root):
                    return
            st["n"] += 1
            os.write(log, (json.dumps([st["n"], ev, [str(a) for a in args][:3], look()]) + "\n").encode())
            if st["n"] == kill:
                os.kill(os.getpid(), signal.SIGKILL)
            if st["n"] == growat:
                fn, b = os.environ["AW_GROW"].rsplit(":", 1)
                with open(fn, "ab") as f:
                    f.write(b"G" * int(b))
        finally:
            st["busy"] = False

    sys.addaudithook(hook)
    import atexit
    atexit.register(lambda: hook("exit", ()))


if os.environ.get("AW_EVENTS"):
    _setup()
