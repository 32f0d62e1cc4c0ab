"""Which lines of the repository a check executes:  DSV_COV=<file> python3 harness/check.py Cxx; python3 tools/cov.py <file>...
Only a tool for finding what the checks leave out; no check depends on it."""
import os
import sys


def start(fn):
    mon = sys.monitoring
    repo = os.path.join(os.environ.get("DSV_REPO", "/repo"), "dsari") + os.sep
    fd = os.open(fn, os.O_WRONLY | os.O_CREAT | os.O_APPEND, 0o644)
    fd = __import__("fcntl").fcntl(fd, 1030, 200)  # F_DUPFD_CLOEXEC

    def line(code, no):
        if code.co_filename.startswith(repo):
            try:
                os.write(fd, ("%s:%d\n" % (code.co_filename[len(repo):], no)).encode())
            except OSError:
                pass
        return mon.DISABLE
    mon.use_tool_id(3, "dsv")
    mon.register_callback(3, mon.events.LINE, line)
    mon.set_events(3, mon.events.LINE)


def main():
    hit = set()
    for f in sys.argv[1:]:
        hit |= set(open(f).read().split())
    d = os.path.join(os.environ.get("DSV_REPO", "/repo"), "dsari")
    for n in sorted(os.listdir(d)):
        if not n.endswith(".py"):
            continue
        src = open(os.path.join(d, n)).read()
        lines = set()

        def walk(c):
            lines.update(x[2] for x in c.co_lines() if x[2])
            for k in c.co_consts:
                if hasattr(k, "co_lines"):
                    walk(k)
        walk(compile(src, n, "exec"))
        miss = sorted(x for x in lines if "%s:%d" % (n, x) not in hit)
        print("== %s: %d of %d lines not executed" % (n, len(miss), len(lines)))
        s = src.split("\n")
        for x in miss:
            print("%5d %s" % (x, s[x - 1]))


if __name__ == "__main__":
    main()
