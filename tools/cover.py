"""Line coverage of pystruct under the checks (a reading aid, not a check).

    /opt/venv/bin/python tools/cover.py OUT C01 [--scale 0.1 ...]

appends "file:line" for every first execution of a source line to OUT; the
second form, `tools/cover.py --report OUT`, prints the lines never executed.
"""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PV_REPO", "/repo")


def lines_of(code):
    for _, _, ln in code.co_lines():
        if ln:
            yield ln
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            for ln in lines_of(c):
                yield ln


def report(out):
    hit = {}
    for ln in open(out):
        f, n = ln.rsplit(":", 1)
        hit.setdefault(f, set()).add(int(n))
    for base, _, files in sorted(os.walk(os.path.join(REPO, "pystruct"))):
        if "tests" in base:
            continue
        for f in sorted(files):
            p = os.path.join(base, f)
            if not f.endswith(".py") or f == "setup.py":
                continue
            src = open(p).read()
            want = set(lines_of(compile(src, p, "exec")))
            miss = sorted(want - hit.get(p, set()))
            print(p, "%d/%d missed" % (len(miss), len(want)))
            text = src.splitlines()
            for m in miss:
                print("   %4d %s" % (m, text[m - 1]))


def main():
    if sys.argv[1] == "--report":
        return report(sys.argv[2])
    fd = os.open(sys.argv[1], os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    mon = sys.monitoring
    mon.use_tool_id(mon.COVERAGE_ID, "pv")
    root = os.path.join(REPO, "pystruct") + os.sep

    def line(code, n):
        if code.co_filename.startswith(root):
            os.write(fd, ("%s:%d\n" % (code.co_filename, n)).encode())
        return mon.DISABLE

    mon.register_callback(mon.COVERAGE_ID, mon.events.LINE, line)
    mon.set_events(mon.COVERAGE_ID, mon.events.LINE)
    sys.path.insert(0, HERE)
    from pv import run
    sys.argv[1:] = sys.argv[2:]
    return run.main()


if __name__ == "__main__":
    sys.exit(main())
