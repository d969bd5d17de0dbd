#!/usr/bin/env python3
"""mkseed.py DEF.py...: build seeded/<id>/ from a definition file (ID, PROP, EDITS [(file, old, new)], NEEDS, BREAKS, DEMO)
in a scratch copy of /repo.  With --test, also run the stable tests on the patched copy and the demo on both trees."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MQ_REPO", "/repo")
STABLE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", PYTHONIOENCODING="utf-8", MPLBACKEND="Agg",
           OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1", LANG="C.UTF-8")

def sub(path, old, new):
    raw = open(path, newline="").read()
    crlf = "\r\n" in raw
    s = raw.replace("\r\n", "\n")
    assert s.count(old) == 1, (path, s.count(old), old)
    s = s.replace(old, new)
    open(path, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)

def demo(d, cwd):
    e = dict(ENV, PYTHONPYCACHEPREFIX=tempfile.gettempdir() + "/pyc_" + str(os.getpid()))
    p = subprocess.run(["bash", d + "/demo.sh"], cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
    return p.returncode, p.stdout[-600:]

def main():
    test = "--test" in sys.argv
    nw = os.environ.get("NW", "8")
    for f in [a for a in sys.argv[1:] if not a.startswith("--")]:
        g = {}
        exec(compile(open(f).read(), f, "exec"), g)
        sid = g["ID"]
        d = os.path.join(V, "seeded", sid)
        w = "/tmp/sdw_" + sid
        shutil.rmtree(w, ignore_errors=True)
        subprocess.check_call(["git", "clone", "-q", REPO, w])
        for (p, o, n) in g["EDITS"]:
            sub(os.path.join(w, p), o, n)
        os.makedirs(d, exist_ok=True)
        with open(d + "/patch.diff", "wb") as fh:
            fh.write(subprocess.check_output(["git", "-C", w, "diff", "--no-color"]))
        open(d + "/demo.py", "w").write(g["DEMO"])
        open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        ok = demo(d, REPO)
        bad = demo(d, w)
        line = "%s demo clean=%d patched=%d" % (sid, ok[0], bad[0])
        if ok[0] != 0: line += "\n CLEAN: " + ok[1]
        if bad[0] == 0: line += "\n PATCHED PASSES: " + bad[1]
        elif "AssertionError" not in bad[1]: line += "\n PATCHED: " + bad[1]
        if test:
            x = w + "/junit.xml"
            e = dict(ENV, PYTHONPATH=w + ":/opt/vp/plugins", PYTHONPYCACHEPREFIX=w + "/.pyc")
            subprocess.run(["timeout", "850", "xvfb-run", "-a", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                            "-p", "vp_seed", "-n", nw, "--dist", "worksteal", "--timeout=600", "--continue-on-collection-errors",
                            "-o", "junit_family=xunit2", "--junitxml=" + x], cwd=w, env=e, stdout=open(w + "/out.txt", "w"), stderr=subprocess.STDOUT)
            import xml.etree.ElementTree as ET
            good = set()
            try:
                for c in ET.parse(x).iter("testcase"):
                    if not list(c): good.add(c.get("classname") + "::" + c.get("name"))
                    elif all(k.tag in ("system-out", "system-err", "properties") for k in c): good.add(c.get("classname") + "::" + c.get("name"))
            except Exception as ex:
                line += " NO JUNIT %s" % ex
            miss = [s for s in STABLE if s not in good]
            line += " tests: %s" % ("ALL PASS" if not miss else "FAIL " + ",".join(miss))
        print(line, flush=True)
        shutil.rmtree(w, ignore_errors=True)
main()
