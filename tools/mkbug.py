"""Makes /verif/seeded/<id> from a specification (a Python file defining ID,
PROPERTY, NEEDS, BREAKS, EDITS [(file, old, new[, count])], DATA, DEMO) and confirms it on /repo:
the demonstration passes without the change, the change builds, passes the
stable tests and makes the demonstration fail."""
import json, os, runpy, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
REPO = "/repo"
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def build():
    r = sh("bash /opt/vp/build.sh"); return r.returncode == 0, r.stdout
def main(spec):
    import vbuild
    m = runpy.run_path(spec); d = ROOT + "/seeded/" + m["ID"]
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repository not clean"
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in ("lib.py", "demo.sh"): shutil.copy(ROOT + "/tools/demo/" + f, d)
    if m.get("DATA"):
        datas = m["DATA"] if isinstance(m["DATA"], dict) and "stops" not in m["DATA"] else {"cache": m["DATA"]}
        for name, j in datas.items():
            subprocess.run([vbuild.mkcache(), d + "/" + name], input=json.dumps(j), text=True, check=True)
    open(d + "/demo.py", "w").write(m["DEMO"].lstrip())
    json.dump({"property": m["PROPERTY"], "needs": m["NEEDS"], "what_it_breaks": m["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    try:
        ok, o = build(); assert ok
        tmp = "/tmp/demo_" + m["ID"]; shutil.rmtree(tmp, ignore_errors=True); shutil.copytree(d, tmp)
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO); print("unchanged tree: exit", r.returncode); print(r.stdout[-1500:])
        if r.returncode: return 1
        for e in m["EDITS"]:
            s = open(REPO + "/" + e[0]).read(); n = e[3] if len(e) > 3 else 1
            assert s.count(e[1]) == n, "%s: %d occurrences" % (e[1], s.count(e[1])); open(REPO + "/" + e[0], "w").write(s.replace(e[1], e[2]))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        own = sh("git -C /repo diff -U0 | grep -c '^@@'").stdout
        ok, o = build()
        if not ok: print(o[-2000:]); return 1
        sh("bash /opt/vp/test.sh /tmp/bug_out.json"); o = json.load(open("/tmp/bug_out.json")); b = json.load(open("/opt/vp/BASELINE.json"))["stable"]
        miss = [x for x in b if x not in o["passed"]]; print("stable tests failing:", miss)
        r = sh("bash %s/demo.sh" % tmp, cwd=REPO); print("with the change: exit", r.returncode); print(r.stdout[-1500:])
        bad = miss or r.returncode == 0
        shutil.rmtree(tmp)
        print("REJECTED" if bad else "CONFIRMED " + m["ID"])
        return 1 if bad else 0
    finally:
        sh("git -C /repo checkout -- ."); build()
sys.exit(main(sys.argv[1]))
