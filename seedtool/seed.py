#!/usr/bin/env python3
"""seed.py ID...: builds each planted bug of seedtool/bugs.py in a scratch copy, confirms it, writes seeded/ID. --check also runs the property's check."""
import sys, os, subprocess, shutil, json, re
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE); sys.path.insert(0, HERE)
import bugs
W = "/tmp/seedw"; COPY = W + "/repo"; OPT = W + "/vp"
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def prep():
    if not os.path.exists(COPY) or sh("git -C %s rev-parse HEAD" % COPY).stdout != sh("git -C /repo rev-parse HEAD").stdout:
        shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
        sh("cp -a /repo %s && cp -a /opt/vp %s && sed -i 's#/repo#%s#g; s#/opt/vp#%s#g' %s/*.sh %s/*.py; rm -rf %s/_build" % (COPY, OPT, COPY, OPT, OPT, OPT, COPY))
        r = sh("bash %s/build.sh" % OPT); assert r.returncode == 0, r.stdout.decode()[-3000:]
    sh("git -C %s checkout -q -- ." % COPY)
def main():
    args = sys.argv[1:]; check = "--check" in args; notest = "--notest" in args; ids = [a for a in args if not a.startswith("-")]
    todo = [b for b in bugs.BUGS if not ids or b["id"] in ids]
    prep()
    for b in todo:
        sh("git -C %s checkout -q -- ." % COPY)
        for f, old, new in b["edits"]:
            p = os.path.join(COPY, f); s = open(p).read()
            if s.count(old) != 1: print(b["id"], "EDIT MATCHES", s.count(old), old[:60]); break
            open(p, "w").write(s.replace(old, new))
        else:
            d = os.path.join(VERIF, "seeded", b["id"]); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
            diff = sh("git -C %s diff" % COPY).stdout; open(d + "/patch.diff", "wb").write(diff)
            if "demo" in b: open(d + "/demo.c", "w").write(b["demo"]); shutil.copy(HERE + "/demo.h", d)
            if "files" in b:
                for n, t in b["files"].items(): open(d + "/" + n, "w").write(t)
            if "sh" in b: open(d + "/demo.sh", "w").write(b["sh"])
            elif "sources" in b: open(d + "/sources", "w").write(" ".join(b["sources"])); shutil.copy(HERE + "/demo_asan.sh", d + "/demo.sh")
            else: shutil.copy(HERE + "/demo.sh", d)
            if "leaks" in b: s = open(d + "/demo.sh").read().replace("LEAKS:-0", "LEAKS:-1"); open(d + "/demo.sh", "w").write(s)
            json.dump(dict(property=b["p"], needs=b["needs"], what_it_breaks=b["breaks"]), open(d + "/meta.json", "w"), indent=1)
            r = sh("bash %s/build.sh" % OPT)
            if r.returncode: print(b["id"], "DOES NOT BUILD", r.stdout.decode()[-1500:]); continue
            bad = sh("bash %s/demo.sh" % d, cwd=COPY)
            lost = "not run"
            if not notest:
                sh("bash %s/test.sh %s/out.json" % (OPT, W)); o = json.load(open(W + "/out.json")); st = json.load(open("/opt/vp/BASELINE.json"))["stable"]; lost = sorted(set(st) - set(o["passed"]))
            caught = ""
            if check:
                for pid in [b["p"]] + b.get("also", []):
                    c = subprocess.run(["python3", "vf.py", pid], cwd=VERIF, env=dict(os.environ, VF_REPO=COPY), stdout=subprocess.PIPE, stderr=subprocess.STDOUT).stdout.decode()
                    v = [l for l in c.splitlines() if l.startswith("VIOLATION")]; caught += " %s:%s" % (pid, "CAUGHT" if v else "MISSED")
            sh("git -C %s checkout -q -- ." % COPY); r = sh("bash %s/build.sh" % OPT); good = sh("bash %s/demo.sh" % d, cwd=COPY)
            print(b["id"], b["p"], "demo patched=%d clean=%d" % (bad.returncode, good.returncode), "lost", lost, caught, "" if good.returncode == 0 and bad.returncode else "\n" + bad.stdout.decode()[-800:] + good.stdout.decode()[-500:], flush=True)
            if check:
                f = os.path.join(VERIF, "design", "seeded.json"); L = json.load(open(f)) if os.path.exists(f) else []
                L = [x for x in L if x["id"] != b["id"] and x["id"] in [y["id"] for y in bugs.BUGS]] + [dict(id=b["id"], property=b["p"], breaks=b["breaks"], caught=caught.strip())]
                json.dump(sorted(L, key=lambda x: x["property"]), open(f, "w"), indent=1)
    sh("git -C %s checkout -q -- ." % COPY)
main()
