#!/usr/bin/env python3
"""Development tool: behaviour-keeping edits of the code; the proofs (and checks) have to stay quiet.
  refac.py FILE.py [ids]   FILE.py defines REFS = [dict(id=, file=, edits=[(old, new)...], props="C01 C02")]   (--check runs whole checks)"""
import sys, os, json, subprocess, shutil, runpy, re
full = "--check" in sys.argv
args = [a for a in sys.argv[1:] if a != "--check"]
refs = runpy.run_path(args[0])["REFS"]
sel = args[1:]
sc = "/tmp/refac%s/repo" % os.environ.get("REFAC_N", "")
for r in refs:
    if sel and not any(r["id"].startswith(x) for x in sel):
        continue
    if os.path.exists(sc):
        shutil.rmtree(sc)
    os.makedirs(os.path.dirname(sc), exist_ok=True)
    subprocess.run("git clone -q %s %s" % (os.environ.get("REFAC_SRC", "/repo"), sc), shell=True, check=True)
    ok = True
    for e in r["edits"]:
        f, old, new = e if len(e) == 3 else (r["file"],) + e
        p = sc + "/maa/" + f
        t = open(p).read()
        k = r.get("all") and t.count(old) >= 1 or t.count(old) == 1
        if not k:
            print(r["id"], "text occurs", t.count(old), "times:", old[:60])
            ok = False
            break
        open(p, "w").write(t.replace(old, new))
    if not ok:
        continue
    for pid in r["props"].split():
        env = dict(os.environ, VERIF_REPO=sc)
        p = subprocess.run(["python3-vt", os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/run.py", "check" if full else "prove", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=900)
        out = p.stdout.decode()
        if full:
            v = re.findall(r"^VIOLATION.*", out, re.M)
            fo = re.findall(r"^  failed obligation.*", out, re.M)
            un = re.findall(r"^  not within reach.*", out, re.M)
            print(r["id"], pid, "rc", p.returncode, v[:1], (fo or ["-"])[0][:150], un[:2], flush=True)
        else:
            bad = [l[:200] for l in out.splitlines() if re.search(r"unknown|sat |FAIL|fail|unsupp|VACU|timeout|Traceback|error", l)]
            print(r["id"], pid, out.strip().splitlines()[-1][:120], "|", " || ".join(bad[:4]), flush=True)
shutil.rmtree(os.path.dirname(sc), ignore_errors=True)
