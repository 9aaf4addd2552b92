#!/usr/bin/env python3
"""Development tool: apply planted bugs one by one to a copy of /repo and run the property's check on it (VERIF_REPO)."""
import sys, os, json, subprocess, shutil, glob, re
sel = sys.argv[1:]
sc = "/tmp/trybug/repo"
for d in sorted(glob.glob("/verif/seeded/*")):
    i = os.path.basename(d)
    if sel and not any(i.startswith(x) for x in sel):
        continue
    if os.path.exists(sc):
        shutil.rmtree(sc)
    os.makedirs("/tmp/trybug", exist_ok=True)
    subprocess.run("git clone -q %s %s" % (os.environ.get("REFAC_SRC", "/repo"), sc), shell=True, check=True)
    subprocess.run("git -C %s apply %s/patch.diff" % (sc, d), shell=True, check=True)
    pid = json.load(open(d + "/meta.json"))["property"]
    env = dict(os.environ, VERIF_REPO=sc)
    p = subprocess.run(["python3-vt", "/verif/run.py", "check", pid], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env)
    out = p.stdout.decode()
    v = re.findall(r"^VIOLATION.*", out, re.M)
    fo = re.findall(r"^  failed obligation.*", out, re.M)
    un = re.findall(r"^  not within reach.*", out, re.M)
    print(i, "rc", p.returncode, v[:1], (fo or ["-"])[0][:150], un[:1], flush=True)
    shutil.rmtree(sc)
