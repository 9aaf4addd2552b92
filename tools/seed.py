#!/usr/bin/env python3
"""Development tool (no check uses it): make and confirm a planted bug.

  seed.py FILE.py     FILE.py defines SEEDS = [dict(id=, property=, file=, edits=[(old, new), ...], needs=, breaks=, demo=C source)]
In a scratch copy of /repo: apply, build, run the stable tests, run the demonstration on both trees.
Keeps it in /verif/seeded/<id>/ when everything is confirmed."""
import sys, os, json, subprocess, shutil, tempfile, runpy

DEMO = r'''#!/bin/bash
# builds the library sources of the current directory with the demonstration and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/vpdemo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
awk -f "$R/maa/arggram2c" < "$R/maa/arggram.txt" > "$T/arggram.c" || exit 2
S=
for f in xmalloc hash set stack list error memory string debug flags maa prime bit timer arg pr sl base64 base26 source parse-concrete text log; do S="$S $R/maa/$f.c"; done
gcc -w -g -O1 -fsanitize=address,undefined -fno-sanitize=alignment -fno-sanitize-recover=all -D_GNU_SOURCE -DHAVE_HEADER_SYS_RESOURCE_H=1 -DHAVE_HEADER_ALLOCA_H=1 -DSIZEOF_LONG=8 \
  -DMAA_MAJOR=4 -DMAA_MINOR=1 -DMAA_TEENY=0 -I"$R/maa" -I"$T" "$D/demo.c" $S -lm -o "$T/demo" || exit 2
cd "$T" || exit 2
ASAN_OPTIONS=detect_leaks=LEAKS timeout 120 "$T/demo" </dev/null >"$T/out" 2>&1
rc=$?
[ $rc -eq 0 ] || tail -n 20 "$T/out"
exit $rc
'''


def sh(cmd, cwd=None, log=False):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def main():
    seeds = runpy.run_path(sys.argv[1])["SEEDS"]
    sel = sys.argv[2:]
    sc = "/tmp/seedwork/repo"
    if os.path.exists(sc):
        shutil.rmtree(sc)
    sh("cp -a /repo " + sc)
    for s in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + s).read().replace("/repo", sc).replace("/opt/vp/build.sh", "/tmp/seedwork/build.sh")
        open("/tmp/seedwork/" + s, "w").write(t)
    stable = json.load(open("/opt/vp/BASELINE.json"))
    stable = stable["stable"]
    for s in seeds:
        if sel and s["id"] not in sel:
            continue
        sh("git checkout -q -- .", sc)
        ok = True
        d = tempfile.mkdtemp(prefix="seed", dir="/tmp/seedwork")
        open(d + "/demo.c", "w").write(s["demo"])
        open(d + "/demo.sh", "w").write(DEMO.replace("LEAKS", "1" if s.get("leaks") else "0"))
        os.chmod(d + "/demo.sh", 0o755)
        rc, out = sh("bash %s/demo.sh" % d, sc)
        if rc != 0:
            print(s["id"], "demo fails on the unchanged tree:", out[-800:])
            ok = False
        for e in s["edits"]:
            f, old, new = e if len(e) == 3 else (s["file"],) + e
            p = sc + "/maa/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "text occurs", t.count(old), "times:", old)
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if ok:
            rc, diff = sh("git diff", sc)
            rc, out = sh("bash /tmp/seedwork/test.sh /tmp/seedwork/out.json", sc)
            res = json.load(open("/tmp/seedwork/out.json"))
            bad = [x for x in (stable if isinstance(stable, list) else []) if x not in res["passed"]]
            if bad or not res["passed"] or res["failed"] and any(x in str(stable) for x in res["failed"]):
                print(s["id"], "tests fail:", bad, res["failed"], out[-300:] if not res["passed"] else "")
                ok = False
            rc, out = sh("bash %s/demo.sh" % d, sc)
            if rc == 0 or rc == 2:
                print(s["id"], "demo does not fail with the patch", rc, out[-1500:])
                ok = False
        if ok:
            k = "/verif/seeded/" + s["id"]
            os.makedirs(k, exist_ok=True)
            open(k + "/patch.diff", "w").write(diff)
            for n in ("demo.c", "demo.sh"):
                shutil.copy(d + "/" + n, k + "/" + n)
            json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(k + "/meta.json", "w"), indent=1)
            print(s["id"], "kept:", out.strip().splitlines()[-1:] if out.strip() else "")
        shutil.rmtree(d)
    shutil.rmtree(sc)


main()
