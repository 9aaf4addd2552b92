#!/usr/bin/env python3-vt
"""Driver.

  run.py check <ID>      decide one property on /repo's current tree (exit 0 / 1)
  run.py replay <FILE>   run a recorded failing case again
  run.py setup           check that the tools are there
  run.py prove <ID>      proof part only, verbose
"""
import sys, os, json, time, subprocess, tempfile, shutil, glob, re, signal, importlib, multiprocessing as mp

if os.environ.get("PYTHONHASHSEED") != "0":        # same term order on every run
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable] + sys.argv)

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vcg"))
REPO = os.environ.get("VERIF_REPO", "/repo")
os.environ["VCG_REPO"] = REPO
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
NCPU = os.cpu_count() or 4

sys.path.insert(0, HERE)
import proptab            # per property: harness, notes, trusted base

T0 = time.time()


def log(*a):
    print(*a, flush=True)


# ------------------------------------------------------------------ building the real code
def sources():
    """the library's sources, from its own makefile (fallback: every .c file there)"""
    d = os.path.join(REPO, "maa")
    out = []
    try:
        mk = open(os.path.join(d, "Makefile")).read().replace("\\\n", " ")
        for m in re.finditer(r"^SRCS\s*\+?=\s*(.*)$", mk, re.M):
            out += [x for x in m.group(1).split() if x.endswith(".c")]
    except OSError:
        pass
    out = [x for x in out if os.path.exists(os.path.join(d, x))]
    return out or sorted(os.path.basename(x) for x in glob.glob(d + "/*.c"))


CFLAGS = ["-U_FORTIFY_SOURCE", "-DHAVE_HEADER_SYS_RESOURCE_H=1", "-DHAVE_HEADER_ALLOCA_H=1", "-DSIZEOF_LONG=8",
          "-DMAA_MAJOR=4", "-DMAA_MINOR=1", "-DMAA_TEENY=0", "-w", "-g", "-O1", "-fno-omit-frame-pointer", "-D_GNU_SOURCE"]
SAN = ["-fsanitize=address,bounds,null,signed-integer-overflow,integer-divide-by-zero,vla-bound", "-fno-sanitize-recover=all"]
WRAPS = ["err_internal", "err_fatal", "err_fatal_errno", "abort", "exit"]
AWRAPS = ["malloc", "calloc", "realloc", "free", "strdup"]


class Build:
    """scratch directory with an instrumented build of /repo's current tree"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vp-maa-")
        self.libok = None
        self.err = ""

    def lib(self):
        if self.libok is not None:
            return self.libok
        d = self.dir
        with open(d + "/arggram.c", "wb") as f, open(REPO + "/maa/arggram.txt", "rb") as i:
            subprocess.run(["awk", "-f", REPO + "/maa/arggram2c"], stdin=i, stdout=f, check=False)
        ps, objs = [], []
        for s in sources():
            o = d + "/lib_" + s[:-2] + ".o"
            objs.append(o)
            ps.append((s, subprocess.Popen(["gcc", "-I" + REPO + "/maa", "-I" + d] + CFLAGS + SAN + ["-c", REPO + "/maa/" + s, "-o", o],
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)))
        self.libok = True
        for s, p in ps:
            out = p.communicate()[0].decode("utf-8", "replace")
            if p.returncode != 0:
                self.libok = False
                self.err += "%s does not compile:\n%s\n" % (s, out[-2000:])
        self.objs = objs
        return self.libok

    def prog(self, h):
        """harness program, or None"""
        if not self.lib():
            return None
        src, opts = h["src"], h.get("cflags", [])
        exe = self.dir + "/" + src[:-2] + ("_nw" if h.get("nowrap") else "")
        wr = AWRAPS + ([] if h.get("nowrap") else WRAPS) + h.get("wrap", [])
        cmd = ["gcc", "-I" + REPO + "/maa", "-I" + self.dir, "-I" + HERE + "/harness"] + CFLAGS + SAN + opts + (
            ["-DNO_ERR_WRAP"] if h.get("nowrap") else []) + [HERE + "/harness/h.c", HERE + "/harness/" + src] + self.objs + [
            "-Wl," + ",".join("--wrap=" + w for w in wr)] + ["-lm", "-o", exe]
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            self.err += "harness %s does not build:\n%s\n" % (src, p.stdout.decode("utf-8", "replace")[-3000:])
            return None
        return exe

    def close(self):
        if self.dir.startswith("/tmp/vp-maa-"):
            shutil.rmtree(self.dir, ignore_errors=True)


def run_harness(exe, pid, secs, nproc, hard, cases=0):
    """-> dict(cases, nontrivial, sample, fail or None)"""
    env = dict(os.environ)
    env.pop("ASAN_OPTIONS", None)
    ps = []
    for k in range(nproc):
        seed = SEED * 1000 + k
        f = tempfile.TemporaryFile()
        wd = tempfile.mkdtemp(prefix="w", dir=os.path.dirname(exe))
        ps.append((seed, f, subprocess.Popen([exe, pid, str(seed), str(secs), str(cases)], stdout=f, stderr=subprocess.STDOUT,
                                             stdin=subprocess.DEVNULL, env=env, cwd=wd, start_new_session=True)))
    end = time.time() + hard
    r = dict(cases=0, nontrivial=0, sample="", fail=None)
    for seed, f, p in ps:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
        f.seek(0)
        out = f.read().decode("utf-8", "replace")
        m = re.search(r"^CASES (\d+) NONTRIVIAL (\d+)\nSAMPLE (.*?)\nOK$", out, re.M | re.S)
        if m and p.returncode == 0:
            r["cases"] += int(m.group(1))
            r["nontrivial"] += int(m.group(2))
            r["sample"] = r["sample"] or m.group(3)[:600]
        elif r["fail"] is None:
            c = re.search(r"^FAILING-CASE (\d+)", out, re.M)
            r["fail"] = dict(seed=seed, case=int(c.group(1)) if c else None, rc=p.returncode, output=out[-30000:])
    return r


# ------------------------------------------------------------------ proofs
def load_specs():
    import spec
    for f in sorted(glob.glob(HERE + "/vcg/specs/*.py")):
        n = os.path.basename(f)[:-3]
        if n != "__init__":
            importlib.import_module("specs." + n)
    seen, out = set(), []
    for t in spec.TASKS:
        k = (t.tu, t.name)
        if k not in seen:
            seen.add(k)
            out.append(t)
    return out


def worker(task, path, deep):
    import spec
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    r = spec.run_task(task, deep)
    with open(path + ".tmp", "w") as f:
        json.dump(r, f)
    os.rename(path + ".tmp", path)


def prove(tasks, deadline, deep=True, verbose=False):
    import cast
    res = []
    bad = {}
    for tu in sorted({t.tu for t in tasks}):
        try:
            cast.load(tu)
        except Exception as e:
            bad[tu] = str(e)
    ctx = mp.get_context("fork")
    d = tempfile.mkdtemp(prefix="vp-prf-")
    todo = sorted([t for t in tasks if t.tu not in bad], key=lambda t: -t.weight)
    for t in tasks:
        if t.tu in bad:
            res.append(dict(task=t.name, fn=t.fn, tu=t.tu, props=t.props, status="unsupported", reason="not parsed: " + bad[t.tu][:500],
                            obligations=0, discharged=0, failed=[], backends={}, solver_s=0, wall_s=0, trusted=[], inlined=[], loops=[]))
    running = []
    n = 0
    try:
        while todo or running:
            while todo and len(running) < NCPU:
                t = todo.pop(0)
                path = "%s/%d.json" % (d, n)
                n += 1
                p = ctx.Process(target=worker, args=(t, path, deep))
                p.start()
                running.append((t, p, path, time.time()))
            time.sleep(0.02)
            nx = []
            for t, p, path, ts in running:
                late = time.time() > deadline
                if p.is_alive() and not late:
                    nx.append((t, p, path, ts))
                    continue
                if p.is_alive():
                    p.kill()
                p.join()
                if os.path.exists(path):
                    r = json.load(open(path))
                else:
                    r = dict(task=t.name, fn=t.fn, tu=t.tu, props=t.props, status="failed", obligations=1, discharged=0, backends={},
                             failed=[dict(name="the verifier did not finish", loc=t.fn, info="time or memory limit", res="timeout")],
                             solver_s=time.time() - ts, wall_s=time.time() - ts, trusted=[], inlined=[], loops=[])
                if verbose:
                    log("%-28s %-12s %d/%d %.1fs %s" % (r["task"], r["status"], r["discharged"], r["obligations"], r["wall_s"], r.get("reason", "")[:300]))
                    for f in r["failed"]:
                        log("     FAIL", f["name"], f["loc"], f.get("res"), f["info"][:200])
                res.append(r)
            running = nx
            if time.time() > deadline and todo:
                for t in todo:
                    res.append(dict(task=t.name, fn=t.fn, tu=t.tu, props=t.props, status="failed", obligations=1, discharged=0, backends={},
                                    failed=[dict(name="the verifier did not get to this function", loc=t.fn, info="time limit", res="timeout")],
                                    solver_s=0, wall_s=0, trusted=[], inlined=[], loops=[]))
                todo = []
    finally:
        for t, p, path, ts in running:
            p.kill()
        if d.startswith("/tmp/vp-prf-"):
            shutil.rmtree(d, ignore_errors=True)
    return res


# ------------------------------------------------------------------ one check
def known_findings(pid):
    out = []
    try:
        for l in open(HERE + "/known_findings.txt"):
            m = re.match(r"finding: property=(\S+) match=\"([^\"]*)\" (.*)", l)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3).strip()))
    except OSError:
        pass
    return out


def check(pid):
    pt = proptab.PROPS[pid]
    thorough = TIER == "thorough"
    tasks = [t for t in load_specs() if pid in t.props]
    b = Build()
    rc = 0
    viol = []
    try:
        hs = pt["harness"]
        exes = []
        r, w = None, None
        # build in a thread while the proofs run
        import threading
        box = {}

        def bld():
            box["exes"] = [(h, b.prog(h)) for h in hs]
        th = threading.Thread(target=bld)
        th.start()
        th.join()        # compile first: forking while a thread holds locks is not safe
        exes = box["exes"]
        def search(secs):
            out = []
            for h, exe in exes:
                if exe is None:
                    out.append(dict(src=h["src"], cases=0, nontrivial=0, sample="", fail=None, broken=True))
                    continue
                s = secs / max(1, len(exes))
                x = run_harness(exe, pid, s, h.get("nproc", NCPU), s + 150)
                x["src"] = h["src"]
                out.append(x)
            return out
        # a failing input that turns up at once shortens the time given to the obligations that then cannot hold
        hres = search(120 if thorough else pt.get("secs", 8))
        found = any(x["fail"] for x in hres)
        tp = time.time()
        pd = T0 + ((300 if found else 1500) if thorough else (100 if found else 420))
        results = prove(tasks, pd, deep=not found) if tasks else []
        proof_s = time.time() - tp
        failed = [r for r in results if r["status"] == "failed"]
        unsup = [r for r in results if r["status"] == "unsupported"]
        if (failed or unsup) and not found:
            h2 = search(240 if thorough else 40)
            for a, c in zip(h2, hres):
                a["cases"] += c["cases"]
                a["nontrivial"] += c["nontrivial"]
                a["sample"] = a["sample"] or c["sample"]
            hres = h2
        kf = known_findings(pid)
        known = []
        concrete = [x for x in hres if x["fail"]]
        os.makedirs(HERE + "/replay", exist_ok=True)
        for x in concrete:
            f = x["fail"]
            hit = [t for m, t in kf if m in f["output"]]
            if hit:
                known += hit
                continue
            p = HERE + "/replay/%s-%s.json" % (pid, "input")
            json.dump(dict(property=pid, kind="failing input", harness=x["src"], seed=f["seed"], case=f["case"], rc=f["rc"],
                           how="python3-vt /verif/run.py replay " + p,
                           failed_obligations=[dict(function=r["fn"], file=r["tu"], **q) for r in failed for q in r["failed"]],
                           output=f["output"]), open(p, "w"), indent=1)
            viol.append((p, ""))
        if not concrete and failed:
            p = HERE + "/replay/%s-%s.json" % (pid, "obligation")
            json.dump(dict(property=pid, kind="failed obligation",
                           failed_obligations=[dict(function=r["fn"], file=r["tu"], **q) for r in failed for q in r["failed"]],
                           searched=["%s: %d cases" % (x["src"], x["cases"]) for x in hres],
                           checker="python3-vt /verif/run.py prove " + pid), open(p, "w"), indent=1)
            viol.append((p, " no-failing-input-found"))
        for k in sorted(set(known)):
            log("KNOWN-FINDING: property=%s %s" % (pid, k))
        # evidence
        nob = sum(r["obligations"] for r in results)
        ndis = sum(r["discharged"] for r in results)
        be = {}
        for r in results:
            for k, v in r["backends"].items():
                be[k] = be.get(k, 0) + v
        cov = dict(
            obligations=nob, discharged=ndis, checker_cmd="python3-vt /verif/run.py prove %s" % pid,
            trusted_base=proptab.TRUSTED + sorted({"assumed contract of " + x for r in results for x in r["trusted"]}),
            functions_under_contract=["%s:%s (%s) %d/%d obligations, %s" % (r["tu"], r["fn"], r["task"], r["discharged"], r["obligations"], r["status"]) for r in results],
            inlined_helpers=sorted({x for r in results for x in r["inlined"]}),
            back_ends=be, solver_seconds=round(sum(r["solver_s"] for r in results), 2), proof_wall_s=round(proof_s, 2),
            loops=[dict(at=w, invariants=cs) for r in results for w, cs in r["loops"]][:60],
            failed_obligations=[dict(function=r["fn"], name=q["name"], at=q["loc"]) for r in failed for q in r["failed"]][:50],
            bounded_only=pt.get("bounded", []) + ["%s: outside the verifier's reach on this tree: %s" % (r["task"], r.get("reason", "")[:200]) for r in unsup],
            bounded_cross_check=[dict(program=x["src"], evaluations=x["cases"], nontrivial=x["nontrivial"]) for x in hres],
            evaluations=sum(x["cases"] for x in hres), distinct_nontrivial=sum(x["nontrivial"] for x in hres),
            rule="pseudo-random histories/inputs from VERIF_SEED run on the real code (address and undefined-behaviour sanitizers) against a reference model; non-trivial: the case reached the state or input class the property speaks about",
            samples=[x["sample"] for x in hres if x["sample"]][:3])
        if not results:
            cov["explanation"] = pt.get("note", "")
        ev = dict(property=pid, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=pt["level"], coverage=cov,
                  assumptions=proptab.ASSUME + pt.get("assume", []), wall_s=round(time.time() - T0, 2), violations=len(viol))
        os.makedirs(HERE + "/evidence", exist_ok=True)
        json.dump(ev, open(HERE + "/evidence/%s.json" % pid, "w"), indent=1)
        log("%s: %d functions under contract, %d of %d obligations discharged (%.1f s); cross-check %d cases; %d unsupported" % (
            pid, len(results), ndis, nob, proof_s, cov["evaluations"], len(unsup)))
        for r in unsup:
            log("  not within reach: %s: %s" % (r["task"], r.get("reason", "")[:300]))
        for r in failed:
            for q in r["failed"][:4]:
                log("  failed obligation: %s: %s (%s) %s" % (r["task"], q["name"], q["loc"], q.get("res", "")))
        if b.err:
            log(b.err[-1500:])
        for x in concrete:
            log("\n".join(x["fail"]["output"].strip().splitlines()[-6:]))
        for p, s in viol:
            log("VIOLATION property=%s replay=%s%s" % (pid, p, s))
        rc = 1 if viol else 0
    finally:
        b.close()
    return rc


def replay(path):
    d = json.load(open(path))
    if d["kind"] != "failing input":
        log(json.dumps(d, indent=1))
        return 1
    b = Build()
    try:
        h = [h for h in proptab.PROPS[d["property"]]["harness"] if h["src"] == d["harness"]][0]
        exe = b.prog(h)
        p = subprocess.run([exe, d["property"], str(d["seed"]), "1", "1", str(d["case"])], stdin=subprocess.DEVNULL, cwd=b.dir)
        return 0 if p.returncode == 0 else 1
    finally:
        b.close()


def main():
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        return check(a[1])
    if a[:1] == ["replay"]:
        return replay(a[1])
    if a[:1] == ["prove"]:
        ts = [t for t in load_specs() if (a[1] in t.props or a[1] == "all" or a[1] == t.tu) and (len(a) < 3 or t.name in a[2:])]
        r = prove(ts, time.time() + 3000, verbose=True)
        log("%d functions, %d/%d obligations, %.1f s" % (len(r), sum(x["discharged"] for x in r), sum(x["obligations"] for x in r), time.time() - T0))
        return 0 if all(x["status"] == "proved" for x in r) else 1
    if a[:1] == ["harness"]:
        b = Build()
        rc = 0
        for h in proptab.PROPS[a[1]]["harness"]:
            exe = b.prog(h)
            if b.err:
                log(b.err)
            if exe:
                x = run_harness(exe, a[1], float(a[2]) if len(a) > 2 else 5, NCPU, 600)
                log(x["cases"], x["nontrivial"], x["sample"][:300])
                if x["fail"]:
                    rc = 1
                    log(x["fail"]["seed"], x["fail"]["case"], x["fail"]["rc"], x["fail"]["output"][-3000:])
        b.close()
        return rc
    if a[:1] == ["setup"]:
        import z3
        for t in ("clang", "gcc", "awk"):
            if not shutil.which(t):
                log("missing tool", t)
                return 2
        log("z3", z3.get_version_string())
        return 0
    log(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
