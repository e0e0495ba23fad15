#!/usr/bin/env python3
"""Driver: builds the harnesses of one property from /repo's working tree, runs
their exhaustive explorations on all cores, writes evidence/<ID>.json.

  run.py C01                 quick tier (or $VERIF_TIER)
  run.py C01 --tier thorough
  run.py --replay FILE       re-run one recorded violation
  run.py --build-all         compile everything (setup)
"""
import hashlib, json, mmap, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
from checks import CHECKS  # noqa: E402

PLAT = {"opt": "optimized_sequential", "seq": "sequential"}
BACKENDS = dict(PLAT, both="both")
JOBS = int(os.environ.get("VERIF_JOBS", "0")) or os.cpu_count() or 8
HANG_S = 60


def src_hash():
    h = hashlib.sha256()
    for base in ("graphblas", "algorithms"):
        for d, ds, fs in os.walk(os.path.join(REPO, "src", base)):
            ds.sort()
            for f in sorted(fs):
                if "/test" in d:
                    continue
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    d = os.path.join(HERE, "mc")
    for f in sorted(os.listdir(d)):
        h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def unit_flags(u):
    fl = ["-std=gnu++17", "-w", "-I" + os.path.join(REPO, "src"),
          "-I" + os.path.join(REPO, "src/graphblas/platforms", PLAT.get(u["plat"], "")),
          "-I" + os.path.join(HERE, "mc"), '-DMCDIR="%s"' % os.path.join(HERE, "mc"),
          "-DBACKEND_" + u["plat"].upper() + "=1"]
    if u.get("asan"):
        fl += ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-D_GLIBCXX_ASSERTIONS"]
    else:
        fl += [u.get("opt", "-O2"), "-D_GLIBCXX_ASSERTIONS"]
    return fl + ["-D" + d for d in u.get("defs", [])]


def unit_name(u):
    n = os.path.splitext(u["src"])[0] + "-" + u["plat"]
    for d in u.get("defs", []):
        n += "-" + d.replace("=", "")
    return n + ("-asan" if u.get("asan") else "")


def source_text(name):
    """The harness and the harness files it includes."""
    t = open(os.path.join(HERE, "harness", name), "rb").read()
    for inc in re.findall(rb'#include "((?:C\d\d|BIG|VAL|POS|HUGE)_[^"]+)"', t):
        t += source_text(inc.decode())
    return t


def build_unit(u, sh):
    src = os.path.join(HERE, "harness", u["src"])
    h = hashlib.sha256((sh + " ".join(unit_flags(u))).encode() + source_text(u["src"])).hexdigest()[:20]
    exe = os.path.join(BUILD, unit_name(u) + "-" + h)
    if os.path.exists(exe):
        return exe, None, 0.0
    for f in os.listdir(BUILD):          # older builds of the same unit
        if re.fullmatch(re.escape(unit_name(u)) + r"-[0-9a-f]{20}(\.(opt|seq)\.so)?", f):
            try:
                os.unlink(os.path.join(BUILD, f))
            except OSError:
                pass
    t = time.time()
    tmp = exe + ".tmp%d" % os.getpid()
    if u["plat"] == "both":              # each backend as a shared object beside the explorer
        for side in PLAT:
            v = dict(u, plat=side)
            so = exe + "." + side + ".so"
            p = subprocess.run(["g++"] + unit_flags(v) + ["-shared", "-fPIC", "-fno-gnu-unique", os.path.join(HERE, "harness", u["side"]), "-o", so],
                               capture_output=True, text=True)
            if p.returncode != 0:
                return None, p.stderr[-6000:], time.time() - t
    p = subprocess.run(["g++"] + unit_flags(u) + [src, "-o", tmp], capture_output=True, text=True)
    if p.returncode != 0:
        return None, p.stderr[-6000:], time.time() - t
    os.rename(tmp, exe)
    return exe, None, time.time() - t


def units_of(pid, tier):
    out = []
    for u in CHECKS[pid]["units"]:
        if u.get("tier") and u["tier"] != tier:
            continue
        for p in u.get("plats", ["opt", "seq"]):
            v = dict(u)
            v["plat"] = p
            out.append(v)
    return out


ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=3500", UBSAN_OPTIONS="print_stacktrace=0")


def mem_limit(exe):
    """A run-away execution must fail by itself, not take the sandbox along."""
    if exe.split("-")[-2] == "asan":
        return None
    import resource
    return lambda: resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))


class Pool:
    def __init__(self):
        self.lock = threading.Lock()
        self.procs = set()
        self.stop = False


def crumb_read(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        execs, running, ln = struct.unpack_from("<QQI", b, 0)
        ln = min(ln, 2000)
        tr = struct.unpack_from("<%dH" % ln, b, 20)
        return execs, running, list(tr)
    except Exception:
        return 0, 0, []


def run_job(job, pool, tmp, tier, deadline):
    """-> dict with status ok|violation|crash|hang|killed|timeout"""
    exe, scen, shard, nsh, idx = job["exe"], job["scen"], job["shard"], job["nsh"], job["idx"]
    if pool.stop:
        return dict(job, status="killed")
    out = os.path.join(tmp, "o%d" % idx)
    crumb = os.path.join(tmp, "c%d" % idx)
    cmd = [exe, "--run", scen, "--shard", str(shard), "--nshards", str(nsh), "--out", out, "--crumb", crumb]
    if tier == "thorough":
        cmd.append("--thorough")
    err = open(os.path.join(tmp, "e%d" % idx), "wb+")
    p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=err, env=ENV, cwd=tmp, start_new_session=True,
                         preexec_fn=mem_limit(exe))
    with pool.lock:
        pool.procs.add(p)
    last, lastt, status = -1, time.time(), None
    try:
        while True:
            try:
                p.wait(timeout=0.5)
                break
            except subprocess.TimeoutExpired:
                pass
            if pool.stop:
                p.kill(); p.wait(); status = "killed"; break
            now = time.time()
            if now > deadline:
                p.kill(); p.wait(); status = "timeout"; break
            e, r, tr = crumb_read(crumb)
            key = (e, tuple(tr))
            if key != last:
                last, lastt = key, now
            elif now - lastt > HANG_S:
                p.kill(); p.wait(); status = "hang"; break
    finally:
        with pool.lock:
            pool.procs.discard(p)
    res = dict(job)
    err.seek(0)
    res["stderr"] = err.read()[-3000:].decode("utf8", "replace")
    err.close()
    if status in ("killed", "timeout"):
        res["status"] = status
        e, r, tr = crumb_read(crumb)
        res["data"] = {"executions": e, "choice_nodes": 0, "steps": e, "states": 0, "transitions": 0, "samples": []}
        return res
    if status is None and p.returncode in (0, 10):
        data = json.load(open(out))
        res["data"] = data
        res["status"] = "ok" if p.returncode == 0 else "violation"
        if p.returncode == 10:
            res["trace"], res["msg"] = data["trace"], data["violation"]
        os.unlink(out)
        os.unlink(crumb)
        return res
    e, r, tr = crumb_read(crumb)
    res["trace"] = ",".join(map(str, tr))
    if status == "hang":
        res["status"] = "hang"
        res["msg"] = "an execution did not return within %d s" % HANG_S
    elif p.returncode in (96, 97) or p.returncode == -signal.SIGKILL:
        res["status"] = "error"
        res["msg"] = "engine error rc=%s: %s" % (p.returncode, res["stderr"][-500:])
    else:
        res["status"] = "crash"
        res["msg"] = "the execution crashed (rc=%s): %s" % (p.returncode, res["stderr"][-1500:])
    return res


def replay(exe, scen, trace, tier, timeout=60):
    cmd = [exe, "--replay", scen, trace or "-"]
    if tier == "thorough":
        cmd.append("--thorough")
    try:
        p = subprocess.run(cmd, capture_output=True, env=ENV, timeout=timeout, cwd=tempfile.gettempdir(),
                           preexec_fn=mem_limit(exe))
    except subprocess.TimeoutExpired as ex:
        return "hang", (ex.stdout or b"").decode("utf8", "replace")[-3000:]
    txt = (p.stdout + p.stderr[-2500:]).decode("utf8", "replace")
    if p.returncode == 0:
        return "ok", txt
    if p.returncode == 10:
        return "violation", txt
    return "crash", txt


def validate_known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": []}


def main():
    av = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in av:
        i = av.index("--tier")
        tier = av[i + 1]
        del av[i:i + 2]
    os.makedirs(BUILD, exist_ok=True)
    if av and av[0] == "--build-all":
        sh = src_hash()
        us = {}
        for pid in CHECKS:
            for u in units_of(pid, "quick"):
                us[unit_name(u)] = u
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda u: (unit_name(u),) + build_unit(u, sh), us.values()))
        bad = [r for r in rs if r[1] is None]
        for r in bad:
            print("BUILD FAILED", r[0], r[2])
        print("built %d units" % (len(rs) - len(bad)))
        return 1 if bad else 0
    if av and av[0] == "--replay":
        r = json.load(open(av[1]))
        u = r["unit"]
        exe, e, _ = build_unit(u, src_hash())
        if not exe:
            print(e)
            return 2
        st, txt = replay(exe, r["scenario"], r["trace"], r["tier"])
        print(txt)
        print("replay:", st)
        return 0 if st == "ok" else 1
    pid = av[0]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    chk = CHECKS[pid]
    t0 = time.time()
    limit = float(os.environ.get("VERIF_LIMIT", "800" if tier == "quick" else "14400"))
    deadline = t0 + limit
    sh = src_hash()
    us = units_of(pid, tier)
    with ThreadPoolExecutor(JOBS) as ex:
        built = list(ex.map(lambda u: build_unit(u, sh), us))
    for u, (exe, e, dt) in zip(us, built):
        if exe is None:
            print("BUILD FAILED for", unit_name(u))
            print(e)
            return 2
    tbuild = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="mc-%s-" % pid)
    try:
        return explore(pid, chk, tier, seed, us, built, tmp, t0, deadline, tbuild)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def explore(pid, chk, tier, seed, us, built, tmp, t0, deadline, tbuild):
    jobs = []
    for u, (exe, _, _) in zip(us, built):
        ls = subprocess.run([exe, "--list"], capture_output=True, text=True).stdout.split("\n")
        for l in ls:
            if not l:
                continue
            name, kind = l.split()
            if u.get("only") and name not in u["only"]:
                continue
            nsh = 1 if kind == "bfs" else u.get("shards", 8)
            for s in range(nsh):
                jobs.append(dict(exe=exe, unit=u, scen=name, shard=s, nsh=nsh, kind=kind))
    # long sequential searches first, then shard-major so that all cores stay busy
    jobs.sort(key=lambda j: (j["kind"] != "bfs", j["shard"]))
    for i, j in enumerate(jobs):
        j["idx"] = i
    known = [k for k in validate_known()["findings"] if k["property"] == pid]
    pool = Pool()
    results, bad = [], None

    def work(j):
        nonlocal bad
        r = run_job(j, pool, tmp, tier, deadline)
        if r["status"] in ("violation", "crash", "hang", "error"):
            with pool.lock:
                if bad is None:
                    bad = r
                    pool.stop = True
        return r

    with ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(work, jobs))

    rc = 0
    nviol = 0
    lines = []
    if bad is not None:
        if bad["status"] == "error":
            print("ERROR", pid, unit_name(bad["unit"]), bad["scen"], bad["msg"])
            return 3
        st, txt = replay(bad["exe"], bad["scen"], bad["trace"], tier)
        confirmed = st != "ok"
        if not confirmed:
            # state carried over from earlier executions?  run the shard again
            pool2 = Pool()
            r2 = run_job(dict(bad, idx=len(jobs) + 1), pool2, tmp, tier, time.time() + 400)
            confirmed = r2["status"] in ("violation", "crash", "hang")
            txt += "\n(single replay: ok; whole shard again: %s)\n%s" % (r2["status"], r2.get("msg", ""))
        if not confirmed:
            # the harness is deterministic: what differs between two runs of it
            # is undefined behaviour of the code under test
            txt += "\nobserved once, did not repeat: %s" % bad["msg"]
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", "%s.json" % pid)
        u = {k: v for k, v in bad["unit"].items()}
        json.dump(dict(property=pid, unit=u, scenario=bad["scen"], trace=bad["trace"], tier=tier,
                       message=bad["msg"], narrative=txt), open(rp, "w"), indent=1)
        print("%s: scenario %s on backend %s" % (pid, bad["scen"], BACKENDS[bad["unit"]["plat"]]))
        print(txt.rstrip()[-2500:])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        rc, nviol = 1, 1
    for k in known:
        u = dict(k["unit"])
        exe, e, _ = build_unit(u, src_hash())
        st, txt = replay(exe, k["scenario"], k["trace"], "quick")
        if st != "ok":
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    tot = dict(executions=0, choice_nodes=0, steps=0, states=0, transitions=0, pruned=0)
    per, fix = {}, {}
    samples = []
    complete = bad is None
    for r in results:
        if r["status"] != "ok":
            complete = False
        d = r.get("data")
        if not d:
            continue
        if not d.get("complete", True):
            complete = False
        for k in tot:
            tot[k] += d.get(k, 0)
        key = unit_name(r["unit"]) + ":" + r["scen"]
        p = per.setdefault(key, {"executions": 0, "operations_checked": 0})
        if r["kind"] == "bfs":
            p.clear()
            p.update(bfs_states=d["states"], bfs_transitions=d["transitions"], bfs_depth=d.get("depth", 0),
                     reached_fixpoint=d.get("fixpoint", False))
        else:
            p["executions"] += d["executions"]
            p["operations_checked"] += d["steps"]
        if r["status"] == "ok":
            fix.setdefault((r["exe"], r["scen"]), []).extend(d.get("samples", []))
    empty = [k for k, p in per.items() if complete and not p.get("executions") and not p.get("bfs_states")]
    if empty or (complete and not per):
        print("ERROR", pid, "nothing was explored in", empty or "any scenario")
        return 3
    # a few actual cases, rendered by replaying them
    keys = list(fix.items())
    for (exe, scen), trs in keys[:: max(1, len(keys) // 4)]:
        if len(samples) >= 5 or time.time() > deadline + 30:
            break
        if trs:
            tr = trs[len(trs) // 2]
            st, txt = replay(exe, scen, tr, tier, timeout=30)
            samples.append("%s %s choices=%s: %s" % (os.path.basename(exe), scen, tr, txt[-1200:]))
    if not samples:
        samples = ["(run stopped at its first violation)" if bad else "(no sample)"]
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking",
              coverage=dict(
                  states=tot["choice_nodes"] + tot["states"],
                  transitions=tot["steps"] + tot["transitions"],
                  traces_validated_against_impl=tot["executions"] + tot["states"],
                  states_meaning="distinct nodes of the explored choice trees plus distinct BFS states",
                  transitions_meaning="operations of the real code executed and compared with the model",
                  traces_meaning="complete executions (leaves of the choice trees, plus one path per BFS state) replayed on the real code",
                  infeasible_choices_pruned=tot["pruned"],
                  exhaustive=bool(complete), bounds=chk.get("bounds", ""), per_scenario=per, samples=samples,
                  unfinished=[unit_name(r["unit"]) + ":" + r["scen"] + "#%d" % r["shard"] for r in results if r["status"] == "timeout"][:50],
                  build_s=round(tbuild, 1)),
              assumptions=chk.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), violations=nviol)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    print("%s %s: %d executions, %d states, %d operations checked, exhaustive=%s, build %.1fs, total %.1fs%s" % (
        pid, tier, tot["executions"], ev["coverage"]["states"], ev["coverage"]["transitions"], complete, tbuild,
        time.time() - t0, "" if rc == 0 else " VIOLATED"))
    return rc


if __name__ == "__main__":
    sys.exit(main())
