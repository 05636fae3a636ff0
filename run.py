#!/usr/bin/env python3
"""Runs the runtime-monitoring check of one property against /repo's current working tree.

usage: run.py <PROPERTY> quick|thorough        (VERIF_SEED selects the workload, default 1)
       run.py <PROPERTY> --replay <file>       (re-executes the unit/seed/shard recorded in a replay file)

exit 0: every monitored execution satisfied the property
exit 1: "VIOLATION property=<id> replay=<path>" printed
exit 2+: the check itself could not run (build failure of the harness, missing tool ...) -- not a verdict
"""
import concurrent.futures as cf
import json, os, re, shutil, signal, subprocess, sys, time
from pathlib import Path

VERIF = Path(__file__).resolve().parent
REPO = Path(os.environ.get("VERIF_REPO", "/repo"))
sys.path.insert(0, str(VERIF))
from registry import PROPERTIES  # noqa: E402

CXX = {"gcc": "g++-14", "clang": "clang++"}
BASE = ["-std=c++23", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread"]
SAN = {
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-fsanitize=thread"],
    "none": ["-O2", "-D_GLIBCXX_ASSERTIONS"],
    "ndebug": ["-O2", "-DNDEBUG"],
}
INC = ["src/core/include", "src/disruptor/include", "src/serialiser/include", "src/majordomo/include", "src/zmq/include",
       "src/client/include", "src/rest/include", "src/services/include", "3rd_party", "3rd_party/kainjow"]


def log(*a):
    print(*a, flush=True)


def build_unit(unit, bdir):
    exe = bdir / unit["name"]
    cmd = [CXX[unit.get("cxx", "gcc")]] + BASE + SAN[unit.get("san", "asan")] + unit.get("flags", [])
    cmd += [f"-I{VERIF / 'harness'}"]
    cmd += [f"-I{VERIF / 'shim'}"]  # stand-ins for refl-cpp and mp-units (DESIGN.md)
    cmd += [f"-I{REPO / i}" for i in INC if (REPO / i).is_dir()]
    cmd += [str(VERIF / "harness" / s) for s in unit["src"]] + ["-o", str(exe)] + unit.get("libs", [])
    t = time.time()
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    (bdir / (unit["name"] + ".buildlog")).write_text(" ".join(cmd) + "\n" + p.stdout)
    return unit, p.returncode, p.stdout, time.time() - t


SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:max_allocation_size_mb=4000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0:suppressions=" + str(VERIF / "tsan.supp"),
}


def frame_of(stderr, limit=6):
    out = []
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?):(\d+)", stderr):
        f = m.group(2)
        if str(REPO) in f or "/verif/" in f:
            out.append(f"{Path(f).name}:{m.group(1)[:100]}")
        if len(out) >= limit:
            break
    return out


def classify(stderr, rc, crumb):
    """violations seen only by the sanitizer / the operating system"""
    cls = crumb.split("\n", 1)[0] if crumb else "?"
    res = []
    for m in re.finditer(r"ERROR: AddressSanitizer:? ([\w\- ]+?)(?: on | \(|:|\n)", stderr):
        res.append((f"asan:{m.group(1).strip()}:{cls}", stderr[m.start():m.start() + 2500]))
        break
    for m in re.finditer(r"([^\s:]+):\d+:\d+: runtime error: ([^\n]+)", stderr):
        msg = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?", "N", m.group(2))[:120]
        res.append((f"ubsan:{Path(m.group(1)).name}:{msg}:{cls}", stderr[m.start():m.start() + 2000]))
        break
    seen = set()
    for blk in re.findall(r"WARNING: ThreadSanitizer:.*?(?=\n={10,}|\Z)", stderr, re.S):
        kind = re.match(r"WARNING: ThreadSanitizer: ([\w\- ]+)", blk).group(1).strip()
        s = re.search(r"SUMMARY: ThreadSanitizer: [^\n]*", blk)
        where = ""
        if s:
            mm = re.search(r"(\S+?):\d+(?::\d+)? in (.+)", s.group(0))
            if mm:
                where = Path(mm.group(1)).name + ":" + re.sub(r"<.*", "", mm.group(2))[:80]
        key = f"tsan:{kind}:{where}"
        if key not in seen:
            seen.add(key)
            res.append((key, blk[:3000]))
    if not res and rc != 0:
        what = f"signal {-rc}" if rc < 0 else f"exit {rc}"
        res.append((f"crash:{what}:{cls}", stderr[-2500:]))
    return res


def run_shard(unit, exe, seed, shard, shards, scale, odir, timeout):
    tag = f"{unit['name']}.{shard}"
    out, crumb, err = odir / (tag + ".out"), odir / (tag + ".crumb"), odir / (tag + ".err")
    env = dict(os.environ, **SAN_ENV)
    scratch = odir / (tag + ".scratch")
    scratch.mkdir(exist_ok=True)
    env.update(VP_SEED=str(seed), VP_SHARD=str(shard), VP_SHARDS=str(shards), VP_SCALE=str(scale), VP_OUT=str(out),
               VP_CRUMB=str(crumb), VP_MODE=unit.get("mode", ""), VP_SCRATCH=str(scratch), VP_REPO=str(REPO), VP_VERIF=str(VERIF))
    env.update(unit.get("env", {}))
    for f in (out, crumb):
        if f.exists():
            f.unlink()
    cmd = unit.get("wrap", []) + [str(exe)]
    timed_out = False
    t0 = time.time()
    with open(err, "w") as ef:
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=scratch, start_new_session=True)
        try:
            rc = p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
            rc = -9
    shutil.rmtree(scratch, ignore_errors=True)
    recs = []
    if out.exists():
        for line in out.read_text(errors="replace").splitlines():
            try:
                recs.append(json.loads(line))
            except ValueError:
                pass
    ctext = ""
    if crumb.exists():
        ctext = crumb.read_bytes().split(b"\0", 1)[0].decode(errors="replace")
    return dict(unit=unit, shard=shard, rc=rc, timed_out=timed_out, recs=recs, crumb=ctext,
                stderr=err.read_text(errors="replace")[-400000:], wall=time.time() - t0)


def self_test():
    """setup_cmd: the tools the checks rely on are there"""
    for tool in ("g++-14",):
        if not shutil.which(tool):
            log(f"missing {tool}")
            sys.exit(2)
    for u in {s for p in PROPERTIES.values() for u in p["units"] for s in u["src"]}:
        assert (VERIF / "harness" / u).exists(), u
    log(f"{len(PROPERTIES)} checks registered")
    sys.exit(0)


def main():
    pid = sys.argv[1]
    if pid == "--self-test":
        self_test()
    replay = None
    if len(sys.argv) > 2 and sys.argv[2] == "--replay":
        replay = json.loads(Path(sys.argv[3]).read_text())
        tier = replay["tier"]
    else:
        tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if replay:
        seed = replay["seed"]
    prop = PROPERTIES[pid]
    t0 = time.time()
    bdir = VERIF / "build" / pid
    odir = VERIF / "out" / pid
    for d in (bdir, odir):
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True, exist_ok=True)
    (VERIF / "evidence").mkdir(exist_ok=True)

    units = [u for u in prop["units"] if tier == "thorough" or not u.get("thorough_only")]
    if replay:
        units = [u for u in units if u["name"] == replay["unit"]]
    builds = {}
    uniq = {}
    for u in units:  # units may share one binary (same sources/flags, different mode)
        k = u.get("exe", u["name"])
        uniq.setdefault(k, dict(u, name=k))
    with cf.ThreadPoolExecutor(8) as ex:
        for unit, rc, text, dt in ex.map(lambda u: build_unit(u, bdir), uniq.values()):
            builds[unit["name"]] = (rc, text, dt)
            log(f"[{pid}] built {unit['name']} rc={rc} in {dt:.1f}s")
            if rc != 0:
                log(text[-3000:])
    if any(rc != 0 for rc, _, _ in builds.values()):
        log(f"[{pid}] harness build failed: no verdict")
        sys.exit(3)

    jobs = []
    for u in units:
        shards = u.get("shards", 4)
        scale = u.get("scale", 1) if tier == "quick" else u.get("thorough_scale", 10)
        timeout = u.get("timeout", 130) if tier == "quick" else u.get("thorough_timeout", 700)
        for s in range(shards):
            if replay and s != replay["shard"]:
                continue
            jobs.append((u, bdir / u.get("exe", u["name"]), seed, s, shards, scale, odir, timeout))
    results, violations, hangs = [], [], []
    par = min(u.get("parallel", 8) for u in units)
    hung = []

    def once(j):
        if hung:  # a hang is established: the remaining shards add nothing but time
            return None
        r = run_shard(*j)
        if r["timed_out"] and not hung:  # inconclusive: once more before it counts as a hang
            r = run_shard(*j)
            if r["timed_out"]:
                hung.append(j)
        elif r["timed_out"]:
            return None
        return r
    with cf.ThreadPoolExecutor(par) as ex:
        for r in ex.map(once, jobs):
            if r:
                results.append(r)
    ev = dict(evaluations=0, distinct=0)
    counters, samples = {}, []
    for r in results:
        u = r["unit"]
        got_stats = False
        for rec in r["recs"]:
            if "violation" in rec:
                violations.append((rec["violation"], rec["detail"], r))
            if "stats" in rec:
                got_stats = True
                ev["evaluations"] += rec["stats"]["evaluations"]
                ev["distinct"] += rec["stats"]["distinct"]
                for k, v in rec["stats"]["counters"].items():
                    counters[k] = counters.get(k, 0) + v
                samples += rec["stats"]["samples"]
        if r["timed_out"]:
            cls = r["crumb"].split("\n", 1)[0]
            violations.append((f"hang:{cls}", f"no completion within the limit on two attempts; executing: {r['crumb'][:1500]}", r))
        elif r["rc"] != 0:
            for key, detail in classify(r["stderr"], r["rc"], r["crumb"]):
                violations.append((key, f"executing: {r['crumb'][:1500]}\n{detail}", r))
        elif not got_stats:
            violations.append(("crash:no-stats:" + r["crumb"].split("\n", 1)[0], r["stderr"][-1500:], r))
        log(f"[{pid}] {u['name']} shard {r['shard']}: rc={r['rc']} {r['wall']:.1f}s")

    known = [k for k in json.loads((VERIF / "known_findings.json").read_text())["findings"] if k["property"] == pid and k["status"] == "known"]
    reported, seen_known, fresh = set(), {}, []
    for key, detail, r in violations:
        k = next((k for k in known if re.fullmatch(k["key"], key)), None)
        if k:
            seen_known[k["key"]] = k
            continue
        if key in reported:
            continue
        reported.add(key)
        fresh.append((key, detail, r))
    for k in seen_known.values():
        log(f"KNOWN-FINDING: property={pid} {k['what']}")
    for i, (key, detail, r) in enumerate(fresh):
        path = odir / f"replay-{i}.json"
        path.write_text(json.dumps(dict(property=pid, tier=tier, seed=seed, unit=r["unit"]["name"], shard=r["shard"], key=key, detail=detail,
                                        executing=r["crumb"], command=f"python3 {VERIF}/run.py {pid} --replay {path}"), indent=1))
        log(f"  key={key}\n  {detail[:1500]}")
        log(f"VIOLATION property={pid} replay={path}")
    wall = time.time() - t0
    if not samples:
        samples = ["(none)"]
    evid = dict(property=pid, tier=tier, seed=seed, level=prop.get("level", "exploration"),
                coverage=dict(evaluations=ev["evaluations"], distinct_nontrivial=ev["distinct"], rule=prop["rule"],
                              samples=samples[:8], observed=counters,
                              units=[f"{u['name']} ({u.get('san', 'asan')}, {u.get('shards', 4)} shards)" for u in units]),
                wall_s=round(wall, 2), violations=len(fresh),
                assumptions=prop.get("assumptions", []))
    if not replay:
        (VERIF / "evidence" / f"{pid}.json").write_text(json.dumps(evid, indent=1) + "\n")
    log(f"[{pid}] {tier} seed={seed}: {ev['evaluations']} oracle evaluations, {ev['distinct']} distinct non-trivial, {len(fresh)} violations, {wall:.0f}s")
    shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(1 if fresh else 0)


if __name__ == "__main__":
    main()
