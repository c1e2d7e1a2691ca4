#!/usr/bin/env python3
"""Runs the check of one property: check.py <ID> [--tier quick|thorough] [--replay FILE] [--jobs N]

Builds harness/<id>.cpp against /repo's working tree, explores all its scenarios in parallel shards, replays any
failure alone before reporting it, writes evidence/<ID>.json. Exit 0: held. Exit 1: VIOLATION line. 2: no answer."""
import array, json, os, re, shutil, struct, subprocess, sys, time, threading

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("WEBFRONT_REPO", "/repo")
OUT = os.path.join(VERIF, "out")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import registry  # noqa: E402

CXX = "g++-13"
BASE_FLAGS = ["-std=c++23", "-g1", "-fno-omit-frame-pointer", "-w", "-pthread"]
ASAN = ["-fsanitize=address", "-D_GLIBCXX_SANITIZE_VECTOR=1"]


def say(*a):
    print(*a, flush=True)


def known_findings(pid):
    keys = {}
    path = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                keys[m.group(2)] = m.group(3).strip()
    return keys


def compile_harness(pid, cfg, work):
    exe = os.path.join(work, "harness")
    src = os.path.join(VERIF, "harness", cfg.get("source", pid.lower() + ".cpp"))
    cmd = [CXX, *BASE_FLAGS, cfg.get("opt", "-O1")]
    if cfg.get("asan", True):
        cmd += ASAN
    cmd += cfg.get("flags", [])
    cmd += ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(VERIF, "harness", "stub"),
            "-I" + os.path.join(REPO, "include"), src, "-o", exe] + cfg.get("libs", [])
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        say(r.stdout[-4000:], r.stderr[-6000:])
        say(f"ERROR: harness of {pid} does not compile against {REPO}")
        sys.exit(2)
    return exe


UAR = 1  # use-after-return detection: costly where many exceptions are thrown


def env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = f"detect_leaks=0:detect_stack_use_after_return={UAR}:max_uar_stack_size_log=18:exitcode=99:abort_on_error=0:handle_abort=0:" \
                        "max_allocation_size_mb=4096:allocator_may_return_null=0:detect_odr_violation=0:strict_string_checks=0"
    return e


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


class Shard:
    def __init__(self, exe, i, work, args, timeout, run_list=None):
        self.out = os.path.join(work, f"shard{i}.json")
        self.cur = os.path.join(work, f"shard{i}.cur")
        self.err = os.path.join(work, f"shard{i}.err")
        for f in (self.out, self.cur, self.err):
            if os.path.exists(f):
                os.remove(f)
        how = ["--queue", os.path.join(work, "queue")] if run_list is None else ["--run-list", run_list]
        self.args = [exe, "--out", self.out, "--current", self.cur, *how, *args]
        self.timeout = timeout
        self.index = i

    def run(self):
        t = time.time()
        with open(self.err, "w") as err:
            p = subprocess.Popen(self.args, stdout=err, stderr=err, env=env(), preexec_fn=limits, cwd=os.path.dirname(self.out))
            try:
                self.rc = p.wait(self.timeout)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                self.rc = "timeout"
        self.wall = time.time() - t
        self.result = None
        if os.path.exists(self.out):
            try:
                self.result = json.load(open(self.out))
            except ValueError:
                pass

    def taken(self):
        try:
            return ",".join(open(self.out + ".taken").read().split())
        except OSError:
            return ""

    def current(self):
        try:
            d = open(self.cur, "rb").read()
            magic, scen, cnt = struct.unpack_from("<III", d, 0)
            if magic != 0x4D43:
                return None
            ch = struct.unpack_from(f"<{min(cnt, 65536)}i", d, 12)
            return scen, ",".join(map(str, ch))
        except (OSError, struct.error):
            return None

    def tail(self, n=6000):
        try:
            return open(self.err, errors="replace").read()[-n:]
        except OSError:
            return ""


def replay(exe, args, scenario, choices, timeout=240, watchdog=120):
    cmd = [exe, *args, "--watchdog", str(watchdog), "--replay", str(scenario), choices]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, errors="replace", env=env(), timeout=timeout, preexec_fn=limits)
        return r.returncode, (r.stdout + r.stderr)[-8000:]
    except subprocess.TimeoutExpired as x:
        return "timeout", "replay exceeded %d s" % timeout


def crash_reason(text):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*)", text) or re.search(r"(WATCHDOG[^\n]*)", text) or \
        re.search(r"(terminate called[^\n]*(?:\n[^\n]*what\(\)[^\n]*)?)", text)
    return m.group(1) if m else "process died"


def union(files):
    s = set()
    for f in files:
        if os.path.exists(f):
            a = array.array("Q")
            with open(f, "rb") as fh:
                d = fh.read()
            a.frombytes(d[: len(d) // 8 * 8])
            s.update(a)
    return len(s)


def violation(pid, work, tier, info, text):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{pid}-{int(time.time())}-{os.getpid()}.json")
    info = dict(info, property=pid, tier=tier, how=f"python3 check.py {pid} --replay {path}", output=text[-6000:])
    json.dump(info, open(path, "w"), indent=1)
    say(text[-3000:])
    say(f"  {info.get('key')}: {info.get('msg')}")
    say(f"  scenario: {info.get('scenario')} choices: [{info.get('choices')}]")
    say(f"VIOLATION property={pid} replay={path}")
    return path


def conformance(work, depth, jobs):
    """The same scripts over the simulated transport and over Boost.Asio and the loopback network.
    @return a message if they differ, the number of scripts"""
    src = os.path.join(VERIF, "conformance", "driver.cpp")
    inc = ["-I" + os.path.join(VERIF, "harness"), "-I" + os.path.join(REPO, "include")]
    outs = []
    for name, more in (("sim", ["-I" + os.path.join(VERIF, "harness", "stub")]),
                       ("real", ["-DREAL", "-I" + os.path.join(VERIF, "conformance", "real")])):
        exe = os.path.join(work, "conf-" + name)
        r = subprocess.run([CXX, *BASE_FLAGS, "-O1", *more, *inc, src, "-o", exe], capture_output=True, text=True)
        if r.returncode:
            return f"conformance driver ({name}) does not compile: " + r.stderr[-1500:], 0
        ps = [subprocess.Popen([exe, str(i), str(jobs), str(depth)], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")
              for i in range(jobs)]
        res = [None] * jobs

        def collect(i):
            try:
                res[i] = ps[i].communicate(timeout=3600)[1]
            except subprocess.TimeoutExpired:
                ps[i].kill()
                res[i] = ps[i].communicate()[1] + f"(timeout of part {i})"
        th = [threading.Thread(target=collect, args=(i,)) for i in range(jobs)]
        [t.start() for t in th]
        [t.join() for t in th]
        for i, p in enumerate(ps):
            if p.returncode:
                return f"conformance driver ({name}) ended with {p.returncode}: {res[i][-500:]}", 0
        outs.append([x.splitlines() for x in res])
    n = 0
    for a, b in zip(*outs):
        n += len(a)
        for x, y in zip(a, b):
            if x != y:
                return f"the simulated transport differs from the real one:\n  simulated: {x}\n  real:      {y}", n
        if len(a) != len(b):
            return "the two transports ran different numbers of scripts", n
    return "", n


def main():
    argv = sys.argv[1:]
    pid = argv[0]
    if pid == "--setup":
        for d in ("out", "evidence"):
            os.makedirs(os.path.join(VERIF, d), exist_ok=True)
        for tool in (CXX, "node"):
            say(tool, shutil.which(tool))
        sys.exit(0 if shutil.which(CXX) else 1)
    if pid == "--conformance":
        os.makedirs(OUT, exist_ok=True)
        work = os.path.join(OUT, "work", f"conformance-{os.getpid()}")
        os.makedirs(work)
        try:
            msg, n = conformance(work, int(argv[1]) if len(argv) > 1 else 3, os.cpu_count() or 4)
        finally:
            shutil.rmtree(work, ignore_errors=True)
        say(msg or f"OK: {n} scripts end alike over both transports")
        sys.exit(2 if msg else 0)
    tier = os.environ.get("VERIF_TIER", "quick")
    jobs = os.cpu_count() or 4
    rep = None
    i = 1
    extra = []
    while i < len(argv):
        if argv[i] == "--tier":
            tier = argv[i + 1]; i += 2
        elif argv[i] == "--jobs":
            jobs = int(argv[i + 1]); i += 2
        elif argv[i] == "--replay":
            rep = argv[i + 1]; i += 2
        else:
            extra.append(argv[i]); i += 1
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if rep:
        tier = json.load(open(rep)).get("tier", tier)
    cfg = registry.CHECKS[pid]
    start = time.time()
    work = os.path.join(OUT, "work", f"{pid}-{os.getpid()}")
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    try:
        code = run(pid, cfg, tier, seed, jobs, work, start, rep, extra)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(code)


def run(pid, cfg, tier, seed, jobs, work, start, rep, extra):
    known = known_findings(pid)
    kfile = os.path.join(work, "known.txt")
    open(kfile, "w").write("\n".join(known) + "\n")
    data = os.path.join(work, "data")
    os.makedirs(data)
    global UAR
    UAR = cfg.get("uar", 1)
    exe = compile_harness(pid, cfg, work)
    args = ["--tier", tier, "--known", kfile, "--data", data, *extra]
    if "pre" in cfg:
        msg = cfg["pre"](exe, work, data, env())
        if msg:
            violation(pid, work, tier, {"key": "pre", "msg": msg, "scenario": "-", "choices": ""}, msg)
            return 1
    info = json.load(open(rep)) if rep else None
    if rep and info["scenario"] != "-":  # "-": found by a whole run, which is its own replay
        if info.get("run_list"):
            s = Shard(exe, "replay", work, args, 3600, info["run_list"])
            s.run()
            rc, text = s.rc, s.tail()
        else:
            rc, text = replay(exe, args, info["scenario"], info["choices"])
        say(text)
        say("exit", rc)
        return 1 if rc != 0 else 0
    n = min(jobs, cfg.get("shards", 64))
    budget = 780 if tier == "quick" else 6 * 3600
    open(os.path.join(work, "queue"), "wb").write(bytes(4))
    shards = [Shard(exe, i, work, args, budget - (time.time() - start)) for i in range(n)]
    th = [threading.Thread(target=s.run) for s in shards]
    [t.start() for t in th]
    [t.join() for t in th]

    for s in shards:
        if s.rc == 0 and s.result and s.result.get("complete"):
            continue
        if s.result and s.result.get("failure"):
            f = s.result["failure"]
            rc, text = replay(exe, args, f["scenario"], f["choices"])
            if rc == 0 or rc == 97:
                # depends on earlier executions of the shard (hidden state): the whole shard is the replay
                s2 = Shard(exe, f"{s.index}-again", work, args, 700, s.taken())
                s2.run()
                f2 = (s2.result or {}).get("failure")
                if not f2:
                    say(f"ERROR: unreproducible report {f}")
                    return 2
                text = "history-dependent: fails only after the earlier executions of its shard\n" + text
                f = dict(f2, run_list=s.taken())
            violation(pid, work, tier, f, text)
            evidence(pid, cfg, tier, seed, shards, start, known, 1, data)
            return 1
        cur = s.current()
        if s.rc == 97 or cur is None:
            say(s.tail())
            say(f"ERROR: shard {s.index} of {pid} ended with {s.rc}")
            return 2
        # crash, hang or timeout: run that execution alone
        rc, text = replay(exe, args, cur[0], cur[1])
        if rc == 0:
            if s.rc == "timeout":
                say(f"ERROR: {pid} ran out of time (no violation found)")
                return 2
            s2 = Shard(exe, f"{s.index}-again", work, args, 700, s.taken())
            s2.run()
            if s2.rc == 0:
                say(s.tail(), f"ERROR: unreproducible crash of shard {s.index}")
                return 2
            text = "history-dependent crash\n" + s2.tail()
        if rc == 97:
            say(text, "ERROR: replay failed")
            return 2
        reason = crash_reason(text)
        info = {"key": "crash", "msg": reason, "scenario": str(cur[0]), "choices": cur[1]}
        if rc == 0:
            info["run_list"] = s.taken()
        violation(pid, work, tier, info, text)
        evidence(pid, cfg, tier, seed, shards, start, known, 1, data)
        return 1

    post = {}
    if "post" in cfg:
        msg, post = cfg["post"](exe, work, data, env(), known)
        if msg:
            violation(pid, work, tier, {"key": "post", "msg": msg, "scenario": "-", "choices": ""}, msg)
            evidence(pid, cfg, tier, seed, shards, start, known, 1, data)
            return 1
    if tier == "thorough" and registry.SIM in cfg.get("assumptions", []):
        msg, n = conformance(work, 2, jobs)
        if msg:
            say("ERROR: " + msg)
            return 2
        post.setdefault("counters", {})["transport_conformance_scripts"] = n
    ev = evidence(pid, cfg, tier, seed, shards, start, known, 0, data, post)
    seen = set(post.get("known", []))
    for s in shards:
        seen.update(s.result["known"])
    for k in sorted(seen):
        say(f"KNOWN-FINDING: property={pid} {k}: {known.get(k, '')}")
    c = ev["coverage"]
    say(f"OK {pid} tier={tier} " + " ".join(f"{k}={v}" for k, v in c.items() if isinstance(v, int) and not isinstance(v, bool)) +
        f" wall={ev['wall_s']}s")
    return 0


def evidence(pid, cfg, tier, seed, shards, start, known, violations, data, post=None):
    tot = {}
    counters = {}
    samples = []
    for s in shards:
        r = s.result or {}
        for k in ("scenarios", "executions", "transitions", "choice_points", "pruned", "known_hits"):
            tot[k] = tot.get(k, 0) + r.get(k, 0)
        tot["max_depth"] = max(tot.get("max_depth", 0), r.get("max_depth", 0))
        for k, v in r.get("counters", {}).items():
            counters[k] = counters.get(k, 0) + v
        samples += r.get("samples", [])[:1]
    states = union([s.out + ".states" for s in shards])
    outcomes = union([s.out + ".outcomes" for s in shards])
    for k, v in (post or {}).get("counters", {}).items():
        counters[k] = counters.get(k, 0) + v
    cov = {}
    if cfg["level"] == "model_checking":
        cov.update(states=states, transitions=tot["transitions"], traces_validated_against_impl=tot["executions"])
    else:
        cov.update(evaluations=counters.pop("evaluations", tot["executions"]), distinct_nontrivial=outcomes, rule=cfg["rule"])
    cov.update(samples=samples[:6] or ["(none)"], scenarios=tot["scenarios"], choice_points=tot["choice_points"], max_choices_per_execution=tot["max_depth"])
    if cfg["level"] == "model_checking":
        cov["distinct_outcomes"] = outcomes
    if tot["known_hits"]:
        cov["executions_ending_in_known_findings"] = tot["known_hits"]
    for k, v in sorted(counters.items()):
        cov[k] = v
    cov["bounds"] = cfg["bounds"][tier] if isinstance(cfg["bounds"], dict) else cfg["bounds"]
    cov["exhaustive"] = violations == 0
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg["level"], "coverage": cov, "assumptions": cfg.get("assumptions", []),
          "wall_s": round(time.time() - start, 1), "violations": violations}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    return ev


if __name__ == "__main__":
    main()
