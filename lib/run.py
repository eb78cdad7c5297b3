#!/usr/bin/env python3
"""Runs the check of one property: builds the drivers from /repo's working tree, runs their cases in parallel under a
sanitizer, collects what the monitors report, matches it against known_findings.json and writes the evidence file.

  run.py C01 [--tier quick|thorough] [--seed N]
  run.py --replay evidence/replays/<file>.json

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Anything else: the check itself failed."""
import argparse, fcntl, fnmatch, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "lib"))
from checks import CHECKS  # noqa: E402

T0 = time.time()
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
NPROC = min(8, os.cpu_count() or 1)
WALL = {"quick": 800, "thorough": 6 * 3600}


def log(*a):
    print(*a, flush=True)


def die(code, msg):
    log("CHECK-ERROR:", msg)
    sys.exit(code)


def build(flavour, targets):
    bdir = os.path.join(BUILD, flavour)
    os.makedirs(bdir, exist_ok=True)
    with open(os.path.join(BUILD, flavour + ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        subprocess.run([sys.executable, os.path.join(HERE, "lib", "gen_ninja.py"), flavour, bdir], check=True)
        t = time.time()
        p = subprocess.run(["ninja", "-j", str(NPROC), "-C", bdir, *targets], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace")
        if p.returncode != 0:
            log("\n".join(p.stdout.splitlines()[-40:])[-6000:])
            die(3, f"build of {targets} ({flavour}) failed")
        log(f"built {' '.join(targets)} [{flavour}] in {time.time() - t:.0f} s")
    return bdir


FRAME = re.compile(r"^\s*#(\d+) 0x[0-9a-f]+ (?:in )?(.*?)(?: \(|\s+(/\S+)|$)")


def clean_fn(f):
    f = re.sub(r"\(.*", "", f)
    f = re.sub(r"<[^<>]*>", "", f)
    f = re.sub(r"<[^<>]*>", "", f)
    return f.strip()


def stack_functions(text):
    """names of the functions in the first stack that lie in the repository (or at least have a name)"""
    out = []
    for line in text.splitlines():
        m = re.match(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?)(?: (/[^ ]+?)(?::\d+)*)?(?: \(.*)?$", line)
        if m:
            path = m.group(2) or ""
            if "/repo/" in path or "/vrs/" in path:
                out.append(clean_fn(m.group(1)))
        elif out and not line.strip():
            break
    return out


def parse_san(text):
    """[(key, excerpt)] of the sanitizer reports in a log"""
    res = []
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer|MemorySanitizer): ([^\n]*)", text)
    if m:
        kind = re.split(r" on | \(|: ", m.group(2))[0].strip()
        if kind.startswith("attempting"):
            kind = m.group(2)[:30]
        if kind.startswith("requested allocation size"):
            kind = "allocation-size-too-big"
        fns = stack_functions(text[m.start():])
        res.append((f"asan:{kind}:{fns[0] if fns else '?'}", text[m.start():m.start() + 2500]))
    m = re.search(r"(\S+?):\d+:\d+: runtime error: ([^\n]*)", text)
    if m:
        what = re.sub(r"-?\d[\d.e+]*|0x[0-9a-f]+|'[^']*'", "N", m.group(2))[:70]
        fns = stack_functions(text[m.start():])
        res.append((f"ubsan:{what}:{fns[0] if fns else os.path.basename(m.group(1))}", text[m.start():m.start() + 2000]))
    for blk in re.split(r"={18}\n", text):
        m = re.search(r"WARNING: ThreadSanitizer: ([^\n(]*)", blk)
        if m:
            kind = m.group(1).strip()
            parts = re.split(r"\n\n", blk)
            tops = []
            for p in parts[:2]:
                f = stack_functions(p)
                tops.append(f[0] if f else "?")
            res.append((f"tsan:{kind}:{'|'.join(sorted(tops))}", blk[:3500]))
    return res


class Shard:
    def __init__(self, stage, idx, start, stop, stride, bdir, seed, tier, tmproot, timeout):
        self.stage, self.idx, self.next, self.stop, self.stride = stage, idx, start, stop, stride
        self.bdir, self.seed, self.tier, self.timeout = bdir, seed, tier, timeout
        self.tmp = os.path.join(tmproot, f"s{idx}")
        os.makedirs(self.tmp, exist_ok=True)
        self.out = os.path.join(tmproot, f"out{idx}")
        self.sanlog = os.path.join(tmproot, f"san{idx}")
        self.proc = None
        self.pos = 0
        self.cur = None
        self.last = time.time()
        self.finished = False
        self.done_flag = False
        self.crashes = 0

    def start(self):
        for f in glob.glob(self.sanlog + "*"):
            os.unlink(f)
        open(self.out, "w").close()
        for d in glob.glob(os.path.join(self.tmp, "vhcase.*")):
            shutil.rmtree(d, ignore_errors=True)
        self.pos = 0
        self.cur = None
        self.done_flag = False
        env = dict(os.environ)
        env["TMPDIR"] = self.tmp
        env["TZ"] = "UTC"
        env["HOME"] = self.tmp
        env["ASAN_OPTIONS"] = (f"abort_on_error=0:exitcode=77:detect_leaks=0:handle_abort=1:handle_segv=1:log_path={self.sanlog}:"
                               "detect_stack_use_after_return=0:allocator_may_return_null=0:max_allocation_size_mb=3000:"
                               "quarantine_size_mb=64:soft_rss_limit_mb=0:hard_rss_limit_mb=0:symbolize=1:detect_container_overflow=1")
        if self.stage.get("asan"):
            env["ASAN_OPTIONS"] += ":" + self.stage["asan"]
        env["UBSAN_OPTIONS"] = f"print_stacktrace=1:halt_on_error=1:exitcode=77:log_path={self.sanlog}"
        env["TSAN_OPTIONS"] = (f"halt_on_error=0:exitcode=66:log_path={self.sanlog}:history_size=4:second_deadlock_stack=1:"
                               "report_signal_unsafe=0:detect_deadlocks=1")
        supp = os.path.join(HERE, "lib", "tsan.supp")
        if os.path.exists(supp):
            env["TSAN_OPTIONS"] += f":suppressions={supp}"
        for k, v in self.stage.get("env", {}).items():
            env[k] = (env[k] + ":" + v) if k.endswith("_OPTIONS") and k in env else v
        cmd = [os.path.join(self.bdir, self.stage["driver"]), "--seed", str(self.seed), "--from", str(self.next),
               "--to", str(self.stop), "--stride", str(self.stride), "--tmp", self.tmp, "--out", self.out,
               "--tier", self.tier]
        if self.stage.get("mode"):
            cmd += ["--mode", self.stage["mode"]]
        self.cmd = cmd
        self.proc = subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                     stdin=subprocess.DEVNULL, start_new_session=True)
        self.last = time.time()

    def kill(self, sig=signal.SIGKILL):
        if self.proc and self.proc.poll() is None:
            try:
                os.killpg(self.proc.pid, sig)
            except ProcessLookupError:
                pass
            if sig == signal.SIGKILL:
                self.proc.wait()

    def santext(self):
        t = ""
        for f in sorted(glob.glob(self.sanlog + "*")):
            with open(f, errors="replace") as fp:
                t += fp.read(4_000_000)
        return t


class Result:
    def __init__(self):
        self.cases = 0
        self.sigs = set()
        self.counters = {}
        self.maxes = {}
        self.samples = []
        self.violations = {}  # key -> first witness
        self.nviol = 0
        self.hung = False
        self.inconclusive = []
        self.errors = []


def run_stage(stage, bdir, seed, tier, res, deadline, only=None):
    n = stage[tier] if only is None else 1
    shards_n = min(stage.get("shards", NPROC), n, NPROC) if only is None else 1
    timeout = stage.get("case_timeout", 60)
    tmproot = tempfile.mkdtemp(prefix="vh.")
    shards = []
    try:
        for i in range(shards_n):
            start = i if only is None else only
            stop = n if only is None else only + 1
            s = Shard(stage, i, start, stop, shards_n, bdir, seed, tier, tmproot, timeout)
            s.start()
            shards.append(s)

        def violation(key, case, detail, text=""):
            res.nviol += 1
            if key not in res.violations:
                res.violations[key] = dict(driver=stage["driver"], flavour=stage["flavour"], mode=stage.get("mode", ""),
                                           case=case, seed=seed, tier=tier, key=key, detail=detail, report=text[:6000])

        def drain(s):
            try:
                with open(s.out, "rb") as f:
                    f.seek(s.pos)
                    data = f.read()
            except FileNotFoundError:
                return
            end = data.rfind(b"\n")
            if end < 0:
                return
            s.pos += end + 1
            s.last = time.time()
            for line in data[:end].decode("utf-8", "replace").split("\n"):
                p = line.split("\t")
                if p[0] == "C":
                    s.cur = int(p[1])
                elif p[0] == "D":
                    res.cases += 1
                    if p[3] == "1":
                        res.sigs.add((stage["driver"], stage.get("mode", ""), p[2]))
                    s.next = int(p[1]) + s.stride
                    s.cur = None
                elif p[0] == "K":
                    res.counters[p[1]] = res.counters.get(p[1], 0) + int(p[2])
                elif p[0] == "M":
                    res.maxes[p[1]] = max(res.maxes.get(p[1], -1 << 62), int(p[2]))
                elif p[0] == "X":
                    if len(res.samples) < 12 and sum(1 for x in res.samples if x["driver"] == stage["driver"] and x["mode"] == stage.get("mode", "")) < 4:
                        res.samples.append(dict(driver=stage["driver"], mode=stage.get("mode", ""), case=int(p[1]), text=p[2]))
                elif p[0] == "F":
                    violation(p[2], int(p[1]), p[3])
                elif p[0] == "E":
                    res.errors.append(p[1])
                elif p[0] == "Z":
                    s.done_flag = True

        while True:
            active = [s for s in shards if not s.finished]
            if not active:
                break
            if time.time() > deadline:
                for s in active:
                    s.kill()
                res.inconclusive.append(f"{stage['driver']} {stage.get('mode','')}: wall limit reached")
                break
            if len(res.violations) > 25:
                for s in active:
                    s.kill()
                break
            time.sleep(0.05)
            for s in active:
                drain(s)
                rc = s.proc.poll()
                if rc is None:
                    if time.time() - s.last > s.timeout:
                        # a hang? get a stack if possible, then decide by running the case alone
                        case = s.cur if s.cur is not None else s.next
                        s.kill(signal.SIGABRT)
                        for _ in range(100):
                            if s.proc.poll() is not None:
                                break
                            time.sleep(0.05)
                        s.kill()
                        text = s.santext()
                        key = "hang"
                        fns = [f for f in stack_functions(text)] if text else []
                        if only is None:
                            r2 = Result()
                            st2 = dict(stage)
                            st2["case_timeout"] = 2 * s.timeout
                            log(f"case {case} of {stage['driver']} timed out, running it alone")
                            run_stage(st2, bdir, seed, tier, r2, min(deadline + 50, time.time() + 2 * s.timeout + 30), only=case)
                            for k, v in r2.violations.items():
                                violation(k, case, v["detail"], v["report"])
                            if not r2.violations:
                                res.inconclusive.append(f"case {case} of {stage['driver']} slow (finished alone)")
                            s.crashes += 1
                            if any(k.startswith("hang") for k in r2.violations):
                                # one proven hang is a verdict: the other shards probably hang too
                                res.hung = True
                                for o in active:
                                    o.kill()
                                return
                        else:
                            violation("hang", case, "no progress for %d s%s" % (s.timeout, (", in " + " < ".join(fns[:6])) if fns else ""), text)
                            s.finished = True
                            continue
                        s.next = case + s.stride
                        if s.next >= s.stop or s.crashes >= 6:
                            s.finished = True
                        else:
                            s.start()
                    continue
                drain(s)
                text = s.santext()
                for key, excerpt in parse_san(text):
                    violation(key, s.cur if s.cur is not None else (s.next if not s.done_flag else -1), excerpt.split("\n")[0][:300], excerpt)
                if s.done_flag and rc in (0, 66):
                    s.finished = True
                    continue
                if rc == 9:
                    res.errors.append("driver could not set up")
                    s.finished = True
                    continue
                # died in the middle of a case
                case = s.cur if s.cur is not None else s.next
                if not parse_san(text):
                    if rc in (-9, 137):
                        res.errors.append(f"{stage['driver']} case {case}: killed (memory?)")
                    else:
                        fns = stack_functions(text)
                        violation(f"crash:{'signal %d' % -rc if rc < 0 else 'exit %d' % rc}:{fns[0] if fns else '?'}", case,
                                  "the process died", text)
                s.crashes += 1
                s.next = case + s.stride
                if s.next >= s.stop or s.crashes >= stage.get("max_crashes", 12):
                    s.finished = True
                else:
                    s.start()
    finally:
        for s in shards:
            s.kill()
        shutil.rmtree(tmproot, ignore_errors=True)


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == prop]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--replay")
    ap.add_argument("--only", help="driver[:mode] filter, for development")
    ap.add_argument("--scale", type=float, default=1.0, help="multiplies the case counts, for development")
    a = ap.parse_args()
    if a.replay:
        r = json.load(open(a.replay))
        stage = next(s for s in CHECKS[r["property"]]["stages"] if s["driver"] == r["driver"] and s.get("mode", "") == r["mode"])
        bdir = build(r["flavour"], [r["driver"]])
        res = Result()
        run_stage(dict(stage, **{r["tier"]: 1}), bdir, r["seed"], r["tier"], res, time.time() + 1200, only=r["case"])
        for k, v in res.violations.items():
            log("reproduced:", k, "|", v["detail"])
            if v["report"]:
                log(v["report"])
        sys.exit(1 if res.violations else 0)
    prop, tier, seed = a.prop, a.tier, a.seed
    spec = CHECKS[prop]
    deadline = T0 + WALL[tier]
    res = Result()
    stages = [dict(s) for s in spec["stages"] if not a.only or a.only in (s["driver"], s["driver"] + ":" + s.get("mode", ""))]
    for s in stages:
        for t in ("quick", "thorough"):
            s[t] = max(1, int(s[t] * a.scale))
    by_fl = {}
    for s in stages:
        by_fl.setdefault(s["flavour"], []).append(s)
    per_stage = []
    for fl, lst in by_fl.items():
        bdir = build(fl, sorted({s["driver"] for s in lst}))
        for s in lst:
            if res.hung:
                break
            t, c0 = time.time(), res.cases
            run_stage(s, bdir, seed, tier, res, deadline)
            per_stage.append(dict(driver=s["driver"], mode=s.get("mode", ""), build=fl, cases=res.cases - c0, seconds=round(time.time() - t, 1)))
            log(f"{s['driver']} {s.get('mode', '')} [{fl}]: {res.cases - c0} cases in {time.time() - t:.1f} s")
    # verdict
    known = load_known(prop)
    reported, kf = [], {}
    os.makedirs(os.path.join(HERE, "evidence", "replays"), exist_ok=True)
    for key, v in res.violations.items():
        hit = next((e for e in known if e.get("status") == "known" and fnmatch.fnmatchcase(key, e["key"])), None)
        if hit:
            kf.setdefault(hit["id"], 0)
            kf[hit["id"]] += 1
            continue
        reported.append((key, v))
    for e in known:
        if e.get("status") == "known":
            log(f"KNOWN-FINDING: property={prop} {e['what']} [{e['id']}; {'seen' if e['id'] in kf else 'not reached'} in this run]")
    for f in glob.glob(os.path.join(HERE, "evidence", "replays", prop + "_*.json")):
        os.unlink(f)
    lines = []
    for i, (key, v) in enumerate(reported):
        path = os.path.join("evidence", "replays", f"{prop}_{i}.json")
        with open(os.path.join(HERE, path), "w") as f:
            json.dump(dict(v, property=prop), f, indent=1)
        log(f"  violation {key}: case {v['case']} of {v['driver']} {v['mode']}: {v['detail'][:400]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    observed = dict(sorted(res.counters.items()))
    observed.update({"max " + k: v for k, v in sorted(res.maxes.items())})
    ev = dict(property=prop, tier=tier, seed=seed, level=spec["level"],
              coverage=dict(evaluations=res.cases, distinct_nontrivial=len(res.sigs), rule=spec["rule"],
                            samples=res.samples, observed=observed, stages=per_stage),
              assumptions=spec.get("assumptions", []), wall_s=round(time.time() - T0, 1),
              violations=[dict(key=k, case=v["case"], driver=v["driver"], detail=v["detail"][:500]) for k, v in reported],
              known_findings_seen=kf, inconclusive=res.inconclusive)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    log(f"{prop} {tier} seed={seed}: {res.cases} cases, {len(res.sigs)} distinct non-trivial, {len(reported)} violations, "
        f"{time.time() - T0:.0f} s; observed {json.dumps(observed)}")
    for x in res.inconclusive:
        log("INCONCLUSIVE:", x)
    if lines:
        for ln in lines[:10]:
            log(ln)
        sys.exit(1)
    if res.errors:
        die(4, "; ".join(sorted(set(res.errors))[:5]))
    if any("wall limit" in x for x in res.inconclusive):
        die(5, "the time limit stopped the run before its end")
    want = sum(s[tier] for s in stages)
    if res.cases == 0 or not res.sigs or (not a.only and res.cases < want * 0.9 and not kf):
        die(6, f"only {res.cases} of {want} cases were observed: no verdict")
    if not a.only and a.scale == 1.0:
        for c in spec.get("must_observe", []):
            if observed.get(c, 0) <= 0:
                die(6, f"nothing was observed for '{c}': no verdict")
    sys.exit(0)


main()
