#!/usr/bin/env python3
"""Driver of the solver-based checks.

  check.py <ID> [quick|thorough]   decide one property on /repo's current tree
  check.py setup                   build engine, encoding and replayer
  check.py replay <file>           re-run a recorded counterexample against the real code

Every run re-encodes /repo's current sources (LLVM IR of the real crate plus the
harness), runs the symbolic engine on every job of the property, replays every
counterexample natively and writes evidence/<ID>.json.
"""
import concurrent.futures as cf
import hashlib, json, os, random, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = "/repo"
ENGINE = f"{HERE}/engine/target/release/rqsym"
IR = f"{HERE}/harness/sym/target/release/deps/harness.ll"
REPLAY = f"{HERE}/harness/replay/target/debug/replay"
REPLAY_REL = f"{HERE}/harness/replay/target/release/replay"
NCPU = max(2, min(8, os.cpu_count() or 8))

ENV = dict(os.environ)
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "RUSTC_WRAPPER", "CARGO_ENCODED_RUSTFLAGS"):
    ENV.pop(k, None)
ENV["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
ENV["CARGO_NET_OFFLINE"] = "true"
ENV["CARGO_TERM_COLOR"] = "never"


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ------------------------------------------------------------------ building
def tree_hash():
    """Hash of everything the encoding depends on."""
    h = hashlib.sha256()
    files = []
    for base, ds, fs in os.walk(f"{REPO}/src"):
        ds.sort()
        files += [os.path.join(base, f) for f in sorted(fs)]
    for base in (f"{HERE}/harness/props", f"{HERE}/harness/sym/src", f"{HERE}/harness/replay/src"):
        files += [os.path.join(base, f) for f in sorted(os.listdir(base))]
    files += [f"{REPO}/Cargo.toml", f"{REPO}/build.rs", f"{HERE}/harness/sym/Cargo.toml", f"{HERE}/harness/replay/Cargo.toml"]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read())
    return h.hexdigest()


def cargo(dir_, args, env=None, what=""):
    e = dict(ENV)
    e.update(env or {})
    p = subprocess.run(["cargo"] + args, cwd=dir_, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode != 0:
        raise Broken(f"building {what or dir_} failed:\n" + p.stdout[-4000:])


def forget(dir_, names):
    """Make cargo rebuild the crates that come from /repo and the harness (it
    decides by time stamps, which a checked-out copy does not preserve)."""
    for prof in ("release", "debug"):
        fp = f"{dir_}/target/{prof}/.fingerprint"
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.rsplit("-", 1)[0] in names:
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)


def build(which=("engine", "ir", "replay")):
    h = tree_hash()
    jobs = []

    def engine():
        src = hashlib.sha256()
        for f in sorted(os.listdir(f"{HERE}/engine/src")):
            src.update(open(f"{HERE}/engine/src/{f}", "rb").read())
        st = f"{HERE}/engine/target/stamp"
        old = open(st).read() if os.path.exists(st) else ""
        if old != src.hexdigest() or not os.path.exists(ENGINE):
            forget(f"{HERE}/engine", {"rqsym"})
        cargo(f"{HERE}/engine", ["build", "--release", "--offline"], what="engine")
        open(st, "w").write(src.hexdigest())

    def ir():
        d = f"{HERE}/harness/sym"
        st = f"{d}/target/stamp"
        old = open(st).read() if os.path.exists(st) else ""
        if old != h or not os.path.exists(IR):
            forget(d, {"rqrr", "harness"})
            cargo(d, ["build", "--release", "--offline"],
                  {"RUSTFLAGS": "--emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp"}, "encoding (LLVM IR of /repo + harness)")
            if not os.path.exists(IR):
                raise Broken("no LLVM IR was produced")
            open(st, "w").write(h)

    def replay():
        d = f"{HERE}/harness/replay"
        st = f"{d}/target/stamp"
        old = open(st).read() if os.path.exists(st) else ""
        if old != h or not os.path.exists(REPLAY):
            forget(d, {"rqrr", "replay"})
            cargo(d, ["build", "--offline"], what="replayer")
            open(st, "w").write(h)

    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(f) for f in (engine, ir, replay) if f.__name__ in which]
        for f in fs:
            f.result()


_rel = threading.Lock()


def build_release_replay():
    with _rel:
        cargo(f"{HERE}/harness/replay", ["build", "--offline", "--release"], what="replayer (release)")


# ------------------------------------------------------------------- running
class Job:
    """One solver run: an entry of the harness with concrete parameters.

    fam    jobs of one family share their degradation level
    notes  reachability witnesses that must have been hit (vacuity guard)
    falls  weaker variants (fewer symbolic bits), tried when the engine gives up
    """

    def __init__(self, entry, *params, fam=None, notes=(1,), opts=(), secs=120, falls=(), tier="quick"):
        self.entry, self.params = entry, [int(p) for p in params]
        self.fam = fam or entry
        self.notes, self.opts, self.secs, self.falls = set(notes), list(opts), secs, list(falls)

    def label(self, params=None):
        return self.entry + "(" + ",".join(map(str, params or self.params)) + ")"


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))


procs = set()
plock = threading.Lock()
stop = threading.Event()


def sh(cmd, timeout, inp=None):
    with plock:
        if stop.is_set():
            return None, "", ""
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", preexec_fn=limits, env=ENV)
        procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, "", "timeout"
    finally:
        with plock:
            procs.discard(p)


def kill_all():
    stop.set()
    with plock:
        for p in procs:
            p.kill()


def engine(entry, params, opts, secs):
    cmd = [ENGINE, "--max-secs", str(secs), "--audit", "5"] + opts + [IR, entry] + [str(p) for p in params]
    rc, o, e = sh(cmd, secs + 30)
    try:
        d = json.loads(o.strip().splitlines()[-1])
    except Exception:
        d = {"status": "error", "error": f"engine died rc={rc} {e[-300:]}"}
    return d


def replay_bits(entry, params, lines, binary=None, timeout=120):
    """Run the real code natively; returns [(tag, outs, notes)]."""
    d = f"{HERE}/replays/tmp"
    os.makedirs(d, exist_ok=True)
    f = f"{d}/{os.getpid()}-{threading.get_ident()}.bits"
    with open(f, "w") as h:
        h.write("".join(l + "\n" for l in lines))
    try:
        rc, o, e = sh([binary or REPLAY, entry] + [str(p) for p in params] + ["--bits", f], timeout)
    finally:
        os.unlink(f)
    res = []
    for l in o.splitlines():
        p = [x.strip() for x in l.split("|")]
        if len(p) == 4:
            res.append((p[0], p[1][5:], p[2][6:]))
    return res, e


class Runner:
    def __init__(self, pid, jobs, tier, seed, budget):
        self.pid, self.jobs, self.tier, self.seed = pid, jobs, tier, seed
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.lock = threading.Lock()
        self.famlevel = {}
        self.results, self.undecided, self.broken = [], [], []
        self.violation = None
        self.known = []
        self.traces = 0
        self.rnd = random.Random(seed * 7919 + 17)

    # one engine verdict, validated natively
    def attempt(self, job, params, opts, secs):
        d = engine(job.entry, params, opts, secs)
        if stop.is_set():
            return "stopped", d
        if d["status"] == "violation":
            v = d["violation"]
            pad = v["bits"] + "0" * 4096
            for binary in (REPLAY, REPLAY_REL):
                if binary == REPLAY_REL:
                    build_release_replay()
                res, err = replay_bits(job.entry, params, [pad], binary)
                if res and res[0][0].split()[0] in ("CHECK", "PANIC"):
                    return "violation", (v, res[0], err, binary, v["bits"])
                if not res and err and err != "timeout":
                    # the process died: abort / stack overflow / out of memory
                    return "violation", (v, ("ABORT", "", ""), err, binary, v["bits"])
            return "mismatch", f"{job.label(params)}: engine reports {v['kind']} {v['what']} but the real code does not show it ({res})"
        if d["status"] != "ok":
            return "gaveup", d
        missing = [n for n in job.notes if str(n) not in d["notes"]]
        if missing:
            return "vacuous", f"{job.label(params)}: witnesses {missing} not reached"
        # translation validation: solver-chosen inputs of finished paths, engine vs real code
        sm = [s for s in d["samples"] if not s["panic"]]
        if sm:
            res, err = replay_bits(job.entry, params, [s["bits"] for s in sm])
            if stop.is_set():
                return "stopped", d
            for s, r in zip(sm, res):
                if r[0].split()[0] in ("CHECK", "PANIC"):
                    return "violation", ({"kind": "replay", "what": "sample of a finished path", "stack": []}, r, err, REPLAY, s["bits"])
                if r[0] != "OK" or r[1] != ",".join(map(str, s["outs"])):
                    return "mismatch", f"{job.label(params)}: encoding and real code differ: {s['outs']} vs {r}"
            if len(res) != len(sm):
                return "mismatch", f"{job.label(params)}: replay of samples failed: {err[-300:]}"
            with self.lock:
                self.traces += len(sm)
        return "ok", d

    def one(self, job):
        if stop.is_set():
            return
        variants = [(job.params, job.opts)] + [(f[0], f[1]) if isinstance(f, tuple) else (f, job.opts) for f in job.falls]
        with self.lock:
            lvl = self.famlevel.get(job.fam, {}).get("level", 0)
        lvl = min(lvl, len(variants) - 1)
        why = []
        probed = False
        while lvl < len(variants):
            params, opts = variants[lvl]
            left = self.deadline - time.time()
            if left < 5:
                why.append("out of time")
                break
            secs = max(4, min(job.secs if lvl == 0 else min(job.secs, 60), left - 3))
            kind, d = self.attempt(job, params, opts, secs)
            if kind == "stopped":
                return
            if kind == "violation":
                self.report(job, params, d)
                return
            if kind == "ok":
                with self.lock:
                    self.results.append((job, params, opts, lvl, d))
                return
            if kind in ("mismatch", "vacuous"):
                with self.lock:
                    self.broken.append(d)
                return
            why.append(f"{job.label(params)}: {d.get('error')}")
            with self.lock:
                f = self.famlevel.setdefault(job.fam, {"level": 0, "fails": {}})
                f["fails"][lvl] = f["fails"].get(lvl, 0) + 1
                if f["fails"][lvl] >= 2 and f["level"] <= lvl:
                    f["level"] = min(lvl + 1, len(variants) - 1)
            # The engine gave up: before weakening, let the real code run on a few inputs of this job.
            if not probed:
                probed = True
                with self.lock:
                    rr = random.Random(self.rnd.random())
                n = 60000
                lines = ["0" * n, "1" * n] + [format(rr.getrandbits(n), f"0{n}b") for _ in range(6)]
                res, err = replay_bits(job.entry, params, lines)
                for l, r in zip(lines, res):
                    if r[0].split()[0] in ("CHECK", "PANIC"):
                        self.report(job, params, ({"kind": "probe", "what": "real code run after the engine gave up", "stack": []}, r, err, REPLAY, l))
                        return
            lvl += 1
        with self.lock:
            self.undecided.append((job, why))

    def report(self, job, params, d):
        v, r, err, binary, bits = d
        tag = r[0]
        lab = job.label(params)
        for k in known_findings():
            if k["property"] == self.pid and k["job"] == lab and k["tag"].replace("_", " ") == tag:
                with self.lock:
                    self.known.append(k)
                return
        with self.lock:
            if self.violation:
                return
            os.makedirs(f"{HERE}/replays", exist_ok=True)
            path = f"{HERE}/replays/{self.pid}-{job.entry}.json"
            self.violation = path
            json.dump({"property": self.pid, "entry": job.entry, "params": params, "bits": bits + "0" * (0 if len(bits) > 20000 else 4096),
                       "found": v["kind"] + ": " + v["what"], "stack": v.get("stack", []), "native": tag,
                       "native_stderr": err[-1500:], "binary": "release" if binary == REPLAY_REL else "dev",
                       "how": f"python3 check.py replay {path}"}, open(path, "w"), indent=1)
            log(f"violation: {lab}: {v['kind']} {v['what']} -> native {tag}\n{err[-600:]}")
        kill_all()

    def run(self):
        with cf.ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(self.one, self.jobs))


def known_findings():
    out = []
    f = f"{HERE}/KNOWN_FINDINGS.txt"
    if os.path.exists(f):
        for l in open(f):
            p = l.split(None, 4)
            if len(p) >= 4 and p[0] == "known:":
                kv = dict(x.split("=", 1) for x in p[1:4])
                kv["what"] = p[4].strip() if len(p) > 4 else ""
                out.append(kv)
    return out


def evidence(pid, tier, seed, run, spec, violations):
    res = [r[4] for r in run.results]
    tot = lambda k: sum(int(d.get(k, 0)) for d in res)
    funcs = sorted({f for d in res for f in d.get("funcs", [])})
    mine = [f for f in funcs if "rqrr" in f or "g2p" in f]
    samples = []
    for j, p, o, l, d in sorted(run.results, key=lambda r: r[0].label())[:400]:
        for s in d["samples"][:1]:
            if len(samples) < 12 and len(s["bits"]) > 0:
                samples.append({"job": j.label(p), "input_bits": s["bits"][:256] + ("..." if len(s["bits"]) > 256 else ""), "outs": s["outs"][:8]})
    if not samples:
        samples = [{"job": j.label(p)} for j, p, o, l, d in run.results[:5]]
    cov = {
        "states": max(1, tot("paths")) if res else 0,
        "transitions": tot("steps"),
        "traces_validated_against_impl": run.traces,
        "samples": samples,
        "explanation": "states = symbolic end states (each covers all inputs of its path condition), transitions = LLVM instructions executed symbolically",
        "jobs": len(run.jobs),
        "jobs_decided": len(run.results),
        "jobs_decided_full_strength": sum(1 for r in run.results if r[3] == 0),
        "jobs_decided_weakened": [f"{r[0].label()} as {r[0].label(r[1])}" for r in run.results if r[3] > 0][:60],
        "jobs_undecided": [f"{j.label()}: {'; '.join(w)[:300]}" for j, w in run.undecided][:60],
        "job_list": sorted({r[0].label(r[1]) for r in run.results})[:400],
        "functions_encoded": len(funcs),
        "functions_encoded_rqrr": mine[:120],
        "bounds": spec["bounds"],
        "outside_bounds": spec["outside"],
        "symbolic_input_bits_total": tot("inputs"),
        "symbolic_input_bits_max": max([int(d.get("inputs", 0)) for d in res] or [0]),
        "branches_decided": tot("branch_sym"),
        "state_merges": tot("merges"),
        "assertions_checked": tot("checks"),
        "assertions_by_normal_form": tot("checks_const"),
        "assertions_by_truth_table_or_linear": tot("checks_tt"),
        "assertions_by_smt": tot("checks_smt"),
        "decisions_truth_table": tot("tt_decisions"),
        "decisions_linear": tot("lin_decisions"),
        "decisions_cross_checked_by_z3": tot("audited"),
        "smt_queries": tot("queries"),
        "smt_sat": tot("sat"),
        "smt_unsat": tot("unsat"),
        "smt_unknown": tot("unknown"),
        "smt_time_s": round(sum(float(d.get("solver_time", 0)) for d in res), 3),
        "engine_time_s": round(sum(float(d.get("time", 0)) for d in res), 3),
        "solver": next((d["solver"] for d in res if d.get("solver")), ""),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov,
          "assumptions": spec["assumptions"], "wall_s": round(time.time() - run.t0, 2), "violations": violations}
    os.makedirs(f"{HERE}/evidence", exist_ok=True)
    json.dump(ev, open(f"{HERE}/evidence/{pid}.json", "w"), indent=1)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if sys.argv[1] == "setup":
        build()
        return 0
    if sys.argv[1] == "replay":
        d = json.load(open(sys.argv[2]))
        build(("replay",))
        b = REPLAY
        if d["binary"] == "release":
            build_release_replay()
            b = REPLAY_REL
        res, err = replay_bits(d["entry"], d["params"], [d["bits"]], b)
        print(res, err[-1500:])
        return 1 if not res or res[0][0] != "OK" else 0
    import jobs as J
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    spec = J.SPECS[pid]
    jobs = spec["jobs"](tier, seed)
    run = Runner(pid, jobs, tier, seed, 780 if tier == "quick" else 6 * 3600)
    try:
        build()
    except Broken as e:
        log(str(e))
        evidence(pid, tier, seed, run, spec, 0)
        return 2
    run.t0 = t0
    run.run()
    evidence(pid, tier, seed, run, spec, 1 if run.violation else 0)
    for k in {k["what"] for k in run.known}:
        print(f"KNOWN-FINDING: property={pid} {k}")
    n = len(run.jobs)
    full = sum(1 for r in run.results if r[3] == 0)
    print(f"{pid} {tier}: {len(run.results)}/{n} jobs decided ({full} at full strength), {len(run.undecided)} undecided, {run.traces} traces validated, {time.time()-t0:.1f} s")
    if run.violation:
        print(f"VIOLATION property={pid} replay={run.violation}")
        return 1
    if run.broken:
        for b in run.broken[:5]:
            log("broken: " + b)
        return 2
    if run.undecided:
        for j, w in run.undecided[:10]:
            log("undecided: " + j.label() + ": " + "; ".join(w))
        # Families none of whose jobs could be decided leave the property unanswered.
        fams = {j.fam for j in run.jobs}
        done = {r[0].fam for r in run.results}
        if fams - done:
            log("no verdict for: " + ", ".join(sorted(fams - done)))
            return 2
    return 0


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    d = f"{HERE}/replays/tmp"
    if os.path.isdir(d) and not os.listdir(d):
        os.rmdir(d)
    sys.exit(rc)
