#!/usr/bin/env python3
"""Runs the exhaustive exploration that decides one property.

  check.py ID quick|thorough        build from /repo's working tree, explore, judge
  check.py --replay ID PROFILE GROUP CASE TIER
                                    build, and run one group of the exploration again
  check.py --build                  build every explorer (setup)

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line:
it is broken.  Exit 2: no verdict (build failure, resource problem).
"""
import fcntl, hashlib, json, mmap, os, re, resource, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
RUN = os.path.join(TARGET, "run")
PROFILES = ["checked", "plain"]
JOBS = 8
MEM = 3 << 30          # address space of one explorer process
HANG_S = 75            # no progress for this long: hung
WALL = {"quick": 780, "thorough": 6 * 3600}
NEEDS_HOOKS = {"C09", "C17", "C18", "C19", "C20", "C27"}
SCHED = {"C20": "vp-sched", "C27": "vp-apart"}
SHADOW_TAIL = "\n#[allow(unused_imports)]\n#[macro_use]\nextern crate vpstd as std;\n"


class NoVerdict(Exception):
    pass


def ids():
    return [json.loads(l)["id"] for l in open(os.path.join(VERIF, "properties.jsonl")) if l.strip()]


# ---------------------------------------------------------------- building

def tree_hash(*roots):
    h = hashlib.sha256()
    for root in roots:
        files = [root] if os.path.isfile(root) else sorted(
            os.path.join(d, f) for d, dirs, fs in os.walk(root) for f in fs
            if "/target" not in d and "/.git" not in d)
        for f in files:
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def source_hash():
    return tree_hash(REPO + "/src", REPO + "/Cargo.toml", VERIF + "/harness/src", VERIF + "/harness/Cargo.toml",
                     VERIF + "/sched/src", VERIF + "/sched/ra", VERIF + "/sched/vpstd", VERIF + "/sched/lazy",
                     VERIF + "/sched/Cargo.toml")


def distrust_stale(profile_dir, h):
    """Cargo goes by modification times; go by content."""
    stamp = os.path.join(profile_dir, ".vp-source-hash")
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old != h:
        fp = os.path.join(profile_dir, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("rustyalgebra-", "vp-harness-", "vp-sched-", "vpstd-", "lazy")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        os.makedirs(profile_dir, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(h)


def cargo(cwd, target, profile, extra, hooks=True):
    env = dict(os.environ)
    env["CARGO_TARGET_DIR"] = target
    env["RUSTFLAGS"] = ("--cfg vp_hooks " if hooks else "") + "-Awarnings"
    env["CARGO_NET_OFFLINE"] = "true"
    env.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return subprocess.run(["cargo", "build", "--offline", "--profile", profile] + extra, cwd=cwd, env=env,
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def build_bin(pid, profile):
    """Returns the explorer's path and whether it has the hooks."""
    lock = os.path.join(TARGET, "lock-" + profile)
    with open(lock, "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if pid in SCHED:
            return build_sched(SCHED[pid]), True
        distrust_stale(os.path.join(TARGET, profile), source_hash())
        b = pid.lower()
        r = cargo(VERIF + "/harness", TARGET, profile, ["--features", "hooks", "--bin", b])
        path = os.path.join(TARGET, profile, b)
        if r.returncode == 0:
            return path, True
        if pid in NEEDS_HOOKS:
            raise NoVerdict("the explorer does not build:\n" + r.stdout[-4000:])
        t2 = os.path.join(TARGET, "nohooks")
        os.makedirs(t2, exist_ok=True)
        distrust_stale(os.path.join(t2, profile), source_hash())
        r2 = cargo(VERIF + "/harness", t2, profile, ["--bin", b], hooks=False)
        if r2.returncode == 0:
            return os.path.join(t2, profile, b), False
        raise NoVerdict("the explorer does not build:\n" + r.stdout[-3000:] + r2.stdout[-1500:])


def build_sched(name="vp-sched"):
    shadow = os.path.join(TARGET, "shadow")
    shutil.rmtree(shadow, ignore_errors=True)
    os.makedirs(shadow)
    shutil.copytree(REPO + "/src", shadow + "/src")
    with open(shadow + "/src/lib.rs", "a") as f:
        f.write(SHADOW_TAIL)
    t = os.path.join(TARGET, "sched")
    distrust_stale(os.path.join(t, "plain"), source_hash())
    r = cargo(VERIF + "/sched", t, "plain", [])
    if r.returncode != 0:
        raise NoVerdict("the schedule explorer does not build:\n" + r.stdout[-4000:])
    return os.path.join(t, "plain", name)


def build(pid):
    os.makedirs(TARGET, exist_ok=True)
    profiles = ["plain"] if pid in SCHED else PROFILES
    with ThreadPoolExecutor(2) as ex:
        return dict(zip(profiles, ex.map(lambda p: build_bin(pid, p), profiles)))


def build_all():
    os.makedirs(TARGET, exist_ok=True)
    h = source_hash()

    def one(p):
        distrust_stale(os.path.join(TARGET, p), h)
        return cargo(VERIF + "/harness", TARGET, p, ["--features", "hooks", "--bins"])
    with ThreadPoolExecutor(2) as ex:
        for r in ex.map(one, PROFILES):
            if r.returncode != 0:
                print(r.stdout[-4000:])
                return 2
    try:
        build_sched()
    except NoVerdict as e:
        print(e)
        return 2
    return 0


# ---------------------------------------------------------------- running

def limits():
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setsid()


class Job:
    """One group of the exploration in a process of its own."""

    def __init__(self, exe, profile, group, tier, describe=None):
        self.exe, self.profile, self.group, self.tier = exe, profile, group, tier
        os.makedirs(RUN, exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", group)
        self.status = os.path.join(RUN, f"{os.path.basename(exe)}-{profile}-{safe}-{os.getpid()}-{id(self)}")
        with open(self.status, "wb") as f:
            f.write(b"\0" * 16)
        cmd = [exe, "--group", group, "--tier", tier, "--status", self.status]
        if describe is not None:
            cmd += ["--describe", str(describe)]
        self.out = open(self.status + ".out", "w+")
        self.proc = subprocess.Popen(cmd, stdout=self.out, stderr=subprocess.STDOUT, preexec_fn=limits)
        self.seen, self.since, self.hung = None, time.time(), False
        self.t0 = time.time()

    def progress(self):
        try:
            return struct.unpack("QQ", open(self.status, "rb").read(16))
        except Exception:
            return (0, 0)

    def poll(self):
        rc = self.proc.poll()
        if rc is not None:
            return True
        p = self.progress()
        if p != self.seen:
            self.seen, self.since = p, time.time()
        elif time.time() - self.since > HANG_S:
            self.hung = True
            self.kill()
            return True
        return False

    def kill(self):
        try:
            os.killpg(self.proc.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.proc.wait()

    def close(self):
        self.wall = time.time() - self.t0
        self.case = self.progress()[0]
        self.out.seek(0)
        text = self.out.read()
        self.out.close()
        for f in (self.status, self.status + ".out"):
            try:
                os.remove(f)
            except OSError:
                pass
        self.text = text
        self.result = None
        for l in text.splitlines():
            if l.startswith("RESULT "):
                self.result = json.loads(l[7:])
        return self


def run_to_end(job, deadline):
    while not job.poll():
        if time.time() > deadline:
            job.kill()
            job.close()
            raise NoVerdict("out of time")
        time.sleep(0.05)
    return job.close()


def ending(job):
    """clean | violation | crash | hang | error"""
    if job.hung:
        return "hang"
    rc = job.proc.returncode
    if job.result is not None and rc == 0 and job.result["violation"] is None:
        return "clean"
    if job.result is not None and rc == 10:
        return "violation"
    if rc in (-signal.SIGSEGV, -signal.SIGABRT, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP):
        return "crash"
    return "error"


def judge(job, deadline):
    """Turns a job that did not end cleanly into a violation record, or raises."""
    e = ending(job)
    if e == "violation":
        return job.result["violation"]
    if e in ("crash", "hang"):
        again = run_to_end(Job(job.exe, job.profile, job.group, job.tier), deadline)
        e2 = ending(again)
        if e2 == "violation":
            return again.result["violation"]
        if e2 != e or again.case != job.case or job.case == 0:
            if e2 in ("crash", "hang") and again.case and job.case:
                job = again  # memory corruption need not strike at the same case twice
            else:
                raise NoVerdict(f"group {job.group} ({job.profile}): {e} in case {job.case}, then {e2} in case "
                                f"{again.case}\n{job.text[-1500:]}")
        d = run_to_end(Job(job.exe, job.profile, job.group, job.tier, describe=job.case), deadline)
        v = (d.result or {}).get("violation") or {"case": job.case, "what": "case %d" % job.case, "detail": ""}
        how = "hung (no progress for %d s)" % HANG_S if e == "hang" else \
            "died with %s: %s" % (signal.Signals(-job.proc.returncode).name, job.text.strip()[-400:])
        return {"case": job.case, "what": v["what"], "detail": "the process %s" % how}
    raise NoVerdict(f"group {job.group} ({job.profile}) ended with {job.proc.returncode}\n{job.text[-2000:]}")


def list_groups(exe):
    out = subprocess.run([exe, "--list"], stdout=subprocess.PIPE, text=True, timeout=60)
    if out.returncode != 0:
        raise NoVerdict("--list failed")
    return [json.loads(l[6:]) for l in out.stdout.splitlines() if l.startswith("GROUP ")]


# ---------------------------------------------------------------- known findings

def known_findings(pid):
    """Lines of known_findings.txt "known: property=ID group=GROUP case=TEXT | what": a violation in that group whose
    description is exactly TEXT is a known finding. "fixed:" lines suppress nothing."""
    out = []
    for l in open(os.path.join(VERIF, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) group=(\S+) case=(.*?) \| (.*)$", l.strip())
        if m and m.group(1) == pid:
            out.append({"group": m.group(2), "case": m.group(3), "what": m.group(4)})
    return out


# ---------------------------------------------------------------- one check

def check(pid, tier):
    t0 = time.time()
    deadline = t0 + WALL[tier]
    exes = build(pid)
    build_s = time.time() - t0
    todo = []
    for profile, (exe, hooks) in exes.items():
        todo += [(exe, profile, g) for g in list_groups(exe)]
    # Groups whose names come first in an optional cost file go first; otherwise in listed order.
    costs = {}
    try:
        costs = json.load(open(os.path.join(VERIF, "costs.json"))).get(pid + "-" + tier, {})
    except Exception:
        pass
    todo.sort(key=lambda t: -costs.get(t[2]["name"], 0))
    running, done, violation, known = [], [], None, known_findings(pid)
    try:
        while todo or running:
            while todo and len(running) < JOBS:
                exe, profile, g = todo.pop(0)
                j = Job(exe, profile, g["name"], tier)
                j.bounds = g["bounds"]
                running.append(j)
            time.sleep(0.02)
            for j in list(running):
                if j.poll():
                    running.remove(j)
                    j.close()
                    if ending(j) != "clean":
                        v = judge(j, deadline)
                        k = [k for k in known if k["group"] == j.group and k["case"] == v["what"]]
                        if k:
                            # The group ends at its first violation: the rest of it is not explored.
                            print(f"KNOWN-FINDING: property={pid} {k[0]['what']}")
                            continue
                        violation = (j, v)
                        break
                    done.append(j)
            if violation:
                break
            if time.time() > deadline:
                raise NoVerdict("out of time in " + ", ".join(j.group for j in running))
    finally:
        for j in running:
            j.kill()
            j.close()
    if os.environ.get("VP_COSTS"):
        for j in sorted(done, key=lambda j: -j.wall)[:12]:
            print(f"  {j.wall:7.1f}s {j.profile} {j.group} cases {j.result['cases']}")

    replay = None
    if violation:
        j, v = violation
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        safe = re.sub(r"[^A-Za-z0-9_.-]", "_", j.group)
        replay = os.path.join(VERIF, "replays", f"{pid}-{j.profile}-{safe}-{v['case']}.sh")
        with open(replay, "w") as f:
            f.write("#!/bin/bash\n# Property %s violated.\n" % pid)
            for k in ("what", "detail"):
                f.write("".join("# %s: %s\n" % (k, l) for l in v[k].splitlines()))
            f.write("# Rebuilds from /repo's working tree and explores the group again, up to the first violation.\n")
            f.write("exec python3 '%s' --replay %s %s '%s' %s %s\n" % (
                os.path.abspath(__file__), pid, j.profile, j.group, v["case"], tier))
        os.chmod(replay, 0o755)
    write_evidence(pid, tier, exes, done, violation, time.time() - t0, build_s)
    if violation:
        j, v = violation
        print(f"group {j.group} ({j.profile} build), case {v['case']}\n  case:   {v['what'][:3000]}\n  detail: {v['detail'][:3000]}")
        print(f"VIOLATION property={pid} replay={replay}")
        return 1
    n = sum(j.result["cases"] for j in done)
    print(f"{pid} {tier}: {len(done)} groups, {n} cases, no violation ({time.time() - t0:.0f} s, build {build_s:.0f} s)")
    return 0


def write_evidence(pid, tier, exes, done, violation, wall, build_s):
    groups, states, samples = {}, 0, []
    for j in done:
        r = j.result
        g = groups.setdefault(j.group, {"bounds": j.bounds, "builds": {}})
        g["builds"][j.profile] = {"cases": r["cases"], "states": r["states"], "transitions": r["transitions"],
                                  "distinct_outcomes": r["outcomes"], "wall_s": round(j.wall, 2)}
    for name, g in groups.items():
        states += max(b["states"] for b in g["builds"].values())
    seen = set()
    for j in done:
        if j.group not in seen and len(samples) < 24:
            seen.add(j.group)
            samples += [f"[{j.group}] {s}" for s in j.result["samples"][-2:]]
    ev = {
        "property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "model_checking",
        "coverage": {
            "states": states,
            "transitions": sum(j.result["transitions"] for j in done),
            "traces_validated_against_impl": sum(j.result["cases"] for j in done),
            "distinct_outcomes": sum(max(b["distinct_outcomes"] for b in g["builds"].values()) for g in groups.values()),
            "exhaustive": violation is None,
            "explanation": "states: distinct model states or inputs reached, counted once over both builds; transitions: "
                           "operations of the code under test executed, in every build; traces_validated_against_impl: "
                           "complete cases (operation sequences, schedules, inputs) executed by the code and compared "
                           "with the model step by step. Each group enumerates its bounded space completely.",
            "builds": {p: {"hooks": h} for p, (_, h) in exes.items()},
            "groups": groups,
            "samples": samples or ["(stopped at the violation)"],
        },
        "assumptions": ["holds within the bounds listed per group", "the reference models in /verif/harness/src and "
                        "/verif/sched/src state what is right", "rustc, std and the sandbox's allocator are correct"],
        "wall_s": round(wall, 2), "violations": 1 if violation else 0,
    }
    if violation:
        j, v = violation
        ev["coverage"]["violation"] = {"group": j.group, "build": j.profile, "case": v["case"],
                                       "what": v["what"][:4000], "detail": v["detail"][:4000]}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{pid}.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{pid}.json"))


def replay(pid, profile, group, case, tier):
    exe, _ = build(pid)[profile]
    j = run_to_end(Job(exe, profile, group, tier), time.time() + WALL[tier])
    if ending(j) == "clean":
        print("no violation")
        return 0
    v = judge(j, time.time() + WALL[tier])
    print(f"case {v['case']} (recorded: {case})\n  case:   {v['what']}\n  detail: {v['detail']}")
    return 1


def main():
    a = sys.argv[1:]
    try:
        if a[:1] == ["--build"]:
            return build_all()
        if a[:1] == ["--replay"]:
            return replay(*a[1:6])
        pid, tier = a
        assert pid in ids() and tier in WALL, "unknown property or tier"
        return check(pid, tier)
    except NoVerdict as e:
        print("no verdict:", e)
        return 2


if __name__ == "__main__":
    sys.exit(main())
