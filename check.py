#!/usr/bin/env python3
"""Runs the monitor of one property against the current tree of /repo.

usage: check.py PROPERTY quick|thorough [--seed N]
       check.py --build            only build the monitors
       check.py --replay FILE      run the case of a replay file again

Exit 0: held on everything observed. Exit 1 with a VIOLATION line: it did not. Exit 2: the tree or the
monitors do not build. Exit 3: inconclusive (harness fault, too little observed, time).
"""
import fcntl, hashlib, json, os, re, resource, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target", "h")
BIN = os.path.join(TARGET, "debug", "vh")
KNOWN = os.path.join(VERIF, "known-findings.txt")


def env():
    e = dict(os.environ)
    e["CARGO_TARGET_DIR"] = TARGET
    e["CARGO_NET_OFFLINE"] = "true"
    e.pop("RUSTFLAGS", None)
    e["VH_REPLAYS"] = os.path.join(VERIF, "replays")
    return e


def tree_hash():
    """Content of everything of the crate that a build can see."""
    h = hashlib.sha256()
    files = [os.path.join(REPO, f) for f in ("Cargo.toml", "build.rs", "rust-toolchain", "rust-toolchain.toml")]
    for top in ("src",):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            files += [os.path.join(d, f) for f in sorted(fs)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()


def build():
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(TARGET, "tree")
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        cmd = ["cargo", "build", "--offline", "-q"]
        cwd = os.path.join(VERIF, "harness")
        if old != now:
            # do not rely on file times: copies and patches may carry old ones
            subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "rusty_genes"], cwd=cwd, env=env())
        r = subprocess.run(cmd, cwd=cwd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(now)


SAN_TARGET = {"tsan": os.path.join(VERIF, "target", "tsan"), "miri": os.path.join(VERIF, "target", "miri")}
TSAN_BIN = os.path.join(SAN_TARGET["tsan"], "x86_64-unknown-linux-gnu", "debug", "san")


def san_env(kind, seed="0"):
    e = env()
    e["CARGO_TARGET_DIR"] = SAN_TARGET[kind]
    if kind == "tsan":
        e["RUSTFLAGS"] = "-Zsanitizer=thread -Cunsafe-allow-abi-mismatch=sanitizer"
        # reports are counted and judged below, they do not decide the exit status
        e["TSAN_OPTIONS"] = "exitcode=0 report_thread_leaks=0 history_size=4"
    else:
        # object ownership in the queues of the thread pool needs both; the code under test has no pointers
        e["MIRIFLAGS"] = f"-Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-seed={seed}"
    return e


def build_tsan():
    target = SAN_TARGET["tsan"]
    os.makedirs(target, exist_ok=True)
    with open(os.path.join(target, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(target, "tree")
        now = tree_hash()
        old = open(stamp).read() if os.path.exists(stamp) else ""
        cwd = os.path.join(VERIF, "san")
        base = ["cargo", "+nightly"]
        at = ["--offline", "-q", "--target", "x86_64-unknown-linux-gnu"]
        if old != now:
            subprocess.run(base + ["clean"] + at + ["-p", "rusty_genes"], cwd=cwd, env=san_env("tsan"))
        r = subprocess.run(base + ["build", "-Zbuild-std"] + at, cwd=cwd, env=san_env("tsan"),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            print(r.stdout[-6000:])
            print("BUILD FAILED")
            sys.exit(2)
        with open(stamp, "w") as f:
            f.write(now)


def tsan_races(text):
    """The data races of a ThreadSanitizer log between accesses made outside the thread pool itself.

    The pool (rayon, crossbeam) orders its threads partly by fences, which ThreadSanitizer does not model: reports
    whose accesses come from there are noise. An access comes from the innermost frame that is not of std."""
    out = {}
    for block in re.findall(r"WARNING: ThreadSanitizer: data race.*?\n={10,}", text, re.S):
        parts = re.split(r"\n(?=  \S)", block)
        stacks = [p for p in parts if re.match(r"  (Previous )?(atomic )?(read|write) of size", p, re.I)][:2]
        at = []
        for stack in stacks:
            frames = re.findall(r"^\s+#\d+ (.*?) (/\S+?)(?::\d+)* \(", stack, re.M)
            own = [f for _, f in frames if "/rustlib/src/" not in f]
            at.append(own[0] if own else "?")
        if len(at) == 2 and not any(re.search(r"/(crossbeam|rayon)[^/]*/|^\?$", f) for f in at):
            out.setdefault(tuple(sorted(at)), block[:4000])
    return out


def one_tsan(seed, rounds):
    try:
        r = subprocess.run([TSAN_BIN, str(seed), str(rounds)], env=san_env("tsan"), timeout=300,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return None, {}, {}
    m = re.search(r"^SAN (.*)$", r.stdout, re.M)
    counts = {k: int(v) for k, v in (x.split("=") for x in m.group(1).split())} if m else {}
    return r.returncode, counts, tsan_races(r.stderr)


def one_miri(seed, rounds):
    try:
        r = subprocess.run(["cargo", "+nightly", "miri", "run", "--offline", "-q", "--", str(seed), str(rounds)],
                           cwd=os.path.join(VERIF, "san"), env=san_env("miri", seed), timeout=600,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    except subprocess.TimeoutExpired:
        return {}, {}
    m = re.search(r"^SAN (.*)$", r.stdout, re.M)
    counts = {k: int(v) for k, v in (x.split("=") for x in m.group(1).split())} if m else {}
    bad = {}
    for x in re.finditer(r"error: (Undefined Behavior: .*?)\n\s+--> (\S+)(.*)", r.stdout, re.S):
        if x.group(2).startswith((REPO, "src/")):
            bad.setdefault((x.group(2),), x.group(0)[:4000])
    return counts, bad


def sanitize(prop, tier, seed):
    """C23 under ThreadSanitizer (and Miri): returns (exit code, coverage)."""
    from concurrent.futures import ThreadPoolExecutor
    runs, rounds = (4, 60) if tier == "quick" else (24, 400)
    base = int(seed) % 100000 * 1000
    cov = {"tsan_runs": 0, "tsan_rounds": 0, "tsan_populations": 0, "tsan_evaluations": 0, "tsan_generators": 0,
           "tsan_generator_overlaps": 0, "tsan_races": 0, "miri_runs": 0, "miri_rounds": 0, "miri_evaluations": 0}
    found = {}

    def note(tool, s, n, races, again):
        for at, text in races.items():
            if at in found:
                continue
            # believe only what shows again
            if any(at in again() for _ in range(3)):
                found[at] = (tool, s, n, text)

    def add(tool, counts):
        cov[tool + "_runs"] += 1
        for k in ("rounds", "populations", "evaluations", "generators"):
            if f"{tool}_{k}" in cov:
                cov[f"{tool}_{k}"] += counts.get(k, 0)

    with ThreadPoolExecutor(2) as ex:
        results = list(ex.map(lambda k: (base + k, one_tsan(base + k, rounds)), range(runs)))
    for s, (rc, counts, races) in results:
        if counts:
            add("tsan", counts)
        if counts.get("overlaps", 0):
            cov["tsan_generator_overlaps"] += counts["overlaps"]
            found[("a generator is used by two threads at once",)] = ("tsan", s, rounds, f"{counts['overlaps']} draws overlap another draw from the same generator")
        cov["tsan_races"] += len(races)
        note("tsan", s, rounds, races, lambda: one_tsan(s, rounds)[2])
    if tier != "quick":
        first = one_miri(base, 1)  # builds
        if first[0] or first[1]:
            with ThreadPoolExecutor(8) as ex:
                results = list(ex.map(lambda k: (base + k, one_miri(base + k, 40)), range(16)))
            for s, (counts, bad) in results:
                if counts:
                    add("miri", counts)
                note("miri", s, 40, bad, lambda: one_miri(s, 40)[1])
        else:
            print(f"[{prop}] Miri is not available here")
    print(f"[{prop}] sanitizers: " + ", ".join(f"{k}={v}" for k, v in cov.items()))
    for k, (at, (tool, s, n, text)) in enumerate(found.items()):
        path = os.path.join(VERIF, "replays", f"{prop}-{tool}-{k}-s{seed}.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"property={prop}\nsanitizer={tool}\nseed={s}\nrounds={n}\nat={' | '.join(at)}\n\n{text}\n")
        print(f"[{prop}] {tool}: {' | '.join(at)}")
        print(f"VIOLATION property={prop} replay={path}")
    if found:
        return 1, cov
    if cov["tsan_evaluations"] == 0:
        print("INCONCLUSIVE: no run under ThreadSanitizer came to its end")
        return 3, cov
    return 0, cov


MONITORS = [f"C{k:02}" for k in [*range(1, 38), 39, 40, 41]]
# what a process may do besides computing: waiting, memory, threads of the pools (not traced), and reading /proc and /sys
CALLS = "%file,%network,execve,execveat,fork,vfork,write,writev,pwrite64,pwritev,sendfile,ftruncate,memfd_create,kill"


def one_silent(prop, seed, tier, brief, strace):
    """Output and system calls of one monitor between its marks: (offences, calls seen, evaluations, ended)."""
    d = os.path.join(VERIF, "target", "silent")
    os.makedirs(d, exist_ok=True)
    base = os.path.join(d, f"{prop}-{seed}-{os.getpid()}")
    e = env()
    e["VH_FENCE"] = "1"
    e["TMPDIR"] = d
    e["VH_REPLAYS"] = d
    cmd = [BIN, prop, "--tier", tier, "--seed", str(seed), "--brief", "1" if brief else "0"]
    if strace:
        cmd = ["strace", "-f", "-qq", "--seccomp-bpf", "-s", "200", "-e", "trace=" + CALLS, "-o", base + ".trace"] + cmd
    try:
        with open(base + ".out", "w") as o, open(base + ".err", "w") as x:
            subprocess.run(cmd, env=e, stdout=o, stderr=x, preexec_fn=limits, timeout=150 if brief else 400)
    except subprocess.TimeoutExpired:
        pass
    out, err = (open(base + s, errors="replace").read() for s in (".out", ".err"))
    bad = []
    ended = "VH-END" in err
    between = err.split("VH-BEGIN\n", 1)[-1].split("VH-END\n", 1)[0]
    if "VH-BEGIN" in err and between and not between.startswith("\nthread "):
        bad.append(("output to standard error", between[:300]))
    first = out.split("\n", 1)[0]
    if ended and first and not first.startswith((f"[{prop}]", "INCONCLUSIVE")):
        bad.append(("output to standard output", out[:300]))
    calls = 0
    trace = open(base + ".trace", errors="replace").read() if os.path.exists(base + ".trace") else ""
    if "VH-BEGIN" in trace:
        for l in trace.split("VH-BEGIN", 1)[1].split('"VH-END', 1)[0].split("\n")[1:-1]:
            m = re.match(r"\d+\s+(\w+)\((.*)", l)
            if not m:
                continue
            calls += 1
            name, rest = m.groups()
            if re.match(r'(AT_FDCWD, )?"/(proc|sys)/', rest) and ("O_WRONLY" not in rest and "O_RDWR" not in rest):
                continue
            if re.match(r'\d+, ""', rest):
                continue  # the state of an open file
            bad.append((name, l[:300]))
    m = re.search(r"held on (\d+) evaluations, (\d+) distinct", out)
    for s in (".out", ".err", ".trace"):
        if os.path.exists(base + s):
            os.remove(base + s)
    return bad, calls, int(m.group(1)) if m else 0, ended, int(m.group(2)) if m else 0


def silent(prop, tier, seed, ev):
    """C38: the workloads of all other monitors under the eyes of strace, and with their output captured."""
    from concurrent.futures import ThreadPoolExecutor
    t0 = time.time()
    try:
        r = subprocess.run(["strace", "-f", "-qq", "--seccomp-bpf", "-e", "trace=execve", "-o", "/dev/null", "true"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        strace = r.returncode == 0
    except OSError:
        strace = False
    jobs = [(m, int(seed), "quick", tier == "quick") for m in MONITORS]
    if tier != "quick":
        jobs += [(m, int(seed) + k, "quick", True) for k in range(1, 4) for m in MONITORS]
    with ThreadPoolExecutor(5 if tier == "quick" else 3) as ex:
        results = list(ex.map(lambda j: one_silent(*j, strace), jobs))
    ended = sum(r[3] for r in results)
    calls = sum(r[1] for r in results)
    evals = sum(r[2] for r in results)
    found = None
    for j, (bad, *_ ) in zip(jobs, results):
        if bad and not found:
            # believe only what shows again
            again = one_silent(*j, strace)[0]
            if any(b[0] == bad[0][0] for b in again):
                found = (j, bad[0])
    print(f"[{prop}] {len(jobs)} workloads, {ended} ran to their end, {evals} evaluations, {calls} system calls looked at"
          + ("" if strace else "; strace does not work here: only the output was looked at"))
    rc = 0
    if found:
        (m, s, t, brief), (name, text) = found
        path = os.path.join(VERIF, "replays", f"{prop}-{m}-s{s}.txt")
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w") as f:
            f.write(f"property={prop}\nsilent={m}\nseed={s}\ntier={t}\nbrief={int(brief)}\nmessage={name}: {text!r}\n")
        print(f"[{prop}] during the workload of {m}: {name}: {text!r}")
        print(f"VIOLATION property={prop} replay={path}")
        rc = 1
    elif ended < 12 or evals == 0:
        print("INCONCLUSIVE: too few workloads came to their end")
        rc = 3
    with open(ev, "w") as f:
        json.dump({"property": prop, "tier": tier, "seed": int(seed), "level": "exploration", "coverage": {
            "evaluations": max(evals, 1), "distinct_nontrivial": sum(r[4] for r in results),
            "rule": "The workloads of the other monitors run with their output captured and (with strace) their system calls recorded; between the marks for the begin and the end of the library's work nothing may be written, no file outside /proc and /sys be touched, no connection and no process be made.",
            "observed": {"workloads": len(jobs), "workloads ended": ended, "system calls": calls, "strace": int(strace)},
            "samples": [f"{j[0]} seed {j[1]}: {r[2]} evaluations, {r[1]} calls" for j, r in list(zip(jobs, results))[:8]]},
            "assumptions": ["holds on the executions observed; nothing is claimed about inputs or schedules that were not run"],
            "wall_s": round(time.time() - t0, 3), "violations": 1 if found else 0}, f, indent=1)
    return rc


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(args, extra=None, timeout=None):
    e = env()
    e.update(extra or {})
    try:
        r = subprocess.run([BIN] + args, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           preexec_fn=limits, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return None, (x.stdout or b"").decode(errors="replace") if isinstance(x.stdout, bytes) else (x.stdout or "")


def crashed(rc):
    return rc is not None and -rc in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE)


def known(prop):
    """Findings recorded (not repaired) for a property: `finding: property=C01 match=<text> what=<text>`."""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r"finding: property=(\S+) match=(.*?) what=(.*)", l.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    a = sys.argv[1:]
    if a == ["--build"]:
        build()
        build_tsan()
        return 0
    if a[:1] == ["--replay"]:
        kv = dict(l.split("=", 1) for l in open(a[1]).read().split("\n")[:8] if "=" in l)
        if "sanitizer" in kv:
            if kv["sanitizer"] == "tsan":
                build_tsan()
                _, counts, races = one_tsan(kv["seed"], kv["rounds"])
                print("\n".join(races.values()), counts)
                return 1 if races or counts.get("overlaps") else 0
            bad = one_miri(kv["seed"], kv["rounds"])[1]
            print("\n".join(bad.values()))
            return 1 if bad else 0
        build()
        if "silent" in kv:
            bad = one_silent(kv["silent"], int(kv["seed"]), kv["tier"], kv["brief"] == "1", True)[0]
            print("\n".join(f"{n}: {t!r}" for n, t in bad[:10]))
            return 1 if bad else 0
        rc, out = run(["-", "--replay", a[1]])
        print(out, end="")
        return 1 if crashed(rc) else rc
    prop, tier = a[0], a[1]
    seed = a[a.index("--seed") + 1] if "--seed" in a else os.environ.get("VERIF_SEED", "1")
    seed = str(int(seed)) if re.fullmatch(r"\d+", seed) else "1"
    t0 = time.time()
    build()
    ev = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev), exist_ok=True)
    if prop == "C38":
        rc = silent(prop, tier, seed, ev)
        for match, what in known(prop):
            print(f"KNOWN-FINDING: property={prop} {what}")
        return rc
    args = [prop, "--tier", tier, "--seed", seed]
    rc, out = run(args, {"VH_EVIDENCE": ev})
    print(out, end="")
    for match, what in known(prop):
        print(f"KNOWN-FINDING: property={prop} {what}")
    if crashed(rc):
        # the process died: find the case by running them one at a time, and believe only what repeats
        print(f"[{prop}] the monitored process died of signal {-rc}; looking for the case")
        j = os.path.join(VERIF, "target", f"journal-{prop}")
        left = 840 - (time.time() - t0) if tier == "quick" else 3000
        for t in ["quick"] if tier == "quick" else ["quick", "thorough"]:
            rc2, out2 = run([prop, "--tier", t, "--seed", seed, "--journal", j], timeout=max(60, left))
            if not crashed(rc2):
                continue
            kv = dict(l.split("=", 1) for l in open(j).read().split("\n") if "=" in l)
            path = os.path.join(VERIF, "replays", f"{prop}-crash-{kv['idx']}-s{seed}.txt")
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with open(path, "w") as f:
                f.write(f"property={prop}\ntier={t}\nseed={seed}\nkind={kv['kind']}\nidx={kv['idx']}\nmessage=signal {-rc2}\n")
            rc3, _ = run(["-", "--replay", path], timeout=300)
            if crashed(rc3):
                print(f"[{prop}] case {kv['kind']}#{kv['idx']}: the process dies of signal {-rc3} (stack overflow, memory or abort)")
                print(f"VIOLATION property={prop} replay={path}")
                return 1
        print("INCONCLUSIVE: the process died, but not again when run case by case")
        return 3
    if rc not in (0, 1):
        print(f"INCONCLUSIVE: exit status {rc}")
        return 3
    if prop == "C23":
        build_tsan()
        rc2, cov = sanitize(prop, tier, seed)
        if os.path.exists(ev):
            j = json.load(open(ev))
            j["coverage"].update(cov)
            j["wall_s"] = round(time.time() - t0, 3)
            with open(ev, "w") as f:
                json.dump(j, f, indent=1)
        rc = 1 if 1 in (rc, rc2) else rc2
    return rc


if __name__ == "__main__":
    sys.exit(main())
