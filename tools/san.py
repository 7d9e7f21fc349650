"""Builds under AddressSanitizer, ThreadSanitizer and Miri, and what their reports mean."""
import json, os, re, subprocess, sys, time

NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
TARGET = "x86_64-unknown-linux-gnu"
FLAGS = {
    "asan": "-Zsanitizer=address --cfg vh_asan -Cforce-frame-pointers=yes",
    # (indexmap 1.x probes for std in a way that -Zbuild-std defeats)
    "tsan": "-Zsanitizer=thread --cfg has_std -Cforce-frame-pointers=yes",
}
MIRIFLAGS = "-Zmiri-disable-isolation -Zmiri-tree-borrows"
# Crates that synchronise with fences, which ThreadSanitizer does not see.
RUNTIME = {"tokio", "tokio_stream", "tokio_util", "mio", "hyper", "hyper_util", "h2", "tonic", "tower", "http", "http_body", "bytes", "slab",
           "futures_util", "futures_core", "futures_channel", "want", "socket2", "try_lock", "sharded_slab", "atomic_waker", "parking_lot", "parking_lot_core"}


def miri_env(run, extra=""):
    return run.env(RUSTUP_TOOLCHAIN=NIGHTLY, MIRIFLAGS=MIRIFLAGS + extra, XDG_CACHE_HOME=os.path.join(run.T, "cache"))


def miri_cmd(run, args):
    return ["cargo", "miri", "run", "--offline", "--quiet", "--no-default-features", "--target-dir", os.path.join(run.T, "miri"), "--"] + args


def build(kind, run):
    H = os.path.join(run.V, "harness")
    td = os.path.join(run.T, kind)
    if kind == "miri":
        run.drop_fingerprints(td)
        run.log("cargo miri")
        p = subprocess.run(miri_cmd(run, ["none"]), cwd=H, env=miri_env(run), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=1500)
        if "unknown check" not in p.stdout:
            print(p.stdout[-6000:], file=sys.stderr)
            raise run.HarnessError("miri build failed")
        return
    e = run.env(RUSTUP_TOOLCHAIN=NIGHTLY, RUSTFLAGS=FLAGS[kind])
    std = ["-Zbuild-std"] if kind == "tsan" else []
    run.cargo(["build"] + std + ["--offline", "--bins", "--target", TARGET], H, td, e)


def empty():
    return {"evaluations": 0, "distinct": [], "counters": {}, "samples": [], "extra": {}, "inconclusive": [], "violations": []}


def crate_of(frame):
    """The crate a stack frame belongs to; None for the standard library and the sanitizer's own."""
    m = re.search(r"/registry/src/[^/]+/([A-Za-z0-9_-]+?)-\d[^/]*/", frame)
    if m:
        return m.group(1).replace("-", "_")
    if "/rustlib/" in frame or "/rustc/" in frame or "compiler-rt" in frame or "_interceptors" in frame:
        return None
    if "/repo/" in frame:
        return "indradb"
    if "/verif/harness" in frame or "/harness/src/" in frame:
        return "vh"
    m = re.search(r"\s([a-z][a-z0-9_]*)\.[0-9a-f]{8,}-cgu", frame)
    if m and m.group(1) not in ("std", "core", "alloc"):
        return m.group(1)
    m = re.match(r"#\d+\s+(?:0x[0-9a-f]+ in )?<*&?(?:mut )?(?:dyn )?([a-z_][a-z0-9_]*)::", frame)
    if m:
        return None if m.group(1) in ("std", "core", "alloc", "__rustc") else m.group(1)
    return None


def stacks(report):
    """The stacks of a report, each a list of frames."""
    out, cur = [], []
    for l in report.splitlines():
        l = l.strip()
        if re.match(r"#\d+ ", l):
            cur.append(l)
        elif cur:
            out.append(cur)
            cur = []
    if cur:
        out.append(cur)
    return out


def first_crate(st):
    for f in st:
        c = crate_of(f)
        if c:
            return c
    return None


def judge_tsan(text, pid):
    vs, ignored = [], 0
    for rep in re.findall(r"WARNING: ThreadSanitizer: .*?(?:SUMMARY: [^\n]*)", text, re.S):
        kind = re.match(r"WARNING: ThreadSanitizer: ([^(\n]*)", rep).group(1).strip()
        ss = stacks(rep)[:2]
        cs = [first_crate(s) for s in ss]
        if kind.startswith("data race") and any(c in RUNTIME for c in cs):
            ignored += 1
            continue
        where = ",".join(str(c) for c in cs)
        vs.append({"sig": "%s:tsan:%s:%s" % (pid, kind.replace(" ", "-"), where), "what": "ThreadSanitizer: %s in %s" % (kind, where), "replay": rep[:20000]})
    return vs, ignored


def judge_asan(text, pid):
    vs = []
    m = re.search(r"ERROR: (AddressSanitizer|LeakSanitizer): ([^\n]*)", text)
    if m:
        k = m.group(2).split(" on ")[0].split(" (")[0][:60]
        vs.append({"sig": "%s:asan:%s" % (pid, k.replace(" ", "-")), "what": "%s: %s" % (m.group(1), m.group(2)[:300]), "replay": text[m.start():m.start() + 20000]})
    return vs


def judge_miri(text, pid):
    m = re.search(r"error: (Undefined Behavior: [^\n]*|memory leaked[^\n]*|deadlock[^\n]*|the evaluated program (?:aborted|leaked|deadlocked)[^\n]*)", text)
    if not m:
        return []
    k = re.sub(r"alloc\d+|0x[0-9a-f]+|\d+", "N", m.group(1))[:80]
    return [{"sig": "%s:miri:%s" % (pid, k.replace(" ", "-")), "what": "Miri: " + m.group(1)[:400], "replay": text[max(0, m.start() - 200):m.start() + 20000]}]


def merge(a, b):
    a["evaluations"] += b["evaluations"]
    a["distinct"] = sorted(set(a["distinct"]) | set(b["distinct"]))
    for k, v in b["counters"].items():
        a["counters"][k] = a["counters"].get(k, 0) + v
    a["samples"] += b["samples"]
    a["extra"].update(b["extra"])
    a["inconclusive"] += b["inconclusive"]
    a["violations"] += b["violations"]


def judge_memcheck(text, pid):
    """Errors in Valgrind's XML, other than what is still reachable at exit."""
    vs, n = [], 0
    for e in re.findall(r"<error>.*?</error>", text, re.S):
        kind = re.search(r"<kind>(.*?)</kind>", e).group(1)
        if kind.startswith("Leak_"):
            continue
        n += 1
        what = re.search(r"<(?:what|text)>(.*?)</(?:what|text)>", e, re.S).group(1)
        fns = re.findall(r"<fn>(.*?)</fn>", e)
        where = next((f for f in fns if f.startswith("indradb")), fns[0] if fns else "?")
        vs.append({"sig": "%s:memcheck:%s:%s" % (pid, kind, where[:80]), "what": "Valgrind: %s in %s" % (what, where), "replay": e[:20000]})
    return vs[:3], n


def run_memcheck(pid, part, tier, seed, budget, scratch, run):
    """Several processes at once (Valgrind runs one thread at a time), each with its own seed."""
    n = 6
    ps = []
    for k in range(n):
        out, xml, errf = (os.path.join(scratch, "%s-memcheck-%d" % (x, k)) for x in ("out", "xml", "err"))
        cmd = ["valgrind", "--error-limit=no", "--num-callers=30", "--xml=yes", "--xml-file=" + xml, "--child-silent-after-fork=yes", "--fair-sched=yes", "--leak-check=no",
               "--max-stackframe=8000000", "--main-stacksize=64000000",
               run.vh_path("release"), pid, "--seed", str(seed * 100 + k), "--tier", tier, "--build", "release", "--budget", str(budget), "--out", out, "--arg", "memcheck"]
        e = run.env(VH_SCRATCH=scratch, VH_SELF=run.vh_path("release"), VH_TARGET=run.T, VH_REPO_DIR=run.REPO, RUST_BACKTRACE="0")
        ps.append((subprocess.Popen(cmd, cwd=scratch, env=e, stdout=subprocess.DEVNULL, stderr=open(errf, "w"), start_new_session=True), out, xml, errf, cmd))
    run.log("%d processes under Valgrind for %d s" % (n, budget))
    r = empty()
    r["counters"]["memcheck_errors"] = 0
    deadline = time.time() + budget * 3 + 150
    failed = []
    for p, out, xml, errf, cmd in ps:
        late = False
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            late = True
            r["inconclusive"].append("a process under Valgrind did not finish in time")
        try:
            vs, k = judge_memcheck(open(xml, errors="replace").read(), pid)
        except OSError:
            vs, k = [], 0
        r["counters"]["memcheck_errors"] += k
        for v in vs:
            v["replay"] = " ".join(cmd) + "\n" + v["replay"]
            r["violations"].append(v)
        if late:
            continue
        if p.returncode != 0 and not vs:
            print(open(errf, errors="replace").read()[-3000:], file=sys.stderr)
            failed.append("exit %d under Valgrind" % p.returncode)
            continue
        try:
            merge(r, json.load(open(out)))
        except (OSError, ValueError):
            pass
    if len(r["inconclusive"]) == n:
        failed.append("no process under Valgrind finished")
    if failed and not r["violations"]:
        raise run.HarnessError("; ".join(failed))
    return r


def run(kind, pid, part, tier, seed, budget, scratch, run):
    if kind == "memcheck":
        return run_memcheck(pid, part, tier, seed, budget, scratch, run)
    if kind == "miri":
        return run_miri(pid, part, tier, seed, budget, scratch, run)
    out = os.path.join(scratch, "out-%s-%s.json" % (kind, part["arg"]))
    prog = os.path.join(scratch, "progress-" + part["arg"])
    errf = os.path.join(scratch, "err-%s-%s" % (kind, part["arg"]))
    cmd = [os.path.join(run.T, kind, TARGET, "debug", "vh"), part.get("check", pid), "--seed", str(seed), "--tier", tier, "--build", kind,
           "--budget", str(budget), "--out", out, "--arg", part["arg"]]
    leaks = 1 if part["arg"] == "lsan" else 0
    e = run.env(VH_SCRATCH=scratch, VH_PROGRESS=prog, VH_SELF=cmd[0], VH_TARGET=run.T, VH_REPO_DIR=run.REPO,
                ASAN_OPTIONS="detect_stack_use_after_return=1:detect_leaks=%d:exitcode=77:handle_segv=1:handle_abort=1:allocator_may_return_null=1" % leaks,
                LSAN_OPTIONS="report_objects=0", TSAN_OPTIONS="exitcode=66:halt_on_error=0:history_size=4:report_thread_leaks=0", RUST_BACKTRACE="0")
    with open(errf, "w") as f:
        rc = run.supervise(pid, part, cmd, e, scratch, prog, budget, stderr=f, san=True)
    text = open(errf, errors="replace").read()
    r = empty()
    try:
        r = json.load(open(out))
    except (OSError, ValueError):
        pass
    # (what the workload thinks of the answers is not the question; strings that are not text are)
    if kind == "asan":
        vs = judge_asan(text, pid)
        if leaks and "LeakSanitizer has encountered a fatal error" in text:
            raise run.HarnessError("the leak detector did not run")
        r["counters"]["asan_reports" if not leaks else "asan_lsan_reports"] = len(vs)
    else:
        vs, ignored = judge_tsan(text, pid)
        r["counters"]["tsan_reports"] = len(vs)
        r["counters"]["tsan_reports_inside_the_async_runtime_ignored"] = ignored
    if isinstance(rc, dict):
        # it died or hung; the report says why, if there is one
        r["violations"] += vs or rc["violations"]
        return r
    r["violations"] += vs
    if rc not in (0, 66, 77) or (rc == 77 and not vs):
        print(text[-3000:], file=sys.stderr)
        raise run.HarnessError("%s process exit %s" % (kind, rc))
    return r


def run_miri(pid, part, tier, seed, budget, scratch, run):
    """Several interpreters at once, each with its own seed."""
    n = 7
    ps = []
    for k in range(n):
        out = os.path.join(scratch, "out-miri-%d.json" % k)
        errf = open(os.path.join(scratch, "err-miri-%d" % k), "w+")
        e = miri_env(run, " -Zmiri-seed=%d" % (seed * 1000 + k))
        e.update(VH_SCRATCH=scratch, RUST_BACKTRACE="0")
        cmd = miri_cmd(run, [part.get("check", pid), "--seed", str(seed * 100 + k), "--tier", tier, "--build", "miri", "--budget", str(budget), "--out", out])
        ps.append((subprocess.Popen(cmd, cwd=os.path.join(run.V, "harness"), env=e, stdout=subprocess.DEVNULL, stderr=errf, start_new_session=True), out, errf, cmd, k))
    run.log("%d interpreters for %d s" % (n, budget))
    r = empty()
    deadline = time.time() + budget * 3 + 240
    failed = []
    for p, out, errf, cmd, k in ps:
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            import signal
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            r["inconclusive"].append("interpreter %d did not finish in time" % k)
            continue
        errf.seek(0)
        text = errf.read()
        vs = judge_miri(text, pid)
        if p.returncode != 0 and not vs:
            print(text[-3000:], file=sys.stderr)
            failed.append("interpreter %d: exit %d" % (k, p.returncode))
            continue
        try:
            merge(r, json.load(open(out)))
        except (OSError, ValueError):
            pass
        for v in vs:
            v["replay"] = "MIRIFLAGS=%s -Zmiri-seed=%d %s\n%s" % (MIRIFLAGS, seed * 1000 + k, " ".join(cmd), v["replay"])
            r["violations"].append(v)
    r["counters"]["miri_processes"] = n
    if failed and not r["violations"]:
        raise run.HarnessError("; ".join(failed))
    return r
