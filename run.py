#!/usr/bin/env python3
"""Runs the check of one property: run.py <ID> [quick|thorough]

Builds the harness (and what else the check needs) from /repo's working tree, runs its parts, merges what they
observed into evidence/<ID>.json and decides: exit 0 held, exit 1 + VIOLATION line, 3 error of the check itself.
"""
import glob, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = os.path.join(V, "target")
REPO = os.environ.get("VH_REPO", "/repo")
sys.path.insert(0, os.path.join(V, "tools"))
from plan import PLAN, RULES, ASSUME  # noqa: E402

T0 = time.time()


def log(*a):
    print("[%6.1fs]" % (time.time() - T0), *a, file=sys.stderr, flush=True)


def env(**kw):
    e = dict(os.environ)
    home = e.get("HOME") or "/root"
    e["HOME"] = home
    e["PATH"] = home + "/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUST_BACKTRACE="1")
    e.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    for k in ("CARGO_TARGET_DIR", "RUSTFLAGS", "RUSTC_WRAPPER", "CARGO_BUILD_TARGET"):
        e.pop(k, None)
    e["ROCKSDB_LIB_DIR"] = os.path.join(T, "rockslib")
    e["ROCKSDB_STATIC"] = "1"
    e.update(kw)
    return e


class HarnessError(Exception):
    pass


def drop_fingerprints(tdir):
    """Cargo judges freshness by mtimes; a restored working tree may have any. Rebuild our and /repo's crates always."""
    for pat in ("indradb*", "vh-*", "vhsan-*", "vhplug*"):
        for d in glob.glob(os.path.join(tdir, "**", ".fingerprint", pat), recursive=True):
            shutil.rmtree(d, ignore_errors=True)


def cargo(args, cwd, tdir, e=None, what="build", timeout=1500):
    drop_fingerprints(tdir)
    log("cargo", " ".join(args))
    p = subprocess.run(["cargo"] + args + ["--target-dir", tdir], cwd=cwd, env=e or env(), stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, timeout=timeout, errors="replace")
    if p.returncode != 0:
        print(p.stdout[-6000:], file=sys.stderr)
        raise HarnessError("%s failed" % what)


def build_rocks():
    lib = os.path.join(T, "rockslib", "librocksdb.a")
    if os.path.exists(lib):
        return
    log("building librocksdb (once)")
    td = os.path.join(T, "rocks")
    e = env()
    e.pop("ROCKSDB_LIB_DIR"), e.pop("ROCKSDB_STATIC")
    subprocess.run(["cargo", "build", "--release", "--offline", "-p", "librocksdb-sys", "--target-dir", td],
                   cwd=os.path.join(V, "harness"), env=e, check=True)
    src = glob.glob(os.path.join(td, "release/build/librocksdb-sys-*/out/librocksdb.a"))[0]
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    shutil.copy(src, lib + ".tmp")
    subprocess.run(["strip", "-g", lib + ".tmp"], check=False)
    os.rename(lib + ".tmp", lib)
    shutil.rmtree(td, ignore_errors=True)


def build(kind):
    build_rocks()
    H = os.path.join(V, "harness")
    if kind == "checked":
        cargo(["build", "--offline", "--bins"], H, os.path.join(T, "h"))
    elif kind in ("release", "memcheck"):
        cargo(["build", "--offline", "--release", "--bins"], H, os.path.join(T, "h"))
    elif kind == "server":
        # the workspace's own binaries and plugins
        cargo(["build", "--offline", "--locked", "--workspace", "--features", "indradb-lib/rocksdb-datastore"], REPO,
              os.path.join(T, "srv"), env(CARGO_PROFILE_DEV_DEBUG="line-tables-only"))
    elif kind == "plug":
        cargo(["build", "--offline", "--lib", "--examples"], os.path.join(V, "harness/plug"), os.path.join(T, "plug"))
    elif kind == "shim":
        out = os.path.join(T, "shim.so")
        os.makedirs(T, exist_ok=True)
        subprocess.run(["gcc", "-O2", "-g", "-shared", "-fPIC", "-o", out, os.path.join(V, "harness/shim.c"), "-ldl", "-lpthread"], check=True)
    elif kind in ("asan", "tsan", "miri"):
        import san
        san.build(kind, sys.modules[__name__])
    else:
        raise HarnessError("unknown build " + kind)


def vh_path(kind):
    return os.path.join(T, "h", "debug" if kind == "checked" else "release", "vh")


def run_part(pid, part, tier, seed, scratch):
    """Runs one harness process; returns its merged JSON."""
    kind = part["build"]
    out = os.path.join(scratch, "out-%s-%s.json" % (kind, part.get("name", "")))
    budget = part["thorough" if tier == "thorough" else "quick"]
    if kind in ("asan", "tsan", "miri", "memcheck"):
        import san
        return san.run(kind, pid, part, tier, seed, budget, scratch, sys.modules[__name__])
    prog = os.path.join(scratch, "progress")
    cmd = [vh_path(kind), part.get("check", pid), "--seed", str(seed), "--tier", tier, "--build", kind, "--budget", str(budget), "--out", out]
    if part.get("arg"):
        cmd += ["--arg", part["arg"]]
    e = env(VH_SCRATCH=scratch, VH_PROGRESS=prog, VH_SELF=vh_path(kind), VH_TARGET=T, VH_KNOWN=",".join(k["sig"] for k in known()), VH_REPO_DIR=REPO)
    if part.get("env"):
        e.update(part["env"])
    r = supervise(pid, part, cmd, e, scratch, prog, budget)
    if r is not None:
        return r
    return json.load(open(out))


def supervise(pid, part, cmd, e, scratch, prog, budget, stderr=None, san=False):
    """Runs one process to its end, watching its progress. Returns a result if its death decides, else None
    (with `san`: its exit code)."""
    log("run", " ".join(cmd[1:]))
    p = subprocess.Popen(cmd, cwd=scratch, env=e, stdout=sys.stderr, stderr=stderr, start_new_session=True)
    # Watchdog on logical progress: the harness bumps a counter in a shared file with every completed step.
    last, last_t = None, time.time()
    stall = part.get("stall", 120)
    deadline = time.time() + budget * 4 + 400
    verdict = None
    while True:
        try:
            p.wait(timeout=1)
            break
        except subprocess.TimeoutExpired:
            pass
        try:
            cur = open(prog, "rb").read(8)
        except OSError:
            cur = b""
        if cur != last:
            last, last_t = cur, time.time()
        if time.time() - last_t > stall:
            verdict = "stall"
        elif time.time() > deadline:
            verdict = "deadline"
        if verdict:
            try:
                what = open(prog, "rb").read()[8:2048].split(b"\0")[0].decode(errors="replace")
            except OSError:
                what = ""
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    if verdict == "stall":
        # nothing completed although all cores were available: an operation blocks forever
        if part.get("stall_violation", True):
            return {"evaluations": 0, "distinct": [], "counters": {}, "samples": [], "extra": {}, "inconclusive": [],
                    "violations": [{"sig": "%s:stall" % pid, "what": "no operation completed for %d s (blocked): %s" % (stall, what),
                                    "replay": "command: %s\nlast activity: %s" % (" ".join(cmd), what)}]}
        raise HarnessError("harness stalled: " + what)
    if verdict == "deadline":
        raise HarnessError("harness exceeded its deadline")
    if p.returncode < 0:
        sig = -p.returncode
        name = signal.Signals(sig).name
        if sig in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGILL, signal.SIGFPE, signal.SIGTRAP):
            try:
                what = open(prog, "rb").read()[8:2048].split(b"\0")[0].decode(errors="replace")
            except OSError:
                what = ""
            return {"evaluations": 0, "distinct": [], "counters": {}, "samples": [], "extra": {}, "inconclusive": [],
                    "violations": [{"sig": "%s:crash:%s" % (pid, name), "what": "the process died of %s: %s" % (name, what),
                                    "replay": "command: %s\nlast activity: %s" % (" ".join(cmd), what)}]}
        raise HarnessError("harness killed by " + name)
    if san:
        return p.returncode
    if p.returncode != 0:
        raise HarnessError("harness exit %d" % p.returncode)
    return None


def known():
    f = os.path.join(V, "known_findings.json")
    return json.load(open(f))["known"] if os.path.exists(f) else []


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if pid == "setup":
        build_rocks()
        kinds = []
        for c in PLAN.values():
            for b in c.get("builds", []) + [p["build"] for p in c["parts"]]:
                if b not in kinds:
                    kinds.append(b)
        for b in kinds:
            build(b)
        return 0
    plan = PLAN[pid]
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    import tempfile
    scratch = tempfile.mkdtemp(prefix="vh-%s-" % pid, dir=base)
    try:
        built = []
        for b in plan.get("builds", []) + [p["build"] for p in plan["parts"]]:
            if b not in built:
                build(b)
                built.append(b)
        tot = {"evaluations": 0, "distinct": set(), "counters": {}, "samples": [], "extra": {}, "inconclusive": [], "violations": []}
        extra_distinct = 0
        errors = []
        parts = []
        for part in plan["parts"]:
            if tier == "quick" and part["quick"] == 0:
                continue
            t1 = time.time()
            try:
                r = run_part(pid, part, tier, seed, scratch)
            except HarnessError as ex:
                # what other parts saw still counts
                errors.append("%s: %s" % (part["build"], ex))
                log("part failed:", ex)
                continue
            label = part["build"] + (":" + part["name"] if part.get("name") else "")
            parts.append({"part": label, "evaluations": r["evaluations"], "distinct": r.get("distinct_n", len(r["distinct"])), "wall_s": round(time.time() - t1, 1)})
            tot["evaluations"] += r["evaluations"]
            tot["distinct"].update(r["distinct"])
            extra_distinct += max(0, r.get("distinct_n", 0) - len(r["distinct"]))
            for k, v in r["counters"].items():
                tot["counters"][k] = tot["counters"].get(k, 0) + v
            tot["samples"] += r["samples"][:4]
            for k, v in r["extra"].items():
                tot["extra"][k + ("@" + label if k in tot["extra"] else "")] = v
            tot["inconclusive"] += r["inconclusive"]
            for v in r["violations"]:
                v["part"] = label
                tot["violations"].append(v)
        ks = {k["sig"]: k for k in known() if k["property"] == pid}
        new, seen_known = [], []
        for v in tot["violations"]:
            if v["sig"] in ks:
                if v["sig"] not in seen_known:
                    seen_known.append(v["sig"])
            else:
                new.append(v)
        for s in seen_known:
            print("KNOWN-FINDING: property=%s %s" % (pid, ks[s]["what"]))
        rdir = os.path.join(V, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, v in enumerate(new[:10]):
            path = os.path.join(rdir, "%s-%d-%d.txt" % (pid, os.getpid(), i))
            with open(path, "w") as f:
                f.write("property %s, tier %s, VERIF_SEED=%d, part %s\nsignature %s\n%s\n\n%s\n" % (pid, tier, seed, v["part"], v["sig"], v["what"], v["replay"]))
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("  " + v["what"][:600].replace("\n", "\n  "))
        nd = len(tot["distinct"]) + extra_distinct
        cov = {
            "evaluations": tot["evaluations"],
            "distinct_nontrivial": min(nd, tot["evaluations"]),
            "rule": RULES[pid],
            "samples": tot["samples"][:8],
            "observed": tot["counters"],
            "parts": parts,
            "known_findings_reproduced": seen_known,
        }
        cov.update(tot["extra"])
        if tot["inconclusive"]:
            cov["inconclusive"] = {"n": len(tot["inconclusive"]), "first": tot["inconclusive"][:5]}
        ev = {"property": pid, "tier": tier, "seed": seed, "level": plan["level"], "coverage": cov,
              "assumptions": ASSUME["*"] + ASSUME.get(pid, []), "wall_s": round(time.time() - T0, 2), "violations": len(new)}
        s = json.dumps(ev, indent=1, ensure_ascii=True)
        while len(s) > 60000 and cov["samples"]:
            cov["samples"].pop()
            s = json.dumps(ev, indent=1, ensure_ascii=True)
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", pid + ".json"), "w") as f:
            f.write(s + "\n")
        log("%s: %d evaluations, %d distinct, %d new violations, %d known, %d inconclusive" % (pid, tot["evaluations"], nd, len(new), len(seen_known), len(tot["inconclusive"])))
        if new:
            return 1
        if errors:
            raise HarnessError("; ".join(errors))
        minimum = plan.get("min", 1)
        if tot["evaluations"] < minimum:
            raise HarnessError("observed only %d evaluations (< %d): inconclusive" % (tot["evaluations"], minimum))
        return 0
    finally:
        subprocess.run(["chmod", "-R", "u+rwX", scratch], stderr=subprocess.DEVNULL)
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except HarnessError as ex:
        print("CHECK-ERROR: %s" % ex, file=sys.stderr)
        sys.exit(3)
    except subprocess.TimeoutExpired as ex:
        print("CHECK-ERROR: %s" % ex, file=sys.stderr)
        sys.exit(3)
