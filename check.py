#!/usr/bin/env python3
"""Entry point of every check:  ./check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Rebuilds the monitors together with the code in /repo's working tree, runs them, writes
evidence/<PROPERTY>.json and exits 0 (quiet), 1 (VIOLATION line printed) or 2 (no answer).
"""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, V)
import rules  # noqa: E402

T0 = time.time()
PYPROPS = {"C22", "C23", "C24"}
STABLE = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"


def base_env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "PYTHONPATH", "RUSTC_WRAPPER", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "MIRIFLAGS",
              "RAYON_NUM_THREADS", "VH_GROUP", "VH_CAL"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin")
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e["PYTHONDONTWRITEBYTECODE"] = "1"
    e["PYO3_PYTHON"] = "/usr/bin/python3"
    e["RUSTUP_TOOLCHAIN"] = STABLE
    e.update(kw)
    return e


class Fail(Exception):
    pass


def limit_mem():
    resource.setrlimit(resource.RLIMIT_AS, (26 << 30, 26 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def no_core():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def run(cmd, timeout, env=None, cwd=None, mem=False):
    """Runs in its own process group; returns (rc, output). rc None = timed out."""
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, cwd=cwd,
                         start_new_session=True, preexec_fn=limit_mem if mem else no_core)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf-8", "replace")


# ------------------------------------------------------------------ constants of the code
def harvest():
    ints, floats, strs = set(), set(), set()
    for d, _, fs in os.walk(REPO):
        if "/target" in d or "/.git" in d or "/tests" in d or "/benches" in d:
            continue
        for f in fs:
            if not (f.endswith(".rs") or f.endswith(".py")):
                continue
            try:
                t = open(os.path.join(d, f), encoding="utf-8", errors="replace").read()
            except OSError:
                continue
            t = t.split("#[cfg(test)]\nmod ")[0]
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                s = m.group(1)
                try:
                    s = json.loads('"' + s.replace("\\0", "\\u0000").replace("\\'", "'") + '"')
                except ValueError:
                    pass
                if 0 < len(s) <= 40:
                    strs.add(s)
            for m in re.finditer(r"b?'((?:[^'\\\n]|\\.|\\u\{[0-9a-fA-F]+\}))'", t):
                s = m.group(1)
                u = re.match(r"\\u\{([0-9a-fA-F]+)\}$", s)
                if u:
                    s = chr(int(u.group(1), 16))
                s = {"\\n": "\n", "\\t": "\t", "\\r": "\r", "\\\\": "\\", "\\'": "'", "\\0": "\0"}.get(s, s)
                strs.add(s)
                ints.add(ord(s[0]))
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(\.\d+)?(?:e-?\d+)?(?:_?[iu](?:8|16|32|64|128|size)|f32|f64)?\b", t):
                a = m.group(1).replace("_", "")
                try:
                    if m.group(2):
                        floats.add(float(a + m.group(2)))
                    else:
                        v = int(a, 0) if a[:2] in ("0x", "0b") else int(a)
                        if v < 1 << 64:
                            ints.add(v)
                except ValueError:
                    pass
            for m in re.finditer(r"1\w* *<< *(\d+)", t):
                ints.add(1 << min(63, int(m.group(1))))
    return ints, floats, strs


def constants(path):
    ints, floats, strs = harvest()
    try:
        b = json.load(open(os.path.join(V, "constants.base.json")))
    except OSError:
        b = {"ints": [], "floats": [], "strs": []}
    out = {
        "ints": sorted(ints), "floats": sorted(floats), "strs": sorted(strs),
        "new_ints": sorted(ints - set(b["ints"])), "new_strs": sorted(strs - set(b["strs"])),
        "new_floats": sorted(floats - set(b["floats"])),
    }
    json.dump(out, open(path, "w"))
    return out


# ------------------------------------------------------------------ builds
class Lock:
    def __init__(self, name):
        os.makedirs(os.path.join(V, ".target"), exist_ok=True)
        self.f = open(os.path.join(V, ".target", name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def fresh(tgt):
    """Cargo decides by time stamps what to rebuild; a source tree put in place with older ones would
    pass unseen. Where the sources differ from those of the last build here, forget that build."""
    h = hashlib.sha256()
    for top in (REPO, os.path.join(V, "harness")):
        for d, ds, fs in os.walk(top):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", ".target"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml", ".lock")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read() + b"\0")
    stamp, now = os.path.join(tgt, "sources.sha256"), h.hexdigest()
    try:
        old = open(stamp).read()
    except OSError:
        old = None
    if old != now:
        for pat in ("gaoya-*", "pygaoya-*", "vh-*"):
            for x in glob.glob(os.path.join(tgt, "**", ".fingerprint", pat), recursive=True, include_hidden=True):
                shutil.rmtree(x, ignore_errors=True)
        os.makedirs(tgt, exist_ok=True)
        with open(stamp, "w") as f:
            f.write(now)


def build_harness(prop, rundir, kind="rel"):
    """The monitors, linked with /repo's gaoya, for one property: "rel" with debug assertions and
    overflow checks, "plain" without them, as a release build of the library has it."""
    tgt = os.path.join(V, ".target", kind)
    env = base_env(CARGO_TARGET_DIR=tgt)
    if kind == "plain":
        env.update(CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS="false", CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS="false")
    with Lock(kind):
        fresh(tgt)
        rc, out = run(["cargo", "build", "--release", "--offline", "--features", prop.lower()], 800, env, os.path.join(V, "harness"))
        if rc != 0:
            raise Fail("building the monitors failed:\n" + out[-3000:])
        dst = os.path.join(rundir, "vh")
        shutil.copy2(os.path.join(tgt, "release", "vh"), dst)
    return dst


def build_sanitized(kind, rundir):
    tgt = os.path.join(V, ".target", kind)
    env = base_env(CARGO_TARGET_DIR=tgt, RUSTFLAGS="-Zsanitizer=" + {"tsan": "thread", "asan": "address"}[kind], RUSTUP_TOOLCHAIN="nightly")
    cmd = ["cargo", "build", "--offline", "--features", "c21", "--target", TRIPLE]
    if kind == "tsan":
        cmd.append("-Zbuild-std")
    else:
        # as users run it: no debug assertion stands before an access out of bounds
        env.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false")
    with Lock(kind):
        fresh(tgt)
        rc, out = run(cmd, 800, env, os.path.join(V, "harness"))
        if rc != 0:
            raise Fail("building with " + kind + " failed:\n" + out[-3000:])
        dst = os.path.join(rundir, "vh-" + kind)
        shutil.copy2(os.path.join(tgt, TRIPLE, "debug", "vh"), dst)
    return dst


def build_python(rundir, kind="rel"):
    tgt = os.path.join(V, ".target", "py-" + kind)
    env = base_env(CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL="0", CARGO_PROFILE_DEV_OPT_LEVEL="1", CARGO_PROFILE_DEV_DEBUG="0")
    if kind == "plain":
        env.update(CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false")
    with Lock("py-" + kind):
        fresh(tgt)
        rc, out = run(["cargo", "build", "--offline", "-p", "pygaoya"], 800, env, REPO)
        if rc != 0:
            raise Fail("building the Python extension failed:\n" + out[-3000:])
        pk = os.path.join(rundir, "pkg", "gaoya")
        os.makedirs(pk)
        src = os.path.join(REPO, "py-gaoya", "gaoya")
        for f in os.listdir(src):
            if f.endswith(".py"):
                shutil.copy2(os.path.join(src, f), pk)
        shutil.copy2(os.path.join(tgt, "debug", "libgaoya.so"), os.path.join(pk, "gaoya.abi3.so"))
    return os.path.join(rundir, "pkg")


# ------------------------------------------------------------------ running
def load_result(rundir, prop):
    try:
        return json.load(open(os.path.join(rundir, "result-%s.json" % prop)))
    except (OSError, ValueError):
        return None


def crash_replay(prop, rundir, cmd, env, rc, out, seed, tier):
    """The process died: find the case that kills it from the journals and write a replay file."""
    cands = []
    sc = cmd[cmd.index("--scratch") + 1]
    for f in sorted(os.listdir(sc), key=lambda f: -os.path.getmtime(os.path.join(sc, f))):
        if f.startswith("journal-"):
            try:
                g, i = open(os.path.join(sc, f)).read().split()[:2]
                cands.append((g, int(i)))
            except (ValueError, OSError):
                pass
    found = None
    del cands[16:]
    end = time.time() + 90
    for _ in range(3):
        for g, i in cands:
            if time.time() > end:
                break
            r, o = run(cmd + ["--case", str(i), "--workers", "1"], 40, dict(env, VH_GROUP=g), mem=True)
            if r is not None and r < 0 and r != -9:
                found = (g, i, o)
                break
        if found:
            break
    path = os.path.join(rundir, "replay-%s-crash.json" % prop)
    json.dump({"property": prop, "seed": seed, "tier": tier, "group": found[0] if found else None, "case": found[1] if found else None,
               "running_when_it_died": cands, "message": "the process was killed by signal %d" % -rc, "output": out[-3000:]}, open(path, "w"), indent=1)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    print("  the code under test brought the process down with signal %d (cases running: %s)" % (-rc, cands[:8]))
    return path


def run_monitor(prop, rundir, cmd, env, seed, tier, timeout):
    rc, out = run(cmd, timeout, env, mem=True)
    sys.stdout.write(out[-6000:])
    sys.stdout.flush()
    res = load_result(rundir, prop)
    if rc is None:
        raise Fail("the monitors did not finish in %d s" % timeout)
    if rc < 0:
        if rc == -9:
            raise Fail("the monitors were killed (out of memory?)")
        crash_replay(prop, rundir, cmd, env, rc, out, seed, tier)
        return res or {"evaluations": 0, "distinct_nontrivial": 0, "stats": {}, "samples": []}, 1
    if res is None:
        raise Fail("no result file, exit code %s" % rc)
    if rc not in (0, 1):
        raise Fail("harness error: " + "; ".join(res.get("harness_errors", []))[:2000])
    return res, len(res["violations"])


SAN_PAT = re.compile(r"(WARNING: ThreadSanitizer|ERROR: AddressSanitizer|Undefined Behavior)")
W_SAN = 14       # workloads in harness/src/san.rs
FUN_PAT = re.compile(r"(SANVIOL|panicked at|fatal runtime error|memory allocation of)")


def run_sanitizers(prop, rundir, seed, thorough, native):
    """TSan, ASan and Miri executions of the concurrent workloads. Returns (stats, violations)."""
    sup = os.path.join(V, "harness", "tsan.supp")
    n_tsan, n_asan, n_miri = (60, 40, 3) if thorough else (8, 4, 1)
    miri_tgt = os.path.join(V, ".target", "miri")
    fresh(miri_tgt)

    def tsan():
        b = build_sanitized("tsan", rundir)
        r = []
        for k in range(n_tsan):
            env = base_env(TSAN_OPTIONS="halt_on_error=1 exitcode=66 suppressions=%s history_size=4" % sup, RAYON_NUM_THREADS="4")
            rounds, size = ((16, 60), (32, 24), (32, 24), (2, 400))[k % 4]
            r.append(("ThreadSanitizer", [b, "san", str(seed * 1000 + k), str(rounds), str(size), str((0, 5, 37)[k % 3])], env, 300 if thorough else 150))
        return r

    def asan():
        b = build_sanitized("asan", rundir)
        r = []
        for k in range(n_asan):
            env = base_env(ASAN_OPTIONS="detect_leaks=0:exitcode=67", RAYON_NUM_THREADS="4")
            r.append(("AddressSanitizer", [b, "san", str(seed * 1000 + 500 + k), *((("60", "24", "0"), ("40", "80", "7"), ("60", "24", "7"), ("3", "500", "0"))[k % 4])], env, 300 if thorough else 150))
        return r

    def miri(w):
        env = base_env(CARGO_TARGET_DIR=miri_tgt, RUSTUP_TOOLCHAIN="nightly", RAYON_NUM_THREADS="3",
                       CARGO_PROFILE_DEV_DEBUG_ASSERTIONS="false", CARGO_PROFILE_DEV_OVERFLOW_CHECKS="false",
                       MIRIFLAGS="-Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-ignore-leaks -Zmiri-disable-isolation -Zmiri-seed=%d" % (seed * 100 + w))
        cmd = ["cargo", "miri", "run", "--offline", "--features", "c21", "-q", "--", "san", str(seed * 1000 + w), "1", "6", "0", str(w % W_SAN)]
        return ("Miri", cmd, env, 600 if thorough else 300)

    stats, viols, errs = {}, [], []

    def go(job):
        name, cmd, env, to = job
        if not thorough:
            to = min(to, 840 - (time.time() - T0))
            if to < 10:
                return job, None, ""
        rc, out = run(cmd, to, env, os.path.join(V, "harness"))
        return job, rc, out

    def digest(job, rc, out):
        name, cmd, env, to = job
        stats[name + " executions"] = stats.get(name + " executions", 0) + 1
        ok = re.search(r"^SANOK (\{.*\})$", out, re.M)
        if rc == 0 and ok:
            for k, v in json.loads(ok.group(1)).items():
                kk = "%s: %s" % (name, k)
                stats[kk] = stats.get(kk, 0) + v
            return
        if rc is None:
            errs.append("%s run timed out: %s" % (name, " ".join(cmd[-6:])))
            return
        tail = cmd[cmd.index("san"):]
        bad = SAN_PAT.search(out) or (rc < 0 and rc != -9)
        if not bad and FUN_PAT.search(out):
            # A wrong answer or panic without a sanitizer report. The sanitized builds use the
            # nightly toolchain, where dependencies compile differently, so it counts only if
            # the stable build misbehaves on the same workload too.
            for _ in range(5):
                r2, o2 = run([native] + tail, 120, base_env(RAYON_NUM_THREADS="4"))
                if r2 != 0 and r2 is not None:
                    bad, out = True, o2
                    break
            else:
                stats["not reproduced on stable"] = stats.get("not reproduced on stable", 0) + 1
                return
        if bad:
            path = os.path.join(rundir, "replay-%s-%s-%d.json" % (prop, name, len(viols)))
            json.dump({"property": prop, "kind": "sanitizer", "tool": name, "args": tail, "env": {k: v for k, v in env.items() if k.endswith("_OPTIONS") or k in ("MIRIFLAGS", "RAYON_NUM_THREADS")},
                       "report": out[-12000:]}, open(path, "w"), indent=1)
            line = next((l for l in out.splitlines() if SAN_PAT.search(l)), None) or next((l for l in out.splitlines() if FUN_PAT.search(l)), "signal %s" % rc)
            viols.append((path, "%s: %s" % (name, line.strip()[:300])))
            if len(viols) <= 5:
                print("VIOLATION property=%s replay=%s" % (prop, path))
                print("  " + viols[-1][1])
                sys.stdout.flush()
        else:
            errs.append("%s exit %s: %s" % (name, rc, out[-1500:]))

    with cf.ThreadPoolExecutor(4) as ex:
        fm0 = ex.submit(go, miri(0))          # also builds the Miri target
        ft, fa = ex.submit(tsan), ex.submit(asan)
        digest(*fm0.result())
        more = [ex.submit(go, miri(w)) for w in range(1, W_SAN * n_miri)]
        for f in (fa, ft):
            more += [ex.submit(go, j) for j in f.result()]
        for f in more:
            digest(*f.result())
    if errs and not viols:
        raise Fail("; ".join(errs)[:3000])
    return stats, viols


# ------------------------------------------------------------------ main
def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    thorough = tier == "thorough"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    if replay:
        replay = json.load(open(replay))
        seed = replay.get("seed", seed)
        thorough = replay.get("tier", tier) == "thorough"
    if prop not in rules.RULES:
        print("unknown property", prop)
        return 2
    rundir = os.path.join(V, ".run", prop)
    shutil.rmtree(rundir, ignore_errors=True)
    scratch = os.path.join(rundir, "scratch")
    os.makedirs(scratch)
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    dpath = os.path.join(rundir, "constants.json")
    consts = constants(dpath)
    cap = rules.CAP_T if thorough else rules.CAP_Q
    scale = rules.SCALE.get(prop, 1.0) if not thorough else 1.0
    def command(kind, share):
        """Builds one variant; returns its monitor command, environment and directory."""
        d = rundir if kind == "rel" else os.path.join(rundir, kind)
        sc = os.path.join(scratch, kind)
        os.makedirs(d, exist_ok=True)
        os.makedirs(sc)
        env = base_env()
        if prop in PYPROPS:
            env["PYTHONPATH"] = build_python(d, kind)
            cmd = ["/usr/bin/python3", os.path.join(V, "pydrv.py"), prop]
        else:
            cmd = [build_harness(prop, d, kind), prop]
        # the second variant runs other cases than the first
        cmd += ["--seed", str(seed if kind == "rel" or replay else seed + 7919), "--tier", "thorough" if thorough else "quick", "--outdir", d, "--scratch", sc,
                "--dict", dpath, "--cap", str(cap), "--scale", str(scale * share)]
        if replay and replay.get("case") is not None:
            cmd += ["--case", str(replay["case"])]
            env["VH_GROUP"] = replay.get("group") or ""
        return cmd, env, d

    extra = {}
    nviol = 0
    if replay:
        jobs = [(replay.get("build", "rel"), 1.0)]
    elif prop == "C21":
        jobs = [("rel", 1.0)]  # its sanitized runs are without debug assertions
    else:
        jobs = [("rel", 0.75), ("plain", 0.35)]
    with cf.ThreadPoolExecutor(2) as ex:
        built = [f.result() for f in [ex.submit(command, *j) for j in jobs]]
    tb = time.time() - T0
    res = None
    for (kind, _), (cmd, env, d) in zip(jobs, built):
        r, n = run_monitor(prop, d, cmd, env, seed, tier, cap + 240)
        if kind != "rel":
            for f in glob.glob(os.path.join(d, "replay-*.json")):
                j = json.load(open(f))
                j["build"] = kind
                json.dump(j, open(f, "w"), indent=1)
        nviol += n
        if res is None:
            res = r
        else:
            for k in ("evaluations", "distinct_nontrivial"):
                res[k] += r[k]
            for k, v in r.get("stats", {}).items():
                if isinstance(v, (int, float)):
                    res["stats"][k] = res["stats"].get(k, 0) + v
            res["capped"] = res.get("capped") or r.get("capped")
        if nviol:
            break
        if not replay and not thorough and time.time() - T0 > 420:
            extra["without debug assertions"] = "left out for lack of time"
            break
    cmd = built[0][0]
    if prop == "C21" and not replay and not nviol:
        st, vi = run_sanitizers(prop, rundir, seed, thorough, cmd[0])
        extra.update(st)
        nviol += len(vi)
    wall = time.time() - T0
    stats = res.get("stats", {})
    ev = {
        "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": res["evaluations"], "distinct_nontrivial": res["distinct_nontrivial"],
            "rule": rules.RULES[prop],
            "samples": res.get("samples", [])[:6],
            "observed": {k: v for k, v in stats.items() if not k.endswith(":ms")},
            "constants_from_code": {"ints": len(consts["ints"]), "strings": len(consts["strs"]), "not_in_baseline": len(consts["new_ints"]) + len(consts["new_strs"])},
            "stopped_by_time": bool(res.get("capped")),
            "build_s": round(tb, 1),
        },
        "assumptions": rules.ASSUME.get(prop, []) + ["inputs, histories and schedules beyond those generated are not covered"],
        "wall_s": round(wall, 2), "violations": nviol,
    }
    if extra:
        ev["coverage"]["sanitizers"] = extra
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for line in rules.known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, line))
    for f in ("vh", "vh-tsan", "vh-asan", "plain/vh"):
        try:
            os.remove(os.path.join(rundir, f))
        except OSError:
            pass
    shutil.rmtree(scratch, ignore_errors=True)
    shutil.rmtree(os.path.join(rundir, "pkg"), ignore_errors=True)
    print("%s: %d evaluations, %d distinct non-trivial, %d violations, %.1f s (%.1f s building)" % (prop, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], nviol, wall, tb))
    return 1 if nviol else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Fail as e:
        print("NO ANSWER:", e)
        sys.exit(2)
