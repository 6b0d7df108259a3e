#!/usr/bin/env python3
"""Driver of the solver-based checks.

  check.py PROP [--tier quick|thorough]      decide one property on /repo's current tree
  check.py --setup                           build engine, replayer and harness library once
  check.py --replay FILE                     run a recorded counterexample natively
  check.py --run h_name...  [opts]           development: run single harnesses

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: a counterexample found by the
solver and reproduced on the compiled code.  Exit 2: the check itself failed.
"""
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
TOOLCHAIN = "stable-x86_64-unknown-linux-gnu"
TD = {"harness": os.path.join(V, "target"), "codecs": os.path.join(V, "target2"), "http": os.path.join(V, "target3")}
ENGINE = os.path.join(V, "engine/target/release/vengine")
REPLAY = os.path.join(V, "engine/target/release/vreplay")
Z3_ALT = "/usr/lib/x86_64-linux-gnu/libz3.so"
sys.path.insert(0, V)
from props import PROPS  # noqa: E402


def die(msg):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(2)


def env():
    e = dict(os.environ)
    e.update(HOME=e.get("HOME", "/root"), RUSTUP_TOOLCHAIN=TOOLCHAIN, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0",
             RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", CARGO_ENCODED_RUSTFLAGS="")
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_TARGET_DIR", None)
    return e


def sh(cmd, cwd, timeout=900, extra=None):
    e = env()
    if extra:
        e.update(extra)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout


def build_engine():
    rc, out = sh(["cargo", "build", "--release", "--offline", "--locked"], os.path.join(V, "engine"))
    if rc:
        die("engine build failed:\n" + out[-3000:])


def build_harness(crate="harness"):
    """compile /repo's current tree together with the harness crate to one LLVM module"""
    d = os.path.join(V, crate)
    td = TD[crate]
    x = {"CARGO_TARGET_DIR": td}
    # file times of /repo say nothing here: always recompile the crate under test
    sh(["cargo", "clean", "--release", "--offline", "-p", "async-tiff", "-p", "vharness"], d, extra=x)
    for f in glob.glob(td + "/release/deps/*vharness*"):
        os.unlink(f)
    rc, out = sh(["cargo", "rustc", "--release", "--offline", "--locked", "--", "--emit=llvm-ir,link", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"], d, extra=x)
    if rc:
        die("harness build failed (does /repo compile?):\n" + out[-4000:])
    ll = glob.glob(td + "/release/deps/vharness*.ll")
    if len(ll) != 1:
        die(f"expected one LLVM module, got {ll}")
    so = os.path.join(td, "release", "libvharness.so")
    if not os.path.exists(so):
        die("no shared library was linked")
    return ll[0], so


def build(crate="harness"):
    os.makedirs(TD[crate], exist_ok=True)
    lock = open(os.path.join(V, "out.lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t = time.time()
    build_engine()
    ll, so = build_harness(crate)
    # keep a private copy so that a concurrent check cannot replace it under us
    d = os.path.join(V, "out", f"run-{os.getpid()}")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.move(ll, d + "/m.ll")
    shutil.copy(so, d + "/lib.so")
    lock.close()
    return d, time.time() - t


def run_engine(d, harnesses, tier, secs, steps, alloc, jobs, z3=None, tag="r", verbose=False, maxv=6, prof=False, enough=None):
    out = f"{d}/{tag}"
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [ENGINE, "--ll", d + "/m.ll", "--out", out, "--jobs", str(jobs), "--secs", str(secs), "--tier", str(tier),
           "--steps", str(steps), "--alloc", str(alloc), "--max-viol", str(maxv)]
    if z3:
        cmd += ["--z3", z3]
    if verbose:
        cmd += ["-v"]
    if prof:
        cmd += ["--prof"]
    cmd += harnesses
    t = time.time()
    p = subprocess.Popen(cmd, start_new_session=True, stdout=None if verbose else subprocess.DEVNULL, stderr=None if verbose else subprocess.PIPE)
    err = b""
    killed = False
    stop, tried = None, set()
    while True:
        try:
            _, err = p.communicate(timeout=2)
            break
        except subprocess.TimeoutExpired:
            pass
        if time.time() - t > secs + 60 or stop and time.time() > stop + 60:
            killed = True
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            break
        if enough and not stop:
            # a counterexample that was reproduced settles the question: a little longer for others, then stop
            for f in sorted(set(glob.glob(out + "/viol-*.json")) - tried)[:4]:
                tried.add(f)
                if enough(json.load(open(f))):
                    stop = time.time() + 15
                    break
        if stop and time.time() > stop:
            open(out + "/stop", "w").close()
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    R = dict(paths=0, killed=0, steps=0, queries=0, sat=0, unsat=0, cache=0, fastmodel=0, solver_s=0.0, forks=0, asserts=0, sym_asserts=0, cert=0, cert_q=0, cert_fp=0, cert_left=0, cert_s=0.0)
    maxq, funcs, covers, hp, samples, inc, z = 0.0, set(), {}, {}, [], set(), ""
    hstat, profs = {}, {}
    for f in glob.glob(out + "/part-*.json"):
        q = json.load(open(f))
        for k in R:
            R[k] += q[k]
        maxq = max(maxq, q["maxq_s"])
        funcs.update(q["functions"])
        for h, c, n in q["covers"]:
            covers[(h, c)] = covers.get((h, c), 0) + n
        for h, n in q["hpaths"].items():
            hp[h] = hp.get(h, 0) + n
        for h, (a, b, c) in q["hstat"].items():
            o = hstat.get(h, [0, 0, 0])
            hstat[h] = [o[0] + a, max(o[1], b), max(o[2], c)]
        samples += q["samples"]
        if q["incomplete"]:
            inc.add(q["incomplete"])
        z = q["z3"]
        if prof:
            for n, c, k in q.get("prof", []):
                o = profs.setdefault(n, [0, 0])
                o[0] += c
                o[1] += k
    for n, (c, k) in sorted(profs.items(), key=lambda x: -x[1][1])[:12]:
        print("   PROF forks", k, "calls", c, n[:160])
    errors = [open(f).read() for f in glob.glob(out + "/error-*")]
    if killed:
        inc.add("engine killed at the time limit")
    viols = [json.load(open(f)) for f in sorted(glob.glob(out + "/viol-*.json"))]
    for x in samples + viols:
        x["tier"] = tier
    R["solver_s"], R["cert_s"] = round(R["solver_s"], 3), round(R["cert_s"], 3)
    return dict(stats=R, maxq_s=maxq, funcs=sorted(funcs), covers=covers, hpaths=hp, hstat=hstat, samples=samples, incomplete=sorted(inc), z3=z,
                errors=errors, viols=viols, wall=time.time() - t, rc=p.returncode, stderr=(err or b"").decode(errors="replace")[-2000:])


def replay(so, rec, work, timeout=25):
    """run the recorded inputs on the compiled library; returns (outcome, detail, lines)"""
    f = f"{work}/in-{os.getpid()}.txt"
    with open(f, "w") as o:
        for n, x in rec["inputs"]:
            o.write(f"{n} {x}\n")
    try:
        p = subprocess.run([REPLAY, so, rec["harness"], f, str(rec.get("tier", 0))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(env(), RUST_BACKTRACE="0"))
    except subprocess.TimeoutExpired:
        return "hang", f"no answer within {timeout} s", []
    lines = p.stdout.decode(errors="replace").splitlines()
    err = p.stderr.decode(errors="replace").strip()
    if p.returncode == 0 and lines and lines[-1] == "DONE":
        return "ok", "", lines
    if p.returncode == 3:
        return "assert", "; ".join(l[7:] for l in lines if l.startswith("ASSERT ")), lines
    if p.returncode == 4:
        return "assume", "", lines
    if p.returncode in (-6, -4, -11, -7):
        return "panic", err[-600:] or f"signal {-p.returncode}", lines
    return "error", f"exit {p.returncode} {err[-400:]}", lines


def confirms(kind, outcome):
    if kind == "assert":
        return outcome == "assert"
    if kind in ("panic", "alloc", "memory", "ub"):
        return outcome in ("panic",)
    if kind == "steps":
        return outcome in ("hang", "panic")
    return False


def known():
    p = os.path.join(V, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"findings": [], "fixed": []}


def validate_samples(so, samples, work, limit):
    """the engine's predictions (observed bytes, covers) against the compiled code"""
    ok, bad = 0, []
    step = max(1, len(samples) // limit)
    picked = samples[::step][:limit]
    for s in picked:
        oc, detail, lines = replay(so, s, work)
        obs = [[l.split(" ")[1], (l.split(" ") + [""])[2]] for l in lines if l.startswith("OBS ")]
        cov = [l[6:] for l in lines if l.startswith("COVER ")]
        if oc == "ok" and obs == s["obs"] and cov == s["covers"]:
            ok += 1
        else:
            bad.append(dict(sample=s, outcome=oc, detail=detail, native_obs=obs, native_covers=cov))
    return ok, bad, picked


def check(pid, tier):
    t0 = time.time()
    P = PROPS[pid]
    ti = 1 if tier == "thorough" else 0
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    d, tb = build(P.get("crate", "harness"))
    code = 2
    try:
        code = decide(pid, P, tier, ti, seed, d, tb, t0)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(code)


def decide(pid, P, tier, ti, seed, d, tb, t0):
    hs = P["harnesses"]
    if ti:
        hs = hs + P.get("thorough_harnesses", [])
    secs = P.get("secs", (420, 2400))[ti]
    steps = P.get("steps", (60_000_000, 200_000_000))[ti]
    alloc = P.get("alloc", 1 << 31)
    jobs = min(8, os.cpu_count() or 8)
    K = known()
    r = run_engine(d, hs, ti, secs, steps, alloc, jobs,
                   enough=lambda v: v["kind"] != "unsupported" and confirms(v["kind"], replay(d + "/lib.so", dict(v, tier=ti), d)[0]) and not K["findings"])
    if r["errors"] or r["rc"] not in (0, -9):
        die(f"engine failed: {r['errors'][:3]} rc={r['rc']} {r['stderr'][-800:]}")
    work = d
    # ---- counterexamples
    reported, knownhits, unconfirmed, cut = [], [], [], []
    rdir = os.path.join(V, "out", "replay")
    os.makedirs(rdir, exist_ok=True)
    for v in r["viols"]:
        if v["kind"] == "unsupported":
            cut.append((v["harness"], f"code the engine does not know: {v['msg']}"))
            continue
        oc, detail, _ = replay(d + "/lib.so", v, work)
        if v["kind"] == "steps" and oc == "ok":
            # it ends, only later than the engine follows it
            cut.append((v["harness"], v["msg"]))
            continue
        if not confirms(v["kind"], oc):
            unconfirmed.append(f"{v['harness']}: {v['kind']} {v['msg']} -> native {oc} {detail}")
            continue
        k = next((f for f in K["findings"] if f["property"] == pid and f["harness"] == v["harness"] and re.search(f["match"], v["kind"] + " " + v["msg"] + " " + detail)), None)
        if k:
            knownhits.append(k["what"])
            continue
        v["property"], v["native"], v["native_detail"] = pid, oc, detail
        f = os.path.join(rdir, f"{pid}-{len(reported)}.json")
        v["replay_cmd"] = f"python3 {V}/check.py --replay {f}"
        json.dump(v, open(f, "w"), indent=1)
        reported.append((v, f))
    ok, bad, picked = validate_samples(d + "/lib.so", r["samples"], work, 150 if ti else 40)
    # paths the engine could not follow to their end: not decided, and said so; a harness that loses all its paths decides nothing
    r["incomplete"] += sorted({f"{h}: path left, {m}" for h, m in cut})
    # ---- vacuity
    missing = []
    empty = [f"{h}: {m}" for h, m in cut if not any(hh == h for (hh, c), n in r["covers"].items() if n)]
    for h in hs:
        if not r["hpaths"].get(h):
            missing.append(f"{h}: no completed path")
    cf = os.path.join(V, "covers.json")
    want = json.load(open(cf)) if os.path.exists(cf) else {}
    for h in hs:
        for c in want.get(h, {}).get(str(ti), []):
            if not r["covers"].get((h, c)):
                missing.append(f"{h}: '{c}' never reached")
    cross = None
    if ti and not reported and os.path.exists(Z3_ALT) and P.get("cross", True):
        # the same queries with another solver build: the path tree has to come out the same
        r2 = run_engine(d, P["harnesses"], 0, 900, steps, alloc, jobs, z3=Z3_ALT, tag="x")
        r1 = run_engine(d, P["harnesses"], 0, 900, steps, alloc, jobs, tag="y")
        cross = dict(solver=r2["z3"], paths=r2["stats"]["paths"], reference_paths=r1["stats"]["paths"], queries=r2["stats"]["queries"],
                     violations=len(r2["viols"]), incomplete=r2["incomplete"] + r1["incomplete"])
        if not cross["incomplete"] and cross["paths"] != cross["reference_paths"]:
            die(f"solver disagreement: {cross}")
    arts = [f for f in r["funcs"] if "async_tiff" in f]
    st = r["stats"]
    cov = dict(states=st["paths"], transitions=st["forks"], traces_validated_against_impl=ok,
               samples=[dict(harness=s["harness"], inputs=s["inputs"][:12], observed=s["obs"][:6], covers=s["covers"][:8]) for s in picked[:6]],
               exhaustive=not r["incomplete"] and not r["viols"],
               explanation="states = completed symbolic paths (each stands for every input satisfying its path condition); transitions = solver-decided forks; traces = paths whose model was replayed on the compiled library with identical observations",
               harnesses={h: dict(paths=r["hpaths"].get(h, 0), max_instructions=r["hstat"].get(h, [0, 0, 0])[1], covers={c: n for (hh, c), n in sorted(r["covers"].items()) if hh == h}) for h in hs},
               bounds=P["bounds"][ti] if isinstance(P["bounds"], (list, tuple)) else P["bounds"],
               instructions=st["steps"], queries=st["queries"], sat=st["sat"], unsat=st["unsat"], cached=st["cache"], decided_by_model_reuse=st["fastmodel"],
               term_rewrites=dict(proved_by_solver=st["cert"], queries=st["cert_q"], solver_s=st["cert_s"], floating_point_not_put_to_solver=st["cert_fp"], not_decided=st["cert_left"],
                                  explanation="every simplification of a term made while executing (which is what decides an assertion without a path query) is an equality for all values; each distinct one is put to the solver, in batches, after the run"),
               assertions_checked=st["asserts"], assertions_with_symbolic_condition=st["sym_asserts"], solver_s=st["solver_s"], slowest_query_s=r["maxq_s"],
               solver=r["z3"], functions_encoded=len(r["funcs"]), async_tiff_functions=arts, incomplete=r["incomplete"],
               paths_cut_by_assumption=st["killed"], build_s=round(tb, 1), engine_s=round(r["wall"], 1))
    if cross:
        cov["cross_check"] = cross
    ev = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov, wall_s=round(time.time() - t0, 1),
              assumptions=COMMON_ASSUMPTIONS + P.get("assumptions", []), violations=len(reported))
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(V, "evidence", pid + ".json"), "w"), indent=1)
    print(f"{pid} {tier}: {st['paths']} paths, {st['queries']} path queries ({st['unsat']} unsat) in {st['solver_s']} s, {st['cert']} term rewrites proved in {st['cert_q']} queries and {st['cert_s']} s, {len(r['funcs'])} functions ({len(arts)} of async-tiff), "
          f"{ok} paths replayed natively, build {tb:.0f} s, engine {r['wall']:.0f} s" + (f", INCOMPLETE: {r['incomplete']}" if r["incomplete"] else ", complete within bounds"))
    for k in sorted(set(knownhits)):
        print(f"KNOWN-FINDING: property={pid} {k}")
    if reported:
        for v, f in reported:
            print(f"  {v['harness']}: {v['kind']}: {v['msg']} | native: {v['native']} {v['native_detail'][:300]}")
            print(f"VIOLATION property={pid} replay={f}", flush=True)
        return 1
    if bad:
        die(f"engine prediction and native run differ: {json.dumps(bad[0])[:1500]}")
    if unconfirmed:
        die("counterexample not reproduced natively: " + " || ".join(unconfirmed[:4]))
    if empty:
        die("no path could be followed to its end: " + " || ".join(empty[:4]))
    if missing and not r["incomplete"]:
        die("vacuity: " + "; ".join(missing))
    return 0


COMMON_ASSUMPTIONS = [
    "the encoded program is the LLVM module rustc produces from /repo's sources at opt-level 1 with fat LTO, overflow checks and debug assertions (x86-64, little endian)",
    "allocation never fails below the stated limit; requests above 2 GiB count as a violation",
    "core::fmt::write produces no output (formatting of error messages is not checked); hash keys are fixed; one thread",
    "panics are reported where they start: unwinding is not modelled",
]


def main():
    a = sys.argv[1:]
    if a and a[0] == "--setup":
        for crate in TD:
            d, t = build(crate)
            shutil.rmtree(d, ignore_errors=True)
            print(f"built {crate} in {t:.0f} s")
        return
    if a and a[0] == "--replay":
        rec = json.load(open(a[1]))
        d, _ = build(PROPS.get(rec.get("property"), {}).get("crate", "harness"))
        try:
            oc, detail, lines = replay(d + "/lib.so", rec, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)
        print("\n".join(lines))
        print(oc, detail)
        sys.exit(1 if oc in ("assert", "panic", "hang") else 0)
    if a and a[0] == "--run":
        import argparse
        ap = argparse.ArgumentParser()
        ap.add_argument("--run", nargs="*")
        ap.add_argument("--tier", type=int, default=0)
        ap.add_argument("--secs", type=int, default=120)
        ap.add_argument("--steps", type=int, default=30_000_000)
        ap.add_argument("--jobs", type=int, default=8)
        ap.add_argument("--z3")
        ap.add_argument("-v", action="store_true")
        ap.add_argument("--prof", action="store_true")
        ap.add_argument("--crate", default="harness")
        ap.add_argument("--nobuild", action="store_true")
        ap.add_argument("--keep", default=os.path.join(V, "out", "dev"))
        o = ap.parse_args(a)
        if not o.nobuild:
            d, tb = build(o.crate)
            shutil.rmtree(o.keep, ignore_errors=True)
            shutil.move(d, o.keep)
            print(f"build {tb:.0f}s")
        d = o.keep
        for h in o.run:
            r = run_engine(d, [h], o.tier, o.secs, o.steps, 1 << 31, o.jobs, z3=o.z3, verbose=o.v, prof=o.prof)
            st = r["stats"]
            print(f"{h}: {r['wall']:.1f}s paths={st['paths']} killed={st['killed']} q={st['queries']} solver={st['solver_s']} maxq={r['maxq_s']} steps={st['steps']} inc={r['incomplete']} err={r['errors']} rc={r['rc']} {r['stderr'][-300:] if r['rc'] else ''}")
            print("   covers", {c: n for (_, c), n in sorted(r["covers"].items())})
            for v in r["viols"]:
                oc = replay(d + "/lib.so", v, d) if v["kind"] != "unsupported" else ("-", "", [])
                print("   VIOL", v["kind"], v["msg"], v["inputs"] if len(str(v["inputs"])) < 1500 else "", "| native", oc[0], oc[1][:200])
                if v["kind"] in ("unsupported", "memory", "ub"):
                    print("       ", v["stack"])
            ok, bad, _ = validate_samples(d + "/lib.so", r["samples"], d, 40)
            print(f"   samples ok={ok} bad={len(bad)}", json.dumps(bad[0])[:800] if bad else "")
        return
    pid = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    if pid not in PROPS:
        die(f"unknown property {pid}")
    check(pid, tier)


if __name__ == "__main__":
    try:
        main()
    except subprocess.TimeoutExpired as e:
        die(f"timeout: {e}")
