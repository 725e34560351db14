#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep]
   check.py --setup                 build everything once
   check.py --replay FILE           re-run a recorded counterexample natively

Decides one property: regenerates the LLVM IR of /repo (plus the harness), executes the
property's entry functions symbolically, confirms every counterexample by running the real
code natively, and writes evidence/PROPERTY.json."""
import collections, fcntl, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
from checks import CHECKS  # noqa: E402

T = os.path.join(V, "target")
JOBS = os.cpu_count() or 8
IRFLAGS = ("--cfg splr_verif -C no-vectorize-loops -C no-vectorize-slp "
           "-C link-arg=-Wl,--unresolved-symbols=ignore-all")


class Broken(Exception):
    pass


def run(cmd, env=None, cwd=V, timeout=600):
    e = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable", CARGO_TERM_COLOR="never")
    for k in ("CARGO_TARGET_DIR", "CARGO_BUILD_TARGET_DIR", "RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, timeout=timeout, errors="replace")


def must(p, what):
    if p.returncode != 0:
        raise Broken(f"{what} failed:\n{p.stdout[-4000:]}")


def build_engine():
    d = f"{T}/symex"
    must(run(["cargo", "build", "--release", "--offline"], {"CARGO_TARGET_DIR": d}, f"{V}/symex"), "engine build")
    return f"{d}/release/symex"


def stale(d):
    """Both crates are built again, whatever the time stamps say."""
    for f in glob.glob(f"{d}/**/.fingerprint/hx-*", recursive=True) + glob.glob(f"{d}/**/.fingerprint/splr-*", recursive=True):
        shutil.rmtree(f, ignore_errors=True)


def build_ir(feature, profile="release"):
    d = f"{T}/ir-{feature}" + ("" if profile == "release" else "-" + profile)
    stale(d)
    for f in glob.glob(f"{d}/{profile}/deps/hx-*.ll"):
        os.remove(f)
    must(run(["cargo", "rustc", "--profile", profile, "--offline", "--features", feature, "--bin", "hx", "--", "--emit=llvm-ir"],
             {"CARGO_TARGET_DIR": d, "RUSTFLAGS": IRFLAGS}, f"{V}/harness"), "IR generation")
    ll = glob.glob(f"{d}/{profile}/deps/hx-*.ll")
    if len(ll) != 1:
        raise Broken(f"expected one IR file, found {ll}")
    return ll[0]


def build_native(feature, kind="debug"):
    d = f"{T}/native-{feature}-{kind}"
    stale(d)
    env = {"CARGO_TARGET_DIR": d, "RUSTFLAGS": "--cfg splr_verif", "CARGO_PROFILE_RELEASE_LTO": "off"}
    cmd = ["cargo", "build", "--offline", "--features", f"{feature},native", "--bin", "hx"]
    sub = "release"
    if kind == "debug":
        cmd += ["--release"]
    elif kind == "plain":
        cmd += ["--profile", "plain"]
        sub = "plain"
    else:  # asan
        env["RUSTUP_TOOLCHAIN"] = "nightly"
        env["RUSTFLAGS"] += " -Zsanitizer=address"
        cmd += ["--release", "--target", "x86_64-unknown-linux-gnu"]
        sub = "x86_64-unknown-linux-gnu/release"
    must(run(cmd, env, f"{V}/harness"), f"native build ({kind})")
    return f"{d}/{sub}/hx"


def native(exe, entry, inputs, timeout=20, env=None):
    """(code, last SX line, tail) of a concrete run of the real code."""
    d = tempfile.mkdtemp(prefix="sx")
    try:
        try:
            p = run([exe, entry, ",".join(str(i) for i in inputs)], {"SX_DIR": d, **(env or {})}, d, timeout)
        except subprocess.TimeoutExpired:
            return "timeout", "SX HANG", ""
        sx = re.findall(r"SX (?:OK|CHECK|PANIC|ASSUME|HANG)\b[^\n]*", p.stdout)
        return p.returncode, (sx[-1] if sx else ""), p.stdout[-3000:]
    finally:
        shutil.rmtree(d, ignore_errors=True)


def confirm(feature, entry, viol, dbg, lean=False):
    """Replay a counterexample against the real code; None if it does not reproduce."""
    kind, msg, inputs = viol["kind"], viol["msg"], viol["inputs"]
    res = {}
    ok = False
    # (a lean entry takes too long with debug assertions)
    builds = ([] if lean else ["debug"]) + ["plain"] + (["asan"] if kind in ("memory", "ub") else [])
    for b in builds:
        try:
            exe = dbg if b == "debug" or lean and b == "plain" else build_native(feature, b)
        except Broken as e:
            res[b] = "build failed"
            continue
        rc, line, tail = native(exe, entry, inputs, 60 if kind == "hang" else 20)
        asan = "AddressSanitizer" in tail
        res[b] = f"exit {rc} {line}" + (" AddressSanitizer" if asan else "")
        if rc == "timeout" or rc in (76, 77) or (isinstance(rc, int) and rc < 0) or asan:
            ok = True
    return res if ok else None


def explore(engine, ll, name, secs, opts, out):
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    seed = os.environ.get("VERIF_SEED", "1")
    cmd = [engine, ll, "--entry", name, "--out", out, "--jobs", str(JOBS), "--time", str(secs), "--seed", seed]
    for k, v in opts.items():
        cmd += [f"--{k}", str(v)]
    p = run(cmd, timeout=secs + 120)
    lines = [l for l in p.stdout.splitlines() if l.startswith("{")]
    if p.returncode != 0 or not lines:
        raise Broken(f"engine failed on {name} ({p.returncode}): {p.stdout[-2000:]}")
    head = json.loads(lines[-1])
    tot = collections.Counter()
    reach = collections.Counter()
    funcs, viols, aborts, samples = set(), [], [], []
    for f in glob.glob(f"{out}/*.json"):
        try:
            d = json.load(open(f))
        except ValueError:
            head["bad_workers"] += 1
            continue
        for k, v in d.items():
            if k in ("wid", "max_forks"):
                continue
            if isinstance(v, (int, float)):
                tot[k] += v
        for k, v in d["reach"].items():
            reach[int(k)] += v
        funcs.update(d["funcs"])
        viols += d["viols"]
        aborts += d["aborts"]
        samples += d["samples"]
    return {"head": head, "tot": tot, "reach": reach, "funcs": funcs, "viols": viols, "aborts": aborts,
            "samples": samples}


def decode(e, inputs):
    return {"entry": e, "inputs": inputs}


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build_engine()
        return 0
    if args and args[0] == "--replay":
        r = json.load(open(args[1]))
        exe = build_native(r["feature"], r.get("build", "debug"))
        rc, line, tail = native(exe, r["entry"], r["inputs"], 60)
        print(tail)
        print(f"replayed {r['entry']}: exit {rc} {line}")
        return 1 if rc in (76, 77, "timeout") or (isinstance(rc, int) and rc < 0) else 0
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    c = CHECKS[prop]
    t0 = time.time()
    os.makedirs(T, exist_ok=True)
    os.makedirs(f"{V}/evidence", exist_ok=True)
    entries = [e for e in c["entries"] if tier == "thorough" or not e.get("thorough_only")]
    # which cargo features of splr: the default ones, unless an entry says otherwise
    builds = {}
    with ThreadPoolExecutor(JOBS) as ex:
        fe = ex.submit(build_engine)
        for e in entries:
            b = e.get("build", "std")
            if b not in builds:
                lean = b == "lean"
                feature = f'{c.get("feature_by", {}).get(b, c["feature"])},{"std" if lean else b}'
                builds[b] = (feature, ex.submit(build_ir, feature, "lean" if lean else "release"),
                             ex.submit(build_native, feature, "plain" if lean else "debug"))
        engine = fe.result()
        builds = {b: (f, i.result(), n.result()) for b, (f, i, n) in builds.items()}
    t_build = time.time() - t0
    cov = {"entries": {}}
    totals = collections.Counter()
    funcs = set()
    found, errors, notes = [], [], []
    exhaustive = True
    validated = 0
    samples_out = []
    for e in entries:
        name = e["name"]
        label = name + ("@" + e["build"] if "build" in e else "")
        feature, ll, dbg = builds[e.get("build", "std")]
        secs = e["quick"] if tier == "quick" else e.get("thorough", 4 * e["quick"])
        opts = dict(e.get("opts", {}))
        if tier == "thorough":
            opts.update(e.get("thorough_opts", {}))
        r = explore(engine, ll, name, secs, opts, f"{T}/out/{prop}/{name}")
        h, tot = r["head"], r["tot"]
        done = not h["timeout"] and not h["memout"] and not h["stopped"] and tot["unfinished"] == 0
        if h["bad_workers"]:
            errors.append(f"{label}: {h['bad_workers']} workers died")
        if r["aborts"]:
            notes.append(f"{label}: {tot['n_aborts']} paths not executed to the end: {r['aborts'][0][:300]}")
            done = False
        if tot["unknown"]:
            notes.append(f"{label}: {tot['unknown']} solver queries without an answer")
            done = False
        if tot["paths"] == 0 and not r["viols"]:
            errors.append(f"{label}: no path was completed; {notes[-1] if notes else ''}")
        # counterexamples
        known = e.get("known")
        for v in r["viols"]:
            what = f"{v['kind']}: {v['msg']}"
            rep = confirm(feature, name, v, dbg, e.get("build") == "lean")
            if rep is None:
                errors.append(f"{label}: counterexample not reproduced: {what} {v['inputs']} {v['stack'][:3]}")
                continue
            if known and re.search(known["match"], what):
                found.append(("known", known["what"], name, v, rep, feature, e))
            else:
                found.append(("new", what, name, v, rep, feature, e))
        missing = [] if (known or r["viols"]) else [i for i in e.get("reach", []) if r["reach"].get(i, 0) == 0]
        if missing and done:
            errors.append(f"{label}: vacuous, points {missing} not reached")
        # concrete runs of sampled paths must behave as the symbolic run did
        smp = r["samples"]
        step = max(1, len(smp) // 24)
        with ThreadPoolExecutor(JOBS) as ex:
            rs = list(ex.map(lambda s: (s, native(dbg, name, s[0])), smp[::step][:24]))
        for (inp, hsh), (rc, line, tail) in rs:
            if rc == 0 and line.split()[-1:] == [hsh]:
                validated += 1
            elif rc == 0 and line.startswith("SX PANIC") and e.get("panics_ok"):
                validated += 1
            else:
                errors.append(f"{label}: path {inp} behaves differently natively: {rc} {line} (expected {hsh})")
        for (inp, hsh), _ in rs[:2]:
            samples_out.append({"entry": name, "inputs": inp, "trace": hsh})
        funcs |= r["funcs"]
        totals.update(tot)
        exhaustive &= done
        cov["entries"][label] = {
            "bounds": e["bounds"], "exhaustive_within_bounds": done, "paths": tot["paths"],
            "infeasible_or_assumed_away": tot["killed"], "forks": tot["forks"], "instructions": tot["instrs"],
            "assertions": tot["checks"], "assertions_symbolic": tot["checks_sym"], "queries": tot["queries"],
            "query_cache_hits": tot["cache_hits"], "sat": tot["sat"], "unsat": tot["unsat"],
            "unknown": tot["unknown"], "solver_s": round(tot["solver_s"], 2), "unfinished_paths": tot["unfinished"],
            "wall_s": h["wall_s"], "reach": {str(k): n for k, n in sorted(r["reach"].items())},
        }
        if any(f[0] == "new" for f in found):
            break
    cov.update({
        "states": int(totals["paths"]), "transitions": int(totals["forks"]),
        "traces_validated_against_impl": validated, "samples": samples_out[:8], "exhaustive": exhaustive,
        "rule": "one state is one completed symbolic path (an equivalence class of inputs); a transition is a branch "
                "on symbolic data decided by the solver; every assertion on a path is decided for all its inputs",
        "functions_encoded": sorted(funcs), "queries": int(totals["queries"]),
        "solver_s": round(totals["solver_s"], 2), "solver": "Z3 4.8.12 (QF_BV), 30 s per query",
        "bounds": c["bounds"], "outside_bounds": c["outside"], "build_s": round(t_build, 1), "notes": notes + errors,
        "ir": "LLVM IR of /repo's working tree, generated by this run (fat LTO, std included, debug assertions on)",
    })
    news = [f for f in found if f[0] == "new"]
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": c.get("level", "model_checking"),
          "coverage": cov, "assumptions": c["assumptions"], "wall_s": round(time.time() - t0, 1),
          "violations": len(news)}
    with open(f"{V}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(f"{T}/out/{prop}", ignore_errors=True)
    seen = set()
    for k, what, name, v, rep, _, _ in found:
        if k == "known" and what not in seen:
            seen.add(what)
            print(f"KNOWN-FINDING: property={prop} {what}")
    print(f"{prop} {tier}: {totals['paths']} paths, {totals['queries']} queries, {totals['checks']} assertions, "
          f"{'exhaustive within bounds' if exhaustive else 'partial'}, {time.time() - t0:.1f} s")
    for n in notes + errors:
        print("note:", n)
    if news:
        _, what, name, v, rep, feature, e = news[0]
        d = f"{V}/out"
        os.makedirs(d, exist_ok=True)
        path = f"{d}/{prop}-{name}.json"
        with open(path, "w") as f:
            json.dump({"property": prop, "feature": feature, "entry": name,
                       "build": "plain" if e.get("build") == "lean" else "debug", "kind": v["kind"], "what": what,
                       "inputs": v["inputs"], "stack": v["stack"], "native": rep,
                       "replay_cmd": f"python3 /verif/check.py --replay {path}"}, f, indent=1)
        print(f"{name}: {what} inputs={v['inputs']} native={rep}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as b:
        print("ERROR:", b)
        sys.exit(3)
