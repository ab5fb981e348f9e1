#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: discharge the obligations of a property with Kani.

Every harness that the property rests on is verified against /repo's current working tree
(the code is compiled in place; the hooks only append cfg(kani) modules).  See DESIGN.md."""
import json, os, re, shutil, subprocess, sys, time, signal

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("CONGEE_REPO", "/repo")
sys.path.insert(0, HERE)
import gen, obligations

WORK = os.environ.get("CONGEE_WORK", os.path.join(HERE, "work"))
GRACE = 20
JOBS = int(os.environ.get("CONGEE_JOBS", "8"))
KANI = ["cargo", "kani", "-Z", "stubbing", "-Z", "function-contracts", "-Z", "unstable-options", "--exact",
        "--no-assertion-reach-checks", "--output-format=terse", "--output-into-files"]
TRUSTED = [
    "rustc/Kani translation of the crate to goto-programs, CBMC 6.11.0 and its SAT back end (CaDiCaL)",
    "Kani's memory model: one thread, sequentially consistent atomics, compare_exchange_weak does not fail spuriously beyond what the lock contract allows",
    "crossbeam-epoch: a deferred function runs once, and only after every guard pinned at the time is gone",
    "composition of the per-function contracts along a path (DESIGN.md, 'Composition') is a paper argument",
]

def run(cmd, timeout, env=None, cwd=None, out=None, enough=None):
    """enough: polled; once it holds the command gets GRACE seconds more"""
    f = open(out, "w") if out else subprocess.DEVNULL
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=cwd, start_new_session=True)
    end, rc = time.time() + max(1, timeout), None
    while rc is None and time.time() < end:
        try:
            rc = p.wait(timeout=max(0.1, min(2, end - time.time())) if enough else max(0.1, end - time.time()))
        except subprocess.TimeoutExpired:
            if enough and enough():
                end, enough = min(end, time.time() + GRACE), None
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()
    return rc

CHECK = re.compile(r"Check \d+: (.*)\n\t - Status: (\w+)\n\t - Description: \"(.*)\"\n\t - Location: (.*)")

def parse(path):
    """-> dict(verdict, failed=[(desc, where, id)], total, covers, time)"""
    r = dict(verdict="undecided", failed=[], total=0, ok=0, time=0.0, why="no result")
    if not os.path.exists(path):
        return r
    t = open(path, errors="replace").read()
    m = re.search(r"Verification Time: ([\d.]+)s", t)
    if m:
        r["time"] = float(m.group(1))
    undecided = None
    for name, status, desc, loc in CHECK.findall(t):
        desc = desc.strip('"')
        if ".cover." in name:
            if status != "SATISFIED":
                undecided = "a reachability check is not satisfied (vacuous): " + loc
            continue
        r["total"] += 1
        if status in ("SUCCESS", "UNREACHABLE"):
            r["ok"] += 1
        elif status == "FAILURE":
            if "unwinding assertion" in desc or "recursion unwinding" in desc:
                undecided = "a loop exceeds its unwinding: " + loc
            elif desc.startswith("NaN on "):
                r["ok"] += 1  # defined behaviour of floating point numbers, no property speaks of it
            elif "is not currently supported by Kani" in desc or "unsupported" in name:
                undecided = "unsupported construct: " + desc[:120]
            elif desc.startswith("[MODEL]"):
                undecided = "the code is outside what the contracts describe: " + desc
            else:
                r["failed"].append((desc, loc, name))
    if r["failed"]:
        r["verdict"] = "failed"
        r["why"] = "; ".join(d for d, _, _ in r["failed"])[:400]
    elif undecided:
        r["why"] = undecided
    elif r["total"] > 0 and ("VERIFICATION:- SUCCESSFUL" in t or "VERIFICATION:- FAILED" in t and r["ok"] == r["total"]):
        r["verdict"] = "discharged"
        r["why"] = ""
    else:
        r["why"] = "no verdict (time limit, memory or tool failure)"
    return r

def convicts(prop, r):
    """does this result contain a failed obligation of the property?"""
    kn = [(k[1], k[2]) for k in known() if k[0] == prop]
    for desc, _, _ in r["failed"]:
        m = re.match(r"\[([A-Z0-9,]+)\]", desc)
        if (prop in m.group(1).split(",") if m else True) and desc not in [d for _, d in kn]:
            return True
    return False

def kani(tag, sections, harnesses, deadline, prop=None):
    """Verify the harnesses; -> (results by name, compile error or None).
    Once an obligation of `prop` has failed the rest gets only a little more time."""
    inc = os.path.join(WORK, "inc-" + tag)
    gen.generate(inc, sections)
    target = os.path.join(WORK, "kani-" + tag)
    res = os.path.join(target, "result_output_dir")
    shutil.rmtree(res, ignore_errors=True)
    log = os.path.join(WORK, "kani-%s.log" % tag)
    env = dict(os.environ, CONGEE_VERIF_DIR=inc, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    left = deadline - time.time()
    cmd = KANI + ["--target-dir", target, "-j", str(JOBS), "--harness-timeout", "%ds" % max(10, int(left - 5))]
    for x in harnesses:
        cmd += ["--harness", x]
    seen = set()
    def enough():
        for x in harnesses:
            f = os.path.join(res, x)
            if x not in seen and os.path.exists(f) and "VERIFICATION:-" in open(f, errors="replace").read():
                seen.add(x)
                if convicts(prop, parse(f)):
                    return True
        return False
    run(cmd, left, env=env, cwd=REPO, out=log, enough=enough if prop else None)
    out = {x: parse(os.path.join(res, x)) for x in harnesses}
    err = None
    if all(v["total"] == 0 for v in out.values()):
        t = open(log, errors="replace").read()
        e = [l for l in t.splitlines() if l.startswith("error")]
        err = (e[0] if e else "Kani gave no result")[:300]
    return out, err

def replay(prop, seconds, seed):
    """Search for a concrete failing history with the real crate.  -> (text or None, note)"""
    target = os.path.join(WORK, "replay")
    src = os.path.join(HERE, "replay")
    if REPO != "/repo":
        src2 = os.path.join(WORK, "replay-src")
        shutil.rmtree(src2, ignore_errors=True)
        shutil.copytree(src, src2, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(src2, "Cargo.toml")
        s = open(p).read().replace("../../repo", REPO)
        open(p, "w").write(s)
        src = src2
    env = dict(os.environ, RUSTFLAGS="--cfg congee_verif -Awarnings", RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")
    log = os.path.join(WORK, "replay-build.log")
    if run(["cargo", "build", "--offline", "--locked", "--target-dir", target], 150, env=env, cwd=src, out=log) != 0:
        return None, "the replay program does not build against this tree"
    exe = os.path.join(target, "debug", "replay")
    mark = os.path.join(WORK, "replay.mark")
    env["REPLAY_MARK"] = mark
    log = os.path.join(WORK, "replay-run.log")
    rc = run([exe, prop, str(seconds), str(seed)], seconds + 40, env=env, out=log)
    t = open(log, errors="replace").read()
    if rc == 0:
        m = re.search(r"NOTHING trials=(\d+)", t)
        return None, "bounded search: %s histories against the real crate, none fails" % (m.group(1) if m else "?")
    if rc is None:
        return None, "bounded search did not end in time"
    m = re.search(r"FOUND trial=(\d+) (.*)", t)
    if m:
        trial, what = m.group(1), m.group(2)
    elif rc < 0 or rc > 128:
        trial, what = open(mark).read().strip(), "the process dies with signal %d" % (-rc if rc < 0 else rc - 128)
    else:
        return None, "replay program failed (exit %d)" % rc
    run([exe, prop, "trial", trial], 60, env=env, out=log)
    h = open(log, errors="replace").read()
    if len(h) > 40000:
        h = h[:2000] + "\n[...]\n" + h[-36000:]
    return ("concrete failing history on the real crate: %s\n"
            "again: cd %s/replay && RUSTFLAGS='--cfg congee_verif' cargo run --offline -- %s trial %s\n\n%s" % (what, HERE, prop, trial, h)), what

def races(seconds):
    """Bounded stand-in for the single-read rule (DESIGN.md).  -> (text or None, note)"""
    target = os.path.join(WORK, "races")
    src = os.path.join(HERE, "races")
    if REPO != "/repo":
        src2 = os.path.join(WORK, "races-src")
        shutil.rmtree(src2, ignore_errors=True)
        shutil.copytree(src, src2, ignore=shutil.ignore_patterns("target"))
        p = os.path.join(src2, "Cargo.toml")
        s = open(p).read().replace("../../repo", REPO)
        open(p, "w").write(s)
        src = src2
    env = dict(os.environ, RUSTFLAGS="-Awarnings", RUST_BACKTRACE="0", CARGO_NET_OFFLINE="true")
    log = os.path.join(WORK, "races-build.log")
    if run(["cargo", "build", "--offline", "--locked", "--target-dir", target], 150, env=env, cwd=src, out=log) != 0:
        return None, "races: does not build against this tree"
    log = os.path.join(WORK, "races-run.log")
    rc = run([os.path.join(target, "debug", "races"), str(seconds)], seconds + 20, env=env, out=log)
    t = open(log, errors="replace").read()
    if rc == 0:
        return None, "races (bounded, %d s of racing readers and writers): nothing" % seconds
    if rc is None:
        return None, "races: did not end"
    return "concrete failing run on the real crate (races %d): %s" % (seconds, t[:2000]), "races: fails"

def known():
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) obligation=(\S+)::(\[.*?\].*?) \|\| (.*)", l.strip())
        if m:
            out.append(m.groups())
    return out

def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    limit = 560 if tier == "quick" else 5 * 3600
    os.makedirs(WORK, exist_ok=True)
    todo = {}
    for g, d in obligations.G.items():
        hs = [x for x in d["harnesses"] if prop in x["props" if tier == "thorough" else "quick"]]
        if hs:
            todo[g] = hs
    sections = sorted({s for g in todo for s in obligations.G[g]["sections"]})
    names = [x["name"] for hs in todo.values() for x in hs]
    results, err = kani(prop, sections, names, t0 + limit, prop)
    notes = []
    if err:
        notes.append("the harnesses do not compile together: " + err)
        results = {}
        bysec = {}
        for g in todo:
            bysec.setdefault(tuple(sorted(obligations.G[g]["sections"])), []).append(g)
        for i, (secs, gs) in enumerate(sorted(bysec.items())):
            r, e = kani("%s-%d" % (prop, i), list(secs), [x["name"] for g in gs for x in todo[g]], t0 + limit, prop)
            if e:
                notes.append("lost anchor in %s: %s" % ("+".join(gs), e))
                for v in r.values():
                    v["why"] = "lost anchor: " + e
            results.update(r)
    if any(convicts(prop, r) for r in results.values()):
        for r in results.values():
            if r["verdict"] == "undecided" and not r["total"]:
                r["why"] = "not finished: the run ends %d s after the first failed obligation" % GRACE
    kn = known()
    mine, others, undecided, seen_known = [], [], [], set()
    for n, r in results.items():
        if r["verdict"] == "undecided":
            undecided.append((n, r["why"]))
        for desc, loc, cid in r["failed"]:
            m = re.match(r"\[([A-Z0-9,]+)\]", desc)
            tags = m.group(1).split(",") if m else [prop]
            k = [x for x in kn if x[0] == prop and x[1] == n and x[2] == desc]
            if k:
                seen_known.add(k[0])
            elif prop in tags:
                mine.append((n, desc, loc, cid))
            else:
                others.append((n, desc, loc, cid))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (prop, k[3]))

    found, note = None, None
    if prop == "C15":
        found, note = races(16 if tier == "quick" else 80)
        notes.append(note)
    if found is None and (mine or others or undecided):
        left = 860 - (time.time() - t0) if tier == "quick" else 900
        secs = int(min(90 if tier == "quick" else 600, left - 170))
        if secs > 5:
            found, note = replay(prop, secs, seed)
            notes.append(note)
    violation = bool(mine) or bool(found)
    discharged = [n for n, r in results.items() if r["verdict"] == "discharged"]
    bounded = {x["name"]: x["bounded"] for hs in todo.values() for x in hs if x["bounded"]}
    total = sum(r["total"] for r in results.values())
    ok = sum(r["ok"] for n, r in results.items() if n not in bounded)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "proof",
        "coverage": {
            "obligations": sum(r["total"] for n, r in results.items() if n not in bounded),
            "discharged": ok,
            "checker_cmd": " ".join(KANI) + " --harness <each of harnesses>  (CONGEE_VERIF_DIR=work/inc-%s, cwd %s)" % (prop, REPO),
            "trusted_base": TRUSTED + sorted({a for g in todo for a in obligations.G[g]["assumes"]}),
            "back_end": "Kani 0.68.0, CBMC 6.11.0, CaDiCaL",
            "functions_under_contract": sorted({f for g in todo for f in obligations.G[g]["fns"]}),
            "harnesses": len(names), "harnesses_discharged": len(discharged),
            "obligations_all_harnesses": total,
            "solver_s": round(sum(r["time"] for r in results.values()), 1),
            "per_harness": {n: {"verdict": r["verdict"], "checks": r["total"], "s": round(r["time"], 1)} for n, r in sorted(results.items())},
            "bounded_harnesses": bounded,
            "undischarged": [{"harness": n, "why": w} for n, w in undecided],
            "failed_obligations": [{"harness": n, "obligation": d, "where": l} for n, d, l, _ in mine],
            "failed_for_other_properties": [{"harness": n, "obligation": d, "where": l} for n, d, l, _ in others],
            "notes": notes,
        },
        "assumptions": TRUSTED,
        "wall_s": round(time.time() - t0, 1),
        "violations": len(mine) if mine else (1 if found else 0),
    }
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    if violation:
        os.makedirs(os.path.join(WORK, "replays"), exist_ok=True)
        path = os.path.join(WORK, "replays", prop + ".txt")
        with open(path, "w") as f:
            f.write("property %s, tree %s\n\n" % (prop, REPO))
            for n, d, l, c in mine:
                f.write("FAILED OBLIGATION %s\n  harness %s\n  check   %s\n  at      %s\n" % (d, n, c, l))
            if not mine:
                f.write("No failed obligation is attributed to this property; undecided or failed otherwise:\n")
                for n, d, l, c in others:
                    f.write("  %s: %s\n" % (n, d))
                for n, w in undecided:
                    f.write("  %s: %s\n" % (n, w))
            f.write("\n" + (found or "no failing input found (%s)\n" % note))
            if mine:
                p = os.path.join(WORK, "kani-" + prop, "result_output_dir", mine[0][0])
                if os.path.exists(p):
                    t = open(p, errors="replace").read()
                    bad = [b for b in re.split(r"\n\n", t) if "Status: FAILURE" in b or "VERIFICATION" in b]
                    f.write("\nverifier output for %s (failed checks):\n\n%s\n" % (mine[0][0], "\n\n".join(bad)[:20000]))
        for n, d, l, _ in mine:
            print("failed obligation: %s  (%s)" % (d, n))
        if found:
            print(found.splitlines()[0])
        print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if found else " no-failing-input-found"))
        return 1
    print("%s: %d of %d harnesses discharged (%d checks), %d undecided%s, %.0f s" % (
        prop, len(discharged), len(names), total, len(undecided), " (%s)" % note if note else "", time.time() - t0))
    for n, w in undecided[:5]:
        print("  undecided: %s: %s" % (n, w))
    return 0

if __name__ == "__main__":
    sys.exit(main())
