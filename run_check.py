#!/usr/bin/env python3
"""run_check.py PROPERTY [--tier quick|thorough] [--replay FILE] [--variant V]
Builds from /repo's working tree, explores, writes evidence/<PROPERTY>.json.
exit 0: held on everything explored; 1: VIOLATION printed; 2: error of the check."""
import json, os, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B
from checks_conf import CHECKS, LEVEL_ASSUMPTIONS

def main(scratch):
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = variant = None
    i = 1
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--replay": replay = a[i + 1]; i += 2
        elif a[i] == "--variant": variant = a[i + 1]; i += 2
        else: sys.exit("unknown argument " + a[i])
    conf = CHECKS[prop]
    t0 = time.time()
    if replay:
        # replay files name their program and variant
        head = dict(l.rstrip("\n").split(": ", 1) for l in open(replay) if ": " in l)
        runs = [(head.get("program", conf["quick"][0][0]), head.get("variant", "dbg"))]
    else:
        runs = conf[tier] if tier in conf else conf["quick"]
    if variant:
        runs = [r for r in runs if r[1] == variant] or [(runs[0][0], variant)]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(V, "replays"), exist_ok=True)
    for var in dict.fromkeys(v for _, v in runs):
        rc, _ = B.build(var, [p for p, v in runs if v == var])
        if rc:
            print(f"ERROR: build of the {var} variant failed", file=sys.stderr)
            return 2
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], exhaustive=True, runs=[])
    bad, known, err = [], {}, False
    build_s = time.time() - t0
    env = dict(os.environ, VERIF_TIER=tier, ASAN_OPTIONS="detect_leaks=0:detect_stack_use_after_return=0:handle_segv=1:abort_on_error=1:exitcode=99")
    env["VERIF_SCRATCH"] = scratch  # files written by the code under test
    for prog, var in runs:
        exe = os.path.join(B.BD, var, prog)
        if replay:
            return subprocess.run([exe, "--tier", tier, "--replay", replay], env=env, cwd=V).returncode and 1
        out = os.path.join(B.BD, var, prog + ".json")
        rep = os.path.join(V, "replays", f"{prop}-{prog}-{var}.txt")
        for f in (out, rep):
            if os.path.exists(f): os.remove(f)
        r = subprocess.run([exe, "--tier", tier, "--out", out, "--replay-out", rep,
                            "--findings", os.path.join(V, "known_findings.txt")], env=env, cwd=V)
        if r.returncode not in (0, 1) or not os.path.exists(out):
            print(f"ERROR: {prog} ({var}) ended with {r.returncode}", file=sys.stderr)
            err = True
            continue
        j = json.load(open(out))
        cov["states"] += j["states"]; cov["transitions"] += j["transitions"]
        cov["traces_validated_against_impl"] += j["traces_validated_against_impl"]
        cov["samples"] += [s for s in j.pop("samples")][:6]
        cov["exhaustive"] = cov["exhaustive"] and j["exhaustive"]
        for k in j.pop("known"):
            known.setdefault(k.split(" ", 1)[0], k)
        j["program"], j["variant"] = prog, var
        cov["runs"].append(j)
        if r.returncode == 1:
            with open(rep, "a") as f: f.write(f"program: {prog}\nvariant: {var}\n")
            bad.append((rep, j["message"]))
            break
    if not cov["samples"]: cov["samples"] = ["(none recorded)"]
    cov["bounds"] = conf["bounds"]
    cov["conformance"] = ("every explored trace is an execution of the real code compiled from /repo's working tree; "
                          "the reference model is evaluated on the same trace and compared after every step")
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="model_checking",
              coverage=cov, assumptions=LEVEL_ASSUMPTIONS + conf.get("assumptions", []),
              wall_s=round(time.time() - t0, 2), build_s=round(build_s, 2), violations=len(bad))
    with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for k in sorted(known.values()):
        print(f"KNOWN-FINDING: property={prop} {k}")
    for rep, msg in bad:
        print(f"violation of {prop}: {msg}")
        print(f"VIOLATION property={prop} replay={rep}")
    if bad: return 1
    if err: return 2
    print(f"{prop}: held on everything explored: {cov['traces_validated_against_impl']} executions, {cov['states']} states, "
          f"{cov['transitions']} transitions, exhaustive within bounds: {cov['exhaustive']}, {ev['wall_s']} s")
    return 0
scratch = tempfile.mkdtemp(prefix="verif-")
try:
    rc = main(scratch)
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.exit(rc)
