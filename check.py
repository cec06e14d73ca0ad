#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]      decide one property on /repo's working tree
   check.py --replay FILE                  run a replay file again (against /repo's working tree)"""
import hashlib, json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
import build
from plan import FOREIGN, PLAN

KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.txt")


def known_findings(prop):
    """{(signature) : text} of the findings listed as known for the property; fixed entries suppress nothing"""
    res = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"known: property=(\S+) signature=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def first_error(text):
    m = re.search(r"^.*error:.*$", text, re.M)
    return (m.group(0) if m else text.strip())[:300]


def compile_violation(prop, e, outdir):
    path = os.path.join(outdir, "%s-compile-%s.replay" % (prop, hashlib.sha256(e.cmd.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write("kind compile\nproperty %s\ncommand %s\nmessage a program that only uses the public interface no longer compiles\n---- compiler output\n%s\n" % (prop, e.cmd, e.text[:20000]))
    return path


def replay(path):
    text = open(path).read()
    kind = re.search(r"^kind (\S+)", text, re.M).group(1)
    if kind in ("compile", "probe"):
        import probes
        return probes.replay(path, text)
    name = re.search(r"^binary (\S+)", text, re.M)
    name = name.group(1) if name else re.search(r"^# replay: (\S+)", text).group(1).rsplit("/", 1)[1].rsplit("-", 1)[0]
    import typegen
    typegen.register(name)
    try:
        exe = build.build([name])[name]
    except build.CompileError as e:
        print(e.text)
        return 1
    return subprocess.run([exe, "replay", "--file", path]).returncode


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    outdir = os.path.join(VERIF, "replays")
    os.makedirs(outdir, exist_ok=True)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    known = known_findings(prop)
    steps = PLAN[prop]
    violations, seen_known, runs, errors = [], set(), [], []
    must = sorted({s[0] for s in steps if not callable(s) and not s[4].get("optional")})
    may = sorted({s[0] for s in steps if not callable(s) and s[4].get("optional")})
    built, skipped = {}, []
    try:
        built = build.build(must) if must else {}
    except build.CompileError as e:
        path = compile_violation(prop, e, outdir)
        violations.append(("does-not-compile", first_error(e.text), path))
    for b in may:
        # these harnesses name internals, which may be renamed without breaking anything
        try:
            built.update(build.build([b]))
        except build.CompileError as e:
            skipped.append("%s does not compile any more: %s" % (b, first_error(e.text)))
    if not violations:
        for i, step in enumerate(steps):
            if callable(step):
                r = step(prop, tier, seed, outdir, known)
            elif step[0] not in built:
                continue
            else:
                r = run_pbt(prop, tier, seed, outdir, known, built, i, *step)
            runs.append(r)
            if r.get("error"):
                errors.append(r["error"])
            seen_known |= set(r.get("known", []))
            for v in r["violations"]:
                if v["signature"] in known:
                    seen_known.add(v["signature"])
                else:
                    violations.append((v["signature"], v["message"], v["replay"]))
            if violations:
                break
    wall = time.time() - t0
    samples = []
    for r in runs:
        samples += [{"scenario": r["scenario"], "case": s} for s in r["samples"][:3]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in runs),
            "distinct_nontrivial": sum(r["distinct_nontrivial"] for r in runs),
            "rule": " || ".join(dict.fromkeys(r["scenario"] + ": " + r["rule"] for r in runs)) or "nothing ran: a harness does not compile",
            "samples": samples or ["none"],
            "runs": [{k: r.get(k) for k in ("binary", "scenario", "options", "evaluations", "nontrivial", "distinct_nontrivial", "labels", "wall_s", "timed_out", "unconfirmed", "foreign") if r.get(k) is not None} for r in runs],
            "known_findings_seen": sorted(seen_known),
            "steps_left_out": skipped,
        },
        "wall_s": round(wall, 2),
        "violations": len(violations),
    }
    tmp = os.path.join(VERIF, "evidence", prop + ".json.tmp%d" % os.getpid())
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(tmp, os.path.join(VERIF, "evidence", prop + ".json"))
    for sig in sorted(known):
        # a listed finding is reported whether or not this run happened to meet it
        print("KNOWN-FINDING: property=%s %s" % (prop, known[sig]))
    for r in runs:
        print("%s %s: %d cases, %d distinct non-trivial, %.1f s" % (r.get("binary", ""), r["scenario"], r["evaluations"], r["distinct_nontrivial"], r.get("wall_s", 0)))
        if r.get("timed_out"):
            print("  stopped early by its time budget")
        if r.get("foreign"):
            print("  %d cases failed in a way that is not a matter of this property" % r["foreign"])
        if r.get("unconfirmed"):
            print("  %d failures did not reproduce from their tape and are not reported" % r["unconfirmed"])
    for x in skipped:
        print("left out: " + x)
    for sig, msg, path in violations:
        print("[%s] %s" % (sig, msg[:2000]))
    for sig, msg, path in violations:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    print("%s %s: %s in %.1f s" % (prop, tier, "VIOLATED" if violations else "held on everything explored", wall))
    if violations:
        return 1
    if errors:
        for e in errors:
            print("error: " + e, file=sys.stderr)
        return 2
    return 0


def run_pbt(prop, tier, seed, outdir, known, built, idx, binary, scenario, quick, thorough, opts):
    cases = quick if tier == "quick" else thorough
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    cases = max(1, int(cases * scale))
    exe = built[binary]
    out = os.path.join(outdir, ".%s-%d-%d.json" % (prop, idx, os.getpid()))
    cmd = [exe, "run", "--prop", prop, "--scenario", scenario, "--seed", str(seed * 1000 + idx), "--cases", str(cases), "--jobs", str(os.cpu_count() or 8),
           "--out", out, "--outdir", outdir, "--max-wall", "200" if tier == "quick" else "3000"]
    for k, v in opts.items():
        if k == "optional":
            continue
        cmd += ["--opt", "%s=%d" % (k, v)]
    for s in known:
        cmd += ["--known", s]
    for s in FOREIGN.get(prop, []):
        cmd += ["--foreign", s]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    try:
        r = json.load(open(out))
        os.unlink(out)
    except (OSError, ValueError):
        return {"binary": binary, "scenario": scenario, "rule": "", "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "violations": [],
                "error": "%s %s ended with %d: %s" % (binary, scenario, p.returncode, p.stdout[-500:])}
    r["binary"] = binary
    r["options"] = opts
    for v in r["violations"]:
        # make the replay file self-contained
        try:
            text = open(v["replay"]).read()
            with open(v["replay"], "w") as f:
                f.write("# python3 /verif/check.py --replay %s\nbinary %s\n%s" % (v["replay"], binary, text))
        except OSError:
            pass
    if p.returncode not in (0, 1):
        r["error"] = "%s %s ended with %d: %s" % (binary, scenario, p.returncode, p.stdout[-500:])
    return r


if __name__ == "__main__":
    sys.exit(main())
