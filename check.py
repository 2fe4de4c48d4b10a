#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: seeded simulation of /repo's current tree for one property.

exit 0  the property held in every simulated run
exit 1  "VIOLATION property=<id> replay=<file>" after a minimised plan was replayed twice in fresh processes
other   the check itself could not run
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build

COMMON = {
    "real": "csn/casync front ends, index parser, chunker, store chain, local and HTTP stores, decompression driver, decryption, target, SHA/kcapi driver, csn-tool crypt, patchdd, logging and utils: compiled unmodified from /repo; libzstd and libcrypto are the real libraries behind fault-injecting wrappers",
    "stub": "kernel files, devices, AF_ALG, page cache, clock, sleep, process exit, heap (counted, guarded, can fail), libcurl and the HTTP servers behind it: simulated in process",
}
RULES = {
    "csn": "one case is one history: a seeded plan of index, image, target, sources, servers and one to four process runs over the same simulated disk, each with its own faults and possibly a kill or a power loss, and every file, network, clock and allocation operation decided by the seed; non-trivial if a fault fired, a run was interrupted, a prefix existed, or the index was altered",
    "crypt": "one case is one history of csn-tool crypt invocations over the same simulated directory with faults, kills and power losses; non-trivial if a fault fired or a run was interrupted",
    "dd": "one case is one history of patchdd invocations over the same simulated source and destination; non-trivial if a fault fired, a run was interrupted or something had to be written",
}
STATE_MEASURE = "distinct = different signatures of (outcome of every process run, set of fault kinds that fired per operation and file role, coarse number of requests, writes and intact prefix chunks, and for the tools the exact crash point), over non-trivial runs only"
QUICK = 50.0
THOROUGH = 420.0


def known(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*)/ (.*)$", line.strip())
            if m and m.group(1) == prop:
                out.append((re.compile(m.group(2)), m.group(3)))
    return out


def batch(exe, prop, seed, secs, out, thorough, env=None):
    cmd = [exe, "batch", "--prop", prop, "--seed", str(seed), "--jobs", str(os.cpu_count() or 8), "--max-seconds", str(secs), "--out", out]
    if thorough:
        cmd.append("--thorough")
    r = subprocess.run(cmd, env=dict(os.environ, **(env or {})), timeout=secs + 240)
    if r.returncode:
        sys.stderr.write("the simulator failed (%d)\n" % r.returncode)
        sys.exit(3)
    return json.load(open(os.path.join(out, "summary.json")))


def gate(exe, cand, tag, prop, secs):
    """minimise, then replay twice in fresh processes; returns the replay file or None"""
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    dst = os.path.join(rdir, "%s-%s.plan" % (prop, tag))
    if os.path.exists(dst):
        os.unlink(dst)
    try:
        r = subprocess.run([exe, "minimise", cand["file"], cand["kinds"], dst, "--seconds", str(secs)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=secs + 180)
    except subprocess.TimeoutExpired:
        return None, "minimising took too long"
    if r.returncode == 0 and os.path.exists(dst):
        codes = [subprocess.run([exe, "replay", dst, "--quiet"], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True) for _ in range(2)]
        if all(c.returncode == 1 for c in codes):
            return dst, r.stdout.strip() + "\n" + codes[0].stdout[-1500:]
    return None, r.stdout[-500:]


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            merge(a.setdefault(k, {}), v)
        elif isinstance(v, bool) or k in ("property", "seed"):
            a[k] = v
        elif isinstance(v, (int, float)):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
    return a


def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER") or (sys.argv[2] if len(sys.argv) > 2 else "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    secs = float(os.environ.get("SIM_SECONDS") or (THOROUGH if thorough else QUICK))
    t0 = time.time()
    variants = [("fast", 1.0)]
    if prop == "C17":
        variants = [("fast", 0.45), ("asan", 0.9)]
    scratch = tempfile.mkdtemp(prefix="csnsim.")
    kn = known(prop)
    hits = {}
    unrepeat = []
    viol = None
    total = {}
    detail = {}
    try:
        for variant, share in variants:
            exe = build.build(variant)
            # a private copy: another build must not take the binary away while it runs
            mine = os.path.join(scratch, "sim-" + variant)
            shutil.copy2(exe, mine)
            end = time.time() + secs * share
            part = 0
            while time.time() < end - 0.5 and not viol:
                out = os.path.join(scratch, "%s.%d" % (variant, part))
                s = batch(mine, prop, seed + 1000003 * part, max(1.0, end - time.time()), out, thorough, {"SIM_KEEP_GOING": "1"} if kn else None)
                part += 1
                cands = s.pop("candidates")
                merge(total, s)
                detail[variant] = detail.get(variant, 0) + s["runs"]
                if not cands:
                    break
                tried = 0
                for c in cands:
                    k = [d for rx, d in kn if rx.search(c["msg"])]
                    if k:
                        hits[k[0]] = hits.get(k[0], 0) + 1
                        continue
                    if tried >= 4:
                        break
                    tried += 1
                    path, info = gate(mine, c, "%d-%d-%s" % (seed, part, variant), prop, 60 if thorough else 20)
                    if path:
                        viol = (path, c["msg"], info)
                        break
                    unrepeat.append(c["msg"] + " / " + info)
                shutil.rmtree(out, ignore_errors=True)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    wall = time.time() - t0
    kind = "crypt" if prop == "C19" else "dd" if prop == "C20" else "csn"
    simwall = max(total.get("wall_s", 0.001), 0.001)
    cov = {
        "evaluations": total.get("runs", 0),
        "distinct_nontrivial": total.get("distinct", 0),
        "rule": RULES[kind] + "; " + STATE_MEASURE,
        "samples": (total.get("samples") or [])[:3],
        "nontrivial_runs": total.get("nontrivial", 0),
        "seeds_per_hour": int(total.get("runs", 0) / simwall * 3600),
        "process_runs": total.get("process_runs", 0),
        "simulated_seconds": total.get("simulated_s", 0),
        "simulated_operations": total.get("operations", 0),
        "http_requests": total.get("http_requests", 0),
        "kills": total.get("kills", 0),
        "power_losses": total.get("power_losses", 0),
        "faults_injected": total.get("faults", {}),
        "situations_reached": total.get("probes", {}),
        "outcomes": total.get("outcomes", {}),
        "runs_per_build": detail,
        "workers_restarted": total.get("aborted", 0),
        "violations_of_other_properties_seen": total.get("other_kinds", {}),
        "unrepeatable_candidates": unrepeat[:5],
        "known_findings_seen": hits,
        "components": COMMON,
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the simulated kernel, libcurl and servers behave like the documented interfaces they stand for", "seeded search: histories that were not drawn are not covered"],
          "wall_s": round(wall, 3), "violations": 1 if viol else 0}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for d, n in hits.items():
        print("KNOWN-FINDING: property=%s %s" % (prop, d))
    print("%s: %d histories (%d process runs, %d distinct non-trivial), %.0f simulated seconds, %d kills, %d power losses, %d faults injected, %.1f s" % (
        prop, cov["evaluations"], cov["process_runs"], cov["distinct_nontrivial"], cov["simulated_seconds"], cov["kills"], cov["power_losses"], sum(cov["faults_injected"].values()), wall))
    for u in unrepeat[:3]:
        print("note: a candidate did not repeat and is not reported: %s" % u.strip()[:300])
    if viol:
        print(viol[1])
        print(viol[2])
        print("VIOLATION property=%s replay=%s" % (prop, viol[0]))
        return 1
    if not total.get("runs"):
        sys.stderr.write("nothing was simulated\n")
        return 3
    return 0


if __name__ == "__main__":
    sys.exit(main())
