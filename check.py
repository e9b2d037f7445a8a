#!/usr/bin/env python3
"""check.py <property> [quick|thorough]: decides one property by deterministic simulation of /repo's current tree.

Builds the simulator (fast, AddressSanitizer and cost metering flavours) from the working tree, searches over seeded plans
(workload + schedule + faults), minimises and re-runs what it finds, writes evidence/<property>.json.
Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check itself could not give an answer.
"""
import json, os, re, shutil, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "tools"))
import simbuild

FATAL = ["crash", "hang"]
# property -> (violation kinds that break it, [(profile, flavour, share of the time)])
PROPS = {
    "C01": (["data", "leak", "stats"], [("l_map", "fast", 4), ("l_map", "asan", 2), ("l_hash", "fast", 2), ("l_stats", "fast", 1), ("s_lin", "fast", 1)]),
    "C02": (["data"], [("l_evict", "fast", 4), ("l_evict", "asan", 2), ("l_lru", "fast", 1), ("l_stats", "fast", 1), ("s_evict", "fast", 2)]),
    "C03": (["data"], [("l_oom", "fast", 4), ("l_oom", "asan", 2), ("s_oom", "fast", 3), ("m_alloc", "fast", 1)]),
    "C04": (["data"], [("l_ttl", "fast", 4), ("l_ttl", "asan", 1), ("s_ttl", "fast", 3), ("l_hash", "fast", 1), ("l_stats", "fast", 1)]),
    "C05": (["data", "stream", "udp"], [("s_lin", "fast", 4), ("s_lin", "asan", 1), ("s_evict", "fast", 2), ("s_udp", "fast", 1), ("s_ttl", "fast", 1), ("s_counter", "fast", 1), ("l_cas", "fast", 1)]),
    "C06": (["stream", "data", "stall"], [("s_stream", "fast", 5), ("s_stream", "asan", 2), ("s_lin", "fast", 1), ("s_live", "fast", 1), ("s_hostile", "fast", 1), ("s_mem", "fast", 1)]),
    "C07": (["stall", "stream"], [("s_live", "fast", 4), ("s_live", "asan", 1), ("s_stream", "fast", 2), ("s_flood", "fast", 1), ("s_death", "fast", 1), ("s_hostile", "fast", 1), ("s_mem", "fast", 1)]),
    "C08": (["stream", "data", "stall", "leak", "udp", "memory"], [("s_hostile", "fast", 4), ("s_hostile", "asan", 3), ("s_flood", "fast", 1), ("s_flood", "asan", 1), ("s_udp", "fast", 1)]),
    "C09": (["data", "leak", "stream", "stall", "memory"], [("s_death", "fast", 6), ("s_death", "asan", 3), ("s_live", "fast", 1)]),
    "C10": (["udp", "data", "stall", "stream"], [("s_udp", "fast", 7), ("s_udp", "asan", 3)]),
    "C11": (["data", "leak", "stall", "stream", "udp", "config", "stats", "signal"], [("s_alloc", "fast", 4), ("s_alloc", "asan", 1), ("l_alloc", "fast", 3), ("l_alloc", "asan", 1), ("m_alloc", "fast", 1), ("d_dict", "fast", 1)]),
    "C12": (["evict", "data"], [("l_lru", "fast", 4), ("l_evict", "fast", 3), ("m_alloc", "fast", 3)]),
    "C13": (["data", "leak", "stats", "evict"], [("m_alloc", "fast", 5), ("m_alloc", "asan", 2), ("m_huge", "fast", 2), ("l_oom", "fast", 1)]),
    "C14": (["stats"], [("s_stats", "fast", 4), ("l_stats", "fast", 3), ("l_counter", "fast", 1), ("m_alloc", "fast", 1), ("s_config", "fast", 1), ("l_ttl", "fast", 1)]),
    "C15": (["data", "leak", "stats"], [("l_hash", "fast", 5), ("d_dict", "fast", 3), ("l_hash", "asan", 2), ("d_dict", "asan", 1), ("l_evict", "fast", 1), ("l_ttl", "fast", 1)]),
    "C16": (["data", "stream"], [("l_counter", "fast", 4), ("l_counter", "asan", 1), ("s_counter", "fast", 4), ("s_counter", "asan", 1)]),
    "C17": (["signal", "stall", "stream", "data", "stats", "leak"], [("s_signal", "fast", 7), ("s_signal", "asan", 3)]),
    "C18": (["config", "data", "stats", "leak", "evict"], [("s_config", "fast", 3), ("s_config", "asan", 1), ("l_config", "fast", 3), ("l_config", "asan", 1), ("l_huge", "fast", 1), ("m_huge", "fast", 1)]),
    "C20": (["cost"], [("k_cost", "cost", 10)]),
    "C21": (["config", "data", "leak", "stream", "stall", "udp", "stats", "signal"], [("s_restart", "fast", 7), ("s_restart", "asan", 3)]),
    "C22": (["cost", "hang"], [("s_cost", "cost", 10)]),
    "C23": (["memory", "leak"], [("s_mem", "fast", 6), ("s_flood", "fast", 1), ("s_death", "fast", 1), ("s_stream", "fast", 1), ("s_udp", "fast", 1)]),
}
REAL = {"s": ["cachelotd main(), option parsing, event loop wiring", "memcached ASCII protocol, conversation and socket layers", "cache, dict, hash_table, memalloc, stats, io_buffer, string_conv", "boost::asio epoll reactor and signal_set", "boost::program_options"],
        "l": ["cachelot::cache::Cache (C++ API) and the C API", "dict, hash_table, memalloc, expiration clock, stats"],
        "m": ["cachelot::memalloc with its page list and free block table"],
        "d": ["cachelot::dict and cachelot::hash_table on their own"],
        "k": ["cachelot::cache::Cache and the C API with dict, hash_table and memalloc, instrumented by the compiler to count executed basic blocks"]}
STUB = {"s": ["kernel: sockets, epoll, eventfd, pipes, accept queue, send windows, UDP, signals (simulated)", "steady and wall clock (simulated)", "malloc/new (real, with injected failures)", "clients (simulated)"],
        "l": ["steady and wall clock (simulated)", "malloc/new (real, with injected failures)", "application (generated calls)"],
        "m": ["malloc/new (real, with injected failures)", "application (generated calls)"],
        "d": ["malloc/new (real, with injected failures)", "hash function (dictated by the plan)", "application (generated calls)"],
        "k": ["application (generated calls)"]}
RULE = ("one evaluation = one plan generated from one seed (configuration, client requests or API calls, schedule of deliveries and polls, clock movements, faults) executed "
        "in a forked child of the simulator against the reference model; distinct_nontrivial = number of different event logs (hash of every delivery, system call outcome, reply, eviction and fault "
        "in order) among the evaluations, a log that ends at the refusal of the configuration counted once per message")

def die(msg):
    print("ERROR " + msg); sys.stdout.flush(); sys.exit(2)

def known_findings(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known_findings.txt")):
            m = re.match(r"known: property=(\S+) plan=(\S+) match=\"([^\"]*)\" (.*)", l.strip())
            if m and m.group(1) == prop: out.append((m.group(2), m.group(3), m.group(4)))
    except FileNotFoundError: pass
    return out

def replay(exe, plan):
    """runs a plan in a fresh process: (event log hash, {kind: message})"""
    r = subprocess.run([exe, "replay", plan], capture_output=True, text=True, errors="replace", timeout=300)
    h = re.search(r"^hash (\S+)", r.stdout, re.M)
    return (h.group(1) if h else "?"), {m.group(1): m.group(2) for m in re.finditer(r"^violation (\S+) (.*)$", r.stdout, re.M)}

def main():
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS: die("usage: check.py <property> [quick|thorough]")
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    total_s = float(os.environ.get("VERIF_SECONDS", "20" if tier == "quick" else "1200"))
    jobs = max(2, os.cpu_count() or 2)
    t0 = time.time()
    kinds, profiles = PROPS[prop]; kinds = kinds + FATAL
    evid = os.path.join(HERE, "evidence"); os.makedirs(evid, exist_ok=True)
    reps = os.path.join(HERE, "replays"); os.makedirs(reps, exist_ok=True)
    work = tempfile.mkdtemp(prefix="cachelot_sim_")
    try:
        exes = {}
        for fl in sorted({p[1] for p in profiles}, reverse=True):
            try: exes[fl] = simbuild.build(fl, os.path.join(work, fl), jobs)
            except simbuild.BuildError as e: die("the simulator does not build against /repo: %s" % e)
        build_s = time.time() - t0
        return search(prop, tier, seed, total_s, jobs, t0, build_s, kinds, profiles, evid, reps, work, exes)
    finally:
        shutil.rmtree(work, ignore_errors=True)

def search(prop, tier, seed, total_s, jobs, t0, build_s, kinds, profiles, evid, reps, work, exes):
    share = sum(p[2] for p in profiles); tot = {"runs": 0, "sim_ns": 0, "events": 0, "syscalls": 0}; ctr = {}; rw = {}; other = {}; hashes = set(); per = []; viols = []; samples = []; search_s = 0.0
    for pi, (profile, fl, w) in enumerate(profiles):
        out = os.path.join(work, "o%d" % pi); os.makedirs(out)
        seed0 = seed * 1000000000 + pi * 50000000
        secs = max(2.0, total_s * w / share); t1 = time.time()
        r = subprocess.run([exes[fl], "run", profile, str(seed0), "50000000", "%.1f" % secs, str(jobs), out, ",".join(kinds)], capture_output=True, text=True, errors="replace", timeout=secs + 900)
        el = time.time() - t1; search_s += el
        if r.returncode: die("the simulation of %s failed: %s" % (profile, (r.stdout + r.stderr)[-500:]))
        pr = {"profile": profile, "flavour": fl, "first_seed": seed0, "runs": 0, "seconds": round(el, 1)}; ph = set()
        for j in range(jobs):
            for line in open(os.path.join(out, "w_%s_%d.txt" % (profile, j)), errors="replace"):
                f = line.rstrip("\n").split("\t")
                if f[0] in tot: tot[f[0]] += int(f[1]); pr["runs"] += int(f[1]) if f[0] == "runs" else 0
                elif f[0] == "maxms": pr["longest_run_cpu_ms"] = max(pr.get("longest_run_cpu_ms", 0), int(f[1]))
                elif f[0] == "ctr": ctr[f[1]] = ctr.get(f[1], 0) + int(f[2])
                elif f[0] == "rw": rw[f[1]] = rw.get(f[1], 0) + int(f[2])
                elif f[0] == "other": other[f[2]] = other.get(f[2], 0) + int(f[1])
                elif f[0] == "viol": viols.append((fl, int(f[1]), f[2], f[3], f[4] if len(f) > 4 else ""))
                elif f[0] == "h": ph.add(f[1])
        pr["distinct"] = len(ph); hashes |= ph; per.append(pr)
        if len(samples) < 2:
            g = subprocess.run([exes[fl], "gen", profile, str(seed0)], capture_output=True, text=True, errors="replace").stdout.splitlines()
            samples.append({"profile": profile, "seed": seed0, "plan_lines": len(g), "plan": [x[:160] for x in g[:40]]})
        if viols: break
    # determinism: the same seeds in other processes and with another number of workers give the same event logs
    det = None
    if not viols:
        det = {"seeds": 0, "identical": True}
        for pi, (profile, fl, w) in enumerate(profiles[:2]):
            sets = []
            for jn, jj in enumerate((jobs, 3)):
                out = os.path.join(work, "d%d_%d" % (pi, jn)); os.makedirs(out)
                r = subprocess.run([exes[fl], "run", profile, str(seed * 1000000000 + 49000000), "24", "60", str(jj), out], capture_output=True, text=True, errors="replace")
                if r.returncode: die("determinism run failed")
                s = set(); n = 0
                for j in range(jj):
                    for line in open(os.path.join(out, "w_%s_%d.txt" % (profile, j)), errors="replace"):
                        f = line.split("\t")
                        if f[0] == "h": s.add(f[1].strip())
                        if f[0] == "runs": n += int(f[1])
                sets.append((n, s))
            det["seeds"] += sets[0][0]
            if sets[0] != sets[1]: det["identical"] = False
        if not det["identical"]: die("the simulation is not deterministic")
    # known findings: replayed from their files, printed, never searched for
    rc = 0; nviol = 0; reported = []
    for plan, match, what in known_findings(prop):
        exe = exes.get("fast") or list(exes.values())[0]
        h, v = replay(exe, os.path.join(HERE, plan))
        if not v: continue
        if all(match in m for m in v.values()): print("KNOWN-FINDING: property=%s %s" % (prop, what))
        else: print("VIOLATION property=%s replay=%s" % (prop, os.path.join(HERE, plan))); print("  " + str(v)); rc = 1; nviol += 1
    weak = None
    for fl, sd, kind, f, msg in viols[:6]:
        name = os.path.basename(f); dst = os.path.join(reps, "%s-%s" % (prop, name[2:]))
        m = subprocess.run([exes[fl], "min", f, dst, kind, "25"], capture_output=True, text=True, errors="replace")
        a = replay(exes[fl], dst); b = replay(exes[fl], dst)
        if not (kind in a[1] and kind in b[1]):     # minimised too far for an unstable effect of corrupted memory: keep the original plan
            shutil.copy(f, dst); a = replay(exes[fl], dst); b = replay(exes[fl], dst)
        if kind in a[1] and kind in b[1]:
            if a[0] == b[0] or kind in ("crash", "hang"): reported.append((dst, kind, a, fl, sd)); break
            weak = weak or (dst, kind, a, fl, sd)
    if viols and not reported and weak: reported.append(weak)
    if viols and not reported:
        for v in viols[:6]: print("unreproduced: %s seed %d %s: %s" % (v[0], v[1], v[2], v[4][:300]))
        die("violations were found but do not reproduce in a fresh process")
    for dst, kind, a, fl, sd in reported:
        with open(dst) as fh: body = fh.read()
        with open(dst, "w") as fh: fh.write("# replay: python3 %s/tools/simbuild.py OUTDIR %s && OUTDIR/%s/sim_%s replay %s -v\n" % (HERE, fl, fl, fl, dst) + body)
        print("VIOLATION property=%s replay=%s" % (prop, dst)); print("  seed %d (%s): %s: %s" % (sd, fl, kind, a[1][kind][:600])); rc = 1; nviol += 1
    worlds = sorted({p[0][0] for p in profiles}); faults = {k[6:]: {"injected": ctr[k], "runs": rw.get(k, 0)} for k in sorted(ctr) if k.startswith("fault.")}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(time.time() - t0, 2), "violations": nviol,
          "coverage": {"evaluations": tot["runs"], "distinct_nontrivial": len(hashes), "rule": RULE, "samples": samples,
                       "runs_per_hour_one_seed_each": int(tot["runs"] * 3600 / max(search_s, 0.001)), "simulated_seconds": round(tot["sim_ns"] / 1e9, 3),
                       "events": tot["events"], "simulated_system_calls": tot["syscalls"], "faults": faults, "probes": {k: ctr[k] for k in sorted(ctr) if not k.startswith("fault.")},
                       "profiles": per, "violation_kinds_claimed": kinds, "other_kinds_seen": other, "determinism": det, "build_s": round(build_s, 1), "search_s": round(search_s, 1),
                       "components_real": sorted({x for w in worlds for x in REAL[w]}), "components_stub": sorted({x for w in worlds for x in STUB[w]})},
          "assumptions": ["the simulated kernel behaves as Linux does for the calls made", "a clean batch is evidence, not proof: seeds are sampled"]}
    tmp = os.path.join(evid, prop + ".json.tmp"); json.dump(ev, open(tmp, "w"), indent=1); os.replace(tmp, os.path.join(evid, prop + ".json"))
    print("%s %s: %d runs, %d distinct event logs, %.0f simulated s, %d fault kinds, %.1f s%s" % (prop, tier, tot["runs"], len(hashes), tot["sim_ns"] / 1e9, len(faults), time.time() - t0, " (other: %s)" % list(other)[:3] if other else ""))
    return rc

if __name__ == "__main__":
    sys.exit(main())
