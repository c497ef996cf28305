#!/usr/bin/env python3
"""X03: the same simulated deployments in builds with different optional features.

  x03.py check quick|thorough     build, search, write evidence
  x03.py replay FILE              reproduce a violation
"""
import hashlib, json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIR = os.path.join(ROOT, "featsim")
TGT = os.path.join(DIR, "target")
ALL = "alloc,strong,partial,serde,zeroize,defaults,spstd,spos"
# (features, profile): every combination of three settings of which two concern aucpace's API occurs
QUICK = [
    ("", "release"), (ALL, "release"), (ALL, "dbg"), ("serde,defaults,spstd,spos", "dbg"), ("alloc,strong,partial,zeroize", "dbg"),
    ("alloc,partial,serde", "release"), ("strong,partial,defaults,spstd,spos", "dbg"), ("strong,serde,zeroize", "release"),
    ("alloc,zeroize,defaults,spstd,spos", "dbg"), ("alloc,strong,spos", "release"), ("partial,zeroize,defaults", "release"),
    ("partial,serde,zeroize,spstd,spos", "dbg"), ("alloc,strong,serde,defaults,spstd", "dbg"),
]
MORE = [
    ("", "dbg"), ("alloc", "release"), ("strong", "release"), ("partial", "dbg"), ("serde", "release"), ("zeroize", "release"), ("zeroize,strong", "dbg"),
    ("alloc,strong,partial", "release"), ("alloc,serde", "dbg"), ("partial,serde", "release"), ("strong,partial,serde,zeroize", "dbg"),
    ("defaults", "release"), ("alloc,strong,partial,serde", "dbg"), ("strong,partial,spos", "release"),
]
MASKS = {1: "crashes", 2: "loss and duplication", 4: "tampering", 8: "stuck random source"}


def name(b):
    return (b[0].replace(",", "-") or "none") + "." + b[1]


def env():
    e = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS"):
        e.pop(k, None)
    return e


def tree_hash():
    h = hashlib.sha256()
    for c in ("aucpace", "spake2", "srp"):
        for d, dirs, files in os.walk(os.path.join("/repo", c)):
            dirs[:] = sorted(x for x in dirs if x != "target")
            for f in sorted(files):
                if f.endswith((".rs", ".toml", ".bin", ".md")):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0" + open(p, "rb").read())
    return h.hexdigest()


def build(builds):
    os.makedirs(os.path.join(TGT, "bin"), exist_ok=True)
    hf = os.path.join(TGT, ".repo-hash")
    th = tree_hash()
    if not os.path.exists(hf) or open(hf).read() != th:
        for p in ("release", "dbg"):
            subprocess.run(["cargo", "clean", "--offline", "--profile", p, "-p", "aucpace", "-p", "spake2", "-p", "srp"], cwd=DIR, env=env(), capture_output=True)

    def lane(profile):
        for b in builds:
            if b[1] != profile:
                continue
            r = subprocess.run(["cargo", "build", "-q", "--offline", "--profile", profile, "--no-default-features", "--features", b[0]], cwd=DIR, env=env(), capture_output=True, text=True)
            if r.returncode:
                return f"build {name(b)} failed:\n{r.stderr[-4000:]}"
            dst = os.path.join(TGT, "bin", name(b))
            shutil.copy2(os.path.join(TGT, profile, "featsim"), dst + ".new")
            os.replace(dst + ".new", dst)
        return None

    with ThreadPoolExecutor(2) as ex:
        errs = [e for e in ex.map(lane, ("release", "dbg")) if e]
    if errs:
        sys.stderr.write("\n".join(errs) + "\n")
        sys.exit(2)
    open(hf, "w").write(th)


def call(b, *args, timeout=150):
    try:
        r = subprocess.run([os.path.join(TGT, "bin", name(b)), *map(str, args)], capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return "hang", "", ""


def own_fault(err):
    """a panic in the harness itself"""
    return "panicked at src/" in err


def parse(out):
    """sessions {(run, sess): (main, wire, idx, adj)}, runs {run: (sim_us, events, sessions, schedule)}, faults"""
    s, r, f = {}, {}, {}
    for l in out.splitlines():
        w = l.split()
        if w[0] == "S":
            s[int(w[1]), int(w[2])] = tuple(w[3:7])
        elif w[0] == "R":
            r[int(w[1])] = (int(w[2]), int(w[3]), int(w[4]), w[5])
        elif w[0] == "F":
            f[w[1]] = f.get(w[1], 0) + int(w[2])
    return s, r, f


def differ(builds, got, k):
    """('behaviour' | 'encoding' | 'wire-index', build, build) for a session, or None"""
    have = [(b, got[b][k]) for b in builds if k in got[b]]
    for (b, x) in have[1:]:
        if x[0] != have[0][1][0]:
            return ("behaviour", have[0][0], b)
    enc = [(b, x) for b, x in have if x[1] != "-"]
    for (b, x) in enc[1:]:
        if x[1] != enc[0][1][1] or x[3] != enc[0][1][3]:
            return ("encoding", enc[0][0], b)
    for (b, x) in enc[1:]:
        if x[2] != enc[0][1][2]:
            return ("wire-index", enc[0][0], b)
    return None


def lines(b, seed, run, sess, mask, wire):
    rc, out, err = call(b, "trace", seed, run, sess, mask)
    t = []
    for l in out.splitlines():
        if l.startswith("wire "):
            if wire == "encoding":
                t.append(l.split(" index=")[0])
            elif wire == "wire-index":
                t.append(l)
        else:
            t.append(l)
    if rc != 0:
        t.append(f"died ({rc}): {err.strip()[-300:]}")
    return t


def known_keys():
    ks = {}
    try:
        for l in open(os.path.join(ROOT, "known-findings.txt")):
            if l.startswith("known:") and "property=X03" in l.split():
                k = [w[4:] for w in l.split() if w.startswith("key=")]
                if k:
                    ks[k[0]] = l.strip()
    except OSError:
        pass
    return ks


def first_diff(a, b):
    for i in range(max(len(a), len(b))):
        x, y = (a[i] if i < len(a) else "(nothing)"), (b[i] if i < len(b) else "(nothing)")
        if x != y:
            return i, x, y
    return None


def violation(cls, seed, run, sess, ba, bb, evals=0):
    mask, wire = 0, cls
    lone = first_diff(lines(ba, seed, run, sess, 0, wire), lines(bb, seed, run, sess, 0, wire)) is not None
    if lone:
        for m in MASKS:  # switch fault kinds off while the difference stays
            if first_diff(lines(ba, seed, run, sess, mask | m, wire), lines(bb, seed, run, sess, mask | m, wire)):
                mask |= m
    ta, tb = lines(ba, seed, run, sess, mask, wire), lines(bb, seed, run, sess, mask, wire)
    d = first_diff(ta, tb) or (0, "", "")
    os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
    p = os.path.join(ROOT, "replays", f"X03-{seed}-{run}.json")
    json.dump({"property": "X03", "class": cls, "verif_seed": seed, "run_index": run, "session": sess, "session_alone_suffices": lone,
               "faults_switched_off": [v for k, v in MASKS.items() if mask & k], "mask": mask, "builds": [list(ba), list(bb)],
               "first_difference": {"line": d[0], name(ba): d[1], name(bb): d[2]}, "trace": {name(ba): ta, name(bb): tb}}, open(p, "w"), indent=1)
    print(f"violation class={cls} (run {run}, session {sess}): builds {name(ba)} and {name(bb)} part at line {d[0]}: {d[1][:200]!r} / {d[2][:200]!r}")
    print(f"VIOLATION property=X03 replay={p}")


def replay(f):
    v = json.load(open(f))
    ba, bb = (tuple(b) for b in v["builds"])
    build([ba, bb])
    seed, run, sess = v["verif_seed"], v["run_index"], v["session"]
    if v["class"] in ("panic", "hang") or not v["session_alone_suffices"]:
        ra, rb = call(ba, "run", seed, run, run + 1), call(bb, "run", seed, run, run + 1)
        bad = ra[0] != 0 or rb[0] != 0 or parse(ra[1])[0].get((run, sess)) != parse(rb[1])[0].get((run, sess))
    else:
        wire = v["class"]
        ta, tb = (lines(b, seed, run, sess, v["mask"], wire) for b in (ba, bb))
        d = first_diff(ta, tb)
        bad = d is not None
        for b, t in ((ba, ta), (bb, tb)):
            print(f"--- {name(b)}")
            print("\n".join(x[:400] for x in t))
    print(f"VIOLATION property=X03 replay={f}" if bad else "no violation reproduced")
    return 1 if bad else 0


def check(tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    builds = QUICK + (MORE if tier == "thorough" else [])
    print(f"featsim property=X03 tier={tier} seed={seed} builds={len(builds)}", flush=True)
    build(builds)
    jobs = os.cpu_count() or 4
    t0 = time.time()
    chunk, total = 250, (3500 if tier == "quick" else 10**9)
    wall = 200 if tier == "quick" else 600
    known, seen_known, found = known_keys(), {}, None
    st = {"runs": 0, "sess": 0, "compared": 0, "events": 0, "us": 0, "faults": {}, "pairs": 0, "nondet": 0, "encoded": 0}
    scheds, digests, samples = set(), set(), []
    at = 0
    full = builds.index((ALL, "release"))
    with ThreadPoolExecutor(jobs) as ex:
        while at < total and time.time() - t0 < wall and not found:
            hi = min(at + chunk, total)
            res = list(ex.map(lambda b: call(b, "run", seed, at, hi), builds))
            again = ex.submit(call, builds[(at // chunk) % len(builds)], "run", seed, at, hi)
            got = {}
            for b, (rc, out, err) in zip(builds, res):
                if rc != 0:
                    if own_fault(err):
                        sys.stderr.write(f"harness panic in {name(b)}: {err[-600:]}\n")
                        return 2
                    # which run is it
                    for run in range(at, hi):
                        rc1, _, err1 = call(b, "run", seed, run, run + 1)
                        if rc1 != 0:
                            cls = "hang" if rc1 == "hang" else "panic"
                            p = os.path.join(ROOT, "replays", f"X03-{seed}-{run}.json")
                            os.makedirs(os.path.dirname(p), exist_ok=True)
                            other = next((o for o, r in zip(builds, res) if r[0] == 0), b)
                            json.dump({"property": "X03", "class": cls, "verif_seed": seed, "run_index": run, "session": 0, "session_alone_suffices": False, "mask": 0,
                                       "builds": [list(b), list(other)], "message": err1.strip()[-600:]}, open(p, "w"), indent=1)
                            print(f"violation class={cls} (run {run}) in build {name(b)}: {err1.strip()[-300:]}")
                            print(f"VIOLATION property=X03 replay={p}")
                            found = cls
                            break
                    if not found:
                        sys.stderr.write(f"{name(b)} ended with {rc}: {err[-600:]}\n")
                        return 2
                    break
                got[b], runs, faults = parse(out)
                if b == builds[full]:
                    st["runs"] += len(runs)
                    st["events"] += sum(r[1] for r in runs.values())
                    st["us"] += sum(r[0] for r in runs.values())
                    scheds.update(r[3] for r in runs.values())
                    for k, v in faults.items():
                        st["faults"][k] = st["faults"].get(k, 0) + v
            if found:
                break
            i = (at // chunk) % len(builds)
            if parse(again.result()[1])[0] != got[builds[i]]:
                st["nondet"] += 1
            keys = sorted(set().union(*got.values()))
            for k in keys:
                have = [b for b in builds if k in got[b]]
                st["sess"] += 1
                st["pairs"] += len(have) - 1
                if len(have) > 1:
                    st["compared"] += 1
                    digests.add(got[have[0]][k][0])
                st["encoded"] += sum(1 for b in have if got[b][k][1] != "-")
                d = differ(builds, got, k)
                if d and d[0] == "wire-index" and "wire-index" in known:
                    seen_known.setdefault("wire-index", f"messages of {name(d[1])} and {name(d[2])} carry different variant indices (first seen: run {k[0]}, session {k[1]})")
                    continue
                if d:
                    violation(d[0], seed, k[0], k[1], d[1], d[2])
                    found = d[0]
                    break
            if at == 0:
                samples = [{"run": r, "session": s, "builds": sum((r, s) in got[b] for b in builds), "digest": got[builds[full]][r, s][0], "first_lines": [l[:160] for l in lines(builds[full], seed, r, s, 0, True)[:4]]} for r, s in keys[:2]]
            at = hi
    for k, m in seen_known.items():
        print(f"KNOWN-FINDING: property=X03 key={k} {m}")
    secs = max(time.time() - t0, 0.001)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    json.dump({
        "property": "X03", "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": st["runs"], "distinct_nontrivial": len(digests),
            "rule": "one evaluation is one simulated deployment (1-7 sessions of the three protocols, shared objects, network and process faults) executed by every build; non-trivial: a session took place in at least two builds and its messages, errors, keys (and encodings) were compared; distinct: by the digest of everything the session did",
            "samples": samples, "seeds_per_hour": int(st["runs"] / secs * 3600),
            "simulated_seconds": st["us"] / 1e6, "events": st["events"],
            "distinct_schedules": len(scheds), "schedule_measure": "hash of the order in which sessions were resumed",
            "faults_fired": st["faults"],
            "probes": {"sessions": st["sess"], "sessions_compared": st["compared"], "session_executions_compared": st["pairs"], "session_executions_with_encodings": st["encoded"]},
            "builds": [name(b) for b in builds], "nondeterministic_reruns": st["nondet"], "known_findings_observed": sorted(seen_known),
            "real_components": ["aucpace", "spake2", "srp", "curve25519-dalek", "sha2", "hkdf", "num-bigint", "serde/bincode (builds with serde)"],
            "stub_components": ["network", "timers", "process lifetimes", "credential database", "random source", "password hasher"],
            "workers": jobs,
        },
        "assumptions": ["sampling: a clean batch is evidence for the explored seeds, not a proof", "feature selections are sampled, not all combined"],
        "wall_s": secs, "violations": 1 if found else 0,
    }, open(os.path.join(ROOT, "evidence", "X03.json"), "w"), indent=1)
    print(f"{st['runs']} runs x {len(builds)} builds, {st['sess']} sessions, {st['pairs']} comparisons, {st['events']} events, {st['us']/1e6:.1f} simulated s, {len(scheds)} distinct schedules, {secs:.1f} s wall")
    return 1 if found else 0


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    sys.exit(check(sys.argv[2] if len(sys.argv) > 2 else "quick"))
