#!/usr/bin/env python3
"""Runs the deterministic-simulation check of one property.

  check.py PROP [--tier quick|thorough] [--seed N]     search; exit 0 / 1 (VIOLATION line) / 2 (error of the check)
  check.py --replay FILE [-v]                          re-executes a replay file against the current tree
"""
import sys, os, json, time, subprocess, hashlib, glob, fcntl, struct, shutil, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
import plans

def tree_hash():
    h = hashlib.sha256()
    files = []
    for d in B.DIRS:
        files += glob.glob(os.path.join(B.REPO, d, "*"))
    files += glob.glob(os.path.join(B.SIM, "*")) + [os.path.join(HERE, "build.py")]
    for f in sorted(files):
        if os.path.isfile(f):
            h.update(f.encode()); h.update(open(f, "rb").read()); h.update(b"\0")
    return h.hexdigest()[:16]

def get_exe():
    base = os.path.join(VERIF, "build")
    os.makedirs(base, exist_ok=True)
    d = os.path.join(base, tree_hash())
    with open(os.path.join(base, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe = os.path.join(d, "simexe")
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True)
            exe = B.build(d)
            open(os.path.join(d, "ok"), "w").write("ok")
            old = sorted((x for x in glob.glob(os.path.join(base, "*")) if os.path.isdir(x)), key=os.path.getmtime)
            for x in old[:-6]:
                if x != d: shutil.rmtree(x, ignore_errors=True)
        return exe

class Runner:
    """Executes replay texts in a helper process that survives until a crash."""
    def __init__(self, exe, tmp):
        self.exe, self.tmp, self.p, self.n = exe, tmp, None, 0
    def run(self, text):
        path = os.path.join(self.tmp, "cand.replay")
        open(path, "w", encoding="utf-8").write(text)
        for attempt in range(2):
            if self.p is None or self.p.poll() is not None:
                self.p = subprocess.Popen([self.exe, "multi"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
            try:
                self.p.stdin.write(path + "\n"); self.p.stdin.flush()
                line = self.p.stdout.readline()
            except (BrokenPipeError, OSError):
                line = ""
            if line.startswith("RESULT"):
                t = line.rstrip("\n").split(" ", 3)
                return t[1], t[2], t[3] if len(t) > 3 else ""
            try: self.p.kill()
            except OSError: pass
            self.p.wait(); self.p = None
        return "died", "0", ""
    def close(self):
        if self.p:
            try: self.p.stdin.close()
            except OSError: pass
            self.p.kill(); self.p.wait(); self.p = None

def fresh_replay(exe, path):
    r = subprocess.run([exe, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace")
    for l in r.stdout.splitlines():
        if l.startswith("RESULT"):
            t = l.split(" ", 3)
            return t[1], t[2], t[3] if len(t) > 3 else ""
    return "died", "0", ""

def ddmin(items, test, deadline):
    n = 2
    while len(items) >= 1 and time.time() < deadline:
        size = max(1, (len(items) + n - 1) // n)
        chunks = [items[i:i + size] for i in range(0, len(items), size)]
        hit = False
        for i in range(len(chunks)):
            if time.time() > deadline: return items
            rest = [x for j, c in enumerate(chunks) if j != i for x in c]
            if test(rest):
                items = rest; n = max(n - 1, 2); hit = True
                break
        if not hit:
            if size == 1: break
            n = min(len(items), n * 2)
    return items

def minimise(exe, text, cls, budget):
    tmp = tempfile.mkdtemp(prefix="simmin", dir=os.path.join(VERIF, "build"))
    R = Runner(exe, tmp)
    deadline = time.time() + budget
    head, cfg, ops, dec = [], [], [], []
    for l in text.splitlines():
        if l.startswith("op "): ops.append(l)
        elif l.startswith("dec "): dec.append(l)
        elif l.startswith("cfg f.") or l.startswith("cfg fbudget"): pass
        elif l.startswith("cfg "): cfg.append(l)
        elif l.split(" ")[0] in ("prop", "scen", "seed"): head.append(l)
    def mk(cfg, ops, dec): return "\n".join(head + cfg + ops + dec) + "\n"
    def bad(c, o, d): return R.run(mk(c, o, d))[0] == cls
    # rates of faults matter to some oracles (they say which faults may occur), keep them if needed
    if not bad(cfg, ops, dec):
        cfg = [l for l in text.splitlines() if l.startswith("cfg ")]
        if not bad(cfg, ops, dec):
            R.close(); shutil.rmtree(tmp, ignore_errors=True); return None
    for rnd in range(3):
        before = (len(ops), len(dec))
        ops = ddmin(ops, lambda o: bad(cfg, o, dec), deadline)
        dec = ddmin(dec, lambda d: bad(cfg, ops, d), deadline)
        if (len(ops), len(dec)) == before or time.time() > deadline: break
    out = mk(cfg, ops, dec)
    R.close(); shutil.rmtree(tmp, ignore_errors=True)
    return out

def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else {"known": [], "fixed": []}

def check(prop, tier, seed):
    t0 = time.time()
    try:
        exe = get_exe()
    except RuntimeError as e:
        print("ERROR: the simulator cannot be built from /repo's tree:\n" + str(e)); return 2
    cfg = plans.plan(prop, tier)
    known = [k for k in load_known()["known"] if k["property"] == prop]
    out = tempfile.mkdtemp(prefix="run", dir=os.path.join(VERIF, "build"))
    W = min(8, os.cpu_count() or 8)
    procs = []
    tb = time.time()
    for w in range(W):
        cmd = [exe, "batch", prop, str(seed), str(w), str(W), str(max(1, cfg["runs"] // W)), str(cfg["cap_s"]), out, str(cfg["det"])]
        cmd += ["known=" + k["class"] for k in known]
        procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace"))
    tot = {"runs": 0, "steps": 0, "sim_us": 0, "switches": 0, "determinism_checked": 0, "fault_runs": 0, "nontrivial": 0, "violations": 0}
    maps = {"faults": {}, "probes": {}, "scenarios": {}, "known": {}}
    samples, err, rcs, digest0, runs0 = [], [], [], None, 0
    knownmsg = {}
    for w, p in enumerate(procs):
        so, se = p.communicate()
        rcs.append(p.returncode)
        got = False
        for l in so.splitlines():
            if l.startswith("BATCH "):
                got = True
                j = json.loads(l[6:])
                for k in tot: tot[k] += j[k]
                for m in maps:
                    for k, v in j[m].items(): maps[m][k] = maps[m].get(k, 0) + v
                if j["sample"]: samples.append(j["sample"])
                knownmsg.update(j["knownmsg"])
                if w == 0: digest0, runs0 = j["digest"], j["runs"]
        if p.returncode not in (0, 1) or not got:
            err.append("worker %d ended with %s: %s" % (w, p.returncode, se[-500:]))
    search_wall = time.time() - tb
    # distinct executions over all workers
    hs = set()
    for f in glob.glob(os.path.join(out, "hashes-*.bin")):
        d = open(f, "rb").read()
        hs.update(struct.unpack("<%dQ" % (len(d) // 8), d))
    raws = sorted(glob.glob(os.path.join(out, "raw-%s-*.replay" % prop)))
    rc = 0
    replay = None
    vmsg = None
    if raws:
        # smallest failing run first
        raws.sort(key=lambda f: os.path.getsize(f))
        ok = False
        for raw in raws:
            text = open(raw, errors="replace").read()
            cls = [l[7:] for l in text.splitlines() if l.startswith("expect ")][0]
            hsh = [l[5:] for l in text.splitlines() if l.startswith("hash ")][0]
            a, b = fresh_replay(exe, raw), fresh_replay(exe, raw)
            if a[:2] != b[:2] or a[0] != cls:
                err.append("violation %s of worker file %s does not reproduce exactly (%s, %s, recorded %s)" % (cls, os.path.basename(raw), a[:2], b[:2], hsh)); continue
            m = minimise(exe, text, cls, cfg.get("min_s", 40))
            if m is None: m = "\n".join(l for l in text.splitlines() if l.split(" ")[0] in ("prop", "scen", "seed", "cfg", "op", "dec")) + "\n"
            rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
            sd = [l[5:] for l in text.splitlines() if l.startswith("seed ")][0]
            path = os.path.join(rd, "%s-%s-%s.replay" % (prop, cls, sd))
            tmpf = path + ".tmp"
            open(tmpf, "w", encoding="utf-8").write(m)
            subprocess.run([exe, "replay", tmpf, "save=" + path], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            os.remove(tmpf)
            a, b = fresh_replay(exe, path), fresh_replay(exe, path)
            if a[0] != cls or a[:2] != b[:2]:
                err.append("minimised replay does not reproduce"); continue
            tr = subprocess.run([exe, "replay", path, "-v"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, errors="replace").stdout
            ln = tr.splitlines(True)
            if len(ln) > 6000: ln = ln[:3000] + ["... %d lines left out; replay with -v for all ...\n" % (len(ln) - 6000)] + ln[-3000:]
            open(path[:-7] + ".trace", "w", encoding="utf-8", errors="replace").write("".join(ln))
            replay, vmsg, ok = path, (cls, a[2], sd), True
            break
        if ok: rc = 1
        else: rc = 2
    if not raws and err: rc = 2
    # cross-process determinism: the first runs again in another process give the same digest
    xdet = None
    if rc == 0 and digest0 and runs0 >= 300:
        r = subprocess.run([exe, "batch", prop, str(seed), "0", str(W), "300", "0", out, "0"] + ["known=" + k["class"] for k in known], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
        for l in r.stdout.splitlines():
            if l.startswith("BATCH "): xdet = json.loads(l[6:])["digest"] == digest0
        if not xdet:
            err.append("the same seeds gave another execution in a second process"); rc = 2
    shutil.rmtree(out, ignore_errors=True)
    wall = time.time() - t0
    real, stub = plans.components(prop)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": tot["runs"], "distinct_nontrivial": len(hs),
            "rule": "One evaluation is one simulated execution: a seed generates a plan of operations per simulated thread, and a seeded scheduler decides every preemption (at each memory access and system call of the real code) and every fault. Counted as distinct by a hash of the complete event log (context switches, call results, faults, simulated time); non-trivial: more than two context switches or at least one fault fired (%d of the runs)." % tot["nontrivial"],
            "samples": samples[:2] or ["(no sample)"],
            "scenarios": maps["scenarios"], "runs_per_hour": int(tot["runs"] / max(search_wall, 0.001) * 3600), "seeds_per_hour": int(tot["runs"] / max(search_wall, 0.001) * 3600),
            "simulated_seconds": round(tot["sim_us"] / 1e6, 3), "preemption_points": tot["steps"], "context_switches": tot["switches"],
            "runs_with_faults": tot["fault_runs"], "faults_fired": maps["faults"], "probes": maps["probes"],
            "distinct_executions_measure": "distinct event-log hashes, at most 400000 kept per worker",
            "determinism": {"runs_repeated_in_process_and_replayed_from_decisions": tot["determinism_checked"], "second_process_digest_equal": xdet},
            "components_real": real, "components_stubbed": stub,
        },
        "assumptions": plans.assumptions(prop), "wall_s": round(wall, 2), "violations": 1 if rc == 1 else 0,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    for k in known:
        if maps["known"].get(k["class"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    print("%s: %d runs (%d distinct), %.0f simulated s, %d faults fired, %.1f s wall" % (prop, tot["runs"], len(hs), tot["sim_us"] / 1e6, sum(maps["faults"].values()), wall))
    if rc == 1:
        print("violation class=%s seed=%s: %s" % (vmsg[0], vmsg[2], vmsg[1]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
    elif rc == 2:
        for e in err: print("ERROR: " + e)
    return rc

def main():
    a = sys.argv[1:]
    if a and a[0] == "--replay":
        exe = get_exe()
        r = subprocess.run([exe, "replay", a[1]] + a[2:])
        return r.returncode
    tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = None
    i = 0
    while i < len(a):
        if a[i] == "--tier": tier = a[i + 1]; i += 2
        elif a[i] == "--seed": seed = int(a[i + 1]); i += 2
        else: prop = a[i]; i += 1
    return check(prop, tier, seed)

if __name__ == "__main__":
    sys.exit(main())
