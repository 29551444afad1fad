"""Sizes of the searches and descriptions used in the evidence."""
QUICK = {"C11": 100000, "C12": 100000}       # property -> runs (default below)
QUICK.update({p: 1000000 for p in ("C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C13", "C17", "C19", "C20", "C22", "C23", "C25")})
DEF_RUNS = 250000
def plan(prop, tier):
    n = QUICK.get(prop, DEF_RUNS)
    if tier == "thorough":
        return {"runs": n * 40, "cap_s": 780, "det": 200, "min_s": 60}
    return {"runs": n, "cap_s": 150, "det": 100, "min_s": 40}

SYNC = {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10"}
def components(prop):
    real = ["all sources of /repo (convert, security, sync, templates, environment, utf8, json), compiled from the working tree, unmodified"]
    stub = ["pthread mutex/condition variable/thread-specific data (simulated, state kept inside the pthread objects' own memory)",
            "threads and processes (fibers; separate descriptor tables, mappings and global data per simulated process)",
            "clock and sleeping (discrete-event time)", "POSIX shared memory (memfd pages mapped at a different address per simulated process)",
            "file system, random device, environment, dynamic loader (in memory)", "malloc/new (arena with byte-exact bounds checking)"]
    return real, stub
def assumptions(prop):
    return ["sequentially consistent memory (interleavings at the granularity of single loads and stores; no weak-memory effects)",
            "the POSIX (non-Windows, non-Apple) code paths", "search is sampling: absence of a violation is evidence, not proof"]
