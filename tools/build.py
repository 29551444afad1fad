#!/usr/bin/env python3
"""Builds the simulator from /repo's current working tree into a build directory."""
import os, subprocess, sys, glob, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
SIM = os.path.join(VERIF, "sim")
DIRS = ["convert", "security", "sync", "templates", "environment", "utf8", "json"]
CXX = os.environ.get("SIM_CXX", "g++")
INSTR = ["-std=c++0x", "-O1", "-g", "-fsanitize=thread", "-fno-builtin", "-U_FORTIFY_SOURCE", "-fstack-protector-all",
         "-fno-pie", "-fno-common", "-pthread", "-w"]
PLAIN = ["-std=c++17", "-O2", "-g", "-Wall", "-Wextra", "-fno-pie", "-pthread"]

def sh(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if r.returncode:
        raise RuntimeError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))
    return r.stdout

def build(out, jobs=8, quiet=True):
    os.makedirs(out, exist_ok=True)
    instr, plain = [], []
    for d in DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp"))):
            instr.append((f, os.path.join(out, "r_%s_%s.o" % (d, os.path.basename(f)[:-4]))))
    for f in sorted(glob.glob(os.path.join(SIM, "glue_*.cpp"))):
        instr.append((f, os.path.join(out, os.path.basename(f)[:-4] + ".o")))
    for f in sorted(glob.glob(os.path.join(SIM, "*.cpp"))):
        if not os.path.basename(f).startswith("glue_"):
            plain.append((f, os.path.join(out, "s_" + os.path.basename(f)[:-4] + ".o")))
    tasks = [[CXX] + PLAIN + ["-I", SIM, "-c", f, "-o", o] for f, o in plain] + \
            [[CXX] + INSTR + ["-I", REPO, "-I", SIM, "-c", f, "-o", o] for f, o in instr]
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(sh, tasks))
    # combine the code under test, keeping its writable data in sections of their own
    ld = os.path.join(out, "repo.ld")
    open(ld, "w").write("SECTIONS { simdata : { *(.data .data.* .tm_clone_table) } simbss : { *(.bss .bss.* COMMON) } }\n")
    comb = os.path.join(out, "repo_all.o")
    sh(["ld", "-r", "--force-group-allocation", "-T", ld, "-o", comb] + [o for _, o in instr])
    # redirect every call we simulate
    names = set()
    for _, o in plain:
        for l in sh(["nm", o]).splitlines():
            p = l.split()
            if len(p) >= 3 and p[-2] == "T" and p[-1].startswith("sim_"):
                names.add(p[-1][4:])
    names -= {"switch"}
    mp = os.path.join(out, "redirect.txt")
    open(mp, "w").write("".join("%s sim_%s\n" % (n, n) for n in sorted(names)))
    red = os.path.join(out, "repo_red.o")
    sh(["objcopy", "--redefine-syms=" + mp, comb, red])
    exe = os.path.join(out, "simexe")
    sh([CXX, "-no-pie", "-pthread", "-o", exe, red] + [o for _, o in plain] + ["-lrt", "-ldl"])
    und = sorted(set(l.split()[-1] for l in sh(["nm", "-u", red]).splitlines() if l.split()))
    open(os.path.join(out, "undefined.txt"), "w").write("\n".join(und) + "\n")
    return exe

if __name__ == "__main__":
    print(build(sys.argv[1] if len(sys.argv) > 1 else os.path.join(VERIF, "build")))
