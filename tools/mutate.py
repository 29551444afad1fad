#!/usr/bin/env python3
"""Mutation campaign used to look for blind spots (not a registered check).

  mutate.py OUTFILE [--files GLOB...] [--max N] [--seed N] [--workers N] [--runs N]

Makes small changes to the sources of /repo in scratch copies under /tmp, rebuilds the simulator and runs the
checks anchored at the changed file with few runs each; writes one JSON line per mutant."""
import sys, os, re, json, random, subprocess, shutil, glob, argparse, fnmatch, concurrent.futures as cf
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B
REPO = "/repo"
SKIPF = {"fast_find_replace", "static_mixed_var", "convert_int", "utf8_util"}

def candidates(path):
    """(line number, new line, description)"""
    src = open(path, encoding="latin-1").read().split("\n")
    out = []
    incom = False
    for i, l in enumerate(src):
        s = l.strip()
        if incom:
            if "*/" in s: incom = False
            continue
        if s.startswith("/*"):
            incom = "*/" not in s; continue
        if not s or s.startswith("//") or s.startswith("#") or s in ("{", "}", "else", "public:", "private:") or s.startswith("template"): continue
        code = l
        def sub(pat, rep, d):
            for m in re.finditer(pat, code):
                out.append((i, code[:m.start()] + m.expand(rep) + code[m.end():], d))
        sub(r"(?<![<>=!&|+\-*/%])==(?!=)", "!=", "== to !=")
        sub(r"!=", "==", "!= to ==")
        sub(r"(?<![<\-])<(?![<=a-zA-Z ]*[>:])(?![<=])", "<=", "< to <=")
        sub(r"(?<![>\-])>(?![>=])(?=\s)", ">=", "> to >=")
        sub(r"<=", "<", "<= to <"); sub(r">=", ">", ">= to >")
        sub(r"&&", "||", "&& to ||"); sub(r"\|\|", "&&", "|| to &&")
        sub(r"\+ 1\b", "+ 0", "+1 to +0"); sub(r"- 1\b", "- 0", "-1 to -0")
        sub(r"\+\+", "--", "++ to --"); sub(r"(?<!-)--(?!-)", "++", "-- to ++")
        sub(r" \+ ", " - ", "+ to -"); sub(r" - ", " + ", "- to +")
        sub(r"\+=", "-=", "+= to -="); sub(r"-=", "+=", "-= to +=")
        sub(r"\btrue\b", "false", "true to false"); sub(r"\bfalse\b", "true", "false to true")
        sub(r"\b0\b(?!x)", "1", "0 to 1")
        sub(r"\bif \((?!.*\bconst\b)", "if (!0 || ", "if always") if False else None
        sub(r"(?<=[(,&| ])!(?=[A-Za-z(*])", "", "drop !")
        m = re.match(r"^(\s*)(if|while) \((.*)\)(\s\s.*|)$", code)
        if m:
            out.append((i, "%s%s (%s)%s" % (m[1], m[2], "!(" + m[3] + ")", m[4]), "negate"))
            out.append((i, "%s%s (%s)%s" % (m[1], m[2], "(" + m[3] + ") && false", m[4]), "never"))
            if m[2] == "if": out.append((i, "%sif ((%s) || true)%s" % (m[1], m[3], m[4]), "always"))
            if m[4].strip(): out.append((i, "%s%s (%s)  {}" % (m[1], m[2], m[3]), "drop body"))
        if s.endswith(";") and not re.match(r"^(const |static |inline |std::|size_t |char |int |bool |void |struct |using |friend |typedef |class |goto |break|case )", s) and "return" not in s.split("(")[0] and not s.startswith("}"):
            out.append((i, l[:len(l) - len(l.lstrip())] + ";", "drop statement"))
        m = re.match(r"^(.*\breturn )(.+);(.*)$", code)
        if m and m[2] not in ("true", "false", "NULL", "0"):
            out.append((i, m[1] + "0;" + m[3], "return 0")) if "(" not in m[2] or True else None
    return src, out

def file_checks():
    r = {}
    for l in open(os.path.join(VERIF, "properties.jsonl")):
        p = json.loads(l)
        if p["id"] == "C30": continue
        for f in p["anchors"]["files"]: r.setdefault(f, []).append(p["id"])
    return r

def sh(cmd): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")

class Worker:
    def __init__(self, n, base):
        self.d = "/tmp/mut/w%d" % n; shutil.rmtree(self.d, ignore_errors=True); os.makedirs(self.d)
        shutil.copytree(REPO, self.d + "/repo", ignore=shutil.ignore_patterns(".git", "_build"))
        self.base = base; self.n = n
    def one(self, rel, i, new, desc, orig, runs, checks):
        p = os.path.join(self.d, "repo", rel)
        lines = list(orig); lines[i] = new
        open(p, "w", encoding="latin-1").write("\n".join(lines))
        out = self.d + "/b"; shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
        res = {"file": rel, "line": i + 1, "op": desc, "old": orig[i].strip(), "new": new.strip()}
        try:
            instr = []
            for d in B.DIRS:
                for f in sorted(glob.glob(os.path.join(self.d, "repo", d, "*.cpp"))):
                    instr.append((f, "r_%s_%s.o" % (d, os.path.basename(f)[:-4])))
            for f in sorted(glob.glob(os.path.join(B.SIM, "glue_*.cpp"))): instr.append((f, os.path.basename(f)[:-4] + ".o"))
            changed = False
            for f, o in instr:
                bo = os.path.join(self.base, o); deps = open(bo[:-2] + ".d").read()
                if rel not in deps: shutil.copy(bo, os.path.join(out, o)); continue
                r = sh([B.CXX] + B.INSTR + ["-g0", "-I", self.d + "/repo", "-I", B.SIM, "-c", f, "-o", os.path.join(out, o)])
                if r.returncode: res["result"] = "no-compile"; return res
                if open(os.path.join(out, o), "rb").read() != open(bo + ".g0", "rb").read(): changed = True
            if not changed: res["result"] = "same-object"; return res
            ld = os.path.join(out, "repo.ld"); comb = os.path.join(out, "a.o"); red = os.path.join(out, "b.o"); exe = os.path.join(out, "simexe")
            shutil.copy(os.path.join(self.base, "repo.ld"), ld)
            for c in (["ld", "-r", "--force-group-allocation", "-T", ld, "-o", comb] + [os.path.join(out, o) for _, o in instr],
                      ["objcopy", "--redefine-syms=" + os.path.join(self.base, "redirect.txt"), comb, red],
                      [B.CXX, "-no-pie", "-pthread", "-o", exe, red] + sorted(glob.glob(self.base + "/s_*.o")) + ["-lrt", "-ldl"]):
                r = sh(c)
                if r.returncode: res["result"] = "no-link"; return res
            rd = os.path.join(out, "run"); os.makedirs(rd)
            for c in checks:
                try: r = subprocess.run([exe, "batch", c, "1", "0", "1", str(runs), "40", rd, "5"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=90)
                except subprocess.TimeoutExpired: res["result"] = "timeout"; res["by"] = c; return res
                if r.returncode == 1: res["result"] = "caught"; res["by"] = c; return res
                if r.returncode not in (0, 1): res["result"] = "error"; res["by"] = c; return res
            res["result"] = "survived"
            return res
        finally:
            open(p, "w", encoding="latin-1").write("\n".join(orig))
            shutil.rmtree(out, ignore_errors=True)

def main():
    ap = argparse.ArgumentParser(); ap.add_argument("out"); ap.add_argument("--files", nargs="*", default=["*"]); ap.add_argument("--max", type=int, default=400)
    ap.add_argument("--seed", type=int, default=1); ap.add_argument("--workers", type=int, default=6); ap.add_argument("--runs", type=int, default=20000); a = ap.parse_args()
    base = "/tmp/mut/base"; shutil.rmtree("/tmp/mut", ignore_errors=True); os.makedirs(base)
    B.build(base)
    allf = [(f, "r_%s_%s.o" % (d, os.path.basename(f)[:-4])) for d in B.DIRS for f in sorted(glob.glob(os.path.join(REPO, d, "*.cpp")))] + [(f, os.path.basename(f)[:-4] + ".o") for f in sorted(glob.glob(os.path.join(B.SIM, "glue_*.cpp")))]
    def prep(t):
        f, o = t
        sh([B.CXX] + B.INSTR + ["-g0", "-I", REPO, "-I", B.SIM, "-c", f, "-o", os.path.join(base, o) + ".g0", "-MD", "-MF", os.path.join(base, o)[:-2] + ".d"])
        d = os.path.join(base, o)[:-2] + ".d"; t = open(d).read()
        # normalise "dir/../dir2/x.h"
        open(d, "w").write(" ".join(os.path.normpath(x) for x in t.replace("\\\n", " ").split()))
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(prep, allf))
    fc = file_checks(); todo = []
    rng = random.Random(a.seed)
    for d in B.DIRS:
        for f in sorted(glob.glob(os.path.join(REPO, d, "*"))):
            rel = os.path.relpath(f, REPO)
            if rel not in fc or not any(fnmatch.fnmatch(rel, g) for g in a.files): continue
            if os.path.splitext(os.path.basename(f))[0].replace("_util", "") in SKIPF and rel not in fc: continue
            src, c = candidates(f)
            c = [x for x in c if x[1] != src[x[0]]]
            todo += [(rel, src) + x for x in c]
    rng.shuffle(todo); todo = todo[:a.max] if a.max else todo
    print(len(todo), "mutants", flush=True)
    import queue, threading
    q = queue.Queue(); [q.put(t) for t in todo]; lock = threading.Lock(); cnt = {}
    fo = open(a.out, "a")
    def loop(n):
        w = Worker(n, base)
        while True:
            try: rel, src, i, new, desc = q.get_nowait()
            except queue.Empty: return
            r = w.one(rel, i, new, desc, src, a.runs, fc[rel])
            with lock:
                cnt[r["result"]] = cnt.get(r["result"], 0) + 1; fo.write(json.dumps(r) + "\n"); fo.flush()
    ts = [threading.Thread(target=loop, args=(n,)) for n in range(a.workers)]; [t.start() for t in ts]; [t.join() for t in ts]
    print(cnt); shutil.rmtree("/tmp/mut", ignore_errors=True)
main()
