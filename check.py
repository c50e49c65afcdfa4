#!/usr/bin/env python3
"""check.py <property> <quick|thorough>: decides one property by model checking /repo's working tree.

Builds the harnesses of the property from /repo, explores, writes evidence/<property>.json.
Exit 0: held on everything explored.  Exit 1 with a VIOLATION line: broken.  Exit 2: no answer.
"""
import glob, hashlib, json, os, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
NW = int(os.environ.get("VERIF_JOBS") or os.cpu_count() or 4)
CXX = "clang++"
T_FLAGS = "-std=c++17 -O1 -g -fsanitize=thread -w -mllvm -tsan-instrument-func-entry-exit=0".split()
S_FLAGS = "-std=c++17 -O1 -g -fsanitize=address,undefined -fno-sanitize-recover=all -w".split()
P_FLAGS = "-std=c++17 -O2 -g -fno-stack-protector -U_FORTIFY_SOURCE -w".split()

# binary -> (engine, repo-dependent sources, own sources, extra flags)
BINS = {
    "conc":     ("T", ["conc/harness.cpp"], ["conc/oracle.cpp", "conc/programs.cpp", "engine/mc_rt.cpp"], []),
    "concv":    ("T", ["conc/harness.cpp"], ["conc/oracle.cpp", "conc/programs.cpp", "engine/mc_rt.cpp"], ["-DRESULT_VOID"]),
    "cow":      ("T", ["conc/cow.cpp"], ["engine/mc_rt.cpp"], []),
    "world":    ("S", ["seq/world.cpp"], ["seq/rt.cpp"], []),
    "large":    ("S", ["seq/large.cpp"], ["seq/rt.cpp"], []),
    "combine":  ("S", ["seq/combine.cpp"], ["seq/rt.cpp"], []),
    "callables": ("S", ["seq/callables.cpp"], ["seq/rt.cpp"], []),
    "optional": ("S", ["seq/optional.cpp"], ["seq/rt.cpp"], []),
    "cowseq":   ("S", ["seq/cowseq.cpp"], ["seq/rt.cpp"], []),
}
for _n in range(6): BINS["invoke%d" % _n] = ("S", ["seq/invoke.cpp"], ["seq/rt.cpp"], ["-DPART=%d" % _n])
for _n in range(6): BINS["args%d" % _n] = ("S", ["seq/args.cpp"], ["seq/rt.cpp"], ["-DPART=%d" % _n])
# the same harnesses compiled as other versions of the language (skipped if the headers do not support it)
for _n in list(BINS):
    if BINS[_n][0] == "S":
        for _v in ("11", "20"): BINS[_n + "_" + _v] = BINS[_n][:3] + (BINS[_n][3] + ["-std=c++" + _v],)
# property -> list of (binary, suite); optional dict of options
PARTS = {
    "C01": [("world", "C01"), ("large", "C01")],
    "C02": [("world", "C02"), ("large", "C02")],
    "C03": [("combine", "C03"), ("large", "C03"), ("combine_11", "C03")],
    "C04": [("args%d" % n, "C04") for n in range(6)],
    "C05": [("conc", "C05"), ("concv", "C05"), ("world", "C05"), ("large", "C05")],
    "C06": [("conc", "C06"), ("concv", "C06")],
    "C07": [("conc", "C07"), ("concv", "C07")],
    "C08": [("conc", "C08"), ("concv", "C08"), ("world", "C08"), ("large", "C08")],
    "C09": [("conc", "C09"), ("concv", "C09")],
    "C10": [("conc", "C10"), ("concv", "C10"), ("world", "C10")],
    "C11": [("conc", "C11"), ("concv", "C11"), ("world", "C11"), ("large", "C11")],
    "C12": [("conc", "C12"), ("concv", "C12"), ("world", "C12")],
    "C13": [("conc", "C13"), ("concv", "C13"), ("world", "C13"), ("large", "C13")],
    "C14": [("callables", "C14"), ("large", "C14"), ("callables_11", "C14")],
    "C15": [("conc", "C15"), ("concv", "C15"), ("world", "C15"), ("large", "C15")],
    "C16": [("world", "C16")],
    "C17": [("callables", "C17")],
    "C18": [("invoke%d" % n, "C18") for n in range(6)] + [("invoke%d_20" % n, "C18") for n in range(6)],
    "C19": [("cow", "C19"), ("cowseq", "C19"), ("cowseq_11", "C19")],
    "C20": [("optional", "C20"), ("optional_20", "C20")],
    "C21": [("optional", "C21"), ("optional_20", "C21")],
}
THOROUGH = {"C17": [("callables_11", "C17"), ("callables_20", "C17")], "C14": [("callables_20", "C14")], "C03": [("combine_20", "C03")], "C01": [("world_20", "C01")], "C16": [("world_11", "C16")]}
T_ASSUME = [
    "stateless exploration of the real headers: every scheduling of the atomic, mutex and call-boundary events is covered up to Mazurkiewicz equivalence (source-set DPOR with sleep sets), for the enumerated programs only",
    "values of atomic loads are sequentially consistent; memory orders are honoured by the race detector",
    "moving a signal concurrently with other uses of it is outside the property",
]
S_ASSUME = [
    "all histories over the stated alphabets up to the stated depth, each executed from scratch on the real headers (ASan + UBSan) in lock step with a reference model",
    "one thread; a lock taken again by its holder is reported as a deadlock",
]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def digest(paths, flags):
    h = hashlib.sha256(" ".join(flags).encode())
    for p in sorted(paths):
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:24]


def build_own(src, flags):
    """objects that do not depend on /repo: cached by content"""
    dep = [os.path.join(HERE, src)] + glob.glob(os.path.join(HERE, "*", "*.h"))
    d = os.path.join(BUILD, "obj"); os.makedirs(d, exist_ok=True)
    out = os.path.join(d, os.path.basename(src) + "." + digest(dep, flags) + ".o")
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([CXX] + flags + ["-c", os.path.join(HERE, src), "-o", tmp])
        if r.returncode: return None, r.stdout
        os.replace(tmp, out)
    return out, ""


class ApiBroken(Exception): pass
class NoAnswer(Exception): pass


def start_build(name, d):
    eng, dep, own, extra = BINS[name]
    flags = (T_FLAGS if eng == "T" else S_FLAGS) + extra
    jobs = []
    for s in dep:
        o = os.path.join(d, name + "." + os.path.basename(s) + ".o"); log = o + ".log"
        jobs.append((s, o, log, subprocess.Popen([CXX] + flags + ["-I" + REPO, "-c", os.path.join(HERE, s), "-o", o], stdout=open(log, "w"), stderr=subprocess.STDOUT)))
    return jobs


def end_build(name, d, jobs):
    eng, dep, own, extra = BINS[name]
    objs, libs = [], []
    for s, o, log, p in jobs:
        if p.wait():
            t = os.path.join(d, "trivial.cpp")
            open(t, "w").write('#include "signals.hpp"\nint main() { sig::signal<int(int)> s; auto c = s.connect([](int v) { return v; }); return *s(3) - 3 + c.disconnect() - 1; }\n')
            r = sh([CXX, "-std=c++17", "-w", "-I" + REPO, t, "-o", t + ".out", "-pthread"])
            if r.returncode:
                open(t, "w").write('#include "signals.hpp"\nint main() { return 0; }\n')
                r = sh([CXX, "-std=c++17", "-w", "-I" + REPO, t, "-o", t + ".out", "-pthread"])
                if r.returncode: raise NoAnswer("the headers of %s do not compile:\n%s" % (REPO, r.stdout))
            raise ApiBroken(log)
        objs.append(o)
    for s in own:
        o, err = build_own(s, P_FLAGS if eng == "T" else S_FLAGS)
        if not o: raise NoAnswer("cannot build %s:\n%s" % (s, err))
        libs.append(o)
    out = os.path.join(d, name)
    r = sh([CXX] + (["-rdynamic"] if eng == "T" else ["-fsanitize=address,undefined", "-pthread"]) + objs + libs + ["-o", out])
    if r.returncode: raise NoAnswer("cannot link %s:\n%s" % (name, r.stdout))
    return out


class Result:
    def __init__(self):
        self.states = self.transitions = self.traces = self.programs = 0
        self.incomplete = []; self.samples = []; self.detail = []; self.assume = []
        self.violation = None            # (text, binary, args)
        self.warnings = []
        self.extra = {}


def run_T(binp, name, suite, tier, cap, secs, d, res):
    out = os.path.join(d, "out." + name + "." + suite); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    t0 = time.time()
    r = sh([binp, "run", suite, tier, str(NW), str(cap), str(secs), out])
    n = None
    for l in r.stdout.splitlines():
        if l.startswith("ALL programs"): n = int(l.split()[2])
    P, vio, skipped, capped = {}, {}, 0, []
    msgs = {}
    for f in sorted(glob.glob(out + "/w*.txt")):
        for l in open(f, errors="replace"):
            w = l.split()
            if not w: continue
            if w[0] == "P":
                P[int(w[1])] = dict(zip(w[2::2], map(int, w[3::2])))
            elif w[0] == "V": vio[int(w[1])] = w[2:]
            elif w[0] == "M": msgs[int(w[1])] = l.split(None, 2)[2].strip()
            elif w[0] == "UNSTABLE": res.warnings.append("program %s of %s: not reproduced: %s" % (w[1], suite, " ".join(w[2:])))
            elif w[0] == "SKIPPED": skipped += 1
    crash = [l for l in r.stdout.splitlines() if l.startswith("WORKER")]
    for l in crash:
        idx = int(l.split()[-1])
        if idx < 0: raise NoAnswer("a worker of %s/%s failed outside of a program: %s" % (name, suite, l))
        q = sh([binp, "one", suite, tier, str(idx), str(cap)])
        if q.returncode not in (0, 2):
            res.violation = res.violation or ("program %d: the explored program ended the process (%s)\n%s" % (idx, l, q.stdout[-2000:]), binp, ["one", suite, tier, str(idx), str(cap)])
        else: res.warnings.append("worker failure not reproduced: " + l)
    for i in sorted(vio):
        a = ["replay", suite, tier, str(i)] + vio[i]
        q = sh([binp] + a)
        if q.returncode == 0: res.warnings.append("program %d: violation not reproduced in a fresh process: %s" % (i, msgs.get(i)))
        else: res.violation = res.violation or (msgs.get(i, "?"), binp, a)
    if n is None: raise NoAnswer("no answer from %s %s:\n%s" % (name, suite, r.stdout[-2000:]))
    missing = n - len(P)
    capped = [i for i in P if not P[i]["complete"]]
    if not res.violation:
        if missing or skipped: res.incomplete.append("%s %s: %d of %d programs not reached in the time limit" % (name, suite, missing, n))
        if capped: res.incomplete.append("%s %s: %d of %d programs explored up to %d executions only" % (name, suite, len(capped), n, cap))
    ex = sum(p["exec"] for p in P.values())
    res.states += sum(p["states"] for p in P.values()); res.transitions += sum(p["trans"] for p in P.values()); res.traces += ex; res.programs += len(P)
    res.detail.append({"engine": "T (all interleavings)", "harness": name, "suite": suite, "programs": len(P), "programs_enumerated": n, "programs_explored_completely": len(P) - len(capped),
                       "executions": ex, "sleep_set_blocked": sum(p["blocked"] for p in P.values()), "visible_operations": sum(p["trans"] for p in P.values()),
                       "plain_accesses_race_checked": sum(p["acc"] for p in P.values()), "distinct_histories": sum(p["hist"] for p in P.values()), "longest_execution": max([p["len"] for p in P.values()] or [0]), "wall_s": round(time.time() - t0, 2)})
    lst = sh([binp, "list", suite, tier]).stdout.splitlines()
    for i in (n // 5, n // 2, n - 1):
        if 0 <= i < len(lst) and i in P: res.samples.append("program %s -> %d executions, %d distinct histories" % (lst[i], P[i]["exec"], P[i]["hist"]))
    for a in T_ASSUME:
        if a not in res.assume: res.assume.append(a)


def run_S(binp, name, suite, tier, secs, d, res):
    out = os.path.join(d, "out." + name + "." + suite); shutil.rmtree(out, ignore_errors=True); os.makedirs(out)
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:quarantine_size_mb=16", UBSAN_OPTIONS="print_stacktrace=1:exitcode=78")
    t0 = time.time()
    r = sh([binp, "run", suite, tier, str(NW), str(secs), out], env=env)
    st = None; v = None; msg = ""; k = 0
    for l in r.stdout.splitlines():
        if l.startswith("STATS"):
            w = l.split(); st = dict(zip(w[1::2], map(int, w[2::2])))
        elif l.startswith("V") and (l == "V" or l[1] == " ") and v is None: v = l.split()[1:]
        elif l.startswith("M ") and not msg: msg = l[2:]
        elif l.startswith("SAMPLE ") and k < 2: k += 1; res.samples.append("%s %s: %s" % (name, suite, l[7:700]))
    if st is None: raise NoAnswer("no answer from %s %s:\n%s" % (name, suite, r.stdout[-3000:]))
    if v is not None:
        a = ["replay", suite, tier] + v
        q = sh([binp] + a, env=env)
        if q.returncode == 0: raise NoAnswer("%s %s: violation not reproduced: %s (choices %s)" % (name, suite, msg, " ".join(v)))
        if "ERROR: AddressSanitizer" in q.stdout or "runtime error:" in q.stdout:
            for l in q.stdout.splitlines():
                if "ERROR: AddressSanitizer" in l or "runtime error:" in l: msg += " -- " + l.strip(); break
        res.violation = res.violation or (msg, binp, a)
    elif not st["complete"]: res.incomplete.append("%s %s: %d of %d parts of the space explored in the time limit" % (name, suite, st["done"], st["tasks"]))
    res.states += st["nodes"]; res.transitions += st["ops"]; res.traces += st["exec"]
    res.detail.append({"engine": "S (all histories)", "harness": name, "suite": suite, "histories_executed": st["exec"], "operations_executed": st["ops"], "choice_tree_nodes": st["nodes"], "longest_choice_vector": st["maxlen"], "wall_s": round(time.time() - t0, 2)})
    for a in S_ASSUME:
        if a not in res.assume: res.assume.append(a)


def main():
    if len(sys.argv) != 3 or sys.argv[1] not in PARTS or sys.argv[2] not in ("quick", "thorough"):
        print(__doc__); return 2
    pid, tier = sys.argv[1:]
    t0 = time.time()
    d = os.path.join(BUILD, pid + "." + tier); shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    res = Result()
    try:
        parts = PARTS[pid] + (THOROUGH.get(pid, []) if tier == "thorough" else [])
        names = []
        for b, s in parts:
            if b not in names: names.append(b)
        jobs = {b: start_build(b, d) for b in names}
        api = None; bins = {}
        for b in names:
            try: bins[b] = end_build(b, d, jobs[b])
            except ApiBroken as e:
                if "-std=" in " ".join(BINS[b][3]): res.incomplete.append("%s: does not compile as %s" % (b, BINS[b][3][-1]))
                else: api = api or str(e)
            except NoAnswer:
                if "-std=" not in " ".join(BINS[b][3]): raise
                res.incomplete.append("%s: does not compile as %s" % (b, BINS[b][3][-1]))
        if api: res.violation = ("the public interface used by the harness no longer compiles", None, api)
        else:
            budget = 780 if tier == "quick" else 6 * 3600
            for b, s in parts:
                if b not in bins: continue
                left = max(30, budget - (time.time() - t0))
                if BINS[b][0] == "T": run_T(bins[b], b, s, tier, 400000 if tier == "quick" else 20000000, left, d, res)
                else: run_S(bins[b], b, s, tier, left, d, res)
                if res.violation: break
    except NoAnswer as e:
        print("NO ANSWER: %s" % e); return 2
    wall = time.time() - t0
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": res.states, "transitions": res.transitions, "traces_validated_against_impl": res.traces, "samples": res.samples or ["(none)"],
                       "exhaustive": not res.incomplete and not res.violation, "programs": res.programs, "parts": res.detail, "not_covered": res.incomplete,
                       "explanation": "states: nodes of the exploration trees; transitions: visible operations (T) or library operations (S) executed; traces: executions of the real code, each compared with the reference model / history oracle"},
          "assumptions": res.assume, "wall_s": round(wall, 2), "violations": 1 if res.violation else 0}
    if res.warnings: ev["coverage"]["warnings"] = res.warnings
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f: json.dump(ev, f, indent=1)
    for w in res.warnings: print("warning: " + w)
    for w in res.incomplete: print("not covered: " + w)
    if res.violation:
        text, binp, args = res.violation
        rp = os.path.join(HERE, "evidence", "%s.replay.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s\nviolation: %s\n" % (pid, text))
            if binp is None: f.write(open(args, errors="replace").read()[:20000])
            else:
                f.write("replay command (after this check has built it): %s %s\n\n" % (binp, " ".join(args)))
                q = sh([binp] + args); f.write(q.stdout[:60000])
        print("violation: " + text.splitlines()[0])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    print("%s %s: held on %d executions (%d states, %d transitions) in %.1f s%s" % (pid, tier, res.traces, res.states, res.transitions, wall, "" if not res.incomplete else " (with the exceptions above)"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
