"""Shared machinery of the checks: building the encodings from /repo, running jobs in parallel, replaying
counterexamples on the compiled code, evidence."""
import json
import multiprocessing.connection
import os
import random
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get("GRISU_REPO", "/repo")
sys.path.insert(0, os.path.join(ROOT, "engine"))
sys.path.insert(0, HERE)

import ir          # noqa: E402
import symex       # noqa: E402
import solver      # noqa: E402
import numeric     # noqa: E402

CORES = min(8, os.cpu_count() or 1)

MODES = {"ne": "nearest_to_even", "no": "nearest_to_odd", "npi": "nearest_toward_plus_infinity",
         "nmi": "nearest_toward_minus_infinity", "ntz": "nearest_toward_zero", "naz": "nearest_away_from_zero",
         "nes": "nearest_to_even_static_boundary", "nos": "nearest_to_odd_static_boundary",
         "npis": "nearest_toward_plus_infinity_static_boundary",
         "nmis": "nearest_toward_minus_infinity_static_boundary",
         "tpi": "toward_plus_infinity", "tmi": "toward_minus_infinity", "tz": "toward_zero", "az": "away_from_zero"}
CRS = {"even": "tie_to_even", "odd": "tie_to_odd", "up": "tie_to_up", "down": "tie_to_down", "dnc": "do_not_care"}
NEAREST = ("ne", "no", "npi", "nmi", "ntz", "naz")
DIRECTED = ("tpi", "tmi", "tz", "az")
FTYPE = {"d": ("double", "std::uint64_t"), "f": ("float", "std::uint32_t")}

PRELUDE = """#include <utility>
#include <cstdint>
#include <cstring>
#include <string>
#include <type_traits>
#include <limits>
#include <bitset>
#include <cstddef>
#include <cassert>
"""

MSVC = """#undef __GNUC__
#undef __SIZEOF_INT128__
#undef __x86_64__
#define _MSC_VER 1928
#define _M_X64 100
"""


def fname(fmt, mode, cr, kind=""):
    return "%s_%s_%s%s" % (fmt, mode, cr, kind)


def numeric_fn(fmt, mode, cr, kind="", f=None):
    """source of a harness function; kind: '' plain, 'u' unsigned result, 'i' with the ignoring case handler"""
    F, B = FTYPE[fmt]
    g = "jkj::grisu_exact<%s>(x, jkj::grisu_exact_rounding_modes::%s{}, jkj::grisu_exact_correct_rounding::%s{}%s)" % (
        "false" if kind == "u" else "true", MODES[mode], CRS[cr],
        ", jkj::grisu_exact_case_handlers::ignore_special_cases{}" if kind == "i" else "")
    return """extern "C" void %s(%s bits, std::uint64_t* r) {
  %s x; std::memcpy(&x, &bits, sizeof(x));
  auto v = %s;
  r[0] = v.significand;
  std::int32_t e = v.exponent; std::memcpy(r + 1, &e, 4);
  std::uint32_t s = %s; std::memcpy(r + 2, &s, 4);
}
""" % (f or fname(fmt, mode, cr, kind), B, F, g, "0" if kind == "u" else "v.is_negative")


class BuildError(Exception):
    pass


class Work:
    """scratch directory of one run of a check"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="grisu_check_")
        self.n = 0

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def write(self, name, text):
        p = os.path.join(self.dir, name)
        with open(p, "w") as f:
            f.write(text)
        return p

    def sh(self, cmd, timeout=300, env=None):
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env)

    def ir_text(self, body, variant="x64", extra=()):
        """LLVM IR of a harness that includes /repo's sources, unoptimised up to promotion of locals to registers"""
        self.n += 1
        base = "h%d_%s" % (self.n, variant)
        src = PRELUDE
        flags = ["-std=c++17", "-I" + REPO, ]
        if variant == "msvc":
            src += '#include "fake_intrin.h"\n' + MSVC
            flags += ["-Wno-builtin-macro-redefined", "-I" + os.path.join(ROOT, "engine", "inc", "msvc")]
        elif variant == "gcc":
            src += "#undef __clang__\n"
        elif variant == "i386":
            flags.append("-m32")
        elif variant == "ndebug":
            flags.append("-DNDEBUG")
        flags += list(extra)
        cpp = self.write(base + ".cpp", src + body)
        ll = os.path.join(self.dir, base + ".ll")
        r = self.sh(["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-fno-exceptions", "-w", "-S", "-emit-llvm"]
                    + flags + [cpp, "-o", ll])
        if r.returncode:
            raise BuildError("harness does not compile (%s): %s" % (variant, r.stderr.decode()[:1500]))
        r = self.sh(["opt", "-S", "-passes=function(mem2reg)", ll, "-o", ll + "2"])
        if r.returncode:
            raise BuildError("opt: " + r.stderr.decode()[:800])
        with open(ll + "2") as f:
            return f.read()

    def module(self, body, variant="x64", extra=()):
        return ir.parse(self.ir_text(body, variant, extra))

    def exe(self, body, flags=("-O2",), cxx="g++"):
        self.n += 1
        cpp = self.write("x%d.cpp" % self.n, PRELUDE + "#include <cstdio>\n#include <cstdlib>\n" + body)
        out = os.path.join(self.dir, "x%d" % self.n)
        r = self.sh([cxx, "-std=c++17", "-w", "-I" + REPO] + list(flags) + [cpp, "-o", out])
        if r.returncode:
            raise BuildError("replay program does not compile: " + r.stderr.decode()[:1500])
        return out


GRISU_H = '#include "grisu_exact.h"\n'

REPLAY_MAIN = """
int main(int argc, char** argv) {
  unsigned long long b = std::strtoull(argv[2], nullptr, 0);
  std::uint64_t r[3] = {0, 0, 0};
  std::string f = argv[1];
%s
  std::int32_t e; std::memcpy(&e, r + 1, 4);
  std::uint32_t s; std::memcpy(&s, r + 2, 4);
  std::printf("%%llu %%d %%u\\n", (unsigned long long)r[0], (int)e, (unsigned)s);
}
"""


def died(work, cmd):
    """run cmd: its result, or a string that says how it died"""
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", UBSAN_OPTIONS="print_stacktrace=0")
    try:
        r = work.sh(cmd, timeout=10, env=env)
    except subprocess.TimeoutExpired:
        return "no answer within 10 s"
    if r.returncode:
        return "exit %d: %s" % (r.returncode, r.stderr.decode(errors="replace")[:300])
    return r


class Replayer:
    """compiled harness functions, run on concrete inputs"""

    def __init__(self, work, fns, flags=("-O2",), cxx="g++", pre=""):
        # fns: {name: source}
        body = pre + GRISU_H + "".join(fns.values())
        body += REPLAY_MAIN % "\n".join('  if (f == "%s") %s(b, r);' % (n, n) for n in fns)
        self.work = work
        self.path = work.exe(body, flags, cxx)

    def run(self, name, bits):
        """(N, X, neg), or a string that says how it died"""
        r = died(self.work, [self.path, name, str(bits)])
        return r if type(r) is str else tuple(int(x) for x in r.stdout.split())


def bits_of(fmt, E, m, s):
    F = numeric.FMT[fmt]
    return m | E << F["p"] | s << (F["p"] + F["eb"])


# ------------------------------------------------------------------------------ parallel jobs
_task_fn = None


class Deadline(Exception):
    pass


def _child(task):
    t = time.time()
    s0 = dict(solver.STATS)
    solver.STATS["max_query"] = 0.0
    try:
        r = _task_fn(task)
    except Exception as ex:     # an input the encoding cannot take: reported as undecided
        r = {"error": "%s: %s" % (type(ex).__name__, str(ex)[:300]), "trace": traceback.format_exc()[-600:]}
    r["task"] = task
    r["secs"] = time.time() - t
    r["stats"] = {k: solver.STATS[k] - s0.get(k, 0) for k in s0 if k != "max_query"}
    r["max_query"] = solver.STATS["max_query"]
    return r


def _worker(conn, others):
    for c in others:
        c.close()
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        try:
            t = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        if t is None:
            os._exit(0)
        r = _child(t[0])
        try:
            conn.send(r)
        except OSError:
            os._exit(0)
        except Exception as ex:
            conn.send({"error": "result: %s" % ex, "task": t[0], "secs": 0.0, "stats": {}, "max_query": 0.0})


class _Proc:
    """a forked worker.  Forks happen in the main thread only, never while a subprocess is being started, so that no
    worker inherits the pipe subprocess waits on"""

    def __init__(self, others):
        self.conn, child = multiprocessing.Pipe()
        self.task, self.done = None, 0
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                _worker(child, [o.conn for o in others] + [self.conn])
            finally:
                os._exit(1)
        child.close()

    def give(self, task):
        self.task = task
        self.conn.send((task,))

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass
        self.conn.close()


def run_jobs(fn, tasks, deadline, stop=None, cores=None):
    """run fn(task) for every task in parallel until the deadline; returns (results, number of tasks not reached)"""
    global _task_fn
    _task_fn = fn
    out, tasks = [], list(tasks)
    todo = list(reversed(tasks))
    procs, halt = [], False
    try:
        while not halt and (todo or any(p.task is not None for p in procs)):
            left = deadline - time.time()
            if left <= 0:
                break
            while todo and len(procs) < (cores or CORES):
                p = _Proc(procs)
                procs.append(p)
                p.give(todo.pop())
            ready = multiprocessing.connection.wait([p.conn for p in procs], timeout=left)
            for p in [p for p in procs if p.conn in ready]:
                try:
                    r = p.conn.recv()
                except (EOFError, OSError):     # the worker was ended (memory, a crash of the solver)
                    r = {"error": "the worker process died", "task": p.task, "secs": 0.0, "stats": {}, "max_query": 0.0}
                    p.done = 1 << 30
                p.task = None
                p.done += 1
                out.append(r)
                if p.done >= 40 or not todo:
                    procs.remove(p)
                    p.kill()
                else:
                    p.give(todo.pop())
                if stop is not None and stop(r):
                    halt = True
                    break
    finally:
        for p in procs:
            p.kill()
    return out, len(tasks) - len(out)


def run_twice(fn, tasks, chk, on_result, cfg, again_s=30):
    """run_jobs, then once more, with longer limits, the tasks that came back undecided; on_result(r) folds a result in
    and says whether to stop"""
    held, found = {}, []

    def first(r):
        if not r.get("viol") and ("error" in r or r.get("unknown")) and not chk.thorough:
            held[r["task"]] = r
            return False
        found.append(on_result(r))
        return found[-1]
    res, missed = run_jobs(fn, tasks, chk.deadline, first)
    if not any(found) and held:
        old = dict(cfg)
        cfg.update(timeout_ms=8 * cfg["timeout_ms"], task_s=4 * cfg["task_s"])

        def second(r):
            held.pop(r["task"], None)
            found.append(on_result(r))
            return found[-1]
        run_jobs(fn, list(held), min(time.time() + again_s, max(chk.deadline, time.time() + 20)), second)
        cfg.update(old)
    for r in held.values():
        on_result(r)
    return res, missed


# ------------------------------------------------------------------------------ one run of a check
def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f)["findings"]
    return []


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        try:
            self.seed = int(os.environ.get("VERIF_SEED", "1"))
        except ValueError:
            self.seed = 1
        self.rnd = random.Random(self.seed * 7919 + sum(map(ord, pid)))
        self.t0 = time.time()
        self.thorough = self.tier == "thorough"
        self.deadline = self.t0 + (6 * 3600 if self.thorough else 600)
        self.work = Work()
        self.violations = []
        self.known = []
        self.unconfirmed = []
        self.undecided = []
        self.cov = {"functions": set(), "queries": 0, "sat": 0, "unsat": 0, "unknown_pruning": 0, "solver_s": 0.0,
                    "lemmas": 0, "max_query_s": 0.0, "paths": 0, "obligations": 0, "discharged": 0}
        self.by_query = {}
        self.samples = []
        self.assumptions = []
        self.notes = []
        self.bounds = {}
        self.slices = 0
        self.validated = 0

    def left(self):
        return self.deadline - time.time()

    # -------------------------------------------------------------- bookkeeping
    def account(self, r):
        """fold one job result into the evidence"""
        st = r.get("stats")
        c = self.cov
        if st:
            c["queries"] += st["queries"] + st["lemmas"]
            c["sat"] += st["sat"]
            c["unsat"] += st["unsat"]
            c["unknown_pruning"] += st["unknown"]
            c["solver_s"] += st["time"] + st["lemma_time"]
            c["lemmas"] += st["lemmas"]
            c["max_query_s"] = max(c["max_query_s"], r.get("max_query", 0))
        c["paths"] += r.get("paths", 0)
        for k, v in r.get("counts", {}).items():
            self.by_query[k] = self.by_query.get(k, 0) + v
            c["obligations"] += v
        if "error" in r:
            self.undecided.append({"task": repr(r.get("task")), "why": r["error"]})
        else:
            self.slices += 1
        for u in r.get("unknown", ()):
            self.undecided.append({"task": repr(r.get("task")), "why": "solver gave up: %r" % (u,)})
        c["functions"].update(r.get("used", ()))
        c["discharged"] += sum(r.get("counts", {}).values()) - len(r.get("unknown", ())) - len(r.get("viol", ()))
        if len(self.samples) < 6 and r.get("sample"):
            self.samples.append(r["sample"])

    def report(self, what, inp, detail):
        """a confirmed violation; inp identifies the failing input (JSON object)"""
        for k in known_findings():
            if k.get("property") == self.pid and k.get("status", "open") == "open" and \
                    all(inp.get(a) == b for a, b in k.get("match", {}).items()):
                if k["id"] not in self.known:
                    self.known.append(k["id"])
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]), flush=True)
                return
        d = os.path.join(ROOT, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%d.json" % (self.pid, len(self.violations) + 1))
        with open(p, "w") as f:
            json.dump({"property": self.pid, "broken": what, "input": inp, "detail": detail}, f, indent=1)
        self.violations.append(p)
        print("VIOLATION property=%s replay=%s" % (self.pid, os.path.relpath(p, ROOT)), flush=True)
        print("  %s: %s" % (what, json.dumps(detail)[:600]), flush=True)

    def finish(self):
        c = dict(self.cov)
        fns = sorted(c.pop("functions"))
        names = self.demangle(fns)
        c["solver_s"] = round(c["solver_s"], 2)
        c["max_query_s"] = round(c["max_query_s"], 3)
        cov = {
            "states": c["paths"], "transitions": c["queries"],
            "traces_validated_against_impl": self.validated,
            "samples": self.samples or ["(none)"],
            "meaning": "states: symbolic paths explored to their end; transitions: solver queries discharged while "
                       "exploring and checking them; traces_validated_against_impl: concrete inputs on which the "
                       "encoding's result was compared with the compiled code's",
            "slices_decided": self.slices,
            "functions_encoded": len(names), "functions": names[:80],
            "bounds": self.bounds, "notes": self.notes,
            "assertion_queries": self.by_query,
            "obligations_checked": c["obligations"], "obligations_discharged": c["discharged"],
            "solver": {"queries": c["queries"], "sat": c["sat"], "unsat": c["unsat"],
                       "gave_up_while_pruning_or_asking": c["unknown_pruning"], "lemmas": c["lemmas"],
                       "seconds": c["solver_s"], "slowest_query_s": c["max_query_s"]},
            "undecided": self.undecided[:40], "undecided_count": len(self.undecided),
            "unconfirmed_counterexamples": self.unconfirmed[:10],
        }
        if self.level == "proof":
            cov.update({"obligations": c["obligations"], "discharged": c["discharged"]})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        d = os.path.join(ROOT, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        self.work.close()
        decided = c["discharged"] > 0
        print("%s %s: %d slices, %d paths, %d obligations (%d discharged, %d undecided), %d queries, %.1f s solver, "
              "%.1f s wall, %d violations" % (self.pid, self.tier, self.slices, c["paths"], c["obligations"],
                                              c["discharged"], len(self.undecided), c["queries"], c["solver_s"],
                                              time.time() - self.t0, len(self.violations)), flush=True)
        for u in self.undecided[:5]:
            print("  undecided:", json.dumps(u)[:300])
        for u in self.unconfirmed[:5]:
            print("  unconfirmed:", json.dumps(u)[:300])
        if self.violations:
            return 1
        if not decided:
            print("nothing could be decided", flush=True)
            return 2
        return 0

    def demangle(self, fns):
        if not fns:
            return []
        try:
            r = subprocess.run(["c++filt"], input="\n".join(f.lstrip("@") for f in fns).encode(),
                               stdout=subprocess.PIPE, timeout=20)
            return [x[:160] for x in r.stdout.decode().split("\n")]
        except Exception:
            return fns
