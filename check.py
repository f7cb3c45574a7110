#!/usr/bin/env python3
"""check.py PROPERTY: decides the property for /repo's working tree (VERIF_TIER, VERIF_SEED).
check.py --replay FILE: runs a recorded counterexample natively again."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time

import build
import jobs as J

HERE = build.HERE
KNOWN = HERE + "/known-findings.txt"
LIMIT = dict(quick=420, thorough=7200)
WORKERS = 8


class Runner:
    def __init__(self, deadline):
        self.deadline = deadline
        self.stop = threading.Event()
        self.live = set()
        self.lock = threading.Lock()

    def job(self, j, seed):
        left = self.deadline - time.time()
        if self.stop.is_set() or left < 3:
            return dict(job=j, status="skipped")
        if not build.possible(j.prof, j.params):
            return dict(job=j, status="no access to private functions")
        cap = max(2, min(j.cap, left - 2))
        cmd = [build.SYMX, f"{build.OUT}/{j.prof}.ll", "--entry", j.entry, "--params", ",".join(map(str, j.params)),
               "--max-time", str(cap), "--samples", "3", "--seed", str(seed)] + j.opts
        p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
        with self.lock:
            self.live.add(p)
        try:
            out, err = p.communicate(timeout=cap + 90)
        except subprocess.TimeoutExpired:
            p.kill()
            p.communicate()
            return dict(job=j, status="timeout")
        finally:
            with self.lock:
                self.live.discard(p)
        if self.stop.is_set() and p.returncode != 0:
            return dict(job=j, status="skipped")
        for line in out.splitlines():
            if line.startswith("{"):
                try:
                    r = json.loads(line)
                except ValueError:
                    break
                r.update(job=j, status="done", seed=seed)
                return r
        return dict(job=j, status="error", text=(err or "")[-1500:])

    def kill(self):
        self.stop.set()
        with self.lock:
            for p in self.live:
                try:
                    p.kill()
                except OSError:
                    pass


def threaded(j):
    return j.entry == "h_timer" or j.params[8] > 1 or j.params[10] > 0


def abstract(j):
    """With free floating point arguments exp and powi are any functions: what the native run
    does not show is no counterexample, and the job is undecided."""
    return j.entry == "h_formula" and j.params[2] == 0


def native(j, model, sched, seed, tool=(), timeout=30, lib=None):
    """(exit code or None for a timeout, what it printed)"""
    lib = lib or (build.instrumented(j.prof) if threaded(j) else f"{build.OUT}/{j.prof}.so")
    d = tempfile.mkdtemp(prefix="symrt")
    try:
        with open(d + "/model", "w") as f:
            for k, v in model.items():
                f.write(f"{k} {v}\n")
        os.mkdir(d + "/cwd")
        cmd = list(tool) + [build.SYMRT, lib, j.entry, ",".join(map(str, j.params)), d + "/model",
                            ",".join(f"{p}:{t}" for p, t in sched) or "-", str(seed)]
        if j.prof in build.CLI:
            cmd += ["."] * 40
        try:
            r = subprocess.run(cmd, cwd=d + "/cwd", stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                               errors="replace", text=True)
            return r.returncode, r.stdout
        except subprocess.TimeoutExpired as e:
            return None, (e.stdout or b"").decode(errors="replace") if isinstance(e.stdout, bytes) else ""
    finally:
        shutil.rmtree(d, ignore_errors=True)


def reproduce(j, v, seed):
    """Does the real code, run natively on the counterexample, do it too?"""
    kind = v["kind"]
    if kind == "memory":
        c, out = native(j, v["model"], v["sched"], seed,
                        tool=["valgrind", "-q", "--error-exitcode=99", "--exit-on-first-error=yes"], timeout=120)
        return c == 99 or (c is not None and c < 0), f"exit {c}\n{out[-3000:]}"
    c, out = native(j, v["model"], v["sched"], seed)
    if kind.startswith("assert:"):
        ok = c == 42 and f"ASSERT {kind[7:]}\n" in out + "\n"
    elif kind in ("panic", "abort"):
        ok = c is not None and c in (-signal.SIGABRT, -signal.SIGILL, -signal.SIGSEGV)
    elif kind == "deadlock":
        ok = c == 44
    elif kind == "exit":
        ok = c == 46
    elif kind == "nontermination":
        ok = c is None
    else:
        ok = False
    return ok, f"exit {c}\n{out[-3000:]}"


def known(prop):
    r = []
    try:
        with open(KNOWN) as f:
            for line in f:
                m = re.match(r"known: property=(\S+) job=\[(.*?)\] kind=(\S+) (.*)", line)
                if m and m[1] == prop:
                    r.append((m[2], m[3], m[4]))
    except OSError:
        pass
    return r


def record(prop, j, v, text, seed):
    d = HERE + "/evidence/replay"
    os.makedirs(d, exist_ok=True)
    x = dict(property=prop, entry=j.entry, profile=j.prof, params=j.params, kind=v["kind"], msg=v["msg"],
             model=v["model"], sched=v["sched"], trace=v["trace"], seed=seed, native=text)
    h = hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:10]
    p = f"{d}/{prop}-{h}.json"
    with open(p, "w") as f:
        json.dump(x, f, indent=1)
    return p


def validate(samples, limit):
    """the executor's paths against native runs: the same observations"""
    good, bad = 0, []

    def one(x):
        j, s, seed = x
        c, out = native(j, s["model"], s["sched"], seed)
        got = [[int(a), int(b)] for a, b in re.findall(r"^OUT (\d+) (\d+)$", out, re.M)]
        return c == 0 and got == s["obs"], (j.text(), s, c, out[-500:])

    with cf.ThreadPoolExecutor(WORKERS) as ex:
        for ok, what in ex.map(one, samples[:limit]):
            if ok:
                good += 1
            else:
                bad.append(what)
    return good, bad


def main(prop):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    js = J.jobs(prop, tier, seed)
    try:
        build.build(sorted({j.prof for j in js}))
    except build.BuildError as e:
        print(f"build failed: {e}")
        return 2
    tb = time.time()
    run = Runner(tb + LIMIT[tier])
    found, unconfirmed, results, knowns = [], [], [], []
    kf = known(prop)
    lock = threading.Lock()
    with cf.ThreadPoolExecutor(WORKERS) as ex:
        todo = [ex.submit(run.job, j, 1 + seed) for j in js]
        for f in cf.as_completed(todo):
            r = f.result()
            results.append(r)
            if r["status"] != "done" or found:
                continue
            for v in r["violations"]:
                j = r["job"]
                ok, text = reproduce(j, v, r["seed"])
                if not ok and abstract(j):
                    r["complete"] = False
                    continue
                if not ok:
                    unconfirmed.append((j, v, text))
                    continue
                k = [x for x in kf if x[0] == j.text() and x[1] == v["kind"]]
                if k:
                    knowns.append(k[0][2])
                    continue
                with lock:
                    found.append((j, v, record(prop, j, v, text, r["seed"])))
                run.kill()
                break
    ds = [r for r in results if r["status"] == "done"]
    bad = []
    validated = 0
    if not found:
        ss = []
        for k in range(3):
            for r in ds:
                if len(r["samples"]) > k:
                    ss.append((r["job"], r["samples"][k], r["seed"]))
        validated, bad = validate(ss, 60 if tier == "quick" else 600)
    add = lambda k: sum(r[k] for r in ds)
    reach = sum(sum(r["reach"].values()) for r in ds)
    ids = {}
    for r in ds:
        for a, n in r["asserts_by"].items():
            k = f"{r['entry']}:{a}"
            ids[k] = ids.get(k, 0) + n
    uns = {}
    for r in ds:
        for a, n in r["unsupported"].items():
            uns[a] = uns.get(a, 0) + n
    fns = sorted({x for r in ds for x in r["functions"]})
    repo_fns = [x for x in fns if re.search(r"mbqc_scheduling::|^<?(wrapper|bench)::(?!.*verif::)", x)]
    complete = [r for r in ds if r["complete"]]
    ev = dict(
        property=prop, tier=tier, seed=seed, level="model_checking",
        coverage=dict(
            states=add("forks") + len(ds), transitions=add("instr"), traces_validated_against_impl=validated,
            samples=[dict(job=r["job"].text(), paths=r["paths"], example=r["samples"][0] if r["samples"] else None)
                     for r in ds[:6]],
            states_are="symbolic states created (branches taken both ways), transitions the LLVM instructions executed",
            jobs=len(js), jobs_complete=len(complete),
            jobs_incomplete=[r["job"].text() for r in ds if not r["complete"]],
            jobs_not_run=[f"{r['job'].text()}: {r['status']} {r.get('text', '')[-300:]}" for r in results if r["status"] != "done"],
            job_list=[f"{r['job'].text()}: {r['paths']} paths, {r['wall_s']} s" for r in ds],
            paths=add("paths"), merged=add("merges"), assertions_by_id=ids, reached=reach,
            solver_queries=add("queries"), solver_sat=add("sat"), solver_unsat=add("unsat"), solver_unknown=add("unknown"),
            diagram_sat=add("dd_sat"), diagram_unsat=add("dd_unsat"), solver_seconds=round(sum(r["solver_s"] for r in ds), 3),
            engine_seconds=round(sum(r["wall_s"] for r in ds), 1), build_seconds=round(tb - t0, 1),
            functions_of_the_repository=repo_fns, functions_in_all=len(fns),
            unsupported=uns, unconfirmed=[dict(job=j.text(), kind=v["kind"], msg=v["msg"], native=t[-300:]) for j, v, t in unconfirmed],
            mismatches=[dict(job=b[0], exit=b[2], out=b[3]) for b in bad],
            exhaustive=len(complete) == len(js) and not found,
        ),
        assumptions=assumptions(prop),
        wall_s=round(time.time() - t0, 1), violations=len(found))
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(f"{HERE}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    for k in sorted(set(knowns)):
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop}: {len(complete)} of {len(js)} jobs complete, {add('paths')} paths, {add('queries')} solver queries, "
          f"{validated} paths compared natively, {time.time() - t0:.1f} s")
    if found:
        for j, v, p in found:
            print(f"  {j.text()}: {v['kind']} {v['msg']}")
            print(f"VIOLATION property={prop} replay={p}")
        return 1
    if unconfirmed or bad:
        for j, v, t in unconfirmed[:5]:
            print(f"not reproduced natively: {j.text()} {v['kind']} {v['msg']}\n{t[-600:]}")
        for b in bad[:5]:
            print(f"executor and native run differ: {b}")
        return 2
    if reach == 0 and not knowns:
        print("nothing was reached")
        return 2
    return 0


def assumptions(prop):
    a = ["the bounds of the jobs listed (sizes, shapes, forms, preemptions)",
         "rustc, LLVM's optimiser, Z3 and the executor (its paths are compared with native runs)"]
    if prop == "C21":
        return a + ["Python, pyo3 and the macros of pauli_tracker_pyo3 are replaced by stand-ins (shim/)",
                    "the library behind interface::run is replaced by one that keeps its arguments and gives any answer"]
    if prop == "C22":
        return a + ["averages are over 3 problems instead of 3000 (cfg mbqc_verif)",
                    "the library behind interface::run is replaced by one that keeps its arguments and gives chosen answers",
                    "times are those of a model clock"]
    return a + ["one thread runs at a time and is switched only at locks and one- or eight-byte atomics",
                "the scoped thread pool is replaced by a stand-in that keeps the order of its jobs",
                "the update interval of the threads is 3 instead of 1000 (cfg mbqc_verif)",
                "rand_pcg is replaced by a stand-in with the same code, whose Pcg64 gives any numbers where the job says so"]


def again(path):
    with open(path) as f:
        x = json.load(f)
    build.build([x["profile"]])
    j = J.Job(x["entry"], x["profile"], x["params"], [], 0)
    ok, text = reproduce(j, x, x["seed"])
    print(text)
    print("reproduced" if ok else "not reproduced")
    return 1 if ok else 0


if __name__ == "__main__":
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(again(sys.argv[2]))
    sys.exit(main(sys.argv[1]))
