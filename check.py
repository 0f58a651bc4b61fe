#!/usr/bin/env python3
"""Solver-based check of one property against /repo's current working tree.

usage: check.py PROPERTY [--tier quick|thorough] [--budget SECONDS] [--only REGEX] [--keep]
       check.py --setup            build the engine
       check.py --replay FILE      run a recorded counterexample against the real code

Steps: build the symbolic executor; compile the property's harnesses together with /repo's crate to
LLVM IR; run every task (entry, parameters) under the executor; replay sampled paths and every
counterexample on a native build of the same harness; write the evidence file.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SYMX = os.path.join(BUILD, "symx", "release", "symx")
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable", CARGO_NET_OFFLINE="true", RUSTFLAGS="", CARGO_TERM_COLOR="never")
CORES = max(1, min(8, os.cpu_count() or 1))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True


def crash(t, v, tb):
    # an error of the check is never reported as a violation (exit 1)
    traceback.print_exception(t, v, tb, file=sys.stdout)
    sys.stdout.flush()
    os._exit(2)


sys.excepthook = crash
import tasks as T  # noqa: E402


class CheckError(Exception):
    pass


def run(cmd, cwd, env=ENV, timeout=600):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return r.returncode, r.stdout.decode(errors="replace")


def build_engine():
    rc, out = run(
        ["cargo", "build", "--release", "--offline"],
        os.path.join(VERIF, "symx"),
        dict(ENV, CARGO_TARGET_DIR=os.path.join(BUILD, "symx")),
    )
    if rc != 0 or not os.path.exists(SYMX):
        raise CheckError("building the engine failed:\n" + out[-3000:])


def tree_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(VERIF, "harness", "src")):
        for d, dirs, files in os.walk(root):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(fh.read() + b"\0")
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness", "Cargo.toml")):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()[:16]


def build_harness(feature):
    """LLVM IR of the harness with the crate linked in, and the native replay binary."""
    tree = os.path.join(BUILD, "tree-" + tree_hash())
    if os.path.isdir(BUILD):
        for n in os.listdir(BUILD):
            if n.startswith("tree-") and os.path.join(BUILD, n) != tree:
                shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
    os.makedirs(tree, exist_ok=True)
    harness = os.path.join(VERIF, "harness")
    ir = os.path.join(tree, feature + ".ll")
    native = os.path.join(tree, "replay-" + feature)

    def do_ir():
        t = os.path.join(tree, "ir")
        rc, out = run(
            ["cargo", "rustc", "--release", "--offline", "--lib", "--crate-type", "cdylib", "--features", feature,
             "--", "--emit=llvm-ir", "-C", "no-vectorize-loops", "-C", "no-vectorize-slp"],
            harness, dict(ENV, CARGO_TARGET_DIR=t))
        src = os.path.join(t, "release", "deps", "harness.ll")
        if rc != 0 or not os.path.exists(src):
            return out
        shutil.copy(src, ir)

    def do_native():
        t = os.path.join(tree, "native")
        rc, out = run(
            ["cargo", "build", "--offline", "--profile", "replay", "--bin", "replay", "--features", "native," + feature],
            harness, dict(ENV, CARGO_TARGET_DIR=t))
        src = os.path.join(t, "replay", "replay")
        if rc != 0 or not os.path.exists(src):
            return out
        shutil.copy(src, native)

    with cf.ThreadPoolExecutor(2) as ex:
        for r in list(ex.map(lambda f: f(), [do_ir, do_native])):
            if r is not None:
                raise CheckError("building the harness failed:\n" + r[-4000:])
    return ir, native


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def native_run(native, records, timeout=60):
    """records: (entry, params, input hex, picks).  One result line per record; a record that kills
    the process gets the status 'signal', one that does not come back 'timeout'."""
    out = []
    i = 0
    while i < len(records):
        text = ""
        for e, ps, inp, picks in records[i:]:
            text += "%s %s %s %s\n" % (e, ",".join(map(str, ps)) or "-", inp or "-", ",".join(map(str, picks)) or "-")
        bad = None
        try:
            p = subprocess.run([native], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                               timeout=timeout, preexec_fn=limit)
            lines = p.stdout.decode(errors="replace").splitlines()
            if len(lines) < len(records) - i:
                bad = "signal"
        except subprocess.TimeoutExpired as x:
            lines = (x.stdout or b"").decode(errors="replace").splitlines()
            bad = "timeout"
        for ln in lines:
            m = re.match(r"(\S+) obs=(\S*) reached=(\S*) detail=(.*)$", ln)
            out.append(dict(status=m.group(1), obs=m.group(2), reached=m.group(3), detail=m.group(4)))
        i = len(out)
        if bad and i < len(records):
            out.append(dict(status=bad, obs="", reached="", detail=""))
            i += 1
    return out


def native_work(native, record, limit_s=150):
    """Instructions that a native run of the record takes beyond those of an empty run, as valgrind
    counts them; None if it does not end."""
    e, ps, inp, picks = record
    line = "%s %s %s %s\n" % (e, ",".join(map(str, ps)) or "-", inp or "-", ",".join(map(str, picks)) or "-")
    n = []
    for text in ("", line):
        try:
            p = subprocess.run(["valgrind", "--tool=cachegrind", "--cache-sim=no", "--cachegrind-out-file=/dev/null", native],
                               input=text.encode(), stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit_s)
        except subprocess.TimeoutExpired:
            return None
        m = re.search(r"I +refs: +([0-9,]+)", p.stderr.decode(errors="replace"))
        if not m:
            raise CheckError("valgrind: " + p.stderr.decode(errors="replace")[-500:])
        n.append(int(m.group(1).replace(",", "")))
    return n[1] - n[0]


ROUNDS = (4, 25)  # seconds for a task in the rounds before the last


class Runner:
    def __init__(self, prop, tier, seed, budget, ir, native, only=None):
        self.spec = T.PROPS[prop]
        self.prop, self.tier, self.seed, self.ir, self.native = prop, tier, seed, ir, native
        self.tasks = [t for t in self.spec["tasks"](tier) if not only or re.search(only, t.name)]
        self.deadline = time.time() + budget
        self.lock = threading.Lock()
        self.stop = False
        self.tmp = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.tmp, exist_ok=True)

    def one(self, n, t, cap=10**6):
        left = self.deadline - time.time()
        if self.stop or (left < 2):
            return dict(task=t, status="not run")
        limit_s = min(left, t.time, cap)
        out = os.path.join(self.tmp, "%d.json" % n)
        cmd = [SYMX, "--ir", self.ir, "--entry", t.entry, "--out", out, "--time", "%.1f" % limit_s,
               "--seed", str(self.seed + n), "--samples", "6", "--audit", "--max-violations", "2",
               "--z3-timeout", str(int(min(limit_s, 120) * 1000))]
        for p in t.params:
            cmd += ["--param", str(p)]
        cmd += t.opts
        t0 = time.time()
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=limit_s + min(60, 3 + limit_s / 2))
            rc, msg = r.returncode, r.stdout.decode(errors="replace")
        except subprocess.TimeoutExpired:
            rc, msg = -99, "engine timeout"
        res = dict(task=t, rc=rc, wall=time.time() - t0)
        if rc in (0, 1, 3) and os.path.exists(out):
            with open(out) as fh:
                res["r"] = json.load(fh)
            os.unlink(out)
            res["status"] = {0: "complete", 1: "violation", 3: "incomplete"}[rc]
            if rc == 3:
                f = res["r"]["failures"]
                res["why"] = "; ".join(list(f)[:2])
                if not all("limit reached" in k or "solver: unknown" in k or "states pending" in k for k in f):
                    res["unsupported"] = True
            if rc == 1:
                self.stop = True
        else:
            res["status"] = "incomplete"
            res["why"] = "engine: rc %s %s" % (rc, msg[-300:].strip())
            res["crashed"] = rc != -99
        return res

    def go(self):
        """The core tasks in rounds with growing time limits, in each those the one before was too short
        for, the cheap ones first and the kinds mixed; then without limit, along with the extensions."""
        def order(x):
            return x[1].cost, hashlib.md5(x[1].name.encode()).digest()

        core = sorted((x for x in enumerate(self.tasks) if x[1].core), key=order)
        ext = [x for x in enumerate(self.tasks) if not x[1].core]
        results = []
        with cf.ThreadPoolExecutor(CORES) as ex:
            for cap in ROUNDS:
                again = []
                for x, r in zip(core, ex.map(lambda x: self.one(*x, cap=cap), core)):
                    if r["status"] == "incomplete" and r["wall"] >= cap * 0.9 and x[1].time > cap:
                        again.append(x)
                    else:
                        results.append(r)
                core = again
            results += ex.map(lambda x: self.one(*x), core + ext)
        shutil.rmtree(self.tmp, ignore_errors=True)
        results = [r for r in results if r]
        assert len(results) == len(self.tasks)
        return results


def known_findings():
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"finding: property=(\S+) entry=(\S+) kind=(\S+) at=(\S+) (.*)$", ln.strip())
            if m:
                out.append(m.groups())
    return out


def main():
    args = sys.argv[1:]
    if args and args[0] == "--setup":
        build_engine()
        return 0
    if args and args[0] == "--replay":
        with open(args[1]) as fh:
            v = json.load(fh)
        _, native = build_harness(T.PROPS[v["property"]]["feature"])
        r = native_run(native, [(v["entry"], v["params"], v["input"], v["picks"])])[0]
        print(json.dumps(dict(expected=v["kind"], got=r), indent=1))
        return 0 if r["status"] == "ok" else 1
    prop = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    budget = None
    only = None
    i = 1
    while i < len(args):
        if args[i] == "--tier":
            i += 1
            tier = args[i]
        elif args[i] == "--budget":
            i += 1
            budget = float(args[i])
        elif args[i] == "--only":
            i += 1
            only = args[i]
        i += 1
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = T.PROPS[prop]
    if budget is None:
        budget = spec.get("budget", {}).get(tier, 210 if tier == "quick" else 3600)
    t0 = time.time()
    ev_path = os.path.join(VERIF, "evidence", prop + ".json")
    os.makedirs(os.path.dirname(ev_path), exist_ok=True)
    if os.path.exists(ev_path):
        os.unlink(ev_path)
    os.makedirs(BUILD, exist_ok=True)
    build_engine()
    ir, native = build_harness(spec["feature"])
    t_build = time.time() - t0
    rn = Runner(prop, tier, seed, budget, ir, native, only)
    results = rn.go()

    # counterexamples: replay on the native build
    errors, notes, shown, known = [], [], [], []
    findings = known_findings()
    rdir = os.path.join(VERIF, "evidence", "replay")
    nviol = 0
    t_replay = time.time()
    for r in results:
        for v in r.get("r", {}).get("violations", []):
            t = r["task"]
            if nviol and time.time() - t_replay > 60:
                notes.append("%s: a counterexample was not replayed: %s at %s" % (t.name, v["kind"], v["at"]))
                continue
            nr = native_run(native, [(t.entry, t.params, v["input"], v["picks"])])[0]
            where = v["at"].split(" (")[0]
            if v["kind"] == "work" and nr["status"] == "ok":
                # the harness and the rest of the run count too; what the limit allows is far above that
                n = native_work(native, (t.entry, t.params, v["input"], v["picks"]))
                if n is None or n > v["work"] // 4:
                    nr = dict(nr, status="work", detail="%s instructions" % n if n else "it does not end")
            if v["kind"].startswith("path step limit") and nr["status"] == "ok":
                # it does end: the path is merely too long to follow
                r["status"] = "incomplete"
                notes.append("%s: a path of %s was not followed to its end" % (t.name, v["input"][:40]))
                continue
            if nr["status"] in ("ok", "assume") or "underflow" in nr["status"]:
                errors.append("counterexample of %s did not reproduce natively: %s at %s (native: %s)"
                              % (t.name, v["kind"], v["at"], nr["status"]))
                continue
            k = [f for f in findings if f[0] == prop and f[1] == t.entry and f[2] == v["kind"].split(" ")[0] + str(v["id"])
                 and where.endswith(f[3])]
            if k:
                known.append(k[0])
                continue
            nviol += 1
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-%d.json" % (prop, nviol))
            with open(path, "w") as fh:
                json.dump(dict(property=prop, entry=t.entry, params=t.params, input=v["input"], picks=v["picks"],
                               kind=v["kind"], check=v["id"], at=v["at"], native=nr,
                               meaning=T.meaning(prop, t.entry, v)), fh, indent=1)
            shown.append("VIOLATION property=%s replay=%s" % (prop, path))
            notes.append("%s: %s, check %s: %s; at %s; natively: %s %s"
                         % (t.name, v["kind"], v["id"], T.meaning(prop, t.entry, v), v["at"][:400], nr["status"], nr["detail"][:300]))

    # sampled paths: the native build must behave as the executor says
    recs, exp = [], []
    for r in results:
        for s in r.get("r", {}).get("samples", []):
            recs.append((r["task"].entry, r["task"].params, s["input"], s["picks"]))
            exp.append((",".join(s["obs"]), ",".join(map(str, s["reached"]))))
    got = native_run(native, recs, 120)
    validated = 0
    for rec, e, g in zip(recs, exp, got):
        if g["status"] == "ok" and g["obs"] == e[0] and g["reached"] == e[1]:
            validated += 1
        elif g["status"] == "timeout":
            notes.append("native run of a sample timed out: %s" % (rec,))
        else:
            errors.append("sampled path of %s %s behaves differently natively: expected %s, got %s; input %s picks %s"
                          % (rec[0], rec[1], e, g, rec[2], rec[3]))

    # vacuity: the cover points of every fully explored entry must have been reached
    done = [r for r in results if r["status"] == "complete"]
    inc = [r for r in results if r["status"] == "incomplete"]
    notrun = [r for r in results if r["status"] == "not run"]
    by_entry = {}
    for r in results:
        if "r" in r:
            d = by_entry.setdefault(r["task"].entry, set())
            d.update(int(k) for k in r["r"]["reach"])
    if not only and not shown:
        for e, need in spec.get("reach", {}).items():
            miss = set(need) - by_entry.get(e, set())
            if miss:
                if any(r["task"].entry == e and r["status"] != "complete" for r in results):
                    notes.append("cover points %s of %s not reached (exploration incomplete)" % (sorted(miss), e))
                else:
                    errors.append("cover points %s of %s are unreachable" % (sorted(miss), e))
    core_bad = [r for r in inc + notrun if r["task"].core]
    n_core = sum(1 for t in rn.tasks if t.core)

    tot = {}
    fns = set()
    for r in results:
        if "r" in r:
            for k, v in r["r"].items():
                if isinstance(v, (int, float)) and not isinstance(v, bool):
                    tot[k] = tot.get(k, 0) + v
            fns.update(r["r"]["source_functions"])
    maxq = max([r["r"]["max_query_s"] for r in results if "r" in r] or [0])
    samples = []
    for r in results:
        if "r" in r and r["r"]["samples"] and len(samples) < 8:
            s = r["r"]["samples"][-1]
            samples.append(dict(task=r["task"].name, input_hex=s["input"], picks=s["picks"], observed=s["obs"]))
    wall = time.time() - t0
    coverage = dict(
        states=tot.get("paths", 0),
        transitions=tot.get("forks", 0),
        traces_validated_against_impl=validated,
        samples=samples,
        explanation="states: symbolic paths (path classes of inputs, each standing for all values of its "
                    "symbolic bytes) that ran to the end; transitions: branch decisions with more than one feasible side. "
                    "Every path's assertions hold for all values of its symbolic inputs.",
        functions_encoded=sorted(fns),
        ir_instructions_executed=tot.get("instructions", 0),
        state_merges=tot.get("merges", 0),
        assertions=tot.get("checks", 0),
        assertions_decided_by_constant_folding=tot.get("checks_const", 0),
        assertions_decided_by_solver=tot.get("checks_solver", 0),
        solver="z3 " + (next((r["r"]["z3"] for r in results if "r" in r), "")),
        solver_queries=tot.get("queries", 0),
        solver_sat=tot.get("sat", 0),
        solver_unsat=tot.get("unsat", 0),
        solver_unknown=tot.get("unknown", 0),
        byte_predicates_confirmed_by_solver=tot.get("audited", 0),
        solver_s=round(tot.get("solver_s", 0), 3),
        max_query_s=maxq,
        bounds=spec["bounds"](tier),
        outside=spec["outside"],
        tasks=len(rn.tasks),
        tasks_complete=len(done),
        tasks_incomplete=[dict(task=r["task"].name, why=r.get("why", "")[:300]) for r in inc],
        tasks_not_run=[r["task"].name for r in notrun],
        exhaustive=not inc and not notrun,
        build_s=round(t_build, 1),
    )
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=coverage,
              assumptions=T.ASSUMPTIONS + spec.get("assumptions", []), wall_s=round(wall, 1), violations=nviol)
    with open(ev_path, "w") as fh:
        json.dump(ev, fh, indent=1)
        fh.write("\n")

    print("%s %s: %d tasks, %d complete, %d incomplete, %d not run; %d paths, %d forks, %d assertions, %d queries "
          "(%.1f s solver), %d samples validated; build %.1f s, total %.1f s"
          % (prop, tier, len(rn.tasks), len(done), len(inc), len(notrun), tot.get("paths", 0), tot.get("forks", 0),
             tot.get("checks", 0), tot.get("queries", 0), tot.get("solver_s", 0), validated, t_build, wall))
    for r in inc:
        print("INCOMPLETE %s: %s" % (r["task"].name, r.get("why", "")[:300]))
    if os.environ.get("VERIF_SLOW"):
        for r in sorted(results, key=lambda r: -r.get("wall", 0))[:int(os.environ["VERIF_SLOW"])]:
            print("slow: %.1f s %s" % (r.get("wall", 0), r["task"].name))
    if notrun:
        print("NOT RUN (time): %s" % ", ".join(r["task"].name for r in notrun[:20]))
    for n in notes:
        print("note: " + n)
    for f in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, f[4]))
    if shown:
        for s in shown:
            print(s)
        return 1
    if errors:
        for e in errors[:5]:
            print("ERROR: " + e)
        if len(errors) > 5:
            print("... and %d more errors" % (len(errors) - 5))
        return 2
    if n_core and len(core_bad) * 4 > n_core * 3:
        print("ERROR: most of the exploration did not complete")
        return 2
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except CheckError as x:
        print("ERROR: %s" % x)
        sys.exit(2)
