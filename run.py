"""Check of one property: python3-vt run.py ID [--thorough] [--jobs N]

The obligations of the functions under contract are generated from the current source of
/repo and discharged; the executable form of the property is run on the real code.  Exit 0
when every obligation is discharged and no run fails, 1 with a VIOLATION line otherwise."""

import argparse
import importlib
import json
import os
import pickle
import re
import select
import signal
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

import registry  # noqa: E402
from pycv.prove import TimeUp  # noqa: E402

PY = next((p for p in ("/opt/venv/bin/python", sys.executable) if os.path.exists(p)), sys.executable)
REPO = os.environ.get("VERIF_REPO", "/repo")
STATE = os.path.join(HERE, ".state")


def contracts():
    """Every contract that stands for a function at its call sites."""
    from pycv.contract import Contract

    out = {}
    for f in sorted(os.listdir(os.path.join(HERE, "contracts"))):
        if f.endswith(".py") and not f.startswith("_"):
            m = importlib.import_module("contracts." + f[:-3])
            for v in vars(m).values():
                if isinstance(v, type) and issubclass(v, Contract) and v.qual and v.call:
                    out[v.qual] = v()
    return out


def units(prop):
    """[(label, module, class, configuration)] of a property."""
    out = []
    for mod, names in prop["units"]:
        m = importlib.import_module("contracts." + mod)
        for n in names:
            con = getattr(m, n)()
            for c in con.configs():
                out.append((f"{mod}.{n}[{c}]", mod, n, c))
    return out


# what loop invariants say about values is discharged with the property of the values
VALUES = re.compile(r"/(entry|preserve|final):.*(element|value)")


def do_unit(u, known, scale, procs, cross, only=None):
    """Obligations of one unit, generated and discharged (in this process)."""
    from pycv import prove
    from pycv.contract import Lemma, verify, verify_lemma
    from pycv.interp import Program

    label, mod, name, conf = u
    con = getattr(importlib.import_module("contracts." + mod), name)()
    setup = con.configs()[conf]
    prog = Program()
    if isinstance(con, Lemma):
        r = verify_lemma(con, conf, setup, prog, known)
    else:
        r = verify(con, conf, setup, prog, known)
    gen = r.secs
    others = 0
    if only and r.error is None and not isinstance(con, Lemma):
        # the obligations of the property, and those they rest on
        others = len(r.obligations)
        r.obligations = [o for o in r.obligations if re.search(only, o.name) or not o.post and not VALUES.search(o.name)]
    if r.error is None:
        # a unit with failures is not taken to its end
        limit = 0 if only else 6
        whole = prove.discharge(r.obligations, procs=procs, cross=cross, limit=limit)
        while whole and any(o.status != "proved" for o in r.obligations):
            # once more with more time; those left out only if these are proved then
            prove.SCALE[0] = scale
            again = [o for o in r.obligations if o.status not in ("proved", "skipped")]
            if not again:
                again = [o for o in r.obligations if o.status == "skipped"]
            first = [o.status for o in again]
            for o in again:
                o.status = None
            whole = prove.discharge(again, procs=procs, cross=cross, limit=limit)
            for o, st in zip(again, first):
                o.status = o.status or st
            if any(o.status not in ("proved", "skipped") for o in again):
                break
        if not whole:
            # out of time: what a solver refuted counts
            for o in r.obligations:
                if o.status not in ("proved", "failed"):
                    o.status = "skipped"
            if only or not any(o.status == "failed" for o in r.obligations):
                r.error = "no verdict in the time allowed"
    if only and r.error is None and not isinstance(con, Lemma):
        rest = [o for o in r.obligations if not re.search(only, o.name)]
        r.obligations = [o for o in r.obligations if re.search(only, o.name)]
        broken = [o for o in rest if o.status != "proved"]
        if broken:
            r.error = f"rests on an obligation of another property that is not discharged ({broken[0].name})"
    return {
        "unit": label,
        "function": con.name if isinstance(con, Lemma) else con.qual,
        "error": r.error,
        "others": others,
        "cover": r.cover,
        "paths": r.paths,
        "gen": gen,
        "assumed": dict(r.assumed),
        "inlined": sorted(r.inlined),
        "contracts": sorted(r.contracts),
        "obligations": [(o.name, o.status, o.backend, o.secs, o.model, str(o.goal)[:600], o.smt) for o in r.obligations],
    }


def time_up(*a):
    signal.signal(signal.SIGTERM, signal.SIG_IGN)
    raise TimeUp()


class Pool:
    """Units in forked processes, each with its own process group."""

    def __init__(self, todo, jobs, deadline, known, scale, cross, only=None):
        self.todo, self.jobs, self.deadline = list(todo), jobs, deadline
        self.known, self.scale, self.cross, self.only = known, scale, cross, only
        self.live, self.results = {}, []

    def start(self, u):
        r, w = os.pipe()
        procs = max(3, min(8, self.jobs // max(1, min(self.jobs, len(self.todo) + len(self.live) + 1))))
        pid = os.fork()
        if pid == 0:
            os.setpgid(0, 0)
            os.close(r)
            signal.signal(signal.SIGTERM, time_up)
            try:
                out = do_unit(u, self.known, self.scale, procs, self.cross, self.only)
            except TimeUp:
                out = empty(u, "no verdict in the time allowed")
            except BaseException as ex:  # noqa
                out = {"unit": u[0], "function": u[2], "error": f"not translated ({type(ex).__name__}: {ex})", "others": 0, "obligations": [], "cover": False,
                       "paths": 0, "gen": 0.0, "assumed": {}, "inlined": [], "contracts": []}
            with os.fdopen(w, "wb") as f:
                f.write(pickle.dumps(out))
            os._exit(0)
        os.close(w)
        self.live[r] = (pid, u, [])

    def kill(self, pid):
        for s in (os.killpg, os.kill):
            try:
                s(pid, signal.SIGKILL)
            except OSError:
                pass

    def run(self, failing=lambda: False):
        """failing(): a failing input of the real code is known; the rest gets two minutes."""
        checked = asked = False
        while self.todo or self.live:
            if not checked and failing():
                checked, self.deadline = True, min(self.deadline, time.time() + 120)
            if checked and any(o[1] == "failed" for r in self.results for o in r["obligations"]):
                # a failing input and a failed obligation are known
                self.deadline = min(self.deadline, time.time() + 15)
            while self.todo and len(self.live) < self.jobs and time.time() < self.deadline:
                self.start(self.todo.pop(0))
            left = self.deadline - time.time()
            if left <= 0 and not asked:
                asked = True
                for pid, u, _ in self.live.values():
                    os.kill(pid, signal.SIGTERM)
            if asked:
                left += 8
            if left <= 0 or asked and not self.live:
                for r, (pid, u, _) in self.live.items():
                    self.kill(pid)
                    os.waitpid(pid, 0)
                    os.close(r)
                    self.results.append(empty(u, "no verdict in the time allowed"))
                for u in self.todo:
                    self.results.append(empty(u, "no verdict in the time allowed"))
                self.live, self.todo = {}, []
                break
            ready, _, _ = select.select(list(self.live), [], [], min(left, 1.0))
            for r in ready:
                data = os.read(r, 1 << 20)
                pid, u, buf = self.live[r]
                if data:
                    buf.append(data)
                    continue
                os.close(r)
                os.waitpid(pid, 0)
                del self.live[r]
                try:
                    self.results.append(pickle.loads(b"".join(buf)))
                except Exception:
                    self.results.append(empty(u, "verifier process ended"))
        return self.results


def empty(u, why):
    return {"unit": u[0], "function": u[2], "error": why, "others": 0, "obligations": [], "cover": False, "paths": 0, "gen": 0.0, "assumed": {}, "inlined": [], "contracts": []}


# ---------------------------------------------------------------- oracle
def oracle_start(pid, files, seed, cases, seconds, hints=""):
    env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    cmd = [PY, "-W", "ignore", os.path.join(HERE, "oracles", "oracle.py"), pid, "--cases", str(cases), "--seconds", str(seconds), "--seed", str(seed), "--files", ",".join(files)]
    if hints:
        cmd += ["--hints", hints]
    return subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=env, cwd="/", start_new_session=True)


def oracle_wait(p, seconds):
    try:
        out, err = p.communicate(timeout=seconds + 40)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return {"cases": 0, "fail": None, "error": "time"}
    try:
        return json.loads(out.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return {"cases": 0, "fail": None, "error": (err or "no answer")[-1500:]}


def known_findings(pid):
    env = dict(os.environ, OMP_NUM_THREADS="1", VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
    fs = {k["id"]: k for k in json.load(open(os.path.join(HERE, "known_findings.json")))["findings"] if k["property"] == pid}
    if not fs:
        return []
    p = subprocess.run([PY, "-W", "ignore", os.path.join(HERE, "oracles", "oracle.py"), pid, "--known"], capture_output=True, text=True, env=env, cwd="/", timeout=120)
    try:
        rows = json.loads(p.stdout.strip().splitlines()[-1])["known"]
    except (ValueError, IndexError):
        return []
    return [(k, fs[k]["fails"], what) for k, what in rows if what]


def hints_of(bad):
    out = []
    for r, o in bad:
        for v in (o[4] or {}).values():
            if re.fullmatch(r"\d{1,4}", v) and 0 < int(v) <= 3000:
                out.append(int(v))
    return ",".join(str(v) for v in sorted(set(out))[:20])


def short(e):
    return re.sub(r"\s+", " ", str(e))[:300]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--jobs", type=int, default=max(1, min(8, os.cpu_count() or 1)))
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    pid, prop = a.id, registry.P[a.id]
    files = prop["files"]
    budget = prop.get("budget", 300)
    quick = prop.get("oracle", (1500, 8))
    cases, secs = (quick[0] * 40, quick[1] * 15) if thorough else quick
    sources = ["diamondback/" + f for f in files]

    # the executable form of the property, on the real code
    first = [oracle_start(pid, sources, seed + i, cases, secs) for i in range(4 if thorough else 1)]

    results, done = [], {}
    if prop["units"]:
        known = contracts()
        todo = sorted(units(prop), key=lambda u: (u[1], u[2]) not in registry.LONG)
        pool = Pool(todo, a.jobs, t0 + (2 * budget if thorough else budget), known, 3.0, thorough, prop.get("only"))

        def failing():
            for i, p in enumerate(first):
                if i not in done and p.poll() is not None:
                    done[i] = oracle_wait(p, 0)
            return any(x.get("fail") for x in done.values())

        results = pool.run(failing)
        order = {u[0]: i for i, u in enumerate(units(prop))}
        results.sort(key=lambda r: order[r["unit"]])
    answers = [done[i] if i in done else oracle_wait(p, secs) for i, p in enumerate(first)]

    failed, outside, obligations, discharged = [], [], 0, 0
    backends, solver, functions, trusted, inlined, per_unit = {}, 0.0, {}, {}, set(), []
    cross, skipped = {}, 0
    for r in results:
        obs = r["obligations"]
        functions.setdefault(r["function"], [0, 0])
        trusted.update(r["assumed"])
        inlined.update(r["inlined"])
        if r["error"] is None and not r["cover"]:
            r["error"] = "no path of the function reaches its end under the precondition"
        if r["error"] is None and not r["obligations"] and not r["others"]:
            r["error"] = "no obligation was generated"
        if r["error"]:
            outside.append((r["unit"], r["error"]))
            per_unit.append({"unit": r["unit"], "not verified": r["error"]})
            continue
        n = 0
        if a.verbose:
            print(r["unit"], round(r["gen"], 1), sorted(((round(o[3], 1), o[0][len(r["unit"]) - 20:], o[2]) for o in obs), reverse=True)[:3])
        for o in obs:
            obligations += 1
            functions[r["function"]][0] += 1
            solver += o[3]
            if o[1] == "proved":
                n += 1
                discharged += 1
                functions[r["function"]][1] += 1
                backends[o[2]] = backends.get(o[2], 0) + 1
            elif o[1] == "skipped":
                skipped += 1
            else:
                failed.append((r, o))
            if o[6]:
                cross[o[6]] = cross.get(o[6], 0) + 1
        per_unit.append({"unit": r["unit"], "obligations": len(obs), "discharged": n, "paths": r["paths"], "generation_s": round(r["gen"], 2)})

    fails = [x["fail"] for x in answers if x.get("fail")]
    ran = sum(x.get("cases", 0) for x in answers)
    stand_in = 0
    searched = False
    if (failed or outside) and not fails:
        # look for a failing input of the real code
        searched = True
        left = max(20, min(120, 780 - (time.time() - t0)))
        h = hints_of(failed)
        more = [oracle_start(pid, sources, seed + 100 + i, 100000, left, h if i % 2 else "") for i in range(a.jobs)]
        more = [oracle_wait(p, left) for p in more]
        stand_in = sum(x.get("cases", 0) for x in more)
        ran += stand_in
        fails = [x["fail"] for x in more if x.get("fail")]
        answers += more
    errors = [x["error"] for x in answers if x.get("error")]
    found = known_findings(pid)

    violations = 0
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    replay = os.path.join("evidence", "replay", f"{pid}.json")
    if os.path.exists(os.path.join(HERE, replay)):
        os.unlink(os.path.join(HERE, replay))
    lines = []
    for k, text, what in found:
        lines.append(f"KNOWN-FINDING: property={pid} {k}: {text} ({what})")
    if fails or failed:
        violations = 1
        rec = {"property": pid, "tree": REPO}
        if failed:
            rec["failed_obligations"] = [
                {"unit": r["unit"], "function": r["function"], "obligation": o[0], "verdict": o[1], "backend": o[2], "seconds": round(o[3], 2), "goal": o[5], "model": o[4]}
                for r, o in failed[:40]
            ]
        if fails:
            f = fails[0]
            rec["failing_input"] = f
            rec["replay"] = f"VERIF_REPO={REPO} {PY} {HERE}/oracles/oracle.py {pid} --seed {f['seed']} --case {f['case']} --files {f['files']}" + (f" --hints {f['hints']}" if f.get("hints") else "")
        json.dump(rec, open(os.path.join(HERE, replay), "w"), indent=1, default=str)
        for r, o in failed[:10]:
            lines.append(f"obligation not discharged: {r['unit']}: {o[0]} ({o[1]})")
        if fails:
            lines.append("failing input: " + short(fails[0]["message"]))
        lines.append(f"VIOLATION property={pid} replay={replay}" + ("" if fails else " no-failing-input-found"))
    for u, e in outside:
        lines.append(f"not verified: {u}: {short(e)}; bounded runs of the real code stand in")

    level = prop["level"] if not outside else "exploration"
    cov = {
        "functions_under_contract": {k: {"obligations": v[0], "discharged": v[1]} for k, v in functions.items()},
        "back_ends": backends,
        "solver_s": round(solver, 1),
        "units": per_unit,
        "inlined_functions": sorted(inlined),
        "bounded_runs_of_the_real_code": ran,
        "runs_rule": "inputs drawn at random with sizes and values from the source constants; each compared with the executable specification; never counted as proved",
        "obligation_filter": prop.get("only", ""),
        "not_verified_units": [f"{u}: {e}" for u, e in outside],
        "not_attempted_after_failures": skipped,
        "second_solver": {"cvc5 " + k: v for k, v in cross.items()},
        "known_findings": [k for k, _, _ in found],
    }
    if results:
        cov.update(
            obligations=obligations,
            discharged=discharged,
            checker_cmd=f"python3-vt run.py {pid}" + (" --thorough" if thorough else ""),
            trusted_base=["the translator pycv (Python syntax tree to logic), z3 and cvc5"] + [f"{k}: {v}" for k, v in sorted(trusted.items())],
        )
    if level == "exploration":
        cov.update(evaluations=ran, distinct_nontrivial=ran - sum(x.get("skipped", 0) for x in answers), rule="drawn by seed; a run whose specification is undefined or not finite is skipped and not counted",
                   samples=[f"oracles/oracle.py {pid} --seed {seed} --case {i}" for i in range(3)])
    ev = {
        "property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": level, "coverage": cov,
        "assumptions": registry.ASSUMPTIONS + prop.get("assumptions", []) + (["executable check: " + e for e in errors]),
        "wall_s": round(time.time() - t0, 2), "violations": violations,
    }
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1, default=str)
    print(f"{pid}: {discharged} of {obligations} obligations discharged in {len(results)} units, {ran} runs of the real code{' (searched)' if searched else ''}, {time.time() - t0:.1f} s")
    for e in errors:
        print("executable check gave no answer:", short(e))
    for line in lines:
        print(line)
    sys.stdout.flush()
    if violations:
        sys.exit(1)
    if results == [] and ran == 0 or errors and not ran:
        print("no answer")
        sys.exit(2)
    sys.exit(0)


if __name__ == "__main__":
    main()
