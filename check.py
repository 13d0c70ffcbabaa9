#!/opt/venv/bin/python
"""
check.py C01 [--tier quick|thorough]   decide one property
check.py replay FILE                   re-run one recorded counterexample
check.py selftest                      engine self-checks (setup_cmd)
"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import resource
import subprocess
import sys
import time

os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_CORETYPE", "Haswell")
os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
sys.path.insert(0, HERE)
if VT not in sys.path:
    sys.path.append(VT)
REPO = os.environ.get("SYMX_REPO", "/repo")
NPROC = int(os.environ.get("SYMX_NPROC", "8"))


# --------------------------------------------------------------------------
def run_job(conn, module, driver, params, opts, tier):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        from symx import engine
        mod = importlib.import_module("checks." + module)
        t = time.time()
        opts = {k: v for k, v in opts.items() if k != "max_validate"}
        job = engine.Job(getattr(mod, driver), params, tier=tier, **opts)
        job.run()
        st = job.stats
        conn.send(dict(
            ok=True, paths=job.paths, infeasible=job.infeasible,
            transitions=job.transitions, obl=job.obl_total,
            obl_unsat=job.obl_unsat, obl_tol=job.obl_tol,
            candidates=job.candidates, inconclusive=job.inconclusive,
            witnesses=job.witnesses, unwitnessed=job.unwitnessed,
            labels=job.labels, functions=sorted(job.functions),
            outcomes=job.outcomes, queries=st.queries,
            solver_s=st.solver_s, feas=st.feas_queries, unknown=st.unknown,
            branches=st.branches, wall=time.time() - t))
    except BaseException as e:          # noqa
        import traceback
        conn.send(dict(ok=False, error=f"{type(e).__name__}: {e}",
                       tb=traceback.format_exc()))
    finally:
        conn.close()


def reproduced(module, driver, r, known, tier):
    """A candidate of a finished job fails on the real package."""
    items = [dict(driver=driver, wit=w) for c in r["candidates"]
             if c["kind"] not in ("domain", "unsupported")
             and c["label"] not in known
             for w in c["witnesses"][:2]][:16]
    return any(r2["status"] in ("ok", "exception") and
               any(f not in known for f in failing(r2))
               for r2 in concrete(module, items, tier, 120))


def run_jobs(module, jobs, tier, budget, known=()):
    ctx = mp.get_context("spawn")
    todo = list(enumerate(jobs))
    live = {}
    res = [None]*len(jobs)
    t0 = time.time()
    stop = None             # once a violation has been reproduced
    while todo or live:
        if stop is not None and time.time() > stop:
            for p, a, _ in live.values():
                p.kill()
                p.join()
            for i in list(live) + [i for i, _ in todo]:
                res[i] = dict(ok=False, skipped=True, error="not finished: a "
                              "violation was reproduced before")
            break
        while todo and len(live) < NPROC:
            i, (drv, params, opts) = todo.pop(0)
            opts = dict(opts)
            left = budget - (time.time() - t0)
            opts["known"] = list(known)
            opts["time_s"] = min(opts.get("time_s", budget*0.6),
                                 max(10, left - 20))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=run_job,
                            args=(b, module, drv, params, opts, tier))
            p.start()
            b.close()
            live[i] = (p, a, time.time() + opts["time_s"] + 60)
        for i in list(live):
            p, a, dl = live[i]
            if a.poll(0):
                try:
                    res[i] = a.recv()
                except EOFError:
                    res[i] = dict(ok=False, error="worker died")
                p.join()
                del live[i]
                if stop is None and res[i].get("candidates") and \
                        not os.environ.get("SYMX_FULL") and \
                        reproduced(module, jobs[i][0], res[i], known, tier):
                    stop = time.time() + 30
            elif not p.is_alive():
                res[i] = dict(ok=False, error=f"worker died ({p.exitcode})")
                del live[i]
            elif time.time() > dl:
                p.kill()
                p.join()
                res[i] = dict(ok=False, error="worker exceeded its time")
                del live[i]
        time.sleep(0.02)
    return res


def concrete(module, items, tier, timeout=240):
    """Run witness items on the real package; None entries on trouble."""
    if not items:
        return []
    n = min(NPROC, max(1, len(items)//6))
    chunks = [items[k::n] for k in range(n)]
    env = dict(os.environ, PYTHONPATH=HERE, SYMX_REPO=REPO)
    procs = []
    for c in chunks:
        p = subprocess.Popen([sys.executable, "-m", "symx.conc"], cwd=HERE,
                             env=env, stdin=subprocess.PIPE,
                             stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                             text=True)
        procs.append(p)
    import threading
    outs = [None]*n

    def feed(k):
        try:
            o, e = procs[k].communicate(json.dumps(dict(
                module=module, tier=tier, items=chunks[k])), timeout=timeout)
            r = o.rpartition("@@RESULT@@")[2] if "@@RESULT@@" in o else None
            outs[k] = json.loads(r) if r else \
                [dict(status="error", fails=[], observed=[], exc=e[-800:])
                 ]*len(chunks[k])
        except subprocess.TimeoutExpired:
            procs[k].kill()
            outs[k] = [dict(status="error", fails=[], observed=[],
                            exc="replay timed out")]*len(chunks[k])
    th = [threading.Thread(target=feed, args=(k,)) for k in range(n)]
    for t in th:
        t.start()
    for t in th:
        t.join()
    out = [None]*len(items)
    for k in range(n):
        for j, r in enumerate(outs[k]):
            out[k + j*n] = r
    return out


def load_known(prop):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return {}
    with open(p) as f:
        d = json.load(f)
    return {e["label"]: e["what"] for e in d["findings"]
            if e["property"] == prop}


def failing(r, labels=None):
    """Labels that fail in a concrete result."""
    f = [x[0] for x in r["fails"] if labels is None or x[0] in labels]
    if r["status"] == "exception":
        f.append("exception: " + (r["exc"] or ""))
    return f


def write_replay(prop, module, driver, wit, label, n, extra):
    d = os.path.join(HERE, "replays", prop)
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, f"{n}.json")
    with open(p, "w") as f:
        json.dump(dict(property=prop, module=module, driver=driver,
                       label=label, witness=wit, **extra), f, indent=1)
    return p


def decide(prop, tier):
    t0 = time.time()
    module = prop.lower()
    mod = importlib.import_module("checks." + module)
    jobs = mod.jobs(tier)
    jobs = [(j + ({},))[:3] for j in jobs]
    only = os.environ.get("SYMX_ONLY")
    if only:
        jobs = [j for j in jobs if only in repr(j)]
    budget = 620 if tier == "quick" else 3000
    known = load_known(prop)
    res = run_jobs(module, jobs, tier, budget, known)
    problems, truncated = [], []
    items, meta = [], []
    tot = dict(paths=0, transitions=0, obl=0, obl_unsat=0, obl_tol=0,
               queries=0, solver_s=0.0, feas=0, unknown=0, unwitnessed=0,
               infeasible=0)
    labels, functions, outcomes = {}, set(), {}
    for ji, ((drv, params, opts), r) in enumerate(zip(jobs, res)):
        if r is not None and r.get("skipped"):
            continue
        if r is None or not r["ok"]:
            problems.append(f"{drv}{params}: "
                            f"{r['error'] if r else 'no result'}")
            if r and "tb" in r:
                problems.append(r["tb"])
            continue
        for k in tot:
            tot[k] += r[k]
        for k, v in r["labels"].items():
            x = labels.setdefault(k, [0, 0])
            x[0] += v[0]
            x[1] += v[1]
        for k, v in r["outcomes"].items():
            outcomes[k] = outcomes.get(k, 0) + v
        functions |= set(r["functions"])
        for s in r["inconclusive"]:
            # a job cut off by its limits says less, not something else
            (truncated if s.startswith("exploration limit") and
             r["paths"] else problems).append(f"{drv}{params}: {s}")
        if r["paths"] == 0 or (r["obl"] == 0 and not r["candidates"]):
            problems.append(f"{drv}{params}: vacuous (no path or obligation)")
        cap = opts.get("max_validate", 40)
        wl = r["witnesses"]
        if len(wl) > cap:
            step = len(wl)/cap
            wl = [wl[int(k*step)] for k in range(cap)]
        for w in wl:
            items.append(dict(driver=drv, wit=w))
            meta.append(("path", ji, None, w))
        for ci, c in enumerate(r["candidates"][:60]):
            for w in c["witnesses"]:
                items.append(dict(driver=drv, wit=w))
                meta.append(("cand", ji, ci, w))
    out = concrete(module, items, tier)
    violations = []        # (label, driver, witness, info)
    known_hit = {}
    validated = mism = skipped = 0
    cand_state = {}
    vlabels = set()

    def report(ji, label, w, info, extra=None):
        key = label if not label.startswith("exception") else \
            label.split(" at ")[0]
        if label in known:
            known_hit[label] = known[label]
            return
        if (ji, key) in vlabels:
            return
        vlabels.add((ji, key))
        violations.append((label, jobs[ji][0], w, info, extra or {}))

    for (kind, ji, ci, w), r in zip(meta, out):
        if r["status"] == "error":
            problems.append("replay failed: " + (r["exc"] or ""))
            continue
        if kind == "path":
            if r["status"] == "skip":
                skipped += 1
                continue
            bad = [x for x in r["fails"] if x[0] not in known and
                   (x[1] > 1e-3 or x[2] == "condition is false")]
            if r["status"] == "exception" or bad:
                if w.get("src") != "model":
                    lab = bad[0][0] if bad else "exception: " + r["exc"]
                    report(ji, lab, w, str(r["fails"][:3]) + str(r["exc"]))
                    continue
            o1 = dict(map(tuple, w["observed"]))
            bad = [nm for nm, v in r["observed"]
                   if nm in o1 and not near(v, o1[nm])]
            if bad and w.get("src") != "model":
                mism += 1
                problems.append(f"encoding mismatch {jobs[ji][0]} {bad[:3]}: "
                                f"real {[dict(map(tuple, r['observed']))[b] for b in bad[:3]]} "
                                f"encoded {[o1[b] for b in bad[:3]]}")
            else:
                validated += 1
        else:
            c = res[ji]["candidates"][ci]
            st = cand_state.setdefault((ji, ci), dict(rep=False, ok=0))
            if r["status"] == "skip":
                continue
            f = failing(r)
            f = sorted(f, key=lambda x: x != c["label"])
            if f:
                st["rep"] = True
                lab = c["label"] if c["label"] in f else f[0]
                report(ji, lab, w, str(r["fails"][:4]) + " " + str(r["exc"]))
            else:
                st["ok"] += 1
    # candidates whose concrete points did not reproduce: numeric search
    todo, tm = [], []
    benign = 0
    for ji, r in enumerate(res):
        if r is None or not r["ok"]:
            continue
        for ci, c in enumerate(r["candidates"][:60]):
            st = cand_state.get((ji, ci), dict(rep=False, ok=0))
            if st["rep"]:
                continue
            if c["label"] in known:
                continue
            if c["kind"] == "domain" and st["ok"]:
                benign += 1
                continue
            w = dict(params=jobs[ji][1], choices=c["choices"], inputs={},
                     fns=[], states=[], observed=[])
            todo.append(dict(driver=jobs[ji][0], wit=w, label=c["label"],
                             search=400))
            tm.append((ji, ci, w))
    if len(todo) > 24:
        step = len(todo)/24
        keep = [int(k*step) for k in range(24)]
        todo = [todo[k] for k in keep]
        tm2 = [tm[k] for k in keep]
        problems += [f"unreproduced candidate "
                     f"{res[j]['candidates'][c]['label']}"
                     for k, (j, c, _) in enumerate(tm) if k not in keep][:5]
        tm = tm2
    for (ji, ci, w), r in zip(tm, concrete(module, todo, tier)):
        c = res[ji]["candidates"][ci]
        if r["status"] not in ("notfound", "error", "skip") and failing(r):
            f = failing(r)
            lab = c["label"] if c["label"] in f else f[0]
            w = dict(w, inputs=r.get("inputs", {}))
            report(ji, lab, w, str(r["fails"][:3]) + str(r["exc"]),
                   dict(k=r["k"]))
        elif c["kind"] == "unsupported":
            pass            # already listed as inconclusive
        else:
            problems.append(
                f"{jobs[ji][0]}{jobs[ji][1]}: candidate [{c['kind']}] "
                f"{c['label']} did not reproduce; {c.get('formula', '')[:300]}")
    for lab in list(labels):
        if labels[lab][0] == 0:
            problems.append(f"obligation {lab} never reached")
    for lab in getattr(mod, "EXPECT", []):
        if lab not in labels:
            problems.append(f"expected obligation {lab} never reached")
    wall = time.time() - t0
    samples = []
    for r in res:
        if r and r.get("ok"):
            for w in r["witnesses"][:2]:
                samples.append({k: (dict(list(w[k].items())[:12])
                                    if k == "inputs" else w[k][:6]
                                    if isinstance(w[k], list) else w[k])
                                for k in ("params", "inputs", "choices",
                                          "observed")})
        if len(samples) >= 6:
            break
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")
                                           or 1),
        level="model_checking",
        coverage=dict(
            states=tot["paths"], transitions=tot["transitions"],
            traces_validated_against_impl=validated, samples=samples,
            jobs=len(jobs), infeasible_paths=tot["infeasible"],
            obligations=tot["obl"], discharged=tot["obl_unsat"],
            discharged_within_tolerance_only=tot["obl_tol"],
            solver_queries=tot["queries"],
            feasibility_queries=tot["feas"],
            solver_seconds=round(tot["solver_s"], 2),
            solver_unknown=tot["unknown"], solver="z3 " + z3v(),
            functions_encoded=sorted(functions),
            obligation_labels={k: v[0] for k, v in sorted(labels.items())},
            path_outcomes=outcomes, benign_domain_events=benign,
            paths_without_witness=tot["unwitnessed"],
            witnesses_skipped=skipped, encoding_mismatches=mism,
            bounds=getattr(mod, "BOUNDS", ""),
            inconclusive=problems[:20], truncated=truncated[:20],
            known_findings=sorted(known_hit)),
        assumptions=list(getattr(mod, "ASSUME", [])) + COMMON,
        wall_s=round(wall, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{prop} [{tier}] paths={tot['paths']} obligations={tot['obl']} "
          f"discharged={tot['obl_unsat']} (tol {tot['obl_tol']}) "
          f"queries={tot['queries']} solver={tot['solver_s']:.1f}s "
          f"validated={validated} wall={wall:.1f}s")
    if os.environ.get("SYMX_VERBOSE"):
        for (d, p, o), r in zip(jobs, res):
            if r and r["ok"]:
                print("  ", d, p, "paths", r["paths"], "obl", r["obl"],
                      "unsat", r["obl_unsat"], "tol", r["obl_tol"], "q",
                      r["queries"], f"{r['wall']:.1f}s", r["outcomes"],
                      "cands", len(r["candidates"]), "unwit",
                      r["unwitnessed"])
    for lab, what in sorted(known_hit.items()):
        print(f"KNOWN-FINDING: property={prop} {what}")
    for i, (lab, drv, w, info, extra) in enumerate(violations[:20]):
        p = write_replay(prop, module, drv, w, lab, i, extra)
        print(f"  fails: {lab}: {info[:500]}")
        print(f"VIOLATION property={prop} replay={p}")
    if violations:
        return 1
    for t in truncated[:20]:
        print("TRUNCATED:", t[:500])
    if problems:
        for p in problems[:20]:
            print("INCONCLUSIVE:", p[:1500])
        return 2
    return 0


def near(a, b):
    if a == b or (a != a and b != b):
        return True
    return abs(a-b) <= 1e-3*max(abs(a), abs(b)) + 1e-9


def z3v():
    try:
        import z3
        return z3.get_version_string()
    except Exception:
        return "?"


COMMON = [
    "Python floats are modelled as real numbers: rounding, overflow and "
    "signed zeros are outside the claim; float literals stand for the "
    "shortest decimal (or simple fraction) that denotes them",
    "numpy, math and scipy entry points are modelled by symx/shim.py and "
    "symx/stubs.py; the models are cross-checked by replaying one numeric "
    "witness per explored path on the plain installed package",
    "transcendental and fractional-power terms are opaque reals constrained "
    "by sign, functional and monotonicity axioms (symx/expr.py)",
]


def replay(path):
    with open(path) as f:
        d = json.load(f)
    it = dict(driver=d["driver"], wit=d["witness"])
    if "k" in d:
        it["k"] = d["k"]
    r = concrete(d["module"], [it], "quick")[0]
    print("property", d["property"], "obligation:", d["label"])
    print("inputs:", json.dumps(d["witness"].get("inputs", {})))
    print("params:", d["witness"]["params"], "choices:",
          d["witness"]["choices"])
    for f in r["fails"]:
        print("FAILS:", f[0], f[2])
    if r["exc"]:
        print("EXCEPTION:", r["exc"])
    bad = failing(r)
    print("reproduced" if bad else "not reproduced")
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("what")
    ap.add_argument("path", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    if a.what == "replay":
        return replay(a.path)
    if a.what == "selftest":
        from symx import selftest
        return selftest.main()
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    return decide(a.what.upper(), a.tier)


if __name__ == "__main__":
    sys.exit(main())
