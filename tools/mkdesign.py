#!/opt/venv/bin/python
"""DESIGN.md = tools/DESIGN.in.md + per-property sections + planted-bug table."""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True

ORACLE = {
 "C01": "the solver compares `v_e(x)` with the symbolic derivative of the returned `u_e*delta_d`, where the derivative of the (opaque) state is the very rate function handed to `solve_ivp`",
 "C02": "the rate function captured from the `solve_ivp` call is executed at an arbitrary state and compared with the momentum integral equation written from the reported lambda, S and H (two-sided inequality for the 1e-3 regularisation)",
 "C03": "identities between the values returned by the public queries and the fit evaluated at the lambda rebuilt from the public delta_m and u_e'",
 "C04": "symbolic differentiation of the executed shape function; polynomial shapes with five symbolic coefficients for the finite-difference closure",
 "C05": "evaluation of each element alone at the clamped argument; the caller's array is compared before and after",
 "C06": "correlations re-typed from the literature; tables re-typed; monotonicity by pairs of arguments / derivative sign, decided by the solver over the interval",
 "C07": "sign of the captured event function at an arbitrary state, against sign of the fitted shear and the published range",
 "C08": "sign of the captured event against the value last set in a solver-chosen history",
 "C09": "the integrator's outcome is nondeterministic; the returned `IntegrationResult` is compared with that outcome field by field",
 "C10": "arguments of each captured `solve_ivp` call against what the same call on a fresh object would pass; snapshots of lists and results",
 "C11": "initial state of the captured call against the values assigned in a solver-chosen order",
 "C12": "algebraic relation between delta_m, nu and du_e of the stagnation similarity solution",
 "C13": "symbolic derivative of the returned u_e; exactness of stencils for all quartics; interpolation and antiderivative identities of the PCHIP model",
 "C14": "a reference classification of the specification kinds; after a rejection every query is compared with the state before",
 "C15": "the von Karman and entrainment equations written out from the closure functions, against the captured rate function",
 "C16": "as C01, for the two-component state",
 "C17": "composition of the two conversions, slope sign, pairs of arguments",
 "C18": "formulas re-typed from the publications; monotonicity by pairs",
 "C19": "u and v returned by the package are differentiated symbolically (the profile being an arbitrary solution of the captured similarity ODE) and put into continuity and x-momentum",
 "C20": "streamwise derivatives of the returned thicknesses put into the momentum and kinetic energy integral equations",
 "C21": "arguments of every captured `solve_ivp`, `quad`, `root_scalar` call; nondeterministic trial results drive the secant loops",
 "C22": "m = beta/(2-beta) and its inverse; snapshots before and after rejected resets",
 "C23": "the driver writes the rows it knows into the (symbolic) file and compares sides, order and counts",
 "C24": "linear interpolation of the two rows at the sign change",
 "C25": "each accessor against the symbolic number written into its column",
 "C26": "each field against its column times the exact conversion factor",
 "C27": "one field is moved away from consistency by a solver-chosen amount; the load must raise and keep the object",
 "C28": "documented acceptance predicate of each setter, every other public property unchanged",
 "C29": "every query repeated and interleaved, arrays against element-wise calls, caller arrays compared before and after",
}
out = ["## Properties and how each is decided", ""]
for line in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    m = importlib.import_module("checks." + i.lower())
    ev = {}
    try:
        ev = json.load(open(os.path.join(HERE, "tools", "cost.json")))[i]
    except (OSError, KeyError):
        pass
    out += [f"### {i} {p['title']}", "",
            f"* **Oracle.** {ORACLE[i][0].upper() + ORACLE[i][1:]}.",
            "* **Encoded.** " + "; ".join(f"{a['name']} (`{a['where']}`)"
                                          for a in p["anchors"]["mechanism"])
            + ".",
            f"* **Bounds.** {m.BOUNDS[0].upper() + m.BOUNDS[1:]}."]
    a = list(getattr(m, "ASSUME", []))
    if a:
        out.append("* **Assumes.** " + "; ".join(a) + ".")
    if ev:
        out.append(f"* **Cost.** quick {ev['quick']}, thorough "
                   f"{ev['thorough']}.")
    out += [f"* **Beyond the tests.** {p['why_tests_cant']}", ""]
seed = ["## Planted bugs", "",
        "`/verif/seeded/<id>`; each passes the 65 stable tests, its demo fails "
        "only with the patch. Result of the quick check of its property (and "
        "the obligation that failed) with the patch applied:", "",
        "| bug | property | needs | caught by |", "|---|---|---|---|"]
res = {}
f = os.path.join(HERE, "tools", "seeded_results.json")
if os.path.exists(f):
    res = json.load(open(f))
sd = os.path.join(HERE, "seeded")
for d in sorted(os.listdir(sd)):
    mt = json.load(open(os.path.join(sd, d, "meta.json")))
    seed.append(f"| {d} | {mt['property']} | {mt['needs']} | "
                f"{res.get(d, 'not run')} |")
s = open(os.path.join(HERE, "tools", "DESIGN.in.md")).read()
s = s.replace("@@PROPS@@", "\n".join(out)).replace("@@SEEDED@@",
                                                   "\n".join(seed))
open(os.path.join(HERE, "DESIGN.md"), "w").write(s.rstrip() + "\n")
