#!/usr/bin/env python3-vt
"""check.py Cxx [--tier quick|thorough] [--replay FILE]

Decides one property: deductive obligations over the real code of /repo
(pvc engine, z3/cvc5), cross-checked and given failing inputs by concrete
execution of the real code under /opt/venv (pvc/replay)."""
import argparse, importlib, json, os, subprocess, sys, tempfile, time, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
PY = os.environ.get("PVC_PY", "/opt/venv/bin/python")
REPO = os.environ.get("PVC_REPO", "/repo")
BASE_TRUST = [
    "the pvc engine (path exploration, symbolic numpy/Python semantics in /verif/pvc) and z3 5.3.2 / cvc5",
    "floating point treated as exact real arithmetic; rounding artefacts only sampled by the concrete cross-check",
    "CPython executes the mechanically transformed source as it would the original (transformations listed in pvc/loader.py)",
]


def concrete(prop, tier, seed, hints, budget, replay=None):
    """run the executable oracle on the real code"""
    tmp = tempfile.mkdtemp(prefix="pvc_")
    try:
        hp = os.path.join(tmp, "hints.json")
        op = os.path.join(tmp, "out.json")
        json.dump(hints, open(hp, "w"))
        cmd = [PY, os.path.join(HERE, "pvc/replay/runner.py"), prop, "--tier", tier, "--seed", str(seed),
               "--hints", hp, "--out", op, "--budget", str(budget)]
        if replay:
            cmd += ["--replay", os.path.abspath(replay)]
        env = dict(os.environ, PVC_REPO=REPO, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg",
                   OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
        try:
            p = subprocess.run(cmd, cwd=tmp, env=env, capture_output=True, text=True, timeout=budget + 120)
        except subprocess.TimeoutExpired:
            return {"error": "concrete run timed out", "failure": None, "evaluations": 0, "distinct": 0, "samples": []}
        if not os.path.exists(op):
            return {"error": (p.stderr or p.stdout)[-3000:], "failure": None, "evaluations": 0, "distinct": 0, "samples": []}
        return json.load(open(op))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def monitor_functions(eng):
    mon = sys.monitoring
    tool = mon.PROFILER_ID
    try:
        mon.use_tool_id(tool, "pvc")
    except ValueError:
        return
    def start(code, off):
        if code.co_filename.startswith(REPO + "/") and not code.co_name.startswith("<") and code.co_flags & 1:   # functions, not class bodies
            eng.functions.add(f"{os.path.relpath(code.co_filename, REPO)}:{code.co_qualname}")
        return mon.DISABLE
    mon.register_callback(tool, mon.events.PY_START, start)
    mon.set_events(tool, mon.events.PY_START)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--no-concrete", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if a.replay:
        r = json.load(open(a.replay))
        if r.get("case") is None:
            print("replay file carries no failing input; verifier output:")
            print(json.dumps(r.get("obligations"), indent=1))
            return 1
        out = concrete(prop, tier, seed, [], 60, replay=a.replay)
        f = out.get("failure")
        print(json.dumps(f, indent=1) if f else (out.get("error") or "case passes"))
        return 1 if f else 0

    from pvc import engine as E
    from pvc import loader as L
    level, errors = "proof", []
    eng = E.Engine(tier=tier, timeout_ms=15000 if tier == "quick" else 60000)
    E.ENG = eng
    eng.current = "load"
    monitor_functions(eng)
    proof_budget = 600 if tier == "quick" else 720
    eng.deadline = t0 + proof_budget
    cm = None
    try:
        cm = importlib.import_module(f"pvc.contracts.{prop}")
    except ModuleNotFoundError as ex:
        if f"pvc.contracts.{prop}" not in str(ex):
            raise
    bounded_used = []
    per_harness = []
    retry = True
    early = None
    if cm is not None and not a.no_proof:
        for h in cm.HARNESSES:
            name, fn = h[0], h[1]
            opts = h[2] if len(h) > 2 else {}
            if a.only and a.only not in name:
                continue
            n0, u0, t1 = len(eng.obligations), len(eng.unsupported), time.time()

            def attempt():
                L.LOOP_SPECS[:] = []
                try:
                    ld = L.Loader(REPO)
                    eng.reset_path([])
                    E.ENG = eng
                    eng.current = name
                    eng.explore(lambda e: fn(e, ld), name)
                except E.Unsupported as u:
                    eng.unsupported.append(f"{name}: {u.msg}")
                except Exception as ex:
                    import traceback
                    tb = traceback.extract_tb(ex.__traceback__)
                    eng.unsupported.append(f"{name}: load/contract error {type(ex).__name__}: {ex} at " +
                                           "; ".join(f"{f.filename.split('/')[-1]}:{f.lineno}" for f in tb[-3:]))
            attempt()
            new = eng.obligations[n0:]
            if (early is None and not a.no_concrete and not opts.get("standin")
                    and (any(o.status != "discharged" for o in new) or len(eng.unsupported) > u0)):
                # an obligation fails: look for a failing input now; with one the verdict is settled
                early = concrete(prop, tier, seed, [o.model for o in new if o.status != "discharged" and o.model], 40)
                if early.get("failure"):
                    per_harness.append((name, len(new), len(eng.unsupported) - u0, round(time.time() - t1, 1), opts))
                    break
            if (retry and not opts.get("standin") and not any(o.status == "refuted" for o in new)
                    and (any(o.status != "discharged" for o in new) or len(eng.unsupported) > u0)
                    and time.time() - t0 < 280):
                # undecided, not refuted: once more with the solver limits four times as long, so that
                # a loaded machine does not decide a verdict
                retry = False
                del eng.obligations[n0:], eng.unsupported[u0:]
                eng.scale_limits(4)
                eng.deadline = time.time() + 240
                attempt()
                eng.scale_limits(1)
                eng.deadline = t0 + proof_budget
                if any(o.status != "discharged" for o in eng.obligations[n0:]) or len(eng.unsupported) > u0:
                    eng.deadline = min(eng.deadline, time.time() + 60)
            per_harness.append((name, len(eng.obligations) - n0, len(eng.unsupported) - u0, round(time.time() - t1, 1),
                                opts))
            if a.v:
                print(per_harness[-1])
    bad = [o for o in eng.obligations if o.status != "discharged"]
    unsup = list(eng.unsupported)
    # harnesses declared with a bounded stand-in: structural mismatch is not an alarm
    hard_unsup = []
    for u in unsup:
        hn = u.split(":")[0]
        opts = next((p[4] for p in per_harness if p[0] == hn), {})
        if opts.get("standin") and "(vacuous)" not in u:
            bounded_used.append({"harness": hn, "reason": u, "bound": opts["standin"]})
        else:
            hard_unsup.append(u)
    zero = [p[0] for p in per_harness if p[1] == 0 and p[2] == 0]
    for z in zero:
        hard_unsup.append(f"{z}: generated no obligation")
    for c, ok in eng.covers.items():
        if not ok:
            hard_unsup.append(f"{c}: precondition unsatisfiable (vacuous contract)")
    if a.v:
        for o in bad[:20]:
            print("  BAD", o.as_dict())
        for u in unsup:
            print("  UNSUPPORTED", u)
    # ---------------------------------------------------------------- concrete
    hints = [o.model for o in bad if o.model]
    budget = getattr(cm, "CONCRETE_BUDGET", {}).get(tier) or (40 if tier == "quick" else 240)
    if bad or hard_unsup:
        budget = budget * 2
    conc = {"failure": None, "evaluations": 0, "distinct": 0, "samples": []}
    if early and early.get("failure"):
        conc = early
    elif not a.no_concrete:
        conc = concrete(prop, tier, seed, hints, budget)
        if conc.get("error"):
            errors.append("concrete runner: " + conc["error"])
    failure = conc.get("failure")
    known = conc.get("known", [])
    kf = {}
    kfp = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kfp):
        for e in json.load(open(kfp)).get("findings", []):
            if e["property"] == prop:
                kf[e["id"]] = e
    for k in known:
        if k["id"] in kf:
            print(f"KNOWN-FINDING: property={prop} {kf[k['id']]['what']}")
        else:
            failure = failure or {"case": k.get("case"), "message": k.get("message", "") + " (not a listed finding)"}
    violation = bool(failure) or bool(bad) or bool(hard_unsup)
    if errors and not violation:
        # the concrete runner itself died: cannot be trusted as a pass
        violation = True
    n_ob = len(eng.obligations)
    n_dis = n_ob - len(bad)
    backends = {}
    for o in eng.obligations:
        backends[o.backend] = backends.get(o.backend, 0) + 1
    level = getattr(cm, "LEVEL", "proof") if cm is not None else "exploration"
    if bounded_used and level == "proof":
        level = "other"
    cov = {
        "obligations": n_ob, "discharged": n_dis,
        "checker_cmd": f"python3-vt check.py {prop} --tier {tier}",
        "trusted_base": BASE_TRUST + sorted(eng.assumptions) + list(getattr(cm, "TRUSTED", []) if cm else []),
        "functions_under_contract": sorted(eng.functions),
        "back_ends": backends, "solver_time_s": round(eng.solver_time, 2),
        "paths": eng.paths, "harnesses": [{"name": p[0], "obligations": p[1], "unsupported": p[2], "time_s": p[3]} for p in per_harness],
        "preconditions_covered": sum(1 for v in eng.covers.values() if v),
        "bounded_standins": bounded_used + list(getattr(cm, "BOUNDED", []) if cm else []),
        "failed_obligations": [o.as_dict() for o in bad][:20], "unsupported": unsup[:20],
        "evaluations": conc.get("evaluations", 0), "distinct_nontrivial": conc.get("distinct", 0),
        "rule": conc.get("rule", ""), "samples": conc.get("samples", [])[:5],
        "explanation": "deductive obligations on the real functions plus concrete cross-check of the same specification",
    }
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": cov["trusted_base"], "violations": 0}
    OUT = os.environ.get("PVC_OUT", HERE)
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    rc = 0
    if violation:
        rd = os.path.join(OUT, "replays")
        os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, f"{prop}.json")
        doc = {"property": prop, "case": failure["case"] if failure else None,
               "message": failure["message"] if failure else None,
               "obligations": [o.as_dict() for o in bad][:20], "unsupported": hard_unsup, "errors": errors}
        json.dump(doc, open(rp, "w"), indent=1)
        for o in bad[:5]:
            print(f"obligation {o.status}: {o.name} {o.detail}")
        for u in hard_unsup[:5]:
            print(f"obligation not established: {u}")
        for e in errors:
            print(e[-1500:])
        if failure:
            print("failing input: " + failure["message"][:1000])
        ev["violations"] = 1
        print(f"VIOLATION property={prop} replay={rp}" + ("" if failure else " no-failing-input-found"))
        rc = 1
    else:
        print(f"{prop}: {n_dis}/{n_ob} obligations discharged over {eng.paths} paths "
              f"({len(eng.functions)} functions), {conc.get('evaluations', 0)} concrete cross-checks, "
              f"{round(time.time() - t0, 1)} s")
        for b in bounded_used:
            print(f"  bounded stand-in used: {b['harness']} ({b['bound']}): {b['reason']}")
    json.dump(ev, open(os.path.join(OUT, "evidence", f"{prop}.json"), "w"), indent=1)
    return rc


if __name__ == "__main__":
    sys.exit(main())
