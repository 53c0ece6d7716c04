#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] : decide one property on /repo's current tree."""
import sys, os, json, time, traceback, concurrent.futures
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import symlib
from symlib import *
import specs

def known_findings(pid):
    r = {}
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        l = l.strip()
        if not l.startswith("known: "):
            continue
        f = l[7:].split(None, 2)      # id property=<id> text
        if f[1] == "property=" + pid:
            r[f[0]] = f[2]
    return r

def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    only = sys.argv[sys.argv.index("--only") + 1] if "--only" in sys.argv else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = specs.SPECS[pid]
    t0 = time.time()
    known = known_findings(pid)
    budget = 780 if tier == "quick" else 10800
    evd = os.path.join(VERIF, "evidence")
    os.makedirs(evd, exist_ok=True)
    rpd = os.path.join(evd, "replay")
    os.makedirs(rpd, exist_ok=True)
    viols, unconf, runs, knownseen, errors = [], [], [], {}, []
    trees, objs = {}, {}
    tot = {}
    samples, fnset, validated, mismatched = [], set(), 0, []
    broken = []
    todo = [r for r in spec["runs"] if not (only and r["name"] != only) and not (tier == "quick" and r.get("tier") == "thorough")]
    pool = concurrent.futures.ThreadPoolExecutor(3)
    work = []
    for r in todo:      # all harness binaries are built in the background, in the order of the runs
        ck = json.dumps([r.get("caps"), r.get("asan", False), r.get("autoinit", "pattern")])
        if ck not in objs:
            caps = dict(Tree.CAPS); caps.update(r.get("caps") or {})
            t = Tree(caps)
            objs[ck] = (t, Obj(t, asan=r.get("asan", False), autoinit=r.get("autoinit", "pattern")))
        t, o = objs[ck]
        exp = lambda L: [x for s in L for x in (getattr(t, s)() if s in ("query_c", "parser_c", "dfa_cpp") else [t.d + "/" + s])]
        srcs, conc = exp(r.get("srcs", [])), exp(r.get("conc", []))
        defs = list(r.get("defs", [])) + (list(r.get("thorough_defs", [])) if tier == "thorough" else [])
        h = os.path.join(HAR, r["harness"])
        def build(o=o, h=h, srcs=srcs, defs=defs, conc=conc):
            tb = time.time(); b = o.link_sym(h, srcs, defs=defs, concrete=conc); return b, time.time() - tb
        fb = pool.submit(build)
        fn = pool.submit(o.link_native, h, srcs + conc, defs=defs)
        work.append((r, t, o, srcs, conc, defs, h, fb, fn))
    for r, t, o, srcs, conc, defs, h, fb, fn in work:
        b, tb = fb.result()
        left = budget - (time.time() - t0)
        if left < 20:
            runs.append({"name": r["name"], "skipped": "time budget used up"}); continue
        ts = r.get("time", 200) if tier == "quick" else r.get("time_thorough", 2400)
        st = run(b, time_s=int(max(10, min(ts, left - 15))), maxv=r.get("maxv", 12), fill=r.get("fill", 0xAB), env=r.get("env"), hang=r.get("hang", 40))
        def native(fn=fn):
            return fn.result()
        # every violation is replayed against an ordinary address-sanitizer build of the real code
        seen = {}
        for v in st["viol"]:
            key = (v[0], v[1])
            if seen.get(key, 0) >= 3 or sum(seen.values()) >= 12:
                continue
            if any(x["run"] == r["name"] and (x["kind"], x["message"]) == key for x in viols):
                continue
            seen[key] = seen.get(key, 0) + 1
            verdict, out = replay(native(), v[2], fill=r.get("fill"))
            rec = {"run": r["name"], "kind": v[0], "message": v[1], "model": v[2], "replay_verdict": verdict, "replay_output": out[-3000:]}
            if verdict == "ok" and v[0] in r.get("trust", ()):   # not observable natively (e.g. a schedule conflict)
                rec["replay_verdict"] = "ok (conflict is not observable in one native run)"
                viols.append(rec)
            elif verdict in ("ok", "pruned", "known"):
                unconf.append(rec)
            else:
                viols.append(rec)
        for kid, _, *m in [x if len(x) > 2 else x + [""] * (3 - len(x)) for x in st["knownhits"]]:
            if kid in known:
                knownseen[kid] = knownseen.get(kid, 0) + 1
            else:
                broken.append("harness %s reports finding %s, which is not listed for %s" % (r["name"], kid, pid))
        # completed paths re-executed natively: the symbolic semantics must agree with the compiled code
        for tag, txt, model in st["samples"][:6]:
            verdict, out = replay(native(), model, fill=r.get("fill"))
            if verdict in ("ok", "known"):
                validated += 1
            elif not st["viol"] and not r.get("no_replay_samples"):
                mismatched.append({"run": r["name"], "sample": txt, "verdict": verdict, "output": out[-1500:], "model": model})
        F, NF = functions(b)
        fnset.update(F)
        samples += [{"run": r["name"], "case": (tag + " " + txt)[:400]} for tag, txt, _ in st["samples"][-3:]]
        complete = not st["timeout"] and not st["incomplete"]
        miss = [x for x in r.get("reach", []) if str(x) not in st["reach"]]
        if miss and complete and not st["viol"]:
            broken.append("run %s: witnesses %s were not reached" % (r["name"], miss))
        e = {"name": r["name"], "harness": r["harness"], "defs": defs, "bounds": r.get("bounds", ""), "capacities_lowered": t.capsused,
             "build_s": round(tb, 2), "exhausted_within_bounds": bool(complete), "reached": st["reach"]}
        for k in ("paths", "forks", "branches", "concretisations", "pruned", "queries_enum", "queries_z3", "queries_crosschecked", "z3_sat", "z3_unsat", "z3_unknown", "z3_s", "asserts", "asserts_symbolic", "violations", "known", "incomplete", "timeout", "races_checked", "max_symbolic_bytes", "wall_s"):
            e[k] = st[k]
            if k not in ("max_symbolic_bytes",):
                tot[k] = tot.get(k, 0) + st[k]
        if st["engine_msgs"]:
            e["engine_messages"] = sorted({x[1] for x in st["engine_msgs"]})[:10]
        runs.append(e)
        print("%s %s: paths=%d decisions=%d queries=%d(+%d z3) asserts=%d viol=%d known=%d %s %.1fs" % (
            pid, r["name"], st["paths"], st["branches"], st["queries_enum"], st["queries_z3"], st["asserts"], st["violations"], st["known"],
            "complete" if complete else "INCOMPLETE " + "; ".join(e.get("engine_messages", ["time"])[:3]), st["wall_s"]), flush=True)
    allc = all(x.get("exhausted_within_bounds") for x in runs)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": {
              "states": int(tot.get("paths", 0) + tot.get("pruned", 0) + tot.get("known", 0)),
              "transitions": int(tot.get("branches", 0) + tot.get("concretisations", 0)),
              "traces_validated_against_impl": validated + len([v for v in viols]),
              "samples": samples[:12] or [{"case": "none recorded"}],
              "exhaustive": bool(allc),
              "explanation": "states = symbolic path conditions explored to their end (completed, pruned by an assumption, or ending in a listed finding); transitions = symbolic branch decisions and value forks, each decided by the solver for all values under the path condition; traces = completed path models re-executed on an uninstrumented address-sanitizer build of the same sources",
              "functions_encoded": sorted(fnset), "functions_encoded_count": len(fnset),
              "solver": {"finite_domain_queries": int(tot.get("queries_enum", 0)), "z3_queries": int(tot.get("queries_z3", 0)), "z3_sat": int(tot.get("z3_sat", 0)), "z3_unsat": int(tot.get("z3_unsat", 0)), "z3_unknown": int(tot.get("z3_unknown", 0)), "finite_domain_queries_crosschecked_by_z3": int(tot.get("queries_crosschecked", 0)), "z3_seconds": round(tot.get("z3_s", 0), 2)},
              "assertions_decided": int(tot.get("asserts", 0)), "assertions_with_symbolic_operands": int(tot.get("asserts_symbolic", 0)),
              "runs": runs, "bounds": spec.get("bounds", ""), "outside_the_bounds": spec.get("outside", ""),
              "known_findings_hit": knownseen, "unconfirmed_counterexamples": unconf[:5], "native_disagreements": mismatched[:5]},
          "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(viols)}
    if not only:
        json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    for k, txt in known.items():
        print("KNOWN-FINDING: property=%s %s %s" % (pid, k, txt))
    for u in unconf[:5]:
        print("note: unconfirmed counterexample (native run: %s) %s %s %s" % (u["replay_verdict"], u["run"], u["message"], u["model"]), file=sys.stderr)
    if viols:
        p = os.path.join(rpd, pid + ".json")
        json.dump(viols, open(p, "w"), indent=1)
        for v in viols[:6]:
            print("VIOLATION property=%s replay=%s" % (pid, os.path.relpath(p, VERIF)))
            print("  run=%s kind=%s message=%s native=%s model=%s" % (v["run"], v["kind"], v["message"], v["replay_verdict"], v["model"]))
            print("  " + "\n  ".join(v["replay_output"].splitlines()[-12:]))
        return 1
    for m in mismatched[:3]:
        print("engine/native disagreement: %s" % json.dumps(m), file=sys.stderr)
    for b in broken[:5]:
        print("check is broken: " + b, file=sys.stderr)
    if broken or mismatched:
        return 2
    return 0

if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 3
    sys.stdout.flush()
    sys.exit(rc)
