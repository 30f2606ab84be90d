#!/usr/bin/env python3
"""vc/check.py <property> [--tier quick|thorough] [--only unit[/case]]

Discharges every proof obligation of one property against the repository's current working tree.
exit 0: all discharged; exit 1 + VIOLATION line: an obligation fails; exit 2: the check itself could not decide.
"""
import argparse, concurrent.futures as cf, importlib.util, json, os, re, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import engine_a as A


def load(prop):
    p = os.path.join(ROOT, "proofs", prop, "units.py")
    spec = importlib.util.spec_from_file_location("units_" + prop, p)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def known_findings(prop):
    """id -> text of the findings recorded for this property (never written at run time)"""
    out = {}
    for line in open(os.path.join(ROOT, "known_findings.txt")):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
        if m and m.group(1) == prop:
            out[m.group(2)] = m.group(3)
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, ("thorough" if a.tier == "thorough" else "quick")
    mod = load(prop)
    edir = os.environ.get("VC_EVIDENCE") or os.path.join(ROOT, "evidence")
    rdir = os.path.join(edir, "replay")
    os.makedirs(rdir, exist_ok=True)
    ev = os.path.join(edir, prop + ".json")
    if os.path.exists(ev):
        os.unlink(ev)
    ws = A.Workspace(a.jobs)
    results, violations, errors, known_hit = [], [], [], {}
    known = known_findings(prop)
    try:
        units = [u for u in getattr(mod, "UNITS", []) if tier == "thorough" or not u.get("thorough_only")]
        work = []
        for u in units:
            cases = u.get("cases", [{"name": "all"}])
            cases = [c for c in cases if tier == "thorough" or not c.get("thorough_only")]
            for c in cases:
                nm = u["name"] + "/" + c["name"]
                if a.only and not nm.startswith(a.only):
                    continue
                work.append((u.get("cost", c.get("cost", 1)), u, c))
        work.sort(key=lambda w: -w[0])
        deadline = 800 if tier == "quick" else 3000

        def go(w):
            _, u, c = w
            left = deadline - (time.time() - t0)
            r = A.run_case(ws, prop, u, c, timeout=max(10, min(int(os.environ.get("VC_TIMEOUT", u.get("timeout", 600))), left)))
            if a.v:
                print("  %-40s %-6s obl=%s/%s solver=%.1fs wall=%.1fs" % (r["name"], r["status"], r.get("discharged"),
                      r.get("obligations"), r.get("solver_s", 0), r.get("wall_s", 0)), flush=True)
                if r["status"] == "error":
                    print("     " + r["error"][:1500])
                if r["status"] == "fail":
                    for f in r["failing"][:6]:
                        print("     FAIL %s: %s" % (f["property"], f["description"]))
            return (u, c, r)
        with cf.ThreadPoolExecutor(a.jobs) as ex:
            done = list(ex.map(go, work))
        for u, c, r in done:
            results.append(r)
            if r["status"] == "error":
                errors.append(r)
            elif r["status"] == "fail" and c.get("known") in known:
                known_hit[c["known"]] = True
                r["obligations"] = r["discharged"] = 0
                r["status"] = "known-finding"
            elif r["status"] == "fail":
                ok, text, used = False, "", None
                for f in r["failing"][:4]:
                    try:
                        ok, text = A.replay(ws, prop, u, c, f["inputs"])
                    except Exception as e:
                        ok, text = False, "replay failed: %s" % e
                    used = f
                    if ok:
                        break
                if not ok:
                    try:
                        ok, text2 = A.native_search(ws, prop, u, c)
                        text += "\n" + text2
                        searched = True
                    except Exception as e:
                        text += "\nsearch failed: %s" % e
                        searched = False
                    if not ok and searched and u.get("abstract_arith") and c.get("abstract", True):
                        r.update(status="ok", bounded="arithmetic abstraction inconclusive; contract executed on 300 boundary-heavy pseudo-random inputs per type pair")
                        continue
                if r["only_unwind"] and not ok:
                    r["status"] = "error"
                    r["error"] = "loop bound of the unit exceeded (%s); no failing input" % r["failing"][0]["property"]
                    errors.append(r)
                    continue
                violations.append((r, ok, used if ok else r["failing"][0], text))
        for fn in getattr(mod, "EXTRA", []):
            if a.only and not fn.__name__.startswith(a.only):
                continue
            try:
                for r in fn(ws, tier):
                    results.append(r)
                    if a.v:
                        print("  %-40s %-6s obl=%s/%s wall=%.1fs" % (r["name"], r["status"], r.get("discharged"),
                              r.get("obligations"), r.get("wall_s", 0)), flush=True)
                        if r["status"] == "error":
                            print("     " + r["error"][:1500])
                    if r["status"] == "error":
                        errors.append(r)
                    elif r["status"] == "fail":
                        violations.append((r, r.get("replayed", False), r["failing"][0], r.get("replay_text", "")))
            except A.EngineError as e:
                errors.append({"name": fn.__name__, "status": "error", "error": str(e)})
    except Exception:
        errors.append({"name": prop, "status": "error", "error": traceback.format_exc()})
    finally:
        ws.close()
    obl = sum(r.get("obligations", 0) for r in results)
    dis = sum(r.get("discharged", 0) for r in results)
    bounded = [u["name"] + ": " + u["bounded"] for u in getattr(mod, "UNITS", []) if u.get("bounded")]
    bounded += [r["name"] + ": " + r["bounded"] for r in results if r.get("bounded")]
    funcs = sorted({f for r in results for f in r.get("functions", [])})
    doc = {
        "property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": mod.LEVEL,
        "coverage": {
            "obligations": obl, "discharged": dis,
            "checker_cmd": "goto-cc | goto-instrument [--dfcc --enforce-contract] | " + next((r["cmd"] for r in results if r.get("cmd")), "z3"),
            "trusted_base": getattr(mod, "TRUSTED", []),
            "functions_under_contract": funcs,
            "bounded_units": bounded,
            "solver_s": round(sum(r.get("solver_s", 0) for r in results), 2),
            "reachability_witnesses": sum(r.get("reach", 0) for r in results),
            "units": [{k: r.get(k) for k in ("name", "status", "obligations", "discharged", "solver_s", "wall_s", "backend") if r.get(k) is not None} for r in results],
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    if errors:
        doc["coverage"]["errors"] = [{"name": r["name"], "error": r["error"][:600]} for r in errors]
    json.dump(doc, open(ev, "w"), indent=1)
    for k in sorted(known_hit):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[k]))
    violations.sort(key=lambda v: not v[1])
    if violations:
        for r, ok, f, text in violations[:8]:
            path = os.path.join(rdir, r["name"].replace("/", "_") + ".txt")
            with open(path, "w") as o:
                o.write("property %s\nunit %s\nfailed obligation: %s\n  %s\n  at %s\n" % (prop, r["name"], f["property"], f["description"], json.dumps(f.get("where", {}))))
                o.write("command: %s\n" % r.get("cmd", ""))
                o.write("all failing obligations:\n")
                for g in r["failing"]:
                    o.write("  %s: %s\n" % (g["property"], g["description"]))
                o.write("counterexample inputs (in order of choice): %s\n" % " ".join("%x" % (v & (2**64 - 1)) for v in f.get("inputs", [])))
                o.write("native replay against the real code: %s\n%s\n" % ("CONFIRMED" if ok else "not confirmed", text))
            print("failed obligation: %s  %s (%s)" % (r["name"], f["description"], f["property"]))
            print("VIOLATION property=%s replay=%s%s" % (prop, path, "" if ok else " no-failing-input-found"))
        sys.exit(1)
    if errors:
        for r in errors[:8]:
            print("CHECK-ERROR %s: %s" % (r["name"], r["error"][:1200]), file=sys.stderr)
        sys.exit(2)
    print("OK property=%s obligations=%d discharged=%d wall=%.1fs" % (prop, obl, dis, time.time() - t0))


main()
