#!/usr/bin/env python3
"""check.py PID [--mir DUMP]   decides one property of /repo's current source.

exit 0: every obligation discharged (or undecided, which is reported and counted); exit 1: violated.
"""
import importlib, json, os, resource, signal, sys, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    mir = sys.argv[sys.argv.index("--mir") + 1] if "--mir" in sys.argv else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    from oflow import run
    from oflow.mir import Program
    from rules.lib import R, Missing
    prop = next(json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl")) if json.loads(l)["id"] == pid)
    known = load_known(pid)
    feats = ("default",) if tier == "quick" else ("default", "all", "none")
    if pid in ASSERTING:
        feats += ("asserting",)
    results = []
    if mir:
        it = [("default", mir)]
    else:
        it = run.extract(feats)
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    for feat, dump in it:
        prog = Program(dump)
        r = R(prog, pid)
        mod = importlib.import_module("rules." + pid.lower())
        signal.signal(signal.SIGALRM, late)
        signal.alarm(LIMIT if tier == "quick" else 4 * LIMIT)
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY if hard < 0 else min(MEMORY, hard), hard))
        try:
            mod.check(r)
        except Missing as e:
            what = str(e)
            if what.startswith(("type ", "variant ", "fields ")) or r.moved(what):
                r.undecided("anchor", what, "the item this property is stated about is found", "not found under this name: " + what)
            else:
                r.viol.append({"id": "anchor", "function": what, "at": "", "rule": "the public item this property is stated about exists",
                               "detail": "not found in the type-checked program: " + what, "status": "violated"})
        except Late:
            r.undecided("time", pid, "the obligations are decided in time", "time limit reached; the remaining obligations were not decided")
        except Exception as e:
            r.undecided("engine", pid, "the analysis covers the code it meets", "%s: %s at %s" % (
                type(e).__name__, str(e)[:200], "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(e.__traceback__)[-3:])))
        finally:
            signal.alarm(0)
            resource.setrlimit(resource.RLIMIT_AS, (soft, hard))
        results.append((feat, r))
    rc = report(pid, prop, tier, seed, results, known, t0)
    sys.exit(rc)


LIMIT = 600
MEMORY = 12 << 30
# properties about panics are checked with debug assertions too
ASSERTING = ("C02", "C22", "C26")


class Late(BaseException):
    pass


def late(*a):
    raise Late()


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known-findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("property") == pid:
                    out.append(d)
    return out


def report(pid, prop, tier, seed, results, known, t0):
    new, old = [], []
    for feat, r in results:
        for v in r.viol:
            k = next((k for k in known if k.get("obligation") == v["id"] and k.get("function") == v["function"]), None)
            (old if k else new).append((feat, v))
    seen = set()
    for feat, v in old:
        key = (v["id"], v["function"])
        if key not in seen:
            seen.add(key)
            print("KNOWN-FINDING: property=%s %s %s" % (pid, v["id"], v["function"]))
    os.makedirs(os.path.join(HERE, "evidence", "replay"), exist_ok=True)
    replay = os.path.join(HERE, "evidence", "replay", pid + ".json")
    feat0, r0 = results[0]
    obl = [dict(o, features=f) for f, r in results for o in r.obl]
    dis = sum(1 for o in obl if o["status"] == "discharged")
    skipped = sum(1 for o in obl if o["status"].startswith("not present"))
    und = [dict(u, features=f) for f, r in results for u in r.und]
    analysed = {}
    for f, r in results:
        for k, n in r.analysed.items():
            analysed[k] = analysed.get(k, 0) + n
    mod = importlib.import_module("rules." + pid.lower())
    cov = {
        "explanation": "Static analysis of the type-checked program. The MIR of /repo's current source is extracted with a rustc driver; "
                       "each function named below is reduced to a normal form of its result, state changes, panics and draws over all its "
                       "paths (calls inlined, loops summarised) and every obligation is a relation on these normal forms that holds for all "
                       "inputs. No code of the library is executed. " + (mod.__doc__ or "").strip(),
        "obligations": len(obl) - skipped,
        "discharged": dis,
        "undecided": len(und),
        "violated": sum(len(r.viol) for _, r in results),
        "anchors_absent_and_covered_by_callers": skipped,
        "functions_analysed": len(analysed),
        "basic_blocks_evaluated": sum(r.steps for _, r in results),
        "functions": sorted(analysed)[:400],
        "feature_sets": [f for f, _ in results],
        "bodies_in_program": len(r0.P.bodies),
        "rule": "one obligation per anchored function or relation; the rule text of each is in samples",
        "samples": [{k: o[k] for k in ("id", "where", "at", "rule", "status", "features") if k in o} for o in obl[:200]],
        "undecided_samples": [{k: (str(u[k])[:600]) for k in u} for u in und[:20]],
    }
    if getattr(r0, "facts", None):
        cov["facts_used"] = r0.facts
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "coverage": cov,
        "assumptions": ["rustc's MIR is a faithful translation of the source",
                        "the models of core/alloc and of the external cryptographic crates in oflow/models.py",
                        "external cryptographic functions are functions of their arguments"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for u in und[:20]:
        print("UNDECIDED property=%s %s %s: %s" % (pid, u["id"], u.get("function", ""), str(u.get("detail", ""))[:300].replace("\n", " ")))
    print("%s: %d obligations, %d discharged, %d undecided, %d violated; %d functions, %.1fs" % (
        pid, len(obl) - skipped, dis, len(und), len(new), len(analysed), time.time() - t0))
    if new:
        with open(replay, "w") as f:
            json.dump({"property": pid, "title": prop["title"], "violations": [dict(v, features=f_) for f_, v in new],
                       "how": "run /verif/check.py %s; each entry names the function, its location and the expected and actual normal forms" % pid}, f, indent=1)
        for feat, v in new[:10]:
            print("  violated: %s in %s %s\n    rule: %s\n    %s" % (v["id"], v["function"], v.get("at", ""), v["rule"], str(v["detail"])[:1500]))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except Exception:
        traceback.print_exc()
        sys.exit(2)
