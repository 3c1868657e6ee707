"""Check context: obligations, violations, evidence, known findings."""
import traceback
import hashlib, json, os, sys, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from engine import *
from lib import *
from lin import thread
import facts

HERE = facts.HERE


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.t0 = time.time()
        self.obl = []  # (name, detail)
        self.viol = []  # (key, message, witness)
        self.queries = []
        self.rules = []
        self.notes = []
        self._q = {}

    def load(self, crates=None):
        d, n = facts.extract()
        self.srcfiles = n
        self.p = Program(d, set(crates) if crates else None)
        return self.p

    # ---- evaluation
    def query(self, root, **kw):
        key = (root if isinstance(root, str) else root.key, tuple(sorted((k, v) for k, v in kw.items() if not callable(v))), tuple(sorted((k, id(v)) for k, v in kw.items() if callable(v))))
        if key in self._q:
            return self._q[key]
        q = thread(Query(self.p, root, **kw))
        self._q[key] = q
        self._q[("keep", key)] = kw  # the key holds ids of functions
        self.queries.append(q)
        return q

    # ---- obligations
    def rule(self, text):
        self.rules.append(text)

    def ok(self, name, detail=""):
        self.obl.append((name, True, str(detail)[:300]))

    def bad(self, key, msg, witness=(), where=""):
        self.obl.append((key, False, str(msg)[:300]))
        self.viol.append((key, msg, [repr(w)[:400] for w in witness][-25:], where))

    def expect(self, key, cond, msg, witness=(), where="", detail=""):
        if cond:
            self.ok(key, detail or msg)
        else:
            self.bad(key, msg, witness, where)
        return cond


def run_check(pid, tier, fn):
    ctx = Ctx(pid, tier)
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    err = None
    try:
        fn(ctx)
    except facts.BuildError as e:
        print(f"ERROR property={pid} {e}")
        return 2
    except Anchor as e:
        ctx.bad("anchor", f"the analysed construct is gone: {e}")
    except Budget as e:
        ctx.bad("budget", f"the analysis could not cover the code: {e}")
    except Exception as e:
        # a construct has a shape that a rule does not know: its obligation is not met
        traceback.print_exc()
        at = traceback.extract_tb(e.__traceback__)[-1]
        ctx.bad("analysis", f"the rule could not be established on this shape of the code: {type(e).__name__}: {e} ({os.path.basename(at.filename)}:{at.lineno})")
    known = {}
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        for f in json.load(open(kf))["findings"]:
            if f["property"] == pid and f.get("status") == "known":
                known[f["key"]] = f
    new = []
    for key, msg, wit, where in ctx.viol:
        if key in known:
            print(f"KNOWN-FINDING: property={pid} {known[key]['what']}")
        else:
            new.append((key, msg, wit, where))
    for key, f in known.items():
        if key not in [v[0] for v in ctx.viol]:
            print(f"NOTE: known finding {key} of {pid} was not seen on this tree")
    evd = os.path.join(HERE, "evidence")
    os.makedirs(evd, exist_ok=True)
    fns = set()
    nodes = events = 0
    for q in ctx.queries:
        fns.add(q.root.norm)
        fns |= q.g.inlined
        nodes += q.g.n_nodes
        events += sum(len(evs) for _, evs, _ in q.edges)
    cov = {
        "explanation": "Static analysis of the compiler's resolved MIR of /repo's current source (no code of it is run). Rules: " + " | ".join(ctx.rules),
        "source_files_hashed": getattr(ctx, "srcfiles", 0),
        "root_functions": sorted(set(q.root.norm for q in ctx.queries))[:80],
        "functions_analysed": len(fns) + len(getattr(ctx, "extra_fns", ())),
        "program_points": nodes,
        "events": events,
        "obligations": len(ctx.obl),
        "discharged": sum(1 for o in ctx.obl if o[1]),
        "samples": [{"obligation": a, "holds": b, "detail": c} for a, b, c in ctx.obl[:60]],
    }
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "other",
        "coverage": cov,
        "assumptions": ["rustc's MIR is the program; library functions behave as documented; panics and unwinding paths are outside the rules"] + ctx.notes,
        "wall_s": round(time.time() - ctx.t0, 3),
        "violations": len(new),
    }
    json.dump(ev, open(os.path.join(evd, pid + ".json"), "w"), indent=1)
    if not ctx.obl:
        print(f"ERROR property={pid}: nothing was analysed")
        return 2
    for i, (key, msg, wit, where) in enumerate(new):
        rp = os.path.join(evd, f"{pid}-violation-{i}.txt")
        with open(rp, "w") as f:
            f.write(f"property {pid}\nrule key: {key}\n{msg}\nat: {where}\n\npath / evidence:\n" + "\n".join(wit) + "\n")
        print(f"VIOLATION property={pid} replay={rp}")
        print(f"  {key}: {msg}" + (f"  at {where}" if where else ""))
        for w in wit[-6:]:
            print("    " + w[:220])
    if new:
        return 1
    print(f"OK property={pid} obligations={len(ctx.obl)} functions={cov['functions_analysed']} points={nodes} wall={ev['wall_s']}s")
    return 0
