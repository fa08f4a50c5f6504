"""Scenario execution and verdicts."""
import os, sys, time, json, ast, hashlib, threading, signal
from . import terms as T
from .terms import Term, NONE, TRUE, FALSE, mk
from .tree import Tree
from .drive import drive, raise_condition
from .norm import Norm, canon
from .diff import compare, Pair
from .elem import Elem
from . import rules

REPO = os.environ.get("GRADSLAM_TREE", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REF = os.path.join(HERE, "reference")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
sys.setrecursionlimit(20000)

class OutOfTime(BaseException):
    """the time budget of a scenario is used up: what is left of it stays undecided"""
START = time.time()
TOTAL = float(os.environ.get("VERIF_SECONDS", "660")); EACH = float(os.environ.get("VERIF_EACH", "200"))

class Finding:
    def __init__(self, rule, key, where, msg): self.rule = rule; self.key = key; self.where = where; self.msg = msg

class Report:
    """obligations of one property"""
    def __init__(self, pid):
        self.pid = pid; self.findings = []; self.proved = 0; self.undecided = []; self.functions = set(); self.sites = 0
        self.obligations = 0; self.notes = []; self.scen = 0; self.failed = []; self.samples = []
    def merge(self, r):
        self.findings += r.findings; self.proved += r.proved; self.undecided += r.undecided; self.functions |= r.functions; self.sites += r.sites
        self.obligations += r.obligations; self.scen += r.scen; self.failed += r.failed; self.samples += r.samples
        self.notes += [n for n in r.notes if n not in self.notes]
    def ok(self, what):
        self.obligations += 1; self.proved += 1
        if len(self.samples) < 400: self.samples.append(what)
    def unsure(self, what, why): self.obligations += 1; self.undecided.append("%s: %s" % (what, why))
    def bad(self, rule, key, where, msg): self.obligations += 1; self.findings.append(Finding(rule, key, where, msg))

_trees = {}
def tree(kind="repo"):
    t = _trees.get(kind)
    if t is None: t = _trees[kind] = Tree(REPO if kind == "repo" else REF)
    return t

_runs = {}
def run(kind, src, args, opaque=(), fs=None):
    k = (kind, src, args, tuple(opaque), id(fs) if fs is not None else 0)
    o = _runs.get(k)
    if o is None:
        t0 = time.time()
        o = _runs[k] = drive(tree(kind), src, args, opaque, fs=fs)
        o.secs = time.time() - t0
        o.N = None
    return o

def norm_of(o, t):
    if o.N is None:
        o.N = Norm(o.st.facts if not o.dead else None)
        o.N.budget = 3000000
    return canon(o.N(t))

def loc_of(o, raw):
    """a source position for the outermost operation of a raw term"""
    best = None
    for x in T.walk(raw):
        l = o.I.locs.get(x)
        if l is not None and not l[0].startswith("<"):
            return l
    return best

def where(o, raw):
    l = loc_of(o, raw)
    return "%s:%s" % l if l else "?"

def definite(pairs): return [p for p in pairs if p.definite]

def scenario(rep, sc, pid):
    """decide every obligation of one scenario for property pid"""
    try: scenario_(rep, sc, pid)
    except OutOfTime: rep.failed.append(sc["id"] + ": time"); rep.unsure(sc["id"], "time budget")
    except Exception as e:                       # a fault of the analyser itself decides nothing
        import traceback
        tb = traceback.extract_tb(e.__traceback__)[-1]
        w = "internal %s: %s (%s:%s)" % (type(e).__name__, str(e)[:160], tb.filename.split("/")[-1], tb.lineno)
        rep.failed.append("%s: %s" % (sc["id"], w)); rep.unsure(sc["id"], w)
def scenario_(rep, sc, pid):
    name = sc["id"]; src = sc["src"]; args = sc.get("args", ""); opq = tuple(sc.get("opaque", ()))
    fs = sc.get("fs"); o = run("repo", src, args, opq, fs)
    rep.scen += 1
    rep.functions |= o.I.visited; rep.sites += o.I.nsites
    for n in o.I.unsupported[:10]:
        if n not in rep.notes: rep.notes.append(n)
    if sc.get("autoonly"):
        if o.error or o.dead: return
        for f in rules.AUTO.get(pid, ()): f(rep, o, name)
        return
    ref = None
    if sc.get("ref", True) and os.path.isdir(REF) and (o.dead or sc.get("raises", False) or any(not isinstance(v, tuple) for v in o.vals.values())): ref = run("ref", src, args, opq, fs)
    if o.error:
        rep.failed.append("%s: %s" % (name, o.error)); rep.unsure(name, o.error); return
    if o.dead:
        if sc.get("dead"):
            rep.ok(name + ": always rejected")
            if pid == "P39": RULES["no_failing_access"](rep, o, name)      # rejected by a check, not by stumbling over what is absent
            return
        if ref is not None and (ref.dead or ref.error): rep.unsure(name, "driver does not complete"); return
        r = o.I.raises[-1] if o.I.raises else None
        ev = [e for e in o.I.events if e.kind in ("attrerror", "badcall", "none-deref", "none-op", "unbound", "undefined", "badunpack", "badindex", "badkey")]
        why = "%s at %s:%s" % (r.exc, r.loc[0], r.loc[1]) if r else "no path returns"
        rep.bad("completes", "%s/completes" % name, "%s:%s" % r.loc if r else "?", "operation on valid input always fails (%s%s)" % (why, "; " + "; ".join(map(str, ev[-2:])) if ev else ""))
        return
    if sc.get("dead"):
        vague = [r for r in o.I.raises if any(isinstance(c[0], Term) and not is_sure(c[0]) and not devices(c[0]) for c in r.dec)]
        if vague: rep.unsure(name + "/rejects", "rejected under an unknown condition"); return
        r2 = ref or (run("ref", src, args, opq, fs) if os.path.isdir(REF) else None)
        if r2 is not None and not r2.error and (o.I.vague - r2.I.vague or len(o.I.unsupported) > len(r2.I.unsupported)):
            rep.unsure(name + "/rejects", "not rejected, but not understood: %s" % ", ".join(sorted(o.I.vague - r2.I.vague) or o.I.unsupported[:1])); return
        rep.bad("rejects", "%s/rejects" % name, name, "operation that must be rejected completes"); return
    for e in o.I.events:
        if e.kind == "badshape" and not any(d[2] == "b" for d in e.dec) and not e.loc[0].startswith("<"):
            rep.bad("completes", "%s/shapes" % name, "%s:%s" % e.loc, "the shapes of the operands never fit: %s" % e.data); return
    labels = list(o.vals)
    for lab in labels:
        if lab.startswith("@"):
            tgt, lab2 = lab[1:].split(":", 1)
        v = o.vals[lab]
        tg = sc.get("labels", {}).get(lab)
        if tg is not None and pid not in tg: continue
        if tg is None and pid in rules.RULEONLY and lab != "=meta": continue
        key = "%s/%s" % (name, lab)
        try:
            if isinstance(v, tuple):
                a, b = norm_of(o, v[0]), norm_of(o, v[1])
                raw = v[0]
            else:
                if ref is None: continue
                if ref.error or ref.dead or lab not in ref.vals: rep.unsure(key, "no reference value"); continue
                a, b = norm_of(o, v), norm_of(ref, ref.vals[lab]); raw = v
        except RecursionError as e:
            rep.unsure(key, "normalisation budget"); continue
        decide(rep, o, key, a, b, raw)
    if ref is not None and sc.get("raises", False) and not ref.error:
        a, b = norm_of(o, raise_condition(o)), norm_of(ref, raise_condition(ref))
        decide(rep, o, name + "/rejections", a, b, NONE)
    for rule in sc.get("rules", ()):
        RULES[rule](rep, o, name)
    for f in rules.AUTO.get(pid, ()): f(rep, o, name)
    if pid in rules.WRITES: rules.writes(rep, o, name, lambda: run("ref", src, args, opq, fs) if os.path.isdir(REF) else None, is_sure, devices)
    for f in sc.get("fns", ()): f(rep, o, name)

def ring(*a): raise OutOfTime()
def timed(rep, sc, pid):
    left = TOTAL - (time.time() - START)
    if left < 3 or rep.findings and left < TOTAL - 240:
        rep.scen += 1; rep.failed.append(sc["id"] + ": time"); rep.unsure(sc["id"], "time budget"); return
    try:
        signal.setitimer(signal.ITIMER_REAL, min(EACH, left))
        scenario(rep, sc, pid)
    except OutOfTime: rep.failed.append(sc["id"] + ": time"); rep.unsure(sc["id"], "time budget")
    finally: signal.setitimer(signal.ITIMER_REAL, 0)

def run_all(rep, todo, pid, jobs):
    """all scenarios of a property, split over worker processes (the result does not depend on the split)"""
    jobs = max(1, min(jobs, (len(todo) + 5) // 6))
    import pickle, tempfile
    d = tempfile.mkdtemp(prefix="sa-")
    tree("repo")
    if os.path.isdir(REF): tree("ref")
    kids = []
    for j in range(jobs):
        pidn = os.fork()
        if pidn == 0:
            rc = 1
            try:
                r = Report(pid)
                signal.signal(signal.SIGALRM, ring)
                for s in todo[j::jobs]: timed(r, s, pid)
                with open(os.path.join(d, str(j)), "wb") as fh: pickle.dump(r, fh)
                rc = 0
            except BaseException:
                import traceback; traceback.print_exc()
            finally: os._exit(rc)
        kids.append(pidn)
    for k in kids: os.waitpid(k, 0)
    for j in range(jobs):
        p = os.path.join(d, str(j))
        if not os.path.exists(p):
            for s in todo[j::jobs]: rep.failed.append(s["id"] + ": worker ended"); rep.unsure(s["id"], "worker ended")
            continue
        r = pickle.load(open(p, "rb")); os.remove(p)
        rep.merge(r)
    os.rmdir(d)

def by_entry(o, a, b):
    """([definite differences], [other differences]) of two small arrays compared entry by entry; None if that is not possible"""
    try:
        ps = Elem(o.N).pairs(a, b)
        if ps is None: return None
        sub = []; und = []
        for i, x, y in ps:
            x, y = canon(x), canon(y)
            if x is y: continue
            try:
                if o.N.cases(x, y): continue
            except (RecursionError, Exception): pass
            q = compare(x, y, o.N)
            (sub if definite(q) else und).append((i, x, y, q))
            if sub or len(und) > 12: break               # one differing entry decides
        return sub, und
    except (RecursionError, ValueError, KeyError, TypeError, AttributeError, IndexError): return None
def settle(rep, o, a, b, out, depth=0):
    ps = []
    settle1(rep, o, a, b, ps, depth)
    understood(a, b, ps)
    out.extend(ps)
def settle1(rep, o, a, b, out, depth=0):
    """(undecided or refuted) pairs of two normal forms"""
    if a is b: return
    if o.N is not None:
        try:
            if o.N.cases(a, b): return
        except (RecursionError, Exception): pass
    if a.op == b.op and a.op in ("tuple", "list") and len(a.args) == len(b.args) and depth < 6:
        for x, y in zip(a.args, b.args):
            if isinstance(x, Term) and isinstance(y, Term): settle(rep, o, x, y, out, depth + 1)
        return
    if o.N is not None:
        r = by_entry(o, a, b)
        if r is not None:
            sub, und = r
            if not sub and not und: return
            for i, x, y, q in (sub or und)[:6]: out.extend(q)
            if not sub and not any(und[0][3]): out.append(Pair(a, b, (), False, "not aligned"))
            return
    q = compare(a, b, o.N)
    out.extend(q if q else [Pair(a, b, (), False, "not aligned")])

# operations that stay in a normal form only when the analysis could not work them out
LEFT = {"method", "unsqueeze", "squeeze", "transpose", "permute", "reshape", "view", "T", "einsum", "narrow", "opaque", "undef"}
def leftover(t):
    s = set()
    for x in T.walk(t):
        if x.op in LEFT: s.add((x.op, x.args[0] if x.op == "method" else None))
        elif x.op == "call" and isinstance(x.args[0], str) and x.args[0].startswith(("torch.", "numpy.")): s.add(("call", x.args[0]))
    return s
def understood(a, b, ps):
    """a computed value with operations nobody understood that the expected one does not have refutes nothing"""
    if not any(p.definite for p in ps): return
    more = leftover(a) - leftover(b)
    if more:
        for p in ps:
            if p.definite: p.definite = False; p.why = "%s; not understood: %s" % (p.why, ", ".join(sorted("%s %s" % (x, y or "") for x, y in more))[:60])

HEADS = {"inverse", "call", "nonzero", "getitem", "exp", "sin", "cos", "norm", "det", "svd", "solve", "argmin", "argmax", "unique", "sort", "topk", "floor", "round", "cumsum", "max", "min", "any", "all", "prod", "store", "scatter"}
def heads(x): return {y for y in T.walk(x) if y.op in HEADS and any(isinstance(z, Term) for z in y.args)}
def same(o, x, y):
    """the two values are equal: by normal form, by cases, or entry by entry"""
    if x is y: return True
    if not isinstance(x, Term) or not isinstance(y, Term): return x == y
    if x.op == y.op == "kw": return x.args[0] == y.args[0] and same(o, x.args[1], y.args[1])
    if x.op == y.op and x.op in ("tuple", "list") and len(x.args) == len(y.args): return all(same(o, p, q) for p, q in zip(x.args, y.args))
    try:
        if o.N.cases(x, y): return True
    except (RecursionError, Exception): pass
    r = by_entry(o, x, y)
    return r is not None and not r[0] and not r[1]
def congruent(o, a, b):
    """b with its inner function applications replaced by equal ones of a, innermost first"""
    tests = 0
    for _ in range(8):
        ha, hb = heads(a), heads(b)
        A, B = ha - hb, hb - ha
        inner = lambda S: [y for y in S if not any(z is not y and z in S for z in T.walk(y))]
        hit = None
        mb = sorted(inner(B), key=T.skey)
        for x in sorted(inner(A), key=T.skey):
            for y in mb:
                if x.op != y.op or len(x.args) != len(y.args) or tests >= 12: continue
                diff = [(p, q) for p, q in zip(x.args, y.args) if p is not q]
                if any(not isinstance(p, Term) or not isinstance(q, Term) for p, q in diff): continue
                tests += 1
                if all(same(o, p, q) for p, q in diff): hit = (y, x); break
            if hit: break
        if not hit: return b
        b = canon(o.N.replace(b, *hit))
        if a is b: return b
    return b

def decide(rep, o, key, a, b, raw):
    if a is b: rep.ok(key); return
    ps = []
    settle(rep, o, a, b, ps)
    if ps and o.N is not None:
        try:
            b2 = congruent(o, a, b)
            if b2 is not b:
                b = b2; ps = []
                settle(rep, o, a, b, ps)
        except (RecursionError, ValueError, KeyError, TypeError, AttributeError, IndexError): pass
    if not ps: rep.ok(key); return
    d = definite(ps)
    if d:
        p = d[0]
        rep.bad("agrees", key, where(o, raw), "%s; computed %s, expected %s" % (p.why, T.show(p.a, 6)[:400] if isinstance(p.a, Term) else p.a, T.show(p.b, 6)[:400] if isinstance(p.b, Term) else p.b))
    else:
        rep.unsure(key, "; ".join(sorted({p.why for p in ps}))[:200])

RULES = {}
def rule(f): RULES[f.__name__] = f; return f

@rule
def no_failing_access(rep, o, name):
    """no path dereferences None, reads a missing attribute, an unbound or undefined name, or calls with wrong arguments"""
    bad = [e for e in o.I.events if e.kind in ("none-deref", "none-op", "attrerror", "unbound", "undefined", "badcall", "badkey", "badindex", "badunpack") and not e.loc[0].startswith("<")]
    if not bad: rep.ok(name + "/no failing access")
    for e in bad:
        fn = e.stack[-1] if e.stack else "?"
        rep.bad("no-failing-access", "%s/%s/%s/%s" % (name, e.kind, fn, str(e.data)[:60]), "%s:%s" % e.loc, "%s in %s: %s" % (e.kind, fn, str(e.data)[:160]))

@rule
def no_code(rep, o, name):
    """no call reachable in the scenario runs code taken from its argument"""
    bad = [e for e in o.I.events if e.kind == "exec"]
    if not bad: rep.ok(name + "/no code is run")
    for e in bad:
        fn = e.stack[-1] if e.stack else "?"
        rep.bad("no-code", "%s/%s/%s" % (name, fn, e.data), "%s:%s" % e.loc, "text is handed to %s in %s" % (e.data, fn))

def passes(op, why, dev=None):
    """every value path from a float tensor input to an output goes through operation `op`"""
    def f(rep, o, name):
        n = 0
        for lab, root in rules.outputs(o):
            st = [root]; seen = set()
            while st:
                t = st.pop()
                if t in seen or not isinstance(t, Term): continue
                seen.add(t)
                if t.op == op and (dev is None or dev(t)): n += 1; continue
                if t.op == "sym" and rules.leaffn()(t):
                    rep.bad("passes-" + op, "%s/%s/%s/%s" % (name, op, lab, t.args[0]), where(o, root), "%s reaches the result %s without %s" % (t.args[0], lab, why)); continue
                st += [a for a in (t.args if t.op in ("list", "tuple") else rules.value_args(t)) if isinstance(a, Term)]
        if n: rep.ok("%s/all %d results pass through %s" % (name, n, op))
    return f
def to_cuda(t):
    from .exprs import Exprs
    d = [a.args[1] for a in t.args[1:] if isinstance(a, Term) and a.op == "kw" and a.args[0] == "device"]
    return bool(d) and Exprs.devtype(None, d[0]) == "cuda"
RULES["all_detached"] = passes("detach", "being detached")
RULES["all_moved"] = passes("to", "being moved to the requested device", to_cuda)

def devices(c):
    """a question about devices only (the inputs of a driver live on one device)"""
    st = [c]; hit = False
    while st:
        t = st.pop()
        if t.op == "attr" and t.args[0] == "device": hit = True; continue
        if t.op == "sym": return False
        st += [a for a in t.args if isinstance(a, Term)]
    return hit
def is_sure(c):
    from .diff import MODELLED, VAGUE
    ops = {x.op for x in T.walk(c)}
    return not (ops - MODELLED - {"add", "sub", "mul", "div", "neg", "ne", "gt", "ge", "and", "or", "not"}) and not (ops & VAGUE) and "call" not in ops and "isinstance" not in ops

def known():
    p = os.path.join(HERE, "known_findings.txt"); out = {}
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding:"):
                kv = dict(x.split("=", 1) for x in l[8:].split("|")[0].split() if "=" in x)
                out[(kv["property"], kv["key"])] = l.split("|", 1)[1].strip() if "|" in l else ""
    return out

def finish(rep, a, secs):
    pid = rep.pid
    kn = known()
    seen = {}
    for f in rep.findings: seen.setdefault(f.key, f)
    new = []
    for k, f in seen.items():
        kk = (pid, k.replace(" ", "_"))
        if kk in kn: print("KNOWN-FINDING: property=%s %s %s" % (pid, k, kn[kk]))
        else: new.append(f)
    ev = {
        "property": pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
        "wall_s": round(secs, 2),
        "violations": len(new),
        "coverage": {
            "explanation": "Abstract interpretation of the functions of gradslam reached from %d driver scenarios over symbolic inputs; every obligation compares the normal form of the value graph the current source computes with the graph required by the property (or, for labels without an explicit requirement, with that of the reviewed reference model), or applies an effect/path rule to the recorded abstract events. Nothing of gradslam is executed." % rep.scen,
            "scenarios": rep.scen, "obligations": rep.obligations, "discharged": rep.proved, "undecided": len(rep.undecided), "refuted": len(rep.findings),
            "functions_analysed": len(rep.functions), "functions": sorted(rep.functions)[:200],
            "call_sites_evaluated": rep.sites,
            "undecided_list": rep.undecided[:60], "not_modelled": rep.notes[:40], "failed_scenarios": rep.failed[:40],
            "sample_discharged": rep.samples[:40],
        },
    }
    os.makedirs(EVID, exist_ok=True)
    rp = os.path.join(EVID, "%s.findings.txt" % pid)
    if new:
        with open(rp, "w") as fh:
            for f in new: fh.write("%s\n  rule: %s\n  at: %s\n  %s\n" % (f.key, f.rule, f.where, f.msg))
    elif os.path.exists(rp): os.remove(rp)
    json.dump(ev, open(os.path.join(EVID, "%s.json" % pid), "w"), indent=1)
    if a.v:
        for u in rep.undecided: print("undecided:", u[:300])
        for n in rep.notes: print("note:", n)
    print("%s: %d scenarios, %d obligations, %d discharged, %d undecided, %d refuted; %d functions analysed, %.1fs" % (pid, rep.scen, rep.obligations, rep.proved, len(rep.undecided), len(rep.findings), len(rep.functions), secs))
    if new:
        for f in new[:20]: print("  %s at %s: %s: %s" % (f.key, f.where, f.rule, f.msg[:600]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        raise SystemExit(1)
    if rep.obligations == 0 or rep.proved == 0:
        print("no obligation could be decided"); raise SystemExit(2)
    if rep.failed and len(rep.failed) * 2 > rep.scen:
        print("most scenarios could not be analysed: %s" % rep.failed[:3]); raise SystemExit(2)
