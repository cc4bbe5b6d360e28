"""Where a value comes from: labels carried by assignments, arguments, returns, fields and containers.

A label is (source, exact): exact means the value itself was copied, not computed from.  Sources are options (fields of
input objects), parameters of chosen interface functions and fields without any writer."""
from agx import *

ARITH = {"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^"}
GET = {"at", "operator[]", "front", "back", "get", "begin", "end", "data", "find", "operator*", "operator->", "rbegin", "top"}
PUT = {"push_back", "push", "emplace_back", "insert", "push_front", "assign"}


class Lab:
    def __init__(s, P, own=(), api=()):
        """own: fields whose reads carry their own label only; api: qualified names whose parameters are sources"""
        s.P = P; s.own = set(own); s.api = set(api)
        s.env = defaultdict(set); s.funs = [f for f in P.funcs.values()]
        s.writes = defaultdict(list)          # own field -> (f, node, value node)
        s.run()

    # -- values
    def base(s, f, i):
        """the variable or field an lvalue expression lives in: key or None"""
        for _ in range(20):
            i = f.strip(i); x = f.nodes[i]
            if x["k"] == "DeclRefExpr": return ("v", f.id, x["d"]) if x["d"].startswith("%") else ("g", x["d"])
            if x["k"] == "MemberExpr" and x.get("dk") != "CXXMethod": return ("f", x["d"])
            if x["k"] in ("UnaryOperator",) and x["op"] in ("*", "&", "++", "--"): i = x["c"][0]; continue
            if x["k"] == "ArraySubscriptExpr": i = x["c"][0]; continue
            if x["k"] in CALLS and x.get("n") in GET and not s.P.targets(f, x):
                o = f.obj(x) if x.get("meth") else (f.args(x) or [None])[0]
                if o is None: return None
                i = o; continue
            return None
        return None

    def load(s, k):
        if k is None: return set()
        if k[0] == "f" and k[1] in s.own: return {(k[1], True)}
        return s.env[k]

    def ev(s, f, i, d=0):
        if i is None or i < 0 or d > 60: return set()
        x = f.nodes[i]
        if x is None: return set()
        k = x["k"]
        if k in CASTS or k in ("ExprWithCleanups", "MaterializeTemporaryExpr", "ParenExpr", "CXXBindTemporaryExpr", "ConstantExpr"):
            r = s.ev(f, x["c"][0], d + 1) if x.get("c") else set()
            if x.get("ck") in ("FloatingToIntegral",): r = {(l, False) for l, _ in r}
            return r
        if k == "DeclRefExpr": return s.load(("v", f.id, x["d"]) if x["d"].startswith("%") else ("g", x["d"]))
        if k == "MemberExpr": return s.load(("f", x["d"]))
        if k == "ArraySubscriptExpr": return s.ev(f, x["c"][0], d + 1)
        if k == "UnaryOperator":
            r = s.ev(f, x["c"][0], d + 1)
            return r if x["op"] in ("*", "&", "+") or x.get("post") else {(l, False) for l, _ in r}
        if k in ("BinaryOperator", "CompoundAssignOperator"):
            if x["op"] == "=": return s.ev(f, x["c"][1], d + 1)
            if x["op"] == ",": return s.ev(f, x["c"][1], d + 1)
            return {(l, False) for c in x["c"] for l, _ in s.ev(f, c, d + 1)}
        if k == "ConditionalOperator": return s.ev(f, x["c"][1], d + 1) | s.ev(f, x["c"][2], d + 1)
        if k in CALLS:
            ts = s.P.targets(f, x)
            if ts:
                r = set()
                for t in ts: r |= s.env[("r", t.id)]
                return r
            if x.get("n") in GET:
                o = f.obj(x) if x.get("meth") else (f.args(x) or [None])[0]
                return s.ev(f, o, d + 1) if o is not None else set()
            if x.get("n") in ("min", "max", "abs", "fabs", "ceil", "floor"):
                return {(l, False) for c in f.args(x) for l, _ in s.ev(f, c, d + 1)}
            if x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr") and len(f.args(x)) == 1: return s.ev(f, f.args(x)[0], d + 1)
            return set()
        if k == "CXXDefaultArgExpr": return set()
        return set()

    def add(s, k, v):
        if k is None or not v: return
        if k[0] == "f" and k[1] in s.own: return
        o = s.env[k]
        if not v <= o: o |= v; s.ch = True

    def step(s, f):
        for k, x in enumerate(f.nodes):
            if x is None: continue
            kd = x["k"]
            if kd == "DeclStmt":
                for d in x["decls"]:
                    if d["init"] >= 0: s.add(("v", f.id, d["d"]), s.ev(f, d["init"]))
            elif kd in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                b = s.base(f, x["c"][0]); v = s.ev(f, x["c"][1])
                if x["op"] != "=": v = {(l, False) for l, _ in v}
                s.add(b, v)
            elif kd == "ReturnStmt" and x.get("c"): s.add(("r", f.id), s.ev(f, x["c"][0]))
            elif kd in CALLS or kd in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                ts = s.P.targets(f, x); a = f.args(x)
                for t in ts:
                    for j, p in enumerate(t.params):
                        if j >= len(a): break
                        s.add(("v", t.id, p["d"]), s.ev(f, a[j]))
                        if p["ct"].rstrip().endswith(("&", "*")) and not p["ct"].startswith("const"):
                            b = s.base(f, a[j])
                            if b is not None: s.add(b, s.env[("w", t.id, p["d"])])
                if not ts and x.get("n") in PUT and x.get("meth"):
                    o = f.obj(x)
                    if o is not None:
                        b = s.base(f, o)
                        for y in a: s.add(b, s.ev(f, y))
                if not ts and kd == "CXXOperatorCallExpr" and x.get("n") == "operator=":
                    if x.get("meth") and len(a) == 1: s.add(s.base(f, f.obj(x)), s.ev(f, a[0]))
                    elif len(a) == 2: s.add(s.base(f, a[0]), s.ev(f, a[1]))
        # what is written through parameters
        ps = {p["d"] for p in f.params if p["ct"].rstrip().endswith(("&", "*"))}
        if ps:
            for x in f.nodes:
                if x is not None and x["k"] == "BinaryOperator" and x["op"] == "=":
                    b = s.base(f, x["c"][0])
                    if b is not None and b[0] == "v" and b[2] in ps:
                        v = s.ev(f, x["c"][1]); w = s.env[("w", f.id, b[2])]
                        if not v <= w: w |= v; s.ch = True
        for b in f.succ():
            for e in f.elems(b):
                if isinstance(e, dict) and e.get("x") == "init" and e.get("d") and isinstance(e.get("v", e.get("node")), int):
                    s.add(("f", e["d"]), s.ev(f, e["v"]))

    def run(s):
        for f in s.funs:
            if f.qn in s.api:
                for j, p in enumerate(f.params): s.env[("v", f.id, p["d"])].add((("P", f.qn, j), True))
        for n in range(40):
            s.ch = False
            for f in s.funs: s.step(f)
            if not s.ch: break
        s.rounds = n + 1
        for f in s.funs:
            for x in f.reach_nodes():
                if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    b = s.base(f, x["c"][0])
                    if b and b[0] == "f" and b[1] in s.own: s.writes[b[1]].append((f, x["i"], x["c"][1]))
                elif x["k"] in CALLS and x.get("meth") and x.get("n") in PUT and not s.P.targets(f, x):
                    o = f.obj(x); b = s.base(f, o) if o is not None else None
                    if b and b[0] == "f" and b[1] in s.own:
                        for y in f.args(x): s.writes[b[1]].append((f, x["i"], y))
            for b in f.succ():
                for e in f.elems(b):
                    if isinstance(e, dict) and e.get("x") == "init" and e.get("d") in s.own: s.writes[e["d"]].append((f, e["v"], e["v"]))

    def src(s, f, i): return {l for l, _ in s.ev(f, i)}
    def exact(s, f, i): return {l for l, e in s.ev(f, i) if e}
