"""P22: rebuilding a graph, removing an edge type, resetting and clearing leave nothing of what was there before."""
import re
import agx, phase
from agx import *

G = ("agi::Ngraph", "agi::PNgraph")
CLEARS = {"clear", "swap", "assign", "operator="}
INS = {"insert", "push_back", "emplace", "emplace_back", "push", "push_front"}
RESETS = {"agi::Ngraph::resetOwnership": ["agi::PNgraph::original_owners"], "agi::Ngraph::resetPartition": ["agi::PNgraph::original_owners", "agi::Ngraph::wp_map"]}
CONTAINER = re.compile(r"^(const )?std::(unordered_|multi)*(map|set|vector|list|deque|queue)<")
ALL = "all"


def iscont(ct): return bool(CONTAINER.match(ct))


class Reset:
    def __init__(s, P, r):
        s.P = P; s.r = r; s._sum = {}; s.act = set(); s.bytypes = set()
        s.fields = {}
        for q, rc in P.recs.items():
            for fl in rc["fields"]: s.fields[fl["d"]] = (q, fl)

    # -- what an lvalue names: (field of this, index) with index None, ALL, ("v", variable), ("c", constant)
    def place(s, f, i, d=0):
        if i is None or d > 12: return None
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if k == "MemberExpr" and x.get("dk") != "CXXMethod" and x["d"] in s.fields:
            b = f.nodes[f.strip(x["c"][0])] if x.get("c") else None
            if b is None or b["k"] == "CXXThisExpr": return (x["d"], None)
            return None
        if k == "ArraySubscriptExpr" or k in CALLS and x.get("n") in ("operator[]", "at") and len(f.args(x)) + (1 if x.get("meth") else 0) == 2:
            if k == "ArraySubscriptExpr": a, b = x["c"]
            elif x.get("meth"): a, b = f.obj(x), f.args(x)[0]
            else: a, b = f.args(x)
            p = s.place(f, a, d + 1)
            if p is None or p[1] is not None or s.fields[p[0]][1].get("asz") is None: return None
            y = f.nodes[f.strip(b)]
            if y.get("cv") is not None: return (p[0], ("c", str(y["cv"])))
            if y["k"] == "DeclRefExpr": return (p[0], ("v", y["d"]))
            return (p[0], ("e", f.text(b)))
        if k == "UnaryOperator" and x["op"] in ("*", "&"): return s.place(f, x["c"][0], d + 1)
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            v = f.vars.get(x["d"])
            if not v: return None
            n = v.get("n") or x.get("n") or ""
            e = single_def(f, x["d"]) if v["ct"].rstrip().endswith(("&", "*")) or n.startswith("__") else None
            if e is None: return None
            p = s.place(f, e, d + 1)
            if p and n.startswith("__begin"): return (p[0], ALL) if p[1] is None else p
            if p and v["ct"].rstrip().endswith("*") and s.fields[p[0]][1]["ct"].rstrip().endswith("*") and not n.startswith("__"): return None   # a copy of a pointer
            return p
        return None

    def whole(s, p):
        """a container or scalar named without an index"""
        return p

    def kills(s, f, x):
        """[(field, index)] given up by this node"""
        out = []; k = x["k"]
        if k in ("BinaryOperator",) and x["op"] == "=":
            p = s.place(f, x["c"][0])
            if p: out.append(p)
        elif k in CALLS:
            n = x.get("n"); a = f.args(x)
            if n in CLEARS or n == "erase" and len(a) == 2 or n == "resize" and a and str(f.nodes[f.strip(a[0])].get("cv")) == "0":
                o = f.obj(x) if x.get("meth") else (a[0] if a else None)
                if n == "swap":
                    for y in ([f.obj(x)] if x.get("meth") else []) + a:
                        p = s.place(f, y)
                        if p: out.append(p)
                else:
                    p = s.place(f, o) if o is not None else None
                    if p: out.append(p)
            elif n in ("memset", "fill", "fill_n", "__builtin_memset") and a:
                p = s.place(f, a[0])
                if p and p[1] is None: out.append((p[0], ALL))
            for t in s.P.targets(f, x):
                if x.get("meth") and f.obj(x) is not None and f.nodes[f.strip(f.obj(x))]["k"] == "CXXThisExpr" and t.id != f.id:
                    for fl, ix in s.must(t):
                        if isinstance(ix, tuple) and ix[0] == "v":
                            j = next((j for j, q in enumerate(t.params) if q["d"] == ix[1]), None)
                            if j is None or j >= len(a): continue
                            y = f.nodes[f.strip(a[j])]
                            if y.get("cv") is not None: ix = ("c", str(y["cv"]))
                            elif y["k"] == "DeclRefExpr": ix = ("v", y["d"])
                            else: ix = ("e", f.text(a[j]))
                        out.append((fl, ix))
                # given up through a reference
                for j, q in enumerate(t.params):
                    if j < len(a) and q["ct"].rstrip().endswith(("&", "*")) and not q["ct"].startswith("const") and s.resetsparam(t, q["d"]):
                        p = s.place(f, a[j])
                        if p: out.append((p[0], ALL) if p[1] is None and s.fields[p[0]][1].get("asz") else p)
        return out

    def resetsparam(s, t, d):
        for x in t.reach_nodes():
            if x["k"] == "BinaryOperator" and x["op"] == "=":
                y = t.nodes[t.strip(x["c"][0])]
                while y["k"] in ("UnaryOperator", "ArraySubscriptExpr"): y = t.nodes[t.strip(y["c"][0])]
                if y.get("d") == d: return True
            if x["k"] in CALLS and x.get("n") in CLEARS and x.get("meth"):
                y = t.nodes[t.strip(t.obj(x))]
                while y["k"] in ("UnaryOperator", "ArraySubscriptExpr"): y = t.nodes[t.strip(y["c"][0])]
                if y.get("d") == d: return True
        return False

    def nulls(s, f, c):
        """(place, sense): on the edge where the condition is `sense` the place is known to be empty"""
        sense = True
        for _ in range(8):
            c = f.strip(c); x = f.nodes[c]
            if x["k"] == "UnaryOperator" and x["op"] == "!": sense = not sense; c = x["c"][0]; continue
            break
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!=", ">"):
            z = f.nodes[f.strip(x["c"][1])]
            if str(z.get("cv")) == "0" or z["k"] in ("GNUNullExpr", "CXXNullPtrLiteralExpr"):
                p = s.sized(f, x["c"][0])
                return (p, sense if x["op"] == "==" else not sense) if p else None
            return None
        if x["k"] in CALLS and x.get("n") == "empty" and x.get("meth"):
            p = s.place(f, f.obj(x)); return (p, sense) if p else None
        p = s.sized(f, c)
        return (p, not sense) if p else None

    def sized(s, f, i):
        x = f.nodes[f.strip(i)]
        if x["k"] in CALLS and x.get("n") == "size" and x.get("meth"): return s.place(f, f.obj(x))
        p = s.place(f, i)
        return p if p and (s.fields[p[0]][1]["ct"].rstrip().endswith("*") or "*[" in s.fields[p[0]][1]["ct"].replace(" ", "")) else None

    def gen(s, f, b):
        out = set()
        for e in f.elems(b):
            if isinstance(e, int): out |= set(s.kills(f, f.nodes[e]))
        return out

    def flow(s, f, entry, inside=None, until=None):
        """places given up on every way from entry to each block"""
        IN = {entry: frozenset()}; wl = [entry]; lp = loops(f)
        while wl:
            b = wl.pop(); out = set(IN[b]) | s.gen(f, b)
            c = phase.cond_of(f, b); ss = f.succ()[b]
            nz = s.nulls(f, c) if c is not None and len(ss) == 2 else None
            for k, t in enumerate(ss):
                if inside is not None and t not in inside: continue
                if until is not None and t == until: continue
                o = set(out)
                if nz and (k == 0) == nz[1]: o.add(nz[0])
                if b in lp and t not in lp[b] and (until is None or b != until): o |= s.swept(f, b, lp[b])
                n = frozenset(o) if t not in IN else IN[t] & frozenset(o)
                if t not in IN or n != IN[t]: IN[t] = n; wl.append(t)
        return IN

    def swept(s, f, h, body):
        """what a counted loop gives up for every edge type"""
        if not hasattr(f, "_sw"): f._sw = {}
        if h in f._sw: return f._sw[h]
        f._sw[h] = set()
        starts = [t for t in f.succ()[h] if t in body]
        if h in starts: starts = []
        res = None
        if not starts: return set()
        g0 = s.gen(f, h)
        for st in starts:
            IN = s.flow(f, st, inside=body, until=h)
            for b in body:
                if b == h or h not in f.succ()[b] or b not in IN: continue
                c = phase.cond_of(f, b); o = set(IN[b]) | s.gen(f, b)
                nz = s.nulls(f, c) if c is not None and len(f.succ()[b]) == 2 else None
                if nz and f.succ()[b][0 if nz[1] else 1] == h: o.add(nz[0])
                res = o if res is None else res & o
        res = (res or set()) | g0
        out = {p for p in res if p[1] == ALL}
        c = f.blocks[h].get("cond")
        for p in res:
            if isinstance(p[1], tuple) and p[1][0] == "v" and c is not None and s.covers(f, h, body, f.strip(c), p): out.add((p[0], ALL))
        f._sw[h] = out
        return out

    def covers(s, f, h, body, c, p):
        x = f.nodes[c]; v = p[1][1]
        if x["k"] != "BinaryOperator" or x["op"] not in ("<", "!=", "<=", ">", ">="): return False
        l, r = f.nodes[f.strip(x["c"][0])], f.nodes[f.strip(x["c"][1])]; op = x["op"]
        if r.get("d") == v: l, r = r, l; op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if l.get("d") != v: return False
        n = s.fields[p[0]][1]["asz"]; us = var_uses(f).get(v, [])
        if op in ("<", "!=", "<="):
            if r.get("cv") is not None:
                if int(r["cv"]) + (op == "<=") < n: return False
            elif (r.get("d") or "").split("::")[-1] not in ("num_types",): return False
            else: s.bytypes.add(f.id)
            return all(str(f.nodes[f.strip(w)].get("cv")) == "0" for k, w, _ in us if k == "def" and w is not None)
        # downwards to 0
        return str(r.get("cv")) in ("0", "-1") and all(w is not None and s.num(f, w) in (n - 1, n) for k, w, _ in us if k == "def")

    def num(s, f, w):
        try: return int(f.nodes[f.strip(w)].get("cv"))
        except (TypeError, ValueError): return None

    def must(s, f):
        """places given up on every path through the function"""
        if f.id in s._sum: return s._sum[f.id]
        if f.id in s.act: return frozenset()
        s.act.add(f.id)
        IN = s.flow(f, f.entry)
        s._sum[f.id] = IN.get(f.exit, frozenset())
        s.act.discard(f.id)
        return s._sum[f.id]

    def may(s, f, seen=None):
        """fields of this the function, or what it calls on the same object, may write"""
        seen = seen if seen is not None else set()
        if f.id in seen: return set()
        seen.add(f.id); out = set()
        for x in f.reach_nodes():
            k = x["k"]; o = None
            if k in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): o = x["c"][0]
            elif k == "UnaryOperator" and x["op"] in ("++", "--"): o = x["c"][0]
            elif k in CALLS and x.get("meth") and x.get("n") in CLEARS | INS | {"erase", "pop_back", "resize", "pop"}: o = f.obj(x)
            if o is not None:
                b = s.root(f, o)
                if b: out.add(b)
            if k in CALLS and x.get("meth") and f.obj(x) is not None and f.nodes[f.strip(f.obj(x))]["k"] == "CXXThisExpr":
                for t in s.P.targets(f, x): out |= s.may(t, seen)
        return out

    def root(s, f, i):
        """the field of this an lvalue lies in"""
        for _ in range(12):
            i = f.strip(i); x = f.nodes[i]
            if x["k"] == "MemberExpr" and x.get("dk") != "CXXMethod":
                b = f.nodes[f.strip(x["c"][0])] if x.get("c") else None
                if b is None or b["k"] == "CXXThisExpr": return x["d"] if x["d"] in s.fields else None
                i = x["c"][0]; continue
            if x["k"] == "ArraySubscriptExpr": i = x["c"][0]; continue
            if x["k"] in CALLS and x.get("n") in ("operator[]", "at"): i = f.obj(x) if x.get("meth") else f.args(x)[0]; continue
            return None
        return None

    # -- the rules
    def graphs(s):
        P = s.P; r = s.r; n = 0
        fs = [fl for q in G for fl in P.recs[q]["fields"]]
        short = lambda d: d.split("::")[-1]
        percount = [fl for fl in fs if fl.get("asz") and not fl["aet"].endswith("*") and not iscont(fl["aet"])]
        for f in sorted(P.byname.get("agi::Ngraph::constructVerts", []), key=lambda z: z.line):
            k = s.must(f)
            for fl in fs:
                if fl in percount: continue
                n += 1
                want = (fl["d"], ALL) if fl.get("asz") else (fl["d"], None)
                if want not in k and (fl["d"], ALL) not in k:
                    r.bad("%s/%d|%s|kept" % (f.qn, len(f.params), short(fl["d"])), "%s:%d (%s)" % (f.file, f.line, f.qn), "building a new graph keeps %s of the old one%s" % (short(fl["d"]), " (of some edge types, or on some path)" if fl.get("asz") else " on some path"))
        # what is given up type by type, up to the number of types, is given up before that number is lost
        for f in P.byname.get("agi::Ngraph::constructVerts", []) + P.byname.get("agi::Ngraph::destroyData", []):
            set_ = [x["i"] for x in f.reach_nodes() if x["k"] == "BinaryOperator" and (None, "agi::PNgraph::num_types") == (s.place(f, x["c"][0]) or (0, 0))[::-1] and x["op"] == "="]
            use = [x["i"] for x in f.calls() for t in P.targets(f, x) if t.id in s.bytypes]
            if f.id in s.bytypes: use += [f.blocks[h]["cond"] for h in loops(f) if f.blocks[h].get("cond") is not None]
            for u in use:
                for w in set_:
                    if s.after(f, w, u): r.bad("%s/%d|num_types|early" % (f.qn, len(f.params)), f.where(u), "what the old edge types hold is given up type by type after the number of types has been set anew")
        r.need("state of the graph renewed by construction", n, 30)
        n = 0
        for f in P.byname.get("agi::Ngraph::removeEdges", []):
            k = s.must(f); t = next((p["d"] for p in f.params), None)
            for fl in fs:
                if not fl.get("asz"): continue
                n += 1
                if not {(fl["d"], ("v", t)), (fl["d"], ALL)} & set(k):
                    r.bad("%s|%s|kept" % (f.qn, short(fl["d"])), "%s:%d (%s)" % (f.file, f.line, f.qn), "%s of the removed edge type stays" % short(fl["d"]))
        r.need("state of an edge type given up when it is removed", n, 15)
        # overloads establish the same
        n = 0
        for name in ("constructVerts", "constructEdges", "constructGhosts"):
            L = sorted(P.byname.get("agi::Ngraph::" + name, []), key=lambda z: z.line)
            ms = [{d for d, ix in s.must(f)} for f in L]; ys = [s.may(f) for f in L]
            um = set().union(*ms); uy = set().union(*ys)
            for f, m, y in zip(L, ms, ys):
                n += len(um | uy)
                for d in sorted(um - m): r.bad("%s/%d|%s|unset" % (f.qn, len(f.params), short(d)), "%s:%d (%s)" % (f.file, f.line, f.qn), "%s is not set on every path, though the other form of %s sets it" % (short(d), name))
                for d in sorted(uy - y - (um - m)): r.bad("%s/%d|%s|unset" % (f.qn, len(f.params), short(d)), "%s:%d (%s)" % (f.file, f.line, f.qn), "%s is not filled, though the other form of %s fills it" % (short(d), name))
        r.need("fields compared between the forms of construction", n, 60)
        # resets
        n = 0
        for q, ds in RESETS.items():
            for f in P.byname.get(q, []):
                k = {d for d, ix in s.must(f)}
                for d in ds:
                    n += 1
                    if d not in k: r.bad("%s|%s|kept" % (f.qn, short(d)), "%s:%d (%s)" % (f.file, f.line, f.qn), "%s is kept by a reset on some path" % short(d))
        r.need("resets", n, 3)

    def clears(s):
        P = s.P; n = 0
        for f in list(P.funcs.values()):
            if f.name != "clear" or not f.cls or f.cls not in P.recs or f.file.startswith("pcu/") or f.params: continue
            st = set()
            for g in P.funcs.values():
                if g.cls == f.cls and not g.ctor and not g.dtor and g.id != f.id: st |= {d for d in s.may(g) if s.fields[d][0] == f.cls}
            k = {d for d, ix in s.must(f) if ix in (None, ALL)}
            for d in sorted(st):
                n += 1
                if d not in k: s.r.bad("%s|%s|kept" % (f.qn, d.split("::")[-1]), "%s:%d (%s)" % (f.file, f.line, f.qn), "%s, which other members change, is kept by clear()" % d.split("::")[-1])
            # marks other members leave in a tag are taken back
            def tagged(h): return {fl for x in h.reach_nodes() if x["k"] in CALLS and x.get("meth") and re.match(r"set\w*Tag$", x.get("n") or "") and h.args(x) for fl in [s.root(h, h.args(x)[0])] if fl and s.fields[fl][0] == f.cls}
            marks = set().union(*[tagged(g) for g in P.funcs.values() if g.cls == f.cls and not g.ctor and not g.dtor and g.id != f.id])
            for d in sorted(marks):
                n += 1
                if d not in tagged(f) and not any(d in tagged(t) for x in f.calls() for t in P.targets(f, x)): s.r.bad("%s|%s|marks" % (f.qn, d.split("::")[-1]), "%s:%d (%s)" % (f.file, f.line, f.qn), "the marks other members leave in the tag %s are not taken back by clear()" % d.split("::")[-1])
            # not emptied before it is walked
            for x in f.reach_nodes():
                for d, ix in s.kills(f, x):
                    if ix is None and iscont(s.fields[d][1]["ct"]):
                        for y in f.reach_nodes():
                            if y["k"] in CALLS and y.get("meth") and y.get("n") in ("size", "begin", "operator[]", "at") and y["i"] != x["i"] and s.place(f, f.obj(y)) == (d, None) and s.after(f, x["i"], y["i"]) and not s.after(f, y["i"], x["i"]):
                                s.r.bad("%s|%s|order" % (f.qn, d.split("::")[-1]), f.where(y["i"]), "%s is walked after it was emptied" % d.split("::")[-1])
        s.r.need("members renewed by clear()", n, 3)

    def at(s, f, i):
        if not hasattr(f, "_pat"):
            f._pat = {}
            for b in f.succ():
                for k, e in enumerate(f.elems(b)):
                    if isinstance(e, int): f._pat[e] = (b, k)
        while i is not None and i not in f._pat: i = f.parent.get(i)
        return f._pat.get(i)

    def after(s, f, i, j):
        a, b = s.at(f, i), s.at(f, j)
        if a is None or b is None: return False
        if a[0] == b[0] and b[1] > a[1]: return True
        seen = set(); st = list(f.succ()[a[0]])
        while st:
            q = st.pop()
            if q in seen: continue
            seen.add(q); st += f.succ()[q]
        return b[0] in seen

    # -- a set that a query adds to is empty each time its answer is read
    def answers(s):
        P = s.P; adds = {}
        for f in P.funcs.values():
            for j, p in enumerate(f.params):
                ct = p["ct"].rstrip()
                if not ct.endswith("&") or ct.startswith("const") or not iscont(ct[:-1].strip()): continue
                ins = clr = rd = False
                for x in f.reach_nodes():
                    if x["k"] not in CALLS: continue
                    o = f.obj(x) if x.get("meth") else None
                    if o is None and x["k"] == "CXXOperatorCallExpr" and f.args(x): o = f.args(x)[0]
                    if o is None or f.nodes[f.strip(o)].get("d") != p["d"]: continue
                    if x.get("n") in INS | {"operator[]"}: ins = True
                    if x.get("n") in CLEARS: clr = True
                    if x.get("n") in ("find", "count", "begin", "size", "end", "at"): rd = True
                if ins and not clr: adds[f.id, j] = rd
        n = 0
        for f in P.funcs.values():
            if f.file.startswith("pcu/"): continue
            lp = loops(f)
            for x in f.calls():
                for t in P.targets(f, x):
                    for j, a in enumerate(f.args(x)):
                        if (t.id, j) not in adds: continue
                        y = f.nodes[f.strip(a)]
                        if y["k"] != "DeclRefExpr" or not y["d"].startswith("%") or any(p["d"] == y["d"] for p in f.params): continue
                        n += 1
                        at = s.at(f, x["i"])
                        if at is None: continue
                        for h, body in lp.items():
                            if at[0] not in body: continue
                            # declared or emptied in the loop?
                            fresh = any(isinstance(e, int) and (f.nodes[e]["k"] == "DeclStmt" and any(d["d"] == y["d"] for d in f.nodes[e]["decls"]) or f.nodes[e]["k"] in CALLS and f.nodes[e].get("n") in CLEARS and f.nodes[e].get("meth") and f.nodes[f.strip(f.obj(f.nodes[e]))].get("d") == y["d"]) for b in body for e in f.elems(b))
                            if fresh: continue
                            walked = next((z for b in body for e in f.elems(b) if isinstance(e, int) for z in [f.nodes[e]] if z["k"] in CALLS and z.get("meth") and z.get("n") in ("begin", "size", "empty") and not P.targets(f, z) and f.nodes[f.strip(f.obj(z))].get("d") == y["d"]), None)
                            if walked: s.r.bad("%s|%s|stale" % (f.qn, t.name), f.where(walked["i"]), "'%s' still holds what earlier rounds of the loop put in when it is read as the answer of '%s'" % (y.get("n") or f.text(y["i"]), f.text(x["i"])[:60])); break
        s.r.need("answers collected in a caller's container", n, 5)


def run(P, r, tier):
    s = Reset(P, r)
    s.graphs(); s.clears(); s.answers()
    r.count("functions analysed", len(P.funcs)); r.count("functions summarised", len(s._sum))
    r.explain = ("For every function the fields of its object that are given up (assigned, cleared, swapped, refilled) on every path are computed over the control-flow graph, through calls on the same object and through references, with null and "
                 "emptiness tests and counted loops over the edge types. Construction must renew every field of the graph, removal every per-type field, the two forms of each construction step must establish the same fields, clear() every member that "
                 "other members change, resets what they are named for. A container a query only adds to is made or emptied in the loop in which it is read.")
    r.assume = ["per-type counts are renewed when the type is built again"]
