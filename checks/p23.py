"""P23: options reach what they are documented to control, unchanged."""
import os, re
import agx, phase, units
from agx import *
from lab import Lab
from p06 import U

N = "engpar::"
DI, WI, SI, CI = N + "DiffusiveInput::", N + "WeightInput::", N + "SplitInput::", N + "ColoringInput::"
# interface parameter -> the option it sets (public headers engpar_input.h and engpar_diffusive_input.h)
SETS = {
    N + "createDiffusiveInput": {0: N + "Input::g", 1: DI + "step_factor"},
    N + "createWeightInput": {0: N + "Input::g", 1: WI + "tol", 2: WI + "step_factor", 3: WI + "primary_edge_type"},
    N + "createLocalSplitInput": {0: N + "Input::g", 1: SI + "smallComm", 2: SI + "largeComm", 3: SI + "isOriginal", 4: SI + "split_factor", 5: SI + "tolerance", 6: SI + "other_ranks", 7: SI + "edge_type"},
    N + "createGlobalSplitInput": {0: N + "Input::g", 1: SI + "smallComm", 2: SI + "largeComm", 3: SI + "isOriginal", 4: SI + "tolerance", 5: SI + "edge_type"},
    N + "DiffusiveInput::addPriority": {0: DI + "priorities", 1: DI + "tolerances"},
    N + "DiffusiveInput::balanceGhosts": {0: DI + "countGhosts"},
}
LIMITS = {DI + "maxIterations", DI + "maxIterationsPerType", WI + "maxIterations"}
COPY = LIMITS | {DI + "minConnectivity", DI + "limitEdgeCutGrowth"}    # compared as they are
PRINTS = {"sprintf", "fprintf", "printf", "snprintf", "to_string", "EnGPar_Status_Message", "EnGPar_Warning_Message", "EnGPar_Error_Message", "EnGPar_Debug_Message", "EnGPar_Log_Function"}
MIGRATE = "agi::Ngraph::migrate"
FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}


class Opt:
    def __init__(s, P, r):
        s.P = P; s.r = r; s.u = U(P)
        s.own = {}
        for q in {N + "Input"} | set(P.derived.get(N + "Input", ())):
            for fl in P.recs[q]["fields"]: s.own[fl["d"]] = (q, fl)
        s.L = Lab(P, s.own, set(SETS))
        s.inputs = {N + "Input"} | set(P.derived.get(N + "Input", ()))
        s._reach = {}
        s.uses()

    # -- the program
    def reach(s, ids):
        """functions reachable from these, with them"""
        out = set(); st = list(ids)
        while st:
            g = st.pop()
            if g in out or g not in s.P.funcs: continue
            out.add(g)
            if g not in s._reach:
                f = s.P.funcs[g]; n = set()
                for x in f.calls(): n |= {t.id for t in s.P.targets(f, x)}
                for x in f.reach_nodes():          # functions handed over
                    if x["k"] == "DeclRefExpr" and x["d"] in s.P.funcs: n.add(x["d"])
                s._reach[g] = n
            st += s._reach[g]
        return out

    def names(s, ids): return {s.P.funcs[g].qn for g in s.reach(ids)}

    def api(s, f, x):
        q = x.get("qn") or ""
        return q.startswith("agi::") and (q.split("::")[-1][:1].islower())

    # -- where options are consumed
    def uses(s):
        """option -> [(f, node, kind)]: operands of arithmetic, comparisons, conditions, arguments of code outside the partitioner"""
        s.use = defaultdict(list); L = s.L
        for f in s.L.funs:
            if f.cls in s.inputs: continue
            for x in f.reach_nodes():
                k = x["k"]
                if k in ("BinaryOperator", "CompoundAssignOperator") and x["op"] not in ("=", ",", "&&", "||"):
                    kind = "cmp" if x["op"] in FLIP else "ar"
                    for c in x["c"]:
                        for l in L.exact(f, c): s.use[l].append((f, x["i"], kind))
                elif k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    ts = s.P.targets(f, x)
                    if s.printing(x): continue
                    if not ts or s.api(f, x) or any(not t.file.startswith(("partition/", "interfaces/")) for t in ts):
                        for a in f.args(x):
                            if isinstance(a, int) and a >= 0 and not (k == "CXXConstructExpr" and len(f.args(x)) == 1):     # copies
                                for l in L.exact(f, a): s.use[l].append((f, x["i"], "arg"))
                elif k == "ArraySubscriptExpr":
                    for c in x["c"]:
                        for l in L.exact(f, c): s.use[l].append((f, x["i"], "index"))
            for b in f.succ():
                c = phase.cond_of(f, b)
                if c is not None:
                    for l in L.exact(f, s.unneg(f, c)[0]): s.use[l].append((f, c, "cond"))
            for x in f.reach_nodes():
                if x["k"] == "ConditionalOperator":
                    for l in L.exact(f, x["c"][0]): s.use[l].append((f, x["i"], "cond"))
        for l, us in s.use.items():
            if l in s.own: s.use[l] = [z for z in us if not s.inprint(z[0], z[1])]

    def printing(s, x): return x.get("n") in PRINTS or (x.get("n") or "").startswith("operator<<")

    def inprint(s, f, i):
        """part of a message"""
        while i is not None:
            x = f.nodes[i]
            if x["k"] in CALLS and s.printing(x): return True
            i = f.parent.get(i)
        return False

    def inmessage(s, f, i):
        while i is not None:
            x = f.nodes[i]
            if x["k"] in CALLS and ((x.get("n") or "").startswith("EnGPar_") and s.printing(x) or x.get("n") in ("printf", "fprintf")): return True
            i = f.parent.get(i)
        return False

    def unneg(s, f, c, depth=0):
        """(condition, sense) with negations and single-definition locals removed"""
        sense = True
        for _ in range(20):
            c = f.strip(c); x = f.nodes[c]
            if x["k"] == "UnaryOperator" and x["op"] == "!": sense = not sense; c = x["c"][0]; continue
            if x["k"] == "BinaryOperator" and x["op"] in ("==", "!=") and str(f.nodes[f.strip(x["c"][1])].get("cv")) in ("0", "1") and f.nodes[f.strip(x["c"][0])].get("ct") == "bool":
                if (x["op"] == "==") == (str(f.nodes[f.strip(x["c"][1])].get("cv")) == "0"): sense = not sense
                c = x["c"][0]; continue
            if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
                d = single_def(f, x["d"])
                if d is not None: c = d; continue
            break
        return c, sense

    def cmpof(s, f, c):
        """[(f', left, op, right)] comparisons a condition stands for when true (through negation, locals and small helpers)"""
        c, sense = s.unneg(f, c); x = f.nodes[c]
        if x["k"] == "BinaryOperator" and x["op"] in FLIP:
            return [(f, x["c"][0], x["op"] if sense else NEG[x["op"]], x["c"][1], c)]
        return []

    # -- A: interface parameters reach their options
    def setters(s):
        n = 0
        for q, tab in sorted(SETS.items()):
            for f in s.P.byname.get(q, []):
                for k, fld in tab.items():
                    if k >= len(f.params): continue
                    n += 1; src = ("P", q, k)
                    ws = [(g, i, v) for g, i, v in s.L.writes[fld] if src in s.L.src(g, v)]
                    p = f.params[k]["n"] or str(k)
                    if not any(src in s.L.exact(g, v) for g, i, v in ws):
                        s.r.bad("%s|%s|set" % (q, fld), "%s:%d (%s)" % (f.file, f.line if hasattr(f, "line") else 0, q), "parameter %d ('%s') does not arrive in the option %s" % (k, p, fld.replace(N, ""))); continue
                    good = [(g, i, v) for g, i, v in ws if src in s.L.exact(g, v)]
                    # on every path, and nothing else afterwards
                    here = [(i, v) for g, i, v in good if g.id == f.id]
                    if here:
                        pos = [at(f, i) for i, v in here]
                        if missed(f, {b for b in (p_ and p_[0] for p_ in pos) if b is not None}):
                            s.r.bad("%s|%s|path" % (q, fld), f.where(here[0][0]), "parameter '%s' reaches the option %s on some paths only" % (p, fld.replace(N, "")))
                        for g, i, v in s.L.writes[fld]:
                            if g.id == f.id and src not in s.L.src(g, v) and any(after(f, j, i) for j, _ in here):
                                s.r.bad("%s|%s|over" % (q, fld), f.where(i), "'%s' replaces what parameter '%s' set" % (f.text(i)[:60], p))
                # a parameter must not land in an option meant for another
                for fld in s.own:
                    for g, i, v in s.L.writes[fld]:
                        for l in s.L.src(g, v):
                            if isinstance(l, tuple) and l[1] == q and tab.get(l[2]) and fld in tab.values() and tab[l[2]] != fld:
                                s.r.bad("%s|%s|swap" % (q, fld), g.where(i), "the option %s receives parameter %d ('%s') of %s" % (fld.replace(N, ""), l[2], f.params[l[2]]["n"], q.split("::")[-1]))
        s.r.need("interface parameters that set an option", n, 20)

    # -- B: edge types go where they are documented to go
    def roles(s):
        n = 0
        sides = set()
        for f in s.L.funs:
            if f.cls == N + "Sides": sides |= s.reach([f.id])
        mincon = set()
        for f in s.L.funs:
            # a function that compares counts with the required number of connections, or is handed that number
            if any(DI + "minConnectivity" in {l for l, e in s.L.env[("v", f.id, p["d"])] if e} for p in f.params): mincon.add(f.id)
        types = {d for d in s.own if s.u.optfield(d)}
        for f in s.u.funs:
            if f.cls in s.inputs or not f.file.startswith(("partition/", "interfaces/", "zoltan/")): continue
            insides = f.id in sides and f.cls == N + "Sides" or f.id in sides and s.onlysides(f, sides)
            for x in f.calls():
                ta = [a for a in s.u.typeargs(f, x)] if (x.get("qn") or "").startswith("agi::") else []
                for a in ta:
                    ls = {l for l in s.L.src(f, a) if l in types}
                    if not ls: continue
                    n += 1; t = "'%s' in %s" % (f.text(x["i"])[:60], f.qn)
                    if insides:
                        for l in ls - {DI + "sides_edge_type", WI + "primary_edge_type", SI + "edge_type"}:
                            s.r.bad("%s|%s|role" % (f.qn, l), f.where(x["i"]), "part boundaries are determined with %s: %s" % (l.replace(N, ""), t))
                        continue
                    if DI + "sides_edge_type" in ls:
                        s.r.bad("%s|sides|role" % f.qn, f.where(x["i"]), "sides_edge_type, which is for part boundaries, is used for something else: %s" % t)
                    if f.id in mincon:
                        for l in ls - {DI + "connectivityType"}:
                            s.r.bad("%s|%s|role" % (f.qn, l), f.where(x["i"]), "connectivity is counted with %s: %s" % (l.replace(N, ""), t))
                    elif DI + "connectivityType" in ls:
                        s.r.bad("%s|con|role" % f.qn, f.where(x["i"]), "connectivityType, which is for counting connectivity, is used for something else: %s" % t)
                if (x.get("qn") or "").startswith("agi::Ngraph::"): pass
            # per-type data of the graph itself
            for x in f.reach_nodes():
                if x["k"] != "ArraySubscriptExpr": continue
                b = f.nodes[f.strip(x["c"][0])]
                if b["k"] != "MemberExpr" or not b["d"].startswith(("agi::Ngraph::", "agi::PNgraph::")): continue
                ls = {l for l in s.L.src(f, x["c"][1]) if l in types}
                if ls: n += 1
                if not insides and ls & {DI + "sides_edge_type", DI + "connectivityType"}:
                    s.r.bad("%s|index|role" % f.qn, f.where(x["i"]), "'%s' is selected with %s" % (f.text(x["i"])[:60], ", ".join(sorted(l.replace(N, "") for l in ls))))
        s.r.need("graph accesses whose edge type comes from an option", n, 12)
        # the dimension being balanced is never an edge type meant for something else
        m = 0
        for f in s.L.funs:
            if f.cls in s.inputs: continue
            for x in f.calls():
                for t in s.P.targets(f, x):
                    if t.qn != N + "getWeight": continue
                    m += 1
                    bad = {l for l in s.L.src(f, f.args(x)[1]) if l in types}
                    if bad: s.r.bad("%s|weight|role" % f.qn, f.where(x["i"]), "'%s' weighs the part by %s instead of the dimension being balanced" % (f.text(x["i"])[:70], ", ".join(l.replace(N, "") for l in bad)))
        s.r.need("part weights computed", m, 8)

    def onlysides(s, f, sides):
        """reached from the sides' code only"""
        if not hasattr(s, "_callers"):
            s._callers = defaultdict(set)
            for g in s.L.funs:
                for x in g.calls():
                    for t in s.P.targets(g, x): s._callers[t.id].add(g.id)
        seen = set(); st = [f.id]
        while st:
            g = st.pop()
            if g in seen: continue
            seen.add(g)
            if s.P.funcs[g].cls == N + "Sides": continue
            if not s._callers[g]: return False
            st += s._callers[g]
        return True

    # -- C: ghosts are counted where the option says so
    def ghosts(s):
        """calls that weigh the graph being balanced, in code that has the options, pass the option on"""
        gate = {}         # function -> index of the parameter that turns ghosts on
        for f in s.L.funs:
            if f.qn == N + "getWeight":
                for k, p in enumerate(f.params):
                    if p["ct"].replace("const ", "") == "bool": gate[f.id] = k
        ch = True
        while ch:
            ch = False
            for f in s.L.funs:
                if f.id in gate: continue
                for x in f.calls():
                    for t in s.P.targets(f, x):
                        if t.id not in gate or gate[t.id] >= len(f.args(x)): continue
                        a = f.nodes[f.strip(f.args(x)[gate[t.id]])]
                        if a["k"] == "DeclRefExpr":
                            for k, p in enumerate(f.params):
                                if p["d"] == a["d"] and f.id not in gate: gate[f.id] = k; ch = True
        n = 0
        for f in s.L.funs:
            if f.cls in s.inputs or not s.has(f): continue
            for x in f.calls():
                for t in s.P.targets(f, x):
                    if t.id not in gate: continue
                    a = f.args(x)
                    if not any(N + "Input::g" in s.L.src(f, y) for y in a): continue      # some other graph
                    if gate[t.id] < len(a) and f.nodes[f.strip(a[gate[t.id]])].get("k") == "DeclRefExpr" and f.id in gate: continue
                    n += 1
                    e = s.L.ev(f, a[gate[t.id]]) if gate[t.id] < len(a) else set()
                    if (DI + "countGhosts", True) not in e:
                        s.r.bad("%s|%s|ghosts" % (f.qn, t.qn.split("::")[-1]), f.where(x["i"]), "'%s' does not pass on whether ghosts are counted" % f.text(x["i"])[:80])
        s.r.need("weights of the balanced graph taken in code that has the options", n, 6)

    def has(s, f):
        """the function has a DiffusiveInput at hand"""
        if any("DiffusiveInput" in p["ct"] for p in f.params): return True
        if any(k == "def" for v, us in var_uses(f).items() for k, _, _ in us) and any("DiffusiveInput" in (v.get("ct") or "") for v in s.vars(f)): return True
        rc = s.P.recs.get(f.cls or "")
        return bool(rc and any("DiffusiveInput" in fl["ct"] for fl in rc["fields"]) and not f.static)

    def vars(s, f):
        return f.vars.values() if isinstance(f.vars, dict) else f.vars

    # -- D: every option has an effect
    def effects(s):
        n = 0; skip = {N + "Input::g"}
        for d, (q, fl) in sorted(s.own.items()):
            if q == N + "ColoringInput": continue        # only read with Kokkos
            n += 1
            if not s.use[d]:
                s.r.bad("%s|unused" % d, "%s:%d (%s)" % (s.P.recs[q]["f"], fl["l"], q), "the option %s has no effect: nothing but messages depends on it" % d.replace(N, ""))
        s.r.need("options", n, 20)
        # options compared as they are
        m = 0
        for f in s.L.funs:
            for x in f.reach_nodes():
                if x["k"] == "BinaryOperator" and x["op"] in FLIP:
                    for c in x["c"]:
                        for l, e in s.L.ev(f, c):
                            if l in COPY:
                                if not e and not any(l in s.L.exact(f, k) for k in x["c"]) and not s.down(f, c):
                                    s.r.bad("%s|%s|changed" % (f.qn, l), f.where(x["i"]), "'%s' compares with a changed %s" % (f.text(x["i"])[:70], l.replace(N, "")))
                                elif e: m += 1
        s.r.need("comparisons with limits and thresholds", m, 6)

    def down(s, f, c):
        """a local copy counted down"""
        x = f.nodes[f.strip(c)]
        if x["k"] == "UnaryOperator" and x["op"] == "--": x = f.nodes[f.strip(x["c"][0])]
        return x["k"] == "DeclRefExpr" and any(k == "mod" for k, _, _ in var_uses(f).get(x["d"], []))

    # -- E: iteration limits bound the steps
    def limits(s):
        reads = defaultdict(set)          # function -> limits tested in it
        for l in LIMITS:
            for f, i, k in s.use[l]: reads[f.id].add(l)
        readers = {g for g in reads}
        n = 0
        for g in sorted(readers):
            f = s.P.funcs[g]
            if s.single(f): continue
            steps = set()
            for x in f.calls():
                ts = {t.id for t in s.P.targets(f, x)}
                if not ts: continue
                rs = s.reach(ts)
                if any(s.P.funcs[t].qn == MIGRATE for t in rs) and not (rs & {r for r in readers if not s.single(s.P.funcs[r])}): steps.add(x["i"])
            if not steps: continue
            for l in sorted(reads[g]):
                n += len(steps)
                for i, why in s.paid(f, l, steps):
                    s.r.bad("%s|%s|limit" % (f.qn, l), f.where(i), "%s is run %s" % ("'%s'" % f.text(i)[:50], why + " " + l.replace(N, "")))
        s.r.need("steps bounded by a limit", n, 2)
        # the limit for each type counts from zero for each type, the overall one on through all of them
        m = 0
        for g in sorted(readers):
            f = s.P.funcs[g]; lp = loops(f)
            pick = {at(f, x["i"])[0] for x in f.reach_nodes() if s.picks(f, x) and at(f, x["i"]) and not s.inprint(f, x["i"])}
            turns = [(h, body) for h, body in lp.items() if pick & body]
            if not turns: continue
            h, body = min(turns, key=lambda z: len(z[1]))
            steps = {at(f, x["i"])[0] for x in f.calls() if at(f, x["i"]) and any(s.P.funcs[t].qn == MIGRATE for t in s.reach({t.id for t in s.P.targets(f, x)}))}
            if not steps & body: continue
            for l in sorted(reads[g] & LIMITS):
                for v in sorted(s.counters(f, l)):
                    sets = set()
                    for b in body:
                        for e in f.elems(b):
                            if isinstance(e, int) and s.restarts(f, f.nodes[e], v): sets.add(b)
                    m += 1; name = v.split("::")[-1].lstrip("%")
                    y = next((x for x in f.reach_nodes() if x.get("d") == v and x["k"] in ("DeclRefExpr", "MemberExpr")), None)
                    if y: name = f.text(y["i"])
                    if not l.endswith("PerType"):
                        if sets: s.r.bad("%s|%s|restart" % (f.qn, l), f.where(y["i"] if y else 0), "'%s', which is held against %s, starts again for each dimension" % (name, l.replace(N, "")))
                        continue
                    # from one choice of dimension to the next steps without starting again
                    if not s.fresh(f, h, body, pick, sets, steps & body):
                        s.r.bad("%s|%s|restart" % (f.qn, l), f.where(y["i"] if y else 0), "'%s', which is held against %s, goes on counting from one dimension to the next" % (name, l.replace(N, "")))
        s.r.count("counters followed through the dimensions", m)

    def picks(s, f, x, what="priorities"):
        """an element of the priorities is read"""
        if x["k"] == "ArraySubscriptExpr": o = x["c"][0]
        elif x["k"] in CALLS and x.get("n") in ("operator[]", "at") and not s.P.targets(f, x): o = f.obj(x) if x.get("meth") else f.args(x)[0]
        else: return False
        return o is not None and s.L.base(f, o) == ("f", DI + what)

    def restarts(s, f, x, v):
        if x["k"] == "DeclStmt": return any(d["d"] == v and d["init"] >= 0 and f.nodes[f.strip(d["init"])].get("cv") is not None for d in x["decls"])
        return x["k"] == "BinaryOperator" and x["op"] == "=" and f.nodes[f.strip(x["c"][0])].get("d") == v and f.nodes[f.strip(x["c"][1])].get("cv") is not None

    def fresh(s, f, h, body, pick, sets, steps):
        """no way round the loop from a step to the next dimension's step without a restart"""
        seen = set(); st = [(b, False) for b in steps]
        first = True
        while st:
            b, nxt = st.pop()
            if (b, nxt) in seen: continue
            seen.add((b, nxt))
            if b in sets: continue
            if nxt and b in steps: return False
            n = nxt or b == h
            for t in f.succ()[b]:
                if t in body: st.append((t, n or t == h))
        return True

    def single(s, f):
        """a small test of the limits: returns its value, runs nothing"""
        return not any(s.P.funcs[t].qn == MIGRATE for t in s.reach([f.id]))

    def tests(s, f, c, sense, depth=0):
        """{(limit, counter key or None)} that hold when the condition has this outcome; counters are shown below the limit"""
        c, sg = s.unneg(f, c)
        if not sg: sense = not sense
        x = f.nodes[c]
        if x["k"] == "BinaryOperator" and x["op"] in ("&&", "||"):
            a = s.tests(f, x["c"][0], sense, depth); b = s.tests(f, x["c"][1], sense, depth)
            return a | b if (x["op"] == "&&") == sense else a & b
        out = set()
        if x["k"] == "BinaryOperator" and x["op"] in FLIP:
            op = x["op"] if sense else NEG[x["op"]]
            for l, o, r in ((x["c"][0], op, x["c"][1]), (x["c"][1], FLIP[op], x["c"][0])):
                # l o r  with the limit on the right
                lim = {z for z, e in s.L.ev(f, r) if e and z in LIMITS} | ({z for z, e in s.L.ev(f, r) if z in LIMITS} if not s.down(f, r) else set())
                y = f.nodes[f.strip(l)]
                if lim and not s.down(f, r):
                    inc = y["k"] == "UnaryOperator" and y["op"] == "++" and not y.get("post")
                    one = s.starts(f, y)
                    if o in ("<", "!=") or (o == "<=" and (inc or one)):
                        for z in lim: out.add(z)
                # a copy of the limit counted down: copy > 0
                z = {q for q, e in s.L.ev(f, l) if q in LIMITS}
                if z and s.down(f, l) and o in (">", "!=") and str(f.nodes[f.strip(r)].get("cv")) == "0": out |= z
            return out
        if x["k"] == "DeclRefExpr" or x["k"] == "UnaryOperator" and x["op"] == "--":      # while (left--)
            if s.down(f, c) and sense: out |= {q for q, e in s.L.ev(f, c) if q in LIMITS}
            return out
        if x["k"] in CALLS and depth < 4:
            res = None
            for t in s.P.targets(f, x):
                if not s.single(t): return set()
                rets = [y for y in t.reach_nodes() if y["k"] == "ReturnStmt" and y.get("c")]
                cur = None
                for y in rets:
                    cv = t.nodes[t.strip(y["c"][0])].get("cv")
                    if cv is not None and (str(cv) not in ("0",)) != sense: continue
                    if cv is not None:
                        # reached only under tests: the conditions that control this return
                        h = set()
                        for b, tk in control_chain(t, y["i"]):
                            h |= s.tests(t, phase.cond_of(t, b), tk, depth + 1)
                    else: h = s.tests(t, y["c"][0], sense, depth + 1)
                    cur = h if cur is None else cur & h
                res = (cur or set()) if res is None else res & (cur or set())
            return res or set()
        return out

    def starts(s, f, y):
        """a counter that starts at one"""
        if y["k"] == "UnaryOperator": y = f.nodes[f.strip(y["c"][0])]
        if y["k"] != "DeclRefExpr": return False
        ds = [v for k, v, _ in var_uses(f).get(y["d"], []) if k == "def"]
        return bool(ds) and all(v is not None and str(f.nodes[f.strip(v)].get("cv")) not in ("None", "0") for v in ds)

    def paid(s, f, l, steps):
        """steps not preceded, since the last one, by a test of the limit with its counter moved on"""
        ctr = s.counters(f, l)
        IN = defaultdict(set); wl = [f.entry]; bad = {}
        lp = loops(f); inner = {}
        for e in steps:
            p = at(f, e)
            if p is None: continue
            bs = [body for body in lp.values() if p[0] in body]
            if bs: inner[e] = min(bs, key=len)
        for e, body in inner.items():
            for b in body:
                for i in f.elems(b):
                    x = f.nodes[i] if isinstance(i, int) else None
                    if x and x["k"] == "BinaryOperator" and x["op"] == "=" and f.nodes[f.strip(x["c"][0])].get("d") in ctr and str(f.nodes[f.strip(x["c"][1])].get("cv")) != "None":
                        bad[e] = "with its counter set back each time, never reaching"
        IN[f.entry] = {(False, True, frozenset())}
        while wl:
            b = wl.pop(); out = set()
            for pd, moved, facts in IN[b]:
                for e in f.elems(b):
                    if not isinstance(e, int): continue
                    x = f.nodes[e]
                    if e in steps:
                        if not pd: bad[e] = "without a test against"
                        elif not moved: bad[e] = "again without counting towards"
                        pd, moved = False, False
                    elif s.moves(f, x, ctr): moved = True
                    dv = s.defines(f, x)
                    if dv: facts = frozenset(z for z in facts if not (z[1] & dv))
                out.add((pd, moved, facts))
            ss = f.succ()[b]; c = phase.cond_of(f, b)
            for k, t in enumerate(ss):
                o = out
                if c is not None and len(ss) == 2:
                    if l in s.tests(f, c, k == 0): o = {(True, moved, q) for pd, moved, q in out}
                    fc = s.fact(f, c)
                    if fc:
                        key, vs, sense = fc; val = (k == 0) == sense; n = set()
                        for pd, moved, q in o:
                            if (key, vs, not val) in q: continue
                            n.add((pd, moved, q | {(key, vs, val)} if len(q) < 6 else q))
                        o = n
                # leaving the loop: this step did not ask for another
                if any(b in body and t not in body for body in inner.values()): o = {(pd, True, q) for pd, _, q in o}
                if not o <= IN[t]: IN[t] |= o; wl.append(t)
        return sorted(bad.items())

    def fact(s, f, c):
        """(text, variables, sense) of a condition on local variables"""
        c, sense = s.unneg(f, c); x = f.nodes[c]
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!=") and str(f.nodes[f.strip(x["c"][1])].get("cv")) == "0":
            if x["op"] == "==": sense = not sense
            c = f.strip(x["c"][0]); x = f.nodes[c]
        vs = set()
        for y in sub(f, c):
            if y["k"] in CALLS or y["k"] == "MemberExpr" or y["k"] in ("UnaryOperator",) and y["op"] in ("++", "--", "*"): return None
            if y["k"] == "DeclRefExpr" and y["d"].startswith("%"): vs.add(y["d"])
        return (f.text(c), frozenset(vs), sense) if vs else None

    def defines(s, f, x):
        """local variables an expression may change"""
        if x["k"] == "DeclStmt": return {d["d"] for d in x["decls"]}
        y = None
        if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): y = x["c"][0]
        elif x["k"] == "UnaryOperator" and x["op"] in ("++", "--", "&"): y = x["c"][0]
        if y is not None: return {f.nodes[f.strip(y)].get("d")}
        if x["k"] in CALLS:
            return {f.nodes[f.strip(a)].get("d") for t in s.P.targets(f, x) for a, p in zip(f.args(x), t.params) if p["ct"].rstrip().endswith("&") and not p["ct"].startswith("const")}
        return set()

    def counters(s, f, l):
        """variables compared with the limit"""
        out = set()
        for x in f.reach_nodes():
            if x["k"] == "BinaryOperator" and x["op"] in FLIP:
                for a, b in ((x["c"][0], x["c"][1]), (x["c"][1], x["c"][0])):
                    if any(z == l for z, _ in s.L.ev(f, b)):
                        y = f.nodes[f.strip(a)]
                        while y["k"] == "UnaryOperator": y = f.nodes[f.strip(y["c"][0])]
                        if y["k"] in ("DeclRefExpr", "MemberExpr"): out.add(y["d"])
                        y = f.nodes[f.strip(b)]
                        while y["k"] == "UnaryOperator": y = f.nodes[f.strip(y["c"][0])]
                        if y["k"] == "DeclRefExpr" and s.down(f, y["i"]): out.add(y["d"])
            if x["k"] == "UnaryOperator" and x["op"] == "--":
                y = f.nodes[f.strip(x["c"][0])]
                if y["k"] == "DeclRefExpr" and any(z == l for z, _ in s.L.ev(f, y["i"])): out.add(y["d"])
            if x["k"] in CALLS:          # tested in a helper: what is handed to it
                for t in s.P.targets(f, x):
                    if s.single(t) and any(g.id == t.id for g, _, _ in s.use[l]):
                        own = s.counters(t, l) if t.id != f.id else set()
                        for k, a in enumerate(f.args(x)):
                            if own & {p["d"] for p in t.params} and k < len(t.params) and t.params[k]["d"] not in own: continue
                            y = f.nodes[f.strip(a)]
                            while y["k"] == "UnaryOperator": y = f.nodes[f.strip(y["c"][0])]
                            if y["k"] in ("DeclRefExpr", "MemberExpr"): out.add(y["d"])
        return out

    def moves(s, f, x, ctr):
        y = None
        if x["k"] == "UnaryOperator" and x["op"] in ("++", "--"): y = f.nodes[f.strip(x["c"][0])]
        elif x["k"] in ("CompoundAssignOperator", "BinaryOperator") and x["op"] in ("+=", "-=", "="):
            y = f.nodes[f.strip(x["c"][0])]
            if x["op"] == "=" and not any(z["k"] == "DeclRefExpr" and z["d"] == y.get("d") for z in sub(f, x["c"][1])): y = None
        elif x["k"] in CALLS:
            for t in s.P.targets(f, x):
                for a, p in zip(f.args(x), t.params):
                    if p["ct"].rstrip().endswith(("&", "*")) and not p["ct"].startswith("const"):
                        z = f.nodes[f.strip(a)]
                        while z["k"] == "UnaryOperator": z = f.nodes[f.strip(z["c"][0])]
                        if z.get("d") in ctr: return True
            return False
        return y is not None and y.get("d") in ctr

    # -- F: thresholds are on the documented side
    def thresholds(s):
        n = 0
        for f in s.L.funs:
            for b in f.succ():
                c = phase.cond_of(f, b)
                if c is None: continue
                n += s.threshold(f, c, b)
            for x in f.reach_nodes():
                if x["k"] == "ReturnStmt" and x.get("c"): n += s.threshold(f, x["c"][0], None)
        s.r.count("comparisons with thresholds judged", n)
        # reaching the tolerance ends the balancing of a dimension; missing it goes on
        m = 0
        for l in (DI + "tolerances", WI + "tol"):
            for f in s.L.funs:
                for b in f.succ():
                    c = phase.cond_of(f, b)
                    if c is None: continue
                    for g, a, op, d, i in s.cmpof(f, c):
                        if g.id != f.id: continue
                        if l in s.L.exact(f, a): a, op, d = d, FLIP[op], a
                        if l not in s.L.exact(f, d): continue
                        if f.nodes[f.strip(a)].get("cv") is not None or not s.double(f, a): continue
                        far = s.steps_from(f, f.succ()[b][0]); near = s.steps_from(f, f.succ()[b][1])
                        if not far and not near: continue
                        m += 1
                        # a op tolerance holds on the first edge
                        if op in ("<", "<=") and far or op in (">", ">=") and near:
                            s.r.bad("%s|%s|side" % (f.qn, l), f.where(i), "after '%s' found the imbalance below the tolerance, balancing goes on" % f.text(i)[:60])
        s.r.count("tolerance tests judged", m)

    def double(s, f, i): return f.nodes[i].get("ct", "").replace("const ", "") in ("double", "float", "agi::wgt_t", "wgt_t")

    def steps_from(s, f, b):
        """migration can follow from this block"""
        seen = set(); st = [b]
        while st:
            q = st.pop()
            if q in seen: continue
            seen.add(q); st += f.succ()[q]
        ids = set()
        for q in seen:
            for e in f.elems(q):
                if isinstance(e, int) and f.nodes[e]["k"] in CALLS: ids |= {t.id for t in s.P.targets(f, f.nodes[e])}
        return any(s.P.funcs[t].qn == MIGRATE for t in s.reach(ids))

    def threshold(s, f, c, b):
        n = 0
        todo = [c]; x = f.nodes[f.strip(c)]
        if x["k"] == "BinaryOperator" and x["op"] in ("&&", "||"): todo = list(x["c"])
        for c in todo:
            for g, a, op, d, i in s.cmpof(f, c):
                ea, ed = s.L.exact(g, a), s.L.exact(g, d)
                for l in (DI + "minConnectivity", DI + "limitEdgeCutGrowth"):
                    if l in ea and l not in ed: L_, o, R = a, op, d
                    elif l in ed and l not in ea: L_, o, R = d, FLIP[op], a
                    else: continue
                    n += 1; k = g.nodes[g.strip(R)].get("cv")
                    if l.endswith("minConnectivity"):
                        if k is not None:
                            if not (str(k) == "1" and o in ("<=", ">") or str(k) == "2" and o in ("<", ">=")):
                                s.r.bad("%s|%s|off" % (g.qn, l), g.where(i), "'%s': one connection is the least that connects, so only more than one asks for work" % g.text(i)[:60])
                        elif o not in ("<=", ">"):       # limit <= count, or its negation
                            s.r.bad("%s|%s|off" % (g.qn, l), g.where(i), "'%s': minConnectivity connections are enough to be connected" % g.text(i)[:60])
                    else:
                        if k is not None or g.nodes[g.strip(R)]["k"] in ("FloatingLiteral", "IntegerLiteral"):
                            if o not in ("<=", ">") or number(g, R) != 0: s.r.bad("%s|%s|off" % (g.qn, l), g.where(i), "'%s': values up to and including 0 switch the limit off" % g.text(i)[:60])
                        elif b is not None and g.id == f.id:
                            # where the growth is above the limit the cavity is not taken
                            ss = f.succ()[b]
                            e = ss[0] if op == o == "<" or (o in ("<", "<=")) else ss[1]
                            x0, sg = s.unneg(f, c)
                            # o: limit o growth holds on first edge (op already includes negations)
                            lp = loops(f); inner = None
                            for h, body in lp.items():
                                if b in body and (inner is None or len(body) < len(inner[1])): inner = (h, body)
                            if inner and s.takes(f, e, inner[0]):
                                s.r.bad("%s|%s|side" % (g.qn, l), g.where(i), "'%s': a cavity whose growth is above the limit is still taken" % g.text(i)[:60])
        return n

    def takes(s, f, b, head):
        seen = {head}; st = [b]
        while st:
            q = st.pop()
            if q in seen: continue
            seen.add(q)
            ids = set()
            for e in f.elems(q):
                if isinstance(e, int) and f.nodes[e]["k"] in CALLS: ids |= {t.id for t in s.P.targets(f, f.nodes[e])}
            if "agi::Migration::insert" in s.names(ids): return True
            st += f.succ()[q]
        return False

    # -- G: switches choose what they are named for
    def switches(s):
        n = 0
        dist = {f.id for f, i, k in s.use[DI + "bfsPush"]}
        weigh = {f.id for f in s.L.funs if any(g.id == f.id for l in (WI + "maxIterations",) for g, _, _ in s.use[l])}
        push = {f.id for f in s.P.byname.get(N + "bfs_push", [])}; pull = {f.id for f in s.P.byname.get(N + "bfs_pull", [])}
        tab = {DI + "useDistanceQueue": (dist, set(), "the distance-based queue"), DI + "bfsPush": (push, pull, "the push traversal"),
               DI + "runPartWeightBalancer": (weigh, set(), "the part weight balancer")}
        for f in s.L.funs:
            cd = None
            for b in f.succ():
                c = phase.cond_of(f, b)
                if c is None: continue
                c, sense = s.unneg(f, c)
                for l in s.L.exact(f, c):
                    if l not in tab or f.nodes[c]["k"] == "BinaryOperator": continue
                    on, off, what = tab[l]
                    ss = f.succ()[b]
                    R = [reachb(f, t, b) for t in ss]
                    T, F = R[0] - R[1], R[1] - R[0]
                    if not sense: T, F = F, T
                    t, o = s.reach(s.targets_in(f, T)), s.reach(s.targets_in(f, F))
                    n += 1
                    if (on & o or off & t) and (off or not on & t):
                        s.r.bad("%s|%s|switch" % (f.qn, l), f.where(c), "%s is run when %s is off" % (what, l.replace(N, "")))
                    elif on and l != DI + "runPartWeightBalancer" and not on & t and not off & o:
                        s.r.bad("%s|%s|switch" % (f.qn, l), f.where(c), "%s makes no difference here" % l.replace(N, ""))
                    s.needs(f, c, l, T, F)
                    s.alone(f, b, c, l, ss if sense else ss[::-1], T, F)
        s.r.count("branches on switches", n)

    def alone(s, f, b, c, l, ss, T, F):
        """where the switch is on, nothing else decides whether what it chooses is run"""
        on, off = ss; pd = postdoms(f).get(b, set()) - {b}
        def work(q):
            for e in f.elems(q):
                x = f.nodes[e] if isinstance(e, int) else None
                if x is not None and x["k"] in CALLS and s.P.targets(f, x) and not s.incond(f, x["i"]): return True
            return False
        W = {q for q in T if work(q)}
        if not W: return
        # the alternative, or whatever follows, reached from the on edge without the work
        seen = {b}; st = [on]
        while st:
            q = st.pop()
            if q in seen or q in W: continue
            seen.add(q)
            if q in pd or q == off:
                s.r.bad("%s|%s|alone" % (f.qn, l), f.where(c), "what %s asks for is not always run where it is on" % l.replace(N, "")); return
            st += f.succ()[q]

    def incond(s, f, i):
        cs = {phase.cond_of(f, b) for b in f.succ()} - {None}
        while i is not None:
            if i in cs: return True
            i = f.parent.get(i)
        return False

    def needs(s, f, c, l, T, F):
        """fields only set up where the switch is on are not used where it is off"""
        for b in F:
            for e in f.elems(b):
                x = f.nodes[e] if isinstance(e, int) else None
                if x is None or x["k"] != "MemberExpr" or not x.get("arrow") and x.get("dk") != "CXXMethod": continue
                y = f.nodes[f.strip(x["c"][0])] if x.get("c") else None
                if y is None or y["k"] != "MemberExpr" or not y.get("ct", "").rstrip().endswith("*") or y["d"] in s.own: continue
                fld = y["d"]; on = s.setup(l)
                ws = s.setters_of(fld)
                if ws and all(w in on for w in ws):
                    s.r.bad("%s|%s|off" % (f.qn, fld), f.where(x["i"]), "%s is only set up where %s is on, and used here where it is off" % (fld.split("::")[-1], l.replace(N, "")))

    def setters_of(s, fld):
        if not hasattr(s, "_set"):
            s._set = defaultdict(set)
            for g in s.L.funs:
                for x in g.reach_nodes():
                    if x["k"] == "BinaryOperator" and x["op"] == "=":
                        y = g.nodes[g.strip(x["c"][0])]; v = g.nodes[g.strip(x["c"][1])]
                        if y["k"] == "MemberExpr" and str(v.get("cv")) != "0" and v["k"] not in ("GNUNullExpr", "CXXNullPtrLiteralExpr"): s._set[y["d"]].add(g.id)
        return s._set[fld]

    def setup(s, l):
        """functions only run where the switch is on"""
        if not hasattr(s, "_on"): s._on = {}
        if l in s._on: return s._on[l]
        where = defaultdict(list)           # function -> [called where the switch is on]
        for g in s.L.funs:
            br = []
            for b in g.succ():
                c = phase.cond_of(g, b)
                if c is None: continue
                c, sense = s.unneg(g, c)
                if l in s.L.exact(g, c) and g.nodes[c]["k"] != "BinaryOperator":
                    R = [reachb(g, t, b) for t in g.succ()[b]]
                    br.append((R[0] - R[1]) if sense else (R[1] - R[0]))
            for x in g.calls():
                p = at(g, x["i"])
                for t in s.P.targets(g, x): where[t.id].append((g.id, bool(p and any(p[0] in q for q in br))))
        on = {g for g in where}
        ch = True
        while ch:
            ch = False
            for g in list(on):
                if not all(o or c in on for c, o in where[g]): on.discard(g); ch = True
        # a cycle alone does not count
        s._on[l] = {g for g in on if any(o for _, o in where[g])}
        return s._on[l]


    def targets_in(s, f, blocks):
        out = set()
        for b in blocks:
            for e in f.elems(b):
                if isinstance(e, int):
                    x = f.nodes[e]
                    if x["k"] in CALLS: out |= {t.id for t in s.P.targets(f, x)}
                    if x["k"] == "DeclRefExpr" and x["d"] in s.P.funcs: out.add(x["d"])
        return out

    # -- L: a tolerance given is the one used
    def given(s):
        n = m = 0
        for f in s.L.funs:
            if f.cls in s.inputs: continue
            # options handed to a parameter are not dropped there
            for p in f.params:
                ls = {l for l, e in s.L.env[("v", f.id, p["d"])] if e and l in s.own and l != N + "Input::g"}
                if not ls or not p["n"]: continue
                n += 1
                if not any(x["k"] == "DeclRefExpr" and x["d"] == p["d"] and not s.inmessage(f, x["i"]) for x in f.reach_nodes()):
                    s.r.bad("%s|%s|dropped" % (f.qn, p["n"]), "%s:%d (%s)" % (f.file, f.line, f.qn), "'%s' receives %s and is not used" % (p["n"], ", ".join(sorted(l.replace(N, "") for l in ls))))
            # whether there is a tolerance depends on how many there are alone
            tests = {}
            for b in f.succ():
                c = phase.cond_of(f, b)
                if c is None: continue
                for x in sub(f, c):
                    if x["k"] in CALLS and x.get("n") in ("size", "empty") and x.get("meth") and DI + "tolerances" in s.L.exact(f, f.obj(x)): tests[b] = c
            if not tests: continue
            reads = [x for x in f.reach_nodes() if (x["k"] == "ArraySubscriptExpr" or x["k"] in CALLS and x.get("n") in ("operator[]", "at") and not s.P.targets(f, x)) and DI + "tolerances" in s.L.exact(f, x["i"]) and at(f, x["i"]) and not s.inprint(f, x["i"])]
            for x in reads:
                rb = at(f, x["i"])[0]; m += 1
                ix = f.nodes[f.strip(x["c"][1] if x["k"] == "ArraySubscriptExpr" else f.args(x)[-1])].get("d")
                for b in tests:
                    if ix is None or not any(z.get("d") == ix for z in sub(f, tests[b])): continue
                    for t in f.succ()[b]:
                        R = reachb(f, t, b)
                        if rb != t and rb not in R: continue
                        other = [z for z in f.succ()[b] if z != t]
                        if not other or rb in reachb(f, other[0], b): continue
                        # from the edge where there is one to where the ways meet, without the read
                        seen = {b, rb}; st = [t]; pd = postdoms(f).get(b, set()) - {b}
                        while st:
                            q = st.pop()
                            if q in seen: continue
                            seen.add(q)
                            if q in pd:
                                s.r.bad("%s|tolerances|alone" % f.qn, f.where(x["i"]), "a tolerance given is not always used"); break
                            st += f.succ()[q]
                # the test itself is on every way to where the value is used
                i = x["i"]; v = None
                while i is not None:
                    y = f.nodes[i]
                    if y["k"] == "BinaryOperator" and y["op"] == "=": v = f.nodes[f.strip(y["c"][0])].get("d"); break
                    if y["k"] == "DeclStmt": v = next((d["d"] for d in y["decls"] if d["init"] >= 0 and x["i"] in {z["i"] for z in sub(f, d["init"])}), None); break
                    i = f.parent.get(i)
                if v is None: continue
                dom = dominators(f)
                for y in f.reach_nodes():
                    if y["k"] == "DeclRefExpr" and y["d"] == v and at(f, y["i"]) and not s.inprint(f, y["i"]):
                        q = at(f, y["i"])[0]
                        pr = f.parent.get(y["i"]); z = f.nodes[pr] if pr is not None else None
                        if z and z["k"] == "BinaryOperator" and z["op"] == "=" and f.strip(z["c"][0]) == y["i"]: continue
                        if not any(b in dom.get(q, set()) or b == q for b in tests):
                            s.r.bad("%s|tolerances|alone" % f.qn, f.where(y["i"]), "'%s' is used on a way where it was not looked whether a tolerance was given" % f.text(y["i"])); break
        s.r.count("parameters that receive options", n); s.r.count("reads of given tolerances", m)
        # the tolerances are in the order of the priorities
        for f in s.L.funs:
            if f.cls in s.inputs: continue
            ix = {"priorities": {}, "tolerances": {}}
            for x in f.reach_nodes():
                if s.inprint(f, x["i"]): continue
                for w in ix:
                    if s.picks(f, x, w):
                        i = f.strip(x["c"][1] if x["k"] == "ArraySubscriptExpr" else f.args(x)[-1])
                        for _ in range(4):
                            y = f.nodes[i]; d = single_def(f, y["d"]) if y["k"] == "DeclRefExpr" and y["d"].startswith("%") else None
                            if d is None: break
                            i = f.strip(d)
                        ix[w].setdefault(f.text(i), x)
            if ix["priorities"] and ix["tolerances"] and not set(ix["priorities"]) & set(ix["tolerances"]):
                x = list(ix["tolerances"].values())[0]
                s.r.bad("%s|tolerances|order" % f.qn, f.where(x["i"]), "the tolerance '%s' is not the one of the priority '%s'" % (f.text(x["i"])[:50], f.text(list(ix["priorities"].values())[0]["i"])[:50]))
        # one priority is not put in place of another
        for f in s.L.funs:
            if f.cls in s.inputs: continue
            for x in f.reach_nodes():
                if s.picks(f, x) and not s.inprint(f, x["i"]):
                    ix = x["c"][1] if x["k"] == "ArraySubscriptExpr" else f.args(x)[-1]
                    if f.nodes[f.strip(ix)].get("cv") is not None:
                        s.r.bad("%s|priorities|fixed" % f.qn, f.where(x["i"]), "'%s' takes one fixed priority in place of the dimension being balanced" % f.text(x["i"])[:60])

    # -- H: documented defaults
    def defaults(s):
        n = 0
        for q in sorted(s.inputs):
            rc = s.P.recs[q]
            try: lines = open(os.path.join(REPO, rc["f"])).read().splitlines()
            except OSError: continue
            for fl in rc["fields"]:
                k = fl["l"] - 2; txt = []
                while k >= 0 and (not txt and not lines[k].strip() or lines[k].strip().startswith(("*", "/*", "//"))):
                    txt.insert(0, lines[k])
                    if lines[k].strip().startswith("/*"): break
                    k -= 1
                m = re.search(r"defaults?\s+to\s+(-?[\d.]+\d|-?\d+|true|false)\b(?!\s+for)", " ".join(t.strip(" */") for t in txt))
                if not m: continue
                want = {"true": 1.0, "false": 0.0}.get(m.group(1)) if m.group(1) in ("true", "false") else float(m.group(1))
                # the value the class's own constructor leaves
                for g, i, v in s.L.writes[fl["d"]]:
                    if not (g.ctor and g.cls == q): continue
                    val = number(g, v)
                    if val is None:
                        pv = g.nodes[g.strip(v)]      # a parameter: its default argument
                        if pv["k"] == "DeclRefExpr":
                            for j, p in enumerate(g.params):
                                if p["d"] == pv["d"]: val = s.defarg(g, j)
                    if val is None: continue
                    n += 1
                    if abs(val - want) > 1e-12:
                        s.r.bad("%s|default" % fl["d"], g.where(i), "the documented default of %s is %s, the constructor sets %s" % (fl["n"], m.group(1), g.text(v)))
        s.r.count("documented defaults compared", n)

    def defarg(s, g, j):
        for f in s.L.funs:
            for x in f.reach_nodes():
                if x["k"] in ("CXXConstructExpr",) and any(t.id == g.id for t in s.P.targets(f, x)):
                    a = f.args(x)
                    if j < len(a) and f.nodes[a[j]]["k"] == "CXXDefaultArgExpr": return number(f, a[j])
        return None

    # -- I: splitting
    def split(s):
        n = 0
        for f in s.L.funs:
            for x in f.calls():
                a = f.args(x)
                for k, y in enumerate(a):
                    e = {l for l in s.L.exact(f, y) if l in (SI + "total_parts", SI + "split_factor")}
                    if not e: continue
                    ts = s.P.targets(f, x)
                    fl = [f.nodes[f.strip(z)].get("cv") for z in a if f.nodes[f.strip(z)].get("ct") == "bool"]
                    if len(fl) != 1 or fl[0] is None or not ts: continue
                    n += 1
                    want = SI + ("split_factor" if str(fl[0]) == "1" else "total_parts")
                    if e != {want}: s.r.bad("%s|parts" % f.qn, f.where(x["i"]), "'%s': a %s split makes %s parts" % (f.text(x["i"])[:70], "local" if str(fl[0]) == "1" else "global", want.split("::")[-1]))
        s.r.count("split calls", n)
        s.comms(); s.ranks(); s.zoltan()
        # PCU works on the communicator that is asked for
        for f in s.L.funs:
            if f.qn == N + "createLocalSplitInput" or f.qn == N + "createGlobalSplitInput":
                for x in f.calls():
                    if x.get("qn") == "MPI_Comm_size":
                        l = s.L.exact(f, f.args(x)[0]); want = ("P", f.qn, 2)
                        if l and want not in l and SI + "largeComm" not in l:
                            s.r.bad("%s|size" % f.qn, f.where(x["i"]), "the number of parts to make is the size of '%s', not of the large communicator" % f.text(f.args(x)[0]))

    # every process or the original ones: collective work runs on the communicator of those who take part
    def commof(s, f, a):
        e = s.L.exact(f, a)
        if SI + "largeComm" in e: return "large"
        if SI + "smallComm" in e: return "small"
        return "self" if "COMM_SELF" in f.text(a) or "comm_self" in f.text(a).lower() else "other"

    def collective(s, f, x):
        ts = s.P.targets(f, x)
        if not ts: return x.get("n") in phase.MPI_COLL | phase.PCU_COLL - {"PCU_Switch_Comm"} or x.get("n") in phase.BEGIN | phase.NEXT
        if not hasattr(s, "_coll"):
            s._coll = {g.id for g in s.L.funs if any(y.get("n") in (phase.MPI_COLL | phase.PCU_COLL | phase.BEGIN) - {"PCU_Switch_Comm"} for y in g.calls())}
        return bool(s.reach({t.id for t in ts}) & s._coll)

    def comms(s):
        s.nc = 0; s.sees = {}
        for f in s.P.need(N + "split"): s.walk(f, "small", None, 0)
        s.r.count("collective calls placed on a communicator", s.nc)

    def switching(s):
        if not hasattr(s, "_sw"): s._sw = {g.id for g in s.L.funs if g.cls not in s.inputs and any(x.get("n") == "PCU_Switch_Comm" for x in g.calls())}
        return s._sw

    def walk(s, f, start, who, depth):
        """communicators PCU may be on at the exit"""
        k = (f.id, start, who)
        if k in s.sees: return s.sees[k]
        s.sees[k] = {start}
        IN = defaultdict(set); IN[f.entry].add(start); wl = [f.entry]
        while wl:
            b = wl.pop(); cur = set(IN[b])
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]
                if x["k"] not in CALLS: continue
                ts = s.P.targets(f, x)
                if x.get("n") == "PCU_Switch_Comm" and f.args(x): cur = {s.commof(f, f.args(x)[0])}
                elif ts and s.reach({t.id for t in ts}) & s.switching() and depth < 8:
                    o = s.original(f, e); o = who if o is None else o
                    cur = set().union(*[s.walk(t, c, o, depth + 1) for t in ts for c in cur])
                elif s.collective(f, x) or s.ranked(f, x):
                    only = s.original(f, e); only = who if only is None else only
                    s.placed(f, e, x, cur, only)
            for t in f.succ()[b]:
                if not cur <= IN[t]: IN[t] |= cur; wl.append(t)
        s.sees[k] = set(IN[f.exit]) or {start}
        return s.sees[k]

    def ranked(s, f, x):
        """a change of the graph that depends on the number of this process"""
        if not hasattr(s, "_rank"):
            s._rank = {g.id for g in s.L.funs if any(y.get("n") in ("PCU_Comm_Self", "PCU_Comm_Peers") for y in g.calls())}
        return any((t.cls or "").startswith("agi::") and not t.const and t.id in s._rank for t in s.P.targets(f, x))

    def placed(s, f, e, x, st, only):
        s.nc += 1
        if only is True and "large" in st: s.r.bad("%s|%s|comm" % (f.qn, x.get("n")), f.where(e), "'%s' is run by the original processes only, on the communicator of all" % f.text(e)[:60])
        if only is not True and not st <= {"large"}: s.r.bad("%s|%s|comm" % (f.qn, x.get("n")), f.where(e), "'%s' is run by every process, on the communicator '%s'" % (f.text(e)[:60], ", ".join(sorted(st - {"large"}))))
        if only is True:          # a local split is one process's own work
            fl = [f.nodes[f.strip(z)].get("cv") for z in f.args(x) if f.nodes[f.strip(z)].get("ct") == "bool"]
            if len(fl) == 1 and fl[0] is not None and (str(fl[0]) == "1") != (st == {"self"}):
                s.r.bad("%s|%s|comm" % (f.qn, x.get("n")), f.where(e), "'%s': a %s split runs on the communicator '%s'" % (f.text(e)[:60], "local" if str(fl[0]) == "1" else "global", ", ".join(sorted(st))))

    def original(s, f, e):
        """True where the node only runs on original processes, False where only on others"""
        for b, tk in control_chain(f, e):
            c, sense = s.unneg(f, phase.cond_of(f, b))
            if SI + "isOriginal" in s.L.exact(f, c): return tk == sense
        return None

    def ranks(s):
        """the new owners are ranks of the communicator the graph moves to"""
        for f in s.L.funs:
            if not f.file.startswith("partition/"): continue
            if not any(x.get("qn") == "agi::Ngraph::changeOwners" for x in f.calls()): continue
            for x in f.calls():
                if x.get("n") == "MPI_Comm_rank" and f.args(x):
                    l = s.L.exact(f, f.args(x)[0])
                    if l and SI + "largeComm" not in l or SI + "smallComm" in l:
                        s.r.bad("%s|ranks" % f.qn, f.where(x["i"]), "the new owners are ranks of '%s', not of the large communicator" % ", ".join(sorted(str(z) for z in l)))

    def zoltan(s):
        n = 0
        for f in s.L.funs:
            for x in f.calls():
                if x.get("n") != "Zoltan_Set_Param": continue
                a = f.args(x); key = f.text(a[1]).strip('"')
                want = {"IMBALANCE_TOL": {SI + "tolerance"}, "NUM_GLOBAL_PARTS": {SI + "total_parts", SI + "split_factor"}}.get(key)
                if not want: continue
                buf = f.nodes[f.strip(a[2])].get("d"); last = None
                for y in f.calls():
                    if y.get("n") in ("sprintf", "snprintf") and f.nodes[f.strip(f.args(y)[0])].get("d") == buf and after(f, y["i"], x["i"]):
                        if last is None or after(f, last["i"], y["i"]): last = y
                if last is None: continue
                n += 1
                if not any(want & s.L.exact(f, y) for y in f.args(last)[1:]):
                    s.r.bad("%s|%s|zoltan" % (f.qn, key), f.where(last["i"]), "Zoltan's %s is '%s', not %s" % (key, f.text(last["i"])[:60], " or ".join(sorted(w.split("::")[-1] for w in want))))
        s.r.count("partitioner parameters", n)

    # -- J: an edge type is not replaced where the option is at hand
    def athand(s):
        types = {d for d in s.own if s.u.optfield(d)}
        slot = set()
        for f in s.L.funs:
            for x in f.reach_nodes():
                if x["k"] not in CALLS and x["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): continue
                for t in s.P.targets(f, x):
                    if t.cls in s.inputs: continue
                    for k, a in enumerate(f.args(x)):
                        if k < len(t.params) and s.L.exact(f, a) & types: slot.add((t.id, k))
        ch = True
        while ch:
            ch = False
            for f in s.L.funs:
                ix = {p["d"]: k for k, p in enumerate(f.params)}
                if not ix: continue
                for x in f.reach_nodes():
                    if x["k"] not in CALLS and x["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): continue
                    for t in s.P.targets(f, x):
                        for k, a in enumerate(f.args(x)):
                            if (t.id, k) in slot:
                                d = f.nodes[f.strip(a)].get("d")
                                if d in ix and (f.id, ix[d]) not in slot: slot.add((f.id, ix[d])); ch = True
        n = 0; slot -= s.dimslots()
        for f in s.L.funs:
            if f.cls in s.inputs: continue
            have = s.inhand(f)
            if not have: continue
            for x in f.reach_nodes():
                if x["k"] not in CALLS and x["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): continue
                for t in s.P.targets(f, x):
                    a = f.args(x)
                    for k in range(min(len(a), len(t.params))):
                        if (t.id, k) not in slot: continue
                        n += 1
                        y, _ = s.unneg(f, a[k])
                        if f.nodes[y].get("cv") is not None:
                            s.r.bad("%s|%s|literal" % (f.qn, t.qn), f.where(x["i"]), "'%s' takes the edge type %s although %s says which" % (f.text(x["i"])[:60], f.nodes[y]["cv"], " or ".join(sorted(d.replace(N, "") for d in types if s.own[d][0] in have))))
        s.r.count("edge types handed over where options are at hand", n)

    def inhand(s, f):
        """input classes with edge-type options at hand in a function"""
        txt = [p["ct"] for p in f.params] + [v.get("ct") or "" for v in s.vars(f)]
        rc = s.P.recs.get(f.cls or "")
        if rc and not f.static: txt += [fl["ct"] for fl in rc["fields"]]
        own = {s.own[d][0] for d in s.own if s.u.optfield(d)}
        return {q for q in own if any(q.split("::")[-1] in c.replace("*", " ").replace("&", " ").replace("::", " ").split() for c in txt)}

    # -- K: a dimension (-1 for vertices) is not an edge-type option
    def dimslots(s):
        if hasattr(s, "_dim"): return s._dim
        slot = {(f.id, 1) for f in s.P.byname.get(N + "getWeight", [])}
        for f in s.L.funs:
            for k, p in enumerate(f.params):
                for x in f.reach_nodes():
                    if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
                        y = [f.nodes[f.strip(c)] for c in x["c"]]
                        if any(z.get("d") == p["d"] and str(w.get("cv")) == "-1" for z, w in (y, y[::-1])): slot.add((f.id, k))
        ch = True
        while ch:
            ch = False
            for f in s.L.funs:
                ix = {p["d"]: k for k, p in enumerate(f.params)}
                for x in f.calls():
                    for t in s.P.targets(f, x):
                        for k, a in enumerate(f.args(x)):
                            if (t.id, k) in slot:
                                d = f.nodes[f.strip(a)].get("d")
                                if d in ix and (f.id, ix[d]) not in slot: slot.add((f.id, ix[d])); ch = True
        s._dim = slot
        return slot

    def dims(s):
        types = {d for d in s.own if s.u.optfield(d)}; slot = s.dimslots()
        n = 0
        for f in s.L.funs:
            if f.cls in s.inputs or not f.file.startswith("partition/"): continue
            for x in f.reach_nodes():
                if x["k"] not in CALLS and x["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): continue
                for t in s.P.targets(f, x):
                    for k, a in enumerate(f.args(x)):
                        if (t.id, k) not in slot: continue
                        n += 1; y = f.nodes[f.strip(a)]
                        l = s.L.src(f, a) & types
                        if l and not (y["k"] == "DeclRefExpr" and y["d"] in {p["d"] for p in f.params}):
                            s.r.bad("%s|%s|dimension" % (f.qn, t.qn), f.where(x["i"]), "'%s' takes %s for the dimension being balanced" % (f.text(x["i"])[:70], ", ".join(sorted(z.replace(N, "") for z in l))))
        s.r.count("dimensions handed over", n)


def number(f, i):
    i = f.strip(i); x = f.nodes[i]
    for _ in range(6):
        if x.get("cv") is not None:
            try: return float(x["cv"])
            except (TypeError, ValueError): pass
        t = f.text(i)
        try: return float(t)
        except (TypeError, ValueError): pass
        if x.get("c") and len(x["c"]) == 1: i = f.strip(x["c"][0]); x = f.nodes[i]
        else: return None
    return None


def sub(f, i):
    st = [i]
    while st:
        k = st.pop()
        if k is None or k < 0 or f.nodes[k] is None: continue
        yield f.nodes[k]
        st += [c for c in f.nodes[k].get("c", []) if isinstance(c, int)]


def at(f, i):
    if not hasattr(f, "_at"):
        f._at = {}
        for b in f.succ():
            for k, e in enumerate(f.elems(b)):
                if isinstance(e, int): f._at[e] = (b, k)
    while i is not None and i not in f._at: i = f.parent.get(i)
    return f._at.get(i)


def missed(f, blocks):
    """the exit can be reached without these blocks"""
    seen = set(); st = [f.entry]
    while st:
        b = st.pop()
        if b in seen or b in blocks: continue
        seen.add(b)
        if b == f.exit: return True
        st += f.succ()[b]
    return False


def after(f, i, j):
    """j can run after i"""
    a, b = at(f, i), at(f, j)
    if a is None or b is None: return False
    if a[0] == b[0] and b[1] > a[1]: return True
    seen = set(); st = list(f.succ()[a[0]])
    while st:
        q = st.pop()
        if q in seen: continue
        seen.add(q); st += f.succ()[q]
    return b[0] in seen


def reachb(f, t, without):
    seen = {without}; st = [t]
    while st:
        q = st.pop()
        if q in seen: continue
        seen.add(q); st += f.succ()[q]
    return seen - {without}


def control_chain(f, i):
    """[(block, taken first edge)] branches that must have gone one way for this node to run"""
    p = at(f, i)
    if p is None: return []
    out = []
    for b in f.succ():
        ss = f.succ()[b]
        if len(ss) != 2 or phase.cond_of(f, b) is None: continue
        r = [p[0] == t or p[0] in reachb(f, t, b) for t in ss]
        if r[0] != r[1] and p[0] != b: out.append((b, r[0]))
    return out


def run(P, r, tier):
    import p16
    o = Opt(P, r)
    r.count("uses of the communicator of all processes", p16.world(P, r))
    o.setters(); o.roles(); o.ghosts(); o.effects(); o.limits(); o.thresholds(); o.switches(); o.defaults(); o.split(); o.athand(); o.dims(); o.given()
    r.count("functions analysed", len(o.L.funs)); r.count("rounds to the fixed point", o.L.rounds)
    r.explain = ("Every option of the input classes is followed through copies, arguments, returns, fields and containers to where it is consumed. Interface parameters must arrive in their option on every path; an "
                 "edge-type option may only select graph data in the code it is documented for; weights of the balanced graph are taken with the ghost option; every step is preceded, since the last, by a passed test of each "
                 "iteration limit; thresholds split at the documented value and side; switches run what they name; constructor values equal the documented defaults.")
    r.assume = ["which option governs which code is the table in this file, taken from the headers' documentation", "options of one class are not told apart by object", "the coloring input is only read with Kokkos and is not judged"]
