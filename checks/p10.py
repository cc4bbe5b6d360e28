"""Log entries are balanced: typestate (log open?, depth) over all paths, callees by net effect."""
from agx import *
import phase as ph

ENTER, LEAVE, OPEN = "EnGPar_Log_Function", "EnGPar_End_Function", "EnGPar_Is_Log_Open"


class Log:
    def __init__(s, P):
        s.P = P; s.memo = {}; s.raw = {}; s.viol = {}; s.sites = set(); s.states = 0

    def isopen(s, f, c):
        """(sense) if the condition tests whether the log is open"""
        neg = False
        for _ in range(12):
            c = f.strip(c); x = f.nodes[c]
            if x["k"] == "UnaryOperator" and x["op"] == "!": neg = not neg; c = x["c"][0]; continue
            if x["k"] == "DeclRefExpr":
                d = single_def(f, x["d"])
                if d is None: return None
                c = d; continue
            if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
                v = f.nodes[f.strip(x["c"][1])].get("cv")
                if v not in (0, 1): return None
                if (x["op"] == "==") == (v == 0): neg = not neg
                c = x["c"][0]; continue
            break
        if x["k"] in CALLS:
            if x.get("qn") == OPEN: return not neg
            for t in s.P.targets(f, x):      # a wrapper that only returns the test
                r = [y for y in t.reach_nodes() if y["k"] == "ReturnStmt"]
                if len(r) == 1 and r[0]["c"] and len(list(t.calls())) == 1:
                    q = s.isopen(t, r[0]["c"][0])
                    if q is not None: return q != neg
        return None

    def effect(s, f):
        """{log open: set of (net, lowest)} over completed paths"""
        if f.id in s.memo: return s.memo[f.id]
        s.memo[f.id] = {True: {(0, 0)}, False: {(0, 0)}}
        out = {}
        for o in (True, False):
            res = set(); IN = defaultdict(set); IN[f.entry].add((0, 0)); wl = [f.entry]
            while wl:
                b = wl.pop()
                cur = set(IN[b])
                for e in f.elems(b):
                    if not isinstance(e, int): continue
                    x = f.nodes[e]
                    if x["k"] == "CXXThrowExpr": cur = set()
                    if x["k"] not in CALLS: 
                        if x["k"] not in ("CXXConstructExpr", "CXXTemporaryObjectExpr"): continue
                    q = x.get("qn")
                    if q in (ENTER, LEAVE):
                        s.sites.add((f.id, e)); d = 1 if q == ENTER else -1
                        cur = {(n + d, min(m, n + d)) for n, m in cur}
                    else:
                        new = None
                        for t in s.P.targets(f, x):
                            ef = s.effect(t)[o]
                            if ef - {(0, 0)}:
                                new = (new or set()) | {(n + dn, min(m, n + dm)) for n, m in cur for dn, dm in ef}
                        if new is not None: cur = new
                s.states += len(cur)
                if any(abs(n) > 8 for n, m in cur):
                    cur = {(n, m) for n, m in cur if abs(n) <= 8}
                if b == f.exit: res |= cur; continue
                su = f.succ()[b]; c = ph.cond_of(f, b); w = s.isopen(f, c) if c is not None else None
                for k, y in enumerate(su):
                    if w is not None and ((k == 0) == w) != o: continue
                    if not cur <= IN[y]: IN[y] |= cur; wl.append(y)
            out[o] = res
        # an unbalanced function is reported once, where it happens; its callers take it as balanced
        nets = {a for a, _ in out[True]}
        s.raw[f.id] = out
        if len(nets) > 1: out = {True: {(0, 0)}, False: {(0, 0)}}
        s.memo[f.id] = out
        return out


class Prim:
    """the log's own functions over (handle open?, depth change, closings, depth reset): every path"""
    def __init__(s, P, r):
        s.P = P; s.r = r; s.np = 0
        f = P.need(OPEN)[0]
        s.H = s.V = None

    def loc(s, f, i):
        x = f.nodes[f.strip(i)]
        if x["k"] == "DeclRefExpr" and not x["d"].startswith("%"): return x["d"]
        if x["k"] == "MemberExpr": return x["d"]
        return None

    def find(s):
        """the handle: what fopen's result is stored in; the depth: what the end function steps"""
        P = s.P
        for f in s.reach(P.need("EnGPar_Open_Log")[0]):
            for x in f.reach_nodes():
                if x["k"] == "BinaryOperator" and x["op"] == "=" and s.loc(f, x["c"][0]) and x["ct"].endswith("*"): s.H = s.loc(f, x["c"][0])
        for f in s.reach(P.need(LEAVE)[0]):
            for x in f.reach_nodes():
                c = None
                if x["k"] == "UnaryOperator" and x["op"] in ("++", "--"): c = x["c"][0]
                elif x["k"] == "CompoundAssignOperator" or x["k"] == "BinaryOperator" and x["op"] == "=": c = x["c"][0]
                if c is not None and s.loc(f, c) and not x["ct"].endswith("*"): s.V = s.loc(f, c)

    def reach(s, f, seen=None):
        seen = seen if seen is not None else {}
        if f.id in seen: return []
        seen[f.id] = f
        for x in f.calls():
            for t in s.P.targets(f, x): s.reach(t, seen)
        return list(seen.values())

    def val(s, f, i, h, d=0):
        """0 / 1 / None"""
        if i is None or i < 0 or d > 15: return None
        x = f.nodes[f.strip(i)]; k = x["k"]
        if x.get("cv") is not None: return 1 if x["cv"] else 0
        if k in ("CXXNullPtrLiteralExpr", "GNUNullExpr"): return 0
        if s.loc(f, x["i"]) == s.H: return h
        if k == "UnaryOperator" and x["op"] == "!":
            v = s.val(f, x["c"][0], h, d + 1); return None if v is None else 1 - v
        if k == "BinaryOperator":
            a, b = s.val(f, x["c"][0], h, d + 1), s.val(f, x["c"][1], h, d + 1)
            if x["op"] in ("==", "!=") and None not in (a, b) and 0 in (a, b): return int((a == b) == (x["op"] == "=="))
            if x["op"] == "&&": return 0 if 0 in (a, b) else 1 if a == b == 1 else None
            if x["op"] == "||": return 1 if 1 in (a, b) else 0 if a == b == 0 else None
        if k == "ConditionalOperator":
            c = s.val(f, x["c"][0], h, d + 1)
            if c is not None: return s.val(f, x["c"][1 if c else 2], h, d + 1)
            a, b = s.val(f, x["c"][1], h, d + 1), s.val(f, x["c"][2], h, d + 1)
            return a if a == b else None
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            q = single_def(f, x["d"])
            if q is not None: return s.val(f, q, h, d + 1)
        if k in CALLS:
            ts = s.P.targets(f, x)
            if len(ts) == 1:
                rs = {v for _, v in s.paths(ts[0], h, d + 1)}
                if len(rs) == 1: return next(iter(rs))
        return None

    def number(s, f, i):
        return f.nodes[f.strip(i)].get("cv")

    def paths(s, f, h0, d=0):
        """{((handle, depth change, closings, reset, opened), returned)}"""
        out = set(); st0 = (h0, 0, 0, False, False)
        seen = set(); wl = [(f.entry, st0, None)]
        while wl:
            b, st, ret = wl.pop()
            if (b, st, ret) in seen: continue
            seen.add((b, st, ret)); s.np += 1
            if abs(st[1]) > 4: continue
            h, n, c, z, o = st; forks = None
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]
                if x["k"] == "UnaryOperator" and x["op"] in ("++", "--") and s.loc(f, x["c"][0]) == s.V: n += 1 if x["op"] == "++" else -1
                elif x["k"] in ("CompoundAssignOperator", "BinaryOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    l = s.loc(f, x["c"][0]); w = s.number(f, x["c"][1])
                    if l == s.V:
                        if x["op"] in ("+=", "-=") and w is not None: n += w if x["op"] == "+=" else -w
                        elif x["op"] == "=" and w is not None: n = 0; z = w == 0
                        else:
                            y = f.nodes[f.strip(x["c"][1])]; k = None
                            if x["op"] == "=" and y["k"] == "BinaryOperator" and y["op"] in ("+", "-"):
                                p, q = y["c"]
                                if s.loc(f, p) == s.V: k = s.number(f, q)
                                elif s.loc(f, q) == s.V and y["op"] == "+": k = s.number(f, p)
                                if k is not None and y["op"] == "-": k = -k
                            n = n + k if k is not None else 99
                    elif l == s.H and x["op"] == "=":
                        v = s.val(f, x["c"][1], h)
                        if v is None: v = 1; o = True
                        h = v
                elif x["k"] in CALLS:
                    if x.get("n") == "fclose" and any(s.loc(f, a) == s.H for a in f.args(x)): c += 1
                    ts = [t for t in s.P.targets(f, x) if t.file.startswith("support/")]
                    if ts and d < 6:
                        forks = [q for t in ts for q, _ in s.paths(t, h, d + 1)]
                        forks = sorted({(q[0], n + q[1] if not q[3] else q[1], c + q[2], z or q[3], o or q[4]) for q in forks})
                        if len(forks) == 1: h, n, c, z, o = forks[0]; forks = None
                        elif forks: h, n, c, z, o = forks[-1]
                elif x["k"] == "ReturnStmt" and x.get("c"): ret = s.val(f, x["c"][0], h)
            sts = [(h, n, c, z, o)] + (forks[:-1] if forks else [])
            for st in sts:
                if abs(st[1]) > 4: out.add((st, ret)); continue
                if b == f.exit: out.add((st, ret)); continue
                su = f.succ()[b]; cnd = ph.cond_of(f, b); v = s.val(f, cnd, st[0]) if cnd is not None and len(su) == 2 else None
                for k, y in enumerate(su):
                    if v is not None and len(su) == 2 and (k == 0) != bool(v): continue
                    wl.append((y, st, ret))
        return out

    def main(s):
        P, r = s.P, s.r; s.find()
        if s.H is None or s.V is None: raise Broken("anchor vanished: the log's handle or depth")
        for q, d in ((ENTER, 1), (LEAVE, -1)):
            f = P.need(q)[0]
            for h in (1,):
                bad = sorted({st[1] for st, _ in s.paths(f, h) if st[1] != d and abs(st[1]) < 90})
                if bad: r.bad("%s|counter" % q, f.where(), "a path changes the log depth by %+d instead of %+d" % (bad[0], d))
                if any(st[0] != h for st, _ in s.paths(f, h)): r.bad("%s|handle" % q, f.where(), "changes whether the log is open")
        f = P.need(OPEN)[0]
        for h in (0, 1):
            vs = {v for _, v in s.paths(f, h)}
            if vs != {h}: r.bad("%s|answer" % OPEN, f.where(), "with the log %s the answer is %s" % ("open" if h else "closed", "not decided by the log's handle alone" if None in vs else "wrong"))
        f = P.need("EnGPar_Open_Log")[0]
        for st, _ in s.paths(f, 0):
            if st[4] and not (st[3] and st[1] == 0): r.bad("EnGPar_Open_Log|depth", f.where(), "the log is opened without setting its depth to 0")
        f = P.need("EnGPar_Close_Log")[0]
        for st, _ in s.paths(f, 1):
            if st[0] != 0: r.bad("EnGPar_Close_Log|handle", f.where(), "the log still counts as open after it was closed")
            if st[2] != 1: r.bad("EnGPar_Close_Log|close", f.where(), "the open log is closed %d times" % st[2])
        for st, _ in s.paths(f, 0):
            if st[0] != 0 or st[2]: r.bad("EnGPar_Close_Log|closed", f.where(), "with the log closed it is closed again or counts as open")
        # a log opened or closed between an entry and its end would leave the depth behind
        for g in P.funcs.values():
            if g.file.startswith("support/"): continue
            for x in g.calls():
                if x.get("qn") in ("EnGPar_Open_Log", "EnGPar_Close_Log") and not g.file.startswith("test"): r.bad("%s|opens-log" % g.qn, g.where(x["i"]), "the library opens or closes the log itself")
        return s.np


def run(P, r, tier):
    L = Log(P)
    for q in (ENTER, LEAVE, OPEN): P.need(q)
    callers = defaultdict(set)
    for f in P.funcs.values():
        for x in f.calls():
            for t in P.targets(f, x): callers[t.id].add(f.id)
    n = 0
    for fid, f in sorted(P.funcs.items()):
        if f.qn in (ENTER, LEAVE): continue
        L.effect(f); e = L.raw[fid]
        if e[True] == {(0, 0)} and e[False] <= {(0, 0)} and not any(y[0] == fid for y in L.sites): continue
        if any(y[0] == fid for y in L.sites): n += 1
        nets = {a for a, _ in e[True]}
        if len(nets) > 1: r.bad("%s|unbalanced" % f.qn, f.where(), "with the log open some paths return with log depth changed by %s" % sorted(nets))
        elif nets and nets != {0} and not callers[fid]: r.bad("%s|unbalanced" % f.qn, f.where(), "with the log open every path changes the log depth by %+d" % next(iter(nets)))
        elif nets == {0} and min(m for _, m in e[True]) < 0: r.bad("%s|order" % f.qn, f.where(), "a log entry is ended before one is begun")
        if e[False] - {(0, 0)}: 
            r.bad("%s|closed-log" % f.qn, f.where(), "writes to the log or changes its depth without the log being open")
    np = Prim(P, r).main()
    r.count("paths through the log's own functions", np)
    r.need("functions that log", n, 14); r.need("log entry/exit sites", len(L.sites), 30)
    r.count("path states explored", L.states)
    r.explain = "typestate (log open or not, depth) over all paths of every function; callees by their net effect; every path must end at the depth it began, never below it, and touch nothing while the log is closed"
    r.assume = ["the log is not opened or closed inside a logged function", "paths that throw are not charged"]
