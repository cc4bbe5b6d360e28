"""Symbolic extents: reaching definitions of counts, linear forms over graph sizes, upper bounds of loop variables."""
import re
from fractions import Fraction
from agx import *
import phase as ph

BASE = {"num_local_verts": "NLV", "num_ghost_verts": "NGV", "num_types": "NT", "num_global_verts": "NVG"}
TYPED = {"num_local_edges": "NLE", "num_local_pins": "NLP", "num_global_edges": "NEG", "num_global_pins": "NPG"}
QUERY = {"numLocalVtxs": "num_local_verts", "numGhostVtxs": "num_ghost_verts", "numEdgeTypes": "num_types", "numGlobalVtxs": "num_global_verts",
         "numLocalEdges": "num_local_edges", "numLocalPins": "num_local_pins", "numGlobalEdges": "num_global_edges", "numGlobalPins": "num_global_pins"}
# what the graph's arrays hold
DECL = {"local_unmap": {"NLV": 1}, "local_weights": {"NLV": 1}, "original_owners": {"NLV": 1}, "local_coords": {"NLV": 1}, "ghost_unmap": {"NGV": 1}, "owners": {"NGV": 1},
        "edge_unmap": {"NLE": 1}, "degree_list": {"NLV": 1, 1: 1}, "pin_degree_list": {"NLE": 1, 1: 1}, "pin_list": {"NLP": 1}, "vev_offsets": {"NLV": 1, 1: 1}, "eve_offsets": {"NLE": 1, 1: 1},
        "edge_weights": {"NLE": 1}, "edge_list": {"DL": 1}, "vev_lists": {"VL": 1}, "eve_lists": {"EL": 1}}
LISTOF = {"edge_list", "vev_lists", "eve_lists"}
ELEM = {"DL": ("degree_list", "NLV"), "VL": ("vev_offsets", "NLV"), "EL": ("eve_offsets", "NLE")}
MUT = {"push_back", "insert", "clear", "resize", "erase", "emplace_back", "pop_back", "assign", "swap", "operator=", "emplace", "reserve_", "append", "push_front", "pop_front", "operator[]"}
ONE = 1


def add(a, b, k=1):
    o = dict(a)
    for t, c in b.items():
        o[t] = o.get(t, 0) + k * c
        if o[t] == 0: del o[t]
    return o
def num(c): return {ONE: c} if c else {}
def scale(a, k): return {t: c * k for t, c in a.items()} if k else {}
def const(a): return a.get(ONE, 0) if all(t == ONE for t in a) else None
def const0(a): return None if a is None else const(a)
def show(a):
    p = []
    for t, c in sorted(a.items(), key=lambda z: (z[0] == ONE, str(z[0]))):
        n = t if t == ONE else t[0] if isinstance(t, tuple) else t
        s = str(abs(c)) if t == ONE else (("%d*" % abs(c) if abs(c) != 1 else "") + name(t))
        p.append(("-" if c < 0 else "+") + s)
    r = "".join(p) or "0"
    return r[1:] if r[0] == "+" else r
def name(t):
    if isinstance(t, tuple):
        if t[0] in ("base", "sz", "par", "deg"): return re.sub(r"%(\w+)#\d+", r"\1", str(t[1])) if len(t) < 3 else re.sub(r"%(\w+)#\d+", r"\1", "%s" % t[1]) + ("[" + re.sub(r"%(\w+)#\d+", r"\1", str(t[2])) + "]" if t[2] else "")
        return re.sub(r"%(\w+)#\d+", r"\1", str(t[1]))
    return str(t)


class Ext:
    """facts of one function"""
    def __init__(s, A, f):
        s.A = A; s.P = A.P; s.f = f
        s.bo = block_of(f); s.pos = {}
        for b in f.succ():
            for k, e in enumerate(f.elems(b)):
                if isinstance(e, int): s.pos.setdefault(e, (b, k))
        s._in = {}; s.collect(); s._lin = {}

    # -------------------------------------------------- cells
    def objkey(s, i):
        """name of the object a field or query is taken from"""
        f = s.f
        if i is None: return "this"
        while True:
            i = f.strip(i); x = f.nodes[i]
            if x["k"] in CALLS and x.get("n") == "publicize": i = f.obj(x); continue
            if x["k"] == "UnaryOperator" and x["op"] in ("*", "&"): i = x["c"][0]; continue
            if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
                d = single_def(f, x["d"])
                if d is not None and f.nodes[f.strip(d)]["k"] != "CXXNewExpr": i = d; continue
            break
        return f.key(i)

    def cell(s, i):
        """the cell an lvalue expression denotes: local variable, field or typed field"""
        f = s.f; x = f.nodes[f.strip(i)]
        if x["k"] == "DeclRefExpr": return x["d"]
        if x["k"] == "MemberExpr" and x.get("dk") == "Field":
            return "%s.%s" % (s.objkey(x["c"][0]) if x["c"] else "this", x["n"])
        if x["k"] == "ArraySubscriptExpr":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "MemberExpr" and y.get("dk") == "Field" and (y["n"] in TYPED or y["n"] in DECL) and "[" in y["ct"].replace("[3]", ""):
                return "%s.%s[%s]" % (s.objkey(y["c"][0]) if y["c"] else "this", y["n"], rkey(f, x["c"][1]))
        return None

    @staticmethod
    def fieldof(c):
        m = re.search(r"\.(\w+)(?:\[.*\])?$", c)
        return m.group(1) if m else None

    def collect(s):
        """definitions: block -> [(position, id, cells killed, cells touched)]"""
        f = s.f; s.defs = {}; s.at = defaultdict(list); n = 0
        def new(node, cell, rhs, strong=True, kind="="):
            nonlocal n
            b, k = s.pos.get(node, (None, None))
            if b is None: return
            n += 1; s.defs[n] = (cell, rhs, strong, kind, node); s.at[b].append((k, n))
        for b in f.succ():
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]; k = x["k"]
                if k == "DeclStmt":
                    for d in x["decls"]:
                        if len(x["decls"]) > 1: pass
                        new(e, d["d"], d["init"] if d["init"] >= 0 else None, True, "=" if d["init"] >= 0 else "decl")
                elif k == "BinaryOperator" and x["op"] == "=":
                    c = s.cell(x["c"][0])
                    if c: new(e, c, x["c"][1])
                elif k == "CompoundAssignOperator":
                    c = s.cell(x["c"][0])
                    if c: new(e, c, x["c"][1], True, x["op"])
                elif k == "UnaryOperator" and x["op"] in ("++", "--"):
                    c = s.cell(x["c"][0])
                    if c: new(e, c, None, True, x["op"])
                elif k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                    # arguments by reference or address
                    for a in f.args(x):
                        y = f.nodes[f.strip(a)]
                        if y["k"] == "UnaryOperator" and y["op"] == "&":
                            c = s.cell(y["c"][0])
                            if c: new(e, c, None, True, "call")
                        elif f.nodes[a]["k"] in ("DeclRefExpr", "MemberExpr"):          # no lvalue-to-rvalue conversion: bound to a reference
                            c = s.cell(a)
                            if c and not s.constref(x, a): new(e, c, None, True, "call")
                    if x.get("meth") and x.get("n") in MUT and not (x["n"] == "operator[]" and "map<" not in f.nodes[f.strip(f.obj(x))]["ct"]):
                        c = s.cell(f.obj(x))
                        if c: new(e, c, None, True, "mut")
                    if x.get("opcall") and x.get("n") in ("operator=",) and not x.get("meth"): pass
                    if k in CALLS:
                        mods = set()
                        for t in s.P.targets(f, x): mods |= s.A.mods(t.id)
                        for m in mods: new(e, ".%s" % m, None, True, "call")
        s.cells = {d[0] for d in s.defs.values()}

    def constref(s, x, a):
        """the argument is bound to a constant reference"""
        f = s.f
        for t in s.P.targets(f, x)[:1]:
            A = f.args(x)
            j = A.index(a)
            if j < len(t.params): return t.params[j]["ct"].startswith("const ") or "&" not in t.params[j]["ct"]
        if not s.P.targets(f, x):
            n = x.get("n", "")
            return n in ("push_back", "insert", "find", "count", "operator[]", "at", "make_pair", "to_string") or x["k"] != "CallExpr"
        return False

    def kills(s, dcell, cell):
        """does a definition of dcell define cell: 2 surely, 1 perhaps, 0 not"""
        if dcell == cell: return 2
        if dcell.startswith("."):
            return 2 if s.fieldof(cell) == dcell[1:] else 0
        a, b = s.fieldof(dcell), s.fieldof(cell)
        if a and a == b:
            # another object or another edge type: may be the same one
            return 1
        return 0

    def reach(s, cell, node):
        """ids of the definitions of a cell that reach a node (0: the value on entry)"""
        f = s.f
        if cell not in s._in:
            gen = {}; succ = f.succ()
            for b in succ:
                l = []
                for k, d in sorted(s.at.get(b, ())):
                    m = s.kills(s.defs[d][0], cell)
                    if m: l.append((k, d, m))
                if l: gen[b] = l
            IN = {b: set() for b in succ}; IN[f.entry] = {0}; wl = [f.entry]; seen = set()
            while wl:
                b = wl.pop(); cur = set(IN[b]); seen.add(b)
                for k, d, m in gen.get(b, ()): cur = {d} if m == 2 else cur | {d}
                for y in succ[b]:
                    if not cur <= IN[y] or y not in seen:
                        IN[y] |= cur; wl.append(y); seen.add(y)
            s._in[cell] = (IN, gen)
        IN, gen = s._in[cell]
        b, p = s.pos[node] if node in s.pos else (None, None)
        if b is None: return None
        cur = set(IN.get(b, ()))
        for k, d, m in gen.get(b, ()):
            if k >= p: break
            cur = {d} if m == 2 else cur | {d}
        return frozenset(cur)

    def ver(s, cell, node):
        """name of the value a cell holds at a node: its one definition, or the place where definitions merge"""
        r = s.reach(cell, node)
        if r is None: return None
        if len(r) == 1: return next(iter(r))
        IN, gen = s._in[cell]; b, p = s.pos[node]
        # a weak definition in this block
        here = [d for k, d, m in gen.get(b, ()) if k < p]
        if here: return ("m", here[-1])
        dom = s.dom(); D = {x: len(dom[x]) for x in dom}
        while True:
            up = sorted((x for x in dom.get(b, ()) if x != b), key=lambda x: -D[x])
            if not up: return ("b", b)
            a = up[0]
            if s.end(cell, a) != r or not s.quiet(cell, a, b): return ("b", b)
            here = [d for k, d, m in gen.get(a, ())]
            if here: return ("m", here[-1])
            b = a

    def endnode(s, b):
        """a stand-in node for the end of a block"""
        s.pos[("end", b)] = (b, 1 << 30)
        return ("end", b)

    def quiet(s, cell, a, b):
        """no definition of the cell on the paths from the end of a to the start of b that do not pass a again"""
        f = s.f; IN, gen = s._in[cell]
        fw = set(); st = list(f.succ()[a])
        while st:
            y = st.pop()
            if y in fw or y == a: continue
            fw.add(y); st += f.succ()[y]
        bw = set(); st = [q for q in f.pred()[b] if q != a]
        while st:
            y = st.pop()
            if y in bw or y == a or y not in fw: continue
            bw.add(y); st += f.pred()[y]
        return not any(gen.get(y) for y in fw & bw)

    # -------------------------------------------------- values
    def atom(s, cell, node, depth=0):
        """value of a cell at a node"""
        r = s.reach(cell, node)
        if r is None: return None
        if len(r) == 1:
            d = next(iter(r))
            if d == 0:
                fl = s.fieldof(cell)
                if fl is None and cell.startswith("%"): return {("par", cell): 1}
                if fl in BASE: return {("base", BASE[fl], cell.rsplit(".", 1)[0] if not cell.startswith("this.") else "this"): 1}
                if fl in TYPED:
                    m = re.match(r"^(.*)\.\w+\[(.*)\]$", cell)
                    return {("base", TYPED[fl], m.group(2), m.group(1)): 1}
                return {("fld", cell): 1}
            c, rhs, strong, kind, n = s.defs[d]
            if kind == "=" and rhs is not None and depth < 12:
                v = s.lin(rhs, n, depth + 1)
                if v is not None: return v
            return {("def", cell, d): 1}
        return {("phi", cell, s.ver(cell, node)): 1}

    def lin(s, i, node, depth=0):
        """exact value of an integer expression as a linear form, or None"""
        f = s.f; x = f.nodes[i]
        if x.get("cv") is not None: return num(int(x["cv"]))
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if x.get("cv") is not None: return num(int(x["cv"]))
        if depth > 14: return None
        if k in ("DeclRefExpr", "MemberExpr"):
            c = s.cell(i)
            if c is None or c.startswith("::") : return None
            return s.atom(c, node, depth)
        if k == "ArraySubscriptExpr":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "MemberExpr" and y["n"] in TYPED:
                return s.atom(s.cell(i), node, depth)
            # the last offset of a graph's offset array is the length of its list
            b = s.array(x["c"][0])
            if b and b[1] in ("degree_list", "vev_offsets", "eve_offsets"):
                j = s.lin(x["c"][1], node, depth + 1)
                for q, (fl, bs) in ELEM.items():
                    if fl == b[1]:
                        w = s.size(bs, b[2], b[0], node)
                        if j is not None and w is not None and add(j, w, -1) == {}: return {("base", q, b[2] or "", b[0]): 1}
            return None
        if k in CALLS:
            n = x.get("n", "")
            if n in QUERY and x.get("meth"):
                o = s.objkey(f.obj(x)); fl = QUERY[n]; A = f.args(x)
                if fl in TYPED:
                    t = rkey(f, A[0]) if A and f.nodes[A[0]]["k"] != "CXXDefaultArgExpr" else "0"
                    return s.atom("%s.%s[%s]" % (o, fl, t), node, depth)
                return s.atom("%s.%s" % (o, fl), node, depth)
            if n == "numTotalVtxs":
                o = s.objkey(f.obj(x))
                a, b = s.atom(o + ".num_local_verts", node, depth), s.atom(o + ".num_ghost_verts", node, depth)
                return add(a, b) if a and b else None
            if n == "PCU_Comm_Peers": return {("base", "PEERS", ""): 1}
            if n == "PCU_Comm_Self": return {("base", "SELF", ""): 1}
            if n in ("size", "length") and x.get("meth") and not f.args(x):
                o = f.obj(x); c = s.cell(o)
                if c is None:
                    return {("sz", rkey(f, o), "?"): 1}
                return {("sz", c, s.ver(c, node)): 1}
            if n == "degree" and x.get("meth"):
                A = f.args(x)
                return {("deg", ",".join(rkey(f, a) for a in A if f.nodes[a]["k"] != "CXXDefaultArgExpr"), s.version(A, node)): 1}
            return None
        if k in ("BinaryOperator",) and x["op"] in ("+", "-", "*"):
            a, b = s.lin(x["c"][0], node, depth + 1), s.lin(x["c"][1], node, depth + 1)
            if a is None or b is None: return None
            if x["op"] != "*": return add(a, b, 1 if x["op"] == "+" else -1)
            ca, cb = const(a), const(b)
            if cb is not None: return scale(a, cb)
            if ca is not None: return scale(b, ca)
            return None
        if k == "UnaryOperator" and x["op"] == "-":
            a = s.lin(x["c"][0], node, depth + 1)
            return scale(a, -1) if a is not None else None
        return None

    def version(s, A, node):
        out = []
        for a in A:
            for c in s.namesof(a): out.append((c, s.ver(c, node)))
        return tuple(sorted(out, key=str))

    def namesof(s, i):
        f = s.f; out = set(); st = [i]
        while st:
            x = f.nodes[st.pop()]
            if x["k"] == "DeclRefExpr" and x["d"].startswith("%"): out.add(x["d"])
            st += [c for c in x["c"] if c >= 0]
        return out

    def size(s, base, t, obj, node):
        """NLV, NGV, NLE[t].. of an object at a node"""
        inv = {v: k for k, v in list(BASE.items()) + list(TYPED.items())}
        fl = inv[base]
        return s.atom("%s.%s" % (obj, fl) if fl in BASE else "%s.%s[%s]" % (obj, fl, t), node)

    def array(s, i):
        """(object, field, type key) when an expression is one of the graph's arrays"""
        f = s.f; x = f.nodes[f.strip(i)]
        if x["k"] == "ArraySubscriptExpr":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "MemberExpr" and y["n"] in DECL and ("*" in y["ct"]) and "[" in y["ct"]:
                return (s.objkey(y["c"][0]) if y["c"] else "this", y["n"], rkey(f, x["c"][1]))
            return None
        if x["k"] == "MemberExpr" and x["n"] in DECL and "[" not in x["ct"].replace("[3]", ""):
            return (s.objkey(x["c"][0]) if x["c"] else "this", x["n"], None)
        return None

    def declared(s, a, node):
        """elements a graph array holds by its meaning"""
        o, fl, t = a
        out = {}
        for k, c in DECL[fl].items():
            if k == ONE: out = add(out, num(c)); continue
            if k in ELEM: out = add(out, {("base", k, t or "", o): 1}); continue
            v = s.size(k, t, o, node)
            if v is None: return None
            out = add(out, scale(v, c))
        return out

    # -------------------------------------------------- extents
    def alloc(s, i, node):
        """(elements, node) a pointer value was allocated with; None when unknown"""
        f = s.f; x = f.nodes[f.strip(i)]
        if x["k"] == "CXXNewExpr" and x.get("arr"):
            return s.count(x["sz"], node)
        if x["k"] in CALLS and x.get("n") in ("malloc", "calloc"):
            A = f.args(x)
            # the element size comes from the pointer it is cast to
            p = f.parent.get(f.strip(i)); sz = None
            while p is not None and f.nodes[p]["k"] in CASTS:
                m = re.match(r"^(.*) \*$", f.nodes[p]["ct"]); sz = {"int": 4, "long": 8, "double": 8, "char": 1, "unsigned int": 4}.get(m.group(1)) if m else None
                if sz: break
                p = f.parent.get(p)
            v = s.count(A[0], node)
            if v is None or not sz: return None
            if x["n"] == "calloc": return v
            return {t: Fraction(c, sz) if c % sz else c // sz for t, c in v.items()}
        return None

    def count(s, i, node):
        """an element count; a division may round it down further"""
        f = s.f; v = s.lin(i, node)
        if v is not None: return v
        x = f.nodes[f.strip(i)]
        if x["k"] == "BinaryOperator" and x["op"] in ("/", ">>"):
            a = s.lin(x["c"][0], node); b = s.lin(x["c"][1], node)
            b = None if b is None else const(b)
            if a is None or not b or b < 0: return None
            if x["op"] == ">>": b = 2 ** b
            return {t: Fraction(c, b) for t, c in a.items()}
        return None

    def partial(s, i, node):
        """a list sized by an offset of its own offset array that is not the last one"""
        f = s.f; x = f.nodes[f.strip(i)]
        if x["k"] != "CXXNewExpr" or not x.get("arr"): return None
        j = f.strip(x["sz"]); y = f.nodes[j]
        if y["k"] != "ArraySubscriptExpr": return None
        b = s.array(y["c"][0])
        if not b: return None
        for q, (fl, bs) in ELEM.items():
            if fl == b[1]:
                k = s.lin(y["c"][1], node); w = s.size(bs, b[2], b[0], node)
                if k is not None and w is not None and const(add(k, w, -1)): return f.text(j)
        return None

    def extent(s, base, node, depth=0):
        """list of (elements, description) an array expression may hold at a node; [] unknown"""
        f = s.f; i = f.strip(base); x = f.nodes[i]
        if depth > 5: return []
        a = s.array(i)
        c = s.cell(i)
        if x["k"] == "DeclRefExpr" and ("[" in x["ct"] and "(*" not in x["ct"]): return []
        if c is None: return []
        r = s.reach(c, node)
        if not r: return []
        out = []
        for d in r:
            if d == 0:
                if a:
                    v = s.declared(a, node)
                    if v is not None: out.append((v, "declared"))
                    else: return []
                else: return []
                continue
            dc, rhs, strong, kind, n = s.defs[d]
            if kind == "decl": continue
            if kind != "=" or rhs is None:
                if a and kind == "call":
                    v = s.declared(a, node)
                    if v is None: return []
                    out.append((v, "declared")); continue
                return []
            y = f.nodes[f.strip(rhs)]
            if y["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (y.get("cv") is not None and int(y["cv"]) == 0): continue
            v = s.alloc(rhs, n)
            if v is not None: out.append((v, "allocated")); continue
            if y["k"] in ("DeclRefExpr", "MemberExpr", "ArraySubscriptExpr") and dc == c:
                e = s.extent(rhs, n, depth + 1)
                if not e: return []
                out += e; continue
            return []
        return out

    # -------------------------------------------------- upper bounds
    def guards(s, node):
        """conditions known to hold at a node: (condition node, holds?, branch block, dominating?)"""
        f = s.f
        if not hasattr(s, "_dom"):
            s._dom = dominators(f)
        b = s.pos[node][0]; out = []
        for a in s._dom.get(b, ()):
            ss = f.blocks[a]["s"]
            if len(ss) != 2 or a not in f.succ() or f.blocks[a].get("tk") == "SwitchStmt": continue
            c = ph.cond_of(f, a)
            if c is None: c = f.blocks[a].get("cond")
            if c is None: continue
            for k, y in enumerate(ss):
                o = ss[1 - k]
                if y < 0 or y == o: continue
                # the edge a->y dominates b: y dominates b and y's only way in is a (or loops back from inside)
                if y in s._dom[b] and all(p == a or y in s._dom.get(p, ()) for p in f.pred()[y]) and y != a:
                    out.append((c, k == 0, a))
        return out

    def unchanged(s, cells, a, node):
        """cells hold the same values at the branch ending block a and at node"""
        f = s.f
        last = [e for e in f.elems(a) if isinstance(e, int)]
        for c in cells:
            # value at end of a
            IN = s.reach(c, node)
            end = s.end(c, a)
            if IN is None or end is None or not IN <= end: return False
            # and no definition in between: the definitions reaching node must come through a
            if not s.noredef(c, a, node): return False
        return True

    def end(s, cell, b):
        if cell not in s._in: s.reach(cell, next(iter(s.pos)))
        IN, gen = s._in[cell]
        cur = set(IN.get(b, ()))
        for k, d, m in gen.get(b, ()): cur = {d} if m == 2 else cur | {d}
        return frozenset(cur)

    def noredef(s, cell, a, node):
        """no path from the end of block a to node passes a definition of the cell without passing a again"""
        f = s.f; IN, gen = s._in[cell]
        b, p = s.pos[node]
        if any(k < p for k, d, m in gen.get(b, ())): return False
        # blocks on paths a -> b avoiding a
        fw = set(); st = list(f.succ()[a])
        while st:
            y = st.pop()
            if y in fw or y == a: continue
            fw.add(y)
            if y != b: st += f.succ()[y]
        bw = set(); st = [q for q in f.pred()[b] if q != a] if b != a else []
        while st:
            y = st.pop()
            if y in bw or y == a or y not in fw: continue
            bw.add(y); st += f.pred()[y]
        for y in (fw & bw):
            if y == b: continue
            if gen.get(y): return False
        if b in bw and gen.get(b): return False
        return True

    def conj(s, c, pos):
        """atomic conditions implied"""
        f = s.f; x = f.nodes[f.strip(c)]
        if x["k"] == "UnaryOperator" and x["op"] == "!": return s.conj(x["c"][0], not pos)
        if x["k"] == "BinaryOperator" and x["op"] == ("&&" if pos else "||"): return s.conj(x["c"][0], pos) + s.conj(x["c"][1], pos)
        return [(f.strip(c), pos)]

    def ub(s, i, node, depth=0):
        """upper bounds of an expression: list of (linear form, how); the first is the best known"""
        f = s.f
        x0 = f.nodes[i]
        if x0.get("cv") is not None: return [(num(int(x0["cv"])), "exact")]
        i = f.strip(i); x = f.nodes[i]; k = x["k"]
        if x.get("cv") is not None: return [(num(int(x["cv"])), "exact")]
        if depth > 8: return []
        out = []
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            out += s.bound_var(x["d"], i if i in s.pos else node, node, depth)
            if out: return out
            r = s.reach(x["d"], node)
            if r and len(r) == 1:
                d = s.defs.get(next(iter(r)))
                if d and d[3] == "=" and d[1] is not None:
                    return s.ub(d[1], d[4], depth + 1)
                if d and d[3] in ("+=", "-=") and d[1] is not None:
                    # what it was before, moved
                    b = s.lin(d[1], d[4])
                    if b is None: return []
                    before = s.bound_var(x["d"], d[4], d[4], depth + 1)
                    if not before:
                        r0 = s.reach(x["d"], d[4])
                        d0 = s.defs.get(next(iter(r0))) if r0 and len(r0) == 1 else None
                        before = s.ub(d0[1], d0[4], depth + 1) if d0 and d0[3] == "=" and d0[1] is not None else []
                    return [(add(v, b, 1 if d[3] == "+=" else -1), h) for v, h in before]
            return []
        h = s.handle(x, node)
        if h: return h
        if k == "BinaryOperator" and x["op"] == "%":
            v = s.lin(x["c"][1], node)
            return [(add(v, num(-1)), "bound")] if v is not None else []
        if k == "BinaryOperator" and x["op"] in ("+", "-"):
            b = s.lin(x["c"][1], node)
            if b is not None and not any(isinstance(t, tuple) and t[0] in ("def", "phi") for t in b):
                return [(add(v, b, 1 if x["op"] == "+" else -1), h) for v, h in s.ub(x["c"][0], node, depth + 1)]
            if x["op"] == "+":
                a = s.ub(x["c"][0], node, depth + 1); b = s.ub(x["c"][1], node, depth + 1)
                if a and b: return [(add(a[0][0], b[0][0]), "bound" if "attained" not in (a[0][1], b[0][1]) or a[0][1] != b[0][1] and "exact" not in (a[0][1], b[0][1]) else "attained")]
            return []
        if k == "BinaryOperator" and x["op"] == "*":
            b = const(s.lin(x["c"][1], node) or {}) if s.lin(x["c"][1], node) is not None else None
            a = x["c"][0]
            if b is None and s.lin(x["c"][0], node) is not None and const(s.lin(x["c"][0], node)) is not None: b = const(s.lin(x["c"][0], node)); a = x["c"][1]
            if b is not None and b > 0: return [(scale(v, b), h) for v, h in s.ub(a, node, depth + 1)]
            return []
        if k == "UnaryOperator" and x["op"] in ("++", "--"):
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "DeclRefExpr" and x["op"] == "++":
                v = s.bound_var(y["d"], i, i, depth)
                pre = not x.get("post", True)
                return [(add(w, num(1)), h) for w, h in v] if not x.get("post") else v
            return []
        v = s.lin(i, node)
        return [(v, "exact")] if v is not None else []

    def handle(s, x, node):
        """the number of a vertex a caller passes, or of a vertex an iteration visits"""
        f = s.f; a = None
        if x["k"] in CALLS and x.get("n") == "fromPtr": a = f.args(x)[0]
        elif x["k"] == "BinaryOperator" and x["op"] == "-" and const0(s.lin(x["c"][1], node)) == 1: a = x["c"][0]
        if a is not None:
            y = f.nodes[f.strip(a)]
            if y["k"] == "DeclRefExpr" and re.sub(r"^const ", "", y["ct"]).startswith("agi::GraphVertex") and any(p["d"] == y["d"] for p in f.params) and s.reach(y["d"], node) == frozenset({0}):
                v = s.size("NLV", None, "this", node) if f.cls == "agi::Ngraph" else None
                return [(add(v, num(-1)), "attained")] if v else []
            return []
        if x["k"] in CALLS and x.get("n") == "localID" and f.args(x):
            y = f.nodes[f.strip(f.args(x)[0])]
            if y["k"] != "DeclRefExpr" or not y["d"].startswith("%"): return []
            o = s.objkey(f.obj(x)) if x.get("meth") else None
            b = s.pos[node][0] if node in s.pos else None
            if o is None or b is None: return []
            for h, body in sorted(loops(f).items(), key=lambda z: len(z[1])):
                if b not in body: continue
                c = f.blocks[h].get("cond")
                z = f.nodes[f.strip(c)] if c is not None else None
                while z is not None and z["k"] == "BinaryOperator" and z["op"] in ("!=",): z = f.nodes[f.strip(z["c"][0])]
                if z is None or z["k"] != "BinaryOperator" or z["op"] != "=" or f.nodes[f.strip(z["c"][0])].get("d") != y["d"]: continue
                it = f.nodes[f.strip(z["c"][1])]
                if it["k"] not in CALLS or it.get("n") != "iterate": continue
                i = f.nodes[f.strip(f.args(it)[0])] if f.args(it) else None
                ds = s.reach_into(i["d"], h, body) if i is not None and i["k"] == "DeclRefExpr" else ()
                if len(ds) != 1 or 0 in ds: return []
                dd = s.defs[next(iter(ds))]
                q = f.nodes[f.strip(dd[1])] if dd[3] == "=" and dd[1] is not None else None
                if q is None or q["k"] not in CALLS or not s.unchanged([y["d"]], h, node): return []
                v = s.size("NLV", None, o, node); w = s.size("NGV", None, o, node)
                if v is None or w is None: return []
                if q.get("n") == "beginGhosts": return [(add(add(v, w), num(-1)), "attained")]
                if q.get("n") == "begin" and not f.args(q): return [(add(v, num(-1)), "attained")]
                return []
        return []

    def bound_var(s, d, use, node, depth):
        """bounds of a local at a node from the conditions that hold there"""
        f = s.f; out = []
        if s.reach(d, node) is None: return []
        for c, pos, a in s.guards(node):
            for q, ps in s.conj(c, pos):
                x = f.nodes[q]
                if x["k"] != "BinaryOperator": continue
                op = x["op"]; l, r = x["c"]
                if op not in ("<", "<=", ">", ">=", "!=", "=="): continue
                ly, ry = f.nodes[f.strip(l)], f.nodes[f.strip(r)]
                if ry["k"] == "DeclRefExpr" and ry["d"] == d and not (ly["k"] == "DeclRefExpr" and ly["d"] == d):
                    l, r = r, l; ly = ry; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                if not (ly["k"] == "DeclRefExpr" and ly["d"] == d): continue
                if not ps: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                if op not in ("<", "<=", "!=", "=="): continue
                if not s.unchanged([d], a, node): continue
                lin = s.lin(r, s.lastnode(a, r))
                if lin is None:
                    # the bound itself is bounded
                    u = s.ub(r, s.lastnode(a, r), depth + 1)
                    lin = u[0][0] if u else None
                    if lin is None: continue
                how = "attained" if s.counts(d, a) else "guard" if s.steady(d, node) else "bound"
                if op == "!=" and not (how == "attained"): continue
                out.append((lin if op in ("<=", "==") else add(lin, num(-1)), how))
        if out: return out
        # a counter stepping along with an iterator
        return s.counter(d, node)

    def lb(s, i, node, depth=0):
        """the least value an expression surely takes, when it is a constant; None otherwise"""
        f = s.f; x = f.nodes[f.strip(i)]
        if f.nodes[i].get("cv") is not None: return int(f.nodes[i]["cv"])
        if x.get("cv") is not None: return int(x["cv"])
        if depth > 6: return None
        k = x["k"]
        if k == "BinaryOperator" and x["op"] in ("+", "-"):
            b = const0(s.lin(x["c"][1], node)); a = s.lb(x["c"][0], node, depth + 1)
            if a is None or b is None: return None
            return a + b if x["op"] == "+" else a - b
        if k == "BinaryOperator" and x["op"] == "*":
            for p, q in ((0, 1), (1, 0)):
                b = const0(s.lin(x["c"][q], node)); a = s.lb(x["c"][p], node, depth + 1)
                if a is not None and b is not None and b > 0: return a * b
            return None
        if k == "DeclRefExpr" and x["d"].startswith("%"):
            d = x["d"]; r = s.reach(d, node)
            if r is None: return None
            low = s.floor(d, node)
            if low is not None and low < 0: return low
            if len(r) == 1:
                dd = s.defs.get(next(iter(r)))
                if dd and dd[3] == "=" and dd[1] is not None: return s.lb(dd[1], dd[4], depth + 1)
                return None
            b = s.pos[node][0]
            for h, body in sorted(loops(f).items(), key=lambda z: len(z[1])):
                if b not in body or b == h: continue
                ds = [z for z in s.defs.values() if z[0] == d and s.pos[z[4]][0] in body]
                if not ds: continue
                if len(ds) != 1: return None
                pre = s.reach_into(d, h, body)
                if ds[0][3] == "++" or (ds[0][3] == "+=" and (const0(s.lin(ds[0][1], ds[0][4])) or 0) > 0):
                    # counting up: the first round
                    if len(pre) != 1 or 0 in pre: return None
                    dd = s.defs[next(iter(pre))]
                    if dd[3] != "=" or dd[1] is None: return None
                    after = s.pos[ds[0][4]]
                    if after[0] in s.dom().get(b, ()) and (after[0] != b or after[1] < s.pos[node][1]): return None
                    return const0(s.lin(dd[1], dd[4]))
                if ds[0][3] == "--":
                    # counting down: the last round
                    for c, pos, a in s.guards(node):
                        if a != h: continue
                        for q, ps in s.conj(c, pos):
                            y = f.nodes[q]
                            if y["k"] != "BinaryOperator" or y["op"] not in (">", ">=", "<", "<="): continue
                            l, rr = y["c"]; op = y["op"]
                            if f.nodes[f.strip(rr)]["k"] == "DeclRefExpr" and f.nodes[f.strip(rr)]["d"] == d: l, rr = rr, l; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
                            if f.nodes[f.strip(l)].get("d") != d or not ps or op not in (">", ">="): continue
                            z = const0(s.lin(rr, s.lastnode(a, rr)))
                            if z is None or not s.unchanged([d], a, node): continue
                            if any(y2 not in body and q2 != h for q2 in body for y2 in f.succ()[q2]): return None
                            return z + 1 if op == ">" else z
                    return None
                return None
        return None

    def floor(s, d, node):
        """the least value the conditions on a variable let through, when all of them compare it with a constant from below"""
        f = s.f; best = None
        for c, pos, a in s.guards(node):
            for q, ps in s.conj(c, pos):
                y = f.nodes[q]
                if d not in s.namesof(q): continue
                if y["k"] != "BinaryOperator" or y["op"] not in (">", ">=", "<", "<=", "==", "!="): continue
                l, rr = y["c"]; op = y["op"]
                if f.nodes[f.strip(rr)]["k"] == "DeclRefExpr" and f.nodes[f.strip(rr)]["d"] == d: l, rr = rr, l; op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
                if f.nodes[f.strip(l)].get("d") != d:
                    if s.namesof(l) == {d}: return None
                    continue
                if not ps: op = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}[op]
                z = const0(s.lin(rr, s.lastnode(a, rr)))
                if z is None or not s.unchanged([d], a, node): 
                    if op in ("<", "<="): continue
                    return None
                if op == "!=" and z < 0: return None
                if op == "==": return None
                if op in (">", ">="):
                    z = z + 1 if op == ">" else z
                    best = z if best is None else max(best, z)
        return best

    def lastnode(s, a, r):
        l = [e for e in s.f.elems(a) if isinstance(e, int)]
        r0 = s.f.strip(r)
        if r0 in s.pos: return r0
        return l[-1] if l else None

    def steady(s, d, node):
        """the variable takes one value per call or round: it is not stepped"""
        r = s.reach(d, node)
        if r is None or len(r) != 1: return False
        if 0 in r: return True
        d = s.defs[next(iter(r))]
        return d[3] == "=" or d[3] in ("-=", "+=", "/=", "%=", "*=") and not any(s.pos[d[4]][0] in b for b in loops(s.f).values())

    def counts(s, d, h):
        """the loop with header h counts d upwards by ones from a constant, and is only left at the header"""
        f = s.f; LP = loops(f)
        if h not in LP: return False
        body = LP[h]; n = 0
        for dd in s.defs.values():
            if dd[0] != d: continue
            b = s.pos[dd[4]][0]
            if b in body:
                if dd[3] != "++" and not (dd[3] == "+=" and s.lin(dd[1], dd[4]) == num(1)): return False
                n += 1
            elif dd[3] == "=" and (dd[1] is None or const(s.lin(dd[1], dd[4]) if s.lin(dd[1], dd[4]) is not None else {("x",): 1}) is None): return False
        if n != 1: return False
        for b in body:
            for y in f.succ()[b]:
                if y not in body and b != h and f.reach_exit():
                    # left early
                    return False
        return True

    ITER = {"begin": None, "beginGhosts": None}

    def counter(s, d, node):
        """d counts the steps of an iteration over all owned vertices, ghosts or edges of a type"""
        f = s.f; LP = loops(f); b = s.pos[node][0]
        for h, body in sorted(LP.items(), key=lambda z: len(z[1])):
            if b not in body: continue
            steps = [dd for dd in s.defs.values() if dd[0] == d and s.pos[dd[4]][0] in body]
            if not steps: return []
            if len(steps) != 1 or steps[0][3] != "++": return []
            init = [dd for dd in s.defs.values() if dd[0] == d and s.pos[dd[4]][0] not in body and dd[3] != "decl"]
            # the initial value that reaches the loop
            pre = s.reach_into(d, h, body)
            if pre is None or len(pre) != 1 or 0 in pre: return []
            dd = s.defs[next(iter(pre))]
            if dd[3] != "=" or dd[1] is None: return []
            i0 = s.lin(dd[1], dd[4])
            if i0 is None or const(i0) is None: return []
            # the step happens at most once a round: not inside an inner loop
            sb = s.pos[steps[0][4]][0]
            inner = [q for q, bd in LP.items() if q != h and q in body and sb in bd]
            if inner: return []
            n = s.rounds(h)
            if n is None: return []
            # every round: the step dominates the way back
            every = all(sb in s.dom().get(p, ()) for p in f.pred()[h] if p in body)
            left = any(y not in body and q != h for q in body for y in f.succ()[q])
            # was it stepped before the use in this round
            after = sb in s.dom().get(b, ()) and (sb != b or s.pos[steps[0][4]][1] < s.pos[node][1])
            if not after and sb != b and b in s.between(sb, h, body): after = None
            m = add(add(n, i0), num(-1))
            if after is None: return [(add(m, num(1)), "bound")]
            return [(add(m, num(1)) if after else m, "attained" if every and not left else "bound")]
        return []

    def dom(s):
        if not hasattr(s, "_dom"): s._dom = dominators(s.f)
        return s._dom

    def between(s, a, h, body):
        seen = set(); st = [y for y in s.f.succ()[a] if y in body and y != h]
        while st:
            y = st.pop()
            if y in seen: continue
            seen.add(y); st += [z for z in s.f.succ()[y] if z in body and z != h]
        return seen

    def reach_into(s, d, h, body):
        f = s.f; out = set()
        for p in f.pred()[h]:
            if p in body: continue
            out |= s.end(d, p)
        return out

    def rounds(s, h):
        """how often an iteration `while ((x = g->iterate(it)))` or `it != c.end()` goes round"""
        f = s.f
        c = f.blocks[h].get("cond")
        if c is None: return None
        st = [c]; call = None
        while st:
            x = f.nodes[st.pop()]
            if x["k"] in CALLS and x.get("n") == "iterate" and x.get("meth"): call = x; break
            if x["k"] in CALLS and x.get("n") == "operator!=":
                # it != c.end()
                for a in x["c"][1:]:
                    y = f.nodes[f.strip(a)]
                    while y["k"] in ("CXXConstructExpr", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr", "ExprWithCleanups") and y["c"]: y = f.nodes[f.strip(y["c"][0])]
                    if y["k"] in CALLS and y.get("n") == "end" and y.get("meth"):
                        cc = s.cell(f.obj(y)); nd = next((e for e in f.elems(h) if isinstance(e, int)), None)
                        o = f.nodes[f.strip(f.obj(y))]
                        if nd is None: return None
                        if cc is not None: return {("sz", cc, s.ver(cc, nd)): 1}
                        return {("sz", rkey(f, f.obj(y)), "?"): 1}
            st += [z for z in x["c"] if z >= 0]
        if call is None: return None
        A = f.args(call)
        it = f.nodes[f.strip(A[0])]
        if it["k"] != "DeclRefExpr": return None
        o = s.objkey(f.obj(call))
        # the iterator's start
        body = loops(f)[h]
        ds = s.reach_into(it["d"], h, body)
        if len(ds) != 1 or 0 in ds: return None
        dd = s.defs[next(iter(ds))]
        if dd[3] != "=" or dd[1] is None: return None
        y = f.nodes[f.strip(dd[1])]
        if y["k"] not in CALLS: return None
        o2 = s.objkey(f.obj(y)) if y.get("meth") else None
        nd = call["i"]; n = y.get("n"); B = [a for a in f.args(y)]
        if n == "begin" and not B: return s.size("NLV", None, o2, nd)
        if n == "beginGhosts": return s.size("NGV", None, o2, nd)
        if n == "begin" and len(B) == 1: return s.size("NLE", rkey(f, B[0]), o2, nd)
        if n in ("edges", "pins"): return {("deg", ",".join(rkey(f, a) for a in B if f.nodes[a]["k"] != "CXXDefaultArgExpr"), s.version(B, nd)): 1}
        return None


class All:
    def __init__(s, P):
        s.P = P; s._m = {}; s._e = {}
        s.direct = {}
        for f in P.funcs.values():
            m = set()
            for x in f.nodes:
                if not x: continue
                if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="): t = x["c"][0]
                elif x["k"] == "UnaryOperator" and x["op"] in ("++", "--"): t = x["c"][0]
                else: continue
                y = f.nodes[f.strip(t)]
                if y["k"] == "ArraySubscriptExpr": y = f.nodes[f.strip(y["c"][0])]
                if y["k"] == "MemberExpr" and y.get("dk") == "Field" and (y["n"] in BASE or y["n"] in TYPED or y["n"] in DECL): 
                    # an element of a plain array is not the array
                    z = f.nodes[f.strip(t)]
                    if z["k"] == "ArraySubscriptExpr" and y["n"] in DECL and "[" not in y["ct"]: continue
                    m.add(y["n"])
            s.direct[f.id] = m
        s.trans = {k: set(v) for k, v in s.direct.items()}
        ch = True; cg = {}
        for f in P.funcs.values():
            cg[f.id] = {t.id for x in f.calls() for t in P.targets(f, x)}
        while ch:
            ch = False
            for k in s.trans:
                for t in cg[k]:
                    if t in s.trans and not s.trans[t] <= s.trans[k]: s.trans[k] |= s.trans[t]; ch = True

    def mods(s, fid): return s.trans.get(fid, set())
    def ext(s, f):
        if f.id not in s._e: s._e[f.id] = Ext(s, f)
        return s._e[f.id]
