"""Objects handed over to fields and containers: each field and container that is given a freshly
obtained object gives it up again exactly once."""
from agx import *
import own as ow
import phase as ph

INSERT = {"push_back", "insert", "emplace", "emplace_back", "push_front", "push"}


class Hold:
    def __init__(s, P, o):
        s.P = P; s.o = o; s.viol = {}; s.fields = {}; s.conts = set(); s.checked = defaultdict(int)
        s.callers = defaultdict(list)
        for f in P.funcs.values():
            for x in f.calls():
                for t in P.targets(f, x): s.callers[t.id].append((f, x))
        s.pk = defaultdict(set)            # (function, parameter) -> places in the function that keep it
        for fid, at, v, arg in o.kept:
            if v[0] == "p": s.pk[(fid, v[1])].add((at, arg))
        s.freshat = set()                  # assignments that put a fresh object into a field
        s.find()

    def bad(s, f, i, rule, msg, site=None):
        s.viol.setdefault("%s|%s|%s" % (f.qn, rule, site or (f.text(i) if i is not None else "")), (f.where(i), msg))

    # ---- who is given what
    def find(s):
        for fid, at, v, arg in sorted(s.o.kept, key=str):
            if v[0] != "a" or (fid, v[1]) in s.o.back: continue
            s.place(fid, at, arg, v[2], (s.P.funcs[fid], v[1]), set())

    def place(s, fid, at, arg, kind, src, seen):
        if (fid, at, arg) in seen: return
        seen.add((fid, at, arg))
        f = s.P.funcs[fid]
        if isinstance(at, str):            # constructor initialiser
            s.field(at, False, kind, src, f, None); return
        x = f.nodes[at]
        if arg is not None:
            for at2, arg2 in s.pk[arg]: s.place(arg[0], at2, arg2, kind, src, seen)
            return
        if x["k"] == "BinaryOperator" and x["op"] == "=":
            l = f.nodes[f.strip(x["c"][0])]
            if l["k"] == "MemberExpr" and l["dk"] == "Field": s.field(l["d"], False, kind, src, f, at)
            elif l["k"] == "ArraySubscriptExpr":
                b = f.nodes[f.strip(l["c"][0])]
                if b["k"] == "MemberExpr" and b["dk"] == "Field": s.field(b["d"], True, kind, src, f, at)
                elif b["k"] == "DeclRefExpr" and b["d"].startswith("%"): s.conts.add((f.id, at, b["d"], kind))
            elif l["k"] in CALLS and l.get("n") in ("operator[]", "at"):
                s.cont(f, at, f.obj(l), kind)
            elif l["k"] == "UnaryOperator" and l["op"] == "*": pass
        elif x["k"] in CALLS:
            if x.get("n") in INSERT and f.obj(x) is not None: s.cont(f, at, f.obj(x), kind)
            else:                          # wrapped (make_pair) and then put in
                j = at
                while j in f.parent:
                    j = f.parent[j]; y = f.nodes[j]
                    if y["k"] in CALLS and y.get("n") in INSERT and f.obj(y) is not None: s.cont(f, j, f.obj(y), kind); break
        elif x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            j = at
            while j in f.parent:
                j = f.parent[j]; y = f.nodes[j]
                if y["k"] in CALLS and y.get("n") in INSERT and f.obj(y) is not None: s.cont(f, j, f.obj(y), kind); break

    def cont(s, f, at, o, kind):
        x = f.nodes[f.strip(o)]
        while x["k"] == "UnaryOperator" and x["op"] == "*": x = f.nodes[f.strip(x["c"][0])]
        if x["k"] == "DeclRefExpr" and x["d"].startswith("%"): s.conts.add((f.id, at, x["d"], kind))
        elif x["k"] == "MemberExpr" and x["dk"] == "Field": s.field(x["d"], True, kind, None, f, at)

    def field(s, d, indexed, kind, src, f, at):
        e = s.fields.setdefault(d, {"idx": indexed, "kinds": set(), "src": []})
        e["kinds"].add(kind)
        if src: e["src"].append(src)
        if at is not None: s.freshat.add((f.id, at))


    # ---- fields: one machine per field, over the functions that see it through `this` or a local pointer
    #   N null   M held from before, or null   H held from before   O fresh here   S somebody else may hold it too   F released, still pointed at   D nothing is owed
    def isf(s, f, i, d, base):
        """is node i the field d of the base object (index dropped)?  returns (True, index key) or None"""
        x = f.nodes[f.strip(i)]; ix = None
        if x["k"] == "ArraySubscriptExpr" and s.fields[d]["idx"]:
            ix = f.key(x["c"][1]); x = f.nodes[f.strip(x["c"][0])]
        if x["k"] != "MemberExpr" or x["d"] != d or not x["c"]: return None
        if s.fields[d]["idx"] and ix is None: return None
        b = f.nodes[f.strip(x["c"][0])]
        bk = "this" if b["k"] == "CXXThisExpr" else b.get("d") if b["k"] == "DeclRefExpr" else None
        if bk is None or bk != base: return None
        return (True, ix)

    def released(s, t, n):
        """how callee t leaves its parameter n: subset of {'freed', 'esc', 'own'}"""
        return {par[n][0][0] for par, rv in s.o.summary(t.id) if n < len(par)} - {"isnull"}

    def nulltest(s, f, c, d, base):
        """(sense) True when the condition being true means the field is not null"""
        c = f.strip(c); x = f.nodes[c]
        if x["k"] == "UnaryOperator" and x["op"] == "!":
            t = s.nulltest(f, x["c"][0], d, base); return None if t is None else not t
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
            for a, b in ((0, 1), (1, 0)):
                if s.isnull(f, x["c"][b]) and s.isf(f, x["c"][a], d, base): return x["op"] == "!="
            return None
        if s.isf(f, c, d, base): return True
        return None

    def isnull(s, f, i):
        x = f.nodes[f.strip(i)]
        return x["k"] in ("CXXNullPtrLiteralExpr", "GNUNullExpr") or (x["k"] == "IntegerLiteral" and x.get("cv") == 0)

    def machine(s, d):
        m = Mach(s, d); m.main(); return m

    def main(s):
        s.nst = 0
        for d in sorted(s.fields):
            m = s.machine(d); s.nst += m.nst
        for fid, at, v, kind in sorted(s.conts):
            s.checked["places that put an object into a container"] += 1
            s.owe(s.P.funcs[fid], v, at, (s.P.funcs[fid], at), kind, set())

    # ---- containers: from the place an object is put in, every path to the end of the container releases each element
    def rootvar(s, f, i):
        x = f.nodes[f.strip(i)]
        while x["k"] == "UnaryOperator" and x["op"] in ("*", "&"): x = f.nodes[f.strip(x["c"][0])]
        return x["d"] if x["k"] == "DeclRefExpr" and x["d"].startswith("%") else None

    def elem(s, f, i, v):
        """is expression i an element of container v?  ('it', iterator) / ('ix', index node)"""
        x = f.nodes[f.strip(i)]
        if x["k"] == "ArraySubscriptExpr" and s.rootvar(f, x["c"][0]) == v: return ("ix", x["c"][1])
        if x["k"] in CALLS and x.get("n") in ("operator[]", "at") and s.rootvar(f, f.obj(x)) == v: return ("ix", f.args(x)[0])
        # through an iterator of v, a reference or a copy taken from it
        seen = 0
        while seen < 8:
            seen += 1
            if x["k"] == "MemberExpr" and x["c"]: x = f.nodes[f.strip(x["c"][0])]; continue
            if x["k"] in CALLS and x.get("n") in ("operator*", "operator->"):
                o = f.obj(x); x = f.nodes[f.strip(o if o is not None else f.args(x)[0])]; continue
            if x["k"] == "UnaryOperator" and x["op"] == "*": x = f.nodes[f.strip(x["c"][0])]; continue
            if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
                if s.itof(f, x["d"]) == v: return ("it", x["d"])
                d = init_of(f, x["d"])
                if d is None: return None
                x = f.nodes[f.strip(d)]; continue
            if x["k"] in ("CXXConstructExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len(x["c"]) == 1: x = f.nodes[f.strip(x["c"][0])]; continue
            return None
        return None

    def peel(s, f, i):
        x = f.nodes[f.strip(i)]
        while x["k"] in ("CXXConstructExpr", "ExprWithCleanups", "MaterializeTemporaryExpr", "CXXBindTemporaryExpr") and len(x["c"]) == 1:
            x = f.nodes[f.strip(x["c"][0])]
        return x

    def contof(s, f, i):
        """container a begin()/end() call is made on (range-for copies followed)"""
        v = s.rootvar(f, i)
        for _ in range(4):
            if v is None: return None
            if "__range" in v:
                d = init_of(f, v)
                v = s.rootvar(f, d) if d is not None else None
            else: return v

    def itof(s, f, it):
        u = [a for a in var_uses(f).get(it, []) if a[0] == "def" and a[1] is not None]
        for a in u:
            x = s.peel(f, a[1])
            if x["k"] in CALLS and x.get("n") in ("begin", "cbegin"): return s.contof(f, f.obj(x)) if f.obj(x) is not None else None
        # assignment by operator=
        for x in f.calls():
            if x.get("n") == "operator=" and f.obj(x) is not None and s.rootvar(f, f.obj(x)) == it:
                y = s.peel(f, f.args(x)[0])
                if y["k"] in CALLS and y.get("n") in ("begin", "cbegin"): return s.contof(f, f.obj(y)) if f.obj(y) is not None else None
        return None

    def relloops(s, f, v, kind):
        """headers of loops that release every element of v; (header, bound key or None)"""
        out = {}
        for x in f.reach_nodes():
            a = None
            if x["k"] == "CXXDeleteExpr": a = x["c"][0]
            elif x["k"] in CALLS and x.get("qn") in ow.FREE:
                aa = f.args(x); k, n = ow.FREE[x["qn"]]
                a = aa[n] if n < len(aa) else None
            elif x["k"] in CALLS:
                for t in s.P.targets(f, x):
                    for n, y in enumerate(f.args(x)):
                        if n < len(t.params) and ow.is_ptr(t.params[n]["ct"]) and "freed" in s.released(t, n): a = y
            if a is None: continue
            e = s.elem(f, a, v)
            if e is None: continue
            b = block_of(f).get(x["i"])
            h = inner_loop(f, b) if b is not None else None
            if h is None: continue
            body = loops(f)[h]
            if any(y not in body for bb in body if bb != h for y in f.succ()[bb]): continue
            if not s.eachtime(f, h, body, b, a): continue
            if e[0] == "it":
                c = ph.cond_of(f, h)
                if c is None: continue
                y = s.peel(f, c)
                names = [f.nodes[j].get("n") for j in s.sub(f, c) if f.nodes[j]["k"] in CALLS]
                if y.get("n") not in ("operator!=",) and y.get("op") != "!=" and not (y.get("op") == "!" ): continue
                if "end" not in names and "cend" not in names and not any("__end" in f.nodes[j].get("d", "") for j in s.sub(f, c)): continue
                out[h] = None
            else:
                r = s.range0(f, h, e[1])
                if r is not None: out[h] = r
        return out

    def sub(s, f, i):
        st = [i]; out = []
        while st:
            j = st.pop(); out.append(j); st += [c for c in f.nodes[j]["c"] if c >= 0]
        return out

    def range0(s, f, h, ix):
        """the loop counts the index up from 0: the key of its bound"""
        c = ph.cond_of(f, h)
        if c is None: return None
        x = f.nodes[f.strip(c)]
        v = f.nodes[f.strip(ix)]
        if x["k"] != "BinaryOperator" or x["op"] not in ("<", "!=") or v["k"] != "DeclRefExpr": return None
        l = f.nodes[f.strip(x["c"][0])]
        if l["k"] != "DeclRefExpr" or l["d"] != v["d"]: return None
        u = [a for a in var_uses(f).get(v["d"], []) if a[0] in ("def", "mod")]
        st = [a for a in u if a[0] == "def"]; up = [a for a in u if a[0] == "mod"]
        if len(up) != 1 or f.nodes[up[0][2]].get("op") != "++" or not st: return None
        if any(a[1] is None or f.nodes[f.strip(a[1])].get("cv") != 0 for a in st): return None
        return rkey(f, x["c"][1])

    def eachtime(s, f, h, body, b, a):
        """block b is passed in every turn of the loop, unless the element itself was found null"""
        k = f.key(a)
        wl = [y for y in f.succ()[h] if y in body]; seen = set()
        while wl:
            q = wl.pop()
            if q == b or q in seen: continue
            seen.add(q)
            if q == h: return False
            c = ph.cond_of(f, q)
            for n, y in enumerate(f.succ()[q]):
                if c is not None:
                    t = s.nt(f, c, k)
                    if t is not None and (n == 0) != t: continue
                wl.append(y)
        return True

    def nt(s, f, c, k):
        c = f.strip(c); x = f.nodes[c]
        if x["k"] == "UnaryOperator" and x["op"] == "!":
            t = s.nt(f, x["c"][0], k); return None if t is None else not t
        if x["k"] == "BinaryOperator" and x["op"] in ("==", "!="):
            for a, b in ((0, 1), (1, 0)):
                if s.isnull(f, x["c"][b]) and f.key(x["c"][a]) == k: return x["op"] == "!="
            return None
        return True if f.key(c) == k else None

    def owe(s, f, v, at, src, kind, seen, start=None):
        if (f.id, v, at) in seen: return
        seen.add((f.id, v, at))
        isp = [n for n, p in enumerate(f.params) if p["d"] == v]
        rl = s.relloops(f, v, kind)
        bd = None
        b0 = block_of(f).get(at)
        if b0 is None: return
        h0 = inner_loop(f, b0)
        if h0 is not None and src[0] is f and src[1] == at:
            x = f.nodes[at]
            if x["k"] == "BinaryOperator":
                l = f.nodes[f.strip(x["c"][0])]
                if l["k"] == "ArraySubscriptExpr": bd = s.range0(f, h0, l["c"][1])
        rl = {h for h, k in rl.items() if k is None or bd is None or k == bd}
        ok, ret = s.walk(f, v, b0, at, rl)
        for w in ret: 
            for g, x in s.callers.get(f.id, []):
                p = g.parent.get(x["i"])
                while p is not None and g.nodes[p]["k"] in CASTS: p = g.parent.get(p)
                y = g.nodes[p] if p is not None else None
                if y is None: continue
                if y["k"] == "DeclStmt":
                    for d in y["decls"]:
                        if d["init"] >= 0 and g.strip(d["init"]) == x["i"]: s.owe(g, d["d"], y["i"], src, kind, seen)
                elif y["k"] == "BinaryOperator" and y["op"] == "=":
                    q = s.rootvar(g, y["c"][0])
                    if q: s.owe(g, q, y["i"], src, kind, seen)
        if ok: return
        if isp and s.callers.get(f.id):
            for g, x in s.callers[f.id]:
                a = g.args(x)
                if isp[0] < len(a):
                    q = s.rootvar(g, a[isp[0]])
                    if q: s.owe(g, q, x["i"], src, kind, seen)
            return
        if isp: return
        s.bad(src[0], src[1], "element not released", "the object put into the container here is not released on some path of %s to the end of the container" % f.qn,
              src[0].text(src[1]) + f.qn)

    def relcall(s, f, x, v):
        """the call releases every element of v on all its paths"""
        for t in s.P.targets(f, x):
            for n, a in enumerate(f.args(x)):
                if n < len(t.params) and s.rootvar(f, a) == v and s.relparam(t, n): return True
        return False

    def relparam(s, t, n):
        k = (t.id, n)
        m = s.__dict__.setdefault("_rp", {})
        if k not in m:
            m[k] = False
            pv = t.params[n]["d"]
            rl = set(s.relloops(t, pv, None))
            ok, ret = s.walk(t, pv, t.entry, None, rl)
            m[k] = ok and not ret
        return m[k]

    def walk(s, f, v, b0, at, rl):
        """(no path reaches the end without the release, returns of the container on the way)"""
        seen = set(); wl = [(b0, at)]; ret = []; ok = True
        while wl:
            b, fr = wl.pop()
            if b in rl and fr is None: continue
            stop = False; go = fr is None
            for e in f.elems(b):
                if not isinstance(e, int): continue
                if not go:
                    go = e == fr; continue
                x = f.nodes[e]
                if x["k"] in CALLS and s.relcall(f, x, v): stop = True; break
                if x["k"] == "ReturnStmt" and x["c"] and x["c"][0] >= 0 and s.rootvar(f, x["c"][0]) == v:
                    ret.append(e); stop = True; break
                if x["k"] == "CXXThrowExpr": stop = True; break
            if stop: continue
            if b == f.exit: ok = False; continue
            c = ph.cond_of(f, b)
            for n, y in enumerate(f.succ()[b]):
                if c is not None:
                    t = s.nt(f, c, v)
                    if t is not None and (n == 0) != t: continue
                if y not in seen: seen.add(y); wl.append((y, None))
        return ok, ret


class Mach:
    def __init__(s, h, d):
        s.h = h; s.P = h.P; s.d = d; s.e = h.fields[d]; s.idx = s.e["idx"]; s.cls = d.rsplit("::", 1)[0]; s.name = d.split("::")[-1]
        s.memo = {}; s.act = set(); s.nst = 0
        fam = {s.cls}
        ch = True
        while ch:
            ch = False
            for c in list(fam):
                for y in s.P.derived.get(c, ()):
                    if y not in fam: fam.add(y); ch = True
        s.fam = fam
        s.forms = {ow.FORM[k] for k in s.e["kinds"]}
        s.dt = [f for f in s.P.funcs.values() if f.dtor and f.cls in fam]
        s.ext = []                          # releases through a member access outside the class's own methods
        s.sees = set()
        for f in s.P.funcs.values():
            for x in f.nodes:
                if x and x["k"] == "MemberExpr" and x.get("d") == d: s.sees.add(f.id); break
        # functions that reach the field through calls on the same object
        ch = True; s.reach = set(s.sees)
        while ch:
            ch = False
            for f in s.P.funcs.values():
                if f.id in s.reach or f.cls not in fam: continue
                for x in f.calls():
                    if any(t.id in s.reach for t in s.P.targets(f, x)): s.reach.add(f.id); ch = True; break

    def note(s, f, i, rule, msg): s.h.bad(f, i, rule, msg, s.name + (":" + f.text(i) if i is not None else ""))

    def releases(s):
        """sites that release the field, through any object"""
        out = []
        for f in s.P.funcs.values():
            for x in f.reach_nodes():
                k = s.relnode(f, x, None)
                if k: out.append((f, x["i"], k))
        return out

    def isany(s, f, i):
        x = f.nodes[f.strip(i)]
        if s.idx != (x["k"] == "ArraySubscriptExpr"): return False
        if s.idx: x = f.nodes[f.strip(x["c"][0])]
        return x["k"] == "MemberExpr" and x.get("d") == s.d

    def relnode(s, f, x, base):
        if x["k"] == "CXXDeleteExpr":
            a = x["c"][0]; form = "delete[]" if x["arr"] else "delete"
            if s.isany(f, a) if base is None else s.h.isf(f, a, s.d, base): return (form, a)
        elif x["k"] in CALLS:
            args = f.args(x)
            if x.get("qn") in ow.FREE:
                k, n = ow.FREE[x["qn"]]
                if n < len(args) and (s.isany(f, args[n]) if base is None else s.h.isf(f, args[n], s.d, base)): return (ow.FORM[k], args[n])
            if x.get("qn") == "realloc" and (s.isany(f, args[0]) if base is None else s.h.isf(f, args[0], s.d, base)): return ("free", args[0])
            for t in s.P.targets(f, x):
                for n, a in enumerate(args):
                    if n < len(t.params) and (s.isany(f, a) if base is None else s.h.isf(f, a, s.d, base)) and "freed" in s.h.released(t, n):
                        return (None, a)
        return None

    def main(s):
        P = s.P
        rel = s.releases()
        if not rel:
            f, i = s.e["src"][0] if s.e["src"] else (None, None)
            if f is not None: s.h.bad(f, i, "field never released", "what is kept in %s is released nowhere" % s.d, s.name)
            return
        for f, i, (form, a) in rel:
            s.h.checked["release sites of fields"] += 1
            if form is not None and form not in s.forms:
                s.note(f, i, "wrong release of a field", "%s holds what was obtained by %s and is released by %s" % (s.d, "/".join(sorted(s.e["kinds"])), form))
        rec = P.recs.get(s.cls)
        cxx = any(f.cls in s.fam for f in P.funcs.values() if f.cls)
        if not cxx: s.mode = "C"; return
        # does the destructor give it up?
        s.mode = None
        good = [f for f in s.dt if s.giveup(f)]
        relin = [f for f in s.dt if s.reaches(f, {g.id for g, i, k in rel})]
        if good: s.mode = "dtor"
        elif relin:
            s.mode = "dtor"
            f = relin[0]
            s.note(f, None, "field not released", "the destructor of %s releases %s only on some paths (or only some of its elements)" % (f.cls, s.name))
        elif any(f.cls in s.fam for f, i, k in rel): s.mode = "self"
        else: s.mode = "ext"
        s.h.checked["fields"] += 1
        if s.mode == "ext":
            # released from outside: a function that releases it, and leaves the object that holds it, leaves nothing released in it
            if s.idx: return
            fs = {g.id: g for g, i, k in rel}
            for g in P.funcs.values():
                # uses what is in the field, and (through the object's own functions) puts something else there
                if g.id in fs or not s.locals(g): continue
                if any(t.id in s.sees and t.cls in s.fam and not t.ctor and any(y["k"] == "BinaryOperator" and y["op"] == "=" and s.h.isf(t, y["c"][0], s.d, "this") for y in t.reach_nodes()) for x in g.calls() for t in P.targets(g, x)): fs[g.id] = g
            for f in sorted(fs.values(), key=lambda g: g.id):
                for v in s.locals(f):
                    if not any(q["d"] == v for q in f.params): continue
                    for st, w in s.run(f.id, v, "M"):
                        if st == "F": s.note(f, w, "left dangling", "%s is released and left pointing at it in an object that lives on" % s.d)
            return
        for f in sorted(P.funcs.values(), key=lambda f: f.id):
            if f.id not in s.reach: continue
            if f.cls in s.fam and not f.static:
                entry = None
                if f.dtor: continue
                if f.ctor: entry = "N"
                elif h_callers(s.h, f) and all(g.ctor and g.cls in s.fam for g, x in h_callers(s.h, f)): pass      # part of construction
                elif f.acc == "public": entry = "M" if s.mode == "dtor" else "D"
                elif not h_callers(s.h, f): entry = "D"          # only called from outside the model: nothing is known about its argument
                if entry:
                    for st, w in s.run(f.id, "this", entry): s.atexit(f, st, w)
            for v in s.locals(f):
                isp = any(p["d"] == v for p in f.params)
                if isp and h_callers(s.h, f): continue
                s.run(f.id, v, "M" if isp and s.mode == "dtor" else "D")

    def atexit(s, f, st, w):
        if st == "F" and s.mode == "dtor" and f.acc != "private" or (st == "F" and s.mode == "dtor" and not h_callers(s.h, f)):
            s.note(f, w, "left dangling", "%s is released and left pointing at it; the destructor releases it again" % s.d)
        if st == "O" and s.mode == "self":
            s.note(f, w, "field kept", "%s is given a fresh object which is not released before the function ends, and the destructor does not release it" % s.d)

    def locals(s, f):
        out = set()
        for x in f.nodes:
            if x and x["k"] == "MemberExpr" and x.get("d") == s.d and x["c"]:
                b = f.nodes[f.strip(x["c"][0])]
                if b["k"] == "DeclRefExpr" and b["d"].startswith("%"): out.add(b["d"])
        return out

    def reaches(s, f, goal, seen=None):
        seen = seen if seen is not None else set()
        if f.id in goal: return True
        if f.id in seen: return False
        seen.add(f.id)
        return any(s.reaches(t, goal, seen) for x in f.calls() for t in s.P.targets(f, x) if t.cls in s.fam)

    # ---- the destructor
    def giveup(s, f):
        if not s.idx:
            r = s.run(f.id, "this", "M", quiet=True)
            return bool(r) and all(st in ("N", "F", "S") for st, w in r)
        return s.looped(f, set())

    def looped(s, f, seen):
        """every path runs a loop over the whole array in which each element is released"""
        if f.id in seen: return False
        seen.add(f.id)
        pd = postdoms(f)
        always = pd.get(f.entry, set()) | {f.entry}
        for b in always:
            if b not in f.succ(): continue
            for e in f.elems(b):
                if isinstance(e, int) and f.nodes[e]["k"] in CALLS:
                    x = f.nodes[e]; o = f.obj(x)
                    if o is not None and f.nodes[f.strip(o)]["k"] == "CXXThisExpr":
                        ts = s.P.targets(f, x)
                        if ts and all(s.looped(t, seen) for t in ts): return True
        for hd, body in loops(f).items():
            if hd not in always: continue
            if s.whole(f, hd, body) and s.each(f, hd, body): return True
        return False

    def whole(s, f, hd, body):
        c = ph.cond_of(f, hd)
        if c is None: return False
        x = f.nodes[f.strip(c)]
        if x["k"] != "BinaryOperator" or x["op"] not in ("<", "!=", "<="): return False
        v = f.nodes[f.strip(x["c"][0])]; n = f.nodes[f.strip(x["c"][1])]
        if v["k"] != "DeclRefExpr": return False
        lim = n.get("cv", f.nodes[x["c"][1]].get("cv"))
        if lim is None:
            if x["op"] != "<" or not s.kept_below(n.get("d") if n["k"] == "MemberExpr" else None): return False
        else:
            if x["op"] == "<=": lim += 1
            ext = s.extent()
            if ext is not None and lim < ext: return False
        i0 = [a for a in var_uses(f).get(v["d"], []) if a[0] in ("def", "mod")]
        start = [a for a in i0 if a[0] == "def"]; step = [a for a in i0 if a[0] == "mod"]
        if len(step) != 1 or f.nodes[step[0][2]].get("op") != "++": return False
        if not start or any(a[1] is None or f.nodes[f.strip(a[1])].get("cv") != 0 for a in start): return False
        # nothing leaves the loop but its condition
        return all(y in body for b in body if b != hd for y in f.succ()[b])

    def kept_below(s, m):
        """slots from the member m on hold nothing: whoever lowers m releases a slot too"""
        if m is None or m.rsplit("::", 1)[0] != s.cls: return False
        rel = {f.id for f, i, k in s.releases()}; low = 0
        for f in s.P.funcs.values():
            if f.cls not in s.fam or f.ctor: continue
            for x in f.reach_nodes():
                if x["k"] == "UnaryOperator" and x["op"] == "--" or x["k"] == "CompoundAssignOperator" and x["op"] == "-=":
                    y = f.nodes[f.strip(x["c"][0])]
                    if y["k"] == "MemberExpr" and y.get("d") == m:
                        low += 1
                        if f.id not in rel: return False
        return low > 0

    def extent(s):
        import re
        r = s.P.recs.get(s.cls)
        for fl in (r or {}).get("fields", []):
            if fl["d"] == s.d or fl["n"] == s.name:
                m = re.search(r"\[(\d+)\]$", fl["ct"])
                if m: return int(m.group(1))
        return None

    def each(s, f, hd, body):
        """from the loop's header round to it again, the current element is released or null"""
        starts = [y for y in f.succ()[hd] if y in body]
        return s.given(f, starts, hd, 0)

    def given(s, f, starts, goal, depth):
        seen = set(); wl = [(y, "M") for y in starts]
        while wl:
            b, st = wl.pop()
            if (b, st) in seen: continue
            seen.add((b, st))
            if b == goal:
                if st not in ("N", "F"): return False
                continue
            for e in f.elems(b):
                if not isinstance(e, int): continue
                x = f.nodes[e]
                k = s.relnode(f, x, "this")
                if k and st != "N": st = "F"
                if not k and st == "M" and x["k"] in CALLS and depth < 3:      # a helper for one element
                    o = f.obj(x)
                    ts = [t for t in s.P.targets(f, x)] if o is not None and f.nodes[f.strip(o)]["k"] == "CXXThisExpr" else []
                    if ts and all(t.id in s.reach and s.given(t, [t.entry], t.exit, depth + 1) for t in ts): st = "F"
                if x["k"] == "BinaryOperator" and x["op"] == "=" and s.h.isf(f, x["c"][0], s.d, "this") and s.h.isnull(f, x["c"][1]):
                    if st == "M": return False
                    st = "N"
            c = ph.cond_of(f, b); t = s.h.nulltest(f, c, s.d, "this") if c is not None else None
            for n, y in enumerate(f.succ()[b]):
                st2 = st
                if t is not None and st == "M" and (n == 0) != t: st2 = "N"
                wl.append((y, st2))
        return True

    # ---- the typestate
    def run(s, fid, base, entry, quiet=False):
        k = (fid, base, entry)
        if k in s.memo: return s.memo[k]
        s.memo[k] = frozenset({(entry, None)})
        r = frozenset(s.run1(s.P.funcs[fid], base, entry))
        s.memo[k] = r
        return r

    def run1(s, f, base, entry):
        # state: (state, witness) for a plain field; for an array of them, the elements touched so far (key -> state)
        st0 = (entry, None) if not s.idx else (("", entry, None),)
        IN = defaultdict(set); IN[f.entry].add(st0); wl = deque([f.entry]); done = defaultdict(set); outs = set()
        while wl:
            b = wl.popleft(); new = IN[b] - done[b]; done[b] |= new
            if len(done[b]) > 400: continue
            for st in new:
                s.nst += 1
                cur = {st}
                for e in f.elems(b):
                    nx = set()
                    for c in cur: nx |= s.step(f, e, base, c)
                    cur = nx
                if b == f.exit:
                    outs |= cur; continue
                c = ph.cond_of(f, b)
                t = s.h.nulltest(f, c, s.d, base) if c is not None else None
                dd = s.d
                if t is None and c is not None and s.idx:
                    for d2 in s.twins():
                        t = s.h.nulltest(f, c, d2, base)
                        if t is not None: dd = d2; break
                for n, y in enumerate(f.succ()[b]):
                    for z in cur:
                        z2 = s.refine(f, c, t, n, z, base, dd) if t is not None else z
                        if z2 is None: continue
                        if z2 not in IN[y]:
                            IN[y].add(z2)
                            if y not in wl: wl.append(y)
        if s.idx:
            res = set()
            for z in outs:
                for k, st, w in z:
                    if k != "" and st == "F" and not f.dtor: res.add(("F", w))
                    if k != "" and st == "O" and s.mode == "self": s.note(f, w, "field kept", "%s is given a fresh object which is not released before the function ends, and the destructor does not release it" % s.d)
            return res or {(entry, None)}
        return outs

    def newslot(s, f, k):
        """the index is a slot just added: a local defined once, by a call that returns a field's value and counts it up"""
        m = s.h.__dict__.setdefault("_ns", {})
        if (f.id, k) in m: return m[(f.id, k)]
        r = False
        if k in f.vars and k.startswith("%"):
            d = single_def(f, k)
            x = f.nodes[f.strip(d)] if d is not None else None
            if x is not None and x["k"] in CALLS:
                ts = s.P.targets(f, x)
                r = bool(ts)
                for t in ts:
                    rets = [y for y in t.reach_nodes() if y["k"] == "ReturnStmt"]
                    for y in rets:
                        e = t.nodes[t.strip(y["c"][0])] if y["c"] else None
                        if e is None or e["k"] != "UnaryOperator" or e["op"] != "++" or not e.get("post") or t.nodes[t.strip(e["c"][0])]["k"] != "MemberExpr": r = s.reslot(t, y)
                    r = r and bool(rets)
        m[(f.id, k)] = r
        return r

    def reslot(s, t, y):
        """returns a local that was itself given a new slot"""
        e = t.nodes[t.strip(y["c"][0])] if y["c"] else None
        return e is not None and e["k"] == "DeclRefExpr" and s.newslot(t, e["d"])

    def twins(s):
        """array fields given objects by the same functions and released by the same functions: null together"""
        h = s.h
        m = h.__dict__.get("_tw")
        if m is None:
            m = h._tw = {}
            for d, e in h.fields.items():
                if not e["idx"]: continue
                mm = Mach(h, d)
                give = frozenset(fid for fid, at in h.freshat if any(h.isf(h.P.funcs[fid], h.P.funcs[fid].nodes[at]["c"][0], d, "this") for _ in (0,)
                                                                      if h.P.funcs[fid].nodes[at]["k"] == "BinaryOperator"))
                rel = frozenset(f.id for f, i, k in mm.releases())
                m[d] = (give, rel)
        return [d for d in m if d != s.d and m[d] == m.get(s.d)]

    def get(s, z, k, f=None):
        if not s.idx: return z
        for kk, st, w in z:
            if kk == k: return (st, w)
        for kk, st, w in z:
            if kk == "": return ("N", None) if f is not None and s.newslot(f, k) else (st, w)
        return ("S", None)

    def put(s, z, k, st, w):
        if not s.idx: return (st, w)
        return tuple(sorted([t for t in z if t[0] != k] + [(k, st, w)], key=str))

    def refine(s, f, c, t, n, z, base, dd):
        x = f.nodes[f.strip(c)]
        while x["k"] == "UnaryOperator" and x["op"] == "!": x = f.nodes[f.strip(x["c"][0])]
        k = None
        if s.idx:
            for i in [x["i"]] + [j for j in x["c"] if j >= 0]:
                r = s.h.isf(f, i, dd, base)
                if r: k = r[1]
            if k is None: return z
        st, w = s.get(z, k, f)
        nonnull = (n == 0) == t
        if nonnull:
            if st == "N": return None
            if st == "M": return s.put(z, k, "H", w)
        else:
            if st in ("O", "H"): return None
            if st in ("M", "D", "S") and st != "D": return s.put(z, k, "N", w)
        return z

    def step(s, f, e, base, z):
        h = s.h
        if not isinstance(e, int):
            if e.get("x") == "init" and e.get("d") == s.d and base == "this" and not s.idx:
                v = e.get("v", -1)
                if v is not None and v >= 0:
                    if h.isnull(f, v): return {("N", None)}
                    if f.nodes[f.strip(v)]["k"] == "CXXNewExpr": return {("O", f.strip(v))}
                    return {("S", None)}
            return {z}
        x = f.nodes[e]; k = x["k"]; i = e
        # release
        r = s.relnode(f, x, base)
        if r:
            ix = h.isf(f, r[1], s.d, base)[1]
            st, w = s.get(z, ix, f)
            if st == "N": return {z}
            if st == "F": s.note(f, i, "released again", "%s is released a second time" % s.d)
            if x["k"] in CALLS and x.get("qn") not in ow.FREE:
                # a helper that takes the pointer by reference may leave something else in it
                nvs = set()
                for t in s.P.targets(f, x):
                    for n, a in enumerate(f.args(x)):
                        if a == r[1] and n < len(t.params) and ow.is_pref(t.params[n]["ct"]):
                            nvs |= {par[n][1] for par, rv in s.h.o.summary(t.id)}
                if nvs:
                    return {s.put(z, ix, "N" if v == "null" else "O" if isinstance(v, tuple) and v[0] == "fresh" else "F" if v is None else "S", i) for v in nvs}
            return {s.put(z, ix, "F", i)}
        if k == "BinaryOperator" and x["op"] == "=":
            y = h.isf(f, x["c"][0], s.d, base)
            if y:
                ix = y[1]; st, w = s.get(z, ix, f)
                if s.idx and f.nodes[f.strip(x["c"][0])]["k"] != "ArraySubscriptExpr": return {z}
                if st in ("M", "H", "O"):
                    s.note(f, i, "overwritten", "%s still holds an object when it is given another one: the old one is never released" % s.d
                           + ("" if st == "O" else " (on a second call)"))
                if h.isnull(f, x["c"][1]): return {s.put(z, ix, "N", i)}
                if (f.id, i) in h.freshat: return {s.put(z, ix, "O", i)}
                return {s.put(z, ix, "S", i)}
            # a variable of the index changes, or the base pointer is moved
            l = f.nodes[f.strip(x["c"][0])]
            if l["k"] == "DeclRefExpr": return {s.moved(f, z, l["d"], base, x["c"][1])}
        if s.idx and k in ("UnaryOperator", "CompoundAssignOperator") and x["op"] in ("++", "--", "+=", "-="):
            l = f.nodes[f.strip(x["c"][0])]
            if l["k"] == "DeclRefExpr": return {s.moved(f, z, l["d"], base, None)}
        if k == "DeclStmt":
            for d in x["decls"]:
                if d["init"] >= 0:
                    if d["d"] == base: z = s.fresh(f, d["init"], z)
                    elif s.idx: z = s.moved(f, z, d["d"], base, None)
            return {z}
        if k == "CXXDeleteExpr":
            y = f.nodes[f.strip(x["c"][0])]
            if y["k"] == "DeclRefExpr" and y["d"] == base and not s.idx:
                st, w = z
                if s.mode == "dtor" and st in ("F",): s.note(f, i, "released again", "%s was released and its owner's destructor releases it again" % s.d)
                if s.mode == "self" and st == "O": s.note(f, w, "field kept", "%s holds a fresh object which is not released before the object that holds it" % s.d)
                return {("D", None)}
            return {z}
        if k in CALLS:
            ts = s.P.targets(f, x); o = f.obj(x)
            b = None
            if o is not None:
                ob = f.nodes[f.strip(o)]
                b = "this" if ob["k"] == "CXXThisExpr" else ob.get("d") if ob["k"] == "DeclRefExpr" else None
            out = None
            for t in ts:
                if t.id not in s.reach: continue
                nb = None
                if b is not None and b == base and t.cls in s.fam: nb = "this"
                else:
                    for n, a in enumerate(f.args(x)):
                        av = f.nodes[f.strip(a)]
                        ak = "this" if av["k"] == "CXXThisExpr" else av.get("d") if av["k"] == "DeclRefExpr" else None
                        if ak == base and n < len(t.params): nb = t.params[n]["d"]
                if nb is None: continue
                if s.idx:
                    s.run(t.id, nb, z[0][1] if z and z[0][0] == "" else "D")
                    z = tuple(q for q in z if q[0] == ""); out = (out or set()) | {z}
                else:
                    out = (out or set()) | {(st, i if w is not None and st in ("O", "F") and st != z[0] else (w if st == z[0] and w is None else i)) for st, w in s.run(t.id, nb, z[0])}
            if out is not None: return out
            return {z}
        if k == "MemberExpr" and x.get("d") == s.d and not s.idx:
            y = h.isf(f, i, s.d, base)
            if y: return {s.use(f, i, z)}
        if s.idx and k == "ArraySubscriptExpr":
            y = h.isf(f, i, s.d, base)
            if y and y[1] is not None:
                st, w = s.get(z, y[1], f)
                n = s.use(f, i, (st, w))
                if n != (st, w): return {s.put(z, y[1], n[0], n[1])}
        return {z}

    def use(s, f, i, z):
        st, w = z
        j = i; p = f.parent.get(j)
        rv = False
        while p is not None and f.nodes[p]["k"] in CASTS:
            if f.nodes[p].get("ck") == "LValueToRValue": rv = True
            j = p; p = f.parent.get(j)
        if not rv or p is None: return z
        y = f.nodes[p]; k = y["k"]
        if k in ("ArraySubscriptExpr", "MemberExpr") and y["c"][0] == j or (k == "UnaryOperator" and y["op"] == "*"):
            if st == "F": s.note(f, i, "used after release", "%s is used after it was released" % s.d)
            return z
        if k == "ReturnStmt" or k == "DeclStmt" or (k == "BinaryOperator" and y["op"] == "=" and y["c"][1] == j):
            return ("S", w) if st in ("M", "H", "O") else z
        if k in CALLS or k in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
            for t in s.P.targets(f, y):
                a = f.args(y)
                if j in a:
                    n = a.index(j)
                    r = s.h.released(t, n)
                    if "freed" in r: return z
                    if "esc" in r: return ("S", w) if st in ("M", "H", "O") and s.mode == "dtor" else z
            if st == "F" and j in f.args(y): s.note(f, i, "used after release", "%s is used after it was released" % s.d)
        return z

    def moved(s, f, z, v, base, rhs):
        if v == base: return s.fresh(f, rhs, z)
        if not s.idx: return z
        out = []
        for t in z:
            if t[0] != "" and v in t[0]:
                if t[1] == "F" and s.mode == "dtor" and not f.dtor:
                    s.note(f, t[2], "left dangling", "an element of %s is released and left pointing at it; the destructor releases it again" % s.d)
                continue
            out.append(t)
        return tuple(out)

    def fresh(s, f, rhs, z):
        """the base pointer is given a new object: what the constructor leaves in the field"""
        if s.idx: return (("", "D", None),)
        y = f.nodes[f.strip(rhs)] if rhs is not None and rhs >= 0 else None
        if y is not None and y["k"] == "CXXNewExpr": return ("N", None)
        return ("D", None)


def h_callers(h, f): return h.callers.get(f.id)



if __name__ == "__main__":
    import sys
    P = load(); o = ow.Own(P); o.main(); h = Hold(P, o)
    for d, e in sorted(h.fields.items()): print(d, e["idx"], e["kinds"], [f.where(i) for f, i in e["src"]][:2])
    for c in sorted(h.conts): print(P.funcs[c[0]].where(c[1]), P.funcs[c[0]].text(c[1])[:60], c[2], c[3])
    h.main()
    print(dict(h.checked))
    for k, v in sorted(h.viol.items()): print(k, v)
