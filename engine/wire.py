"""Wire-format agreement: per phase, the language of what is packed equals the language of what is unpacked."""
from agx import *
import phase as ph

SZ = {"int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8, "double": 8, "float": 4, "char": 1, "unsigned char": 1,
      "short": 2, "bool": 1, "long long": 8, "unsigned long long": 8, "void": 1}


def pointee(t):
    t = t.strip()
    t = t.replace("const ", "").strip()
    if t.endswith("*"): return t[:-1].strip()
    if t.endswith("]"): return t[:t.index("[")].strip()
    return None


def buf_type(f, i):
    """(pointee canonical type, root node) of a buffer argument"""
    j = i
    while True:
        x = f.nodes[j]
        if x["k"] in CASTS and x["c"]:
            if x.get("ck") in ("ArrayToPointerDecay",):
                t = f.nodes[x["c"][0]]["ct"]
                return pointee(t), x["c"][0]
            j = x["c"][0]; continue
        break
    x = f.nodes[j]
    if x["k"] == "UnaryOperator" and x["op"] == "&":
        t = f.nodes[x["c"][0]]["ct"]
        while t.endswith("]"):
            t = t[:t.index("[")].strip()
        return t.replace("const ", "").strip(), x["c"][0]
    return pointee(x["ct"]), j


def sizeof_type(f, i):
    i = f.strip(i); x = f.nodes[i]
    if x["k"] == "UnaryExprOrTypeTraitExpr":
        t = x["cat"].replace("const ", "").strip()
        return t
    return None


def factors(f, i, P=None):
    """split a size expression into constant factors, sizeof factors and the rest"""
    i = f.strip(i); x = f.nodes[i]
    if x["k"] == "BinaryOperator" and x["op"] == "*":
        a = factors(f, x["c"][0]); b = factors(f, x["c"][1])
        return (a[0] * b[0], a[1] + b[1], a[2] + b[2])
    st = sizeof_type(f, i)
    if st is not None: return (1, [(st, x["cv"])], [])
    if "cv" in x and x["cv"] is not None: return (x["cv"], [], [])
    if x["k"] == "DeclRefExpr" and x["d"].startswith("%"):
        d = single_def(f, x["d"])
        if d is not None:
            r = factors(f, d)
            if r[1] or r[0] != 1: return r
            return (1, [], [i])
    return (1, [], [i])


class Wire:
    def __init__(s, P):
        s.P = P
        s.ty = ph.Phase(P)
        s.ops = ph.BEGIN | ph.SEND | ph.PACK | ph.NEXT | ph.NEXTW | ph.UNPACK
        s.viol = {}; s.stats = defaultdict(int); s.phases = {}
        s.items = ph.PACK | ph.UNPACK
        s.rel = s._rel()
        s.closed = set(); s.sites = set(); s.varlen = set(); s.extents = set(); s.links = {}; s.sender_used = set()

    def bad(s, f, i, rule, msg):
        key = "%s|%s|%s" % (f.qn, rule, f.text(i) if i is not None else "")
        s.viol.setdefault(key, (f.where(i), msg))

    def _rel(s):
        direct = set(); callers = defaultdict(set)
        for f in s.P.funcs.values():
            if f.file.startswith("pcu/"): continue
            for x in f.calls():
                if x.get("qn") in s.ops: direct.add(f.id)
                for t in s.P.targets(f, x): callers[t.id].add(f.id)
        seen = set(direct); st = list(direct)
        while st:
            a = st.pop()
            for c in callers[a]:
                if c not in seen: seen.add(c); st.append(c)
        s.direct = direct; s.callers = callers
        return seen

    def is_closed(s, fid):
        t = ph.Phase.__new__(ph.Phase)
        t.P = s.P; t.relevant = s.ty.relevant; t.callers = s.ty.callers
        t.memo = {}; t.viol = {}; t.sites = set(); t.funcs = set()
        outs = t.summary(fid, 'I')
        return not t.viol and all(S == 'I' for S, _ in outs)

    # ---- symbol of one pack/unpack call
    def symbol(s, f, x, buf, size, unit, pk, hist, pid, S):
        """-> (symbols, new history).  unit: element type fixed by the primitive (file I/O), size then counts elements"""
        bt, root = buf_type(f, buf)
        s.sites.add((f.id, x["i"]))
        con, sz, rest = factors(f, size)
        whole = f.nodes[f.strip(size)].get("cv")
        rt = f.nodes[root]
        fr = hist[-1]
        name = None
        if rt["k"] == "DeclRefExpr" and not rt["ct"].endswith(("*", "]")): 
            name = {(f.id, rt["d"]), (f.id, rkey(f, root))}
            ds = [u for u in var_uses(f).get(rt["d"], []) if u[0] in ("def", "mod")]
            if pk and len(ds) == 1 and ds[0][1] is not None and ds[0][0] == "def": name |= {(f.id, rkey(f, ds[0][1])), ("def",)}
        if unit is not None:
            if bt is not None and bt != unit and SZ.get(bt) != SZ.get(unit):
                s.bad(f, x["i"], "size-type-mismatch", "buffer of %s transferred as %s" % (bt, unit))
            el = unit; n = whole
        else:
            if bt is None or (bt not in SZ and not sz):
                s.bad(f, x["i"], "opaque-buffer", "cannot determine the element type of the buffer"); return [("?", f.text(x["i"]))], hist
            if sz:
                st, ssz = sz[0]
                st0 = st[:st.index("[")].strip() if st.endswith("]") else st
                if st0 in SZ and bt in SZ and SZ[st0] != SZ[bt]:
                    s.bad(f, x["i"], "size-type-mismatch", "buffer of %s transferred with sizeof(%s)" % (bt, st))
                el = bt if bt in SZ else st
                esz = SZ.get(el, ssz)
            else:
                el = bt; esz = SZ[bt]
                if whole is None and esz != 1:
                    s.bad(f, x["i"], "size-not-in-elements", "length of a %s buffer is not given in sizeof(%s) units" % (bt, bt))
            n = None
            if whole is not None:
                n = whole // esz
                if whole % esz: s.bad(f, x["i"], "size-type-mismatch", "%d bytes is not a whole number of %s" % (whole, el))
        if n is not None:
            nb = n * SZ.get(el, 8)
            if rt["k"] == "DeclRefExpr":
                v = f.vars.get(rt["d"], {})
                if "asz" in v and v.get("aet") in SZ and v["asz"] * SZ[v["aet"]] < nb:
                    s.bad(f, x["i"], "buffer-too-small", "%d bytes in an array of %d" % (nb, v["asz"] * SZ[v["aet"]]))
                elif "asz" not in v and v.get("ct") in SZ and SZ[v["ct"]] < nb:
                    s.bad(f, x["i"], "buffer-too-small", "%d bytes in an object of %d" % (nb, SZ[v["ct"]]))
            h = frozenset(name) if n == 1 and name else None
            return [(self_cls(el),)] * n, hist[:-1] + ((fr + ((h,) * n))[-6:],)
        # variable length: which earlier item of this record carries the count?
        cnt = rest; off = None
        s.varlen.add((f.id, x["i"]))
        if len(cnt) == 1 and con == 1:
            for key in (rkey(f, cnt[0]), f.key(cnt[0])):
                for m, h in enumerate(reversed(fr)):
                    if h and (f.id, key) in h: off = m + 1; break
                if off: break
        if off is None:
            s.bad(f, x["i"], "length-not-transferred", "the length of this variable-size item is not an item transferred before it in the same record")
        if rt["k"] == "DeclRefExpr" and off is not None:
            for u in var_uses(f).get(rt["d"], []):
                if u[0] == "def" and u[1] is not None:
                    nw = f.nodes[f.strip(u[1])]
                    if nw["k"] == "CXXNewExpr" and nw["arr"] and not pk:
                        if rkey(f, nw["sz"]) != rkey(f, cnt[0]):
                            s.bad(f, x["i"], "buffer-length-differs", "receives %s elements into an array of %s" % (f.text(cnt[0]), f.text(nw["sz"])))
                        s.extents.add((f.id, x["i"]))
        s.links.setdefault(pid, [set(), set()])[0 if pk else 1].add(("bulk", off, f.where(x["i"])))
        s.nmarks.setdefault(pid, [set(), set()])[0 if pk else 1].add((f.id, x["i"]))
        if cnt and s.zero_guarded(f, x["i"], cnt[0]): s.noguard.add(pid)
        return [(self_cls(el), "x", 0)], hist

    # ---- exploration of one closed function
    def explore(s, fid):
        """product of the inlined CFG with the phase state; returns phases: begin-site -> (sender edges.., receiver edges..)"""
        T = s.ty
        f0 = s.P.funcs[fid]
        start = (((fid, f0.entry, 0, frozenset(), 1),), s.S0, ((),), s.P0)
        edges = defaultdict(list)       # config -> [(label, config)]
        seen = {start}; wl = [start]; begins = {}; 
        while wl:
            c = wl.pop()
            for lab, d in s.step(c):
                edges[c].append((lab, d))
                if d is not None and d not in seen:
                    seen.add(d); wl.append(d)
            if len(seen) > 200000: raise Broken("phase automaton of %s too large" % f0.qn)
        return start, edges, seen

    def step(s, c):
        stack, S, hist, pid = c
        fid, b, k, know, hd = stack[-1]
        f = s.P.funcs[fid]; T = s.ty
        el = f.elems(b)
        if k < len(el):
            e = el[k]; nx = lambda S2=S, kn=know, h=hist, p=pid: (stack[:-1] + ((fid, b, k + 1, kn, hd),), S2, h, p)
            if not isinstance(e, int): return [(None, nx())]
            x = f.nodes[e]
            if x["k"] == "CXXThrowExpr": return []
            # modification of a remembered variable forgets it
            if x["k"] in ("BinaryOperator", "CompoundAssignOperator") and (x["op"] == "=" or x["k"] != "BinaryOperator") or (x["k"] == "UnaryOperator" and x["op"] in ("++", "--")):
                l = f.nodes[f.strip(x["c"][0])]
                if l["k"] == "DeclRefExpr":
                    hist2 = tuple(tuple(None if h and (fid, l["d"]) in h else h for h in fr) for fr in hist)
                    return [(None, nx(S2, kn, hist2)) for S2, kn in s.plain(f, x, S, know)]
            if x["k"] in CALLS or x["k"] in ("CXXConstructExpr", "CXXTemporaryObjectExpr"):
                q = x.get("qn")
                if q in s.ops: return s.op(c, f, x, nx)
                ts = [t for t in s.P.targets(f, x) if t.id in s.rel and t.id not in s.closed and not t.file.startswith("pcu/")]
                if ts:
                    out = []
                    for t in ts:
                        if any(fr[0] == t.id for fr in stack): raise Broken("recursive transfer helper %s" % t.qn)
                        h2 = hist
                        # a variable handed over by reference is the callee's parameter from here on
                        out.append((None, (stack + ((t.id, t.entry, 0, frozenset(), len(hist)),), S, h2, pid)))
                    return out
                if q in ph.INMSG: s.sender_used.add(pid)
                return [(None, nx(S2, kn)) for S2, kn in (s.plain(f, x, S, know) if not s.P.targets(f, x) and q not in ph.ALLPRIM else [(S, know)])]
            return [(None, nx(S2, kn)) for S2, kn in s.plain(f, x, S, know)]
        # end of block
        if b == f.exit:
            if len(stack) == 1: return [(("exit",), None)]
            cf, cb, ck, cknow, chd = stack[-2]
            F = s.P.funcs[cf]; e = F.elems(cb)[ck]
            rv = dict(know).get("ret")
            kn = frozenset((h, p) for h, p in cknow if h != e) | ({(e, rv)} if rv is not None else set())
            return [(None, (stack[:-2] + ((cf, cb, ck + 1, kn, chd),), S, hist[:hd], pid))]
        out = []
        cnd = ph.cond_of(f, b)
        L = loops(f); cn = s.fixed(f)
        for n, y in enumerate(f.succ()[b]):
            S2, kk, lab, h2 = S, know, None, hist
            if b in cn:           # a loop of a constant number of rounds is followed round by round
                h0, m = cn[b]; r = dict(p for p in know if p[0] == ("round", h0)).get(("round", h0), 0)
                if (y in L[h0]) != (r < m): continue
            for h0, m in cn.values():
                if y == h0:
                    r = dict(p for p in know if p[0] == ("round", h0)).get(("round", h0), 0)
                    kk = frozenset(p for p in kk if p[0] != ("round", h0)) | {(("round", h0), r + 1 if b in L[h0] else 0)}
            if cnd is not None:
                v = T.val(f, cnd, know); want = 1 if n == 0 else 0
                if v not in (0, 1) and len(f.succ()[b]) == 2: v = s.cval(f, cnd, know, v)
                if v in (0, 1) and v != want: continue
                if v in ('+', '-') and S == 'Q':
                    got = want if v == '+' else 1 - want
                    kk = frozenset((h, (got if p == '+' else 1 - got) if p in ('+', '-') else p) for h, p in kk)
                    lab = ("msg",) if got else ("end",); S2 = 'M' if got else 'I'
            # loop frames of the item history; counted loops also leave marks: "<" on entry, "." per iteration, ">" on exit
            mk = []; ctx = tuple(fr[:3] for fr in stack[:-1])
            for h, body in L.items():
                if b in body and y not in body:
                    if len(h2) > hd: h2 = h2[:-1]
                    if (ctx, fid, h, s.sending(S)) in s.marked: mk.append(("mark", ">"))
            if y in L:
                if b in L[y]:
                    h2 = h2[:-1] + ((),) if len(h2) > hd else h2
                    if (ctx, fid, y, s.sending(S)) in s.marked: mk.append(("mark", "."))
                else:
                    if s.link(f, y, h2[-1], S, pid):
                        s.marked.add((ctx, fid, y, s.sending(S))); mk.append(("mark", "<"))
                        s.nmarks.setdefault(pid, [set(), set()])[0 if s.sending(S) else 1].add((fid, y))
                    h2 = h2 + ((),)
            if lab is None and mk: lab = ("sym", tuple(mk))
            if lab is not None and lab[0] != "sym": h2 = h2[:-1] + ((),)
            out.append((lab, (stack[:-1] + ((fid, y, 0, kk, hd),), S2, h2, pid)))
        return out

    def cval(s, f, c, know, v): return v

    def fixed(s, f):
        """{block that decides: (header, rounds)} of the loops with items that run a small constant number of times"""
        c = s.__dict__.setdefault("_fx", {})
        if f.id not in c:
            c[f.id] = {}
            for h in loops(f):
                t = trip(f, h)
                if t is None or not s.has_items(f, h): continue
                try: m = int(eval(t, {"__builtins__": {}}))
                except Exception: continue
                ex = [b for b in loops(f)[h] if any(y not in loops(f)[h] for y in f.succ()[b])]
                if 0 <= m <= 8: c[f.id][ex[0]] = (h, m)
        return c[f.id]

    def plain(s, f, x, S, know):
        return s.ty.transfer(f, x, S, know)

    S0 = 'I'; P0 = None

    def op(s, c, f, x, nx):
        stack, S, hist, pid = c; q = x["qn"]; know = stack[-1][3]; T = s.ty; e = x["i"]
        if q in ph.BEGIN | ph.SEND | ph.NEXT | ph.NEXTW:
            S2, kn = T.step_prim(f, x, S, frozenset((h, p) for h, p in know if h != e))[0]
            h0 = hist[:-1] + ((),)
            if q in ph.BEGIN: return [(None, nx('P', kn, h0, tuple((a[0], a[1], a[2]) for a in stack)))]
            if q in ph.SEND: return [(("send",), nx('R', kn, h0))]
            return [(None, nx('Q', kn, h0))]
        pk = q in ph.PACK
        a = f.args(x)
        buf, size = (a[1], a[2]) if pk else (a[0], a[1])
        if pk: s.dest(f, x, pid)
        s.looptag(f, x, pid, f.id)
        return s.item(f, x, buf, size, None, pk, hist, nx, pid, S)

    def item(s, f, x, buf, size, unit, pk, hist, nx, pid, S):
        syms, h2 = s.symbol(f, x, buf, size, unit, pk, hist, pid, S)
        return [(("sym", tuple(syms), (f.id, x["i"])), nx(S, h=h2))]

    def link(s, f, header, fr, S, pid):
        """a counted loop is entered: which earlier item of the record is its count?"""
        if not s.has_items(f, header): return False
        off = None; ts = trips(f, header)
        for key in ts:
            for n, h in enumerate(reversed(fr)):
                if h and key in h: off = n + 1; break
            if off: break
        if off is not None:
            body = loops(f)[header]
            ex = [b for b in body if any(y not in body and not dead(f, y) for y in f.succ()[b])]
            if len(ex) > 1: s.bad(f, f.blocks[header].get("cond"), "early-end", "the repeated items are counted by an item before them, but the loop over them may end before that many")
        elif ts and pid == "file":
            s.unlinked.append((s.sending(S), f, f.blocks[header].get("cond"), [bool(h and ("def",) in h and any(len(k) == 2 and k[0] == f.id for k in h)) for h in reversed(fr)]))
        s.links.setdefault(pid, [set(), set()])[0 if s.sending(S) else 1].add(("loop", off, f.where(f.blocks[header].get("cond"))))
        return off is not None

    def zero_guarded(s, f, i, n):
        """is the transfer skipped exactly when its own count is zero?"""
        cd = control_deps(f).get(block_of(f).get(i), ())
        want = {f.key(n), rkey(f, n)}
        for b in {c[0] if isinstance(c, tuple) else c for c in cd}:
            c = ph.cond_of(f, b)
            if c is None: continue
            x = f.nodes[c]
            if x["k"] == "UnaryOperator" and x["op"] == "!": x = f.nodes[f.strip(x["c"][0])]
            if x["k"] == "BinaryOperator" and x["op"] in (">", "!=", "==", "<"):
                a, e = f.strip(x["c"][0]), f.strip(x["c"][1])
                if f.nodes[e].get("cv") == 0: x = f.nodes[a]
                elif f.nodes[a].get("cv") == 0: x = f.nodes[e]
                else: continue
            if {f.key(x["i"]), rkey(f, x["i"])} & want: return True
        return False

    def sending(s, S): return S == 'P'

    def has_items(s, f, header):
        c = s.__dict__.setdefault("_hi", {})
        if (f.id, header) not in c:
            r = False; bo = block_of(f); rec = False
            for y in f.calls():
                if bo.get(y["i"]) in loops(f)[header]:
                    if y.get("qn") in ph.NEXT | ph.NEXTW: rec = True
                    if y.get("qn") in s.items: r = True
                    elif any(t.id in s.rel and t.id not in s.closed for t in s.P.targets(f, y)): r = True
            c[(f.id, header)] = r and not rec
        return c[(f.id, header)]

    # ---- destination rule
    def dest(s, f, x, pid):
        b = block_of(f).get(x["i"])
        lp = inner_loop(f, b)
        s.dests.setdefault((f.id, lp, pid), {}).setdefault(rkey(f, f.args(x)[0]), x["i"])

    def looptag(s, f, x, pid, fid):
        """trip counts of loops inside one record (the destination does not change / no new message is taken)"""
        b = block_of(f).get(x["i"]); pk = x["qn"] in ph.PACK
        lp = inner_loop(f, b)
        if lp is None: return
        body = loops(f)[lp]
        if pk:
            mod = set()
            for y in f.nodes:
                if y is None or block_of(f).get(y["i"]) not in body: continue
                if y["k"] in ("BinaryOperator", "CompoundAssignOperator", "UnaryOperator", "CXXOperatorCallExpr"):
                    if y["k"] == "BinaryOperator" and y["op"] != "=": continue
                    if y["k"] == "UnaryOperator" and y["op"] not in ("++", "--"): continue
                    if y["k"] == "CXXOperatorCallExpr" and y.get("n") not in ("operator++", "operator--", "operator=", "operator+="): continue
                    t = f.nodes[f.strip(y["c"][1] if y["k"] == "CXXOperatorCallExpr" and len(y["c"]) > 1 else y["c"][0])]
                    if t["k"] == "DeclRefExpr": mod.add(t["d"])
                if y["k"] == "DeclStmt": mod |= {d["d"] for d in y["decls"]}
            if mod & refs(f, f.args(x)[0]): return
        else:
            for y in f.nodes:
                if y is not None and y["k"] in CALLS and block_of(f).get(y["i"]) in body and y.get("qn") in ph.NEXT | ph.NEXTW: return
        t = trip(f, lp)
        s.stats["record loops"] += 1
        s.loops_.setdefault(pid, [set(), set()])[0 if pk else 1].add(t)

    def run(s):
        # closed functions bottom-up: a function is its own unit when it opens and drains its phases itself
        cand = [fid for fid in s.rel if s.is_closed(fid)]
        opens = set(s.direct)
        s.closed = set()
        units = []
        for fid in cand:
            s.closed.add(fid)
        for fid in sorted(cand):
            f = s.P.funcs[fid]
            # does it have ops outside closed callees?
            if s.has_ops(fid): units.append(fid)
        for fid in units: s.unit(fid)
        return units

    def has_ops(s, fid, seen=None):
        seen = seen or set()
        if fid in seen: return False
        seen.add(fid); f = s.P.funcs[fid]
        for x in f.calls():
            if x.get("qn") in s.ops: return True
            for t in s.P.targets(f, x):
                if t.id in s.rel and t.id not in s.closed and s.has_ops(t.id, seen): return True
        return False

    def unit(s, fid):
        f = s.P.funcs[fid]; s.dests = {}; s.loops_ = {}; s.sender_used = set(); s.links = {}; s.marked = set(); s.nmarks = {}; s.noguard = set()
        start, edges, seen = s.explore(fid)
        s.stats["units"] += 1; s.stats["automaton states"] += len(seen)
        for (gid, lp, pid), d in s.dests.items():
            s.stats["destination groups"] += 1
            if len(d) > 1:
                g = s.P.funcs[gid]
                s.bad(g, sorted(d.values())[-1], "mixed-destination", "items of one record are packed to different destinations: %s" % ", ".join(sorted(d)))
        # group configs by phase
        byp = defaultdict(lambda: [[], []])
        for c in seen:
            for lab, d in edges[c]:
                if d is None: continue
                p = d[3]
                if p is None: continue
                # begin edge: c has state I (pid different) and d is P
                if d[1] == 'P' and (c[1] != 'P'): byp[p][0].append(("start", d))
                if lab == ("send",): byp[p][1].append(("start", d))
        for p, (sa, ra) in byp.items():
            sid = p[-1]
            g = s.P.funcs[sid[0]]; site = g.elems(sid[1])[sid[2]]
            s.marks = False
            snd = s.nfa([d for _, d in sa], edges, 'P')
            rcv = s.nfa([d for _, d in ra], edges, ('R', 'Q', 'M'))
            s.stats["phases"] += 1
            name = "%s phase opened at %s" % (f.qn, g.where(site))
            d1 = determinize(star(snd)); d2 = determinize(rcv)
            w = difference(d1, d2)
            if w is not None and p not in s.sender_used:
                # a receiver that takes items one by one without asking who sent them reads a
                # stream: any sequence of that item type decodes
                al = {l for m in d2[1].values() for l in m}
                if len(al) == 1 and {l for m in d1[1].values() for l in m} == al and \
                   difference(d2, (0, {0: {l: 0 for l in al}}, {0})) is None and s.appended([d for _, d in ra], edges):
                    s.stats["homogeneous streams"] += 1; w = None
            if w is None: s.align(p, [d for _, d in sa], [d for _, d in ra], edges)
            s.cmp_links(f, g.where(site), p)
            ls, lr = s.loops_.get(p, (set(), set()))
            if ls and lr and None not in ls | lr:
                s.stats["record loop counts compared"] += 1
                if ls != lr:
                    s.bad(f, None, "record-loop-count", "phase opened at %s: items are packed in loops of %s but unpacked in loops of %s" %
                          (g.where(site), sorted(ls), sorted(lr)))
            s.phases[(f.qn, len([1 for q in s.phases if q[0] == f.qn]))] = (g.where(site), show(snd), show(rcv))
            if w is not None:
                word, side = w
                s.bad(f, None, "wire-mismatch|%d" % [i for i, k in enumerate(sorted(byp, key=lambda q: s.order(q)))
                      if k == p][0],
                      "phase opened at %s: %s accepts [%s] but %s does not" %
                      (g.where(site), "the sender" if side == 0 else "the receiver", " ".join(map(symtxt, word)), "the receiver" if side == 0 else "the sender"))
            elif s.comparable(p):
                s.marks = True
                w = difference(determinize(star(s.empty_ok(s.nfa([d for _, d in sa], edges, 'P'), p))), determinize(s.empty_ok(s.nfa([d for _, d in ra], edges, ('R', 'Q', 'M')), p)))
                s.marks = False; s.stats["counted groups compared"] += len(s.nmarks[p][0])
                if w is not None:
                    s.bad(f, None, "counted-group", "phase opened at %s: %s accepts [%s] (<.> mark counted groups and their elements) but %s does not: a counted group or element is left out on one side" %
                          (g.where(site), "the sender" if w[1] == 0 else "the receiver", " ".join(map(symtxt, w[0])), "the receiver" if w[1] == 0 else "the sender"))

    def appended(s, starts, edges):
        """every item received is only put at the end of a list"""
        seen = set(starts); st = list(starts); sites = set()
        while st:
            c = st.pop()
            for lab, d in edges[c]:
                if lab and lab[0] == "sym" and len(lab) == 3: sites.add(lab[2])
                if d is not None and d[1] in ('R', 'Q', 'M') and d not in seen: seen.add(d); st.append(d)
        for fid, i in sites:
            f = s.P.funcs[fid]; z = f.nodes[f.strip(f.args(f.nodes[i])[0])]
            if z["k"] == "UnaryOperator" and z["op"] == "&": z = f.nodes[f.strip(z["c"][0])]
            if z["k"] != "DeclRefExpr" or f.vars.get(z["d"], {}).get("ct", "").endswith(("*", "]")): return False
            for x in f.nodes:
                if x is None or x["k"] != "DeclRefExpr" or x["d"] != z["d"] or x["i"] == z["i"]: continue
                q = f.parent.get(x["i"])
                while q is not None and f.nodes[q]["k"] not in tuple(CALLS) + ("BinaryOperator", "UnaryOperator", "DeclStmt"): q = f.parent.get(q)
                y = f.nodes[q] if q is not None else None
                if y is not None and y["k"] in CALLS and (y.get("qn") in ph.UNPACK): continue
                if y is None or y["k"] not in CALLS or y.get("n") not in ("push_back", "emplace_back"): return False
        return True

    withmarks = False
    pairs = None      # {(pack site, unpack site): phase} when alignment is asked for

    def align(s, p, sa, ra, edges):
        """which unpacked item is which packed item: the two automata walked together"""
        if s.pairs is None: return
        s.withmarks = s.comparable(p)
        a = s.sited(sa, edges, ('P',), True); b = s.sited(ra, edges, ('R', 'Q', 'M'), False)
        s.lockstep(p, a, b)

    def sited(s, starts, edges, states, star):
        E = defaultdict(list); acc = set(); seen = {0}; wl = []
        def go(c):
            if c not in seen: seen.add(c); wl.append(c)
            return c
        for d in starts: E[0].append((None, go(d)))
        while wl:
            c = wl.pop()
            for lab, d in edges[c]:
                if d is None or (states is not None and d[1] not in states):
                    if lab is None or lab[0] in ("send", "exit", "end") or d is None or states is not None: acc.add(c)
                    continue
                go(d)
                if lab and lab[0] == "sym":
                    y = [z for z in lab[1] if z[0] != "mark" or s.withmarks]
                    cur = c
                    for k, z in enumerate(y):
                        n = d if k == len(y) - 1 else ("t", c, id(lab), k)
                        if len(z) == 3:
                            m, m2 = ("t", c, id(lab), k, "m"), ("t", c, id(lab), k, "e"); M = lambda q: (("mark", q), None) if s.withmarks else None
                            E[cur].append((M("<"), m)); E[m].append(((z[:1], lab[2]), m2)); E[m2].append((M("."), m)); E[m].append((M(">"), n))
                        else: E[cur].append((((z[:1] if z[0] != "mark" else z[:2]), lab[2] if len(lab) == 3 else None), n))
                        cur = n
                    if not y: E[c].append((None, d))
                else: E[c].append((None, d))
        if star:
            for c in acc: E[c].append((None, 0))
        return E, acc

    def lockstep(s, p, a, b):
        (E, A), (F, B) = a, b
        q = deque([(0, 0)]); seen = {(0, 0)}; rev = defaultdict(list); found = []
        while q:
            u, v = q.popleft()
            nxt = [((n, v), None) for l, n in E.get(u, ()) if l is None] + [((u, n), None) for l, n in F.get(v, ()) if l is None]
            for l, n in E.get(u, ()):
                if l is None: continue
                for m, k in F.get(v, ()):
                    if m is not None and m[0] == l[0]: nxt.append(((n, k), (l[1], m[1])))
            for t, pr in nxt:
                rev[t].append((u, v))
                if pr: found.append(((u, v), pr, t))
                if t not in seen: seen.add(t); q.append(t)
        good = {t for t in seen if t[0] in A and t[1] in B}; st = list(good)
        while st:
            t = st.pop()
            for u in rev[t]:
                if u not in good: good.add(u); st.append(u)
        for u, pr, t in found:
            if t in good and pr[0] and pr[1]: s.pairs.setdefault(pr, p)

    def comparable(s, p):
        m = s.nmarks.get(p)
        return bool(m) and len(m[0]) == len(m[1])

    def empty_ok(s, N, p):
        """where a group is left out exactly when its count is zero, an empty group and none are the same"""
        if p not in s.noguard: return N
        st, E, acc = N; E2 = defaultdict(list)
        for k, v in E.items(): E2[k] = list(v)
        def clo(a):
            S = {a}; w = [a]
            while w:
                for l, d in E.get(w.pop(), ()):
                    if l is None and d not in S: S.add(d); w.append(d)
            return S
        for a, v in E.items():
            for l, m in v:
                if l == ("<",):
                    for q in clo(m):
                        for l2, n in E.get(q, ()):
                            if l2 == (">",): E2[a].append((None, n))
        return st, E2, acc

    def cmp_links(s, f, where, p):
        l = s.links.get(p)
        if not l: return
        s.stats["counted transfers"] += len(l[0]) + len(l[1])
        a = sorted((o or 0) for _, o, _ in l[0]); b = sorted((o or 0) for _, o, _ in l[1])
        if p != "file": a = [o for o in a if o]; b = [o for o in b if o]      # loops over records have no count in the message
        if len(a) != len(b) or not a: return
        s.stats["count links compared"] += 1
        wa, wb = a.count(0), b.count(0)
        from collections import Counter
        ca, cb = Counter(x for x in a if x), Counter(x for x in b if x)
        if p == "file" and wa and not wb:
            miss = set((cb - ca).elements())
            for wr, g, i, fl in s.unlinked:
                if wr and any(o <= len(fl) and fl[o - 1] for o in miss):
                    s.bad(g, i, "count-value", "the reader takes the number of items of this loop from a stored count, but what is stored is not the number of times the loop runs"); break
        if sum((ca - cb).values()) > wb or sum((cb - ca).values()) > wa:
            s.bad(f, None, "count-item", "transfer at %s: repeated items are counted by items %s before them on the writing side but %s on the reading side" % (where, a, b))

    marks = False

    def add_edges(s, E, n, lab, t):
        if not lab or lab[0] != "sym": E[n].append((None, t)); return
        cur = n
        for k, y in enumerate(lab[1]):
            nxt = ("t", n, k, id(lab)) if k < len(lab[1]) - 1 else t
            if y[0] == "mark": E[cur].append(((y[1],) if s.marks else None, nxt))
            elif len(y) == 3:          # variable-length item
                m, m2 = ("t", n, k, "m", id(lab)), ("t", n, k, "e", id(lab)); M = lambda c: (c,) if s.marks else None
                E[cur].append((M("<"), m)); E[m].append((y[:1], m2)); E[m2].append((M("."), m)); E[m].append((M(">"), nxt))
            else: E[cur].append((y, nxt))
            cur = nxt
        if not lab[1]: E[n].append((None, t))

    def order(s, p):
        return tuple((q[0], -q[1], q[2]) for q in p)

    def nfa(s, starts, edges, states):
        """restrict to configs in `states`; accept = leaving them by send / end"""
        ids = {}; E = defaultdict(list); acc = set(); wl = []
        def idx(c):
            if c not in ids: ids[c] = len(ids) + 1; wl.append(c)
            return ids[c]
        for d in starts: E[0].append((None, idx(d)))
        while wl:
            c = wl.pop(); n = ids[c]
            for lab, d in edges[c]:
                if d is None: continue
                if d[1] not in states:
                    acc.add(n); continue
                s.add_edges(E, n, lab, idx(d))
        return (0, E, acc)


def self_cls(t):
    return {"unsigned long": "u64", "long": "i64", "long long": "i64", "unsigned int": "u32", "int": "i32", "double": "f64", "char": "i8",
            "float": "f32"}.get(t, t)


def symtxt(y):
    return y[0]


def star(N):
    st, E, acc = N
    E2 = defaultdict(list)
    for k, v in E.items(): E2[k] = list(v)
    for a in acc: E2[a].append((None, st))
    return (st, E2, set(acc) | {st})


def determinize(N):
    st, E, acc = N
    def clo(S):
        S = set(S); w = list(S)
        while w:
            a = w.pop()
            for l, d in E.get(a, ()):
                if l is None and d not in S: S.add(d); w.append(d)
        return frozenset(S)
    s0 = clo({st}); ids = {s0: 0}; D = {}; A = set(); wl = [s0]
    while wl:
        S = wl.pop(); n = ids[S]; D[n] = {}
        if S & acc: A.add(n)
        m = defaultdict(set)
        for a in S:
            for l, d in E.get(a, ()):
                if l is not None: m[l].add(d)
        for l, T in m.items():
            T = clo(T)
            if T not in ids: ids[T] = len(ids); wl.append(T)
            D[n][l] = ids[T]
    return (0, D, A)


def difference(A, B):
    """shortest word accepted by exactly one of the two DFAs"""
    q = deque([((A[0], B[0]), ())]); seen = {(A[0], B[0])}
    while q:
        (a, b), w = q.popleft()
        aa = a in A[2] if a is not None else False; bb = b in B[2] if b is not None else False
        if aa != bb: return w, (0 if aa else 1)
        ls = set(A[1].get(a, {})) | set(B[1].get(b, {}))
        for l in sorted(ls, key=str):
            n = (A[1].get(a, {}).get(l) if a is not None else None, B[1].get(b, {}).get(l) if b is not None else None)
            if n not in seen: seen.add(n); q.append((n, w + (l,)))
    return None


def show(N):
    d = determinize(N)
    return {n: {symtxt(l): t for l, t in m.items()} for n, m in d[1].items()}


def refs(f, i):
    out = set(); st = [i]
    while st:
        j = st.pop()
        if j is None or j < 0: continue
        x = f.nodes[j]
        if x["k"] == "DeclRefExpr": out.add(x["d"])
        st += x["c"]
    return out


def trip(f, h):
    """number of iterations of a counting loop as a key over fields, globals and constants; None if not recognised"""
    body = loops(f)[h]
    exits = [b for b in body if any(y not in body for y in f.succ()[b])]
    if len(exits) != 1: return None
    c = ph.cond_of(f, exits[0])
    if c is None: return None
    x = f.nodes[c]
    if x["k"] != "BinaryOperator" or x["op"] not in ("<", ">", "!=", "<=", ">="): return None
    a, b = f.strip(x["c"][0]), f.strip(x["c"][1]); op = x["op"]
    if op in (">", ">="): a, b, op = b, a, {">": "<", ">=": "<="}[op]
    v = f.nodes[a]
    if v["k"] != "DeclRefExpr" or not v["d"].startswith("%"):
        if op != "!=": return None
        a, b = b, a; v = f.nodes[a]
        if v["k"] != "DeclRefExpr": return None
    u = var_uses(f).get(v["d"], [])
    starts = [z[1] for z in u if z[0] == "def" and block_of(f).get(z[2]) not in body]
    incs = [z for z in u if block_of(f).get(z[2]) in body]
    if any(z[0] == "esc" for z in u): return None
    if len(starts) != 1 or starts[0] is None or len(incs) != 1 or incs[0][0] != "mod": return None
    n = f.nodes[incs[0][2]]
    if not (n["k"] == "UnaryOperator" and n["op"] == "++"): return None
    s0 = f.nodes[f.strip(starts[0])].get("cv")
    if s0 is None: return None
    k = rkey(f, b)
    if "%" in k: return None
    return "%s%s%s" % (k, "+1" if op == "<=" else "", "-%d" % s0 if s0 else "")


def dead(f, b):
    """does the block only lead to a throw or a call that does not return?"""
    seen = set()
    while b not in seen:
        seen.add(b)
        if any(isinstance(e, int) and f.nodes[e]["k"] == "CXXThrowExpr" for e in f.elems(b)): return True
        n = f.succ().get(b, [])
        if not n and b != f.exit: return True
        if len(n) != 1: return False
        b = n[0]
    return False


ITER = {"begin0": "numLocalVtxs", "begin1": "numLocalEdges", "beginGhosts": "numGhostVtxs", "pins": "degree", "edges": "degree*"}


def trips(f, h):
    """candidate keys (fid, expr) for the number of iterations of a counted loop in f"""
    out = []
    body = loops(f)[h]
    exits = [b for b in body if any(y not in body for y in f.succ()[b])]
    for b in exits:
        c = ph.cond_of(f, b)
        if c is None: continue
        x = f.nodes[c]
        # for (i = 0; i < n; i++)
        if x["k"] == "BinaryOperator" and x["op"] in ("<", ">", "!=", "<=", ">="):
            a, e = f.strip(x["c"][0]), f.strip(x["c"][1]); op = x["op"]
            if op in (">", ">="): a, e, op = e, a, {">": "<", ">=": "<="}[op]
            v = f.nodes[a]
            if v["k"] == "DeclRefExpr" and v["d"].startswith("%"):
                u = var_uses(f).get(v["d"], [])
                starts = [z[1] for z in u if z[0] == "def" and block_of(f).get(z[2]) not in body]
                incs = [z for z in u if block_of(f).get(z[2]) in body and z[0] != "esc"]
                if len(starts) == 1 and starts[0] is not None and (f.nodes[f.strip(starts[0])].get("cv"), op) in ((0, "<"), (0, "!="), (1, "<=")) \
                   and len(incs) == 1 and incs[0][0] == "mod" and f.nodes[incs[0][2]].get("op") == "++":
                    out += [(f.id, f.key(e)), (f.id, rkey(f, e))]
        # for (it = c.begin(); it != c.end(); it++)
        if x["k"] == "CXXOperatorCallExpr" and x.get("n") in ("operator!=",):
            for y in x["c"][1:]:
                z = f.nodes[f.strip(y)]
                if z["k"] in CALLS and z.get("n") in ("end", "cend"):
                    out.append((f.id, rkey(f, f.obj(z)) + ".size()"))
        # while ((x = g->iterate(it)))
        y = x
        if y["k"] == "BinaryOperator" and y["op"] == "=": y = f.nodes[f.strip(y["c"][1])]
        if y["k"] in CALLS and y.get("n") == "iterate" and f.args(y):
            it = f.nodes[f.strip(f.args(y)[0])]
            if it["k"] == "DeclRefExpr":
                d = init_of(f, it["d"])
                z = f.nodes[f.strip(d)] if d is not None else None
                if z is not None and z["k"] in CALLS:
                    a = [rkey(f, q) for q in f.args(z)]
                    o = f.obj(z); o = rkey(f, o) if o is not None else ""
                    if z["n"] == "begin" and not a: out.append((f.id, "%s.numLocalVtxs()" % o))
                    elif z["n"] == "begin" and len(a) == 1: out.append((f.id, "%s.numLocalEdges(%s)" % (o, a[0])))
                    elif z["n"] == "beginGhosts": out.append((f.id, "%s.numGhostVtxs()" % o))
                    elif z["n"] == "pins" and len(a) == 1: out.append((f.id, "%s.degree(%s)" % (o, a[0])))
    return out


class FileWire(Wire):
    """the same comparison for a writer/reader pair of a file format"""
    W = {"pcu_write_unsigneds": "unsigned int", "pcu_write_doubles": "double", "pcu_write": "char", "pcu_write_string": None}
    R = {"pcu_read_unsigneds": "unsigned int", "pcu_read_doubles": "double", "pcu_read": "char", "pcu_read_string": None}
    S0 = 'W'; P0 = "file"

    def __init__(s, P):
        s.P = P; s.ty = ph.Phase(P); s.ops = set(s.W) | set(s.R); s.items = s.ops
        s.viol = {}; s.stats = defaultdict(int); s.phases = {}
        s.rel = s._rel(); s.closed = set(); s.sites = set(); s.varlen = set(); s.extents = set(); s.links = {}; s.sender_used = set()

    def plain(s, f, x, S, know): return [(S, know)]

    def sending(s, S): return s.side == 0

    def op(s, c, f, x, nx):
        stack, S, hist, pid = c; q = x["qn"]
        wr = q in s.W
        if wr != (s.side == 0): s.bad(f, x["i"], "wrong-direction", "%s in the %s path" % (q, "writing" if s.side == 0 else "reading"))
        unit = (s.W if wr else s.R)[q]
        if unit is None: return [(("sym", (("str",),)), nx())]
        a = f.args(x)
        return s.item(f, x, a[1], a[2], unit, wr, hist, nx, "file", S)

    def side_nfa(s, f, side):
        s.side = side
        start, edges, seen = s.explore(f.id)
        ids = {}; E = defaultdict(list); acc = set(); wl = []
        def idx(c):
            if c not in ids: ids[c] = len(ids) + 1; wl.append(c)
            return ids[c]
        E[0].append((None, idx(start)))
        while wl:
            c = wl.pop(); n = ids[c]
            for lab, d in edges[c]:
                if lab == ("exit",): acc.add(n); continue
                s.add_edges(E, n, lab, idx(d))
        s.stats["automaton states"] += len(seen)
        if s.pairs is not None:
            s.withmarks = s.marks
            s.both[side] = s.sited([start], edges, None, False)
        return (0, E, acc)

    both = None; withmarks = False; unlinked = (); flagw = {}; fork = {}

    def cval(s, f, c, know, v, depth=0):
        """truth of a condition on a flag that was read"""
        if not s.fork or depth > 4: return v
        k = dict(p for p in know if isinstance(p[0], tuple) and p[0][0] == "v")
        def num(i):
            i = f.strip(i); x = f.nodes[i]
            if x.get("cv") is not None: return x["cv"]
            if x["k"] == "DeclRefExpr":
                if ("v", x["d"]) in k: return k[("v", x["d"])]
                d = single_def(f, x["d"]) if x["d"].startswith("%") else None
                return s.cval(f, d, know, None, depth + 1) if d is not None else None
            if x["k"] == "UnaryOperator" and x["op"] == "!":
                a = num(x["c"][0]); return None if a is None else int(not a)
            if x["k"] == "BinaryOperator" and x["op"] in ("==", "!=", "<", ">", "<=", ">="):
                a, b = num(x["c"][0]), num(x["c"][1])
                if a is None or b is None: return None
                return int({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[x["op"]])
            return None
        a = num(c)
        return v if a is None else a if depth else int(bool(a))

    def item(s, f, x, buf, size, unit, pk, hist, nx, pid, S):
        syms, h2 = s.symbol(f, x, buf, size, unit, pk, hist, pid, S); site = (f.id, x["i"])
        if site in s.flagw: return [(("sym", (("%s=%s" % (syms[0][0], s.flagw[site]),),), site), nx(S, h=h2))]
        if site in s.fork:
            d, vals = s.fork[site]; out = []
            for v in vals:
                c = nx(S, h=h2); t = c[0][-1]
                out.append((("sym", (("%s=%s" % (syms[0][0], v),),), site), (c[0][:-1] + (t[:3] + (frozenset(p for p in t[3] if p[0] != ("v", d)) | {(("v", d), v)},) + t[4:],),) + c[1:]))
            return out
        return [(("sym", tuple(syms), site), nx(S, h=h2))]

    def flags(s):
        """flags: items that are always one of a few constants when written and decide about what is read next"""
        W = defaultdict(set)
        for a, b in s.pairs: W[b].add(a)
        def var(site):
            f = s.P.funcs[site[0]]; z = f.nodes[f.strip(f.args(f.nodes[site[1]])[1])]
            if z["k"] == "UnaryOperator" and z["op"] == "&": z = f.nodes[f.strip(z["c"][0])]
            return f, (z["d"] if z["k"] == "DeclRefExpr" and z["d"].startswith("%") else None)
        def const(site):
            f, d = var(site)
            if d is None: return None
            u = [q for q in var_uses(f).get(d, []) if q[0] in ("def", "mod") and not (q[0] == "def" and q[1] is None)]
            return f.nodes[f.strip(u[0][1])].get("cv") if len(u) == 1 and u[0][0] == "def" else None
        for b, ws in W.items():
            vs = {const(a) for a in ws}
            if None in vs or any({q for q in W if a in W[q]} != {b} for a in ws): continue
            f, d = var(b)
            if d is None: continue
            if not any(d in refs(f, c) for c in (ph.cond_of(f, z) for z in f.succ() if len(f.succ()[z]) == 2) if c is not None): continue
            if any(d in refs(f, c) for c in (ph.cond_of(f, z) for z in f.succ() if len(f.succ()[z]) > 2) if c is not None): continue
            for a in ws: s.flagw[a] = const(a)
            s.fork[b] = (d, sorted(vs))

    def pair(s, w, r):
        s.unlinked = []
        s.both = {}
        s.links = {}; s.marked = set(); s.nmarks = {}; s.noguard = set(); s.marks = False
        a = s.side_nfa(w, 0); b = s.side_nfa(r, 1)
        d = difference(determinize(a), determinize(b))
        s.stats["writer/reader pairs"] += 1
        if d is not None:
            word, side = d
            s.bad(r, None, "wire-mismatch", "%s [%s] but %s does not" % (("%s writes" % w.qn) if side == 0 else ("%s expects" % r.qn),
                  " ".join(map(symtxt, word)), r.qn if side == 0 else w.qn))
        elif s.comparable("file"):
            s.marks = True
            d = difference(determinize(s.empty_ok(s.side_nfa(w, 0), "file")), determinize(s.empty_ok(s.side_nfa(r, 1), "file")))
            s.marks = False; s.stats["counted groups compared"] += len(s.nmarks["file"][0])
            if d is not None:
                s.bad(r, None, "counted-group", "%s [%s] (<.> mark counted groups and their elements) but %s does not: a counted group or element is left out on one side" %
                      (("%s writes" % w.qn) if d[1] == 0 else ("%s expects" % r.qn), " ".join(map(symtxt, d[0])), r.qn if d[1] == 0 else w.qn))
        if d is None:
            keep = s.pairs; s.pairs = {}; s.flagw = {}; s.fork = {}
            s.marks = s.comparable("file"); s.side_nfa(w, 0); s.side_nfa(r, 1)
            s.lockstep("file", s.both[0], s.both[1]); s.flags()
            if s.fork:
                d = difference(determinize(s.empty_ok(s.side_nfa(w, 0), "file")), determinize(s.empty_ok(s.side_nfa(r, 1), "file")))
                s.stats["flags compared"] += len(s.fork)
                if d is not None:
                    s.bad(r, None, "flag", "%s [%s] (=: value of a flag) but %s does not: an optional part does not follow its flag" %
                          (("%s writes" % w.qn) if d[1] == 0 else ("%s expects" % r.qn), " ".join(map(symtxt, d[0])), r.qn if d[1] == 0 else w.qn))
            s.marks = False; s.flagw = {}; s.fork = {}
            if keep is not None: keep.update(s.pairs)
            s.pairs = keep
        s.phases[(w.qn, r.qn)] = ("", show(a), show(b))
        s.cmp_links(r, "%s/%s" % (w.qn, r.qn), "file")
