"""Do aligned items of a message or a file stand for the same kind of number on both sides?"""
from agx import *
import units


def term(u, f, i):
    """term of the number a transfer call moves from or to the buffer expression i"""
    i = f.strip(i); y = f.nodes[i]
    if f.id not in u.info: return None
    tm, vt = u.info[f.id]
    if y["k"] == "UnaryOperator" and y["op"] == "&":
        z = f.nodes[f.strip(y["c"][0])]
        if z["k"] == "DeclRefExpr" and z["d"] in vt: return vt[z["d"]]
        return tm.get(z["i"])
    t = tm.get(i)
    if t is None and y["k"] == "DeclRefExpr": t = vt.get(y["d"])
    t = units.find(t) if t is not None else None
    return t.a[1] if isinstance(t, units.Con) and t.n == "Arr" else None


def kind(u, f, i):
    t = term(u, f, i)
    if t is None: return None
    t = units.find(t)
    return (t.n, t) if isinstance(t, units.Con) and t.n not in ("Arr", "Map", "Pair", "EH", "VH") else None


def compare(P, u, pairs, ops, bad):
    """pairs: {(write site, read site): phase}; ops: qualified name -> position of the buffer argument"""
    rec = defaultdict(list); n = 0
    for (a, b), ph in pairs.items():
        fa, fb = P.funcs[a[0]], P.funcs[b[0]]
        xa, xb = fa.nodes[a[1]], fb.nodes[b[1]]
        if xa.get("qn") not in ops or xb.get("qn") not in ops: continue
        rec[(ph, fb.id)].append((fa, xa, kind(u, fa, fa.args(xa)[ops[xa["qn"]]]), fb, xb, kind(u, fb, fb.args(xb)[ops[xb["qn"]]])))
    for (ph, _), l in rec.items():
        for fa, xa, ka, fb, xb, kb in l:
            n += 1
            if kb is None: continue
            if ka is not None:
                if ka[0] != kb[0]: bad(fb, xb["i"], "kind", "'%s' takes %s, but %s puts %s there" % (fb.text(xb["i"])[:60], u.show(kb[1]), fa.where(xa["i"]), u.show(ka[1])))
                continue
            mine = {kk[2][0] for kk in l if kk[4] is xb and kk[2] is not None}
            if mine: continue
            for f2, x2, k2, g2, y2, m2 in l:
                if x2 is not xa and k2 is not None and k2[0] == kb[0] and m2 is None and not any(q[4] is y2 and q[5] is not None for q in l) :
                    bad(fb, xb["i"], "kind", "'%s' takes %s, but that is what %s puts into another place of the message, read by '%s'" % (fb.text(xb["i"])[:60], u.show(kb[1]), f2.where(x2["i"]), g2.text(y2["i"])[:60])); break
    return n
