import wire, kinds
from p06 import U


def run(P, r, tier):
    w = wire.Wire(P); w.pairs = {}; units = w.run()
    r.need("phases compared", w.stats["phases"], 15)
    r.need("pack/unpack sites", len(w.sites), 50)
    r.need("functions that own phases", len(units), 8)
    r.count("variable-length transfers", len(w.varlen)); r.count("receive arrays checked against the received length", len(w.extents))
    for k in ("automaton states", "destination groups", "counted transfers", "count links compared", "counted groups compared", "record loop counts compared", "homogeneous streams"):
        r.count(k, w.stats[k])
    r.need("items compared by kind", kinds.compare(P, U(P), w.pairs, {"PCU_Comm_Pack": 1, "PCU_Comm_Unpack": 0, "PCU_Comm_Write": 1, "PCU_Comm_Read": 1}, w.bad), 20)
    for k, (a, m) in w.viol.items(): r.bad(k, a, m)
    r.listing["phases"] = sorted("%s: %s" % (k[0], v[0]) for k, v in w.phases.items())
    r.explain = ("for every messaging phase, the item language of the packing side (automaton of the inlined control-flow graph, one letter per "
                 "item type) is determinised and compared with that of the unpacking side; plus element types against sizeof, "
                 "variable lengths against the count item that travels with them, one destination per record, equal trip counts of in-record loops")
    r.assume = ["equality of the languages of item sequences; branch conditions on the two sides are compared only through the languages"]
