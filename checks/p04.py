import own, hold


def run(P, r, tier):
    o = own.Own(P); o.main()
    for q in sorted(o.over): r.undecided(q, q, "too many ownership states; explored in part")
    r.need("obtaining sites (new, malloc, fopen and calls returning an owned object)", len(o.sites), 200)
    r.need("releasing sites followed", len(o.frees), 120)
    r.count("typestate states explored", o.nstates)
    for k, (w, m) in o.viol.items(): r.bad(k, w, m)
    h = hold.Hold(P, o); h.main()
    for k, (w, m) in h.viol.items(): r.bad("field|" + k, w, m)
    r.need("fields that are handed fresh objects", len(h.fields), 25)
    r.need("sites that release such fields", h.checked["release sites of fields"], 50)
    r.need("places that put fresh objects into containers", len(h.conts), 2)
    r.count("typestate states of fields explored", h.nst)
    r.explain = ("ownership typestate (owned, handed over, released) of every heap object, graph iterator, tag and file handle held in a "
                 "local or parameter, over all paths of all functions; calls are replaced by per-outcome summaries of the callee "
                 "(parameter released / kept / borrowed, result freshly owned), null tests and repeated tests of unmodified values are correlated; "
                 "an object handed to a field is followed into the class: the destructor (with the functions it calls on the object) releases the field on every path "
                 "unless it is null, arrays of them in a loop over the whole array, a field is not given a second object while it holds one, and is not left pointing "
                 "at a released one; an object put into a local container is released element by element on every path to the container's end")
    r.assume = ["elements of array fields start in an unknown state in each function (only definite losses are reported)",
                "for fields of C structures and of classes without a destructor, only the existence and the form of a release are decided",
                "paths that end in a throw are not charged with leaks",
                "library calls outside the repository only borrow, except containers, constructors and assignment operators"]
