# One entry per property: the text for properties.jsonl and, when claimed, the check for MANIFEST.json.
PROPS = []


def P(id, title, statement, over, quant, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                      technique=technique, note=note, na=na, state=state, observe=observe))


P("P01", "Every communication phase is opened, sent and drained, on every path",
  "Every exchange between processes goes through its phases in order on every path through the library: it is opened before anything is packed, "
  "everything is packed before it is sent, and nothing is read except from a message that was just received. After it is sent, it is drained until no message is "
  "left, before the next exchange is opened, a function of the public interface returns, or a collective operation or a communicator change happens. "
  "No path abandons an exchange half way.",
  ["inputs", "schedules", "histories"],
  "all paths of all functions that message, whatever the graph, the number of processes and the order of arrival",
  "The tests run a handful of graphs on one to a few processes; an early return or a skipped drain that needs a particular graph, an empty part or a rare branch "
  "hangs or mixes two exchanges only there.",
  ["agi/agiMigrate.cpp", "agi/agiGhost.cpp", "agi/agiVTK.cpp", "agi/agiTag.h", "partition/Diffusive/src", "partition/Coloring", "interfaces/binGraph.cpp", "pcu/pcu.c"],
  [("phase calls PCU_Comm_Begin/Pack/Send/Receive/Unpack", "pcu/PCU.h"), ("migration exchanges", "agi/agiMigrate.cpp:Ngraph::migrate")],
  "interprocedural typestate analysis over all control-flow paths",
  "Sound for the modelled protocol over all paths of the code outside pcu/ (path conditions other than receive results and constant flags are not used to prune). "
  "Trusts the clang front end, the exporter and the assumption that function-pointer callbacks do not message.")

P("P02", "Receivers unpack exactly what senders pack",
  "In every exchange between processes, the receiving side reads from each message exactly the sequence of items the sending side put into it: the same items, of the "
  "same size and type, the same number of times, to the last byte. All items of one record go to the same destination process.",
  ["inputs", "schedules", "histories"],
  "all record sequences any path of the sending code can produce, for every graph, plan and number of processes",
  "A mismatch in an optional or repeated item shows only for graphs that have it (coordinates, several edge types, ghosts, empty lists) and then corrupts silently; "
  "the tests hold a few fixed graphs.",
  ["agi/agiMigrate.cpp", "agi/agiVTK.cpp", "agi/agiTag.h", "agi/agiVertex.cpp", "partition/Diffusive/src", "partition/Coloring", "interfaces/binGraph.cpp"],
  [("record writers and readers", "agi/agiMigrate.cpp:sendVertex/recvVertex, sendEdges/recvEdges"), ("PCU_COMM_PACK / PCU_COMM_UNPACK", "pcu/PCU.h")],
  "static comparison of the message languages of packing and unpacking code (automata over item types from the control-flow graphs)",
  "Decides equality of the item languages of each phase with lengths linked to the items that carry them. Assumes a record's length item equals the container it is taken from, "
  "which is also checked syntactically.")

P("P03", "The graph-file reader consumes exactly what the writer produces",
  "Loading a saved graph reads, for every graph that can be saved, exactly the sequence of items that saving wrote: the same item types in the same order, with every repeated "
  "group repeated as often as the count stored before it says. Optional parts are read exactly when they were written.",
  ["inputs"],
  "all graphs (any number of edge types, ghosts, pins, optional coordinates and edge weights) in both graph modes",
  "Round-trip tests load a few graphs; a field that is read out of order or a count taken from the wrong quantity needs a graph with that feature.",
  ["agi/agiIO.cpp", "pcu/pcu_io.c"],
  [("writer", "agi/agiIO.cpp:Ngraph::saveToFile"), ("reader", "agi/agiIO.cpp:Ngraph::loadFromFile")],
  "static comparison of the item languages of file writer and reader (inlined control-flow automata)",
  "Decides equality of item languages and of the quantities that bound repeated groups. The item encodings of pcu_io itself are compared by their sizes.")

P("P04", "Heap objects, iterators and file handles are released exactly once",
  "Every heap object, graph iterator, migration plan and file handle that the library obtains is released on every path, is released only once, is released in the form that "
  "matches how it was obtained, and is not used after its release. This includes error returns and early exits, and objects kept in fields and containers: the owner's destructor "
  "gives up every field, a field is not refilled while it holds something, and the elements of a container are released before the container ends.",
  ["inputs", "histories"],
  "all paths of all functions of the library",
  "Leaks and double releases on early returns, rare branches and error paths need the failing input; the tests run neither leak checking nor the error paths.",
  ["agi", "partition", "interfaces", "support", "pcu"],
  [("iterator release", "agi/ngraph.h:Ngraph::destroy"), ("plans consumed by migration", "agi/agiMigrate.cpp:Ngraph::migrate")],
  "interprocedural ownership typestate analysis with per-outcome function summaries",
  "Path-sensitive in null tests and in repeated tests of unmodified values; fields by a per-object typestate and a destructor rule, containers by a release loop on every path. Throwing paths are not charged.")

P("P09", "The Fortran and C interfaces hand every argument to the library unchanged",
  "Every procedure of the Fortran interface agrees with the C function behind it: the number, order, width, intent and array lengths of its arguments, the result, and the "
  "values of the shared constants. Each C interface function uses every argument on every path, walks each array by the length its caller gives for it, element by element and in order, and hands each argument, unchanged, to the place "
  "in the library the argument is named for; what it gives back to the caller is what the library answered. All this holds for both widths of local ids.",
  ["inputs"],
  "every call a Fortran or C program can make through the interface, for both build configurations of the local id width",
  "Linking checks no types across Fortran and C, and no test calls the interface from Fortran; a narrowed, swapped or wrongly sized argument goes through silently.",
  ["ftn/engpar.f90", "interfaces/cengpar.h", "interfaces/cengpar.cpp", "agi/agi_types.h", "partition/Multilevel/engpar_split.cpp"],
  [("Fortran bindings", "ftn/engpar.f90"), ("C functions", "interfaces/cengpar.cpp")],
  "cross-language signature comparison plus argument-flow queries on the typed syntax tree",
  "Decides agreement for all interface procedures in both id-width configurations. Two equally typed parameters are told apart by their names only.")

P("P10", "Log entries are closed on every path",
  "Every function that enters the log leaves it on every path, exactly once and in order, whatever early return it takes. A function that finds the log closed neither writes "
  "to it nor changes the nesting depth. Entering deepens the log by one and leaving takes one back, the log counts as open from when it was opened until it was closed, opening starts at depth zero, and closing "
  "closes the file once.",
  ["inputs", "histories"],
  "all paths of all logging functions, with the log open and with the log closed",
  "Early returns that skip the closing entry are taken by inputs the tests do not use, and an unbalanced depth only misindents or crashes later entries.",
  ["support/engpar_log.cpp", "support/engpar_message.cpp", "agi", "interfaces", "partition"],
  [("log entry and exit", "support/engpar_log.cpp:EnGPar_Log_Function/EnGPar_End_Function")],
  "interprocedural typestate analysis (log open, depth) over all paths",
  "Sound over all control-flow paths for the modelled state. Throwing paths are not charged; the log is assumed not to be opened or closed inside a logged function.")

P("P13", "Reductions and transfers treat every element with its own type and operation",
  "Every reduction, scan and raw transfer between processes combines or moves all the elements it is given, each as the type the element has, with the operation its name "
  "promises: sums add, maxima and minima compare in the order of the type (signed values as signed), exclusive scans exclude exactly the caller's own contribution, and a "
  "quantity presented or returned as a maximum, minimum, sum, average or imbalance is computed as one, over all processes (an average is the sum over the number of processes, an imbalance the maximum over the average), "
  "all the statistics printed on one line being of the same quantity.",
  ["inputs", "schedules"],
  "all values (including negative and larger than 32 bits) and any number of elements and processes",
  "Wrong element types or operations agree with the right ones for the small positive values and few processes the tests use.",
  ["pcu/pcu.c", "pcu/pcu_coll.c", "pcu/pcu_coll.h", "agi/agiConstruct.cpp", "partition/Metrics/engpar_metrics.cpp", "partition/Diffusive/src/engpar_balancer.cpp", "partition/Multilevel"],
  [("reductions", "pcu/pcu.c:PCU_Add_*/PCU_Min_*/PCU_Max_*/PCU_Exscan_*"), ("merge functions", "pcu/pcu_coll.c:pcu_merge_*"), ("metrics", "partition/Metrics/engpar_metrics.cpp")],
  "typed queries over the syntax tree: buffer type against datatype and operator, operation against name, loop bounds",
  "Decides types, operations, element counts and delegation of every reduction site. Assumes MPI itself and the collective message pattern of pcu_coll.c deliver each contribution once.")

P("P14", "No field or variable is read before it has been given a value",
  "Every object is fully initialised: a field that some operation can read before writing it has a definite value as soon as any of the class's constructors returns, and no "
  "constructor or function reads a field or local variable that has not been given a value on some path to the read. Likewise the elements of a newly allocated array and the values of a newly made tag "
  "are given before any of them is read, handed on or kept, and no element is left out.",
  ["inputs", "histories"],
  "all constructors, all orders in which the operations of an object may be called, all paths to a local read",
  "Undefined values are often zero by accident in a small test process; whether they are read depends on the order of calls and on rare branches.",
  ["agi/ngraph.h", "agi/pngraph.h", "agi/agiConstruct.cpp", "agi/agiMigration.cpp", "partition", "interfaces"],
  [("graph constructor", "agi/agiConstruct.cpp:Ngraph::Ngraph"), ("inputs", "partition/Diffusive/engpar_diffusive_input.cpp")],
  "definite-assignment dataflow over constructors, methods and locals",
  "Covers fields of arithmetic, enumeration, pointer and communicator type, array fields of constant size, scalar locals, arrays from new[] and tags. A local read counts as a violation "
  "when some path from its declaration reaches it without an assignment, up to correlated branches on unmodified values. Of an array, elements stored at data-dependent places are taken as given; "
  "loops that fill are taken to run.")

P("P15", "What may be missing is tested before it is used",
  "Wherever an operation may come back with nothing, the code finds out before it uses the answer: what a search in a table found, the first or next element of a collection or iteration that may have none "
  "left, a file that may not open, an argument the caller may leave out (default null), and the result of any function that answers null on some path. On no path is such a value dereferenced, indexed, kept in a "
  "collection, or handed to a function that relies on it, unless that path has established that it is there: found in that same collection, not null, the collection not empty.",
  ["inputs", "histories"],
  "all paths of all functions and all callers, for every graph (empty parts, edges without owned vertices, isolated vertices), every combination of optional arguments and missing files",
  "The tests use well-filled graphs, give the same optional arguments and always find their files; the element that is not there occurs with empty parts, partially connected graphs and mistyped names.",
  ["agi", "partition", "interfaces", "support"],
  [("tables of vertices", "agi/agiConstruct.cpp:Ngraph::constructEdges"), ("iteration", "agi/agiIterate.cpp:Ngraph::iterate"), ("selection", "partition/Diffusive/src/engpar_selector.cpp"),
   ("weights sent", "agi/agiWeightMigration.cpp"), ("graph files", "interfaces/binGraph.cpp:binGraph::binGraph"), ("VTK files", "agi/agiVTK.cpp:writeVTK")],
  "forward typestate over every control-flow graph (missing / tested facts), with interprocedural summaries of which functions may answer null and which arguments they rely on",
  "Covers iterators, pointers and file streams held in locals, parameters and directly used results. Branches on unrelated values are not correlated, except that an iteration advanced as often as the degree says always yields an "
  "element, and a const getter that only looks up its argument is taken to be asked for keys that are there.")

P("P16", "Collective operations are entered by all processes or by none",
  "Whether a process opens or sends an exchange, takes part in a reduction, scan or barrier, or splits or switches a communicator never depends on something only that process "
  "knows (its rank, its share of the graph, its weights, what it received, its clock): such values decide about a collective operation only after they were combined over all "
  "processes. An operation restricted to a smaller communicator is entered exactly by its members.",
  ["inputs", "schedules", "histories"],
  "all call sites of collective operations, for any number of processes and any distribution of the graph, including empty parts",
  "A process that skips or adds a collective hangs the job only for particular distributions: an empty part, a part without coordinates, an unbalanced clock; the tests run few "
  "processes on well-filled parts.",
  ["agi", "partition", "interfaces", "support"],
  [("validity check", "agi/agiValid.cpp:Ngraph/checkValidity"), ("migration exchange", "agi/agiMigrate.cpp"), ("balancing loop", "partition/Diffusive/src/engpar_balancer.cpp:Balancer::balance"),
   ("splitting", "partition/Multilevel/engpar_split.cpp")],
  "interprocedural taint analysis with control dependence (values that may differ between processes against collective call sites)",
  "Decides every collective site outside pcu/. Assumes the number of edge types and the graph mode agree on all processes, and scalar configuration passed to public entry points is the same everywhere.")

P("P18", "What a message says is applied to what the message names",
  "Every value received in a neighbour exchange takes effect: no part of a message is read and dropped, and each element of an array in it counts for itself. It is recorded under something the message itself determines (the id it carries, the "
  "sender, or its place in the order of arrival), never in one fixed place where the messages overwrite each other, and never from a variable that still holds an earlier message. Where the message holds ids of both "
  "sides, the receiver looks up the one it was addressed by; an answer goes to the part that asked, about what it asked.",
  ["inputs", "histories"],
  "all handlers of received messages and the helpers they call, for any number and order of messages",
  "With one neighbour, one shared entity or equal values a misdirected update looks right; the tests' graphs rarely have several messages whose contents differ in the right way.",
  ["agi", "partition", "interfaces"],
  [("weight migration", "agi/agiWeightMigrate.cpp:Ngraph/migrate"), ("ghost owners", "agi/agiMigrate.cpp:Ngraph/updateGhostOwners"), ("ghost tags", "agi/agiTag.cpp:Ngraph/createIntGhostTag"),
   ("capacities", "partition/Diffusive/src/engpar_selector.cpp:Selector::gatherCapacities"), ("ghost coordinates", "agi/agiVTK.cpp")],
  "per-handler dependence analysis (which items of the message the key and the value of each effect depend on), with packed and unpacked items aligned by the exchange automata of P02",
  "Decides every receive loop outside pcu/. Messages of one exchange are taken to arrive in the order of their senders, PCU's default, so positional pairing across exchanges is accepted. Which attribute a value stands for is P06's concern.")

P("P20", "Lists that describe the same things stay in step, entry by entry",
  "Lists and arrays that describe one set of things entry by entry (vertices with weights and original owners; edges with weights and degrees; duplicate ghosts with owners; priorities with tolerances; balanced "
  "dimensions with weights, peer edges and available space; timers with counts) grow together: on every path an entry is added to all of them or to none. An entry is filed under its position and read back there: in a "
  "loop over the entries each list is read and written at the entry at hand, not at one fixed entry, and what is computed per entry depends on it. Entries added together are about the same vertex or edge, and all entries of a list answer the same question about theirs.",
  ["inputs", "histories"],
  "all lists grown or read by position in the library, related through common indices, allocation lengths, calls and kept pointers",
  "Lists out of step show only in graphs where the skipped case happens (several balanced dimensions, vertices kept and received in one migration, degenerate edges); with one entry or equal values everything looks right.",
  ["agi", "partition", "interfaces"],
  [("received vertices", "agi/agiMigrate.cpp:Ngraph/recvVertex"), ("kept edges", "agi/agiMigrate.cpp:addEdges"), ("balanced dimensions", "partition/Diffusive/src/engpar_balancer.cpp:Balancer/balance"),
   ("trim", "partition/Diffusive/src/engpar_selector.cpp:Selector/trim"), ("duplicate ghosts", "interfaces/binGraph.cpp:binGraph/migrate"), ("timers", "agi/agiMigrationTimers.cpp:MigrationTimers/addTimer"), ("priorities", "partition/Diffusive/engpar_diffusive_input.cpp:DiffusiveInput/addPriority")],
  "a relation 'describes the same things' inferred from indices, allocations, calls and fields; a difference-counting dataflow over one round of growth; position and origin rules on entries",
  "Growth in other ways than push_back/emplace_back (resize, insert, helpers that fill) is not compared, nor are lists grown in different loops. Order of entries beyond one round, and lists related only by comments, are out of reach.")

P("P23", "Options govern what they are documented to govern, as given",
  "Every option of the input objects takes effect as its documentation says. A parameter of the create functions and setters arrives unchanged in its option on every path; each option reaches code whose result "
  "depends on it. sides_edge_type only determines part boundaries, selection_edge_type what is migrated, connectivityType connectivity; an edge type is not replaced by a constant or by another option. Weights are taken "
  "with countGhosts; no balancing step is run without having passed, since the last one, a test of each iteration limit that counts it, the limit per type counting anew for each dimension; a given tolerance is the one used for its dimension; tolerances, minConnectivity and limitEdgeCutGrowth divide at the documented value "
  "and side; switches alone decide whether what they name is run; defaults are the documented ones. Splitting makes the number of parts asked for, on the communicator of the processes that take part.",
  ["inputs", "histories"],
  "all options of DiffusiveInput, WeightInput and SplitInput and all code reachable from them, for any values",
  "Most options have a default that makes a wrong option look right (edge type 0 everywhere, no ghosts, limits never reached); the tests set few of them and never look at their effect.",
  ["partition", "interfaces"],
  [("diffusive options", "partition/Diffusive/engpar_diffusive_input.h:DiffusiveInput"), ("iteration limits", "partition/Diffusive/src/engpar_balancer.cpp:Balancer/balance"),
   ("thresholds", "partition/Diffusive/src/engpar_selector.cpp:Selector/select"), ("weight options", "partition/Diffusive/src/engpar_weightBalancer.cpp:WeightBalancer"),
   ("creation", "partition/engpar_input.cpp"), ("splitting", "partition/Multilevel/engpar_split.cpp:split")],
  "interprocedural value-origin labels (exact copy or computed from) from options to consumers, role tables from the public headers, typestate of steps against limit tests, and of the PCU communicator in split",
  "Whether the balancer does something sensible with an option's value is not decided. Options of one class are not told apart by object; ColoringInput is only read with Kokkos and is not judged.")

P("P06", "Every id, index and handle is used only as the kind of number it is",
  "A vertex or edge is named in several ways: by local id, by global id, by position among the ghosts, by position in the edge or pin list, by handle. Everywhere in the library "
  "a number of one kind is used only where that kind is meant: it indexes only arrays laid out by its kind, becomes only the handle of its entity, is converted between kinds only by "
  "the mapping that belongs to them, and only names that mean the same on every process (global ids, part ids) are sent to other processes, saved to a file or handed to an outside partitioner (which gets the ids its interface asks for) "
  "to name a vertex or an edge. The numbers of the traversals (edges, positions among the starting edges, sets of edges) are kept apart in the same way.",
  ["inputs", "histories"],
  "all vertices, ghosts, edges and pins of every graph, all edge types, all ways of building and migrating a graph",
  "The kinds are all plain integers, and on small graphs, on one process or before the first migration they coincide (local id = global id, slot = edge id), so a mix-up gives the "
  "right answer in the tests.",
  ["agi", "partition/Diffusive/src", "partition/Coloring", "partition/Multilevel", "interfaces/binGraph.cpp", "zoltan"],
  [("graph arrays and maps", "agi/pngraph.h"), ("id queries", "agi/agiVertex.cpp, agi/agiEdge.cpp"), ("construction and ghosts", "agi/agiConstruct.cpp"), ("migration", "agi/agiMigrate.cpp")],
  "kind inference (unification of index spaces) over the typed syntax tree, through calls, arrays and containers",
  "Judges every expression connected, through any chain of assignments, calls or containers, to a graph field or interface function whose meaning is declared in engine/units.py; "
  "values connected to none are not judged. Flow-sensitive per definition web, not path-sensitive.")

P("P07", "Whatever is done for an edge type uses that edge type's data",
  "A graph holds several types of edges, each with its own edges, pins, degrees, weights and numbering. Every operation that is asked for an edge type, or walks the edge types, "
  "uses the data of exactly that type throughout: the handles, local ids, list positions and iterators it makes belong to that type, queries it makes name that type rather than the "
  "default, and data kept per type is taken from that type's slot. The edge type a caller or an input selects reaches every part of the operation.",
  ["inputs", "histories"],
  "all graphs with any number of edge types, in both graph modes, for every operation that takes or walks edge types",
  "Nearly all test graphs have one edge type, where type 0, the default and the loop variable are the same.",
  ["agi", "partition/Diffusive/src", "partition/Coloring", "partition/Metrics", "partition/Multilevel", "zoltan"],
  [("handles and iterators", "agi/agiIterate.cpp, agi/agiEdge.cpp, agi/agiVertex.cpp"), ("construction", "agi/agiConstruct.cpp"), ("migration", "agi/agiMigrate.cpp"), ("selection and queues", "partition/Diffusive/src")],
  "edge-type inference (unification of type-indexed kinds) with a query for defaulted and fixed type arguments",
  "Two edge types meeting in one value, index, iterator or call are reported, as are defaulted or fixed type arguments where a function has an edge type in use. Edge types held in "
  "an object's field between calls are not followed.")

P("P12", "Global ids and counts keep all their 64 bits",
  "Global vertex and edge ids, and numbers of vertices, edges and pins summed over all processes, are held in 64-bit integers everywhere between where they enter the library and where they "
  "leave it: no assignment, argument, return value, container element, message item, loop counter or sum over processes cuts them to fewer bits. In the build with 64-bit local ids the same "
  "holds for local ids, degrees and local counts. Part ids, edge types and the partitioners' own types are not concerned.",
  ["inputs"],
  "all global ids and counts up to 2^63 (and local ones in the 64-bit local id build)",
  "No test graph has ids or counts near 2^31, so a narrowing never shows in a test; it corrupts graphs at the scale the library exists for.",
  ["agi", "partition", "interfaces"],
  [("id types gid_t and lid_t", "agi/agi.h"), ("global counts", "agi/agiConstruct.cpp:Ngraph::constructGhosts")],
  "width analysis: every conversion of the typed syntax tree, in both builds of the local id type",
  "Every implicit and explicit conversion, pair and container copy, byte move, reduction and counter comparison is examined; exempt are part ids and edge types (by kind inference), the partitioners' types and callbacks, "
  "and binGraph's 32-bit vertex ids. Narrowing through library templates other than pair, map insertion and range copies is not seen.")

P("P05", "Arrays sized by a count are allocated, indexed and copied with that same count",
  "Every array sized by a run-time count (owned vertices, ghosts, edges or pins of a type, edge types, processes, collected sides or weights) is allocated with at least the entries it is used for: one per vertex or edge, one more for offset lists, the last offset for the lists they delimit. "
  "No loop over vertices, ghosts, edges, types or processes and no direct subscript reaches an index past the end or before the start of such an array or vector, whatever the counts are, none of them and zero included. "
  "A walk over an array from one end by such a count leaves neither its first nor its last element out, and the storage of a tag has the entries and the width of the values kept in it. "
  "No copy, message or reduction moves more than the array holds; arrays passed to a construction call are read for exactly the count passed with them; queries about owned vertices do not read past them when given a ghost; a traversal starts only from edges that exist.",
  ["inputs"],
  "all graphs (any number of vertices, ghosts, edges, pins and types, empty parts included) and process counts",
  "An overrun by one entry rarely changes a result, and tests use no empty parts and graphs where different counts often coincide.",
  ["agi", "partition", "interfaces", "pcu"],
  [("construction", "agi/agiConstruct.cpp:Ngraph::constructEdges"), ("adjacency lists", "agi/agiConstruct.cpp:Ngraph::create_eve_adjacency"), ("traversals", "partition/Diffusive/src/engpar_queue.cpp:createDistanceQueue"),
   ("evaluation", "partition/engpar.cpp:evaluatePartition"), ("ParMETIS arrays", "partition/Multilevel/engpar_parmetis.cpp"), ("binary graphs", "interfaces/binGraph.cpp:binGraph::exchange_edges")],
  "symbolic extents over graph counts: reaching definitions, linear forms, guard-derived index bounds, allocation-versus-meaning comparison",
  "Indices read from other arrays or maps, counters of conditional appends, and differences of counts the analysis cannot order give no verdict; they are counted in the evidence.")
P("P08", "Formatted output matches its arguments; fixed-size storage is never overrun",
  "Every formatted message, log line and file record passes exactly the arguments its format converts, each of the width and kind the conversion names, in the builds with 32-bit and with 64-bit local ids; "
  "text that a user supplies is never used as a format. Text composed in a fixed-size buffer fits it for every value, name, number of edge types and number of steps, and is never composed from the buffer it is written to. "
  "Every subscript of an array of fixed size (edge-type slots, coordinates, local tables) stays inside it, and no more bytes or elements are moved from or to such an array or a plain variable than it holds.",
  ["inputs"],
  "all values and counts printed, all names, up to MAX_TYPES edge types, all verbosity levels and log settings",
  "Tests use short names, small numbers and few edge types and do not look at the messages; an overrun of a few bytes usually goes unnoticed.",
  ["agi", "partition", "support", "interfaces", "pcu", "zoltan"],
  [("status output", "agi/agiConstruct.cpp:Ngraph::printStats"), ("imbalance text", "partition/Metrics/engpar_metrics.cpp:getImbalances"), ("step summary", "partition/Diffusive/src/engpar_balancer.cpp:Balancer::balance"),
   ("messages", "support/engpar_message.cpp"), ("VTK files", "agi/agiVTK.cpp")],
  "format-argument typing and buffer-length dataflow (loops bounded, callees summarised), interval bounds of subscripts and amounts",
  "Formats the analysis cannot resolve to literals, and subscripts and lengths without a derivable bound, are listed as undecided and give no verdict. Arrays allocated on the heap are the subject of another property. "
  "Floating-point values are taken to stay below 10^15.")

P("P22", "Nothing of the old graph, edge type or plan survives its replacement",
  "Building a graph in an object that held another replaces everything of it: id maps, per-type lists of all edge types, adjacency derived from them, counts, owners, ghosts, weights, coordinates and the weight partition. Removing an edge type gives up all "
  "that was kept for it, including what was derived from its edges. The vector and the array form of each construction step establish the same state. Clearing or resetting a plan or the ownership returns it to its empty state. "
  "What a query adds to a caller's container is read only where the container was empty before.",
  ["histories", "inputs"],
  "every sequence of building, loading, migrating, removing and querying, on every path of each function",
  "A leftover only shows when an object is used a second time with different contents; the tests build most graphs once, and migrations between similar graphs hide stale entries.",
  ["agi/agiConstruct.cpp", "agi/agiVertex.cpp", "agi/agiMigration.cpp", "agi/agiWeightMigration.cpp", "agi/agiEdge.cpp", "partition"],
  [("construction", "agi/agiConstruct.cpp:Ngraph::constructVerts, constructEdges, constructGhosts"), ("teardown", "agi/agiConstruct.cpp:Ngraph::destroyData"), ("removal", "agi/agiConstruct.cpp:Ngraph::removeEdges"),
   ("plans", "agi/agiWeightMigration.cpp:WeightMigration::clear")],
  "interprocedural must-kill dataflow over object fields, with counted loops over the edge types; comparison of the effects of overloads",
  "Whether a field is refilled with the right values is not decided. Per-type counts are taken to be renewed when the type is built. Ghost weights after setWeights are outside it.")

# -- outside the reach of static analysis here
P("P31", "Migration conserves the graph",
  "After any migration every vertex that existed is owned by exactly one process, the one the plan names; every edge is stored exactly where it has an owned vertex, with all its pins, and every pin that is not owned is a ghost with the right owner.",
  ["inputs", "schedules", "histories"], "all graphs, all plans, any number of processes",
  "The tests migrate a few regular graphs and compare totals.",
  ["agi/agiMigrate.cpp", "agi/agiConstruct.cpp"], [("migration", "agi/agiMigrate.cpp:Ngraph::migrate")],
  na="As a whole it quantifies over the sets of global ids held in hash maps and heap arrays of all processes at once, which no static abstraction in reach relates. Its static parts (exchange phases, record layout, kinds of ids, edge types, attributes that travel together) are P01, P02, P05, P06, P07, P18 and P20.")
P("P32", "Balancing does not make the worst imbalance worse and stops at the tolerance",
  "Every balancing run ends with each prioritised dimension's imbalance below its tolerance or no higher than it was, and never raises a completed dimension above the weight it was completed with.",
  ["inputs", "schedules", "histories"], "all graphs, weights, priorities and tolerances",
  "Quality on the test graphs says nothing about others.",
  ["partition/Diffusive"], [("diffusion", "partition/Diffusive/src/engpar_balancer.cpp:Balancer/balance"), ("trimming", "partition/Diffusive/src/engpar_selector.cpp:Selector/trim")],
  na="The outcome is a numerical property of a heuristic on runtime weights and connectivity; there is no invariant over program text that implies it. What is decided is that limits, tolerances and options govern the steps (P23) and that weights, targets and capacities are combined consistently (P15, P18, P20).")
P("P33", "A loaded graph equals the saved one",
  "Saving a graph and loading it with the same number of processes yields the same vertices, edges, pins, weights, coordinates and owners.",
  ["inputs"], "all graphs that can be saved",
  "Round trips of a few graphs.", ["agi/agiIO.cpp", "pcu/pcu_io.c"], [("file format", "agi/agiIO.cpp:Ngraph::saveToFile/loadFromFile")],
  na="Equality of contents quantifies over values in heap arrays through an external file and a compression layer; the format itself keeps 32 bits of each id (see 'Defects found'). That the reader consumes exactly what the writer produces, with the same counts and kinds, is decided by P03, P05 and P06.")
P("P34", "Iterators visit every entity exactly once",
  "Every iteration over vertices, ghosts, edges of a type, pins, edges of a vertex, neighbours and the vertex-edge-vertex lists returns each entity exactly once and ends.",
  ["inputs", "histories"], "all graphs, in both graph modes",
  "Tests count on a few graphs.", ["agi/agiIterate.cpp", "agi/agiEdge.cpp", "agi/agiVertex.cpp"], [("iterators", "agi/agiIterate.cpp:Ngraph::iterate")],
  na="Which entities are visited is the content of the offset and list arrays built from runtime degrees: monotone offsets and permuted lists are inductive array properties outside the dataflow domains used here. Bounds of every access (P05), kinds of every position (P06), edge types (P07) and release of iterators (P04) are decided.")
P("P35", "The distance queue orders edges by distance from the part's centre",
  "Breadth-first search assigns every edge the length of a shortest path from the seeds, and the distance queue pops edges from the farthest to the nearest, component by component.",
  ["inputs"], "all graphs and seeds", "Tests look at a few grids.",
  ["partition/Diffusive/src/engpar_queue.cpp"], [("search", "partition/Diffusive/src/engpar_queue.cpp:bfs_push, bfs_pull"), ("queue", "partition/Diffusive/src/engpar_queue.cpp:createDistanceQueue")],
  na="Shortest distances and component numbers are fixed points over the runtime adjacency; a proof needs loop invariants over heap arrays, not an analysis of the text. Bounds, kinds and edge types inside the search are decided by P05, P06 and P07.")
P("P36", "Splits meet their tolerance",
  "After a local or global split every part exists and the imbalance of the new partition is within the tolerance given.",
  ["inputs"], "all graphs and part counts", "The result of two external partitioners on two graphs is tested.",
  ["partition/Multilevel"], [("split", "partition/Multilevel/engpar_split.cpp:split")],
  na="The partition is computed by ParMETIS or Zoltan, whose sources are not in the repository; what is handed to them (counts, parts, tolerance, numbering, communicator) is decided by P05, P06 and P23.")
P("P37", "Searches and balancing end",
  "Every search, balancing run and exchange ends after finitely many steps for every graph and every order of message arrival.",
  ["inputs", "schedules"], "all graphs, options and schedules", "Tests that end say nothing about other inputs.",
  ["partition/Diffusive", "agi", "pcu"], [("step loops", "partition/Diffusive/src/engpar_balancer.cpp:Balancer/balance"), ("search", "partition/Diffusive/src/engpar_queue.cpp")],
  na="Termination of the searches rests on labels decreasing in a runtime order, that of the exchanges on the message layer; no ranking function is visible to a syntactic or dataflow argument. Bounded by text and decided: iteration limits are tested before every step (P23), exchanges are drained in order (P01) and collectives are reached by all (P16).")
P("P38", "A colouring gives adjacent entities different colours",
  "After colouring, entities that share what the colouring input names have different colours, on every process and across part boundaries.",
  ["inputs", "schedules"], "all graphs", "Colouring is only compiled with Kokkos, which no test here has.",
  ["partition/Coloring"], [("colouring", "partition/Coloring")],
  na="The colouring kernels are Kokkos code that cannot be parsed here (no Kokkos headers), and the result is a runtime fixed point.")
