prop("C09", "Messages describe the memory they move",
     "Every message exchanged by the distributed library tells MPI exactly the element type and width of the memory it is sent from or received into, whatever the integer width the library was built with. A transfer with a fixed number of elements never exceeds the array it reads or fills.",
     ["inputs", "configurations"], "for every graph, process count and integer width (32-bit and 64-bit builds)",
     "The test suite runs one integer width on one homogeneous machine with few processes, where a wrong type of the same width, or a wrong width in the other build, moves the right bytes.",
     ["src/libscotch/dgraph*.c", "src/libscotch/bdgraph*.c", "src/libscotch/vdgraph*.c", "src/libscotch/kdgraph*.c", "src/libscotch/hdgraph*.c", "src/libscotch/dorder*.c", "src/libscotch/dmapping*.c"],
     ["datatype arguments of every MPI call against the static element type of its buffer", "constant counts against array extents"],
     "type-resolved AST query over every MPI call, in two integer-width configurations",
     "Decides the datatype/element-type agreement of every MPI call site whose buffer has a typed origin; counts that are not constants are not bounded.")
prop("C10", "Graph numbers keep their full width in every configuration",
     "In a build with 64-bit graph numbers, no vertex, edge or weight quantity of the sequential library is ever held in, read through, counted by, formatted as or allocated for a narrower integer, so graphs beyond 2^31 arcs are handled as small ones are. Memory is always sized and copied by the type of the elements stored in it, in both integer widths.",
     ["inputs", "configurations"], "for every graph size, up to what 64-bit numbers address, and both integer widths",
     "The suite is built with 32-bit numbers and its graphs are tiny: a narrowing or wrong element size is invisible until the width or the size changes.",
     ["src/libscotch/*.c", "src/scotch/*.c", "src/libscotch/module.h", "src/libscotch/common_integer.c"],
     ["types of allocation sizes against the pointers that receive them", "conversions from graph numbers to narrower integers that are widened back", "printf/scanf conversions against argument types"],
     "type-resolved AST queries in two integer-width configurations",
     "Decides element-size, format and narrowing agreement at every site; does not bound arithmetic overflow of 64-bit values.")
prop("C16", "Strategy vocabulary matches the code that reads it",
     "Every method and parameter name a strategy string may contain selects the algorithm it names and writes exactly the setting that algorithm reads, with its type; every condition variable reads the quantity it names with its real type. A strategy built for one kind of object is never run on another.",
     ["programs", "configurations"], "for every strategy string a user can write, in both integer widths",
     "The suite parses a few dozen strings; the vocabulary is the product of all methods, parameters, conditions and object kinds.",
     ["src/libscotch/*_st.c", "src/libscotch/parser.c", "src/libscotch/library_*.c"],
     ["method tables, parameter tables and condition tables per object kind", "strategy interpreters", "table checks at the API entries"],
     "cross-table consistency analysis of the initialised strategy tables against the types they describe",
     "Decides agreement of tables, parameter blocks, interpreters and entry guards; the quality of what the methods compute is out of scope.")
prop("C23", "Every built-in strategy is well-formed",
     "For every combination of strategy flags, process and part number, the default-strategy builders produce a string that the strategy grammar accepts, that only uses methods and parameters of the object it is built for, and in which no placeholder is left unsubstituted.",
     ["inputs", "configurations"], "for every flag combination and numeric argument of every default-strategy builder",
     "The suite exercises a handful of flag combinations; a malformed branch shows only under its own combination.",
     ["src/libscotch/library_graph_map.c", "src/libscotch/library_graph_order.c", "src/libscotch/library_mesh_order.c", "src/libscotch/library_dgraph_map.c", "src/libscotch/library_dgraph_order.c", "src/libscotch/library_graph_part_ovl.c"],
     ["string substitution in the strategy builders", "the strategy grammar and method tables"],
     "string-constant propagation through the builders plus a grammar check against the tables",
     "Enumerates the strings of every path through the builders and checks them against the grammar and vocabulary of the current source; strings it could not determine are counted.")

prop("C13", "Results depend on input, options and seed only",
     "What the library computes is a function of the user's data, the strategy, the context's options and its random generator: no clock, environment, address, process-wide random state or (when the deterministic option is set) message-arrival or lock order enters a computation.",
     ["inputs", "schedules", "configurations"], "for every input, thread schedule and message arrival order",
     "A test sees one schedule, one address layout and one clock; a hidden dependence gives results that are valid but differ between runs.",
     ["src/libscotch/context.c", "src/libscotch/common_integer.c", "src/libscotch/*.c"],
     ["calls to ambient sources (clock, environment, generators)", "origin of the random context of every draw", "arrival-order receives and lock-based matching guarded by the deterministic option"],
     "call-graph and value-origin analysis of the compiler's intermediate representation, control dependence on the option",
     "Decides the absence of ambient sources and the guarding of schedule-dependent code; numerical equality across thread counts is not decided.")
prop("C14", "Distinct objects can be used concurrently",
     "Two threads that call the library on distinct objects never share mutable state: the library keeps no process-wide variable that it changes outside a process-wide lock, save its documented settings.",
     ["schedules", "histories"], "for every interleaving of calls and every history of earlier calls",
     "Tests call the library from one thread at a time; a static buffer or cache only shows under a particular interleaving.",
     ["src/libscotch/*.c", "src/esmumps/*.c"], ["every global and static variable", "every write through a pointer to one"],
     "interprocedural mod analysis of globals over the intermediate representation, lock dominance",
     "Decides every global object of the libraries; does not look into the C library.")
prop("C15", "The library leaves the process and the caller's streams alone",
     "Outside the replaceable error handlers, no library call ends the process, prints, changes process-wide settings or files, or closes a stream that it did not open or duplicate itself.",
     ["inputs", "fault_sequences"], "for every input and failure, including out-of-memory paths", "Error paths that print, exit or close a caller's stream are not exercised by the suite.",
     ["src/libscotch/*.c", "src/libscotch/*.l", "src/libscotch/*.y"], ["calls to process-level routines", "origin of every closed stream"],
     "effect analysis over the intermediate representation", "Decides every call site in the libraries.")
prop("C18", "The Fortran interface is the C interface",
     "Every Fortran entry point, under each of its manglings, hands each of its arguments to the C routine's parameter of the same role with the same width, gives the result back, and the Fortran constants equal the C ones.",
     ["inputs", "configurations"], "for every argument value and integer width", "No test calls the Fortran stubs.",
     ["src/libscotch/library_*_f.c", "src/libscotch/library*f.h"], ["argument flow of every stub", "constants of the generated headers"],
     "argument-flow analysis of every stub in two integer-width configurations", "Decides every stub present in the tree.")
prop("C19", "Opaque user objects hold what the library stores in them",
     "Whatever object type a user declares from the public headers is at least as large as the record that the library keeps in it, is always used as that one record, and its Fortran dimension and size and allocation routines agree.",
     ["configurations"], "for every build configuration generated", "An undersized public type corrupts adjacent memory of the user only, in ways the suite's layout hides.",
     ["src/libscotch/library.h", "src/libscotch/dummysizes.c", "src/libscotch/library_*.c"], ["record types used at each public entry", "generated sizes"],
     "type-layout analysis of the generated public headers against the records that the entries use", "Decides every public type in the analysed configurations.")
prop("C21", "Savers write the layout loaders read",
     "For every graph, mesh, mapping, ordering, random state, architecture and domain, the writer emits the same sequence of items, with the same loops and optional parts, as the reader consumes, separates them, and the reader sets every field that the writer saves.",
     ["inputs"], "for every object that can be saved, of every architecture class", "Round trips are tested for a few objects only; most architecture classes and optional arrays are never reloaded.",
     ["src/libscotch/*_io*.c", "src/libscotch/arch_*.c", "src/libscotch/common_integer.c"], ["item sequence of each saver and loader", "fields behind each item"],
     "structural comparison of the item grammars extracted from writer and reader syntax trees", "Decides record layout; equality of run-time contents is N05.")

prop("C17", "Every architecture class honours the architecture contract",
     "Each target architecture class fills every slot of its class table with the routine of its own kind and role, and its domain routines set every field of every domain they hand out before success is returned, describe a domain to MPI with exactly its size, and its constructors set every field of the architecture that its routines read.",
     ["inputs", "configurations"], "for every architecture class, architecture size and domain", "The suite maps onto a few small architectures; most classes, sub-architectures and distributed domain exchanges are never exercised.",
     ["src/libscotch/arch.c", "src/libscotch/arch_*.c", "src/libscotch/arch_*.h"], ["class table archClassTab", "domain routines of each class", "MPI types of domains"],
     "class-table consistency and definite-assignment analysis over the intermediate representation", "Decides slot roles, definite assignment of domains and architecture records and MPI type sizes for every class; the geometry (distances, sizes) is not decided.")
prop("C24", "Any strategy string is either understood or refused",
     "Whatever text is given as a strategy, the parser either builds a well-typed strategy tree or reports an error: it never stores a value in a parameter of another type, loses track of the enclosing method after a nested or erroneous part, reads a tree node as a kind it is not, or lets a condition divide by zero.",
     ["inputs", "programs"], "for every string, and every strategy tree it can yield", "The suite parses a few dozen valid strings; the grammar's error and nested paths are unbounded.",
     ["src/libscotch/parser_yy.y", "src/libscotch/parser_ll.l", "src/libscotch/parser.c", "src/libscotch/*_st.c"], ["grammar actions", "parameter stores", "strategy tree walkers"],
     "typestate analysis of the grammar's actions and tag discipline over the syntax trees", "Decides the grammar's actions and every access to strategy and condition nodes; memory exhaustion in the generated code is out of scope.")

prop("C06", "Threads update shared records under their lock only",
     "Whatever the interleaving, locks are released by every path that takes them, never taken twice by the same thread, and conditions are awaited with their lock held and tested again; every field of a record carrying a lock that concurrent threads write is written, and read in preparation of its update, with that lock held.",
     ["schedules", "fault_sequences"], "for every interleaving of the threads of a computation and every error path", "A run sees one interleaving, and lost updates of counters seldom change what a test looks at.",
     ["src/libscotch/common_thread.c", "src/libscotch/common_thread_system.c", "src/libscotch/common_memory.c", "src/libscotch/hgraph_order_*.c", "src/libscotch/kgraph_map_rb_part.c", "src/libscotch/wgraph_part_rb.c", "src/libscotch/dmapping.c", "src/libscotch/dorder.c"],
     ["mutex operations", "functions run by threads", "fields of lock-carrying records"],
     "interprocedural lockset dataflow over the intermediate representation", "Decides mutex discipline and the fields of records that carry their own mutex; arrays shared on purpose by disjoint or idempotent writes (matching, diffusion, part arrays), and barrier protocols, are not decided here.")
prop("C08", "Every communication that is started is completed before its buffers go",
     "On every path, each non-blocking or persistent communication that a routine starts is completed, and its request released, before the routine returns or releases or overwrites what the communication uses; datatypes, operators and communicators that a routine creates are freed, and datatypes committed before use.",
     ["schedules", "inputs", "fault_sequences"], "for every message schedule, process count and error path on which MPI itself works", "Small messages are delivered eagerly in tests, hiding requests that nobody completes.",
     ["src/libscotch/dgraph_*.c", "src/libscotch/dmesh_*.c", "src/libscotch/hdgraph_*.c", "src/libscotch/kdgraph_*.c", "src/libscotch/vdgraph_*.c", "src/libscotch/bdgraph_*.c", "src/libscotch/dmapping_*.c", "src/libscotch/dorder_*.c"],
     ["request arrays", "communication buffers", "MPI objects"],
     "path-sensitive typestate dataflow of requests and MPI objects over the intermediate representation", "Request arrays are followed as groups of entries, not index by index; matching of sends with receives is not decided.")

prop("C25", "All processes run the same collective operations",
     "As long as no process meets an error, all the processes of a communicator execute the same collective operations (reductions, broadcasts, gathers, all-to-all exchanges, communicator creation...) on it in the same order, whatever their ranks, their shares of the graph, and the data that they receive: no distributed routine waits forever for a process that took another way.",
     ["schedules", "inputs", "configurations"], "for every process count, distribution of the graph and strategy", "A process that takes another way only does for some distributions, e.g. when it owns no vertex, or no separator vertex.",
     ["src/libscotch/*dgraph*.c", "src/libscotch/dmapping*.c", "src/libscotch/dorder*.c", "src/libscotch/comm.c", "src/libscotchmetis/parmetis_*.c"],
     ["every branch of the distributed routines", "collective operations, direct or through calls", "condition variables of the distributed strategies"],
     "interprocedural uniformity (rank-dependence) dataflow and comparison of collective sequences over the intermediate representation",
     "Quantities named global are taken to be equal on all processes of their graph, and user arguments not named local to be passed equal; the 'rank' strategy condition is meant to differ. Error paths are left out. Matching of point-to-point messages is not decided.")

prop("C07", "Threads of a team meet at the same barriers",
     "All the threads that run a threaded routine (coarsening, matching, diffusion...) meet at the same barriers, reductions and scans, in the same order, whatever their number, their share of the vertices, the values they compute and the memory allocations that fail in some of them only: none waits forever for a thread that has left or taken another way.",
     ["schedules", "fault_sequences", "inputs"], "for every number of threads, share of the data and failing allocation", "A thread that leaves early only does when its own allocation fails or its own share of the data is special.",
     ["src/libscotch/graph_match.c", "src/libscotch/graph_coarsen.c", "src/libscotch/bgraph_bipart_df.c", "src/libscotch/kgraph_map_df.c", "src/libscotch/common_thread.c"],
     ["every branch of the threaded routines", "threadBarrier, threadReduce, threadScan, direct or through calls"],
     "interprocedural thread-dependence dataflow and comparison of barrier sequences over the intermediate representation",
     "A shared variable is taken to be read alike by all threads; that it is not written meanwhile by a faster one is not decided.")

prop("C01", "Memory that the system refuses is never used",
     "Whichever allocation of the libraries fails, in a routine or in any routine that it calls, the pointer that the allocation should have yielded is never read or written through: the routine takes another way out.",
     ["fault_sequences", "inputs"], "for every allocation site and every way of reaching it", "No test makes an allocation fail.",
     ["src/libscotch/*.c", "src/esmumps/*.c", "src/libscotchmetis/*.c", "src/libscotch/common_memory.c"], ["every allocation and its uses, across calls"],
     "path-sensitive interprocedural typestate dataflow over the intermediate representation", "Decides paths on which the engine knows that the allocation failed, in the default configuration, including failures inside callees that hand the null result back; loops are met after a few joins, 'functions_cut_short' counts those with merged states.")
prop("C03", "Memory that a routine allocates is not lost",
     "On every path of every library routine, including the paths taken when an allocation, a read or a called routine fails, each memory block that the routine allocated, or received from a routine that it calls, has been released when the routine returns, "
     "unless it has been stored where its caller, or an object that lives on, can reach it.",
     ["fault_sequences", "inputs", "histories"], "for every path, error paths included", "Tests do not measure memory, and do not take error paths; a leak shows only in long-lived processes.",
     ["src/libscotch/*.c", "src/esmumps/*.c", "src/libscotchmetis/*.c"], ["every allocation and every way out of its function and of those above"],
     "path-sensitive interprocedural typestate dataflow over the intermediate representation", "A block is no longer followed once a routine outside the analysis, or one whose effects are only approximated, may have kept it, nor once it belongs to an object that such a routine was given; failures of MPI calls, which end the program by default, are not considered; dorderGather and dorderGatherTree, whose roles are agreed upon between processes, are left out.")

prop("C04", "Released memory is not touched or released again",
     "On every path of every library routine, including all error paths, a block that the routine, or a routine that it calls, has released is neither accessed nor released a second time.",
     ["fault_sequences", "inputs"], "for every path, error paths included", "Error paths are not exercised by the suite, and a use after release may go unnoticed when they are.",
     ["src/libscotch/*.c", "src/esmumps/*.c", "src/libscotchmetis/*.c"], ["every release and the later uses of the block, across calls"],
     "path-sensitive interprocedural typestate dataflow over the intermediate representation", "Decides blocks whose identity the engine follows through variables, fields and calls.")

prop("C05", "What the caller lends to the library is left as it is",
     "No public routine of the libraries, nor any routine that it calls or hands to a thread, writes into memory that it is given through a pointer to constant data, into the arrays of a graph, mesh or distributed graph that it is given "
     "(vertex, end vertex, vertex load, label, edge and edge load arrays), or into the old mapping or partition that a remapping starts from. Only SCOTCH_graphBase and SCOTCH_meshBase, whose purpose this is, change such arrays.",
     ["inputs", "histories"], "for every public routine, strategy method and input", "A test that does not compare its arrays before and after does not see them change; strategies and weights select which code could change them.",
     ["src/libscotch/library_*.c", "src/libscotchmetis/*.c", "src/libscotch/kgraph_map_*.c", "src/libscotch/hgraph_order_*.c", "src/libscotch/dgraph_*.c"], ["every store, copy and reception of every library routine"],
     "interprocedural access-path effect analysis over the intermediate representation", "Decides writes whose place is reached by at most four pointer steps from a parameter, in the default configuration; a field that a routine has set is taken to hold what was set; METIS_* entry points are decided on the V3 and V5 routines behind them; the default strategy put into an empty strategy, and the random generator of a context, may be changed.")

prop("C11", "Arrays of fixed size are used only within their bounds",
     "Whatever the arguments, numbers, names and files given, no routine of the libraries and programs indexes an array of declared size outside it, copies, formats, scans, sends or receives more into or from such an array than "
     "it holds, or leaves text copied into one unterminated; formats are constants, tables that are scanned up to an empty entry end with one, and the result of a text search is not used when nothing was found.",
     ["inputs"], "for every argument, file content and history", "Overflows of fixed arrays need an extreme value, an unusual command line or a malformed file, and often corrupt memory silently; a test samples ordinary ones",
     ["src/libscotch/*.c", "src/scotch/*.c", "src/esmumps/*.c", "src/libscotchmetis/*.c"], ["every index into an array of declared size", "every copy, format, scan and message on one"],
     "interval analysis of the intermediate representation with branch refinement, widening and interprocedural ranges",
     "Indices that are contents of data arrays, of other threads' data or of messages (parts, pairs of fine vertices, thread ranks) are not decided and counted as such, nor are arrays whose size is computed at run time; distances are taken to be non-negative; the generated scanner and parser are not analysed; default configuration.")

# ---- properties this family cannot decide
_q = "The result is a numerical function of run-time arrays; no structural fact of the source in reach implies or refutes it."
prop("N01", "Partitions and mappings are complete and within range",
     "Every mapping or partition returned assigns each vertex a part of the target, respects fixed vertices, and its loads sum to the graph's load.",
     ["inputs"], "for every graph, target and strategy", "tests sample a few graphs and targets", ["src/libscotch/kgraph_map_*.c", "src/libscotch/mapping.c"], ["mapping construction"], na=_q)
prop("N02", "Orderings are permutations consistent with their separator tree",
     "Every ordering returned is a permutation whose inverse, column blocks and tree agree with it.", ["inputs"], "for every graph and strategy",
     "tests sample a few graphs", ["src/libscotch/hgraph_order_*.c", "src/libscotch/order*.c"], ["order construction"], na=_q)
prop("N03", "Separators separate", "No edge joins the two separated parts of any vertex separation, and the recorded sizes and loads are those of the parts.",
     ["inputs"], "for every graph", "tests sample a few graphs", ["src/libscotch/vgraph_separate_*.c", "src/libscotch/vdgraph_separate_*.c"], ["vertex separation"], na=_q)
prop("N04", "Coarsening preserves total weight and connectivity", "The coarse graph's vertex load equals the fine graph's, and each coarse edge sums the fine edges it stands for.",
     ["inputs", "schedules"], "for every graph and matching", "tests sample a few graphs", ["src/libscotch/graph_coarsen*.c", "src/libscotch/dgraph_coarsen*.c"], ["coarsening"], na=_q)
prop("N05", "Saved files load back as the same object", "Saving then loading a graph, mesh, architecture, mapping or ordering yields an equal object.", ["inputs"], "for every object",
     "tests sample a few objects", ["src/libscotch/*_io.c"], ["text formats"], na="Round-trip equality quantifies over run-time values; only the agreement of writer and reader record layouts is structural.")
prop("N06", "The consistency checkers accept exactly consistent objects", "A checker returns success if and only if the object satisfies the documented invariants.", ["inputs"],
     "for every object state", "tests sample a few corrupted objects", ["src/libscotch/*_check.c"], ["checkers"], na="Completeness of a checker is a statement about run-time array contents, with no source-level counterpart.")
prop("N07", "Distributed results do not depend on message timing", "For a given process count and seed, distributed computations return the same result under every message schedule.", ["schedules"],
     "for every message schedule", "a run sees one schedule", ["src/libscotch/dgraph_*.c"], ["point-to-point exchanges with any-source receives"],
     na="Order-insensitivity of the reductions applied to received data depends on the values exchanged; a static argument in reach cannot bound it.")
