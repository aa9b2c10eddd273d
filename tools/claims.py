"""What is claimed: every property, in one place.  publish.py writes
properties.jsonl and MANIFEST.json from it."""

D, S, C, T, M = "graphicle/data.py", "graphicle/select.py", "graphicle/calculate.py", "graphicle/transform.py", "graphicle/matrix.py"


def mech(*pairs):
    return [{"name": n, "where": w} for n, w in pairs]


PROPS = [
    dict(
        id="C01", title="Shared momentum queries give the true answer under every interleaving",
        statement="Any number of threads may query the same four-momenta at the same time: components, transverse momentum, pseudorapidity, rapidity, polar and azimuthal angles, invariant and transverse mass, pairwise distances, shifts, rotations, splittings, graphs built from distances, combined masses, centroids, aggregates, event shapes, clustering coefficients, and row selections each return exactly the value which the stored momenta define. This holds whatever other queries have already run, are running, or are suspended between any two steps, including for massless, collinear, zero, tachyonic and single-particle inputs. No query blocks for ever.",
        over=["schedules", "inputs", "histories"],
        text="Every seeded interleaving at source-line granularity of 2-3 clients issuing 2-5 of the 41 momentum queries each at 2-3 shared momentum sets of 0-12 particles, in every order, followed by an audit of every derived quantity.",
        why="The tests call each query once, from one thread, on a handful of fixed momenta; derived quantities are computed lazily and kept on the shared object, so whether a value is right depends on which queries came before and at which point another thread looked.",
        files=[D, C, T, M, S],
        state=[("derived-quantity cache", "values computed on first use and kept with the momenta", D + " MomentumArray, functools.cached_property")],
        mech=[("lazy derived quantities", D + " MomentumArray"), ("pairwise and aggregate kernels", C), ("dense distance matrices", M)],
        observe=["return value of every query", "progress of every client"],
        note="Sampled schedules at source-line granularity of pure Python code; compiled kernels run as one step (C10 opens them). The model is a separate numpy/pure-Python implementation of every quantity, compared to 1e-9."),
    dict(
        id="C02", title="Event-graph and hard-process queries give the true answer under interleaving",
        statement="Any number of threads may query the same event record at the same time: roots, leaves, nodes, dense and sparse adjacency, descendants and ancestors, vertex searches, hadronisation vertices, the hard-process status masks, the hard descendants of each parton, the nested ancestry hierarchy, partitioned final state, cluster and colour-singlet masks each return exactly the set, order and nesting which the record defines. Every final-state particle of a parton lands in that parton's mask and in no sibling's, and each mask covers every particle of the record in its order. This holds whatever other queries have run, are running, or are suspended.",
        over=["schedules", "inputs", "histories"],
        text="Every seeded interleaving of 2-3 clients issuing 2-4 of the 30 graph queries each at 1-2 shared, randomly generated hard-process event records (resonance chains, extra emissions, merged hadronisation vertices, repeated flavours), followed by an audit.",
        why="The tests cover no hierarchy, partition, colour or ancestry routine at all; the answer depends on the topology of the record, the order of its rows, and on what lazily built state earlier queries left.",
        files=[D, S],
        state=[("lazy dense adjacency and status masks", "built on first use", D + " AdjacencyList, StatusArray")],
        mech=[("ancestry hierarchy", S + " hierarchy, hard_descendants"), ("partition of the final state", S + " partition_descendants"), ("adjacency", D + " AdjacencyList")],
        observe=["return value of every query"],
        note="Sampled schedules and generated records; oracle: independent graph model over Python sets. pandas and networkx internals are real code."),
    dict(
        id="C03", title="A failed or interrupted operation leaves nothing behind; its retry is true",
        statement="When memory runs out or an interrupt arrives at any point inside any query of momenta, of an event record or of a cluster assignment, the operation fails as a whole: every object it was reading stays usable, with the data it had. The same operation tried again, and every other query any thread makes afterwards, returns the true value. Other threads in the middle of their own queries are not affected, and nobody is left waiting for a lock.",
        over=["fault_sequences", "schedules", "histories"],
        text="Allocation failures and interrupts at any traced line of any query in any of 1-3 interleaved clients, any number of times per run; every failed operation is retried, and every object audited at the end.",
        why="The tests inject no failure; whether a half-computed value was stored, a lock left held, or an array left half-written is only visible if an operation is stopped at the one line in between.",
        files=[D, S, C, T, M],
        state=[("half-built derived values", "anything kept on the object before the computation finished", D)],
        mech=[("compute, then keep", D + " functools.cached_property"), ("scoped settings", C + " _thread_scope")],
        observe=["outcome of the failed operation", "retry", "audit of all shared objects"],
        note="Faults are raised at the line boundaries of the package's own Python code; failures inside compiled kernels surface at their return. Sampled fault points and schedules."),
    dict(
        id="C04", title="Process-wide settings are left as they were found",
        statement="No query, whether it succeeds, is refused, fails half-way or overlaps with others, changes any setting which other code in the process or thread relies on: floating-point error handling, error callbacks and buffer sizes, print options, worker-thread counts, warning filters, the state of the global random generators, environment variables, signal handlers, recursion limits, working directory, or locale. Each thread sees its own settings unaltered after, and during, other threads' queries. Warnings turned into errors by the caller are raised to the caller, and others stay as the caller has set them.",
        over=["schedules", "fault_sequences", "configurations"],
        text="Drawn process and per-thread settings, 1-3 interleaved clients, half of the runs with injected failures; all settings compared after every operation.",
        why="The tests never look at global state; a setting put back in the wrong order is only wrong when two calls overlap or one of them fails in between.",
        files=[C, D, S],
        state=[("numba thread mask, numpy error state, warning filters", "process- or thread-wide", C)],
        mech=[("scoped thread count", C + " _thread_scope"), ("scoped error state", C + ", " + D)],
        observe=["all settings, per thread, after every operation"],
        note="Sampled settings, schedules and faults. Queries in which pandas itself swaps warning filters are not part of this check."),
    dict(
        id="C05", title="Queries never modify their inputs or earlier results",
        statement="No query of momenta, event records, masks, particle codes or cluster assignments changes a single byte of any object or argument it was given, nor of any array or object it, or any other query, returned earlier. This holds when it fails half-way, is refused, is repeated, or overlaps with other threads' queries.",
        over=["schedules", "fault_sequences", "inputs", "histories"],
        text="1-3 interleaved clients over shared objects, half of the runs with injected failures; byte images of every input after every operation, and of every result at the end.",
        why="The tests compare return values only, and never look at an argument again after the call; in-place arithmetic on a cached array is right the first time.",
        files=[D, S, C, T, M],
        state=[("cached derived arrays", "handed out to callers and reused by later queries", D)],
        mech=[("fresh arrays for in-place work", S + " arg_closest; " + C + " _delta_R_symmetric")],
        observe=["bytes of inputs and caller-made arguments", "bytes of results"],
        note="Sampled; byte-exact."),
    dict(
        id="C06", title="Derived quantities always describe the data currently stored",
        statement="After the data of momenta, particle codes, statuses, colours, helicities, masks, edges or weights are replaced, partly assigned, or changed by in-place arithmetic through the library's interface, every derived quantity, whether asked for earlier or not, on the object, on the event record holding it, or through another name for it, is that of the new data. A rejected assignment, or one which fails half-way, leaves the old data with the old derived quantities or the new with the new, never a mixture. Results of arithmetic, copying and selection carry none of the derived values of the object they came from.",
        over=["histories", "fault_sequences", "schedules", "inputs"],
        text="Histories of 4-14 replacements (nine input forms), in-place operations, re-assignments of columns and queries, by 1-3 interleaved clients with and without injected failures, against a model of the current data; every quantity audited at the end.",
        why="The tests build an object and query it once; staleness needs a query, a change, and the same query again, over every pair of (change, derived quantity).",
        files=[D],
        state=[("cached derived quantities", "must be dropped when data change", D + " MomentumArray._forget_derived")],
        mech=[("invalidation on assignment and in-place arithmetic", D + " MomentumArray.data, __array_ufunc__")],
        observe=["stored data after every operation", "every derived quantity"],
        note="Sampled histories. Writes through numpy views obtained from an object (obj.data['x'][...] = ...) are not tracked by the library and are outside the property for cached quantities."),
    dict(
        id="C07", title="Copies and selections are complete and independent",
        statement="A copy of any data structure, shallow or deep interface, nested or not, has everything the original has, in the same order: all columns, edge weights, group names, nesting and aggregation rule; and so has a selection of rows by mask, group or index, for the selected rows. No later change to the original, or to another copy, shows in it, and none to it shows in them, at any depth. Both hold when the change fails half-way, or is made by another thread at the same time to its own copy.",
        over=["histories", "fault_sequences", "schedules", "inputs"],
        text="Histories of 4-14 copies, selections and writes over momenta, codes, statuses, helicities, masks, nested groups, adjacency, particle sets and whole events, by 1-3 interleaved clients; every object is compared with its own model after every operation.",
        why="The tests copy nothing; sharing only shows when one side is later written to, and a lost attribute only for objects that have it.",
        files=[D],
        state=[("shared buffers", "arrays reachable from two objects", D)],
        mech=[("copy methods", D + " copy()"), ("selections by fancy indexing", D + " __getitem__")],
        observe=["full content of every object after every operation"],
        note="Sampled histories. Slices are views by design and are compared only at the moment they are made."),
    dict(
        id="C08", title="Mask groups behave as ordered mappings which aggregate their members",
        statement="Through any history of insertions, replacements, deletions, pops, updates, clearings, copies, sub-selections and aggregation changes, a mask group holds exactly the names and masks last put in, in insertion order, and raises a key error for any other name. Its boolean data, and its and/or/not and comparisons, are the chosen aggregation of its present members at every nesting depth, never of earlier ones, and flattening, dropping empty members, equality, serialisation and printing agree with the same content. Each single insertion, replacement or deletion takes effect entirely or, if it fails, not at all.",
        over=["histories", "fault_sequences", "schedules", "inputs"],
        text="Histories of 5-18 mapping operations and reads on nested, partly shared groups, by 1-3 interleaved clients with and without injected failures, against an ordered-dictionary model.",
        why="The tests contain no nested group and no history; a group is a mutable mapping whose value depends on everything done to it and to groups inside it.",
        files=[D],
        state=[("ordered members and aggregation rule", "nested groups are held by reference", D + " MaskGroup")],
        mech=[("mutable mapping", D + " MaskGroup"), ("aggregation", D + " MaskGroup.data, bitwise_or, bitwise_and")],
        observe=["return value and whole content after every operation"],
        note="Sampled histories; groups of at most 3 nesting levels and 12 rows; cyclic nesting and masks of unequal lengths are outside."),
    dict(
        id="C09", title="Composite records keep their rows together",
        statement="A particle set or event keeps the code, momentum, colour, helicity, status, final-state flag and edge of each particle in the same row through any history of selections by mask, group, index list, slice or single index, of copies, column replacements and re-wrapping. Columns which were not given stay absent and do not disturb the rest, length and truth value follow the columns present, and iteration over columns, serialisation and the printed table show exactly the rows held. An operation that fails half-way leaves all columns as they were.",
        over=["histories", "fault_sequences", "schedules", "inputs"],
        text="Histories over events whose rows carry a unique tag in every column, 0-70 rows, any subset of columns missing, by 1-3 interleaved clients with and without injected failures.",
        why="The tests select from one complete record once; misalignment needs repeated selection, missing columns or unusual keys.",
        files=[D],
        state=[("parallel columns", "same length, same order", D + " ParticleSet, Graphicle")],
        mech=[("column-wise selection", D + " ParticleSet.__getitem__, Graphicle.__getitem__")],
        observe=["every column of every object after every operation", "printed table", "serialised form"],
        note="Sampled histories; text of the table is compared cell-wise on names, status and flags and on its footer."),
    dict(
        id="C10", title="Results do not depend on worker threads or how parallel work is divided",
        statement="Distance matrices, clustering coefficients, momentum aggregates, assignments and every other result computed by parallel workers are the same for every number of workers, every division of the work among them and every order in which they run, including when several callers run them at once. Each requested worker count is honoured for that call only, and no element of a result is missing, computed from half-written memory, or depends on a race between workers.",
        over=["schedules", "configurations", "inputs"],
        text="Each parallel kernel executed from its own source under a simulated team of 1-8 workers with seeded chunking and interleaving down to single array accesses, and the compiled kernels at 1-8 real workers, over generated momenta; results compared with the sequential definition.",
        why="The tests run the kernels once with the default worker count on small inputs; a race or a bad division of work is only visible in some schedules.",
        files=[C, M, S],
        state=[("result arrays shared by workers", "written by the loop bodies", C + " _delta_R, _delta_R_symmetric")],
        mech=[("parallel loops", C + " numba prange"), ("scoped thread count", C + " _thread_scope")],
        observe=["every element of the results", "reads of memory nobody has written", "conflicting accesses of different workers"],
        note="The simulated team runs the kernel's Python source with array accesses as the unit of interleaving; compiled kernels run for real but their internal schedule is not controlled. If a kernel cannot be opened, only the compiled one is exercised."),
    dict(
        id="C11", title="Seeded results are reproducible and owe nothing to outside randomness",
        statement="Every routine that takes a random seed returns bit-for-bit the same result for the same seed and arguments, whatever other seeded or unseeded calls, in this or other threads, come before, in between or fail, and whatever state the process-wide random generators have. Randomly generated momenta are massless or have the requested mass and energy bounds for every seed, and two seeds that differ give different momenta; their energies, directions and masses are spread as documented. Event shapes are a value the given momenta attain along the returned axis, the same with or without it being asked for, for any seed or none, and most searches end where no small turn of the axis improves the value.",
        over=["schedules", "histories", "fault_sequences", "inputs"],
        text="Histories of seeded and unseeded generation and event-shape calls by 1-3 interleaved clients, half of the runs with injected failures and re-seeded global generators; each seeded call is compared with the same call made alone in a fresh process.",
        why="The tests never pass a seed; shared generator state only shows when calls are interleaved or repeated.",
        files=[D, C],
        state=[("random generators", "one per call", D + " from_spherical_uniform; " + C + " thrust, spherocity")],
        mech=[("local generators from the seed", D + ", " + C)],
        observe=["results bit for bit", "global generator state"],
        note="Sampled. Event-shape optimisers are trusted to converge only to a local optimum: the check asks that the value is attained on the returned axis."),
    dict(
        id="C12", title="Ingested records are reproduced exactly, or refused",
        statement="Building objects from generator events, Les Houches events, or arrays gives exactly the source's particles, in its order, column by column, whatever the source's memory layout, byte order, integer width, field order or container, for values which the columns can hold; attributes the source does not have are left out, and input of the wrong shape or kind is refused. If reading the source fails, the error reaches the caller rather than a partial record, and the source is never changed. A record once built does not change when the reader's source is read again, concurrently or not.",
        over=["inputs", "fault_sequences", "schedules"],
        text="Generated sources in all forms, read by 1-3 interleaved clients, with failures raised by any attribute of the source and at any line.",
        why="The tests build from a few well-formed arrays and never from an event object; layouts, missing attributes and failing readers are not sampled at all.",
        files=[D],
        state=[],
        mech=[("field converters", D + " _array_field, _reorder_pmu, _reorder_edges"), ("event readers", D + " Graphicle.from_event, from_lhe_event, from_numpy")],
        observe=["every column of the record", "bytes of the source", "the error raised"],
        note="Sampled; the readers' sources are stand-ins with the attribute protocol of the generator libraries."),
    dict(
        id="C13", title="The same input gives the same output in every process",
        statement="The result of any query is a function of its arguments: it is bit-for-bit the same, with the same order of names, masks and rows, in every process, whatever its hash seed, worker count, working directory, temporary directory, environment, compilation cache, import order, and history of earlier calls.",
        over=["configurations", "histories", "inputs"],
        text="The same generated queries in separately started processes with differing hash seeds, address layouts, interpreter flags, environments, working directories, worker counts, compilation caches (cold or warm), import orders, memory contents and call histories, and in interleaved, fault-injected histories of one process against an untouched image of it.",
        why="The tests run in one process with one hash seed; iteration order of sets and first-use compilation differ only between processes.",
        files=[S, D, C],
        state=[("hash seed, compilation cache, environment", "differ between processes", "whole package")],
        mech=[("order from the record, not from sets", S + " color_singlets, hierarchy"), ("compiled-kernel cache", C)],
        observe=["digest of every result"],
        note="Sampled; processes are started with drawn configurations on the same machine, so differences between machines are outside."),
    dict(
        id="C14", title="Checkpoints restore exactly what was saved, at any crash point",
        statement="An object pickled, serialised or deep-copied at any point of any history, including right after an operation that failed half-way or while others run, and restored in another process after the first one died, has exactly the data, names, nesting, aggregation rule and weights it had, and answers every query accordingly. What is restored is independent of the original, can be changed as it could, and saving does not change the original.",
        over=["crash_points", "histories", "fault_sequences", "schedules"],
        text="Histories over all data structures with checkpoints at random points; the process is killed at a random step, and the last complete checkpoint is restored in a fresh process, checked and worked on further.",
        why="The tests pickle nothing; what must survive depends on which caches and attributes the object had acquired by then.",
        files=[D],
        state=[("instance state including lazily built parts", "what pickle captures", D)],
        mech=[("attrs state protocol", D), ("serialize methods", D)],
        observe=["restored objects against the model at checkpoint time"],
        note="Sampled crash points. Serialised forms (as opposed to pickles) do not hold edge weights or the aggregation rule by design and are checked without them."),
    dict(
        id="C15", title="Particle data look-ups are the record's, for every code and call order",
        statement="Name, charge, mass, width, quark content, isospin, parities, their bounds and typesetting of any code are those of the bundled particle table, for antiparticles too, in the order and number asked, with unknown codes refused rather than given another particle's data. Codes found by name are those which have it, an unknown name is refused, and masks by code match exactly the given codes and sign rule. Neither earlier look-ups, failed ones, other threads, nor callers writing into returned arrays change any later answer.",
        over=["histories", "schedules", "fault_sequences", "inputs"],
        text="1-3 interleaved clients making 3-6 look-ups each over shared and private codes, known and unknown, half of the runs with injected failures and callers that overwrite what they were given.",
        why="The tests look up a few quarks in one order; the table is shared by the whole process, so damage by one call shows in another.",
        files=[D],
        state=[("particle table", "one per process", D + " PdgArray, mcpid")],
        mech=[("table look-up", D + " PdgArray")],
        observe=["every looked-up column"],
        note="Sampled codes, all properties. The bundled table itself, as shipped by the mcpid dependency, is trusted."),
    dict(
        id="C16", title="Jet clustering is complete and exact, and its dependency stays optional",
        statement="Jet clustering returns masks over all given particles, hardest jet first: each particle in at most one jet, each jet above the requested transverse momentum, within the requested pseudorapidity, no more than the requested number, and equal to the sequential recombination of the same momenta with the same radius and power. Unusable parameters are refused. If the clustering library is missing, or is missing for a while, only clustering is affected, with an import error, and it works again once the library is back.",
        over=["inputs", "schedules", "fault_sequences", "configurations"],
        text="Generated particles and parameters, 1-3 interleaved clients, half of the runs with injected failures and windows in which the library cannot be imported, and fresh processes without it.",
        why="The tests never cluster jets.",
        files=[S],
        state=[("imported clustering library", "looked up at call time", S + " fastjet_clusters")],
        mech=[("deferred import", S + " fastjet_clusters"), ("parameter checks", S + " _param_check")],
        observe=["masks", "errors"],
        note="Sampled; oracle: brute-force generalised-kt recombination in pure Python for up to 12 particles."),
    dict(
        id="C17", title="Assignments and tags are optimal, order-faithful and undisturbed",
        statement="Assigning candidate momenta to focal momenta gives distinct candidates whose total distance is the least any assignment has, in the order of the foci, and ties or zero spread still give a valid assignment. Tagging the clusters of an event returns, for each hard parton asked for, the one cluster assigned to it, with unusable requests refused. Neither other threads' queries, earlier results nor failures half-way change the answer or the momenta used.",
        over=["inputs", "schedules", "fault_sequences", "histories"],
        text="1-3 interleaved clients assigning crowded, tied and spread-out candidates of shared sets, and tagging clusters of shared events, half of the runs with injected failures; optimality by exhausting all assignments of the small instances.",
        why="The tests contain no assignment; a greedy or row-swapped choice agrees on easy instances.",
        files=[S, C],
        state=[("cached rapidities and angles of the shared momenta", "read by the cost", D)],
        mech=[("assignment cost", C + " _assignment_cost"), ("optimal matching", S + " arg_closest, monte_carlo_tag")],
        observe=["assignments, masks", "inputs afterwards"],
        note="Sampled instances of at most 6 by 6; oracle: exhaustive minimum."),
    dict(
        id="C18", title="Columns of particle data compute as plain arrays of their rows",
        statement="Momenta, particle codes, helicities, statuses, masks, colours and edges behave as arrays of their rows. Comparison with another column, a plain or structured array, a list, or a single value, row by row; arithmetic and bitwise operators, also reflected; numpy's element-wise functions and reductions; iteration, membership, position and count of a row; conversion to plain arrays; and printing: each gives what the same operation gives on plain numpy arrays holding the same rows. Comparisons come back as masks, and element-wise results as the same kind of column. Operands are left as they were, share no memory with results, and operands of unfit length or kind are refused. All this holds whatever other threads are doing at the same time and whatever failed before.",
        over=["inputs", "schedules", "fault_sequences", "histories"],
        text="1-3 interleaved clients computing with shared columns of 0-12 rows, seven kinds of column, 60 operators and functions, all forms of operand, a third of the runs with injected failures.",
        why="The tests apply a handful of operators to fixed momenta; the seven kinds of column share one generic implementation whose branches depend on the kind, the operand's form and order, the axis and the number of results.",
        files=[D, "graphicle/base.py"],
        state=[("rows of a column", "shared by several clients", D)],
        mech=[("numpy protocol for all columns", D + " _array_ufunc, _array_eq_prep, __array__"), ("sequence protocol", "graphicle/base.py ArrayBase")],
        observe=["type, kind and value of every result", "operands afterwards"],
        note="Sampled; oracle: numpy on plain copies of the rows. Excluded as undefined by the interface: results an integer column cannot hold (true division), yes-or-no results per component, and column-wise reductions of colour and edge pairs."),
    dict(
        id="C19", title="Requests which cannot be answered are refused, leaving everything as it was",
        statement="A request which has no answer is refused with an error and never answered with a made-up value: data of the wrong shape, or which do not fit the rest of the record; masks, weights, or momenta of differing lengths; positions, vertices, keys, orders, rules, modes, kinds, planes, file formats and codes which do not exist; assignments of too few candidates; searches where nothing remains; and parameters out of range. A refusal changes nothing: neither the objects and arguments involved, their derived quantities, nor any setting of the process or thread. Other threads' queries are not disturbed, and later ones give the true answer.",
        over=["inputs", "schedules", "fault_sequences", "histories"],
        text="Some 50 kinds of unanswerable request with drawn details, mixed with 13 ordinary queries of the same shared objects by 1-3 interleaved clients, a third of the runs with injected failures; inputs and settings compared after each operation.",
        why="The tests make only well-formed requests; whether a check comes before the first change, or a compiled kernel reads past the end of the shorter of two arrays, is not visible to them.",
        files=[D, S, C, T, M],
        state=[("objects and settings at the time of the refusal", "must not be half changed", D)],
        mech=[("argument checks", D + ", " + S + ", " + C + ", " + T + ", " + M)],
        observe=["refusal", "inputs, settings, and later answers"],
        note="Sampled; the error's type is not prescribed, only that one of the usual kinds is raised."),
]

NA = [
    dict(
        id="N02", title="Event shapes reach the global optimum",
        statement="Thrust is the largest and spherocity the smallest value over all axes.",
        over=["inputs"], text="All momenta, all axes.", why="Tests check two configurations.", files=[C],
        mech=[("gradient search", C + " thrust, spherocity")],
        reason="A claim about a numerical optimiser over a continuous domain, independent of scheduling and faults; the documented algorithm is a local search from one random start, so it does not hold as stated. C01 and C11 check that the returned value is attained on the returned axis and is reproducible."),
    dict(
        id="N03", title="Event shapes are invariant under rotation and rescaling",
        statement="C-parameter, thrust and spherocity do not change when all momenta are rotated or scaled by a common factor.",
        over=["inputs"], text="All momenta, rotations and scales.", why="Tests use fixed shapes.", files=[C],
        mech=[("C-parameter", C + " c_parameter")],
        reason="A metamorphic relation on a pure function with no dependence on schedules, faults, time, I/O or parties; the value itself is checked against the definition in C01."),
]
