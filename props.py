EX = ["inputs", "configurations"]

prop("C01", "Range and index arithmetic is exact",
     "For 1, 2 and 3 dimensions, intersecting, containing, extending, comparing and measuring index ranges agree with the set of indexes the ranges contain, for all 64-bit borders, including empty ranges. An intersection is reported exactly when there is a common index, and it contains exactly the common indexes.",
     ["inputs"], "all pairs of ranges with arbitrary 64-bit borders, 1-3 dimensions (sizes: products within 64 bit)",
     TESTS + "range arithmetic is only used with the few ranges occurring there.",
     ["src/space.c"], [("range functions (intersect, within, expand, isEqual, isEmpty, size)", "src/space.c")])

prop("C02", "Frozen range lists keep exactly the added ownership and answer queries right",
     "After freezing, a list of ranges gives every process exactly the indexes (per tag) which were added for it, in any order of adding, with or without merging; merged ranges of the same process and tag neither overlap nor touch. Enumerating ranges in total, per process and per mapping agrees with each other, ranges with the same positive tag share one mapping, others have their own.",
     ["inputs"], "all lists of ranges (any owner, tag, borders, order of adding)",
     TESTS + "lists there come from regular partitioners in ascending order.",
     ["src/rangelist.c"], [("sorting, merging, offset calculation", "src/rangelist.c")],
     [("off", "start of ranges of a process", "Laik_RangeList"), ("mapNo", "mapping of a range", "Laik_TaskRange_Gen")])

prop("C03", "Coverage check: true exactly if every index of the space has an owner",
     "A partitioning is reported to cover its space exactly if each index of the (non-empty) space is in at least one of its ranges, for overlapping, empty, and arbitrarily ordered ranges in 1, 2 and 3 dimensions.",
     ["inputs"], "all lists of ranges",
     TESTS + "coverage is checked for regular complete partitionings only.",
     ["src/rangelist.c"], [("subtraction of ranges from the uncovered rest", "laik_rangelist_coversSpace, src/rangelist.c")])

prop("C10", "Migrating a partitioning to other process ids keeps all ownership",
     "When a partitioning is translated to another group with a mapping of process ids, each process owns exactly the same ranges in the same mappings under its new id, and new ids start without ranges; all later queries, for any id, answer for the new ids.",
     ["inputs", "histories"], "all range lists, id mappings (bijective on ids with ranges), queries before the migration",
     TESTS + "shrinking is exercised with one or two fixed process sets.",
     ["src/rangelist.c", "src/partitioning.c"], [("laik_rangelist_migrate", "src/rangelist.c")])

prop("C11", "1d transitions move every preserved index exactly once from its owner",
     "For a switch of a 1d container between two partitionings of the same group preserving values, the operations calculated by all processes together move each index wanted by a process exactly once from the single process owning it (a local copy if it owns the index itself, else one send and one receive), using the mappings which hold the index; indexes with multiple owners result in exactly one reduction, listed by all involved processes, with exactly the owners as inputs and exactly the processes wanting the index as outputs. Nothing else is transferred. Calculation never aborts.",
     ["inputs", "configurations"], "all pairs of range lists (own ranges of a process without overlap, wanted indexes owned), all processes, all indexes",
     TESTS + "only block/master/all/halo partitionings of fixed sizes are used.",
     ["src/space.c", "src/rangelist.c", "src/partitioning.c"],
     [("border traversal", "calcAddReductions, src/space.c"), ("transition", "do_calc_transition, src/space.c")],
     [("localTOp/sendTOp/recvTOp/redTOp", "operations", "Laik_Transition")])

prop("C12", "2d/3d transitions move every preserved index from its owners",
     "For a switch of a 2d/3d container preserving values, indexes owned and wanted by the same process are copied locally once; each process receives each other wanted index exactly once from every process owning it, and owners have the corresponding sends, with the mappings holding the index. A requested reduction of a container held completely by all processes is one reduction over the complete space with the right input and output processes.",
     ["inputs", "configurations"], "all pairs of range lists (own ranges of a process without overlap), all processes, all indexes",
     TESTS + "only a few grid partitionings with fixed sizes are used in 2d/3d.",
     ["src/space.c", "src/rangelist.c", "src/partitioning.c"], [("intersection of ranges", "do_calc_transition, src/space.c")])

prop("C13", "Sends and receives of all processes match pairwise, in the same order",
     "For any transition, the n-th message one process sends to another has the same non-empty index range as the n-th message the other expects from it, both have the same number of messages, and processes taking part in common reductions list them in the same order with the same range and the same input and output processes. Otherwise processes hang or mix up values.",
     ["inputs", "configurations", "histories"], "all pairs of range lists (also overlapping and multiple owners), all pairs of processes",
     TESTS + "mismatches only appear for uneven or overlapping ownership.",
     ["src/space.c"], [("send/receive/reduction operations of processes", "do_calc_transition, calcAddReductions")])

prop("C04", "Block partitioner: disjoint, complete, balanced for any sizes and weights",
     "For any number of processes, cycles, space borders and split dimension, and any non-negative index and process weights, the block partitioner gives each index of the space to exactly one process, never aborts, splits no other dimension, hands out blocks in index order to processes (round-robin over cycles), with unweighted block sizes differing at most by one, and weighted blocks following the wanted shares up to the weight of one index.",
     ["inputs", "configurations"], "process count, cycles, space borders, weights (within bounds of queries)",
     TESTS + "block partitionings use regular sizes with more indexes than processes.",
     ["src/partitioner.c"], [("runBlockPartitioner", "src/partitioner.c")],
     note="Floating point operands are split by the solver into one path per feasible value (no symbolic floating point).")

prop("C05", "Bisection and grid partitioners: disjoint and complete",
     "For any space borders and any number of processes (bisection, also with less indexes than processes; 1d sizes differ by at most one) or any number of blocks per dimension (grid), each index of the space belongs to exactly one process, each process has at most one range, and partitioning never aborts or loses indexes because of rounding.",
     ["inputs", "configurations"], "space sizes, process/block counts",
     TESTS + "sizes divide evenly or are large compared to the number of processes.",
     ["src/partitioner.c"], [("doBisection, runGridPartitioner", "src/partitioner.c")],
     note="Floating point operands (grid) are split by the solver into one path per feasible value.")

prop("C06", "All, master, copy, halo and cornerhalo partitioners own exactly as specified",
     "all: every process owns every index; master: only process 0. copy: ownership follows the borders of the other partitioning in the copied dimension. halo/cornerhalo: each range is extended by exactly the indexes of the space within the given depth (without/with diagonal neighbors), up to the border of the space, with the tags of the original ranges.",
     ["inputs", "configurations"], "other partitionings (any ranges, owners, tags), depths, dimensions",
     TESTS + "halos are used with blocks much larger than the depth.",
     ["src/partitioner.c"], [("runHaloPartitioner and others", "src/partitioner.c")])

prop("C07", "Incremental reassignment keeps remaining owners and loses no index",
     "When processes are removed, the reassign partitioner leaves all indexes of remaining processes where they are, gives each index of removed processes to exactly one remaining process, none to removed ones, and distributes their weight evenly up to the weight of one index.",
     ["inputs", "configurations", "histories"], "old partitioning, set of removed processes, index weights",
     TESTS + "one or two fixed removed processes.",
     ["src/partitioner.c"], [("runReassignPartitioner", "src/partitioner.c")],
     note="Floating point operands are split by the solver into one path per feasible value.")

prop("C08", "Partitioner runs with filters keep exactly the ranges needed",
     "Running a partitioner keeping only own ranges gives the same own ranges, tags and mappings as a complete run (nothing for processes outside of the group). The index filter keeps a range if and only if it has a common index with own ranges (sorted, overlapping or tagged, or none at all). A transition calculated from filtered runs has exactly the operations calculated from complete knowledge.",
     ["inputs", "configurations"], "range lists produced by any deterministic partitioner",
     TESTS + "filters are only used by one example.",
     ["src/partitioning.c", "src/partitioner.c", "src/rangelist.c"], [("range filters", "src/partitioning.c"), ("laik_append_range", "src/partitioner.c")])

prop("C14", "Layouts map the indexes of a mapping one-to-one to memory positions",
     "Within each mapping of a layout, every index has its own position within the allocation, in lexicographical order with the reported strides, without truncation for large spaces, and the mapping of an index is found. An old mapping is reused for a new one exactly if it covers it, and then every index stays at its address while other mappings are unaffected.",
     ["inputs"], "all ranges (any number of mappings, also negative borders), indexes",
     TESTS + "offsets are only used for a few fixed sizes.",
     ["src/layout_lex.c", "src/layout.c"], [("offset, reuse and section functions", "src/layout_lex.c")])

prop("C15", "Packing, unpacking and copying transfer exactly the values of a range",
     "Packing a range in chunks of any size, and unpacking in any other chunks into another mapping (another layout, section or covering range) stores each value at its index and changes nothing else; the packed order is the same for all layouts. Copying a range between mappings does the same, for any number of mappings in a layout and any element size.",
     ["inputs", "configurations"], "ranges, sub-ranges, buffer sizes, layouts, mapping numbers, element sizes",
     TESTS + "buffers are larger than messages and there is mostly one mapping.",
     ["src/layout_lex.c", "src/layout.c", "src/data.c"], [("pack/unpack/copy", "src/layout_lex.c, src/layout.c")])

prop("C16", "Switching a container preserves (or initializes) the values of all indexes",
     "After switching a container to any other partitioning preserving values, also one of another process group, every own index has the value it had before, wherever it comes from (same mapping, reused memory, another mapping, another process in any order of messages); switching with initialization gives every own index the neutral value. Global and local indexes and addresses agree in all access functions. Different indexes never share memory. Memory not used any longer is freed, exactly once; switching to nothing and switching without being part of a group works.",
     ["inputs", "schedules", "histories", "configurations"], "pairs and sequences of partitionings, groupings into mappings, groups, order of communication",
     TESTS + "containers switch between one or two fixed partitionings.",
     ["src/data.c", "src/space.c", "src/partitioning.c", "src/core.c"],
     [("switch", "laik_switchto_partitioning, doTransition, src/data.c"), ("memory reuse", "checkMapReuse, initEmbeddedMapping, src/data.c")],
     note="Communication of other processes is modelled by a stub backend: it checks the values sent, and delivers the right values for receives.")

prop("C17", "Reservations and application memory: used as requested, values preserved",
     "Partitionings of a reservation use the reserved memory without further allocation; switches between them, also with prepared transitions and action sequences, preserve all values, also for indexes changing between differently tagged mappings; freeing the reservation frees its memory. Memory provided by the application is used for the first mapping, is never freed by LAIK, and never leads to loss of values.",
     ["inputs", "histories", "configurations"], "partitionings in the reservation, tags, order of switches",
     TESTS + "one example uses a reservation with two fixed partitionings.",
     ["src/data.c"], [("laik_reservation_alloc/free, prepareMaps, copyMaps", "src/data.c")])

prop("C09", "Process groups: derived groups have the right members and id mappings",
     "Shrinking a group removes exactly the given processes, the union of two groups has exactly the processes of both; members are ordered by location and appear once, the own id is valid exactly for members, and the id mappings to and from parent groups are inverse to each other and refer to the same processes. The union is always related to both groups, the backend is told about new groups, changing the world increments the epoch.",
     ["inputs", "histories"], "world sizes, removal lists, sub groups, own id",
     TESTS + "one process is removed at most.",
     ["src/core.c"], [("laik_new_union_group, laik_new_shrinked_group, laik_clone_group", "src/core.c")],
     [("fromParent/toParent/fromParent2/toParent2", "mapping of process ids", "Laik_Group")])

prop("C19", "Reductions of the provided types compute the operation for every element",
     "For each provided type and each supported operation (sum, product, min, max; and/or for integers), the reduction function combines two vectors element by element, also in place, keeps its inputs, copies a single input, and results in the neutral element without input. Combining the neutral element given by the init function with any value yields that value.",
     ["inputs"], "all values of the types (finite ones for float/double)",
     TESTS + "only sums of doubles are used.",
     ["src/type.c"], [("init and reduce functions", "src/type.c")])

prop("C20", "MPI: switches without reduction bring the right values to all processes",
     "If all processes switch a container from a partitioning with exclusive owners to any other one (directly, by prepared action sequences, with or without reserved memory, also multiple times), then with the MPI backend every process ends with the right value for each of its indexes, whatever the ownership, the grouping into mappings and the relative speed of processes: no process waits forever, all messages sent are received, sender and receiver agree on type and size, buffers are neither read nor written while a message may be in flight, and the statistics of the action sequence tell the actual number of messages and bytes.",
     ["inputs", "schedules", "configurations", "histories"], "ownership before/after of each index by each process, grouping into mappings, all values, modes of execution",
     TESTS + "MPI buffers small messages, so wrong orders and buffer use stay hidden.",
     ["src/backend-mpi.c", "src/action.c", "src/data.c", "src/space.c"],
     [("prepare/exec", "laik_mpi_prepare, laik_mpi_exec, laik_mpi_asyncSendRecv, src/backend-mpi.c"), ("transformations", "flattenPacking, combineActions, allocBuffer, sort_*, src/action.c")],
     note="All processes run the real code interleaved at MPI calls; MPI calls are stand-ins with the semantics of the standard without buffering (rendezvous), which is the worst case for deadlocks.")

prop("C21", "MPI: reductions deliver the combined value of all owners",
     "If all processes switch a container with reduction (sum, or) from any partitioning where indexes have one or more owners to any other partitioning, then with the MPI backend every process wanting an index gets the reduction over the values of exactly its owners, with every strategy (MPI collective, 2 or 3 rounds of messages), synchronous or asynchronous messages, in place or not: collective calls match in all processes, no process waits forever, and buffers are not changed while a message may be in flight.",
     ["inputs", "schedules", "configurations", "histories"], "sets of owners and of wanting processes per index, all values, modes of execution",
     TESTS + "reductions are over all processes mostly, with small data buffered by MPI.",
     ["src/backend-mpi.c", "src/action.c", "src/data.c", "src/space.c"],
     [("reduction strategies", "splitReduce, replaceWithAllReduce, combineActions, src/action.c"), ("execution", "laik_mpi_exec, src/backend-mpi.c")],
     note="Environment as in C20. Two recorded findings (see known-findings.txt): prepared reductions without reservation, reductions in 2d/3d.")

prop("C23", "Key-value store: content follows changes, the journal transfers exactly these",
     "After any sequence of set and remove operations, each key of a key-value store has exactly the value last set (bytes and size; values may be binary and may be prefixes of each other) or none if removed or never set, and every key is enumerated once. The journal of changes since the last synchronization, after sorting and merging, applied to another store with the content of the last synchronization, makes that store equal, calling the creation, change and removal callbacks there exactly for the keys whose value differs; synchronizing without or with multiple changes of the same key works.",
     ["inputs", "histories"], "keys, values and their sizes, sequence of operations",
     TESTS + "each key is set once with a string.",
     ["src/kvs.c"], [("laik_kvs_set/remove/get/sync, journal", "src/kvs.c")])

prop("C24", "Key-value store synchronization with MPI: same content in all processes",
     "After laik_kvs_sync was called in all processes, every process sees the changes done by any of them since the last synchronization and nothing else, with the callbacks called for exactly the differences; this holds also if no process or only some did changes. If processes changed the same key differently, the run ends with an error message instead of diverging content. No process waits forever.",
     ["inputs", "histories", "schedules"], "changes of each process, values",
     TESTS + "each process sets own keys once.",
     ["src/kvs.c", "src/backend-mpi.c"], [("laik_mpi_sync", "src/backend-mpi.c"), ("merge/apply", "src/kvs.c")],
     note="Environment as in C20.")

prop("C25", "Space store: synchronized spaces have the same shape in all processes",
     "A space put into the space store under a name is available after synchronization in all processes with same name, number of dimensions and borders, for any 64-bit borders; changing its borders in one process is visible in all others after the next synchronization.",
     ["inputs", "histories"], "borders of spaces, process doing the change",
     TESTS + "no test uses the space store.",
     ["src/space.c", "src/kvs.c", "src/backend-mpi.c"], [("laik_space_serialize/set, laik_spacestore_set/get", "src/space.c")],
     note="Formatting a 64-bit number with printf and reading it with scanf is assumed to be the identity; the stand-in always uses the maximal length (20 characters).")

prop("C26", "Location strings: known for every process after synchronization",
     "After laik_sync_location was called in all processes of the world, every process can ask for the location string of every process by its index in any group, also after further processes joined; before, locations are unknown (null).",
     ["inputs", "histories"], "location strings, growth of the world",
     TESTS + "the number of processes is fixed.",
     ["src/core.c", "src/kvs.c"], [("laik_sync_location, laik_group_location", "src/core.c")])

prop("C27", "Instances: objects can be freed at any time, resize phases run in order",
     "Containers and spaces can be created and freed in any order, the instance knows exactly the existing ones, and finalization (also with statistics of all containers shown) uses none already freed, calling the backend once. All requests to join or leave queued before a resize are passed to the backend exactly once and in order; a resize sets a new world and epoch only if the backend provides a new group, is finished before the next one or the finalization starts, and makes the old world inaccessible afterwards.",
     ["histories"], "sequences of creations, removals, requests and resize phases",
     TESTS + "containers are mostly never freed, and there is one resize at most.",
     ["src/core.c", "src/data.c", "src/space.c"], [("lists of objects, resize", "laik_add/remove...Instance, laik_allow_world_resize, laik_finish_world_resize, laik_finalize, src/core.c")])

prop("C30", "Groups of processes: data survives switching to a smaller group and back (MPI)",
     "If a group is shrunk by any list of processes (also repeatedly), every remaining process gets the same member list and its position in it as ID, and a switch to a partitioning of the new group, further switches and reductions within it, and a switch back to the larger group leave every index owned by a process with the value of its owner before (or the reduced value over exactly the members), independent of which processes left. Processes outside take part only where the larger group is involved; there is no deadlock, all messages are received, and partitionings keep their groups.",
     ["inputs", "configurations"], "lists of removed processes, partitionings before/after, values",
     TESTS + "one process leaves, always the same one, with a few block partitionings.",
     ["src/core.c", "src/backend-mpi.c", "src/data.c", "src/partitioning.c", "src/rangelist.c", "src/action.c"],
     [("communicator of new group", "laik_mpi_updateGroup, src/backend-mpi.c"), ("migration to common group", "laik_switchto_partitioning, src/data.c; laik_partitioning_migrate, src/partitioning.c; laik_rangelist_migrate, src/rangelist.c")],
     note="MPI (also MPI_Comm_split) is a stand-in with the semantics of the standard.")

prop("C31", "Sequential run: the single-process backend preserves and initializes data",
     "With the single-process backend, any sequence of switches between partitionings (also partial ones, with any grouping of ranges into mappings) keeps the value of every index owned before and after, gives the neutral element to indexes initialized or reduced without inputs, and the value itself for reductions with its one input, for direct switches as well as prepared action sequences; all owned indexes have separate memory. Repeated initialization returns the same instance.",
     ["inputs", "histories"], "partitionings, data flows, reductions, values",
     TESTS + "few examples are run with the single backend.",
     ["src/backend-single.c", "src/data.c", "src/space.c", "src/action.c", "src/partitioner.c"],
     [("laik_single_exec", "src/backend-single.c"), ("switch", "src/data.c"), ("partitioners", "src/partitioner.c")])

prop("C32", "External agents: all are informed, asked and closed; program control kept",
     "Up to the maximal number of agents can be loaded from files or functions with their arguments; each fault tolerance agent is told the iteration, a request for failed nodes returns the failures of all such agents once, never writing beyond the given buffer, and cleanup closes each library exactly once. Iteration, phase and arguments set by the program are returned as set.",
     ["inputs", "histories"], "kinds and number of agents, failures reported, size of buffers",
     TESTS + "no test loads an agent.",
     ["src/external.c", "src/program.c"], [("agents", "src/external.c"), ("program control", "src/program.c")],
     note="dlopen/dlsym/dlclose are stand-ins.")

prop("C33", "Log output and object names: complete, within buffers, panics always end",
     "A log message, built in any number of parts of any length and content, is shown completely, split at spaces into lines each written at once with the configured prefix, exactly if its level is at least the configured one and the process is selected; a panic is always shown and ends the program. The environment variable LAIK_LOG is understood as documented. Names of objects contain the kind (or up to 10 characters of the given name) and the unique ID, for any ID.",
     ["inputs", "configurations"], "messages, levels, filters, locations, names, numbers of objects",
     TESTS + "messages and numbers of objects are small.",
     ["src/logging.c", "src/action.c", "src/data.c", "src/space.c", "src/type.c", "src/partitioning.c"],
     [("buffering and line breaks", "log_append, log_flush, src/logging.c")])

prop("C28", "TCP2: messages framed right for any segmentation, connections closed safely",
     "A stream of commands, binary and text data blocks between two processes using the TCP2 backend is understood the same however it is split into received pieces and partially accepted writes, including blocks larger than the buffers; all elements arrive once, at the right place, with unchanged content. If the stream ends or is closed by a quit command or the peer at any point, exactly what arrived complete before is executed, and the connection is never accessed afterwards.",
     ["inputs", "schedules"], "data, cut positions of the stream, sizes of reads and writes, way of closing",
     TESTS + "local sockets deliver whole messages.",
     ["src/backend-tcp2.c"], [("receive buffer and command parsing", "got_bytes, process_rbuf, got_cmd, got_binary_data, src/backend-tcp2.c"), ("sending", "send_bin, send_cmd, src/backend-tcp2.c")],
     note="sockets (connect, accept, select, read, write) are stand-ins with free choices of sizes and order.")

prop("C29", "TCP2: switches and reductions deliver the right values to the right owners",
     "With the TCP2 backend, after a switch between any partitionings each index wanted by a process has the value of its owner before, and with reductions the reduced value over exactly its inputs, for text and binary data transfer, direct connections existing or set up on demand, any order of processing, 1-3 dimensions and any element size up to the limit of the protocol; there is no deadlock, and no data is left over.",
     ["inputs", "schedules", "configurations"], "owners before/after, values, reductions, scheduling of processes, capabilities for binary data",
     TESTS + "only the interleavings of local runs and block partitionings are seen.",
     ["src/backend-tcp2.c", "src/data.c", "src/action.c"], [("data exchange", "tcp2_exec, send_range, recv_range, src/backend-tcp2.c")],
     note="sockets are stand-ins with free choices of sizes and order.")

prop("C34", "TCP2: key-value stores are the same everywhere after synchronization",
     "With the TCP2 backend, a synchronization of a key-value store gives all processes the union of the changes (additions, updates, removals) of all processes since the last one, for names, keys and text values of any length, any order of messages, and repeated synchronizations, as long as no two processes change the same key; unchanged entries are kept, other stores are not affected, and there is no deadlock.",
     ["inputs", "schedules", "histories"], "changes per process and round, keys, values, order and segmentation of messages",
     TESTS + "only location strings and few spaces are synchronized.",
     ["src/backend-tcp2.c", "src/kvs.c"], [("synchronization via master", "tcp2_sync, got_kvs..., src/backend-tcp2.c")],
     note="sockets are stand-ins with free choices of sizes and order; values are non-empty texts without line ends.")

prop("C35", "TCP2: all processes agree on the world at startup, joins and removals",
     "With the TCP2 backend, after startup and each resize phase, for any order of arrival of any number of joining processes and any process requested to be removed, all members of the world see the same size, epoch, phase, location IDs and locations, with their own ID at the right place; the epoch changes exactly with the world, removed processes are gone, all others stay, data can be moved to the processes of the new world, and all processes finish without deadlock.",
     ["schedules", "histories"], "arrival of processes, removal requests, phases, order and segmentation of messages",
     TESTS + "the resize tests have one timing each.",
     ["src/backend-tcp2.c", "src/core.c"], [("registration and resize", "got_register, tcp2_resize, tcp2_finish_resize, src/backend-tcp2.c"), ("resize phase", "laik_allow_world_resize, src/core.c")],
     note="sockets are stand-ins with free choices of sizes and order; removal of master not included.")

prop("C18", "Ownership queries: own ranges, mappings, coverage and equality are consistent",
     "For any partitioner output, the ranges reported to a process as its own contain exactly the indexes given to it, with the right borders; each belongs to exactly one of its mappings, numbered without gaps, and enumerating ranges per mapping gives exactly these. The same holds for all processes if all ranges are known, in any order of queries; numbers out of range return nothing. Coverage, equality and clones of partitionings agree with the ownership.",
     ["inputs", "configurations"], "partitioner output (owner, tag, borders), process, flags, kinds of information stored, order of queries",
     TESTS + "programs query one range of a regular partitioning.",
     ["src/partitioning.c", "src/rangelist.c"], [("laik_my_range*, laik_my_map*", "src/partitioning.c"), ("mapping offsets", "laik_updateMapOffsets, src/rangelist.c")])
