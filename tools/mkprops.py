#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements stay easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Point-to-point delivery is exact, in either posting order",
 "When a send and a receive match, whichever of them was posted first, the locations selected by the receive's buffer, count and datatype obtain, element by element in type-map order, the data at the locations selected by the send's buffer, count and datatype. No other byte of any user buffer changes. A receive that asks for more than was sent gets exactly what was sent, and one that asks for less is filled and no further.",
 ["inputs", "histories"], "all counts (0 included), predefined and derived datatypes on both sides with equal type signatures, both posting orders, all buffer contents",
 "The tests move a handful of fixed small arrays with equal counts, nearly always send-first and with one datatype; they never look at bytes outside the message nor at unequal counts.",
 ["send.c", "recv.c", "copy.c", "type.c"],
 [("typed element-by-element copy", "copy.c:Pcopy_data2"), ("match at send time", "send.c:MPI_Isend"), ("match at receive time", "recv.c:MPI_Irecv")],
 ["receive buffer contents", "bytes around the message"],
 [{"name": "pending send/receive record", "meaning": "buffer, count, type and tag of an unmatched operation", "where": "mpiP.h:Req"}])

prop("C02", "Matching is FIFO, tag-selective and confined to one communicator",
 "A receive takes the earliest-posted pending send of its communicator whose tag it accepts (equal tags, or any tag when MPI_ANY_TAG was asked for), and a send is taken by the earliest-posted pending receive of its communicator that accepts its tag. Every message is delivered exactly once; operations that match nothing stay pending, in order, and operations on another communicator never see them.",
 ["histories"], "all interleavings of sends and receives over any number of communicators, tags (whole int range from 0), wildcards and pending depths",
 "The tests post at most five messages with distinct tags; gcov shows the list code 28% covered, and removal from the middle of a queue, wildcards against several candidates and equal tags are never exercised.",
 ["send.c", "recv.c", "list.c", "comm.c"],
 [("tag predicates", "send.c:mpi_match_recv, recv.c:mpi_match_send"), ("ordered queues", "list.c:AP_list_append, AP_list_search_func, AP_list_delete_item"), ("per-communicator queues", "comm.c:mpi_comm_new")],
 ["which message each receive obtained", "completion state of each request"],
 [{"name": "sendlist/recvlist", "meaning": "pending operations of one communicator in posting order", "where": "mpiP.h:Comm"}])

prop("C03", "A request completes exactly when its operation has been matched",
 "MPI_Test reports a request complete if and only if its send or receive has been matched (or names MPI_PROC_NULL); it then sets the request to MPI_REQUEST_NULL, and otherwise leaves the request valid and still matchable. MPI_Wait succeeds exactly on complete requests. Testing or waiting on MPI_REQUEST_NULL succeeds at once with source MPI_ANY_SOURCE and tag MPI_ANY_TAG, and a request freed with MPI_Request_free still has its operation carried out.",
 ["histories"], "all histories of nonblocking operations, completion calls, MPI_Request_free and handle reuse",
 "req.c is 20% covered; the tests only call MPI_Waitall on requests that are all complete.",
 ["req.c", "send.c", "recv.c", "handles.c"],
 [("completion test", "req.c:MPI_Test, MPI_Wait"), ("freeing", "req.c:MPI_Request_free"), ("handle recycling", "handles.c:mpi_free_handle")],
 ["flag", "request handle after the call", "later matching"])

prop("C04", "Array completion calls treat null, pending and complete requests right",
 "MPI_Testany and MPI_Waitany complete one matched request (the lowest-indexed), report its index, and skip null requests; with no active request they give flag true and index MPI_UNDEFINED, and a testany that finds none complete gives flag false and index MPI_UNDEFINED. MPI_Testall completes every request when all are complete and otherwise changes none of them; MPI_Waitall completes all. MPI_Testsome and MPI_Waitsome complete exactly the matched requests, store their indices and statuses in the first outcount entries, and give outcount MPI_UNDEFINED when no request is active.",
 ["histories", "inputs"], "all arrays mixing null, pending, complete, send and receive requests, with statuses requested or MPI_STATUS(ES)_IGNORE",
 "No test calls testany, waitany, testall, testsome or waitsome, nor MPI_Waitall with MPI_STATUSES_IGNORE.",
 ["req.c"],
 [("testany/waitany", "req.c:MPI_Testany, MPI_Waitany"), ("testall/waitall", "req.c:MPI_Testall, MPI_Waitall"), ("testsome/waitsome", "req.c:MPI_Testsome, MPI_Waitsome")],
 ["flag, index, outcount, indices", "request array after the call", "status array"])

prop("C05", "Statuses name the message that was received",
 "After any call that completes a receive, the status holds source 0 and the tag the sender used, MPI_Get_elements gives the number of basic elements the message delivered, and MPI_Get_count gives that number as whole items of the datatype asked about (MPI_UNDEFINED if it is not whole, and both give MPI_UNDEFINED for more than 2^31-1 basic elements). A receive from MPI_PROC_NULL completes at once with source MPI_PROC_NULL, tag MPI_ANY_TAG and count 0, and leaves the buffer alone; a null request completes with source MPI_ANY_SOURCE, tag MPI_ANY_TAG and count 0. A caller that passes MPI_STATUS_IGNORE gets the same effects.",
 ["inputs", "histories"], "all completion calls (Recv, Sendrecv, Wait, Test and the array forms), posting orders, wildcards, counts and datatypes",
 "The tests never call MPI_Get_count or MPI_Get_elements (getcount.c is linked into no test) and only print tags.",
 ["getcount.c", "recv.c", "req.c", "send.c", "mpi.h"],
 [("status filling", "req.c:MPI_Test, recv.c:MPI_Recv"), ("count queries", "getcount.c:MPI_Get_count, MPI_Get_elements")],
 ["MPI_SOURCE, MPI_TAG", "MPI_Get_count, MPI_Get_elements"])

prop("C06", "Probing predicts the next receive and consumes nothing",
 "MPI_Iprobe says a message is there if and only if a receive with the same source, tag and communicator would match at once, and its status (tag, source, counts) then describes exactly the message which that receive gets. Probing changes no state: the pending messages, their order and all requests stay as they were. MPI_Probe returns the same status whenever a message is there.",
 ["histories"], "all histories of pending sends and receives, tags and wildcards, with probes inserted anywhere",
 "probe.c is linked into no test program at all.",
 ["probe.c", "send.c"],
 [("queue search", "probe.c:MPI_Iprobe"), ("blocking form", "probe.c:MPI_Probe")],
 ["flag and status", "subsequent receives"])

prop("C07", "Datatype geometry follows the type map",
 "For every datatype, size is the sum of its elements' sizes (MPI_UNDEFINED beyond 2^31-1), and, unless a bound is set explicitly with MPI_LB or MPI_UB (directly or through a constituent type), the lower bound is the smallest element displacement, the upper bound the largest end of an element, and the extent their distance rounded up to a multiple of the largest element size. An explicit lower (upper) bound is the minimum (maximum) over all explicit ones, and the extent is then exactly upper bound minus lower bound. A type without elements has size, bounds and extent 0, and every predefined datatype has the size and extent of the C or Fortran type it names.",
 ["programs", "inputs"], "all predefined types and all nestings of the type constructors, with any counts, block lengths, strides and displacements (zero, negative, overlapping, unordered)",
 "The tests build about a dozen fixed types and check only transferred data, never bounds or sizes; explicit bounds appear only in commented-out code.",
 ["type.c", "type.h", "type_const.c"],
 [("flattening constructor", "type.c:Type_struct"), ("bounds", "type.c:calc_lb, calc_ub, Type_extent"), ("predefined table", "type_const.c:simpletypes"), ("element sizes", "type.c:Simpletype_length")],
 ["MPI_Type_size, MPI_Type_extent, MPI_Type_lb, MPI_Type_ub"])

prop("C08", "Type constructors select the data they describe, in order",
 "A derived datatype denotes the sequence of its constituents' elements, in constructor order, at the displacements its constructor describes: contiguous, vector, hvector, indexed, indexed_block, hindexed and struct types that describe the same layout are interchangeable in every operation, and a duplicate is interchangeable with its original. Freeing a datatype sets its handle to MPI_DATATYPE_NULL and affects no type built from it or duplicated from it.",
 ["programs", "inputs"], "all constructor nestings, including zero counts and block lengths, negative strides, large counts, and frees of constituents",
 "The tests use each constructor once on MPI_INT-like data with literal arguments; duplication is declared but untested.",
 ["type.c", "copy.c", "pack.c"],
 [("constructors", "type.c:Type_contiguous, Type_hvector, Type_vector, Type_hindexed, Type_indexed, Type_create_indexed_block, Type_struct"), ("duplication", "type.c:Type_dup"), ("free", "type.c:MPI_Type_free")],
 ["packed image", "transferred bytes", "geometry queries"])

prop("C09", "Pack and unpack are inverse and respect position and size",
 "MPI_Pack appends the selected elements, gap-free and in type-map order, at position in the pack buffer and advances position by count times the type's size, which is also what MPI_Pack_size answers (MPI_UNDEFINED where it does not fit a Fortran INTEGER); MPI_Unpack of the same signature reads them back into the locations its datatype selects, advancing likewise. Any sequence of packs, optionally sent as MPI_PACKED, followed by the corresponding unpacks restores the data, and no other byte of either buffer changes. A pack or unpack that would pass the given buffer size is refused and touches nothing beyond it.",
 ["inputs", "histories"], "all sequences of packs and unpacks with any types, counts, starting positions and buffer sizes",
 "Two tests pack two or three values into an ample buffer; exact-fit, overflow, gaps and regrouped unpacking are not tried.",
 ["pack.c", "type.c"],
 [("pack", "pack.c:Pack"), ("unpack", "pack.c:Unpack"), ("size", "pack.c:Pack_size")],
 ["pack buffer bytes", "position", "termination on overflow"])

prop("C10", "Collectives deliver the single process's own contribution",
 "Gather, gatherv, allgather, allgatherv, scatter, scatterv, alltoall, alltoallv, alltoallw, reduce, allreduce, reduce_scatter and scan place in the receive buffer, at the displacement given for rank 0 (in extents of the datatype; in bytes for alltoallw), exactly the data selected by the send arguments at their displacement, whatever the reduction operation. They change no other byte, never call a user reduction function, and do not disturb pending point-to-point messages.",
 ["inputs", "histories"], "all thirteen operations, counts, displacements (negative and large ones included), send and receive datatypes of equal signature, operations and communicators",
 "The tests call each with one struct, count 1 and displacement 0 on MPI_COMM_WORLD.",
 ["collective.c", "copy.c", "op.c"],
 [("copy to self", "collective.c"), ("displacement scaling", "collective.c:MPI_Gatherv, MPI_Scatterv, MPI_Alltoallv"), ("typed copy", "copy.c:Pcopy_data2")],
 ["receive buffer and its surroundings"])

prop("C11", "In-place, MPI_ROOT and data-free collectives change no data",
 "A collective given MPI_IN_PLACE (as the send buffer; for scatter and scatterv as the receive buffer) leaves the data buffer as it is, which is the right result on one process; this holds for gather(v), allgather(v), scatter(v), reduce, allreduce, reduce_scatter, scan and alltoall(v,w). Bcast and barrier change nothing, and a gather(v), scatter(v) or bcast called with root MPI_ROOT is a successful no-op.",
 ["inputs", "histories"], "all operations, buffers, counts, datatypes, both language bindings",
 "No test passes MPI_IN_PLACE or MPI_ROOT.",
 ["collective.c", "mpi.c"],
 [("in-place test", "collective.c"), ("Fortran sentinel translation", "mpi.c:mpi_c_in_place")],
 ["data buffer contents"])

prop("C12", "Every communicator is an independent one-process world",
 "MPI_Comm_dup, create, split, Cart_create, Intercomm_create and Intercomm_merge yield a fresh communicator of size 1 and rank 0, distinct from every live one, with no pending messages; create with an empty or null group, split with MPI_UNDEFINED and intercomm_create of two null communicators yield MPI_COMM_NULL. Freeing a communicator sets the handle to MPI_COMM_NULL and leaves all other communicators and their pending messages untouched, also when its handle value is later reused.",
 ["histories"], "all histories of communicator creation, use and freeing interleaved with messages on several communicators",
 "comm.c is 18% covered: one communicator is ever created (dup or create) and none is freed, split or merged.",
 ["comm.c", "ic_merge.c", "cart.c", "handles.c"],
 [("creation", "comm.c:mpi_comm_new"), ("freeing", "comm.c:MPI_Comm_free"), ("merge", "ic_merge.c:MPI_Intercomm_merge")],
 ["handles, size, rank", "delivery on other communicators"])

prop("C13", "Groups behave as sets over one process",
 "Group values obey set algebra over the single rank 0: union, intersection, difference, incl and range_incl give exactly the set that the operation names, and the group of a communicator is the one-process group. Rank translation maps rank 0 to 0 in a group that has it and to MPI_UNDEFINED in the empty group, entry by entry. MPI_Comm_create yields a communicator exactly for the nonempty group, and freeing a group makes that handle MPI_GROUP_NULL and no other.",
 ["inputs", "histories"], "all expressions over the group operations and all rank arrays",
 "group.c is linked into no test program (only MPI_Comm_group is called).",
 ["group.c", "comm.c"],
 [("set operations", "group.c"), ("group of a communicator", "comm.c:MPI_Comm_group")],
 ["group handles", "translated ranks", "resulting communicators"])

prop("C14", "Live objects are distinct and stable however many there are",
 "Up to the documented limit of about 256k objects, any mix of live requests, communicators and datatypes has pairwise distinct non-null handles per kind, and no object's behaviour changes when others are created, completed or freed, in any order and at any scale. A handle that was released may be reused and then denotes only the new object.",
 ["histories"], "all creation/release orders, with live populations from one to far beyond one allocation block",
 "The tests hold at most about forty handles, all within the first static block of 256, and release them in creation order.",
 ["handles.c", "req.c", "type.c", "comm.c"],
 [("handle table growth", "handles.c:mpi_alloc_handle, init_block"), ("lookup", "handles.c:mpi_handle_to_ptr"), ("free list", "handles.c:mpi_free_handle")],
 ["handle values", "messages, types and communicators behind them"],
 [{"name": "blocks/nextfree", "meaning": "handle table and its free list", "where": "handles.c"}])

prop("C15", "Balanced programs run forever in constant resources",
 "A history that completes or frees every request it starts, receives every message, and frees every communicator and datatype it creates returns the library to its earlier resource use: repeating it any number of times neither grows memory nor exhausts handles. This holds whichever completion, probe, collective, pack or freeing calls were used.",
 ["histories"], "all balanced histories, repeated without bound",
 "A leak of one list node or handle per operation is invisible to short functional tests.",
 ["handles.c", "list.c", "req.c", "comm.c", "type.c"],
 [("handle recycling", "handles.c:mpi_free_handle"), ("queue node release", "list.c:AP_list_delete_item, AP_list_free"), ("type release", "type.c:MPI_Type_free")],
 ["allocated bytes between repetitions", "termination of long runs"])

prop("C16", "The Fortran and C bindings are the same library",
 "Every call has the same effect through its Fortran binding as through C: same data movement, matching, statuses, flags and handles, interchangeable between the languages within one program, with array indices counted from 1 in Fortran and from 0 in C, and INTEGER arguments read and written as default INTEGERs. MPI_STATUS_IGNORE, MPI_STATUSES_IGNORE and MPI_IN_PLACE are recognised from Fortran, the error argument is set to MPI_SUCCESS, and every constant in mpif.h (included, or through the Fortran module mpi) has the value it has in mpi.h, which declares every supported call.",
 ["programs", "configurations"], "all programs that mix calls of both bindings",
 "The Fortran tests repeat the fixed C cases; they use none of the sentinels, no completion call but mpi_waitall, and no group, cart, probe or count routine.",
 ["mpi.c", "send.c", "recv.c", "req.c", "probe.c", "collective.c", "type.c", "pack.c", "comm.c", "group.c", "cart.c", "getcount.c", "mpif.h", "fort.F90"],
 [("wrappers", "FC_FUNC functions in every .c file"), ("sentinel translation", "mpi.c:mpi_c_status, mpi_c_statuses, mpi_c_in_place"), ("constant consistency", "mpi.c:mpi_init_fort")],
 ["results through either binding"])

prop("C17", "Misuse stops the program; correct use is silent",
 "A call that cannot be carried out (a blocking wait, receive, probe or send that can never complete, ready-mode send without a posted receive, rank or root other than 0, communication with an uncommitted datatype, pack or unpack past the buffer, null or oversized groups, more processes than one) prints a message and terminates the program abnormally instead of returning. Programs without misuse never terminate abnormally and print nothing. MPI_Abort ends the program with the given error code.",
 ["inputs", "histories"], "all misuses at any point of any otherwise valid history, through either binding",
 "No test makes a wrong call, so a check that stopped firing (or fired too often) would go unnoticed.",
 ["req.c", "send.c", "recv.c", "probe.c", "collective.c", "copy.c", "pack.c", "group.c", "cart.c", "mpi.c"],
 [("deadlock detection", "req.c:MPI_Wait, MPI_Waitall, MPI_Waitany, MPI_Waitsome; probe.c:MPI_Probe"), ("argument checks", "send.c, recv.c, collective.c, group.c, cart.c"), ("commit check", "copy.c:Pcopy_data2")],
 ["exit status, diagnostics"])

prop("C18", "Displacements and addresses are handled in full 64-bit range",
 "Data transfer, packing and geometry are exact when displacements, strides, extents or absolute addresses (from MPI_Get_address or MPI_Address, used with MPI_BOTTOM) exceed 32 bits, in point-to-point calls, in collectives with displacements, and in type constructors. An address obtained from MPI_Get_address is that of the object.",
 ["inputs"], "all displacements whose target is addressable, below and above 2**31 and 2**32, and negative",
 "All test types span less than a kilobyte.",
 ["copy.c", "type.c", "collective.c", "pack.c"],
 [("offset arithmetic", "copy.c:Pcopy_data2"), ("bounds arithmetic", "type.c:calc_lb, calc_ub"), ("displacement scaling", "collective.c"), ("addresses", "type.c:MPI_Get_address, MPI_Address")],
 ["bytes at far offsets", "geometry queries"])

prop("C19", "All ways of sending are the same send",
 "In a program where the receive is posted first, MPI_Send, Ssend, Rsend, Isend+Wait, Irsend+Wait and the sending half of MPI_Sendrecv all deliver the same data, statuses and matching; a blocking receive equals MPI_Irecv followed by MPI_Wait. MPI_Sendrecv receives its own message when nothing earlier matches and works with different types, tags, and MPI_PROC_NULL on either side. Any send to MPI_PROC_NULL completes at once and delivers nothing.",
 ["programs", "inputs"], "all programs, under replacement of one send form by another",
 "Only isend (and one mpi_send) is ever called; MPI_Sendrecv, Ssend, Rsend and Irsend are untested.",
 ["send.c", "recv.c"],
 [("blocking forms", "send.c:MPI_Send, MPI_Ssend, MPI_Rsend, MPI_Sendrecv"), ("ready form", "send.c:MPI_Irsend"), ("null process", "send.c:MPI_Isend, recv.c:MPI_Irecv")],
 ["received data and statuses"])

prop("C20", "Cartesian topologies are the one-process grid",
 "For every number of dimensions, MPI_Dims_create on one process sets every dimension to 1, MPI_Cart_create accepts dimensions no larger than 1 and gives a working communicator, MPI_Cart_get on it (or a duplicate of it) reports dimensions 1, the periods given and coordinates 0, and MPI_Cart_coords of rank 0 reports coordinates 0. Exactly the first maxdims (ndims) array entries are written; more than one process or a rank other than 0 is refused.",
 ["inputs"], "all dimension counts and arrays, through either binding",
 "cart.c is linked into no test program.",
 ["cart.c"],
 [("cart functions", "cart.c")],
 ["output arrays and their surroundings", "resulting communicator"])

prop("C21", "Startup and environment inquiry answer correctly within their buffers",
 "MPI_Initialized is false before and true after MPI_Init or MPI_Init_thread (which grants the level asked for), and MPI_COMM_WORLD then has size 1 and rank 0. Processor name, library version and error string are null-terminated (blank-padded for the Fortran version string), stay within MPI_MAX_PROCESSOR_NAME, MPI_MAX_LIBRARY_VERSION_STRING and MPI_MAX_ERROR_STRING, have the reported length, and name the host (truncated if too long) and the error code. MPI_Wtime differences are elapsed seconds; MPI_Get_version answers MPI_VERSION and MPI_SUBVERSION; info, errhandler and op handles can be created, set, converted and freed, always with success.",
 ["inputs", "configurations"], "all host names and gethostname outcomes, error codes, thread levels and points in time",
 "The tests print these strings without checking them and never vary the host name.",
 ["mpi.c", "time.c", "info.c", "error.c", "op.c"],
 [("init", "mpi.c:MPI_Init, MPI_Init_thread"), ("strings", "mpi.c:MPI_Get_processor_name, MPI_Get_library_version, MPI_Error_string"), ("clock", "time.c:MPI_Wtime")],
 ["returned strings, lengths and bytes behind them"])

prop("C22", "Build options change diagnostics, not results",
 "Built with type checking, information output, internal checks (CHECKS), test internals, other Fortran real sizes or any of the Fortran name manglings of mpiP.h, the library still builds and every correct program gives the same data, statuses and completion as in the default build (predefined Fortran types taking the configured sizes). With type checking on, a transfer whose element types differ is refused, and one whose element types agree is not. A Fortran program whose default REAL, DOUBLE PRECISION or COMPLEX size is not the configured one is refused when it initialises the library.",
 ["configurations", "programs"], "all correct programs under each configure option; all pairs of element sequences for type checking; matching and mismatched Fortran sizes; each name mangling",
 "Only the default configuration is ever built or run.",
 ["copy.c", "type.h", "type_const.c", "recv.c", "send.c", "probe.c", "mpiP.h", "configure.ac"],
 [("type checking", "copy.c:Pcopy_data2"), ("information output", "INFO blocks"), ("Fortran sizes", "type.h:FSIZE_REAL, FSIZE_DPRECISION")],
 ["results under each build"])

prop("C23", "No correct program makes the library touch memory it should not",
 "Whatever mixture of supported calls a correct program makes, in whatever order and through either binding, the library reads only live memory that belongs to it or to the message in question, writes only the locations the call names, and never lets the result depend on uninitialised memory. Objects still in use by pending operations stay usable until those complete.",
 ["histories", "programs"], "all correct programs mixing point-to-point, collective, type, pack, group, communicator and probe calls",
 "The tests run short fixed programs without sanitizers and cover well under half of the request, list and communicator code.",
 ["copy.c", "type.c", "handles.c", "list.c", "req.c", "send.c", "recv.c"],
 [("typed copy", "copy.c"), ("allocation", "type.c:Type_struct, Type_dup"), ("handle and list management", "handles.c, list.c")],
 ["sanitizer reports", "bytes of all user buffers", "results under different memory fill patterns"])

prop("C24", "The list module keeps sequences",
"A list made with AP_list_new is a sequence: AP_list_append and AP_list_prepend add at its ends, AP_list_delete removes the first item with the given data (and says whether there was one), AP_list_delete_item exactly the item given, and size, head, tail, search, apply, the traversals in both directions and the two print functions all show the sequence that results. AP_list_duplicate gives an equal, independent list, AP_list_free releases the list and all its items and no other, and AP_listitem_verify is true exactly while some list is alive.",
["histories", "inputs"], "all histories of operations on several lists, with repeated, null and wide data values, with and without CHECKS",
"The tests reach lists only through short message queues, which are appended to and mostly emptied from the front.",
["list.c", "list.h", "listP.h", "listops.h"],
[("list operations", "list.c")],
["returned items and values", "traversals", "printed text"])

prop("C25", "Exhaustion stops the program, never goes unnoticed",
"When the library cannot get the memory that a call needs, or a datatype would need more elements than it can represent, or more objects are live than it has handles for, it prints a message and terminates the program abnormally. It never returns from such a call without having carried it out, never touches memory through a pointer it did not get, and never disturbs what was there before. A program whose allocations succeed is not affected, and neither is one that stays within those limits.",
["faults", "histories", "inputs"], "every allocation the library makes, in every history of calls; all constructor arguments that overflow an element count; all populations of live objects",
"Allocations never fail in the tests, which have a few dozen live objects and elements.",
["mpi.c", "handles.c", "list.c", "type.c", "comm.c", "group.c", "collective.c"],
[("allocation", "mpi.c:mpi_malloc; list.c:AP_list_new, AP_listitem_malloc"), ("handles", "handles.c:mpi_alloc_handle"), ("element counts", "type.c:Type_struct, Type_dup")],
["termination and its message", "bytes of all buffers up to the failing call", "sanitizer reports"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
for p in P:
    n = p["statement"].count(". ") + 1
    if n > 3 or len(p["title"]) > 80: print("CHECK", p["id"], n, len(p["title"]))
