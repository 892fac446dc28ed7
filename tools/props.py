#!/usr/bin/env python3
"""Writes properties.jsonl (the list is kept here because it is easier to read)."""
import json, os

P = []


def p(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append({"id": id, "title": title, "statement": " ".join(statement.split()),
              "quantifier": {"over": over, "text": " ".join(text.split())},
              "why_tests_cant": " ".join(why.split()),
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": observe, "hook_needed": hook}})


TQ = "include/bcl/transparent_queue.h"
p("Q01", "TransparentQueue is a FIFO queue in every history of operations",
  """After any sequence of push, emplace, pop and writes through front()/back(), a TransparentQueue contains
  exactly the pushed and not yet popped pointers in insertion order: size(), empty(), front() and back() say so,
  pop() removes and returns the oldest one, and pop() of an empty queue returns null. Null pointers are elements
  like any other, an argument of emplace may refer to an element of this queue, and neither the switch from one element to many nor a return to few elements is observable.
  All six comparison operators agree with the (lexicographical) comparison of the two element sequences, whatever
  operations produced each queue.""",
  ["histories"], "All operation sequences up to a depth over a small pointer alphabet (null included), long fills and drains, and all pairs of short contents in every internal representation.",
  "The 5 stable tests check == and < of queues with at most three pushed elements; no test pops, emplaces, mixes operations or compares queues that have shrunk.",
  [TQ], [("push/emplace/pop and the single-element/queue switch", TQ), ("operator==, operator<", TQ)],
  ["size()", "empty()", "front()", "back()", "pop()", "comparison operators"],
  [("representation", "one inline pointer or a heap queue", TQ)])
p("Q02", "TransparentQueue copies, moves, assignments and swaps are value-like",
  """Copy construction and copy assignment make a TransparentQueue equal to and independent of its source; move
  construction and move assignment transfer all elements in order and leave the source a usable empty queue; swap
  (member and free function) exchanges the contents; self-assignment and self-swap change nothing. This holds for
  any combination of previous contents of both queues and for any later operations on them, and storage is freed
  exactly once.""",
  ["histories"], "All sequences of copy/move construction and assignment, swap, push, emplace, pop and destruction over up to three queues up to a depth.",
  "No test assigns, moves or swaps a queue; aliasing, leaks and double frees show up only in particular sequences over several queues.",
  [TQ], [("copy/move constructors and assignments, swap, destructor", TQ)],
  ["contents of all queues after every operation", "heap blocks (AddressSanitizer)"])
CH = "include/bcl/Chain.h"
p("C01", "Intrusive chains stay well linked under every splice and merge",
  """After any sequence of splice and merge operations, through nodes or iterators, next and previous links are mutually
  inverse. splice puts the node directly after (before) the target and before its former neighbour, cutting the chain
  the node is taken from at that node; merge joins the two chains whose ends meet at the target and cuts what was
  linked there before; a null argument cuts the link; nothing else changes. Chains with different tags through one node are independent.""",
  ["histories"], "All sequences of the eight operations with every pair of nodes (neighbours and nodes of one chain included, null included) up to a depth, all link structures of up to 5 nodes.",
  "There is no test of Chain; corrupted links appear only for particular relative positions (already adjacent nodes, same chain, chain ends).",
  [CH], [("spliceNext/splicePrev/mergeNext/mergePrev", CH), ("ChainTraits, ChainIterator[C]", CH)],
  ["getNext/getPrev of every node"])
p("C02", "Chain iterators walk, compare and convert exactly like the node links",
  """For every chain, bcl::ChainIterator and ChainIteratorC visit the nodes in link order in both directions; pre- and postfix
  increment and decrement have the usual semantics; a dereferenced iterator is the node itself; equality between
  iterators, and between an iterator and a node pointer, holds exactly if both denote the same node, and an iterator past an end is false.""",
  ["histories"], "All chain shapes of up to 5 nodes, every start node and every sequence of iterator steps and comparisons up to a depth.",
  "There is no test of the iterators.",
  [CH], [("ChainIteratorC", CH), ("ChainIterator", CH)], ["iterator dereference, comparison and stepping"])
J = "include/bcl/Json.h"
p("J01", "JSON written by the library is read back as the same value",
  """For every value of a supported type (integers, floating point numbers with at most six decimals, bool, characters, strings, C strings, vectors, sets, maps, pointers, optionals, arrays and
  static maps, nested in any way, and JSON objects made of them) the text produced by the unparser is accepted by the parser for this type, and parsing it
  yields an equal value without errors; a null pointer or an empty optional is written as an absent value. Strings may contain any bytes, including quotes, backslashes, control characters and delimiters.""",
  ["inputs"], "All strings up to a length over an alphabet of special characters in every position (value, map key, element), boundary integers, and all small nestings of containers.",
  "No test covers Json.h; special characters at particular positions of a string and particular nestings decide whether a text can be read back.",
  [J], [("Traits<>::unparse", J), ("Traits<>::parse, Lexer, unescape", J)], ["Parser<>::unparse, Parser<>::parse", "the parsed object"])
p("J02", "The JSON parser is total, memory safe and reports every rejected text",
  """Parsing any text terminates and reads no memory outside of the text. It succeeds exactly if the text
  is in the language which the parser accepts for the expected object, and then the object has the values written in the text; otherwise parse() returns
  false and at least one error is recorded whose position lies inside of the text (or at its end), and a rejected text leaves nothing allocated that the caller cannot reach and nothing uninitialized. A conversion to a number takes the leading integer (or decimal number) of its text and rejects what does not
  fit, an unknown escape sequence stands for its character, and an empty array is also an empty map.
  Positions which a lexer stores are restored with their tokens, the last one first, so that a value is read in the same way whether or not the reader of its type looks ahead.""",
  ["inputs"], "All texts up to a length over an alphabet of JSON tokens and raw characters, and all single-character deletions, insertions and replacements of well-formed documents, against a reference recognizer; all histories of a lexer up to a length.",
  "No test parses anything; malformed texts are unbounded and each lexer state has its own boundary conditions.",
  [J], [("Lexer::goToNext, checkQuote, checkNumber, checkIdentifier", J), ("Parser, Traits<>::parse", J)],
  ["return value of parse()", "errors()", "AddressSanitizer"])
p("J03", "JSON objects are matched by name and field, in any field order",
  """A parser of several object types accepts a document exactly for the object type its name selects, wherever among the members the name stands, fills each declared field with
  the value given for its key independent of the order of the keys, skips members with unknown keys of any shape, leaves fields without a member at their initial value, and never
  assigns a value to another field. The macros declare objects of any number of fields and of types with commas, and the generator script produces macros which do so.""",
  ["inputs", "configurations"], "All orders of members, all subsets of fields, unknown members of every shape at every position, positions of the name, for a family of objects.",
  "No test covers object dispatch; faults appear only for particular orders and shapes of neighbouring members.",
  [J, "include/bcl/JsonObjectMacros.h", "include/bcl/cell.h", "scripts/json_object_macro_gen.pl"], [("Parser::parseName, skipInternal", J), ("Traits<json::Object>", J), ("JSON_OBJECT macros", "include/bcl/JsonObjectMacros.h")],
  ["the callback or object that receives the value", "fields of the parsed object"])
E = "include/bcl/Equation.h"
p("E01", "Solving a binomial system yields exactly its integer solutions",
  """For every instantiated system of equations a*x + b*y = c with an integer solution, the parametric solution returned by solve()
  describes exactly the integer solutions: for all integer values of the parameters every equation is satisfied, and every integer solution is obtained from
  some parameter values. If the system is not assumed to be solvable, solve() stops at an equation without an integer solution and returns the number of equations before it.
  The extended Euclidean algorithm returns the non-negative greatest common divisor and coefficients which produce it for all pairs of integers whose magnitudes are representable.
  This holds for every pair of column and value types.""",
  ["inputs"], "All systems of up to three equations over up to four variables with small coefficients and constants, compared with a brute-force enumeration of solutions in a box.",
  "There is no test of Equation.h; wrong signs, columns or substitutions matter only for particular combinations of coefficients and shared variables.",
  [E], [("euclidGCD", E), ("BinomialSystem::solve", E)], ["getSolution()", "return value of solve()"])
p("E02", "Guards and computed monomials select and instantiate the right equations",
  """instantiate() keeps exactly the equations whose guards are all true and whose inverse guards are all false, and adds the values of all computed monomials to their constants exactly once;
  only kept equations are solved, counted and listed as instantiated. Reversing a solution and shifting it to non-negative constants
  preserve the described set of solutions under the documented change of variables (reversing requires non-zero parameter coefficients), and the printed form shows the values of the equations and of the solution, for every pair of column and value types.""",
  ["inputs", "configurations"], "All guard valuations and assignments of guards, inverse guards and computed monomials to up to four equations; all small solutions for the two transformations.",
  "There is no test of Equation.h; the selection permutes an index table and so depends on which combination of equations is dropped.",
  [E], [("BinomialSystem::instantiate", E), ("instantiated_begin/end, printInstantiated", E), ("reverseSolution, solutioWithPositiveConstant", E)],
  ["instantiated_size()", "instantiated range", "getSolution()", "printed text"])
p("M01", "Multidimensional arrays map index tuples to distinct row-major elements",
  """For every number of dimensions and every size, each valid index tuple of marray and marray_f denotes its own element inside of the
  allocated storage, neighbouring last indices are adjacent, constant and mutable access agree, whatever the types of the indexes are, and elements keep their values when others are written. Move construction and
  move assignment transfer the elements and the shape, free the storage that was there before, and storage is freed exactly once.""",
  ["inputs", "histories"], "All shapes with 2 to 5 dimensions and extents 1 to 4, all index tuples, all histories of moves between up to three arrays.",
  "There is no test of the arrays; a wrong stride is invisible for square or two-dimensional shapes.",
  ["include/bcl/marray.h", "include/bcl/marray_f.h"], [("allocate, msubarray", "include/bcl/marray.h"), ("offset", "include/bcl/marray_f.h")],
  ["addresses and values of elements", "AddressSanitizer"])
CE = "include/bcl/cell.h"
p("S01", "Static maps keep one value per key and visit keys in declaration order",
  """A StaticMap or StaticTypeMap stores one independent value for each key: values written or initialized for a key are read for that key only, whatever the number and order of keys.
  for_each and the conversion, copy, move and clear functors visit each cell exactly once in the order of declaration and transfer only the values of keys that exist in both maps; merging and reversing
  type lists keeps the set of keys.""",
  ["configurations", "histories"], "A family of maps with 0 to 5 keys in all permutations, all write histories up to a depth, all pairs of maps for transfers.",
  "The two examples print one map; ordering and cross-key effects depend on the number and order of the keys.",
  [CE, "include/bcl/utility.h"], [("Cell/StaticMap/StaticTypeMap", CE), ("for_each, Clear/Init/Copy/Move functors, MergeCell, ReverseCell", CE)],
  ["values by key", "visiting order"])
p("S02", "Tagged tuples and pairs give each tag exactly its own element",
  """In a tagged tuple or pair each tag (and each alias of it) denotes exactly one element, the one declared with it, for reading and for writing, and positional access, comparison, assignment,
  conversion to std::tuple/std::pair, for_each and forward_as_args see the same elements in the declared order, once each.""",
  ["configurations", "inputs"], "Tuples with 1 to 4 elements, all tags and aliases, all orders, all values of a small domain.",
  "There is no test of tagged tuples; a wrong index shows up only for particular positions.",
  ["include/bcl/tagged.h", "include/bcl/tuple_utils.h", "include/bcl/convertible_pair.h"], [("get<Tag>, tagged_tuple, tagged_pair", "include/bcl/tagged.h"), ("for_each, forward_as_args", "include/bcl/tuple_utils.h")],
  ["get<>", "for_each"])
TR = "include/bcl/trait.h"
p("T01", "A trait descriptor never holds conflicting traits and follows set and unset",
  """In every state a TraitDescriptor can reach, no two traits of one alternative group are set together unless a common declaration allows them. Setting a trait makes it hold, removes exactly
  the traits which conflict with it and touches no other trait (of two conflicting traits set at once at most one remains); unsetting removes exactly that trait or group; queries, iteration, comparison and conversion report exactly the set traits.""",
  ["histories"], "All states of descriptors reachable by set and unset operations (complete breadth-first search), every operation in every state, for a family of trait declarations.",
  "There is no test of traits; the bit encoding is computed at compile time and mistakes affect only particular pairs of traits in particular states.",
  [TR], [("TraitDescriptor, TraitKeyImp", TR), ("trait::set/unset/update", TR)], ["is<>(), is_any", "for_each", "operator=="])
p("T02", "A trait set owns exactly the descriptions of the traits which are set",
  """In every history of set, update, release, unset, assignment and move, a TraitSet has a description for a trait exactly if a description was attached while the trait is set, returns the one attached last,
  hands over ownership on release, and frees each description it owns exactly once, including those of traits displaced by a conflicting trait. The same holds when descriptions are transferred from sets of other types.""",
  ["histories"], "All operation sequences up to a depth over a set with conflicting and independent traits; live descriptions are counted.",
  "There is no test of TraitSet; leaks and dangling descriptions need particular sequences.",
  [TR], [("TraitSet", TR), ("StaticTraitMap", TR)], ["get<>()", "number of live descriptions", "AddressSanitizer"])
IC = "include/bcl/IntrusiveConnection.h"
p("I01", "Every request gets exactly one response, in order, under every schedule",
  """For every interleaving of the socket thread and the server thread, requests are passed to answer() one by one, in the order received and split at the delimiter, and each one that was answered gets exactly its own response followed by the delimiter (the null character is a delimiter like any other).
  After the server has dropped its connection each later request, the rest of the same message included, gets the REJECT response and no user function is called; after the
  socket is closed answer() returns false without calling the user function.""",
  ["schedules", "inputs"], "All schedules of the two threads up to a preemption bound (with spurious wakeups) for all small scripts of messages, delimiters, answers, drops and closes.",
  "There is no test of connections; lost, duplicated or swapped responses and lost wakeups need a particular interleaving.",
  [IC], [("connect() callbacks", IC), ("answer(), destructor", IC)], ["messages sent by the socket", "requests seen by the server function"],
  [("status", "shared request/response cell with two mutexes and conditions", IC)])
p("I02", "A connection never deadlocks, leaks or touches freed memory under any schedule",
  """For every interleaving of the two threads and every point at which the server drops, moves or finishes its connection or the client closes the socket, both threads finish, the shared state is freed
  exactly once after its last use, and a moved-from connection is inert while a connection replaced by assignment is dropped.""",
  ["schedules"], "All schedules up to a preemption bound, with the memory checked by AddressSanitizer and deadlock detected by the scheduler.",
  "A use after free between a notify and a wakeup, or a missed wakeup, cannot be provoked by a test that does not control the scheduler.",
  [IC], [("destructor, move operations, closed callback", IC)], ["termination of both threads", "heap blocks", "AddressSanitizer"])
CS = "lib/Socket/CSocket/CSocket.cpp"
p("N01", "The socket server delivers and sends every byte, in order and once",
  """For every way the operating system splits, shortens or interrupts transfers, the concatenation of the messages passed to the receive callbacks of a connection equals the bytes the client sent (any byte values, any positive buffer size), each callback is called once per chunk in order of registration,
  and every message sent successfully reaches the client completely, in order and exactly once; an interrupted transfer is continued, and a transfer that cannot be completed is reported as a send or receive error.""",
  ["fault_sequences", "inputs"], "All answers of recv and send (every chunk size, short writes, errors, interruptions) up to a number of deviations for small messages with special bytes.",
  "There is no test of the socket library; the kernel rarely shortens transfers on a loopback connection.",
  [CS, "include/bcl/Socket.h"], [("SocketImp::send, sendData", CS), ("SocketImp::run, receiveData", CS)], ["bytes at the operating system interface", "callbacks", "status events"])
p("N02", "Every server or connection failure is reported and releases its socket",
  """For every system call that fails, startServer reports the matching error status, closes every descriptor it has opened exactly once and uses none after closing it; start-up failures end the server, failures of one connection end that connection only (a thread that cannot be created is reported as an unknown error, a connection ends irregularly after a send error). A
  connection reports Accept first and Close (or CloseError) last, calls each closed callback exactly once with whether the connection ended regularly, and calls nothing for it afterwards; the addresses and ports reported are those of the connection.""",
  ["fault_sequences", "schedules"], "Every single and double fault of the system calls for up to three connections, under the schedules of the connection threads.",
  "There is no test of the socket library, and start-up and accept failures cannot be provoked on demand.",
  [CS], [("startServer", CS), ("SocketImp::closeSocket", CS)], ["status events", "open descriptors", "closed callbacks"])
p("N03", "The server never exceeds the connection limit and serves every client",
  """With a limit of N at most N connections are served at the same time in every schedule, every client that the listening socket hands out is eventually served once others have ended, connections of different clients do not affect each other,
  and the reuse of a descriptor number by the operating system never ends, blocks or mixes up connections.""",
  ["schedules"], "All schedules of the accept loop and up to three connection threads up to a preemption bound, for limits 0 to 3 and with descriptor reuse.",
  "Descriptor reuse before a thread has finished, and the limit itself, depend on schedules which a test cannot force.",
  [CS], [("sanitizeConnections, ActiveSockets", CS)], ["number of open connections at every accept", "termination"])
ND = "lib/Socket/NodeJSSocket/NodeJSSocket.cpp"
p("N04", "The Node.js socket delivers every chunk, message and close event unchanged",
  """For every connection made by the addon's connect(send, on) and every history of 'data' and 'close' events, whenever garbage is collected: each receive callback gets each chunk once, in order of registration (callbacks added while an event is delivered get later ones), with exactly the bytes of the chunk, null bytes and bytes that are no text included;
  each message of UTF-8 text which the server sends is passed to the send function at once, once, in order and as exactly that string; each closed callback is called once with the had_error value. Connections do not affect each other and stay valid until all close listeners have been called; afterwards,
  and after any number of messages and connections, nothing they used remains allocated, the functions passed to connect included. Wrong arguments of connect, 'data' which is no Uint8Array, and 'close' without a boolean throw a TypeError, call no callback and do not end the process.""",
  ["histories", "inputs", "schedules"], "All scripts of server operations up to a length, all event histories up to a depth on one and two connections, garbage collection before any listener and event, all bytes, lengths and Unicode characters.",
  "The addon is not built by the tests; text without null bytes and a garbage collector that does not run between two listeners hide all of its failures.",
  [ND, "include/bcl/Socket.h"], [("SocketImp::send/receive/closed and the wrappers of listeners", ND), ("Connection: construction, startServer, lifetime", ND)],
  ["arguments of callbacks and of the send function", "exceptions", "heap blocks of the addon (AddressSanitizer), objects of the engine"])
R = "include/bcl/RedirectIO.h"
p("R01", "Redirection reports exactly the data written since the last mark",
  """After redirecting a descriptor to a file, everything written to the descriptor goes to the file and nowhere else; isDiff() is true exactly if data was written since the last mark, diff() returns exactly the bytes written since the mark,
  setDiffPos() moves the mark to the current end and resetDiffPos() back to the start of the redirection. Append mode keeps previous contents, rewrite mode removes them, and moving the object keeps the redirection. (For the output modes, one live redirection of a file at a time.)""",
  ["histories"], "All sequences of writes, isDiff, diff, setDiffPos, resetDiffPos and moves up to a depth, in all modes and for several lengths around the internal buffer size.",
  "There is no test of RedirectIO; stale stream positions show up only for particular sequences.",
  [R], [("constructor, isDiff, diff, setDiffPos", R)], ["the file", "diff()", "errors()"])
p("R02", "Every failing file operation of a redirection is reported and nothing is leaked",
  """If any file operation used by a redirection fails, the call returns its documented failure value, errors() names the failed operation and its error code, the object can still be queried and destroyed safely, and no stream stays open after a failed construction or after destruction.
  A default constructed object is inactive, reports no errors and can be queried and destroyed.""",
  ["fault_sequences"], "Every single and double failure of fopen, dup2, fgetc, ftell, fflush, fseek, fgets and fclose in every short history.",
  "File operations do not fail in ordinary tests.",
  [R, "include/bcl/Diagnostic.h"], [("storeErrNo and the error branches", R)], ["return values", "errors()", "open streams"])
D = "include/bcl/Diagnostic.h"
p("D01", "A diagnostic container keeps every diagnostic, complete and in order",
  """Each successful insert appends exactly one diagnostic with the text '<kind> C<code>(<pos>): <formatted text>' of any length, existing ones are unchanged, iteration in both directions, size, empty and clear agree with the history, a failed insert only increments the internal error count,
  and swap exchanges the complete contents including kinds and counts.""",
  ["histories", "inputs"], "All histories of insert (with all formats of a small set, lengths around powers of two, failing formats), clear and swap over two containers up to a depth.",
  "There is no test of Diagnostic.",
  [D], [("insert, swap, iterators", D)], ["iteration, size(), internal_size()", "AddressSanitizer"])
V = "include/bcl/ValuePtrWrapper.h"
p("V01", "A tracked value's pointer always points to the live value",
  """While a ValuePtrWrapper lives, the pointer registered for it points to its current value with the value unchanged, whatever sequence of moves, move assignments and container operations (growth, erase, sort, swap) relocates it; values and pointers are never mixed up.""",
  ["histories"], "All sequences of emplace_back, erase, swap, reverse, move and growth over a vector of up to four wrappers up to a depth.",
  "There is no test of the wrapper; mix-ups need particular relocation sequences.",
  [V], [("move constructor and assignment", V)], ["the registered pointers"])
U = "include/bcl/utility.h"
p("U01", "Bit, packing and container helpers compute their documented functions",
  """For all arguments of their domain, digit and zero-bit counts (one low zero bit for zero), unit masks, binary literals and bit printing, string quoting and whitespace tests, packing of a pair into one word and back, swapping of raw memory, type lists and type-level logic, iterator adaptors and
  insertion helpers return exactly the documented value, and packing refuses a pair exactly if it does not fit.""",
  ["inputs"], "All 8- and 16-bit values and all boundary patterns of wider types; all small strings; all object sizes up to 40 bytes.",
  "There is no test of utility.h.",
  [U], [("shrinkPair/restoreShrinkedPair, swapMemory, bitPrint, numberOf*", U)], ["return values"])
L = "include/bcl/legacy/exception.h"
p("L01", "Legacy text, error and tree facilities keep their documented contents",
  """Converting any int to a narrow or wide text gives exactly its decimal digits, and copying a text succeeds exactly if it fits with its terminator, is then exact and never writes outside of the buffer; otherwise the
  documented error is thrown. An error declared at any place of the error forest of an application has its own code (the place in the preorder, 1-based), the count of its suberrors, the strongest type on its path and the
  joined description, and the exception thrown for it reports these and a distinct absolute code in each application which uses the one that failed, directly or not. A static tree of any shape keeps one value
  per node through every way of access, copy, conversion and assignment, tells which identifiers it has, and is visited once per node, subtrees first.""",
  ["inputs", "configurations", "histories"], "All ints (quick: neighbourhoods of powers of 2 and 10 and small ones), all text lengths and buffer sizes up to a bound, all forests of up to 4 errors and hierarchies of up to 4 applications, all tree shapes of up to 4 nodes with all histories up to a depth.",
  "There is no test of the legacy headers; codes are sums over a compile-time forest and only particular shapes reveal a wrong one.",
  ["include/bcl/legacy/text.h", "include/bcl/legacy/tree.h", L], [("ToTextAnsi, ToTextUnicode, CopyAnsi, CopyUnicode", "include/bcl/legacy/text.h"), ("Node, IsNodeExist, Visit", "include/bcl/legacy/tree.h"), ("CodeOfError, TypeOfError, OffsetOfError, ERROR_DEF", L)],
  ["returned and copied text", "values and visits of the tree", "error accessors"])
LC = "include/bcl/legacy/cell_legacy.h"
p("L02", "Legacy cells keep one value per identifier and are visited in order",
  """A collection of legacy cells stores one independent value for each identifier, read and written by any way of access. Foreach and ForeachDefinition visit each cell once in the order of declaration; search, reversal and merging of collections
  give exactly the documented sequences; copying functors transfer exactly the values of identifiers in both collections; initialization sets exactly the pointers to null and clearing frees exactly the objects they denote, once.
  The CELL_COLL macros declare all their identifiers in the given order.""",
  ["configurations", "histories"], "All ordered selections of up to four identifiers with all write and copy histories up to a depth, pairs of selections for transfers and merging, all 100 macros.",
  "There is no test of the legacy cells.",
  [LC, "include/bcl/legacy/cell_macros.h"], [("Cell, IsCellExist, ReverseCell, MergeCell", LC), ("Copy, Init and Clear functors", LC), ("CELL_COLL_N", "include/bcl/legacy/cell_macros.h")],
  ["values by identifier", "visiting order", "live objects"])

VH = "include/bcl/legacy/value.h"
p("L03", "Nullable values are undefined or hold exactly the last value assigned",
  """After any sequence of constructions, copies and assignments between nullable values, strict values, plain values and undef, a nullable value is undefined exactly if undef (or an undefined value, or nothing yet) was assigned last, and otherwise holds the value assigned last; objects stay independent of each other.
  An undefined value equals only undef and undefined values and is in no order with anything; all six comparisons of defined values, of nullable with strict and plain values on either side and of different types, agree with the comparison of the values, a nullable pointer being undefined exactly if it is null.
  Assigning an undefined value to a strict one throws the Assign error and leaves it unchanged. An undefined value is written as undef, a defined one as its value, and using undefined objects reads no uninitialized state.""",
  ["histories"], "All sequences of operations up to a depth on two nullable objects and a strict one, for integers, flags, characters, floating point numbers, enumerations, objects, texts and pointers, with all comparisons after each step.",
  "No test uses these classes (the header did not even compile).",
  [VH], [("Value< Type, True > and Value< Type, False >, for pointers and texts", VH), ("comparison operators, operator<<", VH)],
  ["comparisons", "conversions", "exceptions", "written text"])

p("F01", "A failing memory allocation leaves every object valid and loses nothing",
  """If any memory allocation made by an operation fails, then the operation ends with std::bad_alloc or (when it parses a text) reports a failure with a recorded error, and never with a wrong result.
  A queue has the elements which it had before, so has a container of diagnostics, and a set of traits still describes only traits which are set and deletes each description which it owns exactly once,
  while a description it has not stored remains with the caller. Nothing is leaked, released twice or left half-built, arrays and objects which could not be constructed leave no elements, memory is exchanged entirely or not at all,
  and all objects can be used and destroyed afterwards. Without a failing allocation no operation reports a failure.""",
  ["histories", "fault_sequences"], "All histories of operations up to a depth with up to two failing allocations at every place where memory is allocated.",
  "No test makes an allocation fail; each place needs its own failure in a particular internal form of the object.",
  [TQ, "include/bcl/Diagnostic.h", "include/bcl/trait.h", "include/bcl/marray.h", "include/bcl/utility.h", J],
  [("TransparentQueue::push, emplace, operator=", TQ), ("Diagnostic::insert", "include/bcl/Diagnostic.h"), ("TraitSet::set", "include/bcl/trait.h"), ("marray::allocate", "include/bcl/marray.h"), ("make_unique, swapMemory", "include/bcl/utility.h"), ("Traits<>::parse, unparse", J)],
  ["exceptions", "contents of the objects", "live descriptions and allocations", "AddressSanitizer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
