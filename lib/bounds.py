"""Bounds of the exploration of every property: (quick, thorough)."""

BOUNDS = {
"Q01": ("all histories of up to 7 operations of 9 kinds on a queue of 3 element forms; 2 rounds of bulk pushes and pops across every block boundary; comparison of all pairs of contents of up to 3 elements in every internal form",
        "histories of up to 9 operations, 3 bulk rounds"),
"Q02": ("all histories of up to 3 operations on two queues and 2 on three queues from all contents of 0 to 2 elements (inline, grown, grown and shrunk); with caching of model states up to depth 6 and 4; all operations on large queues",
        "depth 4 and 3; cached 9 and 6"),
"C01": ("all link structures reachable with up to 6 operations on 3 and 4 nodes, 5 on 5 nodes, 3 on 6 nodes, every operation with every argument in every one of them; 2 tags interleaved up to depth 3",
        "depth 8, 9, 10 and 6 (all structures of 3 to 5 nodes are reached); tags to depth 4"),
"C02": ("all walks of up to 4 operations over chains of 3 and 4 nodes and 2 over 5 nodes, constant and mutable iterators; traversals of chains of 1 to 6 nodes",
        "walks of up to 6 or 7 operations"),
"E01": ("all systems of up to 3 equations with planted solutions and coefficients of small sets (up to 9 values), 1 to 4 variables, arbitrary right-hand sides; gcd of all pairs in -200..200; int, long and narrow types; signed and unsigned column types, values of up to 64 bits",
        "wider coefficients, 4 equations, gcd in -1200..1200"),
"E02": ("all two-row systems with all combinations of 4 guards, 4 guarded instances and 4 computed monomials per row under 8 valuations; up to 4 rows of 5 kinds; transformations of all solved systems of 1 to 3 equations with 6x4 coefficients; all of it with 4 pairs of column and value types, printed form included",
        "up to 5 rows, 6x6 coefficients"),
"M01": ("all shapes of 2 to 5 dimensions with small extents, every index tuple, with equal and mixed index types; histories of 3 moves and assignments of two arrays; extents of up to 100003 and arrays of more than 2^32 bytes",
        "larger extents, 4 moves"),
"V01": ("all histories of up to 5 operations over a vector of up to 4 wrappers with every reserved capacity 0, 2, 4; up to 65537 wrappers moved by 5 algorithms",
        "depth 7"),
"D01": ("all histories of up to 4 operations over two containers; each formatting failure in histories of 3; text lengths 0..299 and boundary lengths up to 1 MB with 4 kind lengths; up to 70000 diagnostics and internal errors",
        "depth 5, all lengths up to 1099"),
"J01": ("all strings of up to 3 special characters; all characters; all boundary integers and -1500..1500; all nested containers and objects of small sizes; all diagnostics of up to 3 entries; strings of 0..70 and up to 70000 characters with special ones at their ends, everywhere or in the middle, containers and objects of up to 70000 elements",
        "strings of up to 4, -20000..20000, larger documents"),
"J02": ("all texts of up to 4 characters of a 13 character alphabet, alone and inside of 3 contexts, for every destination type; all sequences of up to 7 tokens; every single mutation of a set of documents; texts of 12 forms which are nested, long or wide up to 70000 levels, characters or elements, whole and damaged in 4 ways; histories of 8 operations of a lexer over 3 texts; up to 2 elements of 27 values of types whose reader looks ahead",
        "histories of 10 operations, 3 elements; 20 characters and length 5 (6 at the end); 9 tokens; every pair of mutations"),
"J03": ("all documents of up to 2 additional fields in any order with known, unknown, repeated and compound fields, plain and named; objects with 1 to 30 fields in all rotations; 6 compound fields in 4 forms each; objects declared by macros which the generator script writes",
        "3 additional fields, 2 for named objects"),
"S01": ("all ordered selections of up to 4 of 5 keys; all histories of 2 operations per map; all transfers between all pairs of sorted and unsorted selections; maps of up to 24 keys", "histories of 4"),
"S02": ("all ordered selections of up to 4 of 4 elements; histories of 2 operations; all conversions; tuples of up to 17 elements", "histories of 3"),
"T01": ("18 declarations and all alternatives of 3 traits (126): every reachable state, every operation in it; every pair of states for comparison and assignment; conversions between 7 pairs of declarations; keys of 64 bits",
        "two operations from every state"),
"T02": ("all histories of up to 5 operations on two sets over 4 traits, 6 over 2 traits with hashing and 5 on one set with 7 traits, states cached; transfers from every set or descriptor of another type to every state of a set or a descriptor; all distributions of two descriptors over maps",
        "depth 9, 12 and 10"),
"I01": ("7 answering programs, up to 2 messages of 7 forms, 3 delimiters, 4 kinds of answers, 1 preemption or spurious wakeup; the same with 3 forms and 4 preemptions; two independent connections with 1 preemption; up to 1000 requests and requests of up to 100000 bytes under one schedule",
        "3 messages, 3 preemptions; 6 forms and 8 preemptions; 2 preemptions for two connections"),
"I02": ("as I01 with 4 preemptions; all programs of up to 2 of 8 actions, 2 messages and 2 preemptions; a connection replaced by an assignment in 16 situations, 1 preemption; all of it with AddressSanitizer and with ThreadSanitizer",
        "8 preemptions; programs of 3 actions, 3 messages, 4 preemptions; 2 preemptions for replacements"),
"N01": ("7 streams of bytes, 5 buffer sizes, 5 kinds of answers, 2 callbacks, 0 to 2 greetings: all splits of what is received and, for up to 3 bytes, sent, with interrupts, orderly end and errors at each position; messages of up to 200000 bytes with 10 buffer sizes and 5 limits of what is transferred at once",
        "8 streams, splits of both for up to 4 bytes"),
"N02": ("1 or 2 clients; every failing socket, option, bind, name, listen, accept, address, thread, receive, send and close call with every errno of interest, with the schedules, up to 2 deviations per execution",
        "up to 3 deviations"),
"N03": ("2 or 3 clients, limits 0 to 3, a client which waits for another one, a silent client: all schedules up to 3 preemptions for 2 and 1 for 3 clients; with AddressSanitizer and ThreadSanitizer; 5 to 290 clients with 10 limits under 3 schedules",
        "up to 4 clients; 4, 3 and 2 preemptions"),
"N04": ("all scripts of up to 3 of 6 server operations with up to 2 chunks; scripts of up to 3 of 3 operations with a garbage collection before any listener or event, up to 2 per execution; two connections with up to 5 steps in any order, and with one sending to the other; all bytes, 306 pairs and 4913 triples of bytes, lengths 0..1299 and up to 2^20 in 5 kinds of arrays; all Unicode characters; wrong arguments of 18 kinds; up to 600 connections, 300 listeners, 1500 messages; growth over 8000 connections and 160000 messages; 104 exchanges over TCP",
        "scripts of 5 with 3 chunks; collections in scripts of 4, up to 4; 7 steps; all pairs of bytes, lengths up to 5199 and 2^24"),
"R01": ("all histories of up to 5 of 8 operations on one redirection (2 modes, 4 previous contents), 4 of 16 on two redirections; all lengths 0..419 and 3900..4319 of written and previous data; data of up to 3000000 bytes; up to 1000 writes and marks",
        "depth 7 and 5, lengths up to 1299 and 3900..5199"),
"R02": ("3 modes, 4 situations: each single failing file operation in all histories of up to 4 operations (2 with long contents), each pair in 3; inactive objects up to depth 4",
        "depth 6, 4 and 5; triples in histories of 4; depth 5"),
"U01": ("all 8- and 16-bit values and boundary patterns of wider types in bases 2 to 40; all strings of up to 6 characters of an alphabet; all pairs of packed types with boundary values; memory of 1..40, 1000 and 70000 bytes; adaptors over containers of up to 4",
        "bases up to 2000, strings of 9, containers of 6"),
"L01": ("all ordered forests of up to 4 errors, shared or not, all hierarchies of up to 4 applications with all assignments of 1 or 2 errors; integers -70000..70000 and boundaries; copies of 0..20 characters into all sizes; all binary trees of up to 4 nodes; histories of 2 operations",
        "copies of up to 70, tree histories of 4"),
"L02": ("all ordered selections of up to 4 of 5 identifiers, histories of 2 operations; transfers between all pairs; collections of 1 to 100 cells declared by macros", "histories of 4"),
"L03": ("all histories of up to 3 assignments, copies and accesses (4 for pointers, 2 for some types) on two nullable objects and a strict one of 9 types with 2 or 3 values each, all comparisons after each step; 5x5 texts; comparisons between 6 pairs of types",
        "histories of up to 5"),
"F01": ("up to 2 failing allocations (4 in documents) at all places in: histories of 3 operations on two queues of 11 and 5 forms, 6 on two diagnostic containers, 4 on two sets of 5 traits (over two kinds of maps); arrays, objects and exchanged memory; reading and writing of 16 documents",
        "histories of 4, 7 and 5 operations, 3 failures in queues and 8 in documents"),
}
