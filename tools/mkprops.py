#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays valid JSON)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if obs: a["observe_at"] = obs
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

B = "src/buzz/"
p("P01", "A shared-memory entry never regresses",
  "On every robot, a virtual stigmergy entry only ever changes to a newer one: a received update replaces the stored entry exactly when its version number is larger or when, at equal version and different author, it wins the conflict; an older or already known update never changes anything. A local write always produces a version one larger than the stored one (1 for a new key), authored by the writing robot. Updates to one key or one stigmergy never affect another.",
  ["schedules", "histories", "fault_sequences"],
  "every sequence of local writes, reads and received messages, under loss, duplication and reordering of messages",
  "The tests run at most one robot and never inject a foreign stigmergy message; the guarantee quantifies over interleavings, duplicates and reordering.",
  [B+"buzzvm.c", B+"buzzvstig.c", B+"buzzoutmsg.c"],
  [("reception of PUT/QUERY", "buzzvm.c: buzzvm_process_inmsgs"), ("local put", "buzzvstig.c: buzzvstig_put")],
  [("vstigs", "per-robot map id -> key -> (value, version, author)")],
  ["get() on the stigmergy, outgoing messages"])
p("P02", "Shared memory converges when messages get through",
  "Once robots stop writing and every queued message has been delivered to the neighbours, along any connected communication topology, all robots that hold a stigmergy agree on the value and author of every key that was written and never deleted. A robot that missed an update catches up when it, or the robot that lacks the update, reads that key and the resulting messages are delivered.",
  ["schedules", "histories", "configurations", "fault_sequences"],
  "every write history of a small swarm, every delivery order, every connected topology, message loss before the final exchange",
  "Needs several robots, all delivery orders and a quiescent end state; the tests have no multi-robot scenario.",
  [B+"buzzvm.c", B+"buzzvstig.c", B+"buzzoutmsg.c", B+"buzzinmsg.c"],
  [("re-broadcast on store", "buzzvm.c: buzzvm_process_inmsgs"), ("duplicate suppression", "buzzoutmsg.c: append_vstig")],
  None, ["get() on every robot at quiescence"])
p("P03", "Conflicts are arbitrated by the script exactly when they happen",
  "Two entries for a key with equal version and different authors are a conflict; only then is the script's conflict function called, once per conflicting message, with the key and the local and remote entries (author, value, version), and the entry it returns becomes the stored one and is announced. The conflict-lost function is called exactly when an entry written by this robot is replaced by another author's through a conflict, with the key and the lost value. Without a conflict function the entry with a value beats one without, and otherwise the higher author wins, on every robot alike.",
  ["inputs", "histories", "programs"],
  "every pair of conflicting entries, every arbitration outcome, custom managers set, replaced or absent, on both message types",
  "No test triggers a conflict at all.",
  [B+"buzzvm.c", B+"buzzvstig.c"],
  [("default arbitration", "buzzvm.c: buzzvm_vstig_onconflict"), ("custom managers", "buzzvstig.c: buzzvstig_onconflict_call, buzzvstig_onconflictlost_call")])
p("P04", "Stigmergy operations mean what they say locally and on the air",
  "A read returns the value this robot last stored (nil when there is none), size and foreach report exactly the stored entries, and re-creating a stigmergy starts it empty. Every local write announces exactly the written entry, every read sends a query carrying exactly the local knowledge of the key, and writing nil removes the key locally and announces the removal. Nothing else is announced, and operations on one stigmergy leave all others alone.",
  ["histories", "inputs"],
  "every history of create/put/get/size/foreach on several stigmergies, keys and value types",
  "Tests only do a create/put/get round trip.",
  [B+"buzzvstig.c", B+"buzzvstig.h", B+"buzzoutmsg.c"],
  [("operations", "buzzvstig.c: buzzvstig_create/put/get/size/foreach"), ("announcements", "buzzoutmsg.c: buzzoutmsg_queue_append_vstig")])
p("P05", "A robot's own swarm membership follows its operations",
  "A robot is in a swarm exactly when its last join/leave/select/creation on it said so; a swarm built from others by others, union, intersection or difference has it as a member exactly when the set operation on its memberships at that moment says so. A swarm's execute runs the function exactly when the robot is a member, and inside it the swarm-id query names the enclosing swarms innermost first. Every join, leave, selection or change of membership is announced to the neighbours, and nothing else is.",
  ["histories", "programs"],
  "every history of swarm operations over several swarms, nested executes included",
  "The swarm operations are not exercised by the tests beyond creation.",
  [B+"buzzswarm.c", B+"buzzoutmsg.c", B+"buzzvm.c"],
  [("swarm methods", "buzzswarm.c: buzzswarm_create/select/join/leave/in/others/intersection/union/difference/exec/id")],
  [("swarms", "swarm id -> joined?"), ("swarmstack", "stack of swarms being executed")])
p("P06", "The view of other robots' swarms follows their announcements",
  "A robot believes a neighbour is in a swarm exactly when the neighbour's latest announcements say so: a membership list replaces all that was known, a join adds and a leave removes that one swarm. A neighbour not heard from for more than 50 processing rounds is forgotten, and any announcement restarts its clock. kin and nonkin of the neighbours split exactly by that view for the swarm being executed.",
  ["histories", "schedules", "fault_sequences"],
  "every sequence of announcements, silent rounds, and neighbour queries, from several senders",
  "No test feeds a swarm message.",
  [B+"buzzswarm.c", B+"buzzvm.c", B+"buzzneighbors.c", B+"buzzoutmsg.c"],
  [("membership tracking", "buzzswarm.c: buzzswarm_members_join/leave/refresh/update"), ("kin/nonkin", "buzzneighbors.c: buzzneighbors_kin, buzzneighbors_nonkin")])
p("P07", "Outgoing messages: nothing lost, nothing stale, right order",
  "Messages leave in the documented priority order, and in order of production within one kind. No queued broadcast is ever dropped; a queued stigmergy update is dropped only in favour of one about the same key that supersedes it; queued swarm announcements are merged so that a receiver of the remaining ones ends with the same view as a receiver of all. What a reader sees as the first message is the one that removal removes, and the reported size is the number of messages left.",
  ["histories", "schedules"],
  "every interleaving of producing operations with reading and removing messages, every mixture of kinds and keys",
  "Tests never interleave different kinds of messages in the queue.",
  [B+"buzzoutmsg.c", B+"buzzvm.c"],
  [("queues and merging", "buzzoutmsg.c: buzzoutmsg_queue_append_*, buzzoutmsg_queue_first/next"), ("periodic list", "buzzvm.c: buzzvm_process_outmsgs")])
p("P08", "Incoming messages are handled exactly once, oldest first per sender",
  "Each received message is handled exactly once, in arrival order among the messages of one sender, in the next processing call; nothing is left over unless the script fails. A broadcast reaches exactly the listener registered for its topic at that moment, once, with topic, an equal copy of the value and the sender; topics without a listener, ignored topics and unknown stigmergies have no effect.",
  ["histories", "schedules", "inputs"],
  "every sequence of arrivals from several senders interleaved with listen/ignore and processing",
  "Tests never deliver messages through the incoming queue in numbers.",
  [B+"buzzinmsg.c", B+"buzzvm.c", B+"buzzneighbors.c"],
  [("incoming queue", "buzzinmsg.c"), ("dispatch", "buzzvm.c: buzzvm_process_inmsgs"), ("listeners", "buzzneighbors.c: buzzneighbors_listen/ignore/broadcast")])
p("P09", "Values survive the wire unchanged",
  "Every value a script can send (nil, integers, finite floats, strings of up to 65535 bytes without NUL, and nested tables of them that do not contain themselves, with up to 255 entries each) arrives at the receiver as an equal value of the same type, sharing nothing with the original: later changes on either side are not seen on the other. A function of the script, or a native one, sent alone or inside tables, arrives as a function that does the same on a robot that runs the same script (functions that capture variables are not covered). Every kind of message carries all of its fields intact, and the encoded form does not depend on the robot that encodes it.",
  ["inputs"],
  "every sendable value up to nesting and size bounds; every message kind; every field value within its range",
  "Tests serialise a handful of scalars.",
  [B+"buzztype.c", B+"buzzmsg.c", B+"buzzoutmsg.c", B+"buzzvstig.c"],
  [("value codec", "buzztype.c: buzzobj_serialize/deserialize"), ("scalar codec", "buzzmsg.c"), ("entry codec", "buzzvstig.c: buzzvstig_elem_serialize/deserialize")])
p("P10", "A malformed message harms nobody",
  "Whatever bytes arrive as a message (truncated, corrupted, empty, unknown kinds), processing them neither crashes the robot nor leaves a message unprocessed nor disturbs the state beyond what a well-formed message could do. A message cut short has no effect on stored shared memory or listeners (keys and topics being numbers or strings), and well-formed messages that follow are handled normally.",
  ["inputs", "fault_sequences"],
  "every truncation point and byte corruption of every message kind, mixed with good messages",
  "No test feeds a malformed message.",
  [B+"buzzvm.c", B+"buzzmsg.c", B+"buzztype.c", B+"buzzvstig.c"],
  [("bounds checks", "buzzmsg.c: buzzmsg_deserialize_*"), ("dispatch", "buzzvm.c: buzzvm_process_inmsgs")])
p("P11", "Every bytecode instruction does what the instruction set says",
  "From any machine state each instruction changes the operand stack, variables, tables and program position exactly as defined, including operand order, integer/float promotion, comparison across types, jumps taken and not taken. Constants in the code are reproduced bit for bit. No instruction disturbs anything it does not name.",
  ["programs", "inputs"],
  "every instruction on every combination of operand types over a grid of values, and random instruction sequences",
  "The tests run a few hand-written scripts with a handful of values per instruction.",
  [B+"buzzvm.c", B+"buzzvm.h", B+"buzztype.c"],
  [("instruction dispatch", "buzzvm.c: buzzvm_step"), ("arithmetic/comparison", "buzzvm.h macros, buzztype.c: buzzobj_cmp/eq")])
p("P12", "A failing script is stopped, reported, and cannot hurt the host",
  "Any script error (wrong operand type, missing arguments, stack underflow, bad jump, unknown instruction, unknown name called) puts the robot's machine in the error state with an error code naming the cause and a message, stops execution at that instruction, and leaves the host alive. A failed machine refuses further steps, calls and message processing, and can still be inspected and disposed of.",
  ["programs", "inputs", "fault_sequences"],
  "every instruction applied to every wrong operand mix and stack depth, every error raised at any call depth",
  "Tests only run scripts that succeed.",
  [B+"buzzvm.c", B+"buzzvm.h", B+"buzzvstig.c", B+"buzzswarm.c", B+"buzzneighbors.c"],
  [("assertions", "buzzvm.h: buzzvm_type_assert, buzzvm_stack_assert, buzzvm_lnum_assert"), ("error state", "buzzvm.c: buzzvm_seterror")])
p("P13", "Calls, closures, methods and returns balance",
  "A call passes its arguments in order, binds self to the table the function was stored in, and hands back exactly one value (nil when the function returns none); afterwards the caller's locals and pending operands are what they were, whatever the callee did. A function value keeps the variables that were visible where it was created; functions called from the host or from native code behave as if called from a script.",
  ["programs", "histories"],
  "every nesting of script, method and native calls, with fewer, equal and more arguments, from scripts and from the host",
  "Tests cover a couple of call shapes and do not look at the stack afterwards.",
  [B+"buzzvm.c", B+"buzzvm.h", B+"buzzparser.c", B+"buzztype.c"],
  [("call/return", "buzzvm.c: buzzvm_call, buzzvm_ret0/ret1, buzzvm_closure_call, buzzvm_function_call"), ("closures", "buzzvm.c: buzzvm_pushl, buzztype.c: buzzobj_clone_closure")])
p("P14", "Garbage collection is invisible and complete",
  "At whatever moments the collector runs, a script's results, messages and shared memory are the same as if it never ran. Nothing reachable from variables, operands, closures, stigmergies or listeners is ever reclaimed, and objects no longer reachable are reclaimed by the next collection.",
  ["programs", "schedules", "histories"],
  "every program and every placement of collections between its steps",
  "Collections happen at 10000 objects; no test reaches that in an interesting state.",
  [B+"buzzheap.c", B+"buzzvm.c", B+"buzzvstig.c", B+"buzzstrman.c"],
  [("mark and sweep", "buzzheap.c: buzzheap_gc, buzzheap_*_mark"), ("external roots", "buzzvstig.c: buzzvstig_elem_mark, buzzvm.c: listeners")])
p("P15", "Interned strings: one id per text, ids never change meaning",
  "Registering the same text twice yields the same id and different texts yield different ids; an id denotes its text for as long as anything refers to it, whatever is registered, collected or protected in between (with fewer than 65536 strings alive at a time). Protected strings are never reclaimed; unprotected ones only when nothing refers to them.",
  ["histories"],
  "every history of registrations, protections, mark/sweep rounds",
  "Tests register a few strings once.",
  [B+"buzzstrman.c", B+"buzzheap.c"],
  [("registry", "buzzstrman.c: buzzstrman_register/get/gc_*")])
p("P16", "Tables are maps with value keys",
  "A table holds exactly the last value stored under each key; storing nil removes the key, reading a missing key gives nil, keys compare by value for numbers and strings, and a number is never the same key as a string. size, foreach, map, reduce and filter see each present entry exactly once. Tables are shared by reference; clone copies the structure so that neither side sees later changes of the other.",
  ["histories", "programs"],
  "every history of stores, reads and traversals with keys and values of every type, across growth of the table",
  "Tests use a few integer and string keys.",
  [B+"buzztype.c", B+"buzzdict.c", B+"buzzvm.c"],
  [("table access", "buzzvm.c: buzzvm_tput/tget"), ("methods", "buzztype.c: buzzobj_foreach/map/reduce/filter/size/clone")])
p("P17", "A compiled script means what its source says",
  "Running the compiler's output has exactly the effects the language definition gives the source: operator precedence and associativity, evaluation order, conditionals, loops, scoping of variables, functions, lambdas, methods, table literals and indexing. Every program of the grammar compiles.",
  ["programs", "inputs"],
  "every program of the grammar up to a size bound, over every operator nesting and statement nesting",
  "The tests compile about twenty scripts, mostly without checking their effects.",
  [B+"buzzparser.c", B+"buzzlex.c", B+"buzzasm.c", B+"buzzvm.c"],
  [("code generation", "buzzparser.c: parse_*"), ("assembly", "buzzasm.c: buzz_asm")])
p("P18", "Assembler, disassembler and debug information agree",
  "Assembling a program yields the instruction sequence it spells, with labels resolved and constants exact; an unknown instruction, a missing argument or an unknown label is refused. The disassembly lists every string and every instruction at its offset, with its exact argument and its source position, so that assembling the listing again reproduces the bytecode. Debug information gives every compiled instruction the file, line and column of a token of the script, survives being written to and read from its file, finds from a position its first offset and from an offset its position. A run-time error is reported in the file and at a line of the innermost statement that caused it.",
  ["programs", "inputs"],
  "every instruction and argument, every label placement, every script position",
  "Tests only check that the tools run.",
  [B+"buzzasm.c", B+"buzzdebug.c", B+"buzzparser.c"],
  [("two-pass assembly", "buzzasm.c: buzz_asm"), ("disassembly", "buzzasm.c: buzz_deasm, buzz_instruction_deasm"), ("debug info", "buzzdebug.c")])
p("P19", "Containers behave like maps, sequences and sets",
  "The dynamic array behaves as a sequence, the dictionary as a finite map and the set as a finite set: after any history every lookup, position, size and traversal reports exactly what was put in and not taken out, and every element is handed to its destructor exactly once when it leaves (an array slot overwritten in place stays the caller's). Growing and shrinking change nothing observable.",
  ["histories"],
  "every history of insertions, replacements, removals, lookups, traversals over colliding and non-colliding keys",
  "Tests insert a few elements and look them up.",
  [B+"buzzdarray.c", B+"buzzdict.c", B+"buzzset.c"],
  [("darray", "buzzdarray.c"), ("dict", "buzzdict.c"), ("set", "buzzset.c")])
p("P20", "The neighbour structure reports exactly the current neighbours",
  "After the host resets and fills in neighbour positions on a running machine, get, count, foreach, map, reduce and filter see exactly the added robots with the given distance and angles, the latest for each; get of an unknown robot is nil. Structures produced by map and filter support the same operations, and traversals leave the original unchanged. A reset keeps the registered listeners working.",
  ["histories", "programs"],
  "every sequence of resets, additions and queries",
  "Tests do not use neighbours with positions.",
  [B+"buzzneighbors.c"],
  [("structure", "buzzneighbors.c: buzzneighbors_reset/add/get/foreach/map/reduce/filter/count")])
p("P21", "String and math functions compute their definitions",
  "string.length, sub, concat, tostring, toint, tofloat and the exact math functions (abs, min, max, floor/ceil/round-type conversions, integer random ranges) return the value and type their definition gives for every argument, and report an error, without harm, for arguments outside it. The real-valued ones (log, exp, sqrt, the trigonometric functions, powers) are the float nearest to the true value, give or take a few float steps. Random numbers, integer or float, stay in the requested range, and the same seed gives the same sequence.",
  ["inputs"],
  "every argument over boundary grids: types, signs, empty strings, out-of-range indices, missing arguments",
  "Tests call a few functions once with a normal argument.",
  [B+"buzzstring.c", B+"buzzmath.c"],
  [("string functions", "buzzstring.c"), ("math functions", "buzzmath.c")])
p("P22", "Source text is read as the lexical rules say; bad source is refused",
  "The compiler splits source into tokens as the lexical rules say: literals keep their exact value (integers in the 32-bit range), comments and layout do not matter, included files are spliced in place once. A script with a lexical or syntax error is refused with a message naming the file and the line (or the end of the file), and no output is taken for a program.",
  ["inputs", "programs"],
  "every placement of layout and comments, every literal form, every single-token damage of a valid script",
  "Tests compile valid scripts only.",
  [B+"buzzlex.c", B+"buzzparser.c"],
  [("lexer", "buzzlex.c"), ("parser errors", "buzzparser.c")])
p("P23", "Files hold what scripts write and give it back line by line",
  "io.fopen in the documented modes, io.fwrite, io.fforeach, io.fsize and io.fclose act on files as their documentation says: a closed file holds exactly the texts written to it, one line per io.fwrite, after what it held before (appending) or nothing (writing anew); io.fforeach hands each remaining line, in order, without its newline, to the function, and io.fsize is the size in bytes. Every failure (missing file, wrong mode, closed file) leaves the file as it was and shows in io.errno and io.error_message, every success shows as no error; a value that is not a file is an error of the script and never harms the host.",
  ["inputs", "histories"],
  "every sequence of opening in each mode, writing values of each type, reading, measuring and closing, on present, absent, empty and unterminated files",
  "The one test reads a file and writes two lines; it never reads them back.",
  [B+"buzzio.c"],
  [("file functions", "buzzio.c")])
p("P24", "The script libraries that ship with Buzz do what they document",
  "A script that includes string.bzz, table.bzz, vec2.bzz, arrows.bzz or neighbors.bzz gets functions that compute what their comments define, for every argument: character, first and last occurrence and tokens of a string; extreme values and keys, exchanging, sorting (an ordered permutation) and shuffling (a permutation) of a table; sums, differences, multiples, products, lengths of vectors; arrow sequences that run each of their functions in order each time they are run; the latest message per topic and neighbour in neighbors.msgs until it is reset.",
  ["inputs", "histories"],
  "strings, delimiters, tables, comparison functions, vectors, arrow sequences and message histories",
  "The tests compile scripts that include the libraries and run few of the functions, without comparing results.",
  ["src/include/"],
  [("script libraries", "src/include/string.bzz, table.bzz, vec2.bzz, arrows.bzz, neighbors.bzz")])
p("P25", "Breakpoints stop a script exactly where they are, and only that",
  "A script run with buzzdebug_continue, or a function called with buzzdebug_function_call, stops before every instruction that carries a breakpoint and nowhere else, unless it ends or fails first; continuing a stopped script goes on with that very instruction. Apart from the stops it passes through the same states, with the same results and errors, as when it runs without the debugger. Setting a breakpoint twice is setting it once; removing and clearing take effect from the next run on.",
  ["inputs", "histories"],
  "every program, every set of breakpoints, every history of setting, removing, continuing and calling",
  "No test sets a breakpoint.",
  [B+"buzzdebug.c", B+"buzzvm.c"],
  [("breakpoints", "buzzdebug.c: buzzdebug_breakpoint_set_offset/exists, buzzdebug.h: remove, clear"), ("runs", "buzzdebug.c: buzzdebug_continue, buzzdebug_closure_call, buzzdebug_function_call")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
