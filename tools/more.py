prop('B12', 'Outgoing messages: no loss, no stale copies, documented priority',
     'The host receives every message the script or the protocols queued exactly once, in the documented order of kinds and in queueing order within a kind, and a newer message about the same datum replaces the queued older one. '
     'Looking at the head of the queue does not change it, and the queue reports emptiness and size truthfully.',
     ['histories', 'inputs'], 'all interleavings of queueing operations with peeking at, taking and discarding messages',
     'The tests never drain the queue.',
     [B + 'buzzoutmsg.c', B + 'buzzvm.c', B + 'buzzvstig.c', B + 'buzzswarm.c'],
     [('queues by kind', B + 'buzzoutmsg.c (buzzoutmsg_queue_*)'), ('collection by the host', B + 'buzzvm.c (buzzvm_process_outmsgs)')],
     tech='online model of the outgoing queue against drained bytes')
prop('B13', 'The neighbour structure reports exactly the current neighbours',
     'Counting, visiting, mapping, reducing, filtering and looking up neighbours agree with the distances and angles the host set since its last reset, one entry per robot with the latest values. '
     'Derived structures (filter, map, kin, non-kin) are independent snapshots with the same operations.',
     ['histories', 'inputs'], 'all sequences of neighbour updates by the host and operations by the script, including nested and derived ones',
     'The tests never set neighbours.',
     [B + 'buzzneighbors.c', B + 'buzzneighbors.h'],
     [('structure creation and update', B + 'buzzneighbors.c (buzzneighbors_reset, buzzneighbors_add)'), ('iteration', B + 'buzzneighbors.c (foreach, map, reduce, filter, get, count)')],
     tech='online model of the neighbour set against script observations')
prop('B14', 'Containers behave as sequences, maps and sets and own their elements',
     'Dynamic arrays, dictionaries and sets always hold exactly the elements of the corresponding mathematical sequence, map or set, and iterations visit each element once. '
     'Each removed or replaced element is handed to the destructor exactly once, and no other element is.',
     ['histories', 'inputs'], 'all sequences of operations, element sizes, key types and bucket counts',
     'The tests use a few fixed sequences.',
     [B + 'buzzdarray.c', B + 'buzzdict.c', B + 'buzzset.c'],
     [('dynamic array', B + 'buzzdarray.c'), ('dictionary', B + 'buzzdict.c'), ('set', B + 'buzzset.c')],
     tech='lockstep reference model with destructor accounting, under ASan/UBSan/LSan')
prop('B15', 'A string has one identity for as long as it lives',
     'Two live strings are the same string exactly if they have the same characters, a string\'s id always gives back its text, and no id is given to another string while the first one is alive. '
     'Collection removes exactly the strings that are neither in use nor protected.',
     ['histories', 'inputs'], 'all sequences of string creations, lookups and collections, including colliding and very long strings',
     'Identity depends on the whole history of registrations and collections.',
     [B + 'buzzstrman.c', B + 'buzzstrman.h'],
     [('registration and lookup', B + 'buzzstrman.c (buzzstrman_register, buzzstrman_get)'), ('collection', B + 'buzzstrman.c (buzzstrman_gc_*)')],
     tech='lockstep reference model under ASan/UBSan/LSan')
prop('B16', 'String operations follow their documented meaning on every string',
     'Length, substring, concatenation and the conversions between strings and numbers return exactly the documented result for all strings, positions and numbers, including empty and very long ones. '
     'Arguments of a wrong type or count raise an error, and text that is not a number in range converts to nil.',
     ['inputs', 'histories'], 'all strings, indices, numbers and argument lists', 'The tests sample a few short strings.',
     [B + 'buzzstring.c', B + 'buzzstrman.c'],
     [('string library', B + 'buzzstring.c')],
     tech='reference semantics compared online with the values of every call, under ASan/UBSan')
prop('B17', 'Mathematical functions are exact over their whole domain',
     'Each function of the math library returns the mathematically defined result for every number, keeps integers integers where documented and raises an error for arguments of a wrong type or count. '
     'Random numbers stay in their documented range, follow their distribution, and are reproduced exactly by the same seed, independently for each robot.',
     ['inputs', 'histories'], 'all numbers of both types, all argument lists, all seeds and lengths of sequences', 'The tests do not call the math library on boundary values and never check the generator.',
     [B + 'buzzmath.c', B + 'buzzmath.h'],
     [('math library', B + 'buzzmath.c'), ('random numbers', B + 'buzzmath.c (buzzmath_rng_*)')],
     tech='reference semantics and statistical monitors over every call, under ASan/UBSan')
prop('B18', 'Tables are maps, and iteration sees each entry once',
     'A table always holds, for every key, the value assigned last, and storing nil removes the entry; size, visiting, mapping, reducing and filtering agree with that content and visit each entry exactly once. '
     'A clone is a deep, independent copy with the same structure, and iterating while a callback changes the table neither crashes nor visits an entry twice.',
     ['inputs', 'histories'], 'all keys and values, nesting and sharing, and all sequences of updates and iterations', 'The tests use small flat tables.',
     [B + 'buzzobj.c', B + 'buzzdict.c', B + 'buzzvm.c'],
     [('table functions', B + 'buzzobj.c (buzzobj_foreach, buzzobj_map, buzzobj_reduce, buzzobj_filter, buzzobj_clone, buzzobj_size)'), ('table access', B + 'buzzvm.c (buzzvm_tput, buzzvm_tget)')],
     tech='online reference map against script observations, under ASan/UBSan')
prop('B19', 'The host sees an exact stack machine and can call in both directions',
     'Every operation the host performs on a robot (pushing values, stack, table and global accesses, arithmetic, calls of script functions and of registered functions) changes the operand stack exactly as documented and leaves everything else alone. '
     'A missing or ill-typed operand is reported as the documented error without corrupting memory, and a call from the host leaves exactly its result.',
     ['histories', 'inputs'], 'all sequences of host operations, interleaved with script execution and garbage collection', 'The tests do not use the host interface beyond loading and running scripts.',
     [B + 'buzzvm.c', B + 'buzzvm.h'],
     [('operand stack', B + 'buzzvm.c (buzzvm_push*, buzzvm_pop, buzzvm_dup, buzzvm_tput, buzzvm_tget)'), ('globals', B + 'buzzvm.c (buzzvm_gload, buzzvm_gstore)'), ('calls', B + 'buzzvm.c (buzzvm_function_call, buzzvm_closure_call)')],
     tech='reference stack machine compared after every host operation, under ASan/UBSan')
prop('B20', 'Assembling and disassembling lose nothing, and the tools tell the truth',
     'Assembling gives exactly the bytecode and debug information that the assembly text describes, and disassembling gives a listing of exactly that bytecode, which assembles to the same bytecode again. '
     'Running the resulting files on the command line does what the source says, and every file that is wrong, cannot be read or cannot be written completely is reported with a message and a failing exit status (missing debug information only with a message).',
     ['inputs'], 'all programs and assembly texts, including labels, odd strings and file names, and all damaged ones', 'The tests never compare bytecode and do not disassemble.',
     [B + 'buzzasm.c', B + 'buzzdebug.c', B + 'buzzasm_main.c', B + 'buzzdeasm_main.c', B + 'buzzrun.c'],
     [('assembler', B + 'buzzasm.c (buzz_asm)'), ('disassembler', B + 'buzzasm.c (buzz_deasm)'), ('debug file', B + 'buzzdebug.c (buzzdebug_tofile, buzzdebug_fromfile)')],
     tech='reference assembler and interpreter against the files, output and exit status of the real tools, under ASan/UBSan')
prop('B21', 'Debugging stops exactly where asked and never changes the program',
     'A run with breakpoints stops before each visit of an instruction with a breakpoint and nowhere else, and continuing to the end gives the same effects, values and outcome as a run without them. '
     'The debug information gives each instruction its file, line and column in the source, and finds the first instruction of a position.',
     ['histories', 'inputs'], 'all programs and all histories of setting, removing, stopping at and continuing from breakpoints', 'The tests do not use the debugger.',
     [B + 'buzzdebug.c', B + 'buzzvm.c', B + 'buzzparser.c'],
     [('breakpoints', B + 'buzzdebug.c (buzzdebug_breakpoint_*, buzzdebug_continue)'), ('positions', B + 'buzzdebug.c (buzzdebug_info_*)'), ('positions of instructions', B + 'buzzparser.c, buzzasm.c')],
     tech='trace comparison of stops with an instruction-by-instruction run, under ASan/UBSan')
prop('B22', 'The compiler accepts programs and refuses everything else',
     'Compiling any text whatsoever terminates without corrupting memory and either refuses it with a message that names the file and line, leaving no code behind, or produces code that the assembler accepts and that runs safely. '
     'The texts accepted are exactly those of the language\'s grammar. Comments and layout do not change the meaning of a program.',
     ['inputs'], 'all texts: programs, damaged programs and arbitrary bytes', 'The tests compile a few correct scripts.',
     [B + 'buzzlex.c', B + 'buzzparser.c', B + 'buzzasm.c'],
     [('lexer', B + 'buzzlex.c (buzzlex_nexttok)'), ('parser', B + 'buzzparser.c (buzzparser_parse)'), ('error messages', B + 'buzzparser.c')],
     tech='mutation-based stress of the real compiler under ASan/UBSan with a reference recognizer as the acceptance and refusal oracle')
prop('B23', 'Files hold what scripts write and iteration returns every line',
     'Opening, writing, visiting lines, asking for the size and closing follow the documented meaning for every content and mode: each line is visited once and completely, in order, and what was written is in the file. '
     'Failures are reported by error number and message without stopping the script, and using something that is not an open file raises an error without corrupting memory.',
     ['histories', 'inputs'], 'all file contents, modes and sequences of file operations, including nested visits and files closed during a visit', 'The tests do not use files.',
     [B + 'buzzio.c'],
     [('file library', B + 'buzzio.c')],
     tech='online reference model of files against script observations and final file contents, under ASan/UBSan')
prop('B24', 'Bundled script libraries and included files do what they say',
     'Sorting, shuffling, extremes, text search and splitting, plane vectors, message collection and arrows of the bundled libraries return what their descriptions say for all arguments. '
     'Including a file has the effect of its text at that place, files are found in the current directory and then in the directories of the include path in order, a file that includes itself is not read again, and a missing file is refused.',
     ['inputs'], 'all arguments of the library functions and all trees of included files', 'The tests include no file and do not use the bundled libraries.',
     ['src/include/table.bzz', 'src/include/string.bzz', 'src/include/vec2.bzz', 'src/include/arrows.bzz', 'src/include/neighbors.bzz', B + 'buzzlex.c'],
     [('libraries', 'src/include/*.bzz'), ('inclusion', B + 'buzzlex.c (buzzlex_file_new, buzzlex_nexttok)')],
     tech='reference definitions against the values of every call and the log of the compiled program, under ASan/UBSan')
prop('B26', 'Any bytes can be loaded and run as bytecode without harm',
     'Loading and executing arbitrary, damaged or hostile bytecode never reads or writes outside the robot\'s memory and never aborts the host: it runs, ends, or stops in an error state with a code and a message, and stays there. '
     'The host can still call functions, deliver messages and destroy the robot, and the command line tools report damaged bytecode and debug files.',
     ['inputs', 'histories'], 'all byte sequences, instruction sequences, operand values and damaged files', 'The tests run only bytecode of the compiler.',
     [B + 'buzzvm.c', B + 'buzzasm.c', B + 'buzzdebug.c', B + 'buzzrun.c'],
     [('loading', B + 'buzzvm.c (buzzvm_set_bcode)'), ('execution', B + 'buzzvm.c (buzzvm_step, buzzvm_call)'), ('disassembly', B + 'buzzasm.c (buzz_deasm)')],
     tech='random and mutated bytecode under ASan/UBSan with state monitors and repeated execution')
prop('B27', 'The compiler command does what its manual says',
     'The command bzzc leaves exactly the bytecode, the debug information and, if asked for, the assembly of the script that the parser and the assembler give, in the files named on the command line or after the script, whatever the script is called, '
     'with included files searched in BUZZ_INCLUDE_PATH and then in the directories given on the command line. It leaves no other file behind, touches no other file, and a wrong use, a wrong script or a failing tool gives a message and a failing exit status.',
     ['inputs', 'fault_sequences'], 'all command lines, script names, include paths and environments, and failures of the tools', 'The tests do not run the command.',
     ['src/utility/bzzc.in', B + 'buzzparse.c', B + 'buzzasm_main.c'],
     [('command', 'src/utility/bzzc.in'), ('search of included files', B + 'buzzlex.c (buzzlex_file_new)')],
     tech='monitor of the files, contents and exit status of random command lines, against the tools called directly')
prop('B25', 'Robots in one process are isolated and deterministic',
     'What a robot computes, sends and reports depends only on its script, its id and the inputs it received (neighbours, calls, delivered messages, seed of the random numbers). '
     'Creating, running, failing and destroying other robots in the same process, in any interleaving, changes nothing, and the same inputs give the same behaviour in another process.',
     ['schedules', 'histories'], 'all interleavings of any number of robots with any scripts, including failing ones', 'The tests run one robot at a time.',
     [B + 'buzzvm.c', B + 'buzzheap.c', B + 'buzzstrman.c', B + 'buzzmath.c', B + 'buzzinmsg.c', B + 'buzzoutmsg.c'],
     [('state of a robot', B + 'buzzvm.h (struct buzzvm_s)'), ('random numbers', B + 'buzzmath.c'), ('heap', B + 'buzzheap.c')],
     tech='record and replay: event logs of interleaved swarms against each robot alone in another process and build')
