prop("C01", "Scheduling follows priorities and the documented order",
 """Between two points at which the program gives up control, exactly one process runs, and it runs undisturbed; when a process is
 resumed, created, has its priority changed, yields, waits, is suspended or terminates, the process that runs next and the order of those
 left behind is the one that the priorities and the order of arrival determine. No runnable process is lost, duplicated or run
 after it terminated or while it is suspended or waiting.""",
 ["schedules", "programs"], "every set of processes, priorities and sequence of scheduling operations among them",
 "The tests run a few fixed scripts of two or three processes; the order depends on the whole history of ready lists.",
 ["libgst/interp.c", "libgst/prims.def", "kernel/Process.st", "kernel/ProcSched.st"],
 [("ready lists and the switch at sequence points", "libgst/interp.c: highest_priority_process, activate_process, resume_process, suspend_process, active_process_yield"),
  ("process creation and priorities", "kernel/Process.st: onBlock:at:suspend:, priority:")],
 ["Process state queries, the order in which processes perform observable actions"],
 TV % "whole executions of generated process sets", """Every event of every generated execution must be the one the specification's
 state determines; TLC also explores a complete family of small process sets. Only executions without garbage collection in the middle are judged, and priorities 4 to 6.""")

prop("C02", "Semaphores neither lose nor invent signals and serve in order",
 """At any time the number of waits on a semaphore that have succeeded because of a signal plus the signals still available equals the
 number of signals sent to it; a signal wakes the process that has waited longest, a notification wakes waiting processes
 without leaving a signal behind, and a wait ended by anything else says so. Signalling one semaphore and waiting on another in one step cannot lose a
 wake-up in between.""",
 ["schedules", "programs"], "every interleaving of signals, waits, notifications and interruptions of waiting processes, on any number of semaphores",
 "Tests use one or two semaphores with one waiter; conservation and order need many waiters that are resumed, suspended or terminated while waiting.",
 ["libgst/interp.c", "libgst/prims.def", "kernel/Semaphore.st", "kernel/Process.st"],
 [("signal and wait", "libgst/interp.c: _gst_sync_signal, _gst_sync_wait"), ("waitAfterSignalling", "libgst/prims.def: VMpr_Semaphore_waitAfterSignalling")],
 ["return value of a wait, number of signals, order of wake-ups"],
 TV % "whole executions of generated process sets", "As C01, with a mix of operations that concentrates on semaphores; the conservation law is an invariant evaluated after every event.")

prop("C03", "Critical sections exclude each other and are always released",
 """At most one process at a time is inside the critical sections guarded by one mutual-exclusion semaphore or recursion lock, a process
 that owns a recursion lock enters it again at once, and however a critical section is left - normally, by a
 non-local exit, an exception or termination of the process - the guard is released exactly once, and only by a process that acquired it.""",
 ["schedules", "programs"], "every set of processes entering, leaving, being suspended, resumed and terminated inside or on the way into guarded sections",
 "The windows between acquiring a guard and protecting its release are a few bytecodes wide; tests terminate processes at one or two chosen points.",
 ["kernel/Semaphore.st", "kernel/RecursionLock.st", "kernel/Process.st", "libgst/interp.c"],
 [("critical:", "kernel/Semaphore.st: critical:"), ("ownership", "kernel/RecursionLock.st: critical:")],
 ["entry to and exit from critical sections, remaining signals"],
 TV % "whole executions of generated process sets", "As C01, with critical sections, recursion locks, exceptions, non-local exits and terminations; mutual exclusion is an invariant evaluated after every event.")

prop("C04", "Terminating a process runs its pending unwind blocks exactly once",
 """Terminating a process, whatever it is doing, makes it evaluate every pending protective block it had entered, innermost first and each exactly
 once, with the others' effects visible, then never run again; blocks that had already finished are not evaluated again and blocks never entered are not evaluated.
 Leaving a protected block normally, through an exception handler or by a non-local return obeys the same rule.""",
 ["schedules", "programs"], "every nesting of protected blocks and every point at which the process is terminated, by itself or by another process",
 "Tests terminate a process with one protected block; nesting, blocked processes and unwind blocks that signal others are not covered.",
 ["kernel/Process.st", "kernel/BlkClosure.st", "kernel/AnySOS.st", "kernel/BlkContext.st", "libgst/interp.c"],
 [("terminate", "kernel/Process.st: terminate, queueInterrupt:"), ("ensure:/ifCurtailed:", "kernel/BlkClosure.st")],
 ["order of evaluation of the protective blocks, status of the process"],
 TV % "whole executions of generated process sets", "As C01, with nested protected blocks and terminations. What a second termination during unwinding does is left open.")

prop("C05", "Shared queues deliver every item exactly once, in order",
 """Every object put into a shared queue is answered by exactly one removal, in the order of insertion - or, for a queue with an ordering, each
 removal answers the least of the objects present - and a process that removes from an empty queue waits until an object is put. No
 item is lost, duplicated or left behind while a process waits, however producers and consumers are scheduled.""",
 ["schedules"], "every number and priority of producers and consumers and every order of their operations, including consumers terminated while waiting",
 "The tests use a single producer and consumer.",
 ["kernel/SharedQueue.st", "kernel/Semaphore.st", "libgst/interp.c"],
 [("guard and count semaphores", "kernel/SharedQueue.st")], ["the items answered by each removal"],
 TV % "operations of generated producers and consumers", "A nondeterministic queue specification: any behaviour of an atomic queue is accepted, whatever the scheduling.")

prop("C06", "Delays and timeouts fire when due, in order, and not before",
 """A process waiting on a delay resumes after the delay has expired and not earlier, processes whose delays expire at different times resume in the
 order of those times, and a delay that is cancelled or whose process is terminated disturbs no other. A computation limited by a timeout either finishes before
 it or is abandoned after it, with its pending unwind blocks run.""",
 ["schedules", "inputs"], "every set of simultaneous delays, of cancellations and of waits resumed early",
 "The tests wait on one delay at a time or two in a fixed order.",
 ["kernel/Delay.st", "kernel/BlkClosure.st", "kernel/Process.st", "libgst/events.c", "libgst/sysdep/posix/timer.c"],
 [("delay queue and event loop", "kernel/Delay.st")], ["clock readings around the wait, order of wake-ups"],
 TV % "timed executions", "Timed traces: only lower bounds on waiting times and orders between expirations that differ by a safe margin are judged, so a slow machine cannot raise an alarm.")

prop("C07", "Exceptions find the right handler and continue as it says",
 """Signalling an exception evaluates the innermost active handler, in the environment of the signal, whose selector matches and which is
 not disabled because it is itself running; the handler's return, retry, resumption, passing, outer call or re-signalling continues execution at the place
 each of them names with the value it carries. Protective blocks between signal and handler are evaluated exactly once, when the
 handler completes by unwinding, innermost first, and not at all when it resumes.""",
 ["programs"], "every nesting of handlers, protected blocks, signals inside handlers and ways to leave a handler",
 "The ANSI tests exercise each message once or twice; nestings of several of them are not covered.",
 ["kernel/AnySOS.st", "kernel/ExcHandling.st", "kernel/BlkClosure.st", "kernel/ContextPart.st", "kernel/BlkContext.st"],
 [("handler search and disabling", "kernel/ExcHandling.st, kernel/ContextPart.st: scan handlers"), ("unwind", "kernel/ContextPart.st: unwind, continue:")],
 ["the trace of handlers and protective blocks evaluated, the value of each expression"],
 TV % "generated programs", "The specification is a small-step machine for a language of handlers, signals and protective blocks; generated programs must produce exactly its event sequence.")

prop("C08", "Blocks capture variables by reference; returns leave the right activation",
 """A block reads and writes the very variables of the activations that enclose its definition, each activation and each evaluation of an enclosing
 block having its own, however long after those activations ended; a return from a block leaves the method activation that defined
 it, running the protective blocks on the way, and when that activation has ended already the error is reported instead. Recursion to any depth and contexts that outlive their callers
 do not change any of this.""",
 ["programs"], "every nesting of methods and blocks, and every order of calls, escapes and returns",
 "Tests have a handful of closure shapes; which compilation strategy a block gets depends on its shape.",
 ["libgst/interp.c", "libgst/interp-bc.inl", "libgst/comp.c", "kernel/BlkClosure.st", "kernel/AnySOS.st"],
 [("context allocation and unwinding", "libgst/interp.c: unwind_context, unwind_method"), ("block kinds", "libgst/comp.c: check_inner_type")],
 ["the trace printed by the program"],
 TV % "generated programs", "Generated programs are run by the VM and their traces checked against an operational semantics written in TLA+.")

prop("C09", "Garbage collection keeps exactly what is reachable, unchanged",
 """At any moment every object that is reachable from live variables keeps its identity, class, size and contents, whatever mixture of
 allocation, mutation, and incremental, generational, full or compacting collection happens. Objects that are no longer reachable are eventually
 reclaimed, so that a program with bounded live data runs in bounded memory.""",
 ["histories", "schedules"], "every history of allocations and pointer updates and every placement of collections in it",
 "Tests run a few allocation loops; barriers and promotion bugs need old-to-young stores at particular moments.",
 ["libgst/oop.c", "libgst/mpz.c", "libgst/oop.h", "libgst/dict.inl", "libgst/alloc.c"],
 [("scavenging, tenuring, marking, compaction", "libgst/oop.c"), ("write barrier / remembered set", "libgst/oop.c, oop.h")],
 ["contents of an object graph compared with a model, weak references to dead objects"],
 TV % "histories of graph mutations and collections", "A specification of an object graph with generations, remembered set and collections; recorded histories over a real graph must match.")

prop("C10", "Weak references, ephemerons and finalization follow reachability",
 """A weak collection never drops or changes an element that is strongly reachable, and drops one that is not after a full
 collection; an ephemeron's value is kept exactly as long as its key is reachable from elsewhere. A registered object is finalized once after
 it was registered, only after it has become unreachable, and never when it is reachable.""",
 ["histories"], "every history of references taken and dropped, of registrations and of collections",
 "The tests register one object and collect once.",
 ["kernel/WeakObjects.st", "kernel/HashedColl.st", "kernel/Object.st", "kernel/ObjMemory.st", "libgst/oop.c"],
 [("weak and ephemeral marking, mourning", "libgst/oop.c"), ("weak collections", "kernel/WeakObjects.st")],
 ["contents of weak collections, finalization log"],
 TV % "histories of references and collections", "The specification tracks reachability; recorded histories must show exactly its drops and finalizations.")

prop("C11", "Identity swaps and hashes are global and stable",
 """Swapping or redirecting the identities of two objects is visible through every reference in the system, old or new, at once, and each keeps class, contents and size
 of the other; an object's identity hash never changes while it is alive, and equal objects have equal hashes. Changing
 an object's class keeps its identity and named state; read-only objects refuse
 every store into their indexed variables.""",
 ["histories"], "every history of swaps, redirections, class changes, stores and collections",
 "Tests swap a pair of objects and look at one reference.",
 ["libgst/oop.c", "libgst/oop.h", "libgst/prims.def", "kernel/AnySOS.st", "kernel/Object.st"],
 [("swap_objects, become", "libgst/oop.c"), ("changeClassTo:, makeReadOnly:", "libgst/prims.def")],
 ["object graph observed through many references"],
 TV % "histories of swaps and collections", "An identity map specification; recorded histories must match.")

prop("C12", "A saved image resumes with the state it had",
 """An image saved at any time and started later, once or repeatedly, has every reachable object with the contents it had when it was saved, including classes, methods, globals,
 processes waiting or ready to run, symbols and hashed collections that can still be searched. Start-up and shut-down dependents are notified once
 for each transition, and the program that saved continues undisturbed in both.""",
 ["histories", "crash_points"], "every object graph and process state at the time of the save, and every sequence of saves and restarts",
 "The tests save no image with a running program.",
 ["libgst/save.c", "libgst/oop.c", "libgst/lib.c", "kernel/ObjMemory.st"],
 [("save and load, pointer fixing", "libgst/save.c"), ("changed: notifications", "kernel/ObjMemory.st, libgst/comp.c")],
 ["state printed before the save and after the restart"],
 TV % "histories that save and restart the VM", "The specification's Save and Resume actions leave the abstract state unchanged; recorded histories across VM processes must match.")

prop("C13", "A failing or interrupted save leaves the earlier image usable",
 """Saving an image over an existing one either leaves the complete new image under that name or leaves the earlier one as it was; a failure to write - a full disk, a
 limit on file size, a process killed at any moment - is reported when there is someone to report it to and leaves a file that can be started.
 No partial image ever replaces a good one.""",
 ["crash_points", "fault_sequences"], "every point of the write at which it fails or the process dies",
 "No test makes a save fail.",
 ["libgst/save.c", "libgst/md-config.h", "kernel/ObjMemory.st"],
 [("write to a temporary and rename", "libgst/save.c: _gst_save_to_file")], ["the image file after the fault"],
 TV % "saves with faults injected at each write", "Fault injection at each system call of the save under a preload library; the outcome must be one the specification's crash model allows.")

prop("C14", "A message runs the method that the receiver's class determines now",
 """Sending a message evaluates the method found first when going up from the receiver's class - or, for a message to super, from above the class
 where the sending method is defined - as the classes and their methods are at that moment; no earlier send, however recent, makes a stale method run after
 a definition, removal or change of superclass. When there is no method the receiver is told which message it did not understand, with its arguments.""",
 ["histories"], "every history of method definitions, removals, class changes and sends from any number of call sites",
 "Caches only go wrong for particular orders of sends and definitions; the tests define methods before they call them.",
 ["libgst/interp-bc.inl", "libgst/interp.c", "libgst/dict.c", "libgst/dict.inl", "kernel/Behavior.st", "kernel/MethodDict.st"],
 [("method cache and inline caches", "libgst/interp-bc.inl: SEND_MESSAGE, libgst/interp.c: _gst_find_method, _gst_invalidate_method_cache")],
 ["the value each send answers"],
 TV % "histories of definitions and sends", "The specification is a table of classes and methods with lookup; every recorded send must answer what it determines.")

prop("C15", "Changing a class keeps its instances and subclasses consistent",
 """Adding, removing or reordering instance variables of a class changes its existing instances and those of its subclasses so that each
 remaining variable keeps its value and new ones are nil; methods keep referring to the variables they name. Class-side variables, shared pools,
 categories and the class hierarchy queries always agree with the definitions made.""",
 ["histories"], "every history of class definitions and changes, with live instances of the class and its subclasses",
 "The tests change a class once with few instances.",
 ["kernel/Class.st", "kernel/Behavior.st", "kernel/ClassDesc.st", "kernel/UndefObject.st", "kernel/Builtins.st", "libgst/dict.c"],
 [("updateInstanceVars:shape:", "kernel/Behavior.st, kernel/Class.st, kernel/Metaclass.st")],
 ["values of instance variables read by name and by methods"],
 TV % "histories of class changes", "The specification is a table of classes with their variables and instances; recorded histories must match.")

prop("C16", "A name denotes the variable of the innermost scope that defines it",
 """An identifier in a method denotes the temporary, instance variable, class variable, pool variable or global that the documented search order - innermost scope first, the
 class before its superclasses, then namespaces and their enclosing ones - finds first, and an assignment through any such name is seen by all code that shares the variable.
 Namespaces answer, inherit, shadow and remove bindings accordingly.""",
 ["programs", "histories"], "every arrangement of nested namespaces, pools, class variables and temporaries with the same names",
 "Tests cover one or two collisions.",
 ["libgst/sym.c", "kernel/RootNamespc.st", "kernel/AbstNamespc.st", "kernel/Namespace.st", "kernel/SysDict.st", "kernel/BindingDict.st"],
 [("variable lookup", "libgst/sym.c: _gst_find_variable, find_class_variable"), ("namespaces", "kernel/*Namespc.st")],
 ["value read through each name"],
 TV % "histories of definitions and reads", "The specification is the documented search order over an abstract scope structure.")

prop("C17", "Compiled code computes what its source means",
 """Every syntactically valid method - with its precedence, cascades, assignments, literals, control structures that the compiler expands in line, and
 variables - computes the value and performs the side effects, in the order, that the language defines, whether or not the compiler
 optimizes or expands it, and the same as when the same messages are sent dynamically.""",
 ["programs", "inputs"], "every program", "The tests compile fixed sources; the peephole optimizer and the expansions depend on combinations.",
 ["libgst/comp.c", "libgst/gst-parse.c", "libgst/lex.c", "libgst/opt.c", "libgst/byte.c", "libgst/vm.def", "libgst/interp-bc.inl"],
 [("in-line expansion", "libgst/comp.c: _gst_compile_*"), ("peephole optimizer and superoperators", "libgst/opt.c, libgst/vm.def")],
 ["the value and trace of the compiled program"],
 TV % "generated programs", "An interpreter for the language written in TLA+ evaluates each generated program; the VM's trace must be the same.")

prop("C18", "Hashed collections are the finite sets, bags and maps they model",
 """A set, bag, dictionary or identity collection answers, after any history of insertions, removals, replacements, growth and enumeration, exactly as the mathematical set, multiset or map it
 represents: each element or key is found if and only if it was put and not removed since, with its latest value and count. Copies are
 independent, and collisions of hash values never matter.""",
 ["histories", "inputs"], "every history of operations and every distribution of hash values",
 "Removal in open addressing breaks only for particular collision patterns; the tests use a few keys.",
 ["kernel/HashedColl.st", "kernel/Collection.st", "kernel/Set.st", "kernel/Bag.st", "kernel/Dictionary.st", "kernel/LookupTbl.st", "kernel/IdentDictionary.st", "libgst/dict.c", "libgst/dict.inl"],
 [("probing, growth and removal", "kernel/HashedColl.st, kernel/LookupTbl.st, libgst/dict.inl: identity_dictionary_*")],
 ["answers and contents after each operation"],
 TV % "histories of operations", "The specification is a finite map; elements with chosen hash values force collisions.")

prop("C19", "Sequenceable collections behave as finite sequences",
 """Arrays, byte arrays, strings, intervals and ordered collections answer, after any history of insertions and removals at either end or in the middle, replacements, searches and copies, exactly as the finite
 sequence they represent: the same elements in the same positions, the same size, the same result for each query, and an error that changes nothing for a position
 outside the bounds. Copies are independent of the original.""",
 ["histories", "inputs"], "every history of operations with every argument",
 "Gap and growth handling depends on the history of insertions at both ends; the tests use a handful.",
 ["kernel/OrderColl.st", "kernel/SeqCollect.st", "kernel/ArrayColl.st", "kernel/Array.st", "kernel/CharArray.st", "kernel/String.st", "kernel/ByteArray.st", "kernel/Interval.st", "kernel/Collection.st"],
 [("firstIndex/lastIndex window and growth", "kernel/OrderColl.st"), ("primitive copies", "libgst/prims.def: ArrayedCollection replaceFrom:to:with:startingAt:")],
 ["answers and contents after each operation"],
 TV % "histories of operations", "The specification is a finite sequence; its laws are model checked for all sequences up to length 5 over three values.")

prop("C20", "Arithmetic on integers and fractions is exact at every size",
 """Integers of any size and fractions form the exact rational numbers: sums, differences, products and quotients, the integer divisions rounding down
 and toward zero with their remainders, greatest common divisors and least common multiples, powers, shifts, bitwise operations (on two's complement of unlimited length), rounding to an integer,
 comparison, logarithms rounded to an integer, and conversion to and from text in every radix, literals included, give the mathematically exact result whatever the sizes and signs of the operands. A result that fits a
 SmallInteger is one, one that is an integer is not a Fraction, fractions are in lowest terms with a positive denominator, and division by zero is an error that changes nothing.""",
 ["inputs", "histories"], "all operands, in every combination of sizes, signs and representations, and every sequence of operations on the results",
 "Carries, borrows, quotient digits estimated too large and the change of representation occur for particular digits at particular places; the tests use a few numbers.",
 ["libgst/mpz.c", "libgst/mpz.h", "libgst/prims.def", "libgst/lex.c", "libgst/comp.c", "kernel/Integer.st", "kernel/SmallInt.st", "kernel/LargeInt.st", "kernel/Fraction.st", "kernel/Number.st"],
 [("arithmetic on digit arrays", "libgst/mpz.c: _gst_mpz_add, _gst_mpz_tdiv_qr, _gst_mpz_fdiv_qr, _gst_mpz_xor, _gst_mpz_from_oop, _gst_oop_from_mpz"),
  ("overflow from SmallInteger", "libgst/prims.def: VMpr_SmallInteger_times, VMpr_SmallInteger_divide"), ("literals", "libgst/lex.c: scan_number"), ("fractions", "kernel/Fraction.st")],
 ["class, sign and digits of every result", "texts"],
 TV % "histories of operations on registers of numbers", """The specification computes on sequences of digits to the base 256, so nothing is bounded by TLC's own numbers; the same
 definitions with digits to the base 4 are model checked against TLC's integers for all pairs of numbers up to 20 (thorough: bases 2, 4 and 8, to 36). Numbers of up to 600 bits are driven.""")

prop("C21", "Floating-point numbers are correctly rounded and keep their value through text",
 """For each of the three precisions, converting an exact number, evaluating a literal, and adding, subtracting, multiplying, dividing and taking the square root answer the representable number
 nearest to the exact result (the even one of two), including results below the normal range and overflow to infinity; conversions between precisions, comparison, truncation, rounding to integers, exponents and scaling by powers of two are exact;
 and the text a float prints denotes that float: read at its precision it gives it back.""",
 ["inputs", "histories"], "all operands and literals, at every magnitude and precision, and every sequence of operations on the results",
 "Whether a result is the nearest one depends on the last bits of particular operands; the tests compare a few printed values.",
 ["libgst/real.c", "libgst/lex.c", "libgst/comp.c", "libgst/prims.def", "kernel/Float.st", "kernel/FloatD.st", "kernel/FloatE.st", "kernel/FloatQ.st", "kernel/Integer.st", "kernel/LargeInt.st", "kernel/Fraction.st", "kernel/Number.st"],
 [("literals", "libgst/lex.c: scan_number; libgst/real.c"), ("conversion of exact numbers", "kernel/LargeInt.st, kernel/Fraction.st, kernel/Number.st: asFloatD and the like"),
  ("printing", "kernel/Float.st: printOn:special:"), ("primitives", "libgst/prims.def: float_arith")],
 ["sign, exponent field and significand of every result", "texts"],
 TV % "histories of operations on registers of numbers", """Rounding is defined on exact rationals of unlimited size. Not judged: NaN, what follows an infinity, division by zero, the sign of zeros that are results of fractionPart, integerPart, scaling and abs,
 comparisons of floats with exact numbers that are not of the same type, elementary functions; extended precision is driven within magnitudes of 2^-1000 to 2^1000.""")
