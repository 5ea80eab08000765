#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, level_note=None, na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, note=level_note, na=na, state=state))
SIM = "simulator/main.cpp"

prop("C01", "A program is executed only from a complete translation of its source",
  "When x1sim is given a source file, the program is executed only if its complete source was read, translated without error and stored without loss. Whatever goes wrong on the way (the compiler cannot be started or dies, a file cannot be read, written or renamed, the disk is full, the source lost its end), x1sim prints a message, exits with status 1 and executes no part of the program. Short reads and writes make no difference.",
  ["fault_sequences", "crash_points", "programs"], "every source program, every fault sequence on the system calls of x1sim and the compiler it starts, every death of the compiler, every truncation of the source before its final end",
  "tests compile and run on a healthy system; no test makes a read, write, fork, exec, dup, rename fail, kills the compiler or cuts a source",
  ["simulator/main.cpp", "simulator/machine.cpp", "compiler/x1algc.c"], [("child status and load errors stop the run before execution", "simulator/machine.cpp"), ("end of source and write errors are fatal in the compiler", "compiler/x1algc.c")],
  ["standard output, standard error and exit status of x1sim"])
prop("C02", "Output is never silently lost",
  "If any byte that a program prints, that the compiler writes as object program or that objfile writes as library tape cannot be delivered (full disk, I/O error, quota), the tool says so and exits with a non-zero status. Exit status 0 means that everything was delivered, in order and unchanged, however short the single writes were. What was delivered before the failure is a prefix of the correct output.",
  ["fault_sequences", "programs", "inputs"], "every program and library source, every capacity of the output device and every point and kind of write failure",
  "tests write to files on a healthy disk",
  ["simulator/main.cpp", "simulator/machine.cpp", "compiler/x1algc.c", "library/objfile.cc"], [("final flush is checked", "simulator/main.cpp"), ("final flush of the object program is checked", "compiler/x1algc.c"), ("output stream is checked", "library/objfile.cc")],
  ["bytes accepted by the output device", "exit status"])
prop("C03", "How input arrives does not matter",
  "The output and the exit status of a program depend only on the characters of its input, not on how they arrive: from a file, a pipe or in pieces of any size, with any delays, or with single reads cut short. Input beyond what the program asks for changes nothing.",
  ["inputs", "schedules", "programs"], "every program that reads numbers, characters or console switches, every segmentation and timing of its input, every kind of input source, any trailing data",
  "tests feed input from one string in one piece",
  ["simulator/input.cpp", "simulator/machine.cpp"], [("characters are consumed one by one from one stream", "simulator/input.cpp")],
  ["standard output and exit status of x1sim"])
prop("C04", "Output appears before input is awaited",
  "When a program waits for input that has not arrived, everything it has printed so far has already been delivered to its reader, and nothing that depends on the missing input. Input is awaited only when the program asks for it: a program that has all it needs runs to its end although the input stays open. When input ends or fails where a number or console switches are required, the program stops there with a message and status 1, after exactly the output that precedes the request.",
  ["schedules", "inputs", "programs", "fault_sequences"], "every program that mixes input and output, every point at which its input stalls, ends or fails",
  "tests have all input available from the start, so waiting never happens",
  ["simulator/input.cpp", "simulator/machine.cpp", "simulator/opcodes.cpp"], [("output is flushed before input is read", "simulator/input.cpp")],
  ["standard output at the moment of the blocking read"])
prop("C05", "The time of day is taken when it is asked for",
  "Each request for the time of day yields the number of seconds since local midnight, in the configured time zone, according to the system clock at the moment of that request: between 0 and 86400, to within the 0.002 s that the 40-bit real format allows. Clock steps, midnight and slow execution are reflected by the next request and by no earlier one.",
  ["schedules", "programs", "fault_sequences", "configurations"], "every program asking repeatedly for the time, every sequence of clock readings, clock steps, time zones and delays",
  "tests cannot control the clock; at most they see one plausible value",
  ["simulator/machine.cpp", "library/timeofday.src"], [("clock is read when the first word is requested", "simulator/machine.cpp")],
  ["values printed by the program against the simulated clock"])
prop("C06", "Random numbers are a fixed sequence in [0, 1)",
  "A program that asks for random numbers gets the same sequence in every run, independent of clock, environment, tracing and other output or input activity, every number being at least 0 and less than 1. Setting the seed restarts the sequence that belongs to this seed, and different seeds give different sequences (up to coincidences of the generator's 32-bit seed).",
  ["programs", "configurations", "histories"], "every interleaving of random numbers, seeds, input and output in a program; every environment, clock, time of day and tracing option",
  "tests see single runs in one environment",
  ["simulator/machine.cpp", "library/random.src"], [("generator with a fixed default seed", "simulator/machine.cpp")],
  ["values printed in different runs"])
prop("C07", "Tracing does not change the program",
  "With debugging and a trace file requested, a program prints the same output and ends with the same status as without, for every input and every way input arrives. If the trace file cannot be created the run ends with a message, status 1 and no execution; if it cannot be written completely the output of the program is still correct and the loss is reported. The trace itself is the same in every run of the same program on the same input.",
  ["programs", "inputs", "fault_sequences", "configurations"], "every program and input, every trace option, every failure of the trace file",
  "tests look at the trace of a few fixed programs on a healthy disk",
  ["simulator/trace.cpp", "simulator/main.cpp", "simulator/machine.cpp"], [("trace goes to its own stream", "simulator/trace.cpp")],
  ["standard output, exit status and trace file of paired runs"])
prop("C08", "Running out of memory, stack or store is contained",
  "A program that nests or allocates too much (recursion, local arrays, a source with too many or too deep constructs), or that meets a failed memory allocation at any point, either gives exactly its correct output or ends with a message and status 1 after a prefix of it. It never crashes, hangs, uses memory without bound or prints wrong results. Large arrays and deep recursion that fit give exact results.",
  ["programs", "fault_sequences"], "every program with growing recursion depth, array sizes and source size; every failing allocation in x1sim and x1algc",
  "tests use small programs and allocations never fail",
  ["simulator/virtual_stack.cpp", "simulator/processor.cpp", "simulator/main.cpp", "compiler/x1algc.c"], [("limit on stack size", "simulator/virtual_stack.cpp"), ("capacity checks", "compiler/x1algc.c")],
  ["standard output, exit status, allocations"])
prop("C09", "After a crash at any point the next run is correct",
  "If a run is interrupted at any point, by death of x1sim or the compiler or by loss of power that loses or tears files not yet on disk, then the next run of the same or an edited source behaves as if the interruption had not happened. Whatever was left behind is neither executed nor gets in the way. Output made before the interruption is a prefix of the correct output.",
  ["crash_points", "histories", "programs"], "every crash point of every run, with and without loss of unsynced data, followed by any sequence of further runs",
  "tests never interrupt a run and always start clean",
  ["simulator/machine.cpp"], [("object program is rebuilt on every run, under a private name first", "simulator/machine.cpp")],
  ["standard output and exit status of the following runs"])
prop("C10", "Concurrent runs do not disturb each other",
  "Any number of simultaneous runs, of the same source or of different sources with the same or different object file names, each print the output of their own program as if they ran alone. Death of one does not affect the others.",
  ["schedules", "programs", "crash_points"], "every interleaving of system calls of two to four simultaneous runs and their compilers, with start times and one death at any point",
  "tests run one command at a time",
  ["simulator/machine.cpp"], [("object program written under a name of its own, then renamed", "simulator/machine.cpp")],
  ["standard output and exit status of each run"])
prop("C11", "A command line does what it says and nothing else",
  "Each command line of x1sim, in any order and spelling of its options, in any directory and after any other commands, does what its documentation says: it translates and executes exactly the program named first, with the libraries named after it, writes a trace where and only where one is asked for, leaves the object program of a source under its stem in the current directory, or shows help or version and executes nothing. A wrong option, a missing argument, an unknown extension, extra or missing files end it with a message, status 1 and no execution. No other file is created, changed or removed.",
  ["histories", "configurations", "programs"], "every sequence of command lines, every arrangement of options, programs, object programs and libraries in a directory tree",
  "tests call x1sim with one or two fixed command lines, each in a fresh directory",
  ["simulator/main.cpp", "simulator/machine.cpp", "simulator/trace.cpp"], [("options are taken in order", "simulator/main.cpp"), ("names of source and object program", "simulator/machine.cpp")],
  ["standard output, standard error, exit status, contents of the directory tree"])
prop("C12", "A damaged object file is contained",
  "Given an object file that is damaged in any way (truncated, torn, overwritten, bits flipped, words changed), x1sim executes only within its own simulated machine and, unless the damaged program loops, ends with status 0, or with a message and status 1. It never dies of a signal because of an access outside its own storage, and its memory stays within its documented bounds.",
  ["inputs", "fault_sequences", "crash_points"], "every damage of stored object programs: cuts at any byte, flipped bytes, changed words, lost or duplicated lines, torn sectors",
  "tests load only well-formed object files",
  ["simulator/machine.cpp", "simulator/processor.cpp", "simulator/opcodes.cpp", "simulator/virtual_stack.h"], [("loader validates addresses and values", "simulator/machine.cpp"), ("stack and memory accesses are checked", "simulator/processor.cpp")],
  ["exit status, signals, standard output"])
prop("C13", "Console switches follow the operator",
  "The operator is asked for the console switches at the moment the program first looks at them and at its next look after each stop, and never in between. What the program sees are exactly the digits entered, padded with zeros on the left and selected by the argument of XEEN as the machine represents it. Entries that are not up to 27 binary digits are refused with a message and status 1, and nothing is executed with them.",
  ["inputs", "schedules", "programs"], "every program using XEEN and stop, every operator input and its timing, every interruption of that input",
  "tests enter one fixed switch pattern",
  ["simulator/input.cpp", "simulator/machine.cpp", "simulator/opcodes.cpp"], [("prompt and parser for the switches", "simulator/input.cpp")],
  ["standard output up to each request, exit status"])
prop("C14", "A run-time error stops the program exactly there",
  "When a program does something that has no result (integer overflow, real overflow, division by zero, square root or logarithm outside the domain, subscript out of bounds, wrong kind of parameter), it stops at that point: everything printed before is delivered unchanged, nothing after is executed, a message is printed and the exit status is 1. Programs that do nothing of the kind never stop with an error.",
  ["programs", "inputs", "histories"], "every program and input history, every place and nesting at which an error can happen, every kind of output device",
  "tests trigger a few errors at the outermost level of fixed programs",
  ["simulator/opcodes.cpp", "simulator/virtual_stack.cpp", "simulator/x1_arch.cpp", "simulator/main.cpp"], [("errors are exceptions caught in one place", "simulator/main.cpp")],
  ["standard output, standard error, exit status"])
prop("C15", "Procedures and parameters work as in ALGOL 60",
  "In every program, parameters called by value are evaluated once on entry and converted to the type specified; parameters called by name are re-evaluated in the caller's environment at each use, including assignment through them; procedures, functions, labels, switches, strings and arrays can be passed on through any number of calls. Recursion gives each activation its own locals and parameters. Side effects, including input and output made while evaluating a parameter, happen at the time and in the order of those evaluations.",
  ["programs", "inputs", "histories"], "every nesting of procedures and parameters, every recursion depth that fits, every history of interactive input consumed inside parameters",
  "tests run a fixed set of small programs with one kind of parameter each",
  ["compiler/x1algc.c", "simulator/processor.cpp", "simulator/opcodes.cpp"], [("formal parameter descriptors and implicit subroutines", "simulator/processor.cpp"), ("display of block levels", "simulator/processor.cpp")],
  ["history of output and input requests against a reference interpreter"])
prop("C16", "Jumps restore the environment of their target",
  "A goto to a label, a switch element or a label parameter, out of any depth of blocks, loops, procedures, function calls and half-evaluated expressions, continues at the target with the variables of the target's activation, with nothing of the abandoned computation having further effect. This holds for any number of such jumps in a run.",
  ["programs", "inputs", "histories"], "every structure of nested activations and every jump out of it, repeated any number of times and driven by input",
  "tests contain few gotos, none out of nested activations repeated",
  ["simulator/processor.cpp", "simulator/opcodes.cpp", "compiler/x1algc.c"], [("stack is rolled back to the target frame", "simulator/processor.cpp")],
  ["history of output and input requests against a reference interpreter"])
prop("C17", "Arrays, blocks and loops work as in ALGOL 60",
  "Array elements are independent storage cells with the bounds evaluated on entry to the block, for any number of dimensions, negative and large bounds, local, outer, own and parameter arrays; a subscript outside its array is never silently accepted as another element's storage beyond that array. For statements evaluate start, step, limit and while conditions at the prescribed times, in all combinations of elements. Locals of a block live exactly as long as its activation, and value arrays are copies with their elements converted.",
  ["programs", "inputs", "histories"], "every combination of array shapes and sizes (bounds read from input), block nestings and loop lists",
  "tests use small arrays and simple loops at fixed bounds",
  ["compiler/x1algc.c", "simulator/processor.cpp", "simulator/opcodes.cpp"], [("storage functions", "simulator/processor.cpp"), ("index computation", "simulator/opcodes.cpp")],
  ["history of output and input requests against a reference interpreter"])
prop("C18", "Arithmetic on entered values is exact to the machine's format",
  "For every history of numbers entered, integer operations give the exact integer result, and real operations the correctly computed result in the machine's 40-bit format, with ALGOL 60's conversions and priorities; comparisons and Boolean operations agree with these values. The formats print, FIXT, ABSFIXT and FLOT show the value correctly rounded to their digits, and entering a printed integer gives the same integer.",
  ["inputs", "histories", "programs"], "every expression over values entered at run time, every order in which values are entered and fed back",
  "tests check selected constants",
  ["simulator/x1_arch.cpp", "simulator/virtual_stack.cpp", "simulator/encoding.cpp", "simulator/input.cpp", "compiler/x1algc.c"], [("conversion to and from the machine's format", "simulator/encoding.cpp")],
  ["history of output and input requests against a reference interpreter"])
prop("C19", "Files and libraries are found in the documented places, in order",
  "The library is the one named on the command line; if none is named, the one in the environment, then the one in the home directory, then those next to the installed program. A place later in this order is used only if the earlier ones are absent or unreadable, and when there is none at all the run ends with a message and executes nothing.",
  ["configurations", "fault_sequences"], "every combination of present, absent, unreadable and decoy libraries in all places, environment settings and ways of invocation",
  "tests name the library by one environment variable",
  ["simulator/machine.cpp"], [("lookup of the library", "simulator/machine.cpp")],
  ["which library took effect, as seen in output and exit status"])
prop("C20", "Every run ends with a truthful status",
  "Under any combination of faults (failing calls, short transfers, full disks, dead children, missing files, closed descriptors, failing allocations, stalling input), x1sim ends with status 0 only if the program was executed to its end and all output was delivered, with status 1 and a message otherwise. It never crashes, never hangs while its input is served and never prints output the program did not produce.",
  ["fault_sequences", "schedules", "programs", "inputs"], "every sequence of faults on every system call of x1sim and its compiler, with every program and input",
  "tests run on a healthy system",
  ["simulator/main.cpp", "simulator/machine.cpp"], [("all errors end in one handler", "simulator/main.cpp")],
  ["exit status, standard output, standard error"])
prop("C21", "A run depends on nothing but its program and input",
  "Two runs of the same program on the same input print the same output, end with the same status and leave the same object file, whatever the initial contents of memory, the process numbers, the time, the working directory, unrelated environment variables, files left by earlier runs and the speed of the machine may be.",
  ["configurations", "histories", "programs"], "every program and input; every filling of uninitialised memory, process numbering, clock, directory, environment and left-over files",
  "tests run each program once, in one environment",
  ["simulator/machine.cpp", "compiler/x1algc.c"], [("all machine state is initialised", "simulator/machine.h")],
  ["standard output, exit status and object file of paired runs"])
prop("C22", "A damaged library tape is never used silently",
  "If the library tape is cut short, has one heptad read wrong in one bit, or becomes unreadable at any point, the run either is as with the intact tape (the damage lies in parts the program does not need) or ends with a message, status 1 and no execution of the program. Whatever else the tape may contain, the compiler never crashes or hangs on it.",
  ["inputs", "fault_sequences", "crash_points"], "every cut and every single flipped bit of the library tape and every failing read of it, for every program with and without library procedures",
  "tests use the intact tape only",
  ["compiler/x1algc.c", "simulator/machine.cpp"], [("parity and terminator checks on the tape", "compiler/x1algc.c")],
  ["standard output, exit status, object file"])
prop("C23", "Wrong entries at the terminal are asked for again",
  "At a terminal each request for a number is announced by a prompt that is visible before the program waits; an entry that is not a number is refused with a message and asked for again, any number of times, without effect on the program; then the program continues with the first valid entry. Elsewhere a bad number ends the run with a message and status 1.",
  ["inputs", "schedules", "programs"], "every sequence of valid and invalid entries with every timing and segmentation, at a terminal and elsewhere",
  "tests have no terminal",
  ["simulator/input.cpp"], [("prompt and retry loop", "simulator/input.cpp")],
  ["dialogue on the terminal, exit status"])
prop("C24", "A damaged or wrong source is refused, not executed wrongly",
  "Given any file as a source (cut, torn, with flipped or foreign bytes, empty, huge lines, binary), x1algc ends by itself with a message and a non-zero status, or with a complete object program; x1sim executes nothing when the compiler refused. A text that is cut before its last end, lacks an end, has a round bracket too few or too many in an expression or statement, an unclosed string, an operand without a declaration, an underlined word that no delimiter begins like, or a character without a representation is always refused. Neither dies of a signal, hangs or writes outside its storage.",
  ["inputs", "fault_sequences", "crash_points"], "every damage of generated sources: cuts, flips, insertions, deletions, duplications, torn blocks",
  "tests have a few hand-written wrong sources",
  ["compiler/x1algc.c", "simulator/machine.cpp"], [("stops of the compiler", "compiler/x1algc.c")],
  ["exit status, signals, standard output"])
prop("C25", "Spelling and transfer of the source do not matter",
  "The translation of a program is the same however its text is spelled (any of the accepted representations of the basic symbols, comments, layout and line lengths), whatever names of letters and digits it gives to what it declares (nine characters count, more may follow), and however its bytes arrive at the compiler. The object program (but for the names listed in it), the output and the exit status do not change. Every symbol within a string is printed as it is written.",
  ["inputs", "schedules", "programs"], "every program, every choice among equivalent spellings and layouts, every segmentation of the source while it is read",
  "tests use one spelling per program",
  ["compiler/x1algc.c"], [("symbol recogniser", "compiler/x1algc.c")],
  ["object program, output, exit status"])
prop("C26", "objfile writes a complete library tape or fails",
  "The library assembler, given a library source, writes exactly the tape that belongs to it and exits with status 0, or exits with a non-zero status and a message when anything cannot be read, written or assembled. Interrupted or short transfers never yield a tape that is taken for complete. The library built by it is the one the compiler accepts.",
  ["fault_sequences", "inputs", "crash_points"], "every fault on reads and writes of objfile, every cut of its source",
  "no test runs objfile",
  ["library/objfile.cc"], [("stream states are checked", "library/objfile.cc")],
  ["tape, exit status, compiler runs with that tape"])
prop("C27", "An object file behaves as the source it was made from",
  "Running the object file left by a run of a source gives the same output, input requests and status as running the source, any number of times, at any later time and with any other input timing or tracing. The object file is exactly what the compiler alone writes for that source and library.",
  ["histories", "programs", "inputs", "schedules"], "every program; every sequence of runs from source and from object file with any input timing",
  "tests run programs either way, once, and do not compare",
  ["simulator/machine.cpp", "compiler/x1algc.c"], [("one loader for both ways", "simulator/machine.cpp")],
  ["standard output, exit status, object file"])
prop("C28", "The library may be laid out in any way",
  "The object program depends only on the first occurrence of each procedure it needs along the library tapes, not on their order, their division over files, procedures that are not needed or come again, blank tape, decimal or binary form, or whether the source is a file or standard input. If a needed procedure is on none of the tapes, or a tape is missing before all are found, this is reported by name, the status is 1 and nothing is executed.",
  ["configurations", "programs", "histories"], "every program, every set of needed procedures, every arrangement of library tapes and ways to hand them to x1sim and x1algc",
  "tests use the library as shipped",
  ["compiler/x1algc.c", "simulator/machine.cpp"], [("loading from tapes by number", "compiler/x1algc.c")],
  ["object program, output, exit status"])
prop("C29", "A five-track library tape is converted exactly",
  "from5track writes, for an intact tape, exactly the words punched on it, in the form that objfile takes. A single wrong bit in a word or its operation is pointed out on the line of that word and leaves all others as they are; a wrong bit in the header, a tape that breaks off, an impossible symbol, a read error or output that cannot be delivered end in a message and a non-zero status, after the words before it.",
  ["inputs", "fault_sequences"], "every tape, every single wrong bit, every place where a tape breaks off, every failing read or write, every capacity of the output device",
  "no test runs from5track",
  ["library/from5track.cc", "library/objfile.cc"], [("parity of each word and of the header", "library/from5track.cc")],
  ["standard output and exit status of from5track; tape written by objfile from it"])
NA = "a pure function of its argument, with no schedule, clock, I/O, fault or interleaving for a simulation to decide; it is exercised only as a by-product of C14 to C18"
prop("C90", "Conversion between IEEE and X1 numbers loses nothing representable",
  "Converting a number that the X1 format can represent to the host's format and back yields the same number; other numbers yield the nearest representable one.",
  ["inputs"], "every pair of words", "tests sample some values", ["simulator/encoding.cpp"], [("conversion functions", "simulator/encoding.cpp")], ["return values"], na=NA)
prop("C91", "The Pascal and the C compiler translate alike",
  "For every source both versions of the compiler write the same object program.",
  ["programs"], "every program", "no test compares them", ["compiler/x1algol.pas", "compiler/x1algc.c"], [("transcription", "compiler/x1algc.c")], ["object programs"],
  na="there is no Pascal compiler in this sandbox, the README documents intended differences, and the comparison is a pure function of the source with nothing for a simulation to decide")
prop("C92", "Symbol names and disassembly match the instruction encoding",
  "The instruction and procedure names shown in traces and listings are those of the words executed.",
  ["inputs"], "every instruction word", "tests look at few traces", ["simulator/trace.cpp", "simulator/x1_arch.h"], [("name tables", "simulator/trace.cpp")], ["trace text"], na=NA)

built = set(open(os.path.join(V, "tools", "built.txt")).read().split())
NOTE = ("Seeded search over simulated executions of the real x1sim/x1algc binaries; a clean run is evidence, not proof. Trusted: the simulated kernel "
        "(every system call is intercepted and served by the simulator), the reference interpreter where one is used, and that the programs take no decision outside system calls, allocation and the clock.")
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 2, p["id"]
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
checks, na = [], []
for p in P:
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    elif p["id"] not in built:
        na.append({"property": p["id"], "reason": "its check is not built yet"})
    else:
        checks.append({"property": p["id"], "quick_cmd": "./check.sh " + p["id"], "thorough_cmd": "./check.sh " + p["id"] + " --tier=thorough",
            "technique": "deterministic simulation with fault injection: seeded search over system-call schedules and faults, real binaries", "level": "exploration",
            "level_note": p["note"] or NOTE})
m = {"version": 1, "setup_cmd": "./build.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seam is the system-call boundary. Replays: ./replay.sh FILE."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
