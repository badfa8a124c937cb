"""Texts of the properties and of the checks that decide them."""
NOTES = "All checks are static: they compile /repo's current sources to LLVM IR (never run them) or parse its Python, and decide each property from that."
P = []
TODO = "the check for this property is still being built in this session"


def prop(id, title, statement, over, quant, tests, files, mech, tech=None, level=None, note=None, na=None):
    if tech is None and na is None: na = TODO
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, tests=tests, files=files, mech=mech,
                  tech=tech, level=level, note=note, na=na))


prop("P01", "Character class algebra is exact set algebra",
     "For all character classes and all characters, union, intersection, difference and complement of classes contain exactly the characters that set algebra prescribes, and membership, containment and overlap queries answer exactly according to that set; a class made from characters or from a range contains exactly these. "
     "Results are again well-formed classes (sorted, non-overlapping, non-inverted ranges), so operations can be chained without losing or inventing characters.",
     ["inputs"], "every pair of canonical classes with any number of ranges, every character, the character types char, unsigned char and wchar_t",
     "the unit tests evaluate a handful of two-range classes; errors sit in particular relative positions of ranges and in remainders after one operand is exhausted",
     ["src/core/CharClass.hpp", "src/core/CharClass.cpp"],
     [("merge loops over sorted range lists", "CharClass<TCHAR>::operator|, operator&, diff_and_int, operator~"),
      ("membership queries", "CharClass<TCHAR>::includes, overlaps")],
     "abstract interpretation of the compiled IR over an order abstraction of range lists (pointwise in one arbitrary character)", "proof",
     "Covers class operands of any length: ranges are abstracted to their order relative to one arbitrary character, list prefixes to summaries. Trusts the clang front end, the model of std::vector and the abstract interpreter.")

prop("P02", "A bracketed character class denotes exactly the characters written",
     "The text between [ and ] denotes exactly the union of its items: single characters, ranges a-b, and the escapes \\\\ \\- \\[ \\] \\t \\r \\n (T, R, N as well); a leading ^ takes the complement, a ^ anywhere else is a character. "
     "An unescaped dash that starts the class, follows a range or stands before ], an unknown escape, the end of the text and U+FFFF are refused; everything else is accepted, and reading ends just behind the ].",
     ["inputs"], "every class text with any number of items, for character types char, unsigned char and wchar_t",
     "tests build classes from code, not from text; the wrong character shows only for a particular order of items, escapes and dashes",
     ["src/core/CharClass.cpp", "src/core/CharClass.hpp"], [("notation", "CharClass::parse")],
     "abstract interpretation of the reader beside a reference automaton of the notation; every range added must be one that is written, in the same place", "proof",
     "That adding a range to a class or inverting it does the right thing to the set is P01. Ranges are assumed to be written low to high and to fit the character type.")

prop("P24", "Python and the library agree on every call, callback and record",
     "Every native function that the Python package declares or calls is exported by the library, and each parameter, result and callback argument has the kind (address, string, wide string, number, flag) and width that Python declares; a callback may ignore trailing arguments. "
     "Record fields are read where the library keeps them and never cut a value. A callback the library keeps stays alive on the Python side, takes as many arguments as it is given, and a handle passed where a base class is expected is the same address and is destroyed completely.",
     ["configurations", "histories"], "every export, every declaration and call site in src/python/centaurus, every callback and record type; for LP64 platforms",
     "no test loads the Python package; a wrong width or offset shows only for large values, a lost callback only after a collection",
     ["src/pydll/PyCentaurus.cpp", "src/python/centaurus/corelib.py", "src/python/centaurus/listener.py", "src/python/centaurus/context.py", "src/core/BaseListener.hpp", "src/core/BaseRunner.hpp", "src/core/Grammar.hpp"],
     [("exports", "PyCentaurus.cpp"), ("declarations and calls", "corelib.py"), ("callback types", "ReductionListener, TransferListener, EnumMachinesCallback"), ("record", "SymbolEntry")],
     "compile-time witnesses (one static_assert per parameter, generated from the Python syntax tree), class layouts, and escape analysis of callbacks in the compiled exports", "proof",
     "asmjit's headers are not in the repository; a stand-in with declarations only is used to type-check the exports. Signedness of numbers of the same width is not compared.")

prop("P13", "The predictor decides an alternative exactly when no other is left",
     "For every decision of a grammar the predictor, fed the text that follows, answers with an alternative exactly when that is the only one the text read so far can belong to, an alternative of lower rank being given up where a higher ranked one can go on; it asks for more text while several are left and refuses when none is. "
     "What follows a rule is taken from all places that use it, what follows a call from that call. Building the predictor ends.",
     ["inputs"], "924 decisions (thorough: each with and without optimisation): two and three alternatives, options, loops, ranks, below and above calls, in rules used in several places; every text",
     "the stable tests build no predictor; a wrong one shows only for texts that need more than one character or a certain caller",
     ["src/core/LookaheadDFA.hpp", "src/core/CompositeATN.hpp", "src/core/CompositeATN.cpp", "src/core/ATN.hpp"], [("construction", "LookaheadDFA: fork_closures, add_state, minimize"), ("closures", "CompositeATN: build_root_closure, build_closure, build_departure_set"), ("ranks", "PriorityChain, CATNDepartureSetFactory")],
     "abstract interpretation of the construction on operand networks laid out in memory; its table walked beside the set of places the text can have led to", "bounded",
     "Grammars whose predictor is refused with an exception are not judged (recursion through the end of a rule is refused). One known finding: a loop whose body may be empty.")

prop("P14", "A Python handler gets exactly the values of its own sub-rules",
     "Every value other than None that a Python handler returns (false ones as well) reaches the handler of the enclosing rule exactly once, in the order of the text, whichever worker made it and wherever the input was cut into banks; a handler can reach no other value, by index, from the end, by going through, or by count. "
     "Each symbol calls parse<Name>, else the default, once, with exactly its text; a missing handler is refused. parse() returns what the handler of the whole returned, for every parse of a session; stop() ends all workers.",
     ["inputs", "schedules", "histories"], "all rule trees of up to three rules (thorough: five) cut into any number of banks, larger ones in up to four, with handlers returning true and false values or None; in stage 3 also on top of any number of values",
     "no test loads the Python package; values are lost or mixed up only when a bank ends inside a rule or a handler returns nothing",
     ["src/python/centaurus/listener.py", "src/python/centaurus/context.py", "src/python/centaurus/corelib.py"],
     [("value stacks", "BaseListenerAdapter, Stage2ListenerAdapter, Stage3ListenerAdapter"), ("workers and queues", "Context, Stage2Worker, Stage3Worker"), ("handler table", "BaseListenerAdapter.__init__, Grammar")],
     "abstract interpretation of the Python syntax tree over token values, lists with an unknown part and linear addresses", "bounded",
     "The library's side of the calls is taken from P18, P20 and P21. Queues are taken to deliver in order, processes to start with a copy of the objects as they are at start().")

prop("P22", "What a session takes from the system it gives back, once and whole",
     "Every descriptor, mapping, semaphore and thread that a stage of a session or a mapped input obtains is released exactly once by the time it is destroyed, or by its constructor if that throws; a mapping is released with exactly the length it was made with. "
     "The names of the shared memory and of the semaphore are removed by the stage that created them and by no other.",
     ["histories", "fault_sequences"], "construction and destruction with and without a run between them, in the three builds, every call failing or not; all bank sizes and counts",
     "tests create one runner and end the process; a leaked descriptor or a name removed too early shows only in long-running or concurrent use",
     ["src/core/BaseRunner.hpp", "src/core/Stage1Runner.hpp", "src/core/Stage2Runner.hpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3Runner.hpp", "src/core/Stage3RunnerNonRecursive.hpp", "src/core/Input.hpp"],
     [("obtaining", "BaseRunner constructor, acquire_memory, create_semaphore, open_semaphore, _start"), ("giving back", "destructors, release_memory, close_semaphore, wait")],
     "typestate of system resources: interpretation of constructors, start, wait and destructors with every call succeeding or failing", "proof",
     "POSIX branch only. A runner that was started is assumed to be waited for before it is destroyed. Memory of captured result chunks is not tracked.")

prop("P23", "What cannot be opened, mapped or started is reported, not used",
     "If the input, the shared memory, the semaphore or the worker thread of a session cannot be obtained, or the input cannot be measured or mapped, or a grammar or text file cannot be opened, the library throws; it never carries on with an invalid handle or with an empty text in place of the file.",
     ["fault_sequences"], "every failing call on every path of the constructors and start(), in the three builds; every function that opens a file stream by name",
     "tests never run with a missing file, a name already taken or a system out of resources",
     ["src/core/BaseRunner.hpp", "src/core/Input.hpp", "src/core/Grammar.cpp", "src/core/Util.cpp"],
     [("system calls", "BaseRunner constructor, acquire_memory, create_semaphore, open_semaphore, _start; MappedFileInput"), ("file streams", "Grammar::parse, readmbsfromfile, readwcsfromfile")],
     "interpretation with every call failing in turn; dataflow over the state of file streams", "proof",
     "POSIX branch only. Errors while reading a stream that was opened, and files written, are not covered.")

prop("P25", "The stages of a session agree on file, shared memory, names, sizes",
     "All stages map the file they are given and, for the same bank size, bank count and process, the same shared memory: same name, size and windows; the windows do not overlap, start at pages, lie inside the memory and have room for all banks and their table. Only stage 1 creates; the semaphore starts at zero. "
     "A session, in C++ or Python, gives every stage the same file, sizes and process id, creates stage 1 first, runs each stage once, and never while the previous stage 1 still holds the names.",
     ["inputs", "histories"], "every bank size and bank count (room: 72 pairs), in the three builds; sessions of one to three workers in C++, every creation of a stage in Python",
     "a disagreement corrupts or blocks a run only with several processes, or for sizes that are not multiples of the page",
     ["src/core/BaseRunner.hpp", "src/core/Stage1Runner.hpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp", "src/core/Context.hpp", "src/python/centaurus/context.py"],
     [("layout", "BaseRunner: get_*_window_size, acquire_memory, names"), ("C++ session", "Context::parse"), ("Python session", "Stage1Worker, SubprocessWorker, Context")],
     "comparison of system calls as terms over the unknown parameters; interpretation of the C++ session; dataflow over the Python syntax tree", "bounded",
     "Terms that are not equal as written are compared at 72 values of bank size and bank count. That accesses stay inside the banks is P17.")

prop("P26", "No object starts with an indeterminate attribute",
     "Every constructor of every class of the library gives each plain attribute (number, enumeration, flag, pointer) a definite value on every path before it returns, and never reads an attribute of the object under construction that has no value yet. "
     "Attributes that a runner's constructor leaves to its worker thread get a value in that thread before the thread (or the destructor) reads them.",
     ["inputs", "histories"], "every constructor, every path through it, every attribute; every read by a worker thread",
     "an indeterminate attribute usually happens to hold a harmless value in a test process; the result depends on what the memory held before",
     ["src/core/NFA.hpp", "src/core/DFA.hpp", "src/core/LookaheadDFA.hpp", "src/core/ATN.hpp", "src/core/CompositeATN.hpp", "src/core/BaseRunner.hpp", "src/core/Stage1Runner.hpp",
      "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp", "src/core/Stream.hpp", "src/core/Grammar.hpp", "src/core/Util.hpp"],
     [("constructors", "every class in namespace Centaurus"), ("thread start-up", "Stage1Runner, Stage2Runner, Stage3Runner::thread_runner_impl")],
     "definite-initialisation dataflow (interprocedural, flow-sensitive, byte-precise) over the compiled IR", "proof",
     "Every path through every constructor is covered, calls by summaries. Templates are covered in the instantiations of tu/core.cpp and tu/charclass.cpp. The runners' attributes that only the register_* calls set are exempt until then only if the worker never reads them first.")

BANKFILES = ["src/core/BaseRunner.hpp", "src/core/Stage1Runner.hpp", "src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp", "src/core/Stage2Runner.hpp", "src/core/Stage3Runner.hpp"]
BANKNOTE = ("One arbitrary bank of a table of any size is tracked exactly, all others and all other threads are left free within the protocol; every path of the worker bodies is explored to a fixpoint for the tool build, the Python build and the recursive variant. "
            "Trusts the clang front end, the abstract interpreter, and treats what happens inside one call of a std:: container or of the generated parser as opaque (the parser only calls the feed callback).")

prop("P17", "A bank is touched only by the stage that holds it",
     "Through the whole pipeline every bank of the shared window goes round one cycle (free, filled by stage 1, reduced by stage 2, consumed by stage 3, free again); a thread changes the state of a bank or touches its contents only between taking it from the preceding state and handing it on, "
     "and two workers never hold the same bank. Each stage addresses the same bytes for the same bank and publishes the contents before the new state, and no bank of the table is left out or exceeded.",
     ["schedules", "inputs", "configurations"], "any number of banks and workers, every interleaving, every document, dry, captured and normal sessions, both builds and the recursive workers",
     "the tests run no stage at all in this environment, and a test of the pipeline would see only the interleavings and bank counts it happens to run",
     BANKFILES, [("bank state machine", "acquire_bank / release_bank of every stage"), ("session start", "Stage1Runner::reset_banks")],
     "typestate of an arbitrary bank by abstract interpretation of the compiled worker bodies", "proof", BANKNOTE)

prop("P18", "Banks are numbered and consumed in input order",
     "Stage 1 numbers the banks it hands over 0, 1, 2, ... without gap or repetition, the number is in place before the bank can be seen by others and nobody else changes it. "
     "Stage 3 takes a bank only when it has found that the bank's number is the next one due, so the document is reassembled in input order whatever order the workers finish in.",
     ["schedules", "inputs", "histories"], "documents of any number of banks, any number of workers, every finishing order",
     "out-of-order completion needs several workers of unequal speed, and numbering errors can need hundreds of banks",
     BANKFILES[1:], [("numbering", "Stage1Runner::release_bank"), ("ordered take-over", "Stage3Runner::acquire_bank")],
     "typestate with a symbolic count of hand-overs, by abstract interpretation of the compiled worker bodies", "proof", BANKNOTE)

prop("P19", "Every worker is woken for each bank and the session ends",
     "Stage 1 posts the workers' semaphore exactly once for every bank it hands over and once per bank at the end of the session, and a stage 2 worker waits exactly once for every bank it takes. "
     "The end is announced on every bank, only after the parser has run and the bank was seen free, and every worker ends once the end is announced and not before.",
     ["schedules", "inputs", "configurations"], "any number of banks and of workers up to that number, every interleaving, every document",
     "a lost wake-up or an early end shows only with a particular number of workers and a particular timing, as a hang",
     BANKFILES[:4], [("wake-ups", "release_semaphore / wait_on_semaphore call sites"), ("end of session", "Stage1Runner::signal_exit")],
     "pairing and must-happen analysis over every path of the compiled worker bodies", "proof",
     BANKNOTE + " Termination is decided as: the end is announced on all banks with a wake-up each, a worker that finds every bank done returns, none returns earlier; that a fair scheduler lets waiting loops progress is assumed.")

prop("P20", "The transfer listener is told of exactly the banks in hand",
     "A registered transfer listener is told of a bank after the worker has taken it and before anything in it is reduced, with the bank's number; a stage 2 worker tells it of the release, with the bank's index, while it still holds the bank.",
     ["schedules", "inputs"], "every bank of every session, every interleaving",
     "the Python driver copies data in these callbacks; a call in the wrong place is a race that an ordinary run does not show",
     BANKFILES[2:], [("notification points", "acquire_bank / release_bank of stages 2 and 3, invoke_transfer_listener")],
     "event-order analysis over every path of the compiled worker bodies", "proof", BANKNOTE)

prop("P27", "Copies, moves and rebases keep every attribute",
     "Copying, moving or assigning a character class, transition, state, automaton, ATN node or machine, identifier, path, priority chain or grammar gives an object with every attribute of the original; copying a node or state with replaced transitions replaces the transitions only. "
     "Shifting a transition, or rebasing or importing a list of transitions, changes destinations by the offset and nothing else, takes over every transition of the source and leaves those already there alone, and value records return through their accessors what they were constructed from.",
     ["inputs", "histories"], "every user-written copy or move constructor and assignment of the library, every attribute; transition lists of any length",
     "objects are copied by growing vectors and by each construction step; a lost attribute shows only in the grammars that use it, after the particular steps that copy it",
     ["src/core/NFA.hpp", "src/core/DFA.hpp", "src/core/LookaheadDFA.hpp", "src/core/ATN.hpp", "src/core/CompositeATN.hpp", "src/core/CharClass.hpp", "src/core/Identifier.hpp", "src/core/Util.hpp", "src/core/Grammar.hpp"],
     [("copies and moves", "user-written copy and move members of every class"), ("rebasing", "NFATransition::offset, NFABaseState::offset, rebase_transitions, CATNNode::import_transitions"), ("records", "constructors and accessors of transitions, closure elements, departures, priority chain elements")],
     "attribute provenance by abstract interpretation of the compiled members, one token per attribute", "proof",
     "Every path through each member is interpreted on an object whose attributes carry distinct tokens; lists have symbolic length with one tracked element. Members the compiler generates copy everything by definition and are not checked. Standard-library members are modelled, not analysed.")

prop("P11", "The prediction network mirrors the rule's network, decision by decision",
     "The network the predictor works on spells out a rule character by character: it has exactly the words of the rule's network, a literal as its characters, an expression as its automaton, white space as any number of blanks, tabs and line ends, a rule's name as that rule, with the same priorities. "
     "Every node of the rule at which there is a choice has a counterpart with the same alternatives in the same order and no other way out; none of them consumes a character before it is entered.",
     ["inputs"], "every network of one inner node of nine kinds, with every pattern of up to two edges per node; networks with two inner nodes (quick: a third of them)",
     "the stable tests build no prediction network; a surplus alternative shows only where a loop at the end of an expression meets a choice",
     ["src/core/CompositeATN.hpp"], [("import", "CATNMachine::import_atn_node and the import_* functions"), ("decisions", "CATNMachine::convert_atn_index")],
     "abstract interpretation of the import on operand rule networks laid out in memory; comparison of languages with rank letters, decision by decision", "bounded",
     "Operand networks are of the form the rule reader builds (P08): a literal or an expression stands behind a white space node and has a single way in; the last node is blank and the only one without a way out.")

prop("P12", "Rules are numbered 1..n in order and every view agrees",
     "Reading a grammar numbers its rules 1, 2, 3, ... in the order of their first definition, continued through included files, without gap, repetition or an id too large for a marker (32767). "
     "The machine registered under a name, its id, the list of names, the number of machines and the enumeration given to the driver describe the same numbering; a rule defined again changes nothing, and the first rule of the grammar is its root.",
     ["inputs", "histories"], "every grammar text, any number of rules, duplicate definitions, included files at any point and depth; character types char, unsigned char and wchar_t",
     "tests read one small grammar without includes or duplicates; a disagreement calls the listener of another rule",
     ["src/core/Grammar.cpp", "src/core/Grammar.hpp", "src/core/ATN.hpp"],
     [("registration", "Grammar::parse"), ("views", "Grammar::get_machine_id, get_machine_num, lookup_id, get_root_id, enum_machines, ATNMachine::get_unique_id")],
     "abstract interpretation of the compiled registration loop with symbolic counts (relational invariant found by fixpoint)", "proof",
     "Every path of the registration loop with any number of rules already registered; an include is taken by the same contract the function itself is proved to satisfy. The text of the names is opaque (two names are equal or not); reading a rule may succeed or throw anywhere.")

prop("P04", "A regular expression's automaton accepts exactly its language",
     "The automaton built from a regular expression accepts exactly the words the expression denotes: a character, an escaped one of [ ] + * { } ? \\ | ( ) . , a class, . and a group are atoms; + * ? repeat the atom before them (a mark ? * + behind the quantifier changes nothing about the language); "
     "a|b is a choice between single quantified atoms and binds tighter than concatenation. An unknown escape is refused, reading ends just behind the closing ) / or end, no transition leads to a state that does not exist or back into the initial state.",
     ["inputs"], "every expression up to the stated number of characters over each alphabet, groups standing for any automaton of three shapes; all characters the code does not single out are one unknown letter",
     "tests try a handful of expressions; a wrong state or offset shows only when quantifiers, choices and groups meet",
     ["src/core/NFA.hpp"], [("reader", "NFA::parse, parse_selection, parse_unit"), ("combination", "NFA::concat, select, NFABaseState::rebase_transitions")],
     "abstract interpretation of the reader on unknown characters and operand automata; the automaton in memory at each return is compared as a language with Thompson's construction", "bounded",
     "Bounds: 3 characters over all characters, 4 to 6 over smaller alphabets (one more in the thorough tier). A quantifier, | or terminator in the place of an atom is not specified. Classes are P02, labels as sets P01, the cursor P30.")

prop("P05", "Determinising and minimising an automaton keeps its language",
     "The deterministic automaton built from a regular expression's automaton accepts exactly the same words, minimised or not; it has at most one transition for a character in each state, no epsilon transition and no transition to a state that does not exist. "
     "Building it ends for every automaton, also one with cycles of epsilon transitions.",
     ["inputs"], "every automaton of three states that an expression can have, larger ones with labels that overlap in every way, with epsilon paths and cycles, and with states that differ only in acceptance",
     "tests look at one expression; merged states or a missed closure show only for particular combinations of repetition and overlap",
     ["src/core/DFA.hpp", "src/core/NFA.hpp", "src/core/Util.hpp"], [("subset construction", "DFA::DFA, fork_states, add_state"), ("closure", "NFA::epsilon_closure"), ("departure sets", "NFADepartureSetFactory::build_departure_set"), ("minimisation", "DFA::minimize, filter_nodes")],
     "abstract interpretation on operand automata whose letters stand for consecutive intervals of characters; the automaton in memory is compared as a language by product search", "bounded",
     "The operands are bounded (3 to 7 states, 3 letters). The labels' set operations are P01.")

prop("P08", "The network of a rule denotes exactly what the rule says",
     "The network built from a rule lets through exactly the sequences of atoms that the rule denotes: | separates alternatives, which may be empty, ( ) groups, * + ? repeat the atom or group before them; in a rule (not in a fragment) each literal or regular terminal is preceded by a white space node, in every round of a repetition. "
     "Each alternative's way in carries its rank: the number of |> before it in the same choice. A rule that is not well-formed is refused, and reading ends just behind its semicolon.",
     ["inputs"], "every rule and fragment up to the stated number of tokens over each alphabet; the atoms are unknown",
     "tests build networks of two grammars without groups in odd places or ranked choices",
     ["src/core/ATN.cpp", "src/core/ATN.hpp"], [("reader", "ATNMachine::parse, parse_selection, parse_sequence, parse_atom"), ("network", "ATNMachine::add_node, ATNNode::add_transition")],
     "abstract interpretation of the reader on unknown tokens; the network in memory at each return is compared, as a language of atoms and ranks, with the notation", "bounded",
     "Bounds: 4 tokens over everything, 5 or 6 over smaller alphabets (one or two more in the thorough tier). Reading an atom is P04 and P31, white space between tokens P30.")

prop("P09", "Optimising a rule changes neither its language nor its priorities",
     "Optimising the network of a rule leaves the sequences of atoms it lets through unchanged, and the ranks as well: on every way through the network, the ranked choices met and the rank taken in each are the same as before. No edge leads to a node that was removed.",
     ["inputs"], "the network of every rule up to the stated number of tokens over each alphabet",
     "no test compares a network before and after; a lost way back or rank shows only for particular nestings",
     ["src/core/ATN.hpp"], [("optimiser", "ATNMachine::drop_passthrough_nodes, count_incoming_edges, filter_nodes")],
     "abstract interpretation of the optimiser on every network the rule reader builds from unknown tokens; comparison of languages with rank letters", "bounded",
     "Bounds as for P08.")

prop("P10", "Reading a grammar always ends and never accepts one that is cut off",
     "Whatever characters a grammar file holds, reading it ends: it returns or throws after looking at no more than the text, never going round a loop or a recursion that consumes nothing, never reading or moving past the last character, never going back. "
     "Every kind of construct can be read successfully from some text, and a file that stops in the middle of a statement (before its closing semicolon) is refused.",
     ["inputs"], "every text without NUL characters, for character types char, unsigned char and wchar_t; included files are read by the same function",
     "tests read two well-formed grammars; hanging or accepting a truncated file shows only on the malformed text that hits the right loop",
     ["src/core/Stream.hpp", "src/core/Grammar.cpp", "src/core/ATN.cpp", "src/core/NFA.hpp", "src/core/CharClass.cpp", "src/core/Identifier.hpp", "src/core/Grammar.hpp"],
     [("cursor", "Stream::get, peek, discard, skip_whitespace"), ("readers", "Grammar::parse, GrammarOptions::parse, ATNMachine::parse*, ATNNode::parse*, NFA::parse*, CharClass::parse, Identifier::parse")],
     "abstract interpretation of every function that takes a Stream, over an unknown text: progress of each cycle of the state graph and of each recursive call chain, recursion by summaries (least fixpoint)", "proof",
     "Loops that look at no text (over containers or with a counter) are taken to end. Files including themselves are outside.")

prop("P30", "The text cursor delivers every character and skips only blanks and comments",
     "get() delivers every character of the text once and in order, a CR LF pair as one line feed, and 0 only at the end, where it does not move; peek() and peek(n) show the next and the n-th character (0 beyond the end) and change nothing; discard(n) is n times get(). "
     "skip_whitespace() passes exactly over white space, /* */ and // comments, whatever stands in them, returns the character it stops at, and throws only in a block comment that never ends. "
     "Text cut out between a mark and the cursor is exactly what lies between, and the line number in error messages is one more than the line breaks before the character.",
     ["inputs", "histories"], "every text without NUL characters and every sequence of operations",
     "tests read two tidy grammars with one comment style; the failing text is a particular run of asterisks, slashes or line ends",
     ["src/core/Stream.hpp"], [("cursor", "Stream::get, peek, discard, sentry, cut"), ("between tokens", "Stream::skip_whitespace, skip_multiline_comment, skip_oneline_comment"), ("line numbers", "Stream::unexpected")],
     "abstract interpretation of the compiled operations from an arbitrary state, compared with contracts and a reference automaton over the characters consumed", "proof",
     "What is white space is left to iswspace. The column in messages is not covered.")

prop("P31", "Names, literals and listener ids are read exactly as written",
     "A name read from a grammar is the longest run of name characters at the cursor (a letter or underscore, then letters, digits, underscores) and is stored unchanged. "
     "A terminal between quotes is stored as exactly the characters between its quotes, in order; it ends at the first quote of the same kind. "
     "A {number} after a name or literal, with white space or comments around it, becomes its listener id, the decimal value written; without one the id is -1. What is filed as a literal, what as a name, follows from its first character; anything complete is accepted.",
     ["inputs"], "every text, names, literals and numbers of any length, for character types char, unsigned char and wchar_t",
     "tests compare a few short names and literals; a wrong span, a dropped character or a wrong digit shows only on the text that hits it",
     ["src/core/Identifier.hpp", "src/core/ATN.cpp", "src/core/ATN.hpp"],
     [("names", "Identifier::parse"), ("literals", "ATNNode::parse_literal"), ("kind and listener id", "ATNNode::parse")],
     "abstract interpretation of the readers beside a reference automaton; stored strings are spans of the text, numbers are recognised by Horner's scheme", "proof",
     "Overflow of a listener id and characters outside the character type are outside. Regular expressions are not part of this property.")

prop("P21", "The listener gets every rule once, with its span and its values",
     "From the markers of a parse, stages 2 and 3 of a C++ session call the reduction listener exactly once for every finished rule, after the rules inside it, with the rule's number, the offsets where it starts and ends, and exactly the non-zero results of the rules directly inside it, in order; a counter given to the runner goes up by one per call. "
     "This holds wherever bank borders cut the markers: what stage 2 could not finish reaches stage 3 unchanged and in order, and nothing is reduced twice, dropped or leaked.",
     ["inputs", "configurations", "histories"], "every well-nested run of markers of any length and depth, cut into banks anywhere; listeners that return zero or non-zero",
     "what a listener gets depends on where bank borders fall among open rules and how many values wait on each side; tests reduce one small file in one bank",
     ["src/core/Stage2RunnerNonRecursive.hpp", "src/core/Stage3RunnerNonRecursive.hpp", "src/core/BaseRunner.hpp"],
     [("reduction inside a bank", "Stage2Runner::reduce_bank, reduce_by_end_marker, push_value"), ("reduction across banks", "Stage3Runner::reduce, append_value"), ("marker layout", "CSTMarker"), ("what the listener sees", "SymbolEntry")],
     "abstract interpretation of the compiled worker bodies against a ghost parse stack (step simulation with symbolic counts and bit-level markers)", "proof",
     "One step from every shape of the stack it can depend on is checked, which covers documents of any size by induction; counts of values are symbolic, markers are tracked bit by bit. Tool build only: the Python build stores the same lists as raw words and is not covered here. The markers are assumed well nested, as the parser writes them.")

prop("P15", "The machine code made for a grammar recognises exactly the grammar",
     "For every grammar and every input, the parser and the chaser that are assembled for the grammar accept exactly the texts of the grammar and write a start and an end marker for every rule, in order, with the positions in the text.",
     ["inputs"], "every grammar, every input", "no test runs generated code",
     ["src/core/CodeGenEM64T.cpp", "src/core/CodeGenUtilsEM64T.hpp", "src/core/CodeGenCommonEM64T.hpp"],
     [("code generation", "ParserEM64T, ChaserEM64T, DFARoutineEM64T, LDFARoutineEM64T, MatchRoutineEM64T, SkipRoutineEM64T")],
     na="the code under judgement does not exist in the source: it is assembled at run time by asmjit, which is neither in the repository nor installed, and this part is not compiled here; a verdict would need a model of the assembler and of the processor")

