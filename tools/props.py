# Executed by registry.py; one prop(...) per property.
MC = "bounded exhaustive exploration of the real code against a reference model"

prop("C01", "Only the active preprocessor branches contribute definitions",
     "For every header whose conditional directives are well nested, the macros and declarations the parser "
     "reports are exactly those standing in the groups a C preprocessor would keep, whatever the nesting and the "
     "order of the #if/#ifdef/#ifndef/#elif/#else groups. A #define, #undef or #pragma in a skipped group has no "
     "effect, and at most one group of each chain is kept.",
     ["inputs", "programs"], "every well-nested sequence of directives and declarations",
     "The tests read one fixed header with two nesting levels; the guarantee is about every nesting and order of "
     "groups and of the macro (un)definitions that the conditions read.",
     [CP], [("conditional stack", CP, "if_true = [True]"), ("preprocess", CP, "def preprocess")],
     ["CParser.defs"],
     technique="explicit-state search over directive histories, model + gcc -E conformance",
     note="Exhaustive over all well-nested directive histories of the stated alphabet and length; every history is "
          "run on the real parser, the model itself is validated against gcc -E on the same histories.",
     state=[("if stack", "whether the enclosing groups are active / already hit", CP, "if_true = [True]")])

prop("C02", "#if and #elif conditions have the truth value C gives them",
     "For every controlling expression made of integer literals (decimal, octal, hexadecimal, any u/l suffix), "
     "defined tests, macro names, unknown identifiers, parentheses and C's unary, arithmetic, shift, relational, "
     "equality, bitwise and logical operators, the group is kept exactly when C evaluates the expression to "
     "non-zero. Where C and Python rank operators differently the expression is only covered when parenthesised.",
     ["inputs"], "every controlling expression of the grammar up to a nesting depth",
     "The tests evaluate five fixed conditions; operators, literal forms and their combinations are unbounded.",
     [CP], [("eval_preprocessor_expr", CP, "def eval_preprocessor_expr"), ("expand_macros", CP, "def expand_macros")],
     ["CParser.defs['variables'] behind each #if"],
     technique="bounded-exhaustive enumeration of expression trees, gcc -E as oracle",
     note="All expression trees of the grammar up to the stated depth, each decided by gcc -E and by the parser. "
          "64-bit overflow, ?: and character constants are outside the alphabet.")

prop("C03", "Macro visibility and expansion follow the #define/#undef history",
     "At every point of a header, after any history of #define and #undef of object-like and function-like macros, "
     "a macro counts as defined exactly when C says so and the text that follows is expanded with its latest "
     "definition, each parameter replaced by its argument at every occurrence, string literals and longer "
     "identifiers untouched, and no token merging with its neighbours. The body of a macro is resolved against the macros known where it is defined.",
     ["histories", "inputs"], "every sequence of (re)definitions, undefinitions and uses over a small name set",
     "The tests define each macro once and use it once; redefinition, undefinition and their order are not sampled.",
     [CP], [("process_macro_defn", CP, "def process_macro_defn"), ("compile_fn_macro", CP, "def compile_fn_macro"),
            ("expand_fn_macro", CP, "def expand_fn_macro"), ("expand_macros", CP, "def expand_macros")],
     ["CParser.defs['macros'|'fnmacros'|'variables']"],
     technique="explicit-state search over macro histories, model + gcc -E conformance",
     note="All define/undef/use histories of the alphabet up to the stated depth on the real preprocessor; the "
          "model is validated against gcc -E wherever eager and lazy body resolution agree.")

prop("C04", "Reported constants equal the values a C compiler computes",
     "The value reported for a macro, enumerator, initialised variable or array dimension given by an integer "
     "constant expression is the value the C compiler computes for it, including references to earlier macros, to "
     "earlier enumerators (outside macros) and value-preserving casts. An enumerator without a value is one more than its predecessor (zero for the first).",
     ["inputs", "programs"], "every constant expression of the grammar and every enumerator list up to a size",
     "The tests check some twenty literal forms and one enum; combinations of operators, literal forms, references "
     "and implicit/explicit enumerator positions are unbounded.",
     [CP], [("eval_expr", CP, "def eval_expr"), ("eval", CP, "def eval(self, expr"),
            ("process_enum", CP, "def process_enum"), ("number grammar", CP, "hexint = ")],
     ["CParser.defs['values'|'enums'|'variables'|'types']"],
     technique="bounded-exhaustive enumeration of constant expressions and enums, gcc as oracle",
     note="All expressions up to the stated depth and all enumerator lists up to the stated length, values taken "
          "from a program compiled by gcc.")

prop("C05", "Comments, splices and layout never change what is reported",
     "Inserting a block comment, line comment, backslash-newline splice or extra white space at any token boundary "
     "of a header leaves the reported definitions identical. Comment markers inside string or character literals "
     "are literal text and survive unchanged.",
     ["inputs"], "every token boundary, every comment form, every short text over the comment/quote alphabet",
     "The tests strip two fixed files and compare lines; the guarantee covers every placement and every mix of "
     "quotes and comment markers.",
     [CP], [("remove_comments", CP, "def remove_comments"), ("line splicing", CP, "First join together lines")],
     ["CParser.files after comment removal", "CParser.defs"],
     technique="exhaustive enumeration of lexical texts and insertion points, reference lexer + gcc -E",
     note="Every text over the stated alphabet up to the stated length, and every single (thorough: pair of) "
          "insertion into a set of base headers.")

prop("C06", "Every C declarator yields the C type it declares",
     "Any declaration built by nesting pointer, array and function declarators with parentheses, as a variable, "
     "typedef, member, parameter, prototype or function definition, is reported under its declared name with the C "
     "type: same base type, same derivations in the same order, same parameters, qualifiers kept at the level they "
     "qualify. Several declarators in one declaration are reported independently.",
     ["inputs", "programs"], "every declarator up to a derivation depth in every declaration context",
     "The tests list about fifteen hand-picked declarators; declarators nest without bound.",
     [CP], [("declarator grammar", CP, "self.declarator << Group"), ("process_declarator", CP, "def process_declarator"),
            ("process_type", CP, "def process_type")],
     ["CParser.defs['variables'|'types'|'functions'|'structs']"],
     technique="bounded-exhaustive enumeration of type derivations, inverse declarator printer + gcc typeof",
     note="All derivation chains up to the stated depth in all contexts; the printer is validated by gcc "
          "(__builtin_types_compatible_p against a typedef chain).")

prop("C07", "Bound structs and unions have the compiler's memory layout",
     "For every struct or union assembled from integers, floats, pointers, arrays, typedefs, bit-fields and nested, "
     "named or anonymous aggregates, under any packing in force, the class built for it has the same size, member "
     "names and member offsets as the C compiler gives it. Values written through one side are read back unchanged "
     "by the other.",
     ["inputs", "programs"], "every aggregate of bounded size over the member alphabet and pack values",
     "The tests build two structs and never look at offsets.",
     [CP, CT], [("process_struct", CP, "def process_struct"), ("_get_struct", CT, "def _get_struct"),
                ("_get_type", CT, "def _get_type")],
     ["ctypes.sizeof, field offsets of lib.<struct>"],
     technique="bounded-exhaustive enumeration of aggregates, gcc sizeof/offsetof as oracle",
     note="All aggregates up to the stated number of members over the alphabet, for every pack value; gcc decides.")

prop("C08", "Each aggregate carries the packing in force where it is defined",
     "After any history of #pragma pack directives (set, reset, push, pop, named or not) spread over any lines, "
     "active or skipped, every struct or union is reported with exactly the packing in force at its definition: a "
     "pop restores the packing set by the enclosing push (the default outside any push), a named pop goes back to "
     "the latest push of that name, a pop without matching push is ignored. Directives, comments or other lines that do not concern "
     "packing never shift where a packing starts or ends.",
     ["histories"], "every sequence of packing directives, filler lines and struct definitions up to a depth",
     "The tests check one fixed sequence and one struct.",
     [CP], [("pragma pack", CP, 'elif d == "pragma"'), ("packing_at", CP, "def packing_at")],
     ["CParser.defs['structs'][n]['pack']"],
     technique="explicit-state search over packing histories against a stack model",
     note="All histories up to the stated depth. The stack model is validated against gcc on every history without "
          "a bare pack(n) pending at a push (there the suite pins another result than compilers give).",
     state=[("pack stack", "packing values of the open pushes", CP, "pack_stack = ")])

prop("C09", "Type resolution is total, exact and leaves definitions alone",
     "Resolving any type against any set of typedefs terminates: it returns the fundamental type with the "
     "derivations of the whole typedef chain applied in C order, or raises DefinitionError when the chain meets an "
     "unknown name or a cycle. Resolution never alters the stored definitions and does not depend on their order.",
     ["inputs", "programs"], "every typedef graph over a small set of names, cyclic ones included",
     "The tests resolve four fixed types and one cycle; graphs and derivation chains are unbounded.",
     [CP], [("Type.eval", CP, "def eval(self, type_map"), ("is_fund_type", CP, "def is_fund_type(self):"),
            ("eval_type", CP, "def eval_type")],
     ["CParser.eval_type", "CLibrary types"],
     technique="exhaustive enumeration of typedef graphs against a graph model, gcc for array shapes",
     note="All typedef graphs over the stated name set and derivation alphabet.")

prop("C10", "Every spelling of an arithmetic type binds to the compiler's type",
     "Every order and combination of specifiers C allows for an arithmetic type, and every fixed-width or stddef "
     "name supported, binds to a native type of the same size and signedness as the C compiler's, used directly, "
     "through a typedef, as a parameter, return value, pointer target or member. Signed and unsigned values make "
     "the round trip through a C function unchanged.",
     ["inputs", "configurations"], "all permutations of all C specifier multisets, in all positions",
     "The tests parse about fifteen spellings and bind none but int.",
     [CP, CT], [("spelling table", CT, "def init_clibrary"), ("Type.eval", CP, "def eval(self, type_map"),
                ("fund_type", CP, "fund_type = OneOrMore")],
     ["lib types, function calls"],
     technique="complete enumeration of C specifier permutations, gcc as oracle",
     note="The space of legal specifier permutations is finite and covered completely.")

prop("C11", "Parsing through a cache reports what parsing afresh would report",
     "Whatever history of header edits, option changes (files, replacements, initial definitions, encoding, "
     "imported definitions) and parses that share one cache file, a parse with that cache and validity checking on "
     "reports exactly the definitions a parse without cache reports at that moment. A cache is reused when nothing "
     "relevant changed, also when the headers are no longer there.",
     ["histories"], "every sequence of edits, option changes and cached parses up to a depth",
     "The tests write one cache and never modify anything before reading it back.",
     [CP], [("load_cache", CP, "def load_cache"), ("write_cache", CP, "def write_cache"),
            ("import_dict", CP, "def import_dict"), ("init_opts", CP, "self.init_opts = ")],
     ["CParser(cache=...).defs and file_defs"],
     technique="explicit-state search over edit/option/parse histories on real files with owned clocks",
     note="All operation sequences up to the stated depth with mtimes set by the harness; header edits that keep "
          "the modification time are outside the promise.",
     state=[("cache file", "pickled options, version, definitions by file", CP, "def write_cache")])

prop("C12", "A torn or foreign cache file never corrupts a parse",
     "If writing the cache is interrupted after any number of bytes, its tail is lost, or the cache path holds "
     "foreign content (not a well-formed cache of the same options), a later parse using that path reports the same definitions as a parse without cache. It "
     "leaves behind a cache that the next parse can use.",
     ["crash_points", "fault_sequences"], "every byte prefix of the cache file and a set of foreign contents",
     "No test interrupts a write or loads a damaged cache.",
     [CP], [("load_cache", CP, "def load_cache"), ("write_cache", CP, "def write_cache")],
     ["CParser(cache=...).defs"], level="fault_enumeration",
     technique="exhaustive crash-point enumeration on the cache write",
     note="Every prefix of the write history (and every write call as a crash point) is replayed through the real "
          "loader.")

prop("C13", "Files and imported parsers compose, with exact attribution",
     "Parsing files in order reports the same definitions as parsing their concatenation, and parsing with "
     "definitions imported from other parsers or given up front reports the same as having parsed or declared them "
     "first. Each definition is attributed to exactly the files that make it, so looking up a name or pattern "
     "lists exactly those.",
     ["inputs", "configurations"], "every split of every definition sequence over files and imported parsers",
     "The tests parse single files only.",
     [CP], [("add_def", CP, "def add_def"), ("import_dict", CP, "def import_dict"), ("find", CP, "def find(self")],
     ["CParser.defs, file_defs, find"],
     technique="exhaustive enumeration of splits of definition sequences, differential oracle",
     note="All splits of all snippet sequences up to the stated length over files, imports and initial definitions.")

prop("C14", "One library file has one live binding, whatever the way it is opened",
     "While a binding of a library file is alive, opening the same file again by name, by path, by a symbolic link "
     "or from an already loaded library object returns that very binding, and different files never share one. "
     "Once the binding is gone, opening again makes a new working one.",
     ["histories"], "every sequence of open-by-X, drop and collect operations up to a depth",
     "The tests open one file twice, by object then by path.",
     [CL, UT], [("CLibraryMeta.__call__", CL, "def __call__(cls, lib"), ("get_library_path", CT, "def get_library_path")],
     ["identity of CLibrary objects"],
     technique="explicit-state search over open/drop histories against an identity model",
     note="All operation sequences up to the stated depth on two real shared libraries.",
     state=[("library table", "live bindings by path", CL, "libs: WeakValueDictionary")])

prop("C15", "Looking things up is coherent and free of side effects",
     "Whatever sequence of accesses came before, a name (with or without a declared prefix) looked up as an "
     "attribute, by kind or through a typedef alias always gives the same object, the one the header defines, in "
     "the documented order of kinds, or the documented error. Accesses never change the header definitions.",
     ["histories", "inputs"], "every sequence of lookups up to a depth, over names, aliases, prefixes and kinds",
     "The tests look up each name once on a library that mostly has been used by other tests.",
     [CL, CT], [("__getattr__", CL, "def __getattr__"), ("_make_obj_", CL, "def _make_obj_"),
                ("_get_struct", CT, "def _get_struct"), ("_resolve_struct_alias", CL, "def _resolve_struct_alias")],
     ["lib.name, lib(kind, name), lib[kind][name]"],
     technique="explicit-state search over lookup histories against a reference model",
     note="All lookup sequences up to the stated depth, each from a fresh binding.",
     state=[("object caches", "objects built so far", CL, "self._objs_ = {}")])

prop("C16", "A call hands C the right arguments and reports all results",
     "For every function signature over the supported parameter types, calling with any split into positional and "
     "keyword arguments, omitted output pointers and None for NULL makes the C function receive exactly those "
     "values in declared order, with fresh storage for each omitted pointer. The result object gives the return "
     "value and every argument by index, by name, by unpacking and as auto-generated list. A missing "
     "non-pointer argument or unknown keyword raises TypeError and a value of a wrong type is refused, without calling the "
     "function, and the argument types reported are those calls take.",
     ["inputs", "programs"], "every signature up to three parameters over the type alphabet, every way to call it",
     "The tests call five functions in one way each.",
     [CL, CT], [("CFunction.__call__", CL, "def __call__(self, *args"), ("CallResult", CL, "class CallResult"),
                ("_get_pointer", CT, "def _get_pointer")],
     ["lib.f(...) on a generated C library that records what it received"],
     technique="bounded-exhaustive enumeration of signatures and call forms against a recording C library",
     note="All signatures up to the stated arity and all call forms; the C side is compiled by gcc and reports what "
          "it got.")

prop("C17", "Locked calls never overlap",
     "With call locking requested, no two threads are ever inside functions of the library at the same time, "
     "whatever the schedule, whichever functions they call and whether or not a call fails or calls back into the "
     "library from the same thread. Every call completes and its caller gets its own result.",
     ["schedules"], "every interleaving of two or three calling threads up to a preemption bound",
     "No test enables locking or starts a thread.",
     [CL], [("lock_calls", CL, "if self.lock_call"), ("lock creation", CL, "if lock_calls:")],
     ["entry/exit events of the called functions"],
     technique="stateless exploration of thread schedules under a controlled scheduler",
     note="All schedules up to the preemption bound with scheduling points at every line of the library's own code, "
          "lock operations and the entry and exit of each C call.",
     state=[("call lock", "held while a library function runs", CL, "self._lock_ = RLock()")])

prop("C18", "Concurrent first use of a binding behaves like sequential use",
     "When several threads access the same not yet built names of one binding at once, open the same library at "
     "once or make the first parsers of a process at once, every thread gets the same, complete object that sequential use would give. No access fails.",
     ["schedules"], "every interleaving of two threads' accesses up to a preemption bound",
     "No test starts a thread; the races sit between a look-up and the registration that follows it.",
     [CL, CT], [("__call__", CL, "def __call__(self, typ, name)"), ("_get_struct", CT, "def _get_struct")],
     ["objects returned to each thread"],
     technique="stateless exploration of thread schedules under a controlled scheduler",
     note="All schedules up to the preemption bound with scheduling points at every line of the library's own code "
          "and at lock operations.")

prop("C19", "Initialisation happens once and its extensions take effect",
     "In every history of explicit initialisations, automatic ones and first uses, exactly the first one takes "
     "effect and every later explicit one is refused with RuntimeError leaving everything as it was. The extra "
     "types it declared (also those redefining a known type) parse and bind wherever a type may stand, its extra modifiers are ignored wherever a type "
     "qualifier may stand and after struct, union or enum, and the caller's own containers are not modified.",
     ["histories", "configurations"], "every sequence of init/auto_init/parse/bind operations up to a depth, each in "
     "a fresh process",
     "The tests reset private flags and call init once with one type.",
     [IN, CP, CT], [("init", IN, "def init("), ("auto_init", IN, "def auto_init("),
                    ("_init_cparser", CP, "def _init_cparser"), ("init_clibrary", CT, "def init_clibrary")],
     ["init, auto_init, CParser, CLibrary"],
     technique="explicit-state search over initialisation histories in fresh processes",
     note="All histories up to the stated depth, one forked process per history.")

prop("C20", "Headers and libraries are found in the documented search order",
     "A header or library given by name resolves to the file in the first directory holding it, in the order: "
     "directories passed to the call, registered directories latest first, then the package's own and the system's "
     "locations; an existing path is used as it is and a name found nowhere raises OSError. Searching and "
     "registering never modify the caller's lists or the outcome of later searches.",
     ["histories", "configurations"], "every history of registrations, searches and file placements up to a bound",
     "The tests register one directory holding one file.",
     [UT, CP], [("find_header", UT, "def find_header"), ("find_library", UT, "def find_library"),
                ("add_header_locations", UT, "def add_header_locations")],
     ["find_header, find_library, CParser(files)"],
     technique="explicit-state search over registration/search histories against a path model",
     note="All histories up to the stated depth over all placements of files in four directories.")

prop("C21", "Parsed definitions survive storage, copying and conversion unchanged",
     "Every type, struct, union and enum the parser can report is equal to itself after pickling, copying, "
     "evaluation of its printed form and conversion to and from the legacy function form, with all qualifiers. Two "
     "types are equal exactly when base, derivations and qualifiers are equal.",
     ["inputs"], "every type up to a derivation depth with every qualifier placement",
     "The tests round-trip one type and compare reprs.",
     [CP], [("Type", CP, "class Type(tuple)"), ("compatibility hack", CP, "def add_compatibility_hack"),
            ("Compound", CP, "class Compound(dict)")],
     ["Type, Struct, Union, Enum"],
     technique="bounded-exhaustive enumeration of types, round-trip and structural-equality oracle",
     note="All types up to the stated depth and all pairs among them.")

prop("C22", "What cannot be parsed does not disturb the rest",
     "A declaration or directive the parser does not support, wherever it stands between other declarations, does "
     "not stop parsing and leaves every other definition of the header reported exactly as if it were absent. Body "
     "text of functions and initialisers contributes no definitions, and functions defined inside a struct leave "
     "its members as they are.",
     ["inputs", "programs"], "every unsupported construct of a catalogue at every position among every ordering of "
     "base declarations",
     "The tests contain one junk function body.",
     [CP], [("parse_defs", CP, "def parse_defs"), ("parser", CP, "self.parser = ")],
     ["CParser.defs"],
     technique="exhaustive enumeration of insertion points of unsupported constructs, differential oracle",
     note="Every construct of the catalogue at every gap of every base header of the stated family.")

prop("C23", "A library of the wrong bitness is refused, any other is accepted",
     "Opening a library file built for a different word size than the running Python raises OSError before it is "
     "loaded, and the architecture reported for a library depends only on the file's content, not on its name, "
     "location or the way it is reached. A file of the right word size or of unknown kind is never refused for it.",
     ["inputs", "configurations"], "every ELF class/endianness, content kind, file/directory name and access path",
     "The tests open one 64-bit library.",
     [UT, CL], [("get_arch", UT, "def get_arch"), ("bitness check", CL, "Library bitness does not match")],
     ["CLibrary(path), LibraryPath.arch"],
     technique="exhaustive enumeration of library kinds, names and access paths against a model",
     note="The product of all header kinds, path names and access routes of the alphabet.")
for _p in P:
    pass

prop("C24", "Floating, character and string constants have the value C gives them",
     "Every floating, character or string literal (any suffix, prefix, escape sequence, split into adjacent literals or by "
     "macros) that is the value of a macro, initialiser, array element or enumerator is reported with the value the C "
     "compiler gives it: numbers as numbers, strings as the text they hold, a character on its own as that character. In "
     "arithmetic and #if conditions a character constant counts as its integer code.",
     ["inputs"], "every literal over the alphabet of pieces, in every place a constant is reported",
     "The tests hold a handful of simple decimal floats and strings; suffixes, escapes and combinations are unbounded.",
     [CP], [("eval", CP, "def eval(self, expr"), ("literals", CP, "def _c_literal_to_python"), ("floating", CP, "floating = ")],
     ["CParser.defs['values']", "CParser.defs['variables']", "CParser.defs['enums']"],
     technique="bounded-exhaustive enumeration of literals, values from gcc-compiled programs as oracle",
     note="All literals over the alphabet up to the stated length, each in six places and each judged by gcc. Precision of "
          "operations on C floats is allowed for; multi-character constants on their own are not judged.")

prop("C25", "What a parser knows does not depend on how often it is asked",
     "Processing a parser again, printing, searching, importing its definitions, writing its cache or binding a library "
     "with it never changes the definitions it reports: after any history of these operations they are what one pass over "
     "its files gives, and what it lists as unparsed or finds in the text of its files stays the same.",
     ["histories"], "every history of operations on one parser up to a depth, whatever it was built from",
     "The tests process each parser exactly once; repeated processing and its interplay with caches and imports are not sampled.",
     [CP, CL], [("process_all", CP, "def process_all"), ("parse_defs", CP, "def parse_defs"), ("write_cache", CP, "def write_cache")],
     ["CParser.defs", "CParser.file_defs", "CParser.process_all()"],
     technique="explicit-state search over operation histories of the real parser, fresh parser as oracle",
     note="All histories up to the stated depth over all starting points and file sets of the alphabet, on the real parser.",
     state=[("definitions", "what the parser reports, by file and kind", CP, "self.file_defs = "),
            ("files", "the text of each file as processed so far", CP, "self.files = {}")])

prop("C26", "No text stops the parser or loses the definitions around it",
     "Whatever text stands between two declarations, after a directive name, in a macro body or as the argument of a "
     "pragma (unmatched conditional directives and malformed tokens included), processing the header returns normally and "
     "definitions that stand well before it, or after it once its brackets, comments and quotes are closed, are reported.",
     ["inputs"], "every sequence of tokens up to a length in every such place",
     "The tests parse headers which are well formed but for one junk body.",
     [CP], [("preprocess", CP, "def preprocess"), ("process_macro_defn", CP, "def process_macro_defn"),
            ("parse_defs", CP, "def parse_defs"), ("pragma pack", CP, "pack_list")],
     ["CParser(...).defs"],
     technique="bounded-exhaustive enumeration of token sequences between sentinel definitions",
     note="All token sequences of the alphabets up to the stated lengths, each between definitions that must survive.")

prop("C27", "Function pointers call through in both directions unchanged",
     "A function pointer, whether parameter, typedef, structure or union member, array element or result, has the result "
     "and argument types its declarator gives: Python functions handed to C are called with the values C passes and what "
     "they return reaches C, C functions handed to Python give the results C gives, and structures by value keep their "
     "contents, for every signature of the supported types.",
     ["inputs", "programs"], "every signature up to a number of arguments in every place of a function pointer",
     "The tests bind a single callback signature.",
     [CT, CP], [("function pointer types", CT, "CFUNCTYPE"), ("_get_type", CT, "def _get_type")],
     ["calls through CLibrary", "CLibrary('types', name)", "CLibrary('structs', name)"],
     technique="bounded-exhaustive enumeration of signatures and values on the real binding, gcc library as oracle",
     note="All signatures over the types of the alphabet up to the stated length, in every place, with every boundary value.")

prop("C28", "Arrays and casts made for C have the asked type, shape and contents",
     "build_array gives an array of exactly the asked element type (by name or Type), shape and initial values, zeroed "
     "otherwise, laid out in C's order, and cast_to gives a pointer of the asked type to the same memory; C functions see "
     "the contents and what they write is read back, for every element type, shape, value and way to name the type.",
     ["inputs"], "every element type, name, shape, initial value and route to C up to a bound",
     "The tests build one array of three ints and do one cast.",
     [CL, CT], [("build_array", CL, "def build_array"), ("cast_to", CL, "def cast_to"), ("_get_array", CT, "def _get_array")],
     ["build_array, cast_to, calls through CLibrary"],
     technique="bounded-exhaustive enumeration of arrays and casts on the real binding, gcc library as oracle",
     note="The product of element types, names, shapes, initial values and routes of the alphabet.")

prop("C29", "How the text of a header is stored and handed over changes nothing",
     "The definitions reported depend only on the text of a header after the asked replacements: not on the encoding it is "
     "stored in (as long as it is given), a byte order mark, the kind of line ends, the end of the file, or whether files are "
     "named by a string, a list or any iterable, read at once or later, by the parser or for a library. Replacements are "
     "regular expressions applied one after the other to the whole text of each file; the caller's dictionary is left alone.",
     ["inputs", "configurations"], "every sequence of snippets, encoding, line end, set of replacements and way of reading",
     "The tests read ASCII headers from lists of files and use one replacement.",
     [CP, CL], [("load_file", CP, "def load_file"), ("constructor", CP, "self.default_encoding = encoding"),
                ("library headers", CL, "def _build_parser")],
     ["CParser.defs"],
     technique="exhaustive enumeration of stored forms, replacements and reading routes, differential oracle",
     note="The product of snippet sequences, encodings, line ends, file endings, replacement sets and routes; oracle is the "
          "parse of the same text as UTF-8, replaced by hand.")
