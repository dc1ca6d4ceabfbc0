SEQ = "exhaustive operation-sequence exploration of the real code against a reference model"

prop("C11", "Vector behaves like a sequence and owns its elements",
  "After any sequence of pushes, pops, shifts, element assignments, growing or shrinking resizes and shrink-to-fit calls, starting from any initial capacity (including 0), a Vector's size, elements, iteration order, find/indexOf/filter/map/accumulate/each results and printed form are those of a mathematical sequence. Its capacity is never below its size, and every element put in is destroyed exactly once: when it is removed, overwritten or the vector dies, never earlier, never twice, never not at all. No operation reads or writes outside the vector's memory.",
  ["histories", "configurations"], "all operation histories up to a depth, for every small initial capacity, with plain and with reference-counted elements",
  "The repository has one vector example run; growth, shift and resize bugs need particular operation orders and capacities.",
  ["src/cxy/stdlib/vector.cxy", BI],
  [("growth/shrink/shift", "stdlib/vector.cxy"), ("allocation, reference counting and destructors", BI)],
  check="vector.py", technique=SEQ,
  note="every operation history up to depth 6 (quick) / 8 (thorough) over a 10-operation alphabet for capacities 0..3, run on the real Vector compiled by the real compiler under AddressSanitizer, compared after each step with a reference sequence; bounded depth; trusts clang/ASan and the C reference model")

prop("C12", "HashMap and HashSet behave like a map and a set",
  "After any sequence of insertions, updates, removals, lookups, clears and growth, with keys that collide or wrap around the table, a HashMap (integer, object or String keys) holds exactly the entries a mathematical map would: lookup, membership, size and emptiness agree, iteration (directly, and via map-style traversal) visits each live entry exactly once, and a HashSet likewise. Keys and values are destroyed exactly once, when removed, replaced or when the table dies, and no memory outside the table is touched.",
  ["histories", "inputs"], "all operation histories up to a depth over key sets chosen to collide, to wrap around the end of the table and to force growth",
  "Open-addressing bugs need specific collision patterns followed by removal and re-lookup; the repository's examples insert a few well-spread keys.",
  ["src/cxy/stdlib/hash.cxy", BI], [("probing, removal, rehash", "stdlib/hash.cxy"), ("hash functions", BI)],
  check="hashmap.py", technique=SEQ,
  note="every history up to depth 3-5 (quick) / 4-6 (thorough) after every pre-filled starting table, under AddressSanitizer, full content comparison with a reference map after each step; bounded depth and key universe")

prop("C13", "String and __string operations match their definition",
  "For every text over a small alphabet (including embedded NULs for views) the view operations (length, substring, comparison, equality, find/index/rindex, starts/ends with, trimming, splitting, conversion to integers and floats, hashing) give the result of their definition, reading only bytes of the view. After any sequence of appends, resizes, clears, trims and the other editing operations a String holds exactly the expected bytes, stays NUL-terminated, reports its size, and releases its memory exactly once.",
  ["inputs", "histories"], "all short texts and all sub-views of them as arguments; all editing histories up to a depth",
  "Off-by-one and terminator bugs show only for particular lengths, positions and buffers; the tests print a few fixed strings.",
  [BI], [("__string and String", BI)],
  check="strings.py", technique="exhaustive enumeration of short inputs and of operation sequences on the real code against a reference model",
  note="all views of all texts up to length 5 (quick) / 7 (thorough) over a 2-3 letter alphabet and all editing histories to depth 5/6, under AddressSanitizer; bounded lengths; one recorded finding (String.startswith/endswith leak)")

prop("C15", "Values are printed exactly",
  "Writing a value to an output stream produces exactly its textual form: every integer of every width in decimal, floats as %g, every Unicode code point as its UTF-8 encoding, booleans, strings and string views (all their bytes and no more), enums by name or display string, optionals, tuples, arrays, slices, unions, structs field by field and types with their own `str` operator. A buffered stream hands its sink exactly the bytes appended, in order, holding back at most its capacity, for any sequence of appends and syncs.",
  ["inputs", "histories"], "all 16-bit integers and boundary wider ones, all 0x110000 code points, one or more of every printable kind, all append/sync histories up to a depth for each small capacity",
  "The tests print a handful of values; encodings and buffer boundaries only fail at particular code points, magnitudes and sizes.",
  [BI], [("OutputStream.<<, appendChar, BufferedOutputStream", BI)],
  check="fmt.py", technique="exhaustive enumeration of inputs and append/sync histories on the real code against a reference encoder",
  note="complete over all code points and 16-bit integers, boundary values for wider integers, all histories of depth 5/6 over 7 block sizes plus sync for capacities 1-4; floats only at listed values")

prop("C16", "The command line selects the command, options and inputs it says",
  "For every command line: the first word that names a command selects it (`dev` otherwise), every option, in each of its spellings (--name=value, --name value, -xvalue, -x value, -x=value), sets exactly the setting it is declared for, options not given keep their documented default, repeatable options collect their values in order, words that are not options are the input files, in order, lists of warnings enable and disable exactly the warnings they name, and an unknown option, a missing, unexpected or malformed value or a missing input file is reported as an error instead of being accepted, guessed or crashing the compiler.",
  ["inputs"], "all command lines of up to 3-4 words from an alphabet covering every option in every spelling, plus all short lists of warnings",
  "The tests start the compiler with one fixed command line; which setting a spelling or a combination changes is never checked.",
  ["src/cxy/core/args.c", "src/cxy/core/args.h", "src/cxy/driver/options.c"], [("argument parser", "src/cxy/core/args.c"), ("option table", "src/cxy/driver/options.c"), ("warning lists", "src/cxy/core/log.c")],
  check="args.py", technique="exhaustive enumeration of command lines run through the real option parser and compared with a reference parser",
  note="all command lines up to 3-4 words from an alphabet of about 60; words after `--`, empty words and empty text values are unconstrained")

prop("C10", "The compiler's own containers hold exactly what was put into them",
  "The containers every compiler stage is built on behave like their abstract counterparts after any sequence of operations, for any hash values (equal hashes, colliding and wrapping probe chains included), element size and initial capacity: the hash table is a set (insert reports whether the element was new, find returns the stored element or nothing, remove removes that element only, every iteration visits each element once), the hash map (Hmap) is a map (put adds or replaces and returns the stored item, get, remove, clear, iteration, growing and shrinking), the string pool returns one address per distinct text and never changes a text it returned (including sized, trimmed, concatenated, formatted, path-joined and anonymous names), the memory pool hands out aligned blocks that never overlap a live one and keeps tracked blocks' contents across reallocation, the dynamic array is a sequence under push, pop, resize and copy, the string builder and the format buffers contain exactly the concatenation of what was appended, and characters are encoded, decoded, escaped and unescaped as UTF-8 without loss.",
  ["histories", "inputs"], "all reachable table arrangements over small key sets for every assignment of hash values from a set of colliding ones; all operation histories up to a depth for pools, arrays, builders and formats; all code points",
  "No repository test drives these containers directly; a probe chain that wraps, a shrink after a removal or a buffer boundary occurs only in particular compilations, where it silently loses a symbol or corrupts memory.",
  ["src/cxy/core"], [("hash table", "src/cxy/core/htable.c"), ("hash map", "src/cxy/core/hmap.c"), ("string pool", "src/cxy/core/strpool.c"), ("memory pool", "src/cxy/core/mempool.c"), ("arrays, builders, formats, text", "src/cxy/core")],
  check="core.py", technique="explicit-state exploration of the real containers: every operation from every reachable state (replayed on the real code), compared with a reference model",
  note="hash table: closure over all states reachable with 5 (quick) / 6 (thorough) keys within 9/10 operations for each of the 2002/5005 multisets of 10 hash values, element sizes 1, 4, 8, 24; Hmap: the same with 5/6 keys, 2 values, 8 hash values, three capacities; pools, arrays, builders, formats: all histories of depth 5-6; all 2^21 code points; AddressSanitizer throughout")

PROG = "exhaustive enumeration of small programs and of all their execution paths: each is compiled with the real compiler, run, and its trace compared with a reference interpreter"
FE, MID, BE = "src/cxy/lang/frontend", "src/cxy/lang/middle", "src/cxy/lang/backend/c"

prop("C06", "Control flow, defer and exceptions execute as written",
  "A compiled program performs exactly the effects its source prescribes, in source order, on every path: if/else, while, for over ranges, switch (single, comma separated and default cases), break, continue, return; conditions built from &&, ||, !, ?: and calls evaluate each operand only when it is needed and exactly once; a deferred statement runs exactly once when its block is left, last deferred first, however the block is left (fall through, break, continue, return, raise); an exception raised by a call leaves the enclosing blocks up to the nearest catch, whose handler runs once, yields its default value, returns, breaks, continues or raises on; uncaught exceptions reach the caller; code that does not raise is unaffected.",
  ["programs", "inputs"], "all statement trees of a grammar up to a size, nested in all ways, and all branch outcomes of each",
  "The tests run a few fixed programs; lowering bugs (defer, exceptions, hoisting, loops, switch) show only in particular nestings of statements and on particular paths.",
  [FE + "/parser.c", MID + "/shake", MID + "/sema", MID + "/defer.c", MID + "/simplify", BE + "/generate.c"],
  [("statement parsing", FE + "/parser.c"), ("while/for/switch/exception checking and rewriting", MID + "/sema"), ("defer expansion", MID + "/defer.c"), ("hoisting of sub-expressions", MID + "/simplify/simplify.c"), ("C statements", BE + "/generate.c")],
  check="control.py", technique=PROG,
  note="all programs of 11 statement grammars with up to 3-4 (quick) / 4-5 (thorough) compound statements, every path of up to 5 branch decisions; bounded program size; programs with unreachable code after a jump excluded")

prop("C17", "A macro call means its definition with the arguments put in",
  "For every macro, argument list and place of use, the call behaves as the macro's definition would if it were written there with each parameter replaced by its argument as one operand: no argument and no body is regrouped by the operators around it, inside it or in the definition, a parameter used several times is evaluated each time, one not used is not evaluated, a body of several statements executes all of them in order in every position a statement may take, a body that is a value can be used wherever an expression can, a macro calling other macros means their definitions in turn, a variadic macro passes its arguments on in order, wrong numbers of arguments are rejected, and conditions over macros select the branch their value says. The same grouping holds for `x.[i] op= v`, which computes x.[i] op (v).",
  ["programs", "inputs"], "all pairs and triples of operators across argument, parameter and use position, all short statement lists in all statement positions, macros nested three deep, all argument kinds, counts and comparison operators",
  "The tests expand a handful of macros whose arguments are single literals; a lost grouping, a dropped statement or a wrong argument shows only for particular operators and positions.",
  [FE + "/parser.c", MID + "/preprocess", MID + "/shake", MID + "/simplify", BE + "/generate.c"],
  [("expansion", MID + "/preprocess/preprocessor.c"), ("macro parsing", FE + "/parser.c"), ("hoisting of expressions", MID + "/shake/shake.c"), ("operand grouping in C", BE + "/generate.c")],
  check="macros.py", technique=PROG,
  note="about 20000 programs: bodies and arguments of up to two operators over all binary, unary and conditional operators; unconstrained: when the operand calls of nested macro calls run relative to each other, `defined` of a macro of the same file")

prop("C18", "An imported name is the declaration of that name which the module made public",
  "For every set of modules, declarations, visibilities and forms of import: a name reached through a module's alias, a named or a renamed import refers to that module's public declaration of that name and to nothing else, whatever declarations of the same name exist in other modules, in the importing file or privately; a name that the module does not declare or does not make public, a name that clashes, a file that is missing or is not a module, and modules that import each other in a circle are rejected with an error; inside a module its own names refer to its own declarations; a module's variable is one variable for everyone, initialised once and after the modules it imports; a type is the same type through every import of it and distinct from a type of the same name elsewhere; generics, overload sets, class hierarchies and exceptions work as in one file when their parts lie in different modules.",
  ["programs", "inputs"], "all placings of one name in three files x visibility x import form x kind of declaration; all import graphs over three modules; all operation sequences on a shared variable up to a depth; all pairs of paths to a type; all spreadings of a class chain over files",
  "The tests import one or two modules in one form each; name clashes, private names, diamonds and circles of imports and parts of one declaration in several modules are not sampled.",
  ["src/cxy/driver", FE + "/parser.c", MID + "/bind", MID + "/sema"],
  [("module loading and checking of imports", "src/cxy/driver/driver.c"), ("binding of imported names", MID + "/bind"), ("members of modules", MID + "/sema/path.c"), ("inheritance", MID + "/sema/class.c")],
  check="modules.py", technique=PROG,
  note="about 5000 (quick) / 7000 (thorough) multi-file programs, of which about 2000 must be rejected; not covered: conversions between enumerations, C headers, initialisers with side effects outside the module graph")

prop("C19", "What a C header declares means in cxy what it means in C",
  "For every C header made of functions, structures (nested, recursive, opaque, packed, with bit-fields), enumerations, type names, variables and constant macros over the scalar types of C: a value passed to or returned from C by value, through a pointer, in a structure, an array, a variable or a variable argument list arrives unchanged for every value of its type; structures have the layout C gives them; enumerators and macros have the value and the type C gives them; type names, and declarations reached through several headers in any order of import, are the same entity; so a program that talks to C computes what the same program in C would.",
  ["programs", "inputs"], "all scalar types x positions x values at the ends of the range; all pairs of member and parameter types; all enumerations of three constants over a set of values; all integer macro spellings; all bit-field and packed layouts over a set of types; all include graphs of three headers x import order; all operation sequences on an opaque object",
  "The tests call a few C functions with ints; a wrong layout or a lost bit shows only for particular member types, values and orders of import.",
  ["src/cxy/driver/c-import", "src/cxy/lang/backend/c"],
  [("C declarations to cxy types", "src/cxy/driver/c-import/import.cpp"), ("modules of headers", "src/cxy/driver/c-import/context.cpp"), ("types in the generated C", "src/cxy/lang/backend/c/generate.c")],
  check="headers.py", technique=PROG,
  note="about 3700 programs (quick), each linked with C code, compiled from the same header by the C compiler, that checks and produces the values; not covered: members of C unions, function pointers, macros with more than one token")

prop("C01", "Source text is tokenised as written and lexing always terminates",
  "Any byte sequence is split into tokens by the documented rules: the longest operator wins, keywords are recognised exactly (whole words), integer literals in base 2, 8, 10 and 16 and float literals have their mathematical value, character and string literals (plain, multi-line and formatted) denote the characters and escapes written, nested block comments and line comments vanish, and every token's line, column and extent are those of its text. Malformed input yields an error and lexing still reaches the end of the file, without reading outside it.",
  ["inputs"], "all texts over several alphabets up to a length, every code point as a character literal, every edit of every keyword, literals of every power of two and its neighbours",
  "Lexer bugs need particular adjacent characters, or a literal ending at a buffer end; the tests tokenise a few sample files.",
  [FE + "/lexer.c", "src/cxy/core/utils.c"], [("tokenising", FE + "/lexer.c"), ("escape sequences and UTF-8", "src/cxy/core/utils.c"), ("keyword table", FE + "/token.h")],
  check="lexer.py", technique="exhaustive enumeration of bounded source texts: the real lexer (under AddressSanitizer) and the whole compiler against a reference lexer",
  note="all texts up to length 3-5 (quick) / 4-6 (thorough) over alphabets of 16-33 characters or fragments, all code points (thorough) as character literals, >1000 string literals through the whole compiler; strings across line ends and unknown escapes unconstrained")

prop("C02", "Expressions group by precedence, associativity and parentheses",
  "The value of every expression is that of its tree under the documented operator precedence and left associativity, whatever combination of binary and unary operators, casts, calls, ?: and parentheses it has and wherever it stands (initialiser, condition, argument, plain, chained or compound assignment); parentheses and spacing never change anything else. What the compiler emits as C groups the same way.",
  ["programs", "inputs"], "all sequences of up to three (thorough: four) binary operators with all groupings, unary operators, casts, ?: in every position; every input tuple from small values",
  "A grouping bug shows only for one operator pair with operands that tell the groupings apart; the tests have a few expressions, most compared as syntax dumps only.",
  [FE + "/parser.c", BE + "/generate.c", MID + "/simplify"], [("precedence table and climbing", FE + "/parser.c"), ("operators", "src/cxy/lang/operations.h"), ("C emission of expressions", BE + "/generate.c")],
  check="expr.py", technique="exhaustive enumeration of small expressions and of their inputs: compiled by the real compiler, run, compared with a reference parser and evaluator",
  note="about 20000 expressions, each on every tuple of 2-5 values per operand; at most 3 (quick) / 4 (thorough) binary operators; inputs with undefined results skipped; `x as T | y` excluded (reads as a union type)")

prop("C04", "Arithmetic, conversions and literals compute the right values",
  "Every arithmetic, bitwise, shift, comparison, increment and compound assignment operator, on every pair of numeric types, yields the value of its operands' width, sign and precision; every explicit cast (as, <T>, !:) and every implicit conversion the checker admits (declaration, assignment, parameter, return value, field, tuple element) keeps the value or converts it as defined; every literal, with or without a type suffix, in every base, has exactly the value and type written.",
  ["programs", "inputs"], "all operators over all pairs of the ten numeric types on every 8-bit value and all boundary values of wider types; all conversions; literals at every power of two",
  "A wrong width, sign or precision shows only at boundary values of particular type pairs; the tests use small ints.",
  [MID + "/sema", BE + "/generate.c", FE + "/parser.c", FE + "/types.c"], [("type promotion and assignability", FE + "/types.c"), ("typing of operators and casts", MID + "/sema"), ("literal emission", BE + "/generate.c")],
  check="arith.py", technique="exhaustive enumeration of operator/type combinations and of input values: compiled by the real compiler, run, compared with a C reference",
  note="complete over the 8-bit types, boundary values (2^k and neighbours) for wider ones; division by zero, overflowing division, over-wide shifts and out-of-range float conversions unconstrained")

prop("C05", "Compile-time evaluation computes what the language says",
  "Every expression, control statement and type query evaluated at compile time yields the value the same text would have at run time: integer, float, boolean, character and string operators (signs, precision, division, shifts, comparisons), #if / #for / assignments to compile-time variables in any nesting, type identity (#T == #U is true exactly for the same type), type predicates and properties (isInteger, isClass, membersCount, elementType, ...), tuple transformations, member, attribute and annotation lookup, and the macros (sizeof!, typeat!, indexof!, has_member!, has_type!, is_base_of!, mk_str!, len!).",
  ["programs", "inputs"], "all expressions up to two operators over boundary operands, all compile-time programs up to 4 statements, all pairs of a type universe built from base types and constructors",
  "A compile-time answer is folded into the program and never visible afterwards; the tests use a few positive ints and a couple of predicates.",
  [MID + "/eval"], [("operators", MID + "/eval/binary.c"), ("literals", MID + "/eval/literal.c"), ("type expressions", MID + "/eval/path.c"), ("type identity", MID + "/eval/eval.c"), ("AST properties", MID + "/eval/comptime.c"), ("macros", MID + "/eval/macro.c"), ("loops", MID + "/eval/for.c")],
  check="comptime.py", technique="exhaustive enumeration of compile-time expressions, programs and type queries: compiled by the real compiler, run, compared with a reference interpreter",
  note="results outside the 64-bit integer range, division by zero, typed-literal operands and isSigned of floats unconstrained")

prop("C07", "Every object is destroyed exactly once, as soon as nothing owns it",
  "An object (class instance) lives exactly as long as something owns it: it is destroyed once, at the moment the last owner - a variable, parameter, struct or class member, tuple element, optional or union value - goes out of scope, is assigned another value, is nulled or is deleted, and never before; moving hands the object over, copying adds an owner. This holds on every path of every function: through branches, loops, switch, break, continue, early returns, raised exceptions and catch blocks, and for values passed to, returned by or discarded from calls.",
  ["programs", "inputs"], "all pairs (thorough: triples) of ownership statements in every control template, for plain variables, parameters and 10 kinds of holders, with every branch outcome",
  "A missing or doubled drop depends on which statements meet on which path; the tests look at the output of a few programs and never at what was destroyed.",
  [MID + "/mem", "src/cxy/runtime/builtins.cxy", BE + "/generate.c", MID + "/sema"], [("ownership states, drop flags, copies", MID + "/mem/manage.c"), ("destructor and copy generation", MID + "/sema/builtins.c"), ("reference counts", BI), ("drop and copy emission", BE + "/generate.c")],
  check="memory.py", technique=PROG,
  note="every pair of about 30 ownership statements in 4-27 control templates, with valued and raising functions; every path of up to 5 branch decisions; identity of every reachable object and number of live objects compared after each statement, under AddressSanitizer; four recorded findings about temporaries and arrays")

prop("C08", "Data keeps its value; uses select the declaration their types fit",
  "A value of any type - integers, floats, booleans, characters, strings, enums, structs, tuples, arrays, classes, optionals, unions and their nestings - read back after being initialised, assigned, copied, passed as a parameter (by value, pointer, default value), returned, captured by a closure, stored in or taken out of a field, element, tuple member, optional or union, or passed through a generic, is the value written: value types are independent copies, class instances are shared. The declaration a use refers to is the one its types select: a match or switch runs exactly the first case whose type or value fits (else: the default), a call runs the overload whose parameter types fit, a virtual method runs the override of the object's class, an operator runs the overload of its class, a generic instance is the one of its type arguments, and a name refers to the innermost enclosing declaration that is visible.",
  ["programs", "inputs"], "all types of a constructor grammar to depth 2 (thorough: 3) crossed with all storage, passing and conversion operations; all case lists, overload sets, class chains and enum declarations up to a size",
  "Layout, copy and dispatch bugs show for one particular nesting of constructors with one particular operation; the tests use a handful of types, each in one role.",
  [FE + "/types.c", FE + "/ttable.c", MID + "/sema", MID + "/simplify", MID + "/mem", BE + "/generate.c", BI],
  [("type identity, assignability, implicit conversions", FE + "/ttable.c"), ("struct/class/tuple/union/match checking, overload resolution, generics", MID + "/sema"), ("lowering of literals, unions and optionals", MID + "/simplify"), ("C types and initialisers", BE + "/generate.c")],
  check="datatypes.py", technique=PROG,
  note="about 37000 programs (type x operation; overload sets, defaults, operators, class chains, matches, switches, enums, generics, scopes), every path of each; types to depth 2 (quick) / 3 (thorough); combinations the compiler does not support (arrays as values, nested optionals, unions of optionals ...) excluded")

prop("C03", "Ill-typed programs are rejected where they go wrong, well-typed accepted",
  "The compiler accepts a program exactly when the typing rules allow it, and never crashes or emits invalid C on either side. In every context (initialiser, assignment, argument, return, field, element, default value, ...) a value is accepted only where its type is assignable: integers to integers at least as wide (unsigned to signed only if wider), integers to floats, enums to integers that hold their base, derived to base class, members to their union, equal types. Operators need operand types they are defined for; conditions need truth values; constants (also through members, tuples and pointers) and values that are not variables cannot be modified; calls need the declared number of arguments; struct literals need every field without a default and no others; returns must agree with the result type; calls that may raise must be caught or made in a raising function, and catch handlers must yield a fitting value; match cases must be members of the union, once each; classes with unimplemented abstract functions cannot be created; casts need related types; generics need the right number of types; variables cannot be used after having been moved or deleted. A rejected program gets an error located at the offending declaration and produces no executable.",
  ["programs"], "every pair of types in every context, every operator with every pair of operand types, every argument count, every subset of fields, every sequence of uses/assignments/moves/deletes up to a length, ...",
  "The tests check a few accepted programs and single errors; a rule that is too weak or too strong for one pair of types in one context goes unnoticed.",
  [FE + "/types.c", MID + "/sema", MID + "/bind", MID + "/mem/manage.c"], [("assignability and casts", FE + "/types.c"), ("type checking", MID + "/sema"), ("name resolution", MID + "/bind"), ("use after move", MID + "/mem/manage.c")],
  check="reject.py", technique="exhaustive enumeration of small programs over the ingredients of each typing rule: the real compiler's verdict on each is compared with a reference rule",
  note="about 30000 programs: 25 types squared in 18 contexts, operators x types x types, arities 0-5, ...; single-rule programs only; missing returns and string switches are recorded findings; relations not documented (passing constants by reference, enum to enum, char to integer casts) unconstrained")
