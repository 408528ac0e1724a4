prop("C01", "Arithmetic and bit operators compute the specified value for all operands",
     "For every pair of operand values, the arithmetic and bitwise operators on ints compute the 64-bit two's-complement result, on floats (or an int with a float) the IEEE double result, and `/` always the double quotient. `//` and `%` by an int zero end with a division-by-zero error and operands of other types with a type error, and neither a result nor an error depends on anything but the operands. `**` of two ints with a non-negative exponent is exact whenever the result fits an int.",
     ["inputs"], "all pairs of 64-bit ints, doubles, bools and undef as operands of every operator, in any state of the machine",
     "Tests try a handful of operand pairs; overflow, INT_MIN // -1, rounding at 2^53 and signed zeros need all of them.",
     ["interpreter/VM.c"], [["operator instructions", "interpreter/VM.c: vm_executenext, vm_int_binop, vm_num_binop, vm_fdiv, vm_pow, vm_num_unop, vm_int_unop"]],
     CONTRACT, "proof", "Proved per instruction and pair of operand types for all values; int ** int is executed only (bounded). pow() of libm, malloc and longjmp are modelled (see evidence).")
prop("C02", "Constant folding never changes what an expression means",
     "An expression whose operands are literals has the same value, of the same type, and ends with the same error as the same expression with the operands held in variables. Whatever the compiler evaluates ahead of time is evaluated as it would be at run time; whatever would fail at run time is left to fail there.",
     ["programs", "inputs"], "all operator expressions over int, float and bool literals",
     "Tests compare few constant expressions and never against the same expression at run time; each operator and type pair has its own code in the folder.",
     ["compiler/middleend.c", "compiler/ast.c"], [["bottom-up folding of operator nodes", "compiler/middleend.c: fold"]],
     CONTRACT, "proof", "Proved for every operator over leaves of every type pair against the specification shared with C01/C03; deeper expressions by induction and bounded execution.")
prop("C03", "Equality, ordering, truthiness and conditions agree with the value model",
     "Comparison operators order ints exactly, numbers by value and strings by their bytes; identity never holds between values of different types; comparing unordered types is a type error while equality of unlike types is false. undef, false, NaN and '' are the only falsy values in every place that tests a condition, and the logical operators evaluate their right side only when it is needed and return one of the operands.",
     ["inputs", "programs"], "all pairs of values of the basic types; every kind of condition",
     "Tests use few values per operator and mostly small ints.",
     ["interpreter/VM.c", "interpreter/YASL_Object.c", "compiler/compiler.c"],
     [["comparison and branch instructions", "interpreter/VM.c: vm_executenext, vm_EQ, COMP"], ["isfalsey, isequal", "interpreter/YASL_Object.c"]],
     CONTRACT, "proof", "Comparison, equality, identity, not and branch instructions proved for all int/float/bool/undef operands; strings bounded by length; conditions in programs executed (bounded).")
prop("C04", "Tables behave as finite maps under every history of operations",
     "After any sequence of insertions, overwrites, removals (by assigning undef or by the method), clears, copies and lookups, a table binds exactly the keys a finite map would: a lookup finds the last value stored under an equal key of the same type, length counts the bindings, iteration meets each binding once, whatever collisions, deleted slots and resizes happened. 0.0 and -0.0 are one key; 1 and 1.0 are not; mutable keys are refused.",
     ["histories", "inputs"], "all histories of table operations over all hashable keys and all table sizes",
     "Tests insert a few keys; probing past deleted slots, growing, shrinking and colliding keys need particular histories.",
     ["data-structures/YASL_Table.c", "util/hash_function.c", "util/prime.c", "interpreter/table_methods.c"],
     [["open addressing with double hashing, deleted slots, resizing", "data-structures/YASL_Table.c: YASL_Table_insert_fast, YASL_Table_getindex, YASL_Table_search, YASL_Table_rm, table_resize"], ["probe sequence", "util/hash_function.c: get_hash"]],
     CONTRACT, "proof", "The probing core, resizing and deletion are proved for tables of any size; hashing of strings is bounded by length and methods written over these operations are executed (bounded).",
     state=[["size, base_size, count, items", "slots, nominal size, bindings, slot array", "data-structures/YASL_Table.h"]])
prop("C05", "Sets obey set algebra under every history of operations",
     "After any sequence of additions, removals, clears and copies a set contains exactly the values a mathematical set would, counts them exactly and iterates over each once; union, intersection, difference and symmetric difference contain exactly the values the definitions say, and leave their operands unchanged. Mutable values are refused.",
     ["histories", "inputs"], "all histories of set operations over all hashable values and all set sizes",
     "Tests use small sets of small ints; resizing, deleted slots and collisions need particular histories.",
     ["data-structures/YASL_Set.c", "util/hash_function.c", "std/yasl-std-collections.c"],
     [["membership by open addressing", "data-structures/YASL_Set.c: YASL_Set_insert, YASL_Set_search, YASL_Set_rm, set_resize"], ["set algebra", "data-structures/YASL_Set.c: YASL_Set_union, YASL_Set_intersection, YASL_Set_difference, YASL_Set_symmetric_difference"]],
     CONTRACT, "proof", "All functions of YASL_Set.c are proved for sets of any size; the methods and operators around them are executed against Python's sets (bounded).")
prop("C06", "List operations have the semantics of finite sequences",
     "Every list operation (push, insertion, pop, extension, concatenation, copying, reversal, counting, join, search, clear, assignment to an index, literals) yields the sequence its definition says, of any length and with elements of any kind, shared lists see the changes made through any alias, and indices outside the list raise a value error and change nothing.",
     ["histories", "inputs"], "all histories of list operations, for lists of any length",
     "Tests use a few short lists; growth and shrinking of the buffer, odd and even lengths and aliasing need particular histories.",
     ["data-structures/YASL_List.c", "interpreter/list_methods.c", "interpreter/VM.c"],
     [["growth, insertion, reversal", "data-structures/YASL_List.c"], ["methods", "interpreter/list_methods.c"], ["literals", "interpreter/VM.c: vm_NEWLIST"]],
     CONTRACT, "proof", "YASL_List.c and list literals are proved for any length; list methods written in terms of them are executed against Python's lists (bounded).")
prop("C07", "Sorting yields the ordered permutation of the list",
     "`sort` of a list of numbers (without NaN) or of strings leaves exactly the elements it had, each as often as before, in ascending order: ints exactly, numbers by value, strings by their bytes with a prefix first; any other list raises a value error and stays as it is.",
     ["inputs"], "all lists of numbers or strings, and all sequences of pivots",
     "Tests sort a few short lists; pivots are random, and duplicates, extreme ints and particular orders need many.",
     ["interpreter/list_methods.c", "interpreter/YASL_Object.c"], [["quicksort with random pivots", "interpreter/list_methods.c: sort"], ["order", "interpreter/YASL_Object.c: yasl_object_cmp"]],
     CONTRACT, "other", "The order is proved for all pairs of numbers; sorting itself is bounded: by the verifier up to two elements, by execution on random arrays and programs beyond.")
prop("C08", "String methods have the semantics of byte strings",
     "Every string method (search, count, split, trim, replace, starts/ends with, case, character classes, repetition, comparison, slices) returns what its definition says for strings of any length and content, including empty strings, slices of other strings, overlapping occurrences and bytes above 127, and never changes its operands; an empty separator or a negative count raises a value error.",
     ["inputs"], "all haystacks, needles and replacements, as whole strings or as slices of others",
     "Tests use a few short ASCII strings; overlapping occurrences, needles longer than the rest and slices need particular combinations.",
     ["data-structures/YASL_String.c", "interpreter/str_methods.c"], [["the algorithms", "data-structures/YASL_String.c"], ["argument checks", "interpreter/str_methods.c"]],
     CONTRACT, "proof", "YASL_String.c's algorithms are proved for any length; character classes and repetition up to a bound; the methods around them are executed (bounded).")
prop("C09", "Indexing, slicing, iteration and comprehensions meet the right elements",
     "Indexing with i from -n to n-1 meets element i or n+i and anything else is a value error that changes nothing; slices clamp both bounds, may be empty and copy; `for ... <- ...` over a list, string or table meets every element once in order (tables: in any order), ends, and may be left or nested; comprehensions give the mapped and filtered elements, wherever the expression stands.",
     ["inputs", "programs"], "all indices, bounds and iterables, of any length and in any nesting",
     "Tests use few indices and short sequences; extreme bounds and iteration inside larger expressions need particular programs.",
     ["interpreter/VM.c", "interpreter/list_methods.c", "interpreter/str_methods.c", "compiler/parser.c"],
     [["slices and iteration", "interpreter/VM.c: vm_SLICE, vm_SLICE_list, vm_ITER_1, INITFOR, ENDFOR"], ["indexing", "interpreter/list_methods.c: list___get, list___set; interpreter/str_methods.c: str___get"]],
     CONTRACT, "proof", "The slice and iteration instructions are proved, on lists for any length; heap strings up to a bound; indexing methods, tables and comprehensions are executed (bounded).")
prop("C10", "Bytecode numbers are read back as written; errors name their line",
     "Every number put into bytecode or the table of lines is read back as the same number and the next one is found behind it; buffers keep all earlier bytes while they grow; an error names the line of the statement that failed, followed by the lines of the pending calls, however deep and long the program is.",
     ["inputs", "programs"], "all 64-bit numbers, all sizes and fillings of buffers, all line structures of programs",
     "Tests compile short programs, whose offsets take one or two bytes; growth and long encodings need long ones.",
     ["util/varint.c", "data-structures/YASL_ByteBuffer.c", "interpreter/VM.c", "compiler/compiler.c"],
     [["variable-length numbers", "util/varint.c"], ["table of lines", "compiler/compiler.c: visit; interpreter/VM.c: vm_getcurrline"], ["buffers", "data-structures/YASL_ByteBuffer.c"]],
     CONTRACT, "proof", "varint.c and YASL_ByteBuffer.c are proved without bounds, as are the emission of and the search in the table of lines; the places of the entries are executed (bounded).")
prop("C11", "Calls deliver arguments and results and keep the caller's state",
     "A call binds the n-th argument to the n-th parameter, missing arguments are undef and surplus ones dropped; in the middle of an argument list or expression a call counts as its first result (undef if none), at the end of a list of arguments, results or assigned values it counts as all; after the call, the caller's variables, temporaries and loops are what they were, from whatever nesting the callee returned.",
     ["programs", "inputs"], "all call sites, arities, numbers of results, and nestings of loops and calls",
     "Tests call with matching arities mostly; wrong counts inside nested calls and returns from loops need particular combinations.",
     ["interpreter/VM.c", "compiler/compiler.c"], [["calling sequence", "interpreter/VM.c: vm_INIT_CALL, vm_CALL, vm_RET, vm_CALL_fn, vm_CALL_cfn"], ["code around calls", "compiler/compiler.c: visit_Call, visit_MethodCall, visit_Return"]],
     CONTRACT, "proof", "The instructions of the calling sequence are proved for all values at fixed arities; the compiler's part, natives and methods are executed in random programs (bounded).")
prop("C12", "Everything is released exactly when the last reference goes",
     "A value stays whole as long as something refers to it - a variable, an element, a key, a constant, a capture, a running loop, a value being computed - and is released, together with what it alone holds, when the last reference goes; nothing is released twice or used after its release, and when a state is deleted nothing remains, whether the program ended or failed, at whatever point (values that refer to themselves through a cycle excepted).",
     ["histories", "programs"], "all values, all counts of references, all sequences of taking and giving up references, all points of failure",
     "Tests look at output, not at memory; a count that is off by one shows when the memory is reused or in long runs.",
     ["interpreter/refcount.c", "interpreter/userdata.c", "interpreter/closure.c", "data-structures/YASL_List.c", "data-structures/YASL_Table.c", "data-structures/YASL_Set.c", "interpreter/VM.c"],
     [["counting", "interpreter/refcount.c: inc_ref, dec_ref"], ["release of what a value holds", "YASL_List_del_data, YASL_Table_del, YASL_Set_del, ud_del_data, closure_del_data, vm_cleanup"]],
     CONTRACT, "proof", "Counting, and the release of lists, tables, sets, userdata, strings and the machine, are proved without bounds; closures up to three variables; whole programs are executed under AddressSanitizer (bounded).")
prop("C13", "Closures share the variables they capture for as long as they live",
     "A closure reads and writes the very variables it captured: while their scope is alive, changes by the scope and by every closure over it are seen by all; when the scope ends - normally, by break, continue, return, or end of an iteration - the closures keep one shared variable with its last value, and later scopes in the same place have variables of their own.",
     ["histories", "programs"], "all sequences of captures, reads, writes and ends of scopes",
     "Tests capture one variable in one closure; sharing, loops and early exits need several steps.",
     ["interpreter/VM.c", "interpreter/upvalue.c", "compiler/compiler.c"],
     [["open and closed upvalues", "interpreter/VM.c: add_upvalue, vm_close_all_helper, vm_CCONST; interpreter/upvalue.c"]],
     CONTRACT, "proof", "Reading and writing through open and closed upvalues is proved; closing and finding them for up to four open ones; creation and the compiler's part are executed (bounded).")
prop("C17", "Names resolve lexically; constants and undeclared names are refused",
     "A name means the innermost declaration that precedes it, a declaration ends with its block, and variables in different scopes never share storage while both live; assigning to a constant or an undeclared name, redeclaring a name in its scope and using a name after its scope has ended are errors reported before anything runs.",
     ["programs"], "all nestings of blocks, loops and functions and all orders of declarations",
     "Tests nest a few scopes; storage shared by mistake shows only when several live variables meet.",
     ["compiler/compiler.c", "compiler/env.c", "interpreter/VM.c"],
     [["scopes", "compiler/env.c: scope_get, scope_decl_var, env_*"], ["locals", "interpreter/VM.c: LLOAD, LSTORE, and the moves of the stack"]],
     CONTRACT, "proof", "Scopes, captures, the code that names become and the instructions on locals are proved for all values and nestings of scopes; how the compiler enters and leaves scopes is executed in random programs (bounded).")
prop("C18", "Exceeding a limit is an error, never corruption",
     "Deep recursion, long expressions, many variables, parameters, arguments, results, captures or nested loops either work as any smaller number does or end with an error of the documented kind (stack overflow, syntax error, too many variables); no program writes outside the stack, the frames or the loops of the machine, or silently computes something else.",
     ["programs", "inputs"], "all states of the stacks of values, frames and loops, all sizes of program parts",
     "Tests reach no limit; each kind of push and each counter in the bytecode has a limit of its own.",
     ["interpreter/VM.c", "compiler/compiler.c"], [["checked pushes and frames", "interpreter/VM.c: vm_push, vm_enterframe_offset, vm_enterloop"], ["sizes in the bytecode", "compiler/compiler.c, compiler/env.c"]],
     CONTRACT, "proof", "Pushes, frames and unknown instructions are proved at the limits; sizes of program parts are executed around every known boundary (bounded).")
prop("C20", "Every literal in a program keeps its own value and type",
     "However many constants a program has, of whatever kinds and sizes and however often they are repeated, each occurrence yields the value and the type written there: equal-looking constants of different types, zeros of different signs, strings with NUL bytes and constants with large numbers are never confused.",
     ["programs", "inputs"], "all sets of constants in a program and all places of use",
     "Tests use few constants per program; the numbering of the pool matters only with many, and sharing only with look-alikes.",
     ["compiler/compiler.c", "interpreter/VM.c"], [["pool of constants", "compiler/compiler.c: compiler_intern_string, compiler_intern_float, ..."], ["constant instructions", "interpreter/VM.c: vm_LIT, vm_LIT8, ..., vm_setupconstants"]],
     CONTRACT, "proof", "The constant instructions are proved for all pools and operands; the numbering by the compiler is executed in programs with look-alike and many constants (bounded).")
prop("C19", "The math library computes what it says",
     "math.gcd and math.lcm are the greatest common divisor and least common multiple of any two positive numbers (undef otherwise), math.isprime is true exactly for primes; math.max and math.min return the greatest and smallest of any number of arguments (NaN if one is met, infinity for none), math.abs, deg, rad and the floating-point functions are applied to the number given, integer or not; an argument of another type is a type error.",
     ["inputs"], "all numbers and kinds of arguments",
     "Tests call each function with one or two numbers; large primes, squares of primes, mixed kinds of arguments and their order need particular ones.",
     ["std/yasl-std-math.c", "util/prime.c"],
     [["whole numbers", "std/yasl-std-math.c: gcd_helper, YASL_math_gcd, YASL_math_lcm; util/prime.c: is_prime, next_prime"], ["the rest", "std/yasl-std-math.c: YASL_math_max, YASL_math_min, YASL_math_abs, ..."]],
     CONTRACT, "proof", "gcd, primality and every function are proved for all numbers (libm itself is trusted); min and max for up to three arguments, executed beyond (bounded).")
prop("C15", "The C API does to values and the stack what it documents",
     "Every call of the C API does what its documentation says for every value it meets: is/isn/peek/pop answer about the value they are asked about and nothing else (0, false or NULL if it has another type), pushes and pops change the stack by the documented number of values, list, table, global and metatable operations store and return what was given, a failed call leaves the stack as documented, YASL_functioncall runs any function and leaves its results, a state that is reset runs the next program as if it were new while globals keep their values (functions included), and userdata are destroyed exactly once, when the last reference is gone.",
     ["inputs", "histories"], "all values of all types, all sequences of calls",
     "Tests call a few functions with values of the right type, mostly once per state; wrong types, errors and resets between calls, and functions that outlive their program are not exercised.",
     ["yasl.c", "yasl_aux.c"],
     [["the calls", "yasl.c: YASL_is*, YASL_peek*, YASL_pop*, YASL_push*, YASL_list*, YASL_table*, YASL_*global, YASL_*mt, YASL_functioncall, YASL_resetstate*"], ["argument checks", "yasl_aux.c: YASLX_check*"]],
     CONTRACT, "proof", "Each call is proved against its contract for all values; sequences of calls, function calls and resets are executed in random histories against a model (bounded).")

prop("C16", "Programs are read as they are spelled",
     "The text of a program is split into its tokens as the language defines them, whatever the spelling and layout: the longest operator wins, keywords are keywords and every other word is a name, numbers in decimal, hexadecimal and binary with underscores anywhere between or behind their digits have their value, every escape in a string stands for its character and malformed escapes are refused, raw and interpolated strings keep every byte, blanks and comments separate tokens and change nothing else, and a newline ends a statement exactly behind a token that can end one.",
     ["inputs", "programs"], "all texts, of any length",
     "Tests spell programs the usual way; rare operators, escapes, long tokens, bytes above 127 and unusual layouts are not sampled.",
     ["compiler/lexer.c"],
     [["tokens", "compiler/lexer.c: gettok, lex_eatop, lex_eatid, lex_eatnumber, lex_eatstring, lex_eatrawstring, lex_eatinterpstring"], ["escapes", "compiler/lexer.c: handle_escapes"], ["layout", "compiler/lexer.c: lex_eatcommentsandwhitespace, ispotentialend"]],
     CONTRACT, "proof", "The parts of the lexer are proved for texts of any length; how the tokens of a program are put together is executed in random programs (bounded).")

prop("C14", "A match runs the first arm whose pattern matches, with its bindings",
     "A match compares its subject with the patterns from top to bottom and runs the body of the first arm whose pattern matches and whose guard holds: literals match equal values, types match values of the type, * matches anything, lists and tables match element by element (exactly, or as a prefix or a part with ...), alternatives match if either does; let and const bind the parts in their places, and whatever was tried in vain before leaves no trace in variables that are alive.",
     ["inputs", "programs"], "all subjects, patterns of every depth and order of arms",
     "Tests match a few shallow patterns; skipping the rest of a nested pattern that failed half-way needs particular combinations.",
     ["interpreter/VM.c", "compiler/compiler.c"],
     [["the matcher", "interpreter/VM.c: vm_MATCH_subpattern, vm_ff_subpattern, MATCH_list, vm_MATCH_table_elements, vm_MATCH_IF"], ["the code of patterns", "compiler/compiler.c: visit_Match, visit_*Pattern"]],
     CONTRACT, "proof", "The matcher is proved per pattern for all values, and for lists, tables and skipped patterns of any length; the code emitted around the arms is executed in random programs (bounded). Two known findings.")
