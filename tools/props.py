import json
import re
P=[]
OBS={}
for i in ('C07','C08','C24','C27'): OBS[i]=['text written by -E / -M']
for i in ('C22','C23','C30'): OBS[i]=['exit status, output files and memory accesses of the compiler process']
OBS['C28']=['results of look-ups; addresses handed out']
def where(x,files):
    for f in files:
        for n,l in enumerate(open('/repo/'+f,errors='replace'),1):
            if re.search(r'\b%s\('%x,l) and not l.startswith(' ') and not l.rstrip().endswith(';') or re.search(r'\b%s\[\]'%x,l) or re.search(r'define %s\b'%x,l): return '%s:%d'%(f,n)
    print('no symbol',id,x)
    return files[0]
def p(id,title,statement,over,text,why,files,symbols):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=x,where=where(x,files)) for x in symbols],observe_at=OBS.get(id,['assembly text written by slimcc -S']),hook_needed=None)))
W="The test suite samples a few dozen literal operand values; "
p("C01","Integer expressions compute the C result for every operand value",
"For every integer type and every pair of operand values for which C defines the result, compiled arithmetic, bitwise, shift, comparison, logical, conditional, cast, compound-assignment and increment expressions yield exactly the value and converted type that C prescribes. This holds however the operands are reached (globals, locals, parameters, array elements, pointers, nested sub-expressions) and stores never touch bytes outside the assigned object.",
["inputs","programs"],"all values of all operands, over a grammar of integer expressions for every integer type pair",W+"the claim is over all 2^64 operand pairs and every type and addressing form.",["codegen.c","parse.c","type.c"],["gen_expr","gen_expr_opt","add_type","usual_arith_conv"])
p("C02","An operand written as a constant behaves like the same value in a variable",
"Whenever one operand of an expression, a comparison, a condition, an index or an assignment is a compile-time constant, the instructions chosen for that constant (immediate forms, shifts for multiplication/division/remainder, zero/one/power-of-two/negative special cases, eliminated operations) compute the same result as the general operation on that value. It holds for every value of the constant and every value of the other operand.",
["inputs","programs"],"every value K of the constant (all 2^32 / 2^64) times every value of the variable operand",W+"special cases are selected by properties of the constant (powers of two, sign, 32-bit fit), which sampled constants miss.",["codegen.c","parse.c"],["imm_arith","gen_expr_opt","imm_tmpl","eval"])
p("C03","Constant expressions fold to the value the program would compute at run time",
"A constant expression evaluated by the compiler (static initializers, enumerators, case labels, array bounds, constexpr objects, static assertions, dead-branch decisions) has the same value, after conversion to its type, as the same expression executed at run time. This covers integer, floating, address and cast sub-expressions, short-circuit and conditional operators, and unevaluated operands never affect it.",
["inputs","programs"],"all values of the constants occurring in the expression",W+"the folder is exercised on a handful of constants; wrap-around, sign and width corner values are not.",["parse.c"],["eval","eval2","eval_double","const_expr","eval_sign_extend"])
p("C04","Every numeric literal has the value and type C assigns to it",
"For every digit string, base, suffix and digit-separator placement, an integer literal denotes its mathematical value and takes the first type of the C list that can represent it; a floating literal takes the type of its suffix and its nearest representable value. Malformed literals are rejected rather than given another value.",
["inputs"],"all values below 2^64, all bases and suffixes; all short digit/suffix strings",W+"literal typing changes at exact boundaries (2^31, 2^32, 2^63) per base and suffix.",["tokenize.c"],["convert_pp_int","convert_pp_number"])
p("C05","Character constants and string literals encode exactly the characters written",
"For every sequence of source characters and escape sequences, a character constant has the value, and a string literal has the bytes, length, element type and terminator that its prefix (none, u8, u, U, L) prescribes, including multi-byte UTF-8 sources, surrogate pairs, octal/hex/universal escapes and concatenation of adjacent literals.",
["inputs"],"all byte values / code points in each position of short literals, for each prefix","Tests contain fixed literals; escapes and encodings have boundaries at every UTF length and digit count.",["tokenize.c","unicode.c","parse.c","codegen.c"],["read_escaped_char","read_string_literal","read_utf16_string_literal","encode_utf8","decode_utf8"])
p("C06","Conditional inclusion selects exactly the groups whose condition is true",
"For every controlling expression made of integer and character constants, defined tests and macros, #if/#elif evaluate it in 64-bit signed/unsigned arithmetic as C prescribes, and exactly the first group with a true condition (or #else) is processed, with nested skipped groups ignored. Directives inside skipped groups have no effect.",
["inputs","programs"],"all values of the constants in the expression and all presence/definedness combinations of bounded nesting",W+"preprocessor arithmetic shares no oracle with run-time arithmetic and its corner values are untested.",["preprocess.c"],["eval_const_expr","skip_cond_incl","preprocess2"])
p("C07","Macro expansion follows the C replacement algorithm for every argument",
"For every set of short macro definitions and every invocation text, the token sequence produced by preprocessing is the one defined by the C replacement rules: argument pre-expansion, stringizing, pasting, variadic arguments, rescanning, and no re-expansion of a macro inside its own expansion.",
["inputs","programs"],"all choices of the symbolic characters in definitions and invocations (bounded lengths)","Tests contain fixed macro examples; interactions of hide-sets, placemarkers and empty arguments are combinatorial.",["preprocess.c"],["expand_macro","subst","paste","stringize","preprocess2"])
p("C08","Source text is split into tokens as C prescribes for every byte sequence",
"For every source text, line splices, comments, literals, identifiers, preprocessing numbers and longest-match punctuators are recognised as C prescribes and white space between tokens never changes the program; preprocessed output written with -E denotes the same token sequence that is compiled directly.",
["inputs"],"all byte strings of bounded length in several lexical contexts","Byte-level interactions (splice inside a token, comment openers inside literals, adjacent operators) are not enumerable by tests.",["tokenize.c","preprocess.c","main.c"],["tokenize","canonicalize_newline","remove_backslash_newline","print_tokens","read_punct"])
p("C09","Sizes, alignments and member offsets agree with the platform ABI",
"For every structure and union declaration, including bit-fields of any width, zero-width and unnamed bit-fields, packed and over-aligned members and nested aggregates, the size, alignment and offset of every member equal those mandated by the x86-64 System V ABI, so that separately compiled code can share the data.",
["programs"],"all bit-field widths, array lengths and alignments in a family of declarations (widths symbolic)","Layout bugs appear only for particular width/offset combinations; tests list a few.",["parse.c","type.c"],["struct_decl","union_decl","struct_members"])
p("C10","Bit-field reads and writes affect exactly their bits",
"For every bit-field width, position, signedness and stored value, writing a bit-field (by assignment, compound assignment, increment or initialization) stores the value modulo its width, leaves every other bit of the object unchanged and yields the stored value as the value of the expression, and reading it returns the value sign- or zero-extended.",
["inputs","programs"],"all previous contents of the object and all assigned values, with symbolic widths",W+"a clobbered neighbour or wrong extension depends on position, width and contents together.",["codegen.c","parse.c"],["gen_bitfield_load","gen_bitfield_store","assign"])
p("C11","Initializers produce the object contents C prescribes",
"For every initializer (nested and flattened braces, designators including overrides and ranges, strings, unions, bit-fields, compound literals, flexible array members, addresses of objects plus constants), a static object's emitted data and an automatic object's run-time contents equal the values C prescribes, and members not mentioned are zero.",
["inputs","programs"],"all values of the element initializers and designator indices","The value/offset combination of emitted data is only compared for a few fixed initializers.",["parse.c","codegen.c"],["initializer2","write_gvar_data","create_lvar_init","designation"])
p("C12","Calls interoperate with code compiled by the platform's other compilers",
"For every function signature and argument values, arguments and results (integers, _Bool, pointers, float, double, long double, structures and unions of every class and size, passed in registers or memory) are exchanged correctly between code compiled here and code compiled by another System V compiler, in both directions. Callee-saved registers, the stack pointer and x87/control state are preserved and the stack is 16-byte aligned at every call.",
["inputs","programs"],"all argument values over a family of signatures mixing register classes","ABI tests use a few signatures with one value each and cannot observe clobbered registers.",["codegen.c"],["gen_funcall","calling_convention","has_flonum","copy_ret_buffer","assign_lvar_offsets"])
p("C13","Variadic functions receive every argument in order",
"For every sequence of promoted argument types, a variadic function compiled here reads with va_arg exactly the values passed, in order, from register and overflow areas, for any number of named parameters, with va_copy'd and restarted lists independent, and for callers or callees compiled by another compiler.",
["inputs","programs"],"all argument values over type sequences that exhaust the register areas at every point","The switch between register save area and overflow area is hit at specific counts per class.",["codegen.c","parse.c","include/stdarg.h"],["gen_vaarg_reg_copy","va_arg_need_copy","prepare_funcall"])
p("C14","Floating-point expressions apply the IEEE operation in the right type",
"For every float, double and long double operand, including zeros, infinities, NaNs and subnormals, arithmetic, negation, comparison, logical tests, conditional expressions and assignment apply the operation of the promoted type to the right operands in the right order, with C's results for unordered comparisons.",
["inputs"],"all bit patterns of the operands (operations abstracted as uninterpreted where IEEE semantics is the processor's)","NaN, signed zero and operand-order mistakes need specific bit patterns.",["codegen.c"],["gen_expr","load_fval","load","store"])
p("C15","Conversions between numeric types produce the C result for every value",
"For every pair of arithmetic types and every source value whose conversion C defines, casts, assignments, argument passing and returns convert exactly: integers truncate or extend, floating to integer truncates toward zero over the full range of the target type, integer to floating rounds to nearest, and conversion to bool tests against zero.",
["inputs"],"all bit patterns of the source value for all ordered pairs of arithmetic types",W+"conversion helpers go wrong only in sub-ranges (above 2^31, above 2^63, negative, halfway cases).",["codegen.c","parse.c"],["cast","cast_table","eval_double"])
p("C16","Control statements transfer control exactly as written",
"For every value of the controlling expressions, if, switch (including case ranges, 64-bit and negative labels, default in any position and fallthrough), loops, break/continue (also labelled), goto, computed goto and return reach exactly the statements C prescribes, the prescribed number of times.",
["inputs","programs"],"all values of scrutinees and of case labels/ranges; loops up to a stated bound","Dispatch depends on comparisons of label values with the scrutinee in its promoted type.",["codegen.c","parse.c"],["gen_stmt","gen_cond","stmt"])
p("C17","Operands are evaluated exactly once and only when required",
"In every expression each side effect happens exactly once, operands guarded by &&, ||, ?: happen only when selected, sequenced operations happen in order, the left side of compound assignments and increments is evaluated once, and operands of sizeof, typeof, _Generic selections not chosen and constant conditions are not evaluated.",
["inputs","programs"],"all values deciding the short-circuits, over expression templates with observable side effects","Double evaluation or a skipped side effect changes results only for particular operand values or nesting.",["parse.c","codegen.c"],["to_assign","gen_cond","new_inc_dec"])
p("C18","Scope-exit actions run exactly once, in reverse order, on every exit path",
"On every path that leaves a scope (falling off the end, break, continue, goto, return, labelled jumps, switch fallthrough), each cleanup function and deferred statement registered so far runs exactly once in reverse order, before the storage of variable-length arrays of that scope is released, and the value being returned is not disturbed.",
["inputs","programs"],"all values of the conditions choosing the exit path","The number of exit paths is exponential in the conditions; tests walk a few.",["parse.c","codegen.c"],["gen_defr","loop_body","new_defr"])
p("C19","Values held across sub-expressions and calls survive",
"However deeply an expression nests and whatever calls, conversions, aggregate copies, variable-length arrays or stack allocations occur inside it, every intermediate value, parameter and local variable keeps its value until it is used, and distinct live objects never share storage.",
["inputs","programs"],"all operand values over nesting shapes that exceed the register file and interleave register classes","Spilling starts only beyond the number of temporaries; which slot is overwritten depends on shape.",["codegen.c","parse.c"],["push_tmpstack","pop_tmpstack","assign_lvar_offsets"])
p("C20","Atomic operations are indivisible under any interference",
"For every operand value and every change another thread makes to the object between the instructions, atomic load, store, exchange, compare-and-swap, fetch-and-op, increment, decrement and compound assignment on atomic objects take effect as a single step on the current value, return the value C prescribes and never lose an update.",
["inputs","schedules"],"all operand values and all interfering writes between instructions, up to a bound of retries","Tests run without a conflicting writer at the critical instruction.",["codegen.c","parse.c","include/stdatomic.h"],["gen_expr","to_assign"])
p("C21","Addresses of elements and members are computed correctly",
"For every index, offset and pointer value within an object, array subscripts, pointer addition, subtraction and comparison, member access through any nesting, multi-dimensional and variable-length arrays, sizeof of variable-length types and aggregate assignment access exactly the designated bytes.",
["inputs","programs"],"all in-bounds index values and all lengths up to a stated bound","Scaling and sign-extension of indices go wrong for particular index types and element sizes.",["parse.c","codegen.c"],["new_add","new_sub","gen_addr","gen_mem_copy"])
p("C22","Compiling any input ends in success or a diagnostic, never in a crash",
"For every byte sequence given as source text, the compiler terminates with either success or an error message and a failing status; it never reads or writes outside its objects, dereferences null, uses freed memory, divides by zero or recurses without bound on short inputs.",
["inputs"],"all byte strings of bounded length placed at sensitive points of source files","The space of malformed inputs cannot be sampled meaningfully; most crashes need a specific byte at end of input.",["tokenize.c","preprocess.c","parse.c","unicode.c","strings.c"],["tokenize","preprocess","parse"])
p("C23","A success status means every requested output was completely produced",
"Whatever file operation or child process fails and at whatever point, the compiler driver exits with a non-zero status unless every output it was asked for has been written completely; temporary files are removed and an input that cannot be read is an error.",
["fault_sequences","crash_points"],"every position of a failing operation in the run, every child exit status","Tests run on a healthy file system with successful tools.",["main.c","tokenize.c","preprocess.c","platform/linux-glibc-generic.c"],["run_subprocess","open_file","cc1","print_tokens","read_file"])
p("C24","Dependency output lists exactly the files read, readable by make",
"The dependency rules written by the -M family name the requested target and exactly the source and header files that were read (user headers only for -MM/-MMD), each once, escaped so that make reads back the same names, with -MP, -MT, -MQ and -MF honoured in any combination.",
["inputs","configurations"],"all file-name characters and option combinations (bounded lengths)","Escaping depends on each character of the name; tests use plain names.",["main.c"],["print_dependencies","quote_makefile"])
p("C25","Inline assembly sees its operands where the constraints say",
"For every operand value, an extended asm statement receives each input in a location allowed by its constraint, its outputs are stored to the designated lvalues, tied and read-write operands share a location, operands do not overlap illegally, and declared clobbers and callee-saved registers do not corrupt any other live value.",
["inputs","programs"],"all operand values over constraint combinations","Corruption shows only for particular constraint mixes.",["codegen.c","parse.c"],["gen_asm","asm_stmt"])
p("C26","Code generation options do not change program behaviour",
"For every input value, a program behaves the same when compiled as position-dependent or position-independent code, at any accepted optimisation level, with or without stack reuse, function/data sections and common symbols, including thread-local, weak, static and external objects and functions.",
["inputs","configurations"],"all input values times the option combinations","The suite runs with one option set.",["codegen.c","main.c"],["gen_addr","emit_data","assign_lvar_offsets"])
p("C27","Line numbers reported to the program match the source",
"After any combination of line splices, comments, blank lines, directives and #line, __LINE__ and __FILE__ denote the presumed line and file of the token.",
["inputs"],"all byte choices (newline, splice, blank, comment) in bounded prefixes","Off-by-one drift needs a particular mix of splices and comments before the use.",["tokenize.c","preprocess.c","main.c"],["add_line_numbers","line_macro","read_line_marker"])
p("C28","Every name resolves to its latest visible definition",
"After any history of definitions, redefinitions and removals of names, looking a name up finds exactly its latest definition still in force, or nothing, no matter how names collide or how many there are; storage handed out for distinct objects of the compiler never overlaps.",
["histories","inputs"],"all histories of bounded length over symbolic names","Collisions, tombstones and growth interact only in particular histories.",["hashmap.c","alloc.c","preprocess.c"],["hashmap_get2","hashmap_put2","hashmap_delete2","arena_malloc"])
p("C29","Every expression has the type C prescribes",
"For every combination of operand types and literal values, integer promotion, the usual arithmetic conversions, pointer, array and function conversion, conditional operators, shifts, casts, typeof, auto and _Generic selection determine the type C prescribes, as observed through selection, size and signedness.",
["programs","inputs"],"all pairs of arithmetic types and operators; all literal values","The pairwise type matrix with operators is larger than the sampled tests.",["type.c","parse.c"],["add_type","get_common_type","usual_arith_conv","generic_selection"])
p("C30","The output does not depend on how much memory compilation has used",
"The compiler frees tokens and syntax trees early once its resident size is large; whatever that size is when it is measured, the compiler writes the same output with the same status and never uses storage it has given back.",
["inputs","configurations"],"all resident sizes, over the repository's test programs and own programs with symbolic bytes","The test suite's programs are small, so the reclaiming mode never runs in an ordinary build.",["alloc.c","preprocess.c","parse.c"],["check_mem_usage","preprocess","free_parsed_tok","arena_off"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
