#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vp import registry

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, observe=observe, technique=technique, note=note))


PBT = 'property-based testing: '
prop('C01', 'Integer expressions compute the values C defines',
     'A program compiled by wcc computes, for every expression without undefined behaviour over the signed and unsigned integer types char, short, int and long, '
     'the value C defines on x86-64 Linux: operator precedence, integer promotions, the usual arithmetic conversions, truncation and sign extension, '
     'shifts, division and modulus, comparisons, short circuit and ternary operators, assignments and ++/--. '
     'This holds whether operands are constants, locals, globals, pointer targets, struct members, array elements, parameters or call results, and whatever the values are.',
     ['programs', 'inputs'], 'all well defined integer expression trees, all operand storage kinds, all operand values',
     'The tests sample a few hundred fixed expressions; miscompilations sit in combinations of operand type, storage, constant value and neighbouring expression.',
     ['parser.c', 'constexpr.c', 'ssa.c', 'instrrules.c', 'instrsel.c', 'codegen.c'],
     [('usual arithmetic conversions', 'types.c operation_type, parser.c arithmetic_operation'), ('arithmetic simplification', 'ssa.c optimize_arithmetic_operations'), ('tiling by instruction rules', 'instrrules.c, instrsel.c')],
     ['exit and output of the compiled program'],
     PBT + 'random expression programs run against a reference evaluator and gcc',
     'Exploration: about 40 000 (quick) to several million (thorough) generated expressions per run, each compared with a Python model of C integer arithmetic that must itself agree with gcc. Trusts gcc as the assembler and linker.')
prop('C02', 'Floating point expressions and conversions follow IEEE 754',
     'A program compiled by wcc computes, for every expression over float, double and long double (alone, mixed with each other and with integer types), the IEEE 754 result in the type C defines: '
     'arithmetic, comparisons with NaN, infinities and signed zeros, conversions in both directions between all arithmetic types, '
     'increments, compound assignments, and floating point constants rounded to their type.',
     ['programs', 'inputs'], 'all well defined expressions with floating point operands, all operand values and storage kinds',
     'The tests use small friendly values; rounding, NaN, large unsigned values, spilled operands and mixed widths need generated combinations.',
     ['parser.c', 'constexpr.c', 'ssa.c', 'instrrules.c', 'codegen.c', 'lexer.c'],
     [('type conversion moves', 'instrrules.c add_float_and_double_move_rules, add_long_double_move_rules'), ('constant handling', 'constexpr.c')],
     ['exit and output of the compiled program'],
     PBT + 'random expression programs compared bit for bit with gcc',
     'Exploration: generated programs run after compilation by wcc and gcc -O0; a mismatch counts only if gcc -O2, clang and the sanitizers confirm the program is well defined.')
prop('C03', 'Control flow executes exactly as C defines',
     'In a program compiled by wcc, if/else, for, while, do, switch with fall through and default, break, continue, goto and labels, return, the comma operator, && || and ?: '
     'execute exactly the statements C says, in the order C says, in any nesting. Variables keep their values along every path through loops, joins and gotos.',
     ['programs', 'inputs'], 'all terminating programs over these statements, any nesting',
     'The tests contain a few hand written nestings; SSA construction, liveness and register allocation depend on the whole control flow graph.',
     ['parser.c', 'ssa.c', 'regalloc.c', 'ir.c'],
     [('control flow graph, dominance, phi functions', 'ssa.c'), ('statement parsing', 'parser.c parse_statement')],
     ['output of the compiled program'],
     PBT + 'random structured and goto programs, trace compared with a reference interpreter and gcc',
     'Exploration: each generated function logs a trace of the statements it executes; the trace must equal gcc\'s.')
prop('C04', 'Structs, unions, arrays and pointers behave as objects in memory',
     'In a program compiled by wcc, copying, assigning, passing and returning structs and unions of any size and layout moves exactly their value and no byte beyond it; '
     'pointer arithmetic, subtraction, comparison and indexing, nested member access and addresses of members and elements, including function pointers and multi dimensional arrays, '
     'designate the objects C says, and every store changes only the designated object.',
     ['programs', 'inputs'], 'all well defined programs over nested aggregates, arrays and pointers',
     'Sizes, alignments, nesting and storage combine without bound; tests fix a handful of layouts.',
     ['parser.c', 'types.c', 'functions.c', 'instrrules.c', 'codegen.c'],
     [('memory copy', 'functions.c add_memory_copy'), ('address computation', 'parser.c, ir.c, instrrules.c'), ('layout', 'types.c')],
     ['output of the compiled program, bytes of objects and of guard objects around them'],
     PBT + 'random aggregate programs compared with gcc, memory images with guards',
     'Exploration: generated type trees and operation sequences; results and memory images compared with gcc, with sanitizer confirmation that the program is well defined.')
prop('C05', 'Bit-fields store and load exactly their own bits',
     'In a program compiled by wcc, a bit-field of any width, signedness and position (packed, crossing storage units, zero width, unnamed, in unions) '
     'reads back the value last stored converted to its width and signedness, under plain and compound assignment, ++/-- and initialisation, and a store to it changes no bit of any other member. '
     'Layout and bit positions are those of the System V ABI.',
     ['programs', 'inputs', 'histories'], 'all bit-field layouts and sequences of stores and loads',
     'Every (offset, width, type, neighbour, value) combination uses its own shift and mask; tests fix a few.',
     ['parser.c', 'types.c', 'instrrules.c', 'codegen.c'],
     [('bit field load and store', 'parser.c, ir.c bit field functions'), ('layout', 'types.c')],
     ['values read back and bytes of the struct'],
     PBT + 'random bit-field layouts and store histories compared with a bit level model and gcc',
     'Exploration: layouts and operation histories are generated; values and raw bytes are compared with gcc after every step.')
prop('C06', 'Initializers give objects exactly the specified contents',
     'An object initialised in a program compiled by wcc has the contents C specifies: scalars, strings, nested braces with and without brace elision, unions, bit-fields, '
     'arrays with deduced size, address constants with offsets and casts, at file scope, static and automatic storage; everything not mentioned is zero.',
     ['programs'], 'all types and valid initializers for them',
     'Initializer shape times type shape is unbounded; the tests hold some tens of shapes.',
     ['parser.c', 'types.c', 'codegen.c', 'constexpr.c'],
     [('initializer walking', 'types.c TypeIterator, parser.c parse_initializer'), ('static data output', 'codegen.c')],
     ['bytes of the initialised object'],
     PBT + 'random type/initializer pairs, memory image compared with gcc',
     'Exploration: generated types and initializers; values of all leaves (and where there is no padding, raw bytes) are compared with gcc.')
prop('C07', 'Calls follow the System V ABI in both directions',
     'Functions compiled by wcc and functions compiled by gcc call each other with any parameter and return types (all scalars, structs and unions of any composition, function pointers, old style and prototyped declarations, any number of arguments) '
     'and every argument and return value arrives unchanged. A call keeps the callee saved registers and the stack pointer, and the stack is 16 byte aligned at every call.',
     ['programs', 'inputs'], 'all function signatures in both directions, any nesting of calls in arguments',
     'Parameter classification has unbounded many combinations; tests cover a fixed list and mostly call wcc code from wcc code.',
     ['functions.c', 'codegen.c', 'types.c', 'parser.c'],
     [('parameter allocation and classification', 'functions.c'), ('argument moves', 'functions.c add_function_call_arg_moves'), ('stack alignment', 'codegen.c')],
     ['values seen by the other side; registers and stack checked by a gcc compiled caller'],
     PBT + 'random signatures, one side wcc and the other gcc, both directions',
     'Exploration: generated signatures and values are linked across compilers; the callee checks every byte of every argument.')
prop('C08', 'Variadic functions receive every argument unchanged',
     'A variadic function compiled by wcc reads through va_start, va_arg, va_copy and va_end, and through passing its va_list on to other functions, every argument of integer, pointer, floating point, long double, struct and union type in order and unchanged, '
     'whatever the number of named and variable arguments; variadic calls made by wcc code deliver their arguments unchanged to functions compiled by gcc.',
     ['programs', 'inputs'], 'all sequences of argument types and named parameter lists',
     'Register and overflow areas interact with the mix of preceding arguments.',
     ['functions.c', 'parser.c', 'codegen.c', 'include/stdarg.h', 'internals.c'],
     [('va_arg', 'functions.c, parser.c'), ('register save area', 'functions.c')],
     ['values read by the callee'],
     PBT + 'random argument lists in wcc/gcc mixed programs',
     'Exploration: generated argument lists, wcc and gcc on each side.')
prop('C09', 'Optimisations and register pressure never change program behaviour',
     'A program without undefined behaviour compiled by wcc behaves the same with every combination of the optimisation and code generation options of the command line, '
     'however many values are live at once: spilling, coalescing, instruction selection and arithmetic simplification are invisible.',
     ['programs', 'configurations'], 'all programs times all option sets',
     'Tests use the default options and rarely more live values than registers.',
     ['ssa.c', 'regalloc.c', 'instrsel.c', 'instrrules.c', 'wcc.c', 'main.c'],
     [('register allocation and spilling', 'regalloc.c, instrsel.c add_spill_code'), ('instruction selection', 'instrsel.c'), ('options', 'main.c')],
     ['output of the compiled program under each option set'],
     PBT + 'metamorphic: one generated program under many option sets, and gcc',
     'Exploration: high register pressure programs of all operations under random option sets must print what gcc prints.')
prop('C10', 'Constant expressions equal the same expression at run time',
     'Wherever C requires or allows a constant expression (array sizes, enum values, case labels, bit-field widths, static initializers, _Static_assert style sizes, #if) wcc gives it the value that the same expression has at run time under C\'s types and conversions, '
     'including sizeof, casts and enumeration constants.',
     ['programs', 'inputs'], 'all well defined constant expressions',
     'Constants are evaluated by separate code from run time expressions; tests compare a few.',
     ['constexpr.c', 'parser.c', 'cpp.c'],
     [('constant evaluation', 'constexpr.c')],
     ['value of the constant in the compiled program'],
     PBT + 'random constant expressions in every constant context against a reference evaluator',
     'Exploration: each expression is placed in several constant contexts and compared with the Python reference model.')
prop('C11', 'Macro expansion follows the standard algorithm',
     'wcc -E produces for every input the token sequence the C standard defines for object-like, function-like and variadic-free macros: argument pre-expansion, # and ##, rescanning, no recursive expansion, '
     'redefinition and #undef, nested and multi-line invocations, and -D definitions on the command line.',
     ['inputs', 'programs'], 'all sets of macro definitions and texts',
     'Expansion order, hide sets, stringizing and pasting interact recursively; tests hold the standard\'s examples.',
     ['cpp.c', 'lexer.c'],
     [('expand with hide sets (Dave Prosser)', 'cpp.c')],
     ['tokens printed by -E'],
     PBT + 'random macro sets, token stream compared with gcc -E and a reference expander',
     'Exploration: token sequences (not spacing) compared with gcc -E and clang -E.')
prop('C12', 'Conditional inclusion and #include select exactly the right text',
     'wcc keeps exactly the groups that the standard selects for nested #if, #ifdef, #ifndef, #elif, #else and #endif, evaluating #if expressions with defined, macros, all operators and signed/unsigned intmax arithmetic, ignoring directives in skipped groups except for nesting, '
     'and #include inserts the file found by searching the including file\'s directory, -I paths in order and the system paths.',
     ['inputs'], 'all nestings of conditionals, expressions and include trees',
     'Nesting and evaluation combine without bound.',
     ['cpp.c', 'constexpr.c', 'main.c'],
     [('directives', 'cpp.c'), ('include search', 'cpp.c')],
     ['tokens printed by -E'],
     PBT + 'random conditional and include trees against a reference model and gcc -E',
     'Exploration: generated directive trees; the surviving text is predicted by construction and compared with gcc -E.')
prop('C13', 'Source positions are tracked exactly',
     '__LINE__, __FILE__, the line markers of -E and the file and line of every diagnostic are those of the original source, through comments, line continuations, blank lines, multi-line macro invocations, skipped groups, #include and #line.',
     ['inputs'], 'all arrangements of lines, comments, continuations, includes and #line directives',
     'Tests compare a few fixed files.',
     ['cpp.c', 'lexer.c', 'error.c'],
     [('line map and line number bookkeeping', 'cpp.c'), ('line markers', 'cpp.c, lexer.c')],
     ['value of __LINE__/__FILE__, diagnostics, markers in -E output'],
     PBT + 'random source layouts with known true positions',
     'Exploration: positions are known by construction and confirmed with gcc.')
prop('C14', 'Preprocessing separately changes nothing',
     'Compiling the output of wcc -E gives the same code as compiling the source directly, and preprocessing that output again gives the same tokens.',
     ['programs', 'inputs'], 'all source files',
     'It relates two runs over arbitrary input; tests run it on ten files.',
     ['cpp.c', 'lexer.c', 'main.c'],
     [('-E output rendering', 'cpp.c')],
     ['assembly text, -E output'],
     PBT + 'metamorphic relation over generated programs with macros and odd spacing',
     'Exploration: assembly from both routes is compared literally, token streams for idempotence.')
prop('C15', 'Literals have the value and type C gives them',
     'Every integer, floating, character, string and wide literal, with any suffix, base, escape sequence, adjacent concatenation, trigraph and length, has the value, type and size C gives it in a program compiled by wcc.',
     ['inputs'], 'all literals',
     'The space of spellings and boundary values is unbounded.',
     ['lexer.c', 'cpp.c', 'parser.c', 'codegen.c'],
     [('literal scanning', 'lexer.c'), ('string output', 'codegen.c')],
     ['values, sizeof and bytes in the compiled program'],
     PBT + 'random literals against a reference model and gcc',
     'Exploration.')
prop('C16', 'Invalid programs are rejected with a located diagnostic',
     'When a program violates a rule that wcc diagnoses (syntax, undeclared names, type and operand constraints, lvalues, redeclarations, misplaced statements, malformed preprocessor directives), wcc prints a diagnostic with the file and line of the violation and exits with a nonzero status without leaving an output file, wherever in the program the violation is; '
     'and no valid program is rejected.',
     ['programs'], 'all valid programs with one injected violation, and all valid programs',
     'tests/integration/test-errors.c has about 80 one-line programs; the rules hold for every combination of operand types and at every place of a program, over macros and headers.',
     ['parser.c', 'types.c', 'cpp.c', 'lexer.c', 'error.c', 'main.c', 'scopes.c'],
     [('operand checks', 'parser.c check_*'), ('error reporting', 'error.c')],
     ['exit status, stderr, files left behind'],
     PBT + 'mutation: valid generated programs with injected violations of known line',
     'Exploration: rejected with the right line when broken, accepted when not.')
prop('C17', 'No input makes the compiler misbehave',
     'For every input file and option set, wcc ends by itself with success or with a diagnostic: it never crashes, corrupts memory, reads outside its buffers, or runs without end.',
     ['inputs', 'configurations'], 'all byte strings as input',
     'Tests only feed well formed programs.',
     ['lexer.c', 'cpp.c', 'parser.c', 'memory.c', 'main.c', 'ssa.c'],
     [('error exits', 'error.c'), ('buffers', 'lexer.c, cpp.c')],
     ['exit status and sanitizer reports of an instrumented compiler'],
     'fuzzing: structure-aware mutation of programs through an ASan and UBSan build of wcc',
     'Exploration with a sanitizer build; known findings are excluded by construction.')
prop('C18', 'The compiler frees everything it allocates',
     'For every program it compiles or preprocesses, with any options, wcc frees all memory it allocated through its own allocator before it exits, as --fail-on-leaked-memory reports.',
     ['programs', 'configurations'], 'all valid programs and options',
     'Tests run the leak check on the test sources only.',
     ['memory.c', 'wcc.c', 'parser.c', 'cpp.c', 'ssa.c', 'types.c', 'main.c'],
     [('allocation accounting', 'memory.c, wcc.c')],
     ['exit status with --fail-on-leaked-memory'],
     PBT + 'generated programs of all language features under the leak check',
     'Exploration.')
prop('C19', 'Compilation is deterministic and translation units are independent',
     'Compiling the same file with the same options gives the same output every time, whatever the environment, output name or other files on the command line; compiling several files in one invocation gives for each the same result as compiling it alone, in any order.',
     ['programs', 'configurations', 'histories'], 'all sets and orders of source files',
     'Tests compile one file per run; global state left from one unit only shows in the next.',
     ['main.c', 'wcc.c', 'parser.c', 'cpp.c', 'codegen.c', 'types.c'],
     [('per unit initialisation', 'wcc.c, init functions')],
     ['assembly text, object code'],
     PBT + 'metamorphic: random file sets, orders and environments',
     'Exploration: literal comparison of assembly.')
prop('C20', 'The driver does what its options say',
     'wcc takes any order of its options and input files; -E, -S, -c and linking write exactly the requested output to the requested place, -o, -D, -I, -l, -g and the others have their documented effect, failures in any step are reported by the exit status, temporary files are removed, and input files are never modified.',
     ['configurations', 'inputs'], 'all combinations of options and input kinds',
     'Tests use a few fixed command lines.',
     ['main.c', 'wcc.c'],
     [('option parsing and running the assembler and linker', 'main.c')],
     ['files created, exit status'],
     PBT + 'random command lines against a model of the driver',
     'Exploration in a scratch directory.')
prop('C21', 'Names denote the right object across scopes and files',
     'In programs compiled by wcc every identifier denotes the object, function, type, tag, member, enum constant or label that C\'s scope, name space, linkage and tentative definition rules say, within nested scopes and across translation units, including static, extern, shared libraries and position independent code.',
     ['programs', 'configurations'], 'all nestings of declarations and sets of translation units',
     'Shadowing and linkage combine; tests hold a few.',
     ['scopes.c', 'parser.c', 'codegen.c', 'types.c'],
     [('scopes', 'scopes.c'), ('symbol output', 'codegen.c')],
     ['output of the linked program; symbol table of the object'],
     PBT + 'random scope trees and multi-file programs with unique values per declaration',
     'Exploration: each declaration carries its own value so that a use shows which one it reached; compared with gcc.')
prop('C22', 'The container types behave as sets, maps, lists and stacks',
     'For every sequence of operations, the compiler\'s set, long set, long map, string map, string set, list, stack and graph types return what the mathematical structure they implement would, including iteration, copying, set algebra and growth.',
     ['histories'], 'all operation sequences',
     'Unit tests hold a fixed short sequence each.',
     ['set.c', 'longset.c', 'longmap.c', 'strmap.c', 'strset.c', 'list.c', 'stack.c', 'graph.c'],
     [('open addressing hash tables', 'longmap.c, strmap.c')],
     ['return values of the operations'],
     'stateful model-based property testing against reference containers under ASan',
     'Exploration: random operation histories, shrunk on failure.')
prop('C23', 'Types have the size, alignment and layout of the ABI',
     'For every declaration wcc accepts, sizeof, alignment, member offsets and the meaning of the declarator (pointers, arrays, functions, qualifiers, typedefs, enums, nested structs and unions, packed and aligned attributes, in any combination) are those of the System V ABI and C.',
     ['programs'], 'all declarators and aggregate types',
     'Type shapes are unbounded.',
     ['types.c', 'parser.c'],
     [('layout', 'types.c'), ('declarators', 'parser.c parse_declarator')],
     ['sizes and offsets in compiled programs'],
     PBT + 'random types compared with gcc',
     'Exploration.')
prop('C24', 'Control flow and dataflow analyses are exact',
     'For every function, dominators, dominance frontiers, liveness, phi placement, renaming and the register assignment satisfy their definitions: two values live at the same time never share a register or stack slot.',
     ['programs'], 'all control flow graphs',
     'Unit tests use the textbook graphs.',
     ['ssa.c', 'regalloc.c', 'graph.c', 'set.c', 'longset.c'],
     [('dominance, liveness, phi insertion', 'ssa.c'), ('allocation', 'regalloc.c')],
     ['analysis results on generated control flow graphs'],
     'property-based testing of the analyses against brute force on random control flow graphs',
     'Exploration: random IR graphs up to tens of blocks, brute force oracles.')
prop('C25', 'The compiler compiled by itself is the same compiler',
     'wcc compiled by wcc gives, for every input and option set, exactly the output, diagnostics and exit status that wcc compiled by gcc gives.',
     ['programs', 'inputs'], 'all inputs',
     'The tests rerun the same test programs with the self-compiled compiler.',
     ['main.c', 'wcc.c', 'parser.c', 'cpp.c', 'codegen.c', 'instrsel.c', 'ssa.c'],
     [('bootstrap', 'Makefile wcc2')],
     ['assembly, -E output, diagnostics of both compilers'],
     PBT + 'differential: gcc built and self built compiler over generated and mutated inputs',
     'Exploration: the outputs must be byte for byte equal.')
prop('C26', 'Debug information changes no code and maps code to the right lines',
     'Compiling with -g generates the same instructions as without it, and the line table gives for each address the file and line of the statement it was compiled from; programs behave identically and debuggers can read the information.',
     ['programs', 'configurations'], 'all programs',
     'Tests do not look at debug information.',
     ['codegen.c', 'parser.c', 'main.c'],
     [('.loc and DWARF output', 'codegen.c')],
     ['objdump and readelf of objects with and without -g'],
     PBT + 'metamorphic with/without -g, decoded line tables of generated layouts',
     'Exploration.')
prop('C27', 'Source translation phases are handled everywhere',
     'Line splices, comments, trigraphs (with --trigraphs), tabs, form feeds, missing final newlines, CRLF-free arbitrary spacing and very long lines or tokens can be put between any two tokens (splices anywhere) without changing the meaning of the program.',
     ['inputs'], 'all placements of splices, comments and whitespace in all programs',
     'Tests place a few.',
     ['cpp.c', 'lexer.c'],
     [('translation phases', 'cpp.c')],
     ['assembly of the program with and without the insertions'],
     PBT + 'metamorphic: random insertions into programs leave the generated code unchanged',
     'Exploration: literal comparison of the assembly.')


def main():
    done = set(registry.MODULES)
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps({
                'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mechanism']],
                            'observe_at': p['observe'], 'hook_needed': None}}) + '\n')
            assert len(p['title']) <= 80
    m = {'version': 1, 'setup_cmd': 'python3 setup.py',
         'checks': [], 'not_applicable': [],
         'notes': 'No hooks: every check observes the compiler through its command line or through the public functions of its library.'}
    for p in P:
        if p['id'] in done:
            m['checks'].append({'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'],
                                'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                                'evidence_file': 'evidence/%s.json' % p['id'],
                                'technique': p['technique'], 'level': 'exploration', 'level_note': p['note']})
        else:
            m['not_applicable'].append({'property': p['id'], 'reason': 'the family applies, but the check is not finished; nothing is claimed for it yet'})
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)


main()
