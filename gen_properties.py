#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}
    if state:
        a['state'] = [{'name': x} for x in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


C = 'compiler/x1algc.c'
OUT = ['standard output, standard error and exit status of x1sim']

prop('P01', 'Expressions evaluate as Algol 60 defines',
     'Every arithmetic, relational, boolean and conditional expression yields the value and type that the Algol 60 rules of '
     'precedence, left association, operand types and implicit integer/real conversion give it, computed with 27-bit integers and '
     '40-bit-mantissa reals rounded to nearest. Redundant parentheses and layout never change the result.',
     ['programs', 'inputs'], 'all well-typed expressions, all operand values',
     'Unit tests evaluate a few dozen fixed expressions; operator nesting, mixed types and value combinations multiply beyond any hand-written list.',
     [C, 'simulator/opcodes.cpp', 'simulator/virtual_stack.cpp'],
     [('operator-precedence translation', 'compiler/x1algc.c: production_of_object_program, unload_t_list_element'),
      ('run-time arithmetic', 'simulator/virtual_stack.cpp: Stack_Cell::add/subtract/multiply/divide/exponentiate, is_less, is_equal')],
     ['evaluation stack'], OUT)

prop('P02', 'A variable means the same wherever it is stored and however reached',
     'The value of an expression and the effect of an assignment do not depend on whether an operand is a constant, a variable of the outermost block, '
     'of an inner block or of an enclosing procedure, a value or name parameter, an array element or a function result. Assigning to one variable '
     'changes that variable and no other, in whatever order they are declared.',
     ['programs'], 'all operators, both operand positions, all storage classes at all nesting levels, all assignment forms',
     'Each storage class uses its own run-time operation (static, dynamic, formal, stacked); tests sample single combinations.',
     [C, 'simulator/opcodes.cpp', 'simulator/processor.cpp'],
     [('operand-specific operations', 'simulator/opcodes.cpp: xxRD/xxRS/xxID/xxIS/xxF, TRRD.., TFR, ST, STA'),
      ('address formation', 'simulator/processor.cpp: address_in_stack, arg_address, load_value, store_value')],
     ['static store', 'run-time stack', 'display'], OUT)

prop('P03', 'Numbers out of range are never silently wrong',
     'An operation, conversion or assignment whose exact integer result fits in 27-bit one\'s complement gives exactly that integer; if it does not fit, the program '
     'either continues with a correctly rounded real value where the language yields a real (integer multiplication) or stops with an error message and failing exit status. '
     'Assigning a real to an integer variable stores the nearest integer or stops with an error, and the same holds for real overflow, division by zero and undefined powers.',
     ['inputs', 'programs'], 'all operand values, in particular those around 0, 1, 2^13, 2^26, 2^31, 2^32 and the ends of the real range',
     'Wrap-around only shows at particular magnitudes and operator/operand-class combinations.',
     ['simulator/virtual_stack.cpp', 'simulator/opcodes.cpp', 'simulator/processor.cpp', 'simulator/x1_arch.cpp'],
     [('integer range check', 'simulator/x1_arch.cpp: integer_to_x1, ieee_to_x1'),
      ('power', 'simulator/virtual_stack.cpp: exponentiate_int, exponentiate_real'),
      ('conversion on store', 'simulator/processor.cpp: store_value; simulator/opcodes.cpp: entier, ÷')],
     None, OUT)

prop('P04', 'Machine number formats round-trip exactly',
     'Converting any integer or real machine word pattern to a host number and back gives the same normalized number; converting any host number gives the nearest '
     'representable machine real, zero on underflow and an error on overflow, and negation and absolute value act on the one\'s-complement patterns accordingly.',
     ['inputs'], 'all 2^27 integer words; all signs and exponents with all boundary mantissas of reals',
     'Tests check a handful of constants; rounding carries, exponent limits and signed zeros are corner cases of a 2^54 space.',
     ['simulator/x1_arch.cpp', 'simulator/x1_arch.h'],
     [('conversion', 'simulator/x1_arch.cpp: ieee_to_x1, x1_to_ieee, integer_to_x1, x1_to_integer')])

prop('P05', 'Numeric constants denote the number written',
     'Every unsigned number of the Algol 60 syntax in a source program denotes its mathematical value: integers up to 67108863 exactly as integers, '
     'all other nonzero constants as reals within one unit of the 40-bit mantissa, with a diagnostic instead of a wrong value when out of range. '
     'Equal constants are interchangeable and different constants are kept apart, however many a program contains.',
     ['programs', 'inputs'], 'all digit/point/exponent shapes up to a length, all magnitudes',
     'The decimal to binary conversion is hand-written integer arithmetic with per-digit scaling; its errors appear at particular digit strings.',
     [C], [('constant reader', 'compiler/x1algc.c: read_until_next_delimiter'), ('constant list', 'compiler/x1algc.c: production_of_object_program, KLI handling')],
     ['constant list'], OUT)

prop('P06', 'For statements run their body exactly as Algol 60 prescribes',
     'For every for list built from values, while elements and step-until elements (positive, negative, zero and fractional steps), in any order and nesting and with any kind of '
     'controlled variable, the body is executed with exactly the sequence of controlled-variable values that the Revised Report defines, and control then continues after the statement.',
     ['programs', 'inputs'], 'all for lists up to a length, all bounds and steps of a range, bodies that modify variables or leave the loop',
     'Tests run one loop of each kind; element interaction, empty ranges, step sign changes and nested/recursive use are combinatorial.',
     [C, 'simulator/opcodes.cpp'], [('for operations', 'simulator/opcodes.cpp: FOR0..FOR8'), ('for translation', 'compiler/x1algc.c: for list in production_of_object_program')],
     ['loop link and controlled variable on the stack'], OUT)

prop('P07', 'Jumps and conditionals transfer control to the right place and environment',
     'Conditional statements, labels, go to, switches and designational expressions select and reach exactly the statement Algol 60 defines. A jump out of any nesting of blocks, '
     'loops and (recursive) procedure calls restores precisely the variables and environment of the destination block.',
     ['programs', 'histories'], 'all control-flow graphs up to a size; all jump sources and targets over nested blocks, loops and activations',
     'The run-time display and stack must be unwound correctly for each nesting; tests hold a few examples.',
     [C, 'simulator/processor.cpp', 'simulator/opcodes.cpp'],
     [('go to adjustment', 'simulator/opcodes.cpp: GTA, SSI; simulator/processor.cpp: roll_back, frame_release, update_display'),
      ('label and switch translation', 'compiler/x1algc.c: goto, label declaration, switch declaration')],
     ['display', 'frame chain'], OUT)

prop('P08', 'Procedure calls follow the copy rule: by value, by name, recursion',
     'A name parameter re-evaluates its actual expression in the caller\'s environment at each use and assigns through to the caller\'s variable; a value parameter is evaluated once, '
     'converted to its type and private to the activation. Every activation, at any recursion depth and static nesting, has its own locals and sees the non-locals of its static environment, '
     'a function yields the value last assigned to its name, and an own variable or array is shared by all activations of its block and keeps its values between them.',
     ['programs', 'histories'], 'all parameter modes, actual expression forms, nesting levels and recursion patterns up to a bound',
     'Environment bugs need a particular combination of nesting level, recursion and thunk evaluation.',
     [C, 'simulator/processor.cpp', 'simulator/opcodes.cpp'],
     [('thunks', 'simulator/processor.cpp: take_formal, get_arg_display, apply_operation'), ('frames', 'simulator/processor.cpp: frame_create, frame_release, update_display, set_block_level'),
      ('descriptors', 'compiler/x1algc.c: actual parameters in production_of_object_program')],
     ['frames', 'display', 'post-operations of implicit subroutines'], OUT)

prop('P09', 'Parameters of every kind keep their meaning through any chain of calls',
     'Simple variables, expressions, arrays, labels, switches, strings, procedures and functions (user-defined or standard) passed as actual parameters denote the caller\'s entity with its own environment, '
     'even when a procedure passes its formal parameter on to further procedures through any number of levels, recursive or not.',
     ['programs', 'histories'], 'all parameter kinds x chain lengths x nesting of the defining environment',
     'Passed-on formals use separate descriptor kinds and environment look-ups that only interact in chains.',
     [C, 'simulator/processor.cpp'],
     [('formal procedures', 'simulator/processor.cpp: get_formal_proc; simulator/opcodes.cpp: FTMR, FTMP'), ('passing of formals', 'simulator/processor.cpp: take_formal case 006; compiler/x1algc.c: pass_formals')],
     ['frames', 'display'], OUT)

prop('P10', 'Array elements are distinct variables with checked addressing',
     'For any element type, number of dimensions and integer bounds, each subscript tuple within the bounds names its own element, holding the value last assigned to it and disturbed by nothing else; '
     'arrays declared together, in different blocks or activations, and value-array copies (converted to the formal\'s type) are disjoint. Subscripts are rounded to integers, and a one-dimensional subscript outside '
     'the bounds stops the program with an error.',
     ['programs', 'inputs'], 'all bounds, dimensions and subscripts in a box; static, local, parameter and value arrays',
     'Storage-function arithmetic has to hold for all bound combinations including negative and empty ones; tests use three arrays.',
     [C, 'simulator/opcodes.cpp', 'simulator/processor.cpp'],
     [('storage functions', 'simulator/processor.cpp: make_storage_function_frame, make_value_array_function_frame; compiler/x1algc.c: array declarations'),
      ('indexer', 'simulator/opcodes.cpp: IND, LAP, VAP')],
     ['array storage'], OUT)

prop('P11', 'Printed numbers are correctly rounded and laid out as documented',
     'print, FIXT, ABSFIXT and FLOT print each number with the documented sign, width, digits and spacing, the digits being the value correctly rounded to the last printed place (at least to 18 significant digits; ties either way); '
     'a number that does not fit the requested layout, or an illegal layout, is printed as FLOT(13,3,x) instead, never truncated or garbled.',
     ['inputs'], 'all layouts n, m and all values including ties, carries into a new digit and exponent limits',
     'Rounding carries and fallback limits occur only for particular value/layout pairs.',
     ['simulator/machine.cpp', 'simulator/opcodes.cpp', 'simulator/x1_arch.cpp'],
     [('layouts', 'simulator/machine.cpp: print_fixed_point, print_floating_point'), ('print', 'simulator/opcodes.cpp: OPC_print; simulator/x1_arch.cpp: x1_print_integer, x1_print_real')],
     None, OUT)

prop('P12', 'Input operations consume exactly the data and never invent any',
     'read returns the successive numbers of standard input (any decimal layout, exponent written e, E or ⏨), RESYM the successive symbols, and XEEN the switch setting masked by its argument, asked again only after stop. '
     'Malformed data and end of input are reported as an error (end of file as the documented code for RESYM), never as a value; at a terminal, malformed numbers and switch settings are skipped to the end of their line and asked for again.',
     ['inputs', 'histories'], 'all input byte strings over a small alphabet and all sequences of input operations up to a length',
     'Stream state (partial symbols, end of file, mixed operations) depends on the history of calls and input bytes.',
     ['simulator/input.cpp', 'simulator/opcodes.cpp', 'simulator/machine.cpp'],
     [('number input', 'simulator/input.cpp: input_real, ReplaceTenWithEStreamBuf'), ('symbol input', 'simulator/input.cpp: input_char'), ('switches', 'simulator/input.cpp: read_console_switches')],
     ['input stream', 'console switches'], OUT)

prop('P13', 'Equivalent source spellings compile to the same program',
     'Alternative representations of a symbol (Unicode or ASCII digraph, combining or preceding underline), any insertion of spaces, tabs, newlines outside strings, comments in all legal places, '
     'and consistent renaming of identifiers do not change the compiled program\'s behaviour.',
     ['programs'], 'every symbol with every spelling in every position of its context; every insertion point of layout and comments',
     'The scanner keeps one-symbol look-ahead state across the prescan and main scan; defects show only at particular adjacent symbols.',
     [C], [('scanner', 'compiler/x1algc.c: read_utf8_symbol, next_ALGOL_symbol, read_next_symbol, skip of comments')],
     ['scanner look-ahead, symbol store'], ['object program on standard output of x1algc', 'output of x1sim'])

prop('P14', 'Text passes through unchanged',
     'A string printed by a program is character for character the string in the source, including nested quotes, layout and every symbol of the character set, directly or through parameters of any depth; '
     'a symbol read with RESYM and written with PRSYM comes out as the same symbol, and the codes are those of the documented symbol table.',
     ['programs', 'inputs'], 'all strings over the full symbol alphabet up to a length, all symbol pairs, all lengths modulo the packing of three symbols per word',
     'Three symbols are packed per word and three tables (compiler, input, output) must agree; tests print five strings.',
     [C, 'simulator/encoding.cpp', 'simulator/input.cpp', 'library/printtext.src'],
     [('string packing', 'compiler/x1algc.c: string in production_of_object_program'), ('tables', 'simulator/encoding.cpp: algol_to_utf8; simulator/input.cpp: input_char; compiler/x1algc.c: ascii_table')],
     None, OUT)

prop('P15', 'The object library format reproduces every instruction',
     'Any procedure written in the library assembler\'s notation - every operation, constant, register and condition variant, every static, relative and run-time reference - is turned into a library tape '
     'from which the compiler reconstructs exactly the intended machine words at whatever address it loads the procedure, and the committed library tapes are the ones their sources produce.',
     ['programs'], 'all opcodes, all address classes and boundary addresses, all positions within the bit stream',
     'The tape is a variable-length bit stream with per-byte parity, so every instruction\'s encoding depends on the preceding ones.',
     ['library/objfile.cc', C],
     [('encoder', 'library/objfile.cc'), ('decoder', 'compiler/x1algc.c: read_bit_string, address_decoding, read_mask, read_binary_word, program_loader')],
     ['bit string buffer'], ['object program on standard output of x1algc'])

prop('P16', 'Library tapes are selected by need, in any order, and checked',
     'A program gets exactly the library procedures it refers to, wherever they stand in whichever library file is given, with the same result for every order of the tapes; '
     'unused procedures add nothing to the program. A damaged tape (any single altered bit, or truncation) is reported as an error instead of being executed.',
     ['configurations', 'fault_sequences'], 'all subsets and orders of library procedures; every single-bit and truncation fault of the tapes',
     'Selection and skipping work by position in a bit stream; tests use two library configurations and no faults.',
     [C, 'library/x1algol.lib'],
     [('library scan', 'compiler/x1algc.c: program_loader, tape reader with parity checks (stops 105..107)'), ('cross reference', 'compiler/x1algc.c: crf table')],
     ['cross-reference table'], ['object program', 'exit status of x1algc and x1sim'])

prop('P17', 'The command line fails loudly and succeeds only when the program ran',
     'x1sim exits with 0 only when the given program was compiled and ran to its end; every failure - missing, unreadable or mistyped files, wrong options or argument counts, compiler errors or crashes, missing library or compiler, '
     'malformed object files, run-time errors - gives a message and a non-zero status, and never runs a stale or partial object program.',
     ['configurations', 'fault_sequences'], 'all combinations of argument kinds, options, environment settings and component failures',
     'Configurations multiply; tests cover seven invocations.',
     ['simulator/main.cpp', 'simulator/machine.cpp'],
     [('argument handling', 'simulator/main.cpp'), ('compiler invocation', 'simulator/machine.cpp: run_program, compile_and_run, find_default_library, load_object_program')],
     ['files in the working directory'], OUT)

prop('P18', 'Observation does not change behaviour',
     'Running a program with tracing (to the terminal or a file), from its source or from its saved object file, and any number of times gives the same program output and exit status, '
     'and compiling the same source twice gives the same object program.',
     ['programs', 'configurations'], 'all programs of a corpus that exercises every run-time operation x all run modes',
     'Trace code reads the stack and memory after every operation and can fail or disturb state only in particular situations.',
     ['simulator/trace.cpp', 'simulator/machine.cpp', 'simulator/processor.cpp', C],
     [('tracing', 'simulator/trace.cpp; trace_* calls'), ('object load', 'simulator/machine.cpp: load_object_program')],
     None, ['standard output, trace file, exit status'])

prop('P19', 'Large programs work or are rejected, never miscompiled',
     'As any dimension of a program grows - number of identifiers, constants, labels, parameters, array dimensions, nesting depth of expressions, statements, blocks and procedures, program and data size - '
     'the compiler either produces a correct program or stops with a diagnostic and failing status; it never crashes, loops or emits wrong code.',
     ['programs'], 'every size of each dimension from 1 to beyond the capacity limit',
     'Limits lie far beyond test programs, and each internal table has its own.',
     [C, 'simulator/machine.cpp'],
     [('store management', 'compiler/x1algc.c: fill_t_list, fill_name_list, fill_constant_list, fill_future_list, fill_result_list, fill_output')],
     ['compiler store of 12288 words'], ['exit status and output of x1algc and x1sim'])

prop('P20', 'The compiler terminates with code or a diagnostic on any input',
     'For every source text, well-formed or not, the compiler terminates promptly, either with an object program and status 0 or with an error message and non-zero status, '
     'without memory errors. Texts are rejected when ( and ) or [ and ] differ in number within a statement or declaration, when an identifier is not declared, when a word delimiter or composed symbol '
     'does not exist, when they contain foreign characters, do not start with begin, or end before the program is complete.',
     ['inputs'], 'all token sequences up to a length in 16 contexts, all single-token edits and all truncations of valid programs, all short byte sequences at every kind of place, repetitions of all tokens and token pairs',
     'Malformed input drives the compiler into table and look-ahead states no valid test reaches.',
     [C], [('stops', 'compiler/x1algc.c: stop'), ('scanner and analyser', 'compiler/x1algc.c: prescan, main_scan')],
     ['compiler store'], ['exit status and output of x1algc'])

prop('P21', 'The C and Pascal compilers agree',
     'For every program outside the differences listed in the README (storage functions of multi-dimensional arrays, passing of formals, standard functions as parameters) and outside the recorded repairs of defects of the C compiler, the C compiler produces the same object program as the '
     'Pascal compiler it was translated from, and it rejects every program that the Pascal compiler rejects because of its brackets.',
     ['programs'], 'all programs of the enumerated statement, expression and declaration spaces',
     'The two translators share no tests; a divergence means one of them deviates from the 1960 compiler.',
     [C, 'compiler/x1algol.pas'], [('translation', 'compiler/x1algc.c; compiler/x1algol.pas')], None,
     ['object program on standard output of x1algc and x1algol'])

prop('P22', 'Execution leaks nothing and bounded resources fail cleanly',
     'Every completed statement, call, loop and jump leaves the run-time stack as it found it, so that repetition any number of times uses no additional storage, and recursion of any depth that fits in the stack computes the right result; '
     'when the stack or the store is exhausted the program stops with an error message.',
     ['histories', 'programs'], 'all statement kinds repeated; all recursion depths up to and beyond the stack limit',
     'Leaks and depth-dependent address arithmetic appear only after very many steps.',
     ['simulator/processor.cpp', 'simulator/virtual_stack.cpp', 'simulator/opcodes.cpp'],
     [('stack', 'simulator/virtual_stack.cpp: push, erase'), ('frames', 'simulator/processor.cpp: frame_create, frame_release, get_arg_display')],
     ['run-time stack'], OUT)

prop('P23', 'Standard functions are accurate over their whole domain',
     'abs, sign, entier, sqrt, sin, cos, arctan, ln and exp give the mathematically correct value, of the documented type and within one unit of the 40-bit mantissa, for integer and real arguments, and stop with an error outside their domain or range; '
     'the library functions EVEN, SUM, RANDOM/SETRANDOM and TIMEOFDAY behave as documented (TIMEOFDAY: local time in seconds since midnight).',
     ['inputs'], 'all arguments of a grid of signs, exponents and boundary mantissas; all argument kinds',
     'Tests evaluate a few arguments per function.',
     ['simulator/opcodes.cpp', 'library/even.src', 'library/sum.src', 'library/random.src', 'library/setrandom.src'],
     [('functions', 'simulator/opcodes.cpp: OPC_abs .. OPC_entier'), ('library procedures', 'library/*.src run on simulator/processor.cpp')],
     None, OUT)

prop('P24', 'Every identifier refers to its innermost declaration',
     'Identifiers that differ are different entities and identifiers that are spelled alike (spaces and layout ignored) are the same, at least in their first nine symbols; each use refers to the declaration of the innermost enclosing block or procedure, '
     'whatever outer entities, parameters, labels or standard procedures have the same name, in every program that declares the items of a block in the order the X1 manual prescribes (scalars, arrays, switches, procedures).',
     ['programs'], 'all placements of declarations of one name over nested blocks and procedures, all name lengths and near-equal spellings',
     'Name-list search and block entry/exit are stateful; tests never shadow names at several levels.',
     [C], [('name list', 'compiler/x1algc.c: look_for_name, look_for_constant, introduction of new block levels, prescan')],
     ['name list'], OUT)

prop('P25', 'Machine instructions used by library procedures follow the X1 definition',
     'Each supported order-code instruction (loads, stores, complement loads, masks, shifts, counting and conditional jumps) changes exactly the registers, condition and memory words that the X1 definition gives it, '
     'for every operand value; conditionally executed instructions have no effect when their condition is not met, and unsupported instructions stop with an error.',
     ['inputs'], 'all supported instructions x boundary operands x condition states',
     'Tests execute these instructions only through two library procedures.',
     ['simulator/processor.cpp'], [('instruction execution', 'simulator/processor.cpp: Processor::step')],
     ['registers A, S, B, T, condition', 'memory'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
