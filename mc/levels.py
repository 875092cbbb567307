# property -> (level, technique, note)
MC = 'model_checking'
ENUM = 'bounded exhaustive enumeration of programs run on the real compiler and simulator, each compared with an executable reference model'
LEVELS = {
    'P01': (MC, ENUM, 'All expression trees within the stated bounds give the value and type of the reference interpreter (exact rational arithmetic); '
            'assumes the small operand alphabet separates operators, associations and types.'),
    'P02': (MC, ENUM, 'All placements and access paths of operands (block depth, procedure depth, parameter mode, array, function) crossed with operations, each run on the real compiler and simulator; every other variable is printed at the end to show frame conditions.'),
    'P03': (MC, ENUM, 'Operators x boundary operand values (around 0, 2^26, powers of two, real range limits) exhaustively, in the real system; a refusal with an error is accepted only where the exact result does not fit.'),
    'P04': (MC, ENUM, 'All exponents x structured mantissas of machine reals, all structured integers, round trip through the conversion routines of the current tree (driver linked with simulator sources).'),
    'P05': (MC, ENUM, 'All literals over a digit alphabet up to a length, plus decimal exponents over the whole range, plus pairs of literals in a program.'),
    'P06': (MC, ENUM, 'All for lists up to the stated length from a menu of elements, nested and over all kinds of controlled variable. Known findings: steps that depend on the controlled variable.'),
    'P07': (MC, ENUM, 'All control-flow graphs within the stated bounds (labels, go to, switches, conditionals, blocks, procedures). Known finding: switch index out of range is not diagnosed.'),
    'P08': (MC, ENUM, 'All pairs of actual parameters x parameter modes x procedure bodies, all call graphs of three nested recursive procedures, functions of each type in each use, Jensen sums.'),
    'P09': (MC, ENUM, 'All kinds of actual parameters (variables, expressions, arrays, labels, switches, strings, user and standard procedures and functions) x place of the entity x chains of links, all pairs of kinds.'),
    'P10': (MC, ENUM, 'All boxes of 1-5 dimensions over 8 bound pairs x types x places, all offending subscripts around the bounds and at powers of two, all lower bounds around powers of two, value-array conversion, arrays of recursive activations. Known findings: addresses modulo 2^26.'),
    'P11': (MC, ENUM, 'Value x layout grids of FIXT, ABSFIXT, FLOT and print (all layouts, values around every power of ten and every rounding tie) against exact rational arithmetic; digits after the 18th are compared within the width of the internal long double.'),
    'P12': (MC, ENUM, 'All texts over a symbol alphabet up to a length as input of read / RESYM / XEEN programs against an automaton model of each operation.'),
    'P13': (MC, ENUM, 'All spellings of every delimiter, all layout and comment insertion points of a corpus, all end-comment token sequences, renamings; each variant must behave as its base program does in the model.'),
    'P14': (MC, ENUM, 'All strings over a class-covering alphabet up to a length, all lengths, all nested quote shapes, all parameter chains, all symbol codes and pairs copied through RESYM/PRSYM.'),
    'P15': (MC, ENUM, 'All function parts x address classes, all addresses, all pairs and triples of code kinds, all alignments: library source -> objfile -> tape -> x1algc -> words of the object program compared with the words the notation means; committed and built-in tapes decoded by a reference decoder.'),
    'P16': (MC, ENUM, 'All subsets of needed procedures x all orders and splittings of the tapes, foreign tapes of every shape at every place, and every single-bit fault and truncation of the library: same object program as with exactly the needed tapes, or a loud error.'),
    'P17': (MC, ENUM, 'All command lines of up to a few options and operands, all single faults of the object file (every line deleted, doubled, swapped, every character changed), all outcomes of the tools called by x1sim, against a model of the documented command line.'),
    'P18': (MC, ENUM, 'A corpus covering every language construct x all environments (locale, time zone, umask, working directory, limits, standard streams, memory contents, ids) and all pairs of runs: same object program, same output.'),
    'P19': (MC, ENUM, '63 kinds of growth at all sizes up to a bound, a geometric grid beyond every limit and every size around each change of acceptance; 18 pairs of kinds on a grid of sizes: correct result or diagnostic with failing status.'),
    'P20': (MC, ENUM, 'All token sequences up to length 3 in 16 contexts, all one-token edits and truncations of 12 programs, all byte pairs at 9 kinds of place, all repeated tokens and pairs, growing programs, damaged tapes: compiler built with bounds / address checks; model says which texts must be rejected.'),
    'P21': (MC, ENUM, 'Programs from the spaces of all other properties, freed of library tapes, translated by both compilers: object programs compared word for word; all token sequences and one-token edits that the Pascal compiler rejects must be rejected.'),
    'P22': (MC, ENUM, '133 kinds of statement in 23 contexts (and pairs of contexts) at 4 places, repeated, then the stack filled to the last cell; every statement with every number of cells left; 22 kinds of recursion at all depths, in a simulator with room for 3000 cells and in the real one.'),
    'P23': (MC, ENUM, '9 functions x signs x binary exponents x structured mantissas (all exponents in the thorough tier) and the critical places of each function against arbitrary-precision arithmetic (mpmath); result types; EVEN, SUM and random sequences on grids.'),
    'P24': (MC, ENUM, 'names of up to nine symbols over the full alphabet differing in one place; scopes nested up to three deep'),
    'P25': (MC, ENUM, 'Every supported instruction x condition variant x machine state on boundary words, all pairs and triples of 80 instructions, all unsupported operation codes, in hand-made object programs against an interpreter of the order code.'),
}
