#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
H = 'public/gal/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[H + f for f in files], mechanism=[dict(name=n, where=H + w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Basis blade products obey the Clifford algebra laws in every metric',
     'For every metric signature and every pair of basis blades, the geometric, exterior, left contraction and symmetric inner products return exactly the blade and sign (or zero) that anticommutation of distinct generators and the square of each generator dictate. '
     'The pseudoscalar is the product of all generators in order, its inverse really inverts it in every non-degenerate metric, the Poincare dual of a blade is the complementary blade whose exterior product with it on the left gives the pseudoscalar, and the generic even and bivector elements span exactly the even blades and exactly the grade-2 blades.',
     ['configurations', 'inputs'], 'all signatures (p, v, r) and all ordered pairs of blades, all grades',
     'The tests multiply a few blades of four fixed signatures; a sign slip confined to one grade pair or to metrics with negative or null generators is invisible to them.',
     ['geometric_algebra.hpp', 'algebra.hpp', 'numeric.hpp'],
     [('product of two blades by bit manipulation and swap counting', 'geometric_algebra.hpp'), ('complement with swap parity', 'algebra.hpp'), ('bit helpers', 'numeric.hpp')],
     ['blade products of an algebra', 'pseudoscalar constants', 'even / bivector generators'])

prop('C02', 'Symbolic multivector arithmetic is exact polynomial arithmetic in canonical form',
     'Adding, negating, scaling by a nonzero constant, shifting, multiplying (with any blade product), dividing by a single-variable monomial, reversing, dualising, grade-selecting and component-extracting symbolic multivectors gives exactly the multivector whose polynomial coefficients algebra dictates, for all operands. '
     'The symbolic form of every entity denotes the same multivector as its numeric components. '
     'Every result is canonical: blades strictly ascending, monomials strictly ascending, variables within a monomial strictly ascending, no zero coefficient, no empty blade, the recorded degree of a monomial equal to the sum of its exponents, and sizes and offsets consistent with the stored data.',
     ['inputs', 'programs'], 'all pairs of canonical symbolic multivectors (any blades, rational coefficients, monomials with integer exponents) and all operation sequences on them',
     'Tests cover a dozen hand-written sums and products; cancellation and ordering paths depend on the relative order of degrees, variables and blades on both sides, which form a combinatorial space.',
     ['algebra.hpp', 'null_algebra.hpp'],
     [('merge-based sum', 'algebra.hpp'), ('product with sort and collation', 'algebra.hpp'), ('monomial division', 'algebra.hpp'), ('dual and grade selection', 'algebra.hpp')],
     ['symbolic multivector contents after each operation'])

prop('C03', 'Every operator expression evaluates to the value the algebra defines',
     'For any expression nested from the documented operators (sum, difference, negation, geometric, exterior, regressive, left contraction, symmetric inner, sandwich, scalar product, reversion, dual) over any inputs of a model, the computed result equals the multivector that evaluating the operators one after another in exact algebra gives, up to floating point rounding. '
     'This holds whatever the order, kind and sparsity of the operands and however sums and exterior products are nested, and the expression always compiles.',
     ['programs', 'inputs'], 'all well-formed operator expressions and all input values, in every model',
     'Each test evaluates one expression at one input; the space of expression shapes (sum merging, exterior flattening, operand reordering) is unbounded and none of the products is tested against another definition.',
     ['expr.hpp', 'dfa.hpp', 'engine.hpp', 'algebra.hpp'],
     [('operators building the postfix expression', 'expr.hpp'), ('postfix evaluation to symbolic form', 'dfa.hpp'), ('final numeric evaluation', 'engine.hpp')],
     ['components of the computed result'])

prop('C04', 'Integer constants scale, divide and shift expressions exactly, zero included',
     'Multiplying an expression by an integer, dividing it by a nonzero integer, adding or subtracting an integer, and negating it behave as scalar arithmetic on its value at every nesting level, for positive, negative and zero integers and any combination of them whose exact value has a denominator below 1024. '
     'In particular a factor written on an operand is never lost or applied twice when that operand is summed, multiplied, dualised, reversed, wedged, shared or returned, and scaling loses nothing but the rounding of the value type.',
     ['programs', 'inputs'], 'all expressions decorated with integer factors, divisors and shifts at any node',
     'Tests scale a handful of leaves; factors are carried beside the expression and must be propagated by every operator, so each (operator, nesting, constant) combination is its own path.',
     ['expr.hpp', 'dfa.hpp', 'engine.hpp', 'numeric.hpp'],
     [('out-of-band scale of an expression', 'expr.hpp'), ('per-summand scale', 'dfa.hpp'), ('final scale', 'engine.hpp')],
     ['components of the computed result'])

prop('C05', 'Sharing repeated subexpressions never changes a result',
     'An expression in which subexpressions repeat, at any depth and any number of times, evaluates to the same value as if every occurrence were computed separately, and always compiles. '
     'Two subexpressions are treated as the same only if they are equal for all inputs: differing constants, operand order, operator, component or grade selection always keep them apart.',
     ['programs', 'inputs'], 'all expressions with repeated or nearly equal subexpressions, including nested repeats and repeats inside sums, exterior products, divisions, scalar functions and multiple results',
     'The tests check the shape of three shared expressions and no value; reference counting, index renumbering and length fix-up depend on how repeats nest.',
     ['dfa.hpp', 'expr.hpp', 'stack.hpp', 'crc.hpp'],
     [('common subexpression detection and reshaping', 'dfa.hpp'), ('node equality and checksums', 'expr.hpp'), ('temporaries', 'engine.hpp')],
     ['components of the computed result'])

prop('C06', 'Division, scalar functions and named constants give the exact real values',
     'Dividing by a scalar-valued subexpression, and applying square root, sine, cosine or tangent to one, yields the value of that real function of the mathematically exact operand wherever it is defined (divisors not identically zero), at any nesting and combined with any constant factor. '
     'The named constants denote pi and e wherever they are multiplied, divided or scaled. Results are accurate to the precision of the inputs, in single, double and extended precision.',
     ['programs', 'inputs'], 'all expressions containing divisions, scalar functions and named constants over scalar-valued subexpressions',
     'Tests use one or two fixed nestings of each function; extraction of operands as temporaries depends on what precedes the function in the expression.',
     ['expr.hpp', 'dfa.hpp', 'engine.hpp', 'algebra.hpp'],
     [('division and function operators', 'expr.hpp'), ('operand extraction', 'dfa.hpp'), ('function application', 'engine.hpp'), ('monomial division', 'algebra.hpp')],
     ['components of the computed result'])

prop('C07', 'Returning several results equals computing each of them alone',
     'When a computation returns a tuple of expressions, the i-th result equals, component for component, what a computation returning only that expression gives, for any number and order of results. '
     'This holds also when results share subexpressions, are scaled, are constants, or are identically zero.',
     ['programs', 'inputs'], 'all tuples of expressions over common inputs',
     'One test returns one pair; the results are concatenated into a single program and sharing crosses result boundaries.',
     ['engine.hpp', 'expr.hpp', 'dfa.hpp', 'tuple.hpp'],
     [('concatenation of result expressions', 'expr.hpp'), ('per-result finalisation', 'engine.hpp')],
     ['components of each computed result'])

prop('C08', 'Results contain exactly the components that are not identically zero',
     'For an expression without repeated subexpressions, divisions or scalar functions, the result type lists each blade whose coefficient is not identically zero exactly once, in ascending order, and no other blade, so cancellation guaranteed by the algebra costs nothing at run time. '
     'An expression that cancels completely, or that combines a vanishing operand in any operator, still compiles and behaves as the number zero there.',
     ['programs'], 'all expressions whose value vanishes in some or all components for every input',
     'Tests check the size of a few results; whether symbolic cancellation is complete depends on term order and operand shapes.',
     ['engine.hpp', 'algebra.hpp', 'expr.hpp', 'entity.hpp'],
     [('symbolic cancellation', 'algebra.hpp'), ('zero elimination while building sums and products', 'expr.hpp'), ('result type', 'engine.hpp')],
     ['component list of the computed result type'])

prop('C09', 'Results depend only on the values of the inputs an expression uses',
     'Permuting the inputs of a computation, adding inputs the expression does not use, or using one input several times changes nothing but the naming; a raw floating point number, a scalar entity and a one-component multivector holding the same value are interchangeable wherever they occur. '
     'Inputs are never modified, repeated evaluation gives the identical result, and single and double precision agree to single precision accuracy.',
     ['programs', 'inputs', 'configurations'], 'all permutations, paddings and representations of the inputs of any expression, both precisions',
     'Tests pass inputs in one order with one representation; operand ordering uses checksums derived from input positions.',
     ['engine.hpp', 'expr.hpp', 'entity.hpp', 'dfa.hpp'],
     [('assignment of identifiers to input values', 'expr.hpp'), ('value table', 'engine.hpp'), ('checksum ordering', 'expr.hpp')],
     ['components of the computed result'])

prop('C10', 'Reading components and grades, in expressions and on results, is faithful',
     'Reading a component inside an expression yields the scalar coefficient of that blade and selecting a grade keeps exactly the blades of that grade, whatever else the operand contains and wherever the read is nested. '
     'On a result, reading by blade returns the stored coefficient or zero when absent, several blades come back in the order requested, pointer access reaches the stored coefficient or nothing, and converting to a concrete entity fills absent components with zero.',
     ['programs', 'inputs'], 'all operands, blades and grades; all sparse component sets',
     'Tests read a few components of results where the component sits first or last in storage.',
     ['expr.hpp', 'algebra.hpp', 'entity.hpp', 'dfa.hpp'],
     [('component and grade selection', 'algebra.hpp'), ('blade lookup table', 'entity.hpp')],
     ['component reads'])

prop('C11', 'Rational coefficients are exact, reduced and sign-normalised',
     'Sums, differences, products, quotients, negation, comparison and in-place updates of rational constants give exactly the rational number, with positive denominator and in lowest terms, for all operands (nonzero divisors, cross products fitting in 32 bits) whose exact result has a denominator below 1024. '
     'Once denominators grow beyond that, any approximation made to avoid overflow stays within one ten-millionth of the exact value.',
     ['inputs'], 'all pairs of rationals within the stated range, positive, negative and zero, reduced or not, and all operation sequences on them',
     'No test exercises rational arithmetic directly; only halves and small integers occur in the tested expressions.',
     ['numeric.hpp'],
     [('rational operators', 'numeric.hpp'), ('overflow control', 'numeric.hpp')],
     ['rational values after each operation'])

prop('C12', 'Compile-time integer and fractional powers are correct for every exponent',
     'Raising a value to a constant integer exponent equals repeated multiplication for positive exponents, one for exponent zero and the reciprocal of the positive power for negative exponents; a fractional exponent equals the real power.',
     ['inputs'], 'all small exponents and bases',
     'Tests reach exponents one and two only; every unrolled case and the general loop are separate code.',
     ['numeric.hpp'], [('unrolled and looped exponentiation', 'numeric.hpp')], ['value of the power'])

prop('C13', 'Sorting and the tuple and stack containers obey their laws for every content',
     'Sorting any sequence, by natural order or by a comparator, produces a permutation of it in non-descending order without touching neighbouring memory. '
     'A stack pops what was pushed last, and tuple push, append, pop, set, split, drop, find and apply preserve every other element and its order.',
     ['inputs', 'histories'], 'all sequences up to a length (with duplicates), all operation histories, all tuple sizes and split points',
     'Tests sort eleven fixed sequences with one overload and perform single tuple operations.',
     ['algorithm.hpp', 'stack.hpp', 'tuple.hpp'],
     [('quicksort with unrolled short cases', 'algorithm.hpp'), ('fixed-capacity stack', 'stack.hpp'), ('inheritance-based tuple', 'tuple.hpp')],
     ['container contents'])

prop('C14', '3D projective points, lines and planes join and meet as in Euclidean space',
     'In the 3D projective model every entity denotes the geometric object its coordinates describe and converting it to and from computed results is lossless up to the documented homogeneous scale. '
     'Points joined give the line or plane through them, planes met give their common line or point, a point lies on a plane or line exactly when their join vanishes, and a line built from points carries their Pluecker direction and moment.',
     ['inputs', 'programs'], 'all coordinates of points, directions, lines and planes and all join/meet combinations',
     'Tests build one plane and one line from one set of points.',
     ['pga.hpp', 'vga.hpp', 'entity.hpp'],
     [('entity representations and conversions', 'pga.hpp'), ('cross-model point', 'vga.hpp')],
     ['entity coordinates', 'components of joins and meets'])

prop('C15', '3D projective rotors, translators and motors are rigid motions, exp inverts log',
     'Applying a rotor or a unit translator to any point, direction, line or plane with the sandwich operator rotates it about the given unit axis by the given angle (always in the same sense) or translates it by the given distance, and products of them compose. '
     'A normalised motor has unit norm and the same direction of motion, and for motors with a rotational part exponentiating the logarithm of a normalised motor, or taking the logarithm of an exponential within the principal range, gives back the original.',
     ['inputs', 'programs'], 'all angles, axes, distances and geometric operands, all compositions',
     'Tests rotate a point, a line and a plane by one angle about one axis each, using hand-written multivectors, and never use the rotor and translator entities.',
     ['pga.hpp', 'expr.hpp'],
     [('rotor and translator representations', 'pga.hpp'), ('closed form exponential', 'expr.hpp'), ('closed form logarithm and normalisation', 'pga.hpp')],
     ['coordinates of the moved entity', 'motor components'])

prop('C16', '3D vector-space rotors rotate and entities keep their coordinates',
     'In the 3D vector-space model a rotor built from an angle and a unit axis rotates every vector by that angle about that axis under the sandwich operator, keeps lengths, composes by multiplication and is undone by its reverse. '
     'The exponential of a nonzero bivector is the cosine of its magnitude plus the sine times the unit bivector, and turns vectors in that plane by twice the magnitude. '
     'Vectors keep their coordinates through computation and conversion, and normalising yields the unit vector of the same direction.',
     ['inputs'], 'all angles, axes, vectors and bivectors',
     'Tests rotate basis vectors about one axis.',
     ['vga.hpp', 'expr.hpp'], [('rotor and vector representation', 'vga.hpp'), ('closed form exponential', 'expr.hpp')], ['vector coordinates'])

prop('C17', 'Conformal models compute in the null basis consistently',
     'Converting between null basis and orthonormal basis is linear and inverse in both directions, and all inputs, literals, intermediate and final values in conformal computations refer to origin and infinity elements with squares zero and inner product minus one. '
     'A conformal point has zero square, the inner product of two points is minus half their squared distance, computed points read back the coordinates they were built from, and shared or extracted intermediates do not alter results.',
     ['inputs', 'programs'], 'all conformal points and multivectors and all expressions over them',
     'Tests convert one point and build one line; no test uses the literals, scalar functions or repeated subexpressions in a conformal model.',
     ['cga.hpp', 'cga2.hpp', 'null_algebra.hpp', 'engine.hpp', 'dfa.hpp'],
     [('basis conversion', 'null_algebra.hpp'), ('conversion of inputs and results', 'dfa.hpp'), ('conformal point', 'cga.hpp')],
     ['components of computed results'])

prop('C18', '2D projective model: points and lines join and meet as in the plane',
     'In the 2D projective model a point or line denotes the object its coordinates describe, conversion from computed results recovers the Euclidean coordinates after dividing out the homogeneous scale, two points join in the line through both and two lines meet in their common point. '
     'The exponential of a multiple of a point turns points about that point by twice the multiple. '
     'The expressions of the model evaluate like those of every other model.',
     ['inputs', 'programs'], 'all coordinates and all join/meet combinations',
     'No test includes this model.',
     ['pga2.hpp'], [('entity representations and conversions', 'pga2.hpp')], ['entity coordinates'])

prop('C19', 'Literals denote the blade they name, in every model',
     'In every model an integer literal with a basis suffix denotes that integer multiple of exactly the named basis blade, in any expression and for any value including zero, and the pseudoscalar literals denote the pseudoscalar and, where provided, its inverse up to the documented sign convention.',
     ['programs', 'configurations'], 'all literals of all models, all integer values, alone and combined with inputs',
     'Tests use a handful of literals of one model.',
     ['vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'cga2.hpp', 'dfa.hpp'],
     [('literal operators', 'pga.hpp'), ('literal evaluation', 'dfa.hpp')],
     ['components of computed results'])

prop('C20', 'Textual output lists every component of a result with its blade',
     'The textual form of a multivector lists each stored component once, in order, as its value followed by the indices of the generators of its blade, separated by plus signs, a scalar component without suffix, and zero as a single 0.',
     ['inputs', 'configurations'], 'all component sets and values',
     'No test checks any output text.',
     ['format.hpp'], [('string conversion', 'format.hpp')], ['output text'])

prop('C21', 'Evaluation is well defined on every supported compiler and build setting',
     'Evaluating any expression, converting results and using the entities of any model reads only its inputs, writes only its result, never depends on an uninitialised value and executes no undefined operation. '
     'The same program therefore gives the same result (up to rounding) without optimisation, with it and with the fast arithmetic the README recommends, under g++ and under clang++, and runs clean under the address, undefined behaviour and memory sanitizers.',
     ['programs', 'inputs', 'configurations'], 'all programs and input values, in every compiler and optimisation setting',
     'The tests are built in one configuration and look at chosen components only; a read past an input or of an uninitialised slot often yields a plausible number there.',
     ['engine.hpp', 'entity.hpp', 'numeric.hpp', 'vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'cga2.hpp', 'format.hpp'],
     [('value storage and evaluation of temporaries', 'engine.hpp'), ('conversion and selection of components', 'entity.hpp'), ('entity layouts', 'pga.hpp')],
     ['components of computed results', 'sanitizer reports'])

prop('C22', 'Evaluations are independent: no state is shared or kept between them',
     'A computation, entity operation or conversion is a function of its arguments alone. Evaluating it again, after any history of other evaluations, or concurrently with other evaluations in other threads under any interleaving gives the same result as evaluating it alone in a fresh process. '
     'Arguments may be temporaries, the same object several times, or overwritten by the result; they are not modified by the evaluation and the result does not change when they change afterwards.',
     ['schedules', 'histories', 'programs'], 'all interleavings and histories of evaluations, all ways of passing arguments',
     'The tests evaluate every expression once, in one thread.',
     ['engine.hpp', 'entity.hpp', 'vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'cga2.hpp', 'numeric.hpp'],
     [('storage of input values and temporaries', 'engine.hpp'), ('evaluation of monomials and functions', 'engine.hpp'), ('exponential, logarithm and normalisation', 'pga.hpp')],
     ['components of computed results'])

prop('C23', 'The debugging view of an expression denotes what the computation returns',
     'With debugging enabled, the postfix text reported for an expression, read as a program over the inputs, has the value of that expression, both before and after repeated subexpressions are shared (a shared one is named where it first occurs and referred to by its number afterwards), and the numbered form lists the same words. '
     'For expressions without shared subexpressions, division and functions, the reported symbolic multivector times the reported factor, evaluated at the inputs, is that value as well. Enabling debugging changes no computed result.',
     ['programs', 'configurations'], 'all expressions of the documented operators over the inputs of a model',
     'Two tests print debugging output and look at nothing in it.',
     ['expr.hpp', 'engine.hpp', 'dfa.hpp'],
     [('text of a postfix expression', 'expr.hpp'), ('debugging view of an evaluation', 'engine.hpp'), ('symbolic evaluation of a postfix expression', 'dfa.hpp')],
     ['text of rpnf and rpnf_reshaped', 'symbolic multivectors ie and ie_reshaped', 'components of computed results'])

prop('C24', 'Headers combine freely: any order, any number of units, any models together',
     'Every public header compiles on its own, when included repeatedly, and before or after every other one, with and without debugging enabled. Any number of translation units that include headers in any order compile and link into one program, and a model gives the same results whether it is included alone, after any other header or together with the other models.',
     ['configurations', 'programs'], 'all sets and orders of headers and all ways of splitting a program into translation units',
     'The tests include a handful of headers in one fixed order each, always with debugging enabled.',
     ['algebra.hpp', 'engine.hpp', 'expr.hpp', 'format.hpp', 'vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'cga2.hpp'],
     [('includes and definitions at namespace scope', 'engine.hpp'), ('model headers', 'pga2.hpp'), ('text output', 'format.hpp')],
     ['compiler and linker diagnostics', 'components of computed results'])

prop('C25', 'Evaluation needs no heap memory and values occupy exactly their components',
     'No evaluation of any expression, with any number of inputs, intermediate values and results, requests memory from the heap. Every entity and every computed result occupies exactly the numbers it declares (a point of the conformal model three numbers, a result one number per component that survives), in every value type and model, with no bookkeeping beside them.',
     ['programs', 'configurations'], 'all expressions, models and value types',
     'The tests compare values; none of them watches the allocator, and the sizes of a few entities only are ever looked at.',
     ['engine.hpp', 'entity.hpp', 'expr.hpp', 'vga.hpp', 'pga.hpp', 'pga2.hpp', 'cga.hpp', 'cga2.hpp'],
     [('gathering of inputs, temporaries and results of an evaluation', 'engine.hpp'), ('storage of entities', 'entity.hpp'), ('storage of model entities', 'pga.hpp')],
     ['requests to the allocator during compute() and evaluate()', 'sizeof of entities and results'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(P))
