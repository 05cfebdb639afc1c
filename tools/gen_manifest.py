#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
E2E = 'every enumerated program is compiled through the public compute() and its result compared with an independent Clifford algebra model'
RPN = 'explicit-state exploration of the expression builder (real constexpr operators run at run time), suspicious states replayed through compute()'
T = {
 'C01': ('exhaustive enumeration of all blade pairs in all signatures on the real blade products', 'All signatures up to dimension 7 (8 thorough) and all blade pairs, plus generic products through compute(). Trusts the reference sign rule in harness/blades_rt.cpp and mc/ref.py.'),
 'C02': ('explicit-state exploration of operation sequences on symbolic multivectors against a polynomial model', 'All operation sequences up to the depth from a fixed alphabet of start multivectors, canonical form checked in every state, once more under sanitizers; polynomial identities through compute().'),
 'C03': ('bounded-exhaustive exploration of expression programs: ' + RPN, 'All expressions up to the stated number of operators over the stated inputs; ' + E2E + '. Numeric comparison at fixed generic points.'),
 'C04': ('bounded-exhaustive exploration of expression programs with integer constants at every node: ' + RPN, E2E + '.'),
 'C05': ('explicit-state exploration of repeated and nearly repeated subexpressions: ' + RPN, E2E + '.'),
 'C06': ('bounded-exhaustive exploration of quotients, functions and constants: ' + RPN, E2E + '; divisors identically zero are excluded.'),
 'C07': ('bounded-exhaustive exploration of tuples of results: ' + RPN, E2E + '.'),
 'C08': ('bounded-exhaustive exploration of cancelling and vanishing programs, exact component sets', E2E + '; the component set of the result type is compared exactly.'),
 'C09': ('bounded-exhaustive enumeration of input permutations, unused and repeated inputs, input kinds', E2E + '; inputs compared bytewise before and after.'),
 'C10': ('exhaustive enumeration of blades, grades and accessors', E2E + '; accessors enumerated over component sets.'),
 'C11': ('exhaustive enumeration of rational operands and operation chains on the real rational type', 'All operands of a box, boundary denominators and operation chains against 128-bit exact arithmetic.'),
 'C12': ('exhaustive enumeration of constant exponents in a prime field and in floating point', 'All exponents of the stated range; exact in the field of 2^31-1 elements.'),
 'C13': ('exhaustive enumeration of sequences and operation histories under address and undefined behaviour sanitizers', 'All words over small alphabets through sort, all stack histories to the depth, all tuple operations on all small type lists.'),
 'C14': ('exhaustive enumeration of coordinate grids on the real entities and expressions', 'Closed form Euclidean geometry is the oracle; the expressions are multilinear, so the grids determine them.'),
 'C15': ('exhaustive enumeration of angles, axes, distances and operands on the real entities', 'Rodrigues rotation, Euclidean translation and the power series of the exponential are the oracles.'),
 'C16': ('exhaustive enumeration of angles, axes and vectors on the real entities', 'Rodrigues rotation is the oracle.'),
 'C17': ('explicit-state exploration of null basis conversions plus bounded-exhaustive conformal programs', 'Conversions checked linear and inverse on all enumerated multivectors; ' + E2E + '.'),
 'C18': ('exhaustive enumeration of coordinate grids plus bounded-exhaustive programs of the planar model', 'Closed form planar geometry is the oracle; ' + E2E + '.'),
 'C19': ('exhaustive enumeration of literals, values and operators', E2E + '.'),
 'C20': ('exhaustive enumeration of component sets through the formatter', 'All 256 component sets of the 3D vector space, all pairs in the others; spaces are ignored.'),
 'C21': ('bounded-exhaustive exploration of (program, build configuration) pairs, sanitizers as monitors', 'Evenly spaced programs of every group of programs of the other checks, under optimised and sanitized builds of two compilers; programs clang++ does not accept are noted only.'),
 'C22': ('stateless model checking of interleavings (preemption bounded, over instrumented memory accesses) and exhaustive short histories of the real evaluations', 'Every access of the compiled evaluation to memory outside its stack is intercepted. Evaluations without conflicting accesses commute, so one execution stands for all interleavings; with conflicts every interleaving with up to 2 preemptions (3 thorough, capped) runs in a fresh process. Accesses inside the C and C++ run-time libraries are not intercepted.'),
 'C23': ('exhaustive enumeration of expressions whose debugging view, produced by the real code, is executed by an independent interpreter', 'Vector, projective and planar projective models; the symbolic multivector is compared for expressions without sharing, division and functions.'),
 'C24': ('exhaustive enumeration of include orders (all headers, all ordered pairs) and of model/header combinations, each compiled, linked and executed against the reference model', 'Include sequences longer than two are covered by two full orders (more in thorough).'),
 'C25': ('bounded-exhaustive exploration of programs on the real code with the allocator as monitor', 'Evenly spaced programs of every group of programs of the other checks, unoptimised so that no allocation is elided; every entity kind and value type for the sizes. Input and output of the harness lie outside the watched window.'),
}
m = dict(version=1, setup_cmd='true', checks=[dict(property=p, quick_cmd='python3-vt check.py %s quick' % p, thorough_cmd='python3-vt check.py %s thorough' % p,
         technique='model checking: ' + t, level='model_checking', level_note=n) for p, (t, n) in sorted(T.items())], not_applicable=[],
         notes='No hooks in /repo: the checks include its headers as they are. All state lives in temporary directories that a run removes.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
