"""writes MANIFEST.json: every property with a specification is claimed"""
import json, os, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'contract-based deductive verification: contracts on the real headers, compiled to LLVM IR on every run; own VC generator, exact polynomial prover and z3'
REAL = 'Floating point is exact real arithmetic. '
LARGE = 'Larger dimensions natively (bounded extra).'
N = {
 'C08': 'Every operation from every state (connectable, id, outcome of the disconnect call), so the contracts compose to all histories; ids and connections instantiated for both provided id types.',
 'C10': 'Thirteen hierarchies covering every helper, single, repeated and multiple derivation and bases not placed first; all object states; copies that throw.',
 'C37': 'Type equalities evaluated by the compiler on the real templates, for representative types of every callable form; not a proof over all types.',
 'C13': 'Pointer/count spans with every size, offset and count (symbolic, any allocation); containers, arrays and fixed extents of small sizes; comparison for any number of elements, the loops of std::equal and std::lexicographical_compare included.',
 'C14': 'Buffers of every size at every place in a larger memory (symbolic sizes and contents, universally quantified byte); nine value types, element spans of every length, vectors up to 3 elements. Each contract covers one operation from an arbitrary state, so they compose to every sequence. memcpy, memset and operator new are modelled.',
 'C09': 'All exit kinds, every number of exceptions in flight at creation, functions that return, throw or throw inside. The exception runtime (throw, catch, uncaught_exceptions) is modelled.',
 'C11': 'Valid texts of any length and any index: loops with inductive invariants over the ghost boundaries of the code points; all texts of up to three code points again for counterexamples.',
 'C36': 'Texts of any length for the three character types; strlen has an assumed contract, the other length loops of the library are verified; std::string enters by its libstdc++ representation.',
 'C15': 'All flag values of 8/32/64-bit enumerations, 64-bit vectors; machine integers exact. Trusted: clang, VC generator, z3.',
 'C16': 'All 32/64-bit arguments in the documented ranges, signed overflow is an obligation.',
 'C17': 'All arguments; ' + REAL + 'Numbers of extreme magnitude natively (bounded extra).',
 'C18': 'All component values for dimensions 1-5, 7, 9 and 260, mixed operand types (templates are instantiated, loops unrolled completely). ' + REAL,
 'C19': 'All component values, dimensions 1-5 and 8; trigonometry via exact algebraic identities. ' + REAL + 'Very short and long vectors and hundreds of components natively (bounded extra).',
 'C20': 'All component values, dimensions 1-5 and more; the scalar functions applied are uninterpreted. ' + REAL + 'Hundreds of components natively (bounded extra).',
 'C21': 'All values and all indices, dimensions 1-4 and some up to 9. ' + REAL + 'Hundreds of components natively (bounded extra).',
 'C22': 'All entries, sizes up to 4x4 and 7x8 incl. rectangular, mixed operand types. ' + REAL + 'Hundreds of components natively (bounded extra).',
 'C23': 'All entries and indices, sizes up to 4x4 and 7x8 incl. rectangular. ' + REAL + 'Hundreds of components natively (bounded extra).',
 'C24': 'All entries; sizes up to 3x3 and 1x4..4x1, 2x4..4x3, 2x5 complete, 3x4/4x4 the form and pivot contract only; rowEcholon is verified against the verified contract of pivot. ' + REAL + LARGE,
 'C25': 'All entries (singular ones included), sizes 1-4, thorough 5. ' + REAL + LARGE,
 'C26': 'All entries, sizes 1-3 directly, size 4 against the verified contract of luDecomp. ' + REAL + LARGE,
 'C27': 'All rects, dimensions 1-3. ' + REAL + LARGE,
 'C28': 'All rects, dimensions 1-3. ' + REAL + LARGE,
 'C29': 'All values; compound types are verified with the scalar comparison as an uninterpreted function. ' + REAL,

 'C30': 'All quaternions, vectors, axes and angles. ' + REAL + 'Quaternions of extreme magnitude natively (bounded extra).',
 'C31': 'All unit quaternions and all twelve Euler sequences outside degenerate middle angles; matrix sizes 3, 4, 6. ' + REAL,
 'C32': 'All pairs of unit quaternions and all interpolation parameters. ' + REAL,
 'C33': 'All parameters, angles, axes and points; matrix sizes 2-4 and 7. ' + REAL,
 'C34': 'All admissible volumes, fields of view and points. ' + REAL,
 'C35': 'All positions, unit directions, up vectors and unit quaternions. ' + REAL,
}
NA = json.load(open(ROOT + '/tools/na.json')) if os.path.exists(ROOT + '/tools/na.json') else {}
EXTRA = json.load(open(ROOT + '/tools/notes.json')) if os.path.exists(ROOT + '/tools/notes.json') else {}
checks = []; na = []
for l in open(ROOT + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in NA:
        na.append({'property': p, 'reason': NA[p]}); continue
    if not (glob.glob(ROOT + '/specs/%s.cpp' % p) + glob.glob(ROOT + '/specs/%s_*.cpp' % p)):
        na.append({'property': p, 'reason': 'no check yet'}); continue
    e = EXTRA.get(p, {})
    checks.append({'property': p, 'quick_cmd': 'python3-vt /verif/check.py %s --tier quick' % p,
                   'thorough_cmd': 'python3-vt /verif/check.py %s --tier thorough' % p,
                   'technique': e.get('technique', TECH), 'level': e.get('level', 'proof'), 'level_note': e.get('note') or N[p]})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(ROOT + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
