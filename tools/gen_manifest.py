"""Writes MANIFEST.json: one check per rule module present in analysis/rules, the rest not applicable."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECH = {
    'P01': ('path-sensitive dataflow of status values over compiler IR and the C syntax tree',
            'Every native call that reports a status is followed along all control-flow paths on both sides of the interface; the signs a status may still have are tracked through every comparison.'),
    'P03': ('value-range analysis of narrowing conversions over compiler IR and the C syntax tree',
            'Every conversion to a narrower integer, product of 32-bit sizes and checked conversion is enumerated and must be bounded, guarded or fail loudly.'),
    'P04': ('comparison of foreign declarations with C definitions and constant propagation across the interface',
            'Every foreign declaration, shared constant, selector value, forwarded argument and error code is compared on both sides of the interface.'),
    'P05': ('typestate analysis of solver handles over inlined compiler IR and the C syntax tree',
            'Every function that can change a solver handle is followed along all paths with the outcome of each native phase; flags, later-matrix comparisons, resource acquisition and release are checked at every native call and exit.'),
    'P06': ('effect and ownership analysis over type-checked items',
            'Every static, thread-local, unsafe marker impl and process-wide native setter in the Rust crates and C shims is enumerated from the compiler\'s own facts and classified.'),
    'P07': ('flow analysis of error results over compiler IR',
            'Every call through a user-supplied function, and every call handing such an error on, is followed along all control-flow paths to a returned error.'),
    'P09': ('abstract interpretation of the inlined compiler IR under the hypothesis that measured values are NaN (a comparison with NaN has one outcome, f64::max and argmax lose it), and a typestate pass over how bounded iterations are left',
            'every iterative operation of the lab, nonlinear and ODE crates, from each evaluation of a user function on; sizes are taken to be at least one; continuation drivers are judged by the status of their steps'),
    'P10': ('path-sensitive balance of counter updates and counted invocations over inlined compiler IR with loop summaries',
            'For every function owning work counters the difference between amounts counted and operations invoked is carried along every path, and must vanish at every successful return.'),
    'P16': ('evaluation of constant tables from compiler IR against algebraic identities',
            'Constants and constructors are read as compiler IR and compared with the order conditions, moments and symmetries that define them in exact arithmetic.'),
    'P08': ('path-sensitive effect analysis: every observer answer "stop" is followed to the return of the operation',
            'Each call of an observer is forked into its three answers; after "stop" no call with a user-function effect may be reachable in the operation, helpers inlined.'),
    'P21': ('typestate analysis of configuration validation (semantically located validators must dominate user-function and write effects)',
            'Validators are recognised by what they do, not by name; every operation that receives or works with a validated configuration is followed on all paths, and argument-only refusals may not follow a user function.'),
    'P15': ('path-sensitive counting of appended entries per series over inlined compiler IR, with a must-clear analysis at the start of a run',
            'Every function that appends to the series of a recorder is followed along all paths with configuration conditions kept apart; series kept under the same configuration must receive the same number of entries at every exit, and every run must empty every series first.'),
    'P13': ('path-sensitive read-before-write dataflow per field over inlined compiler IR (every implementation behind a trait object), refined on contradictory paths',
            'Every field an operation with user functions may change is followed from the start of the operation; a read before a write is reported when an earlier run with the same settings can have written the field. Fields of floating-point or array type whose paths exceed the state bound are left undecided and counted; flags and counters are not.'),
    'P11': ('abstract interpretation of the inlined compiler IR in a domain of origins (which previous contents reach which component), with constant propagation of sizes, representations and indices',
            'Every public operation with an output vector, matrix or tensor is analysed for every tensor representation and small sizes; numbers are never computed, undecided branches are joined; components written at positions that depend on data are left undecided and counted.'),
    'P14': ('dependence dataflow (data and control) of constructors and mutators over inlined compiler IR',
            'For every object, what its constructors derive from a stored parameter must be derived again from the new value on every successful path of every method that replaces the parameter; fields recomputed at each use and parts of parameters that cannot change are exempt.'),
    'P12': ('path-sensitive mod/ref effect analysis (interprocedural write effects tracked to every argument-dependent refusal)',
            'every path of every public operation with a writable argument, helpers inlined; alias sets are field-based'),
    'P02': ('numerical abstract interpretation (polynomial relations between dimensions, leading dimensions and buffer lengths) of every native call over inlined compiler IR, with a storage-length invariant of the matrix type',
            'Every array given to a BLAS, LAPACK or sparse-solver routine is shown to be as long as the documented interface requires for the sizes passed with it, for all shapes the guards let through; the contents of the index arrays given to the sparse solvers are outside.'),
    'P17': ('numerical abstract interpretation (polynomial relations between counters, lengths and parsed numbers, with inferred loop relations) of every possible panic over inlined compiler IR',
            'Every operation that can panic in a function that opens a file named by its caller, with the workspace functions it calls expanded, must be shown safe for every content of the file; allocation failure and the code generated for JSON files are outside.'),
    'P18': ('case analysis of selection conditions: predicate-abstraction dataflow over inlined compiler IR for one generic entry',
            'Every case distinguished by the writers (storage of the matrix, visualisation or exchange file, order of the two indices, comparison of each part of the value with the tolerance) is followed through the counting and the writing loop; announced and listed lines, index base and declared symmetry must agree in each. Loops not driven by an iterator are left undecided.'),
    'P19': ('path-sensitive tracking of disturbed elements and of the backup/restore protocol over inlined compiler IR',
            'Every function that evaluates a user function at modified elements of a caller\'s object is followed along all paths; no element may be disturbed at any exit, and every retried trial step must pass through the restore hook.'),
    'P20': ('comparison of guard conditions (linear relations on sizes, flags and choices) of sibling functions over inlined compiler IR',
            'The guards of every real/complex pair and of the storage-format variants are collected up to the first loop or native call and compared pairwise; conditions on floating-point values are compared only by whether the other variant can refuse at all under the same sizes.'),
    'P22': ('interprocedural value propagation of named options through inlined compiler IR and the lowered C shims into the native control slots, against the documented codes',
            'Every enumeration value and flag of every option is followed through the six direct solvers (first factorization, later ones, solution) into the control arrays and configuration objects at the native calls; codes are those of the library manuals.'),
    'P23': ('taint analysis of clock, environment and randomness over compiler IR, with an order-independence analysis of loops over hash containers',
            'Every value obtained from the clock, environment, processes, threads or addresses is followed through fields, calls and branches; every loop over a hash container is examined for effects that outlive the visit of one entry.'),
    'P24': ('ranking analysis of natural loops over inlined compiler IR: finite iterators and monotone counters on every cycle',
            'Every natural loop of the workspace that may run a user-supplied function is enumerated; each must advance a finite iterator created outside it, or move a counter in one direction and compare it with a fixed limit, on every way around. Recursions are examined for a counter handed on. Loops without user functions are not judged.'),
}
NA = {}


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(ROOT, 'analysis', 'rules', i.lower() + '.py')) and i in TECH:
            t, n = TECH[i]
            checks.append({'property': i, 'quick_cmd': 'python3-vt -m analysis ' + i, 'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'static analysis: ' + t, 'level': 'other', 'level_note': n})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'the analysis for this property is not built')})
    m = {'version': 1, 'setup_cmd': 'python3-vt -m analysis --setup', 'checks': checks, 'not_applicable': na,
         'notes': 'Every check re-extracts compiler facts from the working tree of /repo (cached under .build by content hash) and runs one rule module. '
                  'No check executes code of the repository.'}
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)


main()
