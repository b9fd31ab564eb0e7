#!/usr/bin/env python3
"""Writes MANIFEST.json; run after a change of the list of checks."""
import json
import os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INST = ('Workload: random stereo pairs of 9 styles and shapes from 2x1 to 72x3 '
        'and 26x20, levels 2..40, exact dyadic weights. ')
N = {
 'C01': ('online oracle over runs of the pipeline: exhaustive minimax and a worklist reference model; ASan+UBSan build', INST + 'Optimality is decided exactly for each run; nothing is claimed about shapes beyond the generated ones. Trusts the reference model (two independent oracles are compared on tiny problems).'),
 'C02': ('differential monitoring of solve_csp along histories against a worklist solver; ASan+UBSan build', INST + 'Each node is compared after each step of random histories.'),
 'C03': ('ThreadSanitizer with a visible OpenMP runtime, controlled random and priority schedules, real libgomp', 'Data races are reported for the accesses executed, with all synchronization visible to TSan; interleavings are sampled (sequentially consistent), thousands of distinct ones per run.'),
 'C04': ('monitor of pre- and post-states of partial passes against their definition; ASan+UBSan build', INST + 'Random orders of passes; each pass is judged by its pre-state.'),
 'C05': ('differential monitoring of candidate lists and of the search against enumeration; ASan+UBSan build', INST),
 'C06': ('online oracle of labelings: reference greedy choice with backup, post-conditions; ASan+UBSan build', INST + 'Includes problems with dead ends, where the best choice is not consistent.'),
 'C07': ('monitor of results and exceptions under planted defects of availability; ASan+UBSan build', 'Every kind of defect at first, last and random pixels.'),
 'C08': ('differential monitoring of all penalties and energies of labelings; ASan+UBSan build', INST + 'All nodes and edges of each problem.'),
 'C09': ('differential monitoring of all lookups and calculations against enumeration; ASan+UBSan build', INST + 'All pixels and ordered pairs of each problem.'),
 'C10': ('monitor of injectivity and round trips of all indices of each size; ASan+UBSan build', 'Exhaustive per size, sizes are sampled.'),
 'C11': ('differential monitoring of all existence checks against the definition; ASan+UBSan build', 'Exhaustive with a margin for small sizes, sampled with extreme coordinates otherwise.'),
 'C12': ('round-trip monitor through memory and files; ASan+UBSan build', 'Random images, sizes and maxima including 65536.'),
 'C13': ('independent grammar oracle over generated, damaged and coverage-guided texts; ASan+UBSan, libFuzzer', 'Texts with lone carriage returns in comments, zero sizes or maxima, or intensities above the maximum are not judged.'),
 'C14': ('monitor of exceptions, memory, time and state under hostile bytes and failing devices; ASan+UBSan, libFuzzer', 'Memory is bounded by 200 bytes per byte consumed plus 64 KiB; time by 10 s plus 1 ms per byte.'),
 'C15': ('independent parser and format monitor; output devices that fail at every byte; ASan+UBSan build', 'Device faults are enumerated for each short image.'),
 'C16': ('monitor of constructors against independent rules for valid parameters; ASan+UBSan build', '22 kinds of defects, alone and in pairs.'),
 'C17': ('AddressSanitizer, UBSan, libstdc++ debug mode, Valgrind memcheck, allocation accounting', INST + 'A clean run says that the executed paths are clean.'),
 'C18': ('enumeration of faults of all file operations of the real program by interposition, with an oracle of files and exit codes', 'Operations seen through libc entry points; 2/3 of the faults of each enumeration in the quick tier, all in the thorough one.'),
 'C19': ('end-to-end oracle: written maps of the real program against the reference algorithm; ASan and OpenMP builds', 'Options, orders, forms and refusals are sampled.'),
 'C20': ('stand-in OpenCL runtime executing the real kernels under controlled schedules; differential oracle with CPU and reference', 'Trusts the stand-in as a model of the OpenCL execution model; no real device is here. Penalties exactly representable in single precision.'),
 'C21': ('metamorphic monitor over pairs of executions; ASan+UBSan build', INST),
 'C22': ('metamorphic monitor over pairs of solutions; ASan+UBSan build', INST),
 'C23': ('differential monitoring of availability predicates against their definition; ASan+UBSan build', INST + 'All nodes and edges, and edges which do not exist.'),
 'C24': ('ThreadSanitizer and comparison of parallel and sequential runs', '2-6 threads; races are reported for executed accesses.'),
 'C25': ('stand-in CUDA runtime executing the real kernels under controlled schedules, with failing calls; differential oracle with CPU and reference', 'Trusts the stand-in as a model of CUDA and g++ in the place of nvcc; no real device is here. Penalties exactly representable in single precision.'),
 'C26': ('counting of entries of functions by compiler instrumentation against bounds', 'Bounds are checked for observed calls; entries which are not observable are counted, not judged.'),
}
checks = []
for p in sorted(N):
    t, note = N[p]
    checks.append({
        'property': p,
        'quick_cmd': 'VERIF_TIER=quick python3 run.py ' + p,
        'thorough_cmd': 'VERIF_TIER=thorough python3 run.py ' + p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': t,
        'level': 'fault_enumeration' if p == 'C18' else 'exploration',
        'level_note': note,
    })
m = {
    'version': 1,
    'setup_cmd': 'python3 run.py setup',
    'checks': checks,
    'not_applicable': [],
    'notes': 'No hooks in /repo: instrumentation is by compiler flags, '
             'interposition and stand-ins of runtimes, all in /verif. '
             'DESIGN.md explains each check.',
}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
