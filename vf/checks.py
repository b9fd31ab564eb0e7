"""One entry per property: which builds run how many cases of which driver."""
import os

from . import core
from .core import Check, build, THOROUGH

REG = {}


def n(quick, thorough):
    return thorough if core.THOROUGH else quick


def simple(prop, driver, rule, plain, asan, extra=(), assumptions=()):
    """Cases under an optimized and under an ASan+UBSan build of the library;
    the two builds get different cases."""
    def f():
        c = Check(prop)
        c.rule = rule
        c.assumptions = list(assumptions)
        exe = build('plain', driver, extra)
        c.run('plain', exe, n(*plain), cpu=120)
        exe = build('asan', driver, extra)
        c.run('asan', exe, n(*asan), stride_base=10000000, cpu=120)
        return c.finish()
    REG[prop] = f


EXACT = ('weights and reparametrizations are multiples of 1/8 with bounded '
         'magnitude, so that penalties are exact and comparisons are equalities')
INST = ('random stereo pairs of 9 styles (noise, few levels, shifted, black, '
        'gradient, stripes, extreme, scene, holes), sizes 2x1..72x3, 5x72, '
        '26x20, levels 2..40, several intensity ranges and weights')

simple('C01', 'drivers/c01.cpp', INST + '; the whole pipeline, its map '
       'compared with the optimum by exhaustive search (tiny problems) or by '
       'an independent worklist solver. Non-trivial: the optimum is positive '
       'and there is more than one row; distinct by the whole instance.',
       (24000, 600000), (5000, 120000))
simple('C02', 'drivers/c02.cpp', INST + ', half of them with a '
       'reparametrization; 1-4 solutions along a history of removals, '
       'additions and changes of the threshold, compared node by node with an '
       'independent worklist solver. Non-trivial: some but not all nodes were '
       'removed.', (56000, 1500000), (14000, 300000), assumptions=[EXACT])
simple('C04', 'drivers/c04.cpp', INST + '; random passes over pixels and '
       'shares of rows, each compared with the definition, then all shares in '
       'random order to the fixpoint. Non-trivial: nodes were removed.',
       (60000, 1000000), (14000, 200000), assumptions=[EXACT])
simple('C05', 'drivers/c05.cpp', INST + '; full lists, lists of pixels and '
       'pairs, searches in the full list and random sub-lists. Non-trivial: '
       'the least solvable threshold is not the first element.',
       (19200, 600000), (4000, 120000), assumptions=[EXACT])
simple('C06', 'drivers/c06.cpp', INST + ' and problems with dead ends; '
       'labelings compared node by node with an independent greedy choice, '
       'choices of one pixel with the definition. Non-trivial: a complete '
       'labeling, or a choice among several nodes.', (19200, 600000),
       (4000, 120000), assumptions=[EXACT])
simple('C07', 'drivers/c07.cpp', 'random availability with exactly one node '
       'per pixel, or some pixels without or with several ones (first, last, '
       'any pixel). All are non-trivial; distinct by sizes, labels, defect.',
       (120000, 2000000), (40000, 400000))
simple('C08', 'drivers/c08.cpp', INST + ', most with a reparametrization; '
       'penalties of all nodes and edges and energies of random labelings. '
       'Distinct by instance.', (60000, 800000), (14400, 150000),
       assumptions=[EXACT])
simple('C09', 'drivers/c09.cpp', INST + ', most with a reparametrization; all '
       'pixels and ordered pairs by all ways of lookup and calculation, '
       'before and after a change of the problem. Distinct by instance.',
       (60000, 800000), (14400, 150000), assumptions=[EXACT])
simple('C10', 'drivers/c10.cpp', 'sizes 2x1..72x3, 5x72, 26x20, levels 2..40; '
       'for each size all indices of all kinds, unique values written and '
       'read back. Distinct by size.', (35000, 600000), (8400, 120000))
simple('C11', 'drivers/c11.cpp', 'for small sizes all combinations of nodes '
       'up to one step outside of the image, and random coordinates '
       'including the borders of the integer range. Distinct by size.',
       (25000, 600000), (6000, 120000))
simple('C12', 'drivers/c12.cpp', 'random images 1x1..400x120, maximal values '
       '1..65536, through memory and files, readers and writers reused. '
       'Distinct by written bytes.', (120000, 2000000), (30000, 400000))
simple('C15', 'drivers/c15.cpp', 'random images (long rows of long numbers '
       'included) parsed by an independent parser; invalid images; output '
       'devices that break at every byte. Distinct by written text.',
       (60000, 1500000), (14400, 300000))
simple('C16', 'drivers/c16.cpp', 'valid parameters with zero, one or two '
       'defects of 22 kinds. Distinct by parameters.', (360000, 4000000),
       (90000, 800000))
simple('C21', 'drivers/c21.cpp', INST + '; pairs of executions of the whole '
       'pipeline on a problem and its transformation. Distinct by instance.',
       (4800, 300000), (960, 60000))
simple('C22', 'drivers/c22.cpp', INST + '; pairs of solutions from related '
       'states. Non-trivial: the solution removed nodes.', (42000, 1000000),
       (9800, 200000), assumptions=[EXACT])
simple('C23', 'drivers/c23.cpp', INST + '; availability of all nodes, edges '
       'and absent edges, removal predicate of all nodes, in initial, random '
       'and solved states. Distinct by instance, threshold, state.',
       (50000, 800000), (12000, 150000), assumptions=[EXACT])


PGM_WORDS = ['P2', '#', '\\x0a', ' ', '65536', '65537', '18446744073709551616',
             '4294967296', '-1', '+1', '0', '1.5', '0x1', '\\x0d', '\\x0b',
             '#c\\x0a', '255', '99999999999999999999']


def pgm_corpus():
    texts = ['P2\n2 2\n255\n1 2\n3 4\n', 'P2 1 1 1 0', 'P2#c\n3#d\n1 9#\n1 2 3',
             'P2\n# a\n4 1\n65536\n0 1 2 65536\n#end', 'P2 0 0 0', 'P5 1 1 1 1',
             'P2 65535 65535 255\n1 2 3', 'P2 2 1 7 8 -1', 'P2 1 1 9 1 2']
    return [bytes([i * 31 % 256, i * 77 % 256]) + t.encode()
            for i, t in enumerate(texts)]


def c13():
    c = Check('C13')
    c.rule = ('texts of the grammar with random whitespace and comments; '
              'texts with one defect; mutated and truncated texts, judged by '
              'an independent parser; coverage-guided mutation with the same '
              'judge. Distinct by text (of the random ones).')
    d = 'drivers/c13.cpp'
    c.run('plain', build('plain', d), n(120000, 8000000))
    c.run('asan', build('asan', d), n(30000, 1500000), stride_base=10000000)
    c.fuzz('fuzz', build('fuzz', 'drivers/fuzz_pgm.cpp',
                         ('harness/alloc_track.cpp',)),
           n(400000, 20000000), 80, pgm_corpus(), PGM_WORDS,
           ['grammar', 'half-done'])
    return c.finish()


REG['C13'] = c13


def c03():
    c = Check('C03')
    c.rule = (INST + '; solutions and whole maps with 1..16 OpenMP threads '
              'against the sequential definition: the real runtime; plain '
              'threads under ThreadSanitizer with random delays; threads of '
              'which only the holder of a baton runs, moved at random or by '
              'priorities at accesses to shared memory. Non-trivial: nodes '
              'were removed, or a whole map; distinct by instance, threshold, '
              'number of threads and schedule.')
    c.assumptions = [EXACT, 'interleavings are sequentially consistent; weak '
                     'memory is covered only by the absence of data races']
    d = 'drivers/c03.cpp'
    c.run('libgomp', build('omp', d), n(5000, 200000), workers=4, cpu=300)
    c.run('tsan', build('omptsan', d, ('harness/gomp_pthread.cpp',)),
          n(1500, 50000), stride_base=10000000, cpu=300)
    c.run('schedules', build('ompfib', d, ('harness/gomp_baton.cpp',)),
          n(8000, 300000), stride_base=20000000, aux='pin', cpu=300)
    return c.finish()


REG['C03'] = c03


def c14():
    c = Check('C14')
    c.rule = ('random bytes, damaged, mutated, truncated, repeated texts, '
              'sizes claimed by the header, long tokens; the device ends or '
              'throws at every byte of short texts. Memory is measured by '
              'operator new. Distinct by text.')
    ex = ('harness/alloc_track.cpp',)
    c.run('plain', build('plain', 'drivers/c14.cpp', ex), n(40000, 2000000))
    c.run('asan', build('asan', 'drivers/c14.cpp', ex), n(8000, 400000),
          stride_base=10000000)
    c.fuzz('fuzz', build('fuzz', 'drivers/fuzz_pgm.cpp', ex),
           n(400000, 20000000), 80, pgm_corpus(), PGM_WORDS,
           ['exception', 'memory', 'half-done', 'data-size', 'time'])
    return c.finish()


REG['C14'] = c14


def c17():
    c = Check('C17')
    c.rule = (INST + ', extreme intensities and weights up to 1e300; from the '
              'text of the images to the text of the map, the error paths, '
              'questions about things out of range, partial passes, damaged '
              'texts; lives during which one allocation fails. Every life is '
              'repeated and live memory compared. '
              'Distinct by instance.')
    ex = ('harness/alloc_track.cpp',)
    d = 'drivers/c17.cpp'
    c.run('asan', build('asan', d, ex), n(1000, 60000))
    c.run('debug', build('debug', d, ex), n(800, 30000), stride_base=10000000)
    c.run('plain', build('plain', d, ex), n(2000, 80000), stride_base=20000000)
    vg = build('vg', d, ex)
    c.run('valgrind', ['valgrind', '-q', '--error-exitcode=97',
                       '--leak-check=no', '--track-origins=yes', vg],
          n(80, 4000), stride_base=30000000, aux='light', cpu=300, mem=0)
    return c.finish()


REG['C17'] = c17


def c24():
    c = Check('C24')
    c.rule = ('2-6 threads: different problems from text to text, or one '
              'constant problem and its lowest penalties shared; compared '
              'with the results one after another, arguments compared byte '
              'by byte; races by ThreadSanitizer. Distinct by instance.')
    d = 'drivers/c24.cpp'
    c.run('tsan', build('tsan', d), n(2000, 60000), cpu=300)
    c.run('plain', build('plain', d, link_extra='-lpthread'), n(6000, 200000),
          stride_base=10000000, cpu=300)
    return c.finish()


REG['C24'] = c24


def c26():
    c = Check('C26')
    c.rule = (INST + '; entries of functions of the library counted by '
              'compiler instrumentation and compared with bounds. '
              'Non-trivial: a solution removed some, not all nodes.')
    c.assumptions = ['entries of solve_csp and csp_process_pixel are '
                     'observable; runs where none is seen are counted as '
                     'not observed and never judged']
    c.run('instr', build('instr', 'drivers/c26.cpp'), n(12000, 400000))
    return c.finish()


REG['C26'] = c26


CLI_LIBS = '-lboost_program_options'


def cli(config, **kw):
    return build(config, None, with_main=True, link_extra=CLI_LIBS, **kw)


def c18():
    c = Check('C18', level='fault_enumeration')
    c.rule = ('each operation (open, read, write, close) of the program on '
              'each of its files fails, is short or interrupted, once or from '
              'then on; allocations fail from the n-th one on; limits of the size of the output at its bytes; full '
              'devices, wrong paths, images and arguments of all kinds. '
              'Distinct by instance and fault which was reached, or by '
              'arguments.')
    drv = build('plain', 'drivers/c18.cpp')
    so = core.shared('faultio.so', 'harness/faultio.c',
                     '-O1 -fexceptions -fno-builtin -ldl')
    c.run('faults', drv, n(160, 3000),
          aux='mode=faults;cli=%s;preload=%s' % (cli('plain'), so), cpu=600)
    c.run('plain', drv, n(600, 12000), stride_base=10000000,
          aux='mode=wrong;cli=' + cli('plain'), cpu=600)
    c.run('asan', drv, n(160, 4000), stride_base=20000000,
          aux='mode=wrong;cli=' + cli('asan'), cpu=600, mem=0)
    return c.finish()


REG['C18'] = c18


def c19():
    c = Check('C19')
    c.rule = ('random pairs, options present or absent, long and short forms, '
              'values glued or apart, any order, names with spaces and =, one '
              'thing to refuse of 8 kinds in a third of the cases; the '
              'written map against the independent reference. Distinct by '
              'arguments and instance.')
    drv = build('plain', 'drivers/c19.cpp')
    c.run('plain', drv, n(5000, 150000), aux='wide=1;cli=' + cli('plain'))
    c.run('asan', drv, n(1200, 40000), aux='cli=' + cli('asan'),
          stride_base=10000000, mem=0)
    c.run('openmp', drv, n(1200, 40000), aux='cli=' + cli('omp'),
          stride_base=20000000, workers=4)
    return c.finish()


REG['C19'] = c19


def c20():
    c = Check('C20')
    c.rule = ('random problems and dead ends with penalties that fit into '
              'single precision, solved, not solved, damaged graphs; the '
              'kernels are compiled from the sources of the library and run '
              'by a stand-in of the OpenCL runtime with random sizes of '
              'groups and random switches of work-items at accesses to '
              'buffers; final nodes against the CPU and the reference. '
              'Non-trivial: nodes were removed; distinct by instance, '
              'threshold and schedule.')
    c.assumptions = ['mockcl implements the API as the standard says; '
                     'accesses of work-items are sequentially consistent',
                     'penalties are multiples of 1/8 below 2^21, exact in '
                     'single precision']
    so = core.shared('libOpenCL.so.1', 'mockcl/mockcl.cpp',
                     '-std=c++17 -O2 -g1 -Wl,-soname,libOpenCL.so.1 -ldl')
    d = os.path.dirname(so)
    cllink = '-L%s -l:libOpenCL.so.1 -Wl,-rpath,%s' % (d, d)
    env = {'MOCKCL_SEGV': '1', 'MOCKCL_DIR': c.scratch}
    drv = build('cl', 'drivers/c20.cpp', cl_sources=True, link_extra=cllink)
    c.run('mockcl', drv, n(1600, 80000), env=env, cwd=core.REPO, cpu=300)
    exe = build('cl', None, with_main=True, cl_sources=True,
                link_extra=CLI_LIBS + ' ' + cllink)
    c.run('program', build('plain', 'drivers/c19.cpp'), n(120, 5000), env=env,
          stride_base=10000000, cpu=300,
          aux='cl=1;root=%s;cli=%s' % (core.REPO, exe))
    c.run('faults', build('plain', 'drivers/faults.cpp'), n(120, 4000),
          env=env, stride_base=30000000, cpu=300,
          aux='tech=cl;root=%s;cli=%s' % (core.REPO, exe))
    return c.finish()


REG['C20'] = c20


def c25():
    c = Check('C25')
    c.rule = ('random problems and dead ends with penalties that fit into '
              'single precision, solved, not solved, damaged graphs; CUDA '
              'sources of the library are compiled for the host and for the '
              'device and run by a stand-in of the CUDA runtime with random '
              'switches of threads at accesses to device memory; final nodes '
              'against the CPU and the reference. Non-trivial: nodes were '
              'removed; distinct by instance, threshold and schedule.')
    c.assumptions = ['mockcuda implements the runtime as its documentation '
                     'says; accesses of threads are sequentially consistent; '
                     'g++ plays nvcc',
                     'penalties are multiples of 1/8 below 2^21, or of 4096, '
                     'exact in single precision',
                     'images fit into a grid of the device']
    drv, dev = core.cuda('drivers/c25.cpp')
    env = {'MOCKCUDA_DEVICE': dev}
    c.run('mockcuda', drv, n(1600, 80000), env=env, cpu=300)
    c.run('tall', drv, n(2, 40), env=env, aux='tall=1', cpu=600,
          stride_base=20000000)
    exe, dev = core.cuda(None, with_main=True, link_extra=CLI_LIBS)
    c.run('program', build('plain', 'drivers/c19.cpp'), n(300, 10000), env=env,
          stride_base=10000000, cpu=300, aux='cl=cuda;cli=' + exe)
    c.run('faults', build('plain', 'drivers/faults.cpp'), n(400, 20000),
          env=env, stride_base=30000000, cpu=300, aux='tech=cuda;cli=' + exe)
    return c.finish()


REG['C25'] = c25


def run(prop):
    if prop not in REG:
        print('no check for ' + prop)
        return 2
    return REG[prop]()
