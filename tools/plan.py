"""Which harness entries and which checks decide which property."""


class Prepare(Exception):
    pass


CRATES = {
    'hrt': {'deep': True},
    'hrt_core': {'dir': 'hrt', 'flags': ['--no-default-features']},
    'hrt_alloc': {'dir': 'hrt', 'flags': ['--no-default-features'], 'features': ['alloc']},
}

SETUP = ['hrt']

RT_ASSUME = [
    'The IR is what rustc 1.87.0 emits for the harness crate linked (fat LTO) with /repo/funcmap and the standard library, once without and once with optimisation; code generation after IR is trusted.',
    'Elements are opaque tokens with an identity and a symbolic 64-bit value; their Hash is constant (one bucket), their Ord is the order of the value, they never panic in comparison or drop.',
    'Allocation never fails; hash map keys are fixed (RandomState is a stub returning a constant seed).',
    'SMT answers of z3 are trusted.',
]


def rt_bounds(tier):
    n = 4 if tier == 'thorough' else 3
    return {
        'collections': 'at most %d elements (every length 0..%d), every split of a partially consumed iterator, every ring position of a VecDeque; sets and keyed maps over distinct keys' % (n, n),
        'arrays': 'N in {0,1,2,3,4,6,8}',
        'values': 'all 64-bit element values, closure results and error values; every success/failure/panic outcome of every call',
        'element types': 'drop-tracked two-word token; C08 adds zero-sized, over-aligned, large, niche, heap-owning and uninhabited layouts',
        'loops': 'no unrolling bound: every path runs to its end or the check reports that it could not',
        'outside': 'longer collections, elements whose Ord/Hash/Drop panic or are inconsistent, allocation failure, concurrency',
    }


PROPS = {
    'C01': dict(crates={'hrt': r'^(inf|try)_'}, tags='map', compile=('hrt',), neg=r'^neg_map'),
    'C02': dict(crates={'hrt': r'^law(id|idt|comp)_'}, tags='identity,composition', neg=r'^neg_law'),
    'C03': dict(crates={'hrt': r'^(try|lawtry)_'}, tags='try', neg=r'^neg_try'),
    'C04': dict(crates={'hrt': r'^(try|pat)_'}, tags='first-error', neg=r'^neg_first'),
    'C05': dict(crates={'hrt': r'^(inf|try|pai|pat)_'}, tags='once,order', neg=r'^neg_(once|order)'),
    'C06': dict(crates={'hrt': r'^(inf|try)_'}, tags='drop', neg=r'^neg_drop'),
    'C07': dict(crates={'hrt': r'^(pai|pat)_'}, tags='panic,drop', neg=r'^neg_panic'),
    'C08': dict(crates={'hrt': r'^(inf|try|pai|pat|ovi|ovt)_arr\d|^spec_'}, tags='drop,panic,empty', neg=r'^neg_ub'),
    'C18': dict(crates={'hrt_core': r'^(inf|try|pai|pat|ovi|ovt|spec|comm)_', 'hrt_alloc': r'^(inf|try|pai|pat|ovi|ovt|comm)_'}, tags=None, baseline='hrt', compile=('hrt_core', 'hrt_alloc')),
    'C16': dict(crates={'hrt': r'^(ovi|ovt)_'}, tags='over', neg=r'^neg_over'),
}
for p in PROPS.values():
    p['bounds'] = rt_bounds
    p['assumptions'] = RT_ASSUME


def weight(e):
    """expensive entries first"""
    w = 0
    if 'heap' in e: w -= 3
    if e.startswith('lawcomp'): w -= 3
    if e.startswith(('pat', 'ovt', 'try')): w -= 1
    return w

TECH = 'symbolic execution of the compiled LLVM IR of the real code, assertions and path conditions decided by an SMT solver (z3)'
NOTE = ('Bounded: every path of every harness is executed to its end for all values of the symbolic inputs within the stated sizes; both the unoptimised and the optimised IR of the current tree. '
        'Trusts rustc up to IR, the executor llsym (its models are replayed natively on every run, negative controls must be detected) and z3.')
NA = {}
