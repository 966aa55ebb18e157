"""Which harness instances decide which property, with their bounds."""
CONFIGS = {
    'default': [],
    'signed': ['--with-clabel=int', '--with-clabel-na=-1', '--with-typelabel=int', '--with-pointindex=int', '--with-arcindex=uint64_t'],
    'wide': ['--with-clabel=uint64_t', '--with-typelabel=uint_fast16_t', '--with-pointindex=uint64_t', '--with-arcindex=uint64_t'],
}
# Limits of the configured types scaled down (as if the types were that small), to reach the code for problems that are too large
CONFIGS.update({'mixed': ['--with-clabel=uint64_t', '--with-typelabel=int', '--with-pointindex=int', '--with-arcindex=uint32_t'], 'fewclusters': [], 'fewarcs': [], 'sixarcs': [], 'intmin': ['--with-clabel=int', '--with-clabel-na=min', '--with-typelabel=int', '--with-pointindex=int', '--with-arcindex=uint32_t']})
LIMITS = {'sixarcs': {'ISCC_ARCINDEX_MAX': 6}, 'fewclusters': {'SCC_CLABEL_MAX': 2, 'ISCC_POINTINDEX_MAX': 8}, 'fewarcs': {'ISCC_ARCINDEX_MAX': 10}}
BUDGET = {'quick': 780, 'thorough': 6 * 3600}
ASSUMPTIONS = [
    'The LLVM IR that clang 18 -O0 generates for /repo at the checked configuration (then SROA/CFG simplification) has the meaning of the C source.',
    'libc (malloc family, qsort, memcpy, snprintf, sqrt, log2) behaves as specified by C; qsort is modelled by a stable insertion sort.',
    'Sizes, numbers of points, clusters, types and value sets are bounded as listed per run; inputs beyond them are not covered.',
]



def job(name, harness, time=150, config='default', bounds='', **kw):
    extra = {k: kw.pop(k) for k in ('asserts', 'loop', 'maxviol', 'mem', 'deep') if k in kw}
    bounds = bounds or 'all inputs of harness/%s (parameters explained at its top) with %s; build configuration %s' % (harness, ', '.join('%s=%s' % kv for kv in kw.items()), config)
    return dict(name=name, harness=harness, defs={k: str(v) for k, v in kw.items()}, config=config, time=time, bounds=bounds, **extra)


def auto(harness, **kw):
    """A job named after its parameters."""
    keep = ('time', 'config', 'bounds', 'asserts', 'loop', 'maxviol', 'mem', 'deep')
    name = harness[:-2] + ' ' + ' '.join('%s%s' % (k, v) for k, v in kw.items() if k not in keep)
    if kw.get('config', 'default') != 'default':
        name += ' ' + kw['config']
    return job(name, harness, **kw)


def sc(**kw):
    return auto('sc.c', **kw)


def deep(*jobs, time=3000):
    for j in jobs:
        j['deep'] = True
        j['time'] = time
    return list(jobs)


def jobs_for(pid, tier):
    return [{k: v for k, v in j.items() if k != 'deep'} for j in ALL.get(pid, []) if tier == 'thorough' or not j.get('deep')]


LEX, BAT, INW, INWU, EXC, EXCU = range(6)
SEEDS = (LEX, INW, INWU, EXC, EXCU)
ALL = {}

# C01 partition and sizes
ALL['C01'] = (
    [sc(SM=s, N=4, K=2, CHK=9) for s in SEEDS]
    + [sc(SM=s, N=4, K=2, CHK=9, PRIM=1, SR=1, PR=3, QR=3) for s in SEEDS]
    + [sc(SM=s, N=5, K=2, CHK=9) for s in (LEX, INW, INWU)]
    + [sc(SM=s, N=4, K=2, CHK=13, SELF=0) for s in (LEX, INWU)] + [sc(SM=LEX, N=5, K=3, CHK=13, SELF=0, SR=1), sc(SM=EXC, N=4, K=3, CHK=13, SELF=0), sc(BATCH=1, N=4, K=2, CHK=13, SELF=0, PRIM=1)]
    + [sc(SM=s, N=8, K=2, CHK=9, ORDER=2, UM=1, UM2=0) for s in (LEX, INW, INWU, EXCU)]
    + [sc(SM=s, N=8, K=3, CHK=9, ORDER=2, UM=2, UM2=0, TABLE=1) for s in (LEX, INW, INWU)]
    + [sc(SM=s, N=7, K=3, CHK=9, ORDER=2, UM=2, UM2=0, TABLE=1) for s in (EXC, EXCU)]
    + [sc(SM=LEX, N=5, K=3, CHK=9, PRIM=1, SR=1), sc(SM=INWU, N=5, K=3, CHK=9, EXT=0), sc(SM=EXC, N=5, K=4, CHK=9, UM=3),
       sc(BATCH=1, N=5, K=2, CHK=9), sc(SM=LEX, N=5, K=3, T=2, CHK=9, UM=1, UM2=0),
       sc(SM=LEX, N=4, K=2, CHK=9, GEO=2, DIM=2, G=3), sc(SM=INW, N=5, K=2, CHK=9, GEO=2, DIM=1, G=4, PRIM=1)]
    + deep(sc(SM=EXC, N=5, K=2, CHK=9), sc(SM=EXCU, N=5, K=2, CHK=9), sc(SM=LEX, N=6, K=2, CHK=9, PRIM=1), sc(SM=INWU, N=6, K=2, CHK=9),
           sc(SM=LEX, N=6, K=3, CHK=9, PRIM=1, SR=1), sc(SM=INW, N=6, K=2, CHK=9), sc(SM=INW, N=6, K=3, CHK=9, PRIM=1, SR=1), sc(SM=LEX, N=7, K=3, CHK=9),
           sc(SM=EXC, N=6, K=3, CHK=9), sc(SM=EXCU, N=6, K=3, CHK=9), sc(SM=INWU, N=10, K=3, CHK=9, ORDER=2, UM=3, PRIM=1),
           sc(SM=LEX, N=12, K=3, CHK=9, ORDER=2, UM=1, UM2=0), sc(SM=EXC, N=10, K=2, CHK=9, ORDER=2, UM=1, UM2=0),
           sc(BATCH=1, N=7, K=2, CHK=9, PRIM=1)))

# C02 types
ALL['C02'] = (
    [sc(SM=s, N=4, K=2, T=2, CHK=11, ALLZERO=1) for s in SEEDS]
    + [sc(SM=LEX, N=5, K=3, T=2, CHK=11), sc(SM=INW, N=5, K=3, T=2, CHK=11, UM=2, UM2=0), sc(SM=LEX, N=4, K=3, T=3, CHK=11),
       sc(SM=LEX, N=4, K=2, T=2, CHK=11, PRIM=1, SR=1), sc(SM=INWU, N=4, K=2, T=2, CHK=11, SR=1, PR=3), sc(SM=LEX, N=8, K=3, T=2, CHK=11, ORDER=2, UM=1, UM2=0),
       sc(SM=LEX, N=4, K=2, T=2, CHK=4, PRIM=1), sc(SM=INW, N=4, K=2, T=2, CHK=4, SR=1), sc(SM=LEX, N=4, K=3, T=2, CHK=15, SELF=0), sc(SM=LEX, N=4, K=2, T=2, CHK=15, SELF=0, SR=1),
       sc(SM=LEX, N=5, K=4, T=3, CHK=11, ORDER=2, UM=1), sc(SM=LEX, N=5, K=2, T=2, CHK=4, UM=2, UM2=0)]
    + [auto('dist.c', FN=3, N=4, DIM=2, G=3, K=2, RS=1, IDX=1)]
    + deep(sc(SM=INWU, N=6, K=4, T=3, CHK=11, ORDER=2, UM=1, UM2=0), sc(SM=LEX, N=6, K=2, T=2, CHK=11, ORDER=2, PRIM=1, SR=1), sc(SM=EXC, N=5, K=2, T=2, CHK=4),
           sc(SM=EXCU, N=5, K=3, T=2, CHK=11), sc(SM=LEX, N=6, K=3, T=2, CHK=11), sc(SM=LEX, N=5, K=3, T=3, CHK=15, ALLZERO=1), sc(SM=INW, N=5, K=3, T=2, CHK=15, PRIM=1, SR=1)))

# C03 who is assigned, and where
ALL['C03'] = (
    [sc(SM=s, N=4, K=2, CHK=4, PRIM=1) for s in SEEDS] + [sc(SM=LEX, N=4, K=2, CHK=4, PRIM=1, SELF=0), sc(SM=INW, N=4, K=3, CHK=4, SELF=0)]
    + [sc(SM=s, N=5, K=2, CHK=4) for s in (LEX, INW, INWU)]
    + [sc(SM=LEX, N=5, K=2, CHK=4, PRIM=1), sc(SM=LEX, N=5, K=3, CHK=4, PRIM=1), sc(SM=INW, N=5, K=3, CHK=4), sc(SM=LEX, N=5, K=2, CHK=4, GEO=1, MARKS=6, UM=2),
       sc(SM=LEX, N=6, K=3, CHK=4, PRIM=1, UM=2), sc(SM=LEX, N=8, K=3, CHK=4, ORDER=2), sc(SM=INWU, N=8, K=3, CHK=4, ORDER=2, UM=3, UM2=0),
       sc(SM=LEX, N=5, K=2, CHK=4, GEO=1, PRIM=1), sc(SM=LEX, N=4, K=2, T=2, CHK=4, PRIM=1), sc(SM=INW, N=5, K=3, T=2, CHK=4, UM=2, UM2=0),
       sc(SM=LEX, N=5, K=2, CHK=4, ORDER=2, T=2, UM2=2, PRIM=1)]
    + deep(sc(SM=EXC, N=5, K=2, CHK=4), sc(SM=EXCU, N=5, K=2, CHK=4), sc(SM=LEX, N=6, K=2, CHK=4, PRIM=1), sc(SM=INWU, N=6, K=2, CHK=4), sc(SM=LEX, N=6, K=3, CHK=4, PRIM=1),
           sc(SM=EXC, N=8, K=3, CHK=4, ORDER=2, UM=2, UM2=0), sc(SM=EXC, N=5, K=2, CHK=4, T=2), sc(SM=LEX, N=9, K=3, CHK=4, ORDER=2, PRIM=1)))

# C04 radii
ALL['C04'] = (
    [sc(SM=LEX, N=4, K=2, CHK=12, PRIM=1, SR=1, PR=a, QR=b) for a, b in ((4, 4), (1, 3), (3, 1), (0, 2), (2, 0), (1, 1), (3, 3))]
    + [sc(SM=LEX, N=4, K=2, CHK=12, PRIM=1, SR=0, PR=a, QR=b) for a, b in ((2, 4), (4, 2), (1, 3))]
    + [sc(SM=s, N=4, K=2, CHK=12, PRIM=1, SR=1, PR=3, QR=1, UM=u) for s, u in ((INW, 2), (INWU, 3), (EXC, 1), (EXCU, 2))]
    + [sc(SM=LEX, N=5, K=2, CHK=12, PRIM=1, SR=1, PR=1, QR=3), sc(SM=LEX, N=5, K=3, CHK=12, SR=1, PR=3), sc(SM=LEX, N=4, K=2, T=2, CHK=12, SR=1, PR=3, UM=2, UM2=0),
       sc(SM=LEX, N=4, K=2, CHK=140, GEO=1, PRIM=1, SR=1, PR=3, QR=1, GR=8), sc(SM=INW, N=4, K=2, CHK=136, GEO=2, DIM=2, SR=1, PR=1, QR=3), sc(SM=EXC, N=4, K=2, CHK=136, GEO=2, DIM=1, G=4, SR=1, PRIM=1),
       sc(BATCH=1, N=4, K=2, CHK=12, SR=1, PRIM=1),
       sc(SM=LEX, N=5, K=2, CHK=12, GEO=1, PR=5), sc(SM=LEX, N=5, K=2, CHK=4, GEO=1, QR=5, SR=1, GR=10, PRIM=1), sc(SM=LEX, N=6, K=3, CHK=4, GEO=1, PR=5), sc(SM=INW, N=4, K=2, CHK=4, GEO=1, PR=5, QR=5, PRIM=1),
       sc(SM=LEX, N=4, K=2, CHK=9, GEO=2, DIM=1, PR=5, QR=5, PRIM=1),
       auto('dist.c', FN=3, N=4, DIM=1, G=4, K=3, RS=1)]
    + deep(sc(SM=LEX, N=5, K=2, CHK=140, GEO=1, PRIM=1, SR=1, PR=3, QR=1, GR=8), sc(SM=INW, N=5, K=2, CHK=136, GEO=2, DIM=2, SR=1, PR=1, QR=3), sc(SM=EXCU, N=4, K=2, CHK=12, PRIM=1, SR=1, PR=3, QR=1),
           sc(SM=LEX, N=6, K=2, CHK=12, PRIM=1, SR=1, PR=3, QR=3), sc(SM=INW, N=5, K=2, CHK=4, GEO=1, PR=5, QR=5, PRIM=1), sc(SM=INWU, N=5, K=3, CHK=12, PRIM=1, SR=1, PR=1, QR=1),
           sc(SM=LEX, N=5, K=2, T=2, CHK=12, SR=1, PR=3, PRIM=1)))

# C05 seeds in the order of the method, maximal
ALL['C05'] = (
    [sc(SM=s, N=4, K=2, CHK=516, UM=0, UM2=0, PRIM=1, SR=1) for s in SEEDS]
    + [sc(SM=s, N=5, K=2, CHK=516, UM=0, UM2=0) for s in (LEX, INW, INWU, EXC)]
    + [sc(SM=s, N=5, K=2, CHK=516, UM=0, UM2=0, ORDER=2, ALT=3, PRIM=1) for s in SEEDS]
    + [sc(SM=s, N=8, K=2, CHK=516, UM=0, UM2=0, ORDER=2) for s in (LEX, INW, INWU)]
    + [sc(SM=s, N=7, K=2, CHK=516, UM=0, UM2=0, ORDER=2, TABLE=2) for s in (LEX, INW, INWU, EXC, EXCU)]
    + [sc(SM=s, N=7, K=3, CHK=516, UM=0, UM2=0, ORDER=2, TABLE=3) for s in (EXC, EXCU)]
    + [sc(SM=LEX, N=6, K=3, CHK=516, UM=0, UM2=0), sc(SM=INWU, N=5, K=3, CHK=516, UM=0, UM2=0, PRIM=1), sc(SM=INW, N=5, K=3, T=2, CHK=516, UM=0, UM2=0)]
    + deep(sc(SM=EXCU, N=5, K=2, CHK=516, UM=0, UM2=0), sc(SM=INW, N=6, K=2, CHK=516, UM=0, UM2=0), sc(SM=INWU, N=6, K=2, CHK=516, UM=0, UM2=0), sc(SM=EXC, N=6, K=3, CHK=516, UM=0, UM2=0),
           sc(SM=EXC, N=8, K=2, CHK=516, UM=0, UM2=0, ORDER=2), sc(SM=EXCU, N=8, K=2, CHK=516, UM=0, UM2=0, ORDER=2), sc(SM=INWU, N=8, K=3, CHK=516, UM=0, UM2=0, ORDER=2, ALT=3, PRIM=1)))

def se(**kw):
    return auto('seeds.c', loop=300000, **kw)


ALL['C05'] += (
    [se(SM=INWU, N=9, D=2, ALT=2, SALT=s) for s in (0, 3, 4)] + [se(SM=INWU, N=9, D=2, ALT=2, EMPTY='0x44'), se(SM=INWU, N=9, D=3, ALT=2), se(SM=INWU, N=9, D=1, ALT=2), se(SM=INWU, N=5, D=2), se(SM=INWU, N=6, D=1)]
    + [se(SM=s, N=9, D=2, ALT=2, CAP=0) for s in (LEX, INW)] + [se(SM=s, N=10, D=2, ALT=2, EMPTY='0x84', SALT=1) for s in (LEX, INW)] + [se(SM=LEX, N=6, D=2), se(SM=INW, N=5, D=2)]
    + [se(SM=s, N=8, D=1, ALT=2) for s in (EXC, EXCU)] + [se(SM=s, N=7, D=2, ALT=2) for s in (EXC, EXCU)] + [se(SM=s, N=5, D=2, EMPTY=2) for s in (EXC, EXCU)]
    + deep(se(SM=INWU, N=9, D=2, ALT=2, SALT=1), se(SM=INWU, N=9, D=2, ALT=2, SALT=2), se(SM=INWU, N=9, D=2, ALT=2, SALT=5), se(SM=INWU, N=8, D=2, ALT=3), se(SM=INWU, N=6, D=2), se(SM=INWU, N=10, D=2, ALT=2),
           se(SM=EXC, N=9, D=2, ALT=2), se(SM=EXCU, N=9, D=2, ALT=2), se(SM=EXC, N=10, D=2, ALT=2, EMPTY='0x84', SALT=1), se(SM=EXCU, N=10, D=2, ALT=2, EMPTY='0x84', SALT=1), se(SM=EXCU, N=6, D=2, ALT=4), se(SM=EXCU, N=5, D=2), se(SM=EXC, N=5, D=2)))


def bg(**kw):
    return auto('big.c', loop=3000000, **kw)


ALL['C04'] += [bg(FN=1, PAIRS=2001)]
ALL['C01'] += [bg(FN=2, NP=90, KK=17, SM=s) for s in SEEDS] + [bg(FN=2, NP=90, KK=17, SM=BAT), bg(FN=2, NP=140, KK=66, SM=LEX), bg(FN=3, NP=66000, SM=LEX)] + deep(bg(FN=3, NP=66000, SM=INW), bg(FN=2, NP=140, KK=66, SM=INWU))
ALL['C02'] += [bg(FN=5, NP=300)]
ALL['C03'] += [bg(FN=2, NP=90, KK=17, SM=s) for s in (LEX, INWU, EXC)] + [bg(FN=2, NP=140, KK=66, SM=LEX)]
ALL['C05'] += [bg(FN=3, NP=300, SM=s) for s in SEEDS] + [bg(FN=3, NP=66000, SM=s) for s in (LEX, INW, INWU)]
# C06 quality bounds
ALL['C06'] = (
    [sc(SM=INWU, N=5, K=2, CHK=264, GEO=2, DIM=2, G=3, UM=1, UM2=0, TWO=1)]
    + [sc(SM=s, N=5, K=2, CHK=264, GEO=2, DIM=2, G=3, UM=1, UM2=0) for s in (LEX, INW, EXC)]
    + [sc(SM=s, N=5, K=3, CHK=264, GEO=2, DIM=2, G=3, UM=u, UM2=0) for s in (LEX, INW, INWU) for u in (1, 2, 3)]
    + [sc(SM=s, N=6, K=2, CHK=264, GEO=1, UM=1, UM2=0) for s in (LEX, INW, EXC)]
    + [sc(SM=INWU, N=6, K=2, CHK=264, GEO=1, UM=1, UM2=0, TWO=1)]
    + [sc(SM=s, N=5, K=2, CHK=1024, HOPS=4, UM=1, UM2=0) for s in SEEDS] + [sc(SM=INWU, N=5, K=2, CHK=1024, HOPS=2, UM=1, UM2=0)]
    + [sc(SM=s, N=6, K=3, CHK=1024, HOPS=4, UM=1, UM2=0) for s in (LEX, INW)]
    + [sc(BATCH=1, N=5, K=2, CHK=1024, HOPS=4), sc(SM=LEX, N=4, K=2, T=2, CHK=1024, HOPS=4, UM=1, UM2=0)]
    + deep(sc(SM=INWU, N=6, K=2, CHK=1024, HOPS=2, UM=1, UM2=0), sc(SM=EXCU, N=6, K=2, CHK=264, GEO=1, UM=1, UM2=0), sc(SM=INWU, N=7, K=2, CHK=264, GEO=1, UM=1, UM2=0, TWO=1),
           sc(SM=LEX, N=6, K=2, CHK=264, GEO=2, DIM=2, G=3, UM=1, UM2=0), sc(SM=INW, N=6, K=3, CHK=264, GEO=2, DIM=2, G=3, UM=1, UM2=0)))

# C07 batches
ALL['C07'] = (
    [sc(BATCH=1, N=5, K=2, CHK=77), sc(BATCH=1, N=5, K=2, CHK=77, PRIM=1, SR=1), sc(BATCH=1, N=5, K=3, CHK=77, PRIM=1), sc(BATCH=1, N=6, K=3, CHK=77), sc(BATCH=1, N=4, K=2, CHK=77, SELF=0, PRIM=1),
     sc(BATCH=1, N=4, K=2, CHK=77, SELF=0, SR=1), sc(BATCH=1, N=5, K=3, CHK=77, SELF=0), sc(BATCH=1, N=8, K=3, CHK=77, ORDER=2), sc(BATCH=1, N=8, K=3, CHK=77, ORDER=2, TABLE=1, PRIM=1), sc(BATCH=1, N=6, K=2, CHK=73, ORDER=2, TABLE=2, SR=1),
     sc(BATCH=1, N=5, K=2, CHK=77, EXT=0, SR=1), sc(BATCH=1, N=4, K=2, CHK=76, GEO=1, SR=1, GR=8), sc(BATCH=1, N=4, K=2, CHK=16, PRIM=1, MAXA=16), sc(BATCH=1, N=4, K=2, CHK=32, SR=1)]
    + deep(sc(BATCH=1, N=6, K=2, CHK=77, PRIM=1), sc(BATCH=1, N=6, K=3, CHK=77, PRIM=1, SR=1), sc(BATCH=1, N=7, K=2, CHK=77), sc(BATCH=1, N=10, K=3, CHK=73, ORDER=2, PRIM=1)))

ALL['C07'] += [bg(FN=3, NP=300, SM=BAT), bg(FN=3, NP=66000, SM=BAT), bg(FN=2, NP=90, KK=17, SM=BAT)]

# C08 hierarchical
def hi(**kw):
    return auto('hier.c', **kw)


ALL['C08'] = (
    [hi(N=4, K=2, CHK=3, V=7), hi(N=5, K=2, GEO=1, CHK=3), hi(N=4, K=2, V=3, ZERO=1, CHK=1, OLD=2), hi(N=6, K=2, V=2, ZERO=1, CHK=65), hi(N=6, K=2, OLD=2, V=2, ZERO=1, CHK=1),
     hi(N=7, K=3, OLD=2, V=2, ZERO=1, CHK=1), hi(N=5, K=2, OLD=2, GEO=1, CHK=3), hi(N=5, K=3, CHK=1, V=3, EXT=0), hi(N=6, K=3, CHK=3, GEO=1), hi(N=5, K=2, OLD=3, V=2, ZERO=1, CHK=1)]
    + deep(hi(N=5, K=2, CHK=3, V=12), hi(N=8, K=2, V=2, ZERO=1, CHK=1), hi(N=6, K=2, GEO=2, G=3, DIM=2, CHK=1), hi(N=8, K=2, OLD=2, V=2, ZERO=1, CHK=1), hi(N=8, K=3, OLD=3, V=2, ZERO=1, CHK=1)))

ALL['C08'] += ([bg(FN=0, NP=320, KK=102), bg(FN=0, NP=180, KK=2, OLD=1, LINE=2), bg(FN=0, NP=450, KK=30, OLD=2)]
               + deep(bg(FN=0, NP=420, KK=101, SPAN=3), bg(FN=0, NP=400, KK=2, LINE=1), bg(FN=0, NP=180, KK=2, OLD=1, LINE=1), bg(FN=0, NP=1000, KK=7, OLD=3)))
ALL['C09'] = ([auto('life.c', N=3, C=2, STEPS=5), auto('life.c', N=2, C=2, STEPS=6), auto('life.c', N=2, C=2, STEPS=5, FAULT=1), auto('life.c', N=1, C=1, STEPS=6), auto('life.c', N=1, C=3, STEPS=4), auto('life.c', N=2, C=4, STEPS=4)]
              + deep(auto('life.c', N=3, C=3, STEPS=7), auto('life.c', N=2, C=2, STEPS=7, FAULT=1)))
ALL['C10'] = ([auto('valid.c', FN=f, PART=p, N=n) for f in (0, 2) for p in (0, 1) for n in (3, 4)] + [auto('valid.c', FN=f, N=4) for f in (1, 3, 4)]
              + deep(auto('valid.c', FN=0, PART=0, N=6), auto('valid.c', FN=2, PART=0, N=6)))
ALL['C11'] = ([auto('check.c', N=6, C=3, K=2, T=0), auto('check.c', N=5, C=2, K=2, T=0), auto('check.c', N=6, C=2, K=3, T=2), auto('check.c', N=6, C=3, K=2, T=2), auto('check.c', N=5, C=2, K=2, T=3), auto('check.c', N=5, C=2, K=2, T=2, FAULT=1)]
              + deep(auto('check.c', N=8, C=3, K=3, T=3), auto('check.c', N=8, C=4, K=2, T=0)))
ALL['C11'] += [bg(FN=4, NP=n) for n in (256, 65536, 66000)]
ALL['C12'] = ([auto('stats.c', N=4, C=3, V=3, CHK=1), auto('stats.c', N=5, C=3, V=2, CHK=1), auto('stats.c', N=6, C=2, GEO=2, CHK=1), auto('stats.c', N=4, C=2, V=5, CHK=1), auto('stats.c', N=4, C=2, GEO=1, CHK=1)]
              + deep(auto('stats.c', N=5, C=3, V=4, CHK=1), auto('stats.c', N=6, C=3, V=3, CHK=1)))
ALL['C12'] += [bg(FN=8, NP=400)]
ALL['C13'] = (
    [auto('dist.c', FN=f, N=5, DIM=2, G=3, IDX=i, K=2) for f in (0, 1, 2, 3) for i in (0, 1)]
    + [auto('dist.c', FN=f, N=4, DIM=2, G=3, IDX=i, K=2) for f in (1, 2, 3) for i in (2, 3)]
    + [auto('dist.c', FN=3, N=4, DIM=1, G=4, K=k, RS=1, IDX=i) for k in (1, 2, 3) for i in (2, 3)]
    + [auto('dist.c', FN=f, N=3, DIM=d, G=2, IDX=3, K=2) for f in (0, 1, 2, 3) for d in (5, 9)] + [auto('dist.c', FN=3, N=7, DIM=1, G=2, K=6, RS=r, IDX=2) for r in (0, 1)]
    + [auto('dist.c', FN=3, N=5, DIM=1, G=4, K=k, RS=1, IDX=i) for k in (1, 2, 3) for i in (0, 1)]
    + [auto('dist.c', FN=f, N=3, DIM=3, G=3, IDX=1, K=2) for f in (0, 1, 2, 3)] + [auto('dist.c', FN=3, N=3, DIM=2, G=3, K=2, RS=1, IDX=1)]
    + deep(*[auto('dist.c', FN=f, N=6, DIM=2, G=4, IDX=1, K=3) for f in (0, 1, 2, 3)], auto('dist.c', FN=3, N=6, DIM=2, G=3, K=3, RS=1, IDX=1)))

ALL['C13'] += [auto('dist.c', FN=f, N=4, DIM=2, G=3, K=2, IDX=i, OFFSET=o) for f in (0, 1, 2, 3) for i, o in ((0, '134217728.0'), (1, '33554432.0'))] + [auto('dist.c', FN=f, N=4, DIM=2, G=3, K=2, FAR='4097.0') for f in (0, 1, 2, 3)] + [auto('dist.c', FN=f, N=5, DIM=2, G=3, K=3, FAR='4098.0') for f in (2, 3)] + [auto('dist.c', FN=f, N=3, DIM=300, G=2, K=2, SPARSE=1) for f in (0, 1, 2, 3)]
ALL['C13'] += [bg(FN=6, NP=330, KK=300), bg(FN=6, NP=80, KK=66)]

# C14 allocation failures
ALL['C14'] = (
    [sc(SM=s, N=4, K=2, CHK=16, ORDER=0, PRIM=1, SR=1, MAXA=35) for s in SEEDS]
    + [sc(SM=s, N=5, K=2, CHK=16, ORDER=2, MAXA=35, UM=u, UM2=0) for s, u in ((LEX, 1), (INW, 2), (INWU, 3), (EXC, 2), (EXCU, 1))]
    + [sc(SM=LEX, N=4, K=2, T=2, CHK=16, ORDER=0, UM=2, UM2=0, MAXA=35), sc(SM=LEX, N=3, K=2, T=2, CHK=16, ORDER=0, UM=1, UM2=0, SR=1, MAXA=40), sc(BATCH=1, N=4, K=2, CHK=16, PRIM=1, MAXA=16),
       sc(SM=LEX, N=4, K=2, CHK=16, GEO=1, EXT=0, UM=2, PRIM=1, UM2=3, MAXA=25), sc(SM=EXC, N=4, K=2, CHK=16, EXT=0, ORDER=0, MAXA=25), sc(SM=LEX, N=4, K=2, CHK=16, GEO=1, PR=5, UM=2, UM2=0, MAXA=25),
       hi(N=4, K=2, V=2, ZERO=1, CHK=16), hi(N=5, K=2, OLD=2, V=2, ZERO=1, CHK=16), hi(N=5, K=2, EXT=0, V=2, ZERO=1, CHK=16),
       auto('life.c', N=2, C=2, STEPS=4, FAULT=1), auto('check.c', N=4, C=2, K=2, T=2, FAULT=1), auto('stats.c', N=4, C=2, V=2, CHK=16)]
    + [auto('digraph.c', FN=f, N=3, MAXD=2, FAULT=1) for f in range(6)]
    + deep(sc(SM=LEX, N=4, K=2, CHK=16, ORDER=1, MAXA=35), sc(SM=EXC, N=4, K=2, CHK=16, ORDER=1, PRIM=1, MAXA=35), sc(SM=LEX, N=4, K=2, T=2, CHK=16, ORDER=1, MAXA=35), auto('stats.c', N=5, C=3, V=3, CHK=16),
           hi(N=6, K=2, OLD=2, V=2, ZERO=1, CHK=16)))
ALL['C15'] = (
    [sc(SM=s, N=4, K=2, CHK=32, PRIM=1) for s in SEEDS]
    + [sc(SM=LEX, N=4, K=2, CHK=32, SR=1, PR=3, QR=1, PRIM=1), sc(SM=LEX, N=4, K=2, T=2, CHK=32, SR=1), sc(SM=LEX, N=4, K=3, T=2, CHK=32, UM=2, UM2=0), sc(SM=INW, N=5, K=2, CHK=32, EXT=0, UM=2), sc(SM=LEX, N=4, K=2, CHK=32, GEO=1, PR=5, UM=2, UM2=0), sc(SM=INWU, N=5, K=2, CHK=32, GEO=1, PR=5, QR=5, PRIM=1), sc(BATCH=1, N=5, K=2, CHK=32, SR=1, PRIM=1),
       hi(N=5, K=2, OLD=2, V=2, ZERO=1, CHK=32), hi(N=6, K=2, V=2, ZERO=1, CHK=32), auto('stats.c', N=4, C=2, V=2, CHK=32), auto('valid.c', FN=0, PART=1, N=3)]
    + deep(auto('stats.c', N=5, C=3, V=3, CHK=32), sc(SM=LEX, N=5, K=2, CHK=32, SR=1, PR=3, QR=1, PRIM=1), hi(N=7, K=2, OLD=2, V=2, ZERO=1, CHK=32)))
ALL['C16'] = [auto('spi.c', STEPS=3), auto('spi.c', STEPS=5)] + deep(auto('spi.c', STEPS=8))
ALL['C17'] = ([auto('digraph.c', FN=f, N=3, MAXD=2) for f in range(6)] + [auto('digraph.c', FN=f, N=4, MAXD=2) for f in range(6)] + [auto('digraph.c', FN=f, N=4, MAXD=3) for f in (0, 2, 5)]
              + deep(*[auto('digraph.c', FN=f, N=4, MAXD=3) for f in (1, 3, 4)]))
ALL['C17'] += [bg(FN=7, NP=300), bg(FN=7, NP=66000)]
ALL['C18'] = ([auto('err.c', FN=0, STEPS=1, LMAX=48), auto('err.c', FN=0, STEPS=2, LMAX=28), auto('err.c', FN=1, STEPS=4)] + deep(auto('err.c', FN=0, STEPS=3, LMAX=48), auto('err.c', FN=0, STEPS=1, LMAX=90)))


def la(**kw):
    return auto('large.c', loop=400000, **kw)


ALL['C19'] = ([la(FN=0, NP=65535, KK=65535, SPAN=3), la(FN=1, NP=65535, KK=65535, SPAN=3), la(FN=2, NP=92680), la(FN=3, NP=4), la(FN=4, NP=70000, KK=2), la(FN=4, NP=70000, KK=35000), la(FN=0, NP=66000, KK=66000, config='wide'),
               la(FN=1, NP=66000, KK=66000, config='wide'), la(FN=1, NP=46341, KK=46341, config='signed'), la(FN=0, NP=46341, KK=46341, config='signed')]
              + [auto('valid.c', FN=4, N=3, config=c) for c in ('default', 'signed', 'wide')] + [auto('valid.c', FN=0, PART=0, N=3)]
              + deep(la(FN=2, NP=131072), la(FN=4, NP=200000, KK=2), la(FN=0, NP=131072, KK=32768)))
ALL['C19'] += [bg(FN=3, NP=66000, SM=s) for s in (LEX, INW, BAT)] + [bg(FN=4, NP=66000)]
def li(**kw):
    w = kw.get('config')
    b = {'fewclusters': 'at most 2 clusters, 8 points', 'fewarcs': 'at most 10 arcs', 'sixarcs': 'at most 6 arcs'}[w]
    h = kw.pop('h', 'limits.c')
    return auto(h, bounds='limits of the types scaled down: ' + b, **kw)
ALL['C19'] += ([li(FN=2, N=4, config='fewclusters'), li(FN=1, N=6, K=2, MARKS=7, config='fewclusters'), li(FN=0, N=4, K=3, config='fewarcs'), li(FN=0, N=5, K=2, config='fewarcs')]
               + [li(FN=0, N=6, K=2, MARKS=7, SM=s, config='fewclusters') for s in range(6)]
               + [li(h='digraph.c', FN=f, N=3, MAXD=2, SLACK=0, LIMITED=int(f in (1, 5)), config='sixarcs') for f in (1, 2, 3, 4, 5, 6)]
               + deep(li(FN=0, N=7, K=2, SM=0, config='fewclusters'), li(FN=0, N=7, K=2, SM=1, config='fewclusters'), li(FN=1, N=8, K=2, MARKS=7, config='fewclusters')))
ALL['C20'] = (
    [sc(SM=s, N=4, K=2, CHK=13, PRIM=1, config=c) for c in ('signed', 'wide') for s in SEEDS]
    + [j for c in ('signed', 'wide') for j in (
        sc(SM=LEX, N=4, K=2, T=2, CHK=15, config=c), sc(BATCH=1, N=4, K=2, CHK=77, PRIM=1, SR=1, config=c), sc(SM=LEX, N=4, K=2, CHK=12, PRIM=1, SR=1, PR=3, QR=1, config=c), hi(N=5, K=2, OLD=2, V=2, ZERO=1, CHK=1, config=c),
        hi(N=4, K=2, V=7, CHK=3, config=c), auto('check.c', N=5, C=2, K=2, T=2, config=c), auto('check.c', N=5, C=2, K=2, T=0, config=c), auto('stats.c', N=4, C=2, V=3, CHK=1, config=c), auto('life.c', N=2, C=2, STEPS=4, config=c),
        auto('valid.c', FN=0, PART=0, N=4, config=c), auto('valid.c', FN=4, N=3, config=c), auto('dist.c', FN=3, N=4, DIM=1, G=4, K=2, RS=1, config=c), auto('digraph.c', FN=2, N=3, MAXD=2, config=c), auto('digraph.c', FN=5, N=3, MAXD=2, config=c))]
    + deep(*[sc(SM=s, N=5, K=2, CHK=13, config=c) for c in ('signed', 'wide') for s in (LEX, INW, INWU)]))
ALL['C20'] += [j for c in ('intmin', 'mixed') for j in (
    sc(SM=INW, N=4, K=2, CHK=13, PRIM=1, config=c), sc(SM=EXCU, N=4, K=2, CHK=13, config=c), sc(SM=LEX, N=4, K=2, T=2, CHK=15, config=c), sc(BATCH=1, N=4, K=2, CHK=77, PRIM=1, SR=1, config=c), hi(N=5, K=2, OLD=2, V=2, ZERO=1, CHK=1, config=c),
    auto('check.c', N=5, C=2, K=2, T=2, config=c), auto('stats.c', N=4, C=2, V=3, CHK=1, config=c), auto('life.c', N=2, C=2, STEPS=4, config=c), auto('valid.c', FN=0, PART=0, N=4, config=c), auto('valid.c', FN=4, N=3, config=c),
    auto('dist.c', FN=3, N=4, DIM=1, G=4, K=2, RS=1, config=c), auto('digraph.c', FN=2, N=3, MAXD=2, config=c), auto('digraph.c', FN=4, N=3, MAXD=2, config=c))]
ALL['C21'] = (
    [sc(SM=s, N=4, K=2, CHK=64, PRIM=1, SR=1, HIST=1) for s in SEEDS]
    + [sc(SM=LEX, N=4, K=2, T=2, CHK=64, UM=2), sc(BATCH=1, N=5, K=2, CHK=64, PRIM=1), sc(SM=INW, N=4, K=2, CHK=64, GEO=2, DIM=2, G=3, HIST=1), hi(N=5, K=2, OLD=2, V=2, ZERO=1, CHK=64), hi(N=6, K=2, V=2, ZERO=1, CHK=64), sc(SM=LEX, N=5, K=2, CHK=64, GEO=1, PR=5, UM=2, HIST=1),
       sc(SM=LEX, N=4, K=2, CHK=64, HIST=2), sc(BATCH=1, N=5, K=2, CHK=64, PRIM=1, HIST=3), sc(SM=LEX, N=4, K=2, T=2, CHK=64, UM=2, HIST=3), sc(SM=LEX, N=4, K=2, CHK=64, GEO=1, PR=5, UM=2, HIST=3), sc(SM=EXC, N=4, K=2, CHK=64, HIST=3, EXT=0),
       hi(N=6, K=2, V=2, ZERO=1, CHK=64, HIST=1), hi(N=6, K=3, GEO=1, CHK=64, HIST=1), auto('stats.c', N=4, C=2, V=3, CHK=64), auto('stats.c', N=5, C=2, GEO=1, CHK=64), auto('check.c', N=5, C=2, K=2, T=2, AGAIN=1), auto('check.c', N=5, C=2, K=3, T=0, AGAIN=1)]
    + deep(sc(SM=EXC, N=5, K=2, CHK=64, HIST=1), sc(SM=INWU, N=5, K=3, CHK=64, PRIM=1, HIST=2), hi(N=7, K=2, OLD=2, V=2, ZERO=1, CHK=64, HIST=1)))
ALL['C21'] += [bg(FN=1, PAIRS=2001, AGAIN=1, VARY=5)]
