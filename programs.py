"""Which exploration programs decide which property, with which bounds."""

SEM, ITER, LIFE, CHK, STAB, COPY, CMP, RELOC, ALLOC, CRASH, BAL, VIEW, CEXPR, MISC, NULTERM = [1 << i for i in range(15)]


class Prog:
    def __init__(self, name, src, flags=(), args=(), opt='0', san=True, compiler='clang++', timeout=400, mask=None, takes_mask=True):
        self.name, self.src, self.flags, self.args = name, src, list(flags), [str(a) for a in args]
        self.opt, self.san, self.compiler, self.timeout = opt, san, compiler, timeout
        self.mask, self.takes_mask = mask, takes_mask

    def to_dict(self):
        return dict(self.__dict__)


PROPERTIES = {}


def seq(cont, elem, cap, nval=2, args=(), wide=False, maxrange=3, abort=False, opt='0', timeout=400, **kw):
    fl = ['-DCONT_' + cont, '-DELEM=' + elem, '-DCAP=%d' % cap, '-DNVAL=%d' % nval, '-DMAXRANGE=%d' % maxrange]
    if wide:
        fl.append('-DWIDE')
    if abort:
        fl.append('-DPOLICY_ABORT')
    a = list(args)
    if cont in ('DEQUE', 'CIRC') and '--raw' not in a:
        a = ['--abstract'] + a
    a = [x for x in a if x != '--raw']
    nm = '%s<%s,%d>%s%s' % (cont, elem, cap, ' wide' if wide else '', ' abort' if abort else '')
    return Prog(nm, 'seq.cpp', fl, a, opt=opt, timeout=timeout, **kw)


GREEDY = ('VECTOR', 'DEQUE', 'CIRC', 'LIST', 'MAP', 'SET', 'UMAP', 'USET', 'EMAP', 'STACK')


def greedy(kind, tier):
    """Elements whose constructor choice differs between braces, parentheses and implicit conversion; both compilers."""
    r = []
    for comp in ('clang++', 'g++'):
        nm = '%s of elements with greedy constructors, depth %d (%s)' % (kind, 3 if tier == 'thorough' else 2, comp)
        r.append(Prog(nm, 'greedy.cpp', ['-DKIND=%d' % GREEDY.index(kind), '-DDEPTH=%d' % (3 if tier == 'thorough' else 2), '-DPROG="%s"' % nm],
                      compiler=comp, san=True if comp == 'clang++' else 'address', timeout=900))
    return r


def seq_suite(cont, tier):
    """Full exploration of one sequence container."""
    q = [
        seq(cont, 'int', 3, 3, opt='1' if cont == 'LIST' else '0'),
        seq(cont, 'Tracked', 3, 2),
        seq(cont, 'MoveOnly', 3, 2),
        seq(cont, 'Triv', 2, 2),
        seq(cont, 'HalfTriv', 2, 2),
        seq(cont, 'int', 0, 2),
        seq(cont, 'int', 1, 2),
        seq(cont, 'Tracked', 7, 1, ['--max-depth', 2, '--max-states', 15000, '--time', 60], wide=True, maxrange=5, opt='1'),
        seq(cont, 'int', 2, 2, abort=True),
        seq(cont, 'OddNt', 2, 2),
    ]
    q.append(seq(cont, 'Triv', 3, 1, ['--pairs', 40000]))
    q.append(seq(cont, 'Tracked', 2, 2, ['--pairs', 40000]))
    q += large_suite(cont, tier) + greedy(cont, tier) + [shapes(cont, tier), sources(cont, tier)]
    if cont in ('DEQUE', 'CIRC'):
        q.append(seq(cont, 'int', 2, 1, ['--raw', '--max-depth', 16, '--max-states', 4000]))
        q.append(seq(cont, 'Tracked', 1, 1, ['--raw', '--max-depth', 40]))
    if tier == 'quick':
        return q
    t = [
        seq(cont, 'Odd', 3, 2, opt='1'),
        seq(cont, 'int', 4, 3 if cont != 'LIST' else 2, ['--time', 500, '--max-states', 400000], opt='1', timeout=900),
        seq(cont, 'Tracked', 4, 2, ['--time', 500, '--max-states', 400000], opt='1', timeout=900),
        seq(cont, 'MoveOnly', 4, 2, ['--time', 400, '--max-states', 400000], opt='1', timeout=900),
        seq(cont, 'int', 17, 1, ['--max-depth', 1, '--time', 500], wide=True, maxrange=6, opt='1', timeout=900),
        seq(cont, 'Tracked', 9, 1, ['--max-depth', 2, '--time', 500, '--max-states', 2000000], wide=True, maxrange=6, opt='1', timeout=900),
        seq(cont, 'Triv', 5, 1, ['--max-depth', 3, '--time', 500, '--max-states', 2000000], wide=True, maxrange=6, opt='1', timeout=900),
    ]
    return q + t


def assoc(kind, fn, key='int', cap=3, nkey=4, val='int', nvals=1, args=(), flags=(), opt=None, timeout=400, **kw):
    opt = opt or ('0' if cap <= 2 or (kind in ('MAP', 'SET') and cap * nkey <= 12 and nvals == 1 and '-DCONTIGUOUS' not in flags) else '1')
    fl = ['-DKIND_' + kind, '-D' + ('CMP_' if kind in ('MAP', 'SET') else 'HASH_') + fn, '-DKEY=' + key, '-DVAL=' + val,
          '-DCAP=%d' % cap, '-DNKEY=%d' % nkey, '-DNVALS=%d' % nvals] + list(flags)
    nm = '%s<%s%s,%d,%s>%s' % (kind, key, ',' + val if 'MAP' in kind else '', cap, fn,
                               ''.join(' ' + f[2:].lower() for f in flags if 'BUCKETS' not in f) + (' full table' if any('BUCKETS' in f for f in flags) else ''))
    fl.append('-DPROG="%s"' % nm)
    return Prog(nm, 'assoc.cpp', fl, args, opt=opt, timeout=timeout, **kw)


def string(cap, args=(), flags=(), alpha=2, opt=None, **kw):
    opt = opt or ('0' if cap <= 3 else '1')
    nm = 'STRING<%d>%s' % (cap, {(): '', ('-DWILD',): ' over {NUL, 0xff, 0x80}'}.get(tuple(flags), ' abort'))
    return Prog(nm, 'str.cpp', ['-DCAP=%d' % cap, '-DALPHA=%d' % alpha, '-DPROG="%s"' % nm] + list(flags), args, opt=opt, **kw)


def string_suite(tier):
    q = [string(0), string(1), string(2, args=['--pairs', 40000]), string(2, flags=['-DPOLICY_ABORT']), string(3), string(4), string(3, flags=['-DWILD'], args=['--pairs', 40000])] + large_suite('STRING', tier) + [sources('STRING', tier)]
    return q if tier == 'quick' else q + [string(5, alpha=3, args=['--max-states', 400000, '--time', 700], timeout=900), string(5, flags=['-DWILD'], alpha=3, args=['--max-states', 400000, '--time', 700], timeout=900), string(7, args=['--max-states', 400000, '--time', 700], timeout=900)]


def large(kind, cap, depth, elem='int', fn=None, san=True, opt='1', **kw):
    nm = 'bulk runs on %s<%s,%d>%s, depth %d' % (kind, elem, cap, ' ' + fn if fn else '', depth)
    return Prog(nm, 'large.cpp', ['-DKIND_' + kind, '-DCAP=%d' % cap, '-DDEPTH=%d' % depth, '-DELEM=' + elem, '-DPROG="%s"' % nm] + (['-DHASH_' + fn] if fn else []),
                san=san, opt=opt, **kw)


def large_suite(kind, tier):
    """Realistic and awkward capacities: all sequences of bulk runs up to a depth."""
    t = tier == 'thorough'
    if kind in ('UMAP', 'USET'):
        r = [large(kind, 257, 3 if t else 2, fn='CONST'), large(kind, 255, 3, 'Nt', fn='ID'), large(kind, 66000, 2 if t else 1, fn='DEFAULT', san=False),
             large(kind, 300, 3 if t else 2, fn='FP'), large(kind, 256, 3 if t else 2, fn='CLUSTER')]
        return r + ([large(kind, c, 3, fn=f, timeout=900) for c, f in ((127, 'CONST'), (129, 'ID'), (128, 'CLUSTER'), (256, 'DEFAULT'), (1000, 'DEFAULT'), (3000, 'CLUSTER'))] if t else [])
    if kind in ('STACK', 'QUEUE'):
        return [large(kind, 255, 5, 'Nt'), large(kind, 256, 4), large(kind, 257, 5), large(kind, 66000, 3 if t else 2, san=False)]
    nt = 'int' if kind == 'STRING' else 'Nt'
    r = [large(kind, 257, 3), large(kind, 255, 3, nt), large(kind, 256, 3), large(kind, 66000, 2 if t else 1, san=False)]
    return r + ([large(kind, c, 4, timeout=900) for c in (16, 100, 128)] + [large(kind, 1000, 3, nt, timeout=900)] if t else [])


def assoc_suite(kind, tier):
    if kind in ('MAP', 'SET'):
        q = [
            assoc(kind, 'LESS'),
            assoc(kind, 'TRANSPARENT', cap=7, nkey=8, args=['--abstract', '--time', 120]),
            assoc(kind, 'GREATER', 'Tracked', val='Tracked'),
            assoc(kind, 'STATEFUL', 'Tracked', val='int'),
            assoc(kind, 'COARSE', cap=3, nkey=6),
            assoc(kind, 'LESS', 'MoveOnly', val='MoveOnly'),
            assoc(kind, 'LESS', 'HalfTriv', val='Triv'),
            assoc(kind, 'LESS', cap=4, nkey=4, flags=['-DCONTIGUOUS'], args=['--max-states', 15000]),
            assoc(kind, 'LESS', 'Tracked', cap=3, nkey=4, val='Tracked', flags=['-DCONTIGUOUS', '-DDEDICATED']),
            assoc(kind, 'LESS', cap=3, nkey=4, flags=['-DDEDICATED']),
            assoc(kind, 'LESS', 'OddNt', cap=2, nkey=3, val='OddNt'),
            assoc(kind, 'LESS', cap=0, nkey=2),
            assoc(kind, 'LESS', cap=1, nkey=2),
            assoc(kind, 'LESS', cap=2, nkey=3, flags=['-DPOLICY_ABORT']),
            assoc(kind, 'GREATER', cap=2, nkey=3, nvals=2, args=['--pairs', 40000]),
            assoc(kind, 'STATEFUL', 'Tracked', cap=2, nkey=3, val='Tracked', args=['--pairs', 40000], opt='1'),
            assoc(kind, 'STATEFUL'),
            assoc(kind, 'STATEFUL', 'MoveOnly', cap=2, nkey=3, val='MoveOnly'),
            assoc(kind, 'STATEFUL', 'HalfTriv', cap=2, nkey=3, val='Triv', flags=['-DCONTIGUOUS', '-DDEDICATED']),
        ]
        t = [
            assoc(kind, 'LESS', cap=4, nkey=5, nvals=2, args=['--max-states', 400000, '--time', 600], timeout=900),
            assoc(kind, 'LESS', cap=10, nkey=10, args=['--abstract', '--max-states', 400000, '--time', 700], timeout=900),
            assoc(kind, 'GREATER', 'Tracked', cap=8, nkey=9, val='Tracked', args=['--abstract', '--max-states', 400000, '--time', 700], timeout=900),
            assoc(kind, 'LESS', cap=8, nkey=9, flags=['-DDEDICATED'], args=['--abstract', '--max-states', 400000, '--time', 700], timeout=900),
            assoc(kind, 'LESS', 'Tracked', cap=5, nkey=5, val='Tracked', flags=['-DCONTIGUOUS'], args=['--max-states', 400000, '--time', 700], timeout=900),
            assoc(kind, 'STATEFUL', 'Tracked', cap=4, nkey=4, val='Tracked', args=['--max-states', 400000, '--time', 600], timeout=900),
        ]
    else:
        q = [
            assoc(kind, 'CONST'),
            assoc(kind, 'FP', 'HalfTriv', val='Triv'),
            assoc(kind, 'MOD2', 'Tracked', val='Tracked'),
            assoc(kind, 'LAST', 'MoveOnly', val='MoveOnly'),
            assoc(kind, 'STATEFUL', 'Tracked', cap=3, nkey=3, val='int'),
            assoc(kind, 'COARSE', cap=2, nkey=6),
            assoc(kind, 'LAST', cap=3, nkey=4, flags=['-DBUCKETS(n)=n']),
            assoc(kind, 'ID', cap=5, nkey=6, args=['--max-depth', 5, '--max-states', 6000], flags=['-DBUCKETS(n)=n']),
            assoc(kind, 'CONST', 'OddNt', cap=2, nkey=3, val='OddNt'),
            assoc(kind, 'WY', cap=0, nkey=2),
            assoc(kind, 'WY', cap=1, nkey=2),
            assoc(kind, 'WY', cap=2, nkey=3, flags=['-DPOLICY_ABORT']),
            assoc(kind, 'LAST', cap=3, nkey=3, nvals=2 if kind == 'UMAP' else 1, args=['--pairs', 40000]),
            assoc(kind, 'STATEFUL', 'Tracked', cap=2, nkey=3, val='Tracked', args=['--pairs', 40000], opt='1'),
            assoc(kind, 'STATEFUL', cap=2, nkey=3),
            assoc(kind, 'STATEFUL', 'MoveOnly', cap=2, nkey=3, val='MoveOnly'),
            assoc(kind, 'STATEFUL', 'HalfTriv', cap=2, nkey=3, val='Triv'),
        ]
        t = [
            assoc(kind, h, cap=4, nkey=5, args=['--max-states', 400000, '--time', 700], flags=fl, timeout=900)
            for h, fl in (('CONST', []), ('FP', []), ('MOD2', ['-DBUCKETS(n)=n']), ('LAST', ['-DBUCKETS(n)=n']), ('ID', []), ('WY', []))
        ] + [
            assoc(kind, 'LAST', 'Tracked', cap=4, nkey=4, val='Tracked', args=['--max-states', 400000, '--time', 700], timeout=900),
            assoc(kind, 'MOD2', cap=6, nkey=7, args=['--max-depth', 6, '--max-states', 400000, '--time', 700], timeout=900),
        ]
    q += large_suite(kind, tier) + greedy(kind, tier) + [shapes(kind, tier), sources(kind, tier)]
    q.append(keys(0 if 'MAP' in kind else 1, 4 if tier == 'thorough' else 3))
    if 'MAP' in kind:
        q.append(refs(kind, 5 if tier == 'thorough' else 4))
    return q if tier == 'quick' else q + t


SHAPE_KINDS = ('VECTOR', 'DEQUE', 'CIRC', 'LIST', 'MAP', 'SET', 'UMAP', 'USET', 'EMAP')


def shapes(kind, tier):
    depth = (5 if kind in SHAPE_KINDS[:4] else 4) if tier == 'thorough' else 3
    nm = '%s of elements of unusual size and alignment, depth %d' % (kind, depth)
    return Prog(nm, 'shapes.cpp', ['-DKIND=%d' % SHAPE_KINDS.index(kind), '-DDEPTH=%d' % depth, '-DPROG="%s"' % nm], opt='1', timeout=900)


SOURCE_KINDS = ('VECTOR', 'DEQUE', 'CIRC', 'LIST', 'STRING', 'MAP', 'SET', 'UMAP', 'USET', 'STACK', 'QUEUE', 'CQUEUE', 'EMAP')


def sources(kind, tier):
    n = 5 if tier == 'thorough' else 4
    nm = '%s made of, fed from and assigned ranges of every kind, all sequences up to length %d' % (kind, n)
    return Prog(nm, 'sources.cpp', ['-DKIND=%d' % SOURCE_KINDS.index(kind), '-DMAXLEN=%d' % n, '-DPROG="%s"' % nm], opt='1' if n == 5 else '0', timeout=900)


API = {0: 'vector builders, all sequences of up to 4 steps', 1: 'makers of sequences, all contents up to length 5', 2: 'makers of maps and sets, all keys, every order given',
       20: 'FixedMap, every hint and overload', 21: 'FixedSet, every hint and overload', 22: 'FixedUnorderedMap, every hint and overload', 23: 'FixedUnorderedSet, every hint and overload',
       3: 'EnumMap builders and factories', 30: 'EnumSet builders and factories', 4: 'string streams, all texts up to length 5', 5: 'iterators of the raw views', 6: 'pair views and std::get', 7: 'ordinals of every enum shape'}


def api(part, only=-1):
    nm = API[part] + ({0: ' (FixedVector)', 1: ' (FixedDeque)', 2: ' (FixedCircularDeque)', 3: ' (FixedList)', 4: ' (FixedMap)', 5: ' (FixedSet)', 6: ' (FixedUnorderedMap)', 7: ' (FixedUnorderedSet)'}.get(only, ''))
    return Prog(nm, 'api.cpp', ['-DPART=%d' % part, '-DJUST=%d' % only, '-DPROG="%s"' % nm], opt='0')


def refs(kind, depth):
    nm = '%s of references, depth %d' % ({'MAP': 'FixedMap', 'UMAP': 'FixedUnorderedMap', 'EMAP': 'EnumMap'}[kind], depth)
    return Prog(nm, 'refs.cpp', ['-DKIND=%d' % ('MAP', 'UMAP', 'EMAP').index(kind), '-DDEPTH=%d' % depth, '-DPROG="%s"' % nm], opt='1', timeout=900)


def keys(part, depth, **kw):
    nm = ['maps keyed by everyday types, depth %d', 'sets of everyday types, depth %d', 'default hashing'][part]
    nm = nm % depth if part < 2 else nm
    return Prog(nm, 'keys.cpp', ['-DPART=%d' % part, '-DDEPTH=%d' % depth, '-DPROG="%s"' % nm], opt='1', **kw)


def enumc(kind, enum, val='int', args=(), flags=(), opt='0', **kw):
    nm = '%s<%s%s>%s' % ('EnumMap' if kind == 'EMAP' else 'EnumSet', enum, ',' + val if kind == 'EMAP' else '', ''.join(' ' + f[2:].lower() for f in flags))
    return Prog(nm, 'enumc.cpp', ['-DKIND_' + kind, '-DENUM=en::' + enum, '-DVAL=' + val, '-DPROG="%s"' % nm] + list(flags), args, opt=opt, **kw)


def enumarr(enum, val, args=(), **kw):
    nm = 'EnumArray<%s,%s>' % (enum, val)
    return Prog(nm, 'enumarr.cpp', ['-DENUM=en::' + enum, '-DVAL=' + val, '-DPROG="%s"' % nm], args, **kw)


def enumwide(k):
    nm = '%s of 132 and 300 enumerators, all pairs of keys' % ('EnumSet', 'EnumMap', 'EnumArray')[k]
    return Prog(nm, 'enumwide.cpp', ['-DKIND=%d' % k, '-DPROG="%s"' % nm], opt='2', timeout=600)


def emap_suite(tier):
    return [enumc('EMAP', 'Plain', 'int'), enumc('EMAP', 'Gaps', 'Tracked'), enumc('EMAP', 'Rich', 'MoveOnly'),
            enumc('EMAP', 'Ad', 'HalfTriv'), enumc('EMAP', 'Old', 'Triv'), enumc('EMAP', 'None_', 'int'),
            enumc('EMAP', 'Gaps', 'int', flags=['-DPOLICY_ABORT']), enumc('EMAP', 'Old', 'int', ['--pairs', 40000]), enumc('EMAP', 'Old', 'OddNt'), refs('EMAP', 5 if tier == 'thorough' else 4)] + greedy('EMAP', tier) + [shapes('EMAP', tier), sources('EMAP', tier), enumwide(1)] + (
        [enumc('EMAP', 'Many', 'int', flags=['-DNVALS=1'], opt='1', timeout=900), enumc('EMAP', 'Bool', 'Tracked', flags=['-DNVALS=3'])] if tier == 'thorough' else [])


def eset_suite(tier):
    return [enumc('ESET', 'Plain', args=['--pairs', 40000]), enumc('ESET', 'Gaps', args=['--pairs', 40000])] + [enumc('ESET', e) for e in ('Plain', 'Gaps', 'Many', 'Rich', 'Ad', 'Bool', 'One', 'Old', 'None_')] + [enumwide(0)]


def earr_suite(tier):
    return [enumarr('Plain', 'int'), enumarr('Gaps', 'Tracked'), enumarr('Ad', 'HalfTriv'), enumarr('One', 'int'), enumarr('None_', 'int'), enumwide(2)]


def adapter(kind, elem, cap, nval=2, args=(), flags=(), **kw):
    nm = '%s<%s,%d>%s' % ({'STACK': 'FixedStack', 'QUEUE': 'FixedQueue', 'CQUEUE': 'FixedCircularQueue'}[kind], elem, cap, ' abort' if flags else '')
    return Prog(nm + (' raw' if '--max-depth' in [str(a) for a in args] else ''), 'adapters.cpp',
                ['-DAD_' + kind, '-DELEM=' + elem, '-DCAP=%d' % cap, '-DNVAL=%d' % nval, '-DPROG="%s"' % nm] + list(flags), args, **kw)


def adapter_suite(kind, tier):
    q = [adapter(kind, 'int', 3, 2, ['--abstract', '--pairs', 100000]), adapter(kind, 'Tracked', 2, 2, ['--abstract', '--pairs', 20000]),
         adapter(kind, 'MoveOnly', 2, 2, ['--abstract', '--pairs', 20000]), adapter(kind, 'int', 1, 2, ['--max-depth', 14]),
         adapter(kind, 'Tracked', 3, 1, ['--max-depth', 14]), adapter(kind, 'int', 2, 2, ['--abstract'], flags=['-DPOLICY_ABORT'])]
    q += large_suite(kind, tier) if kind != 'CQUEUE' else []
    q.append(sources(kind, tier))
    return q if tier == 'quick' else q + [adapter(kind, 'int', 6, 2, ['--abstract', '--pairs', 400000], opt='1', timeout=900), adapter(kind, 'Tracked', 5, 2, ['--abstract'], opt='1', timeout=900)]


VALUE_MASK = SEM | ITER | CRASH | CHK | CMP | COPY


def reg(pid, mask, quick, thorough, assumptions=()):
    PROPERTIES[pid] = {'mask': mask, 'quick': quick, 'thorough': thorough, 'assumptions': list(assumptions)}


BEHAVES = SEM | ITER | CRASH | LIFE | COPY | CMP
for _pid, _c in (('P01', 'VECTOR'), ('P02', 'DEQUE'), ('P03', 'CIRC'), ('P04', 'LIST')):
    _extra = (lambda t: adapter_suite('CQUEUE', t) + [api(1, 2)]) if _pid == 'P03' else (lambda t: [api(0), api(1, 0)]) if _pid == 'P01' else (lambda t: [api(1, 1)]) if _pid == 'P02' else (lambda t: [api(1, 3)])
    reg(_pid, BEHAVES, seq_suite(_c, 'quick') + _extra('quick'), seq_suite(_c, 'thorough') + _extra('thorough'))
reg('P05', BEHAVES | NULTERM, string_suite('quick') + [api(4)], string_suite('thorough') + [api(4)])
for _pid, _c in (('P06', 'MAP'), ('P07', 'SET'), ('P08', 'UMAP'), ('P09', 'USET')):
    _k = ('MAP', 'SET', 'UMAP', 'USET').index(_c)
    _api = [api(2, 4 + _k), api(20 + _k)]
    reg(_pid, BEHAVES, assoc_suite(_c, 'quick') + _api, assoc_suite(_c, 'thorough') + _api)
reg('P10', BEHAVES, emap_suite('quick') + earr_suite('quick') + [api(3)], emap_suite('thorough') + earr_suite('thorough') + [api(3)])
reg('P11', BEHAVES, eset_suite('quick') + [api(30)], eset_suite('thorough') + [api(30)])
reg('P12', BEHAVES, adapter_suite('STACK', 'quick') + adapter_suite('QUEUE', 'quick') + greedy('STACK', 'quick'),
    adapter_suite('STACK', 'thorough') + adapter_suite('QUEUE', 'thorough') + greedy('STACK', 'thorough'))
reg('P24', MISC | CHK | LIFE | CRASH, [Prog('rich enums and adapters', 'richenum.cpp'), api(7)], [Prog('rich enums and adapters', 'richenum.cpp'), api(7)])


def with_args(progs, args):
    for p in progs:
        p.args = p.args + [str(a) for a in args]
    return progs


def cross(tier, classes=('triv', 'tracked', 'moveonly'), abort=False, pairs=0, deep=True):
    """Every container once per element class, at bounds that close."""
    r = []
    for c in ('VECTOR', 'DEQUE', 'CIRC', 'LIST'):
        if 'triv' in classes:
            r.append(seq(c, 'int', 3, 2))
        if 'tracked' in classes:
            r.append(seq(c, 'Tracked', 3, 1 if pairs else 2))
        if 'moveonly' in classes:
            r.append(seq(c, 'MoveOnly', 2, 2))
        if abort:
            r.append(seq(c, 'int', 2, 2, abort=True))
            r.append(seq(c, 'int', 0, 2))
    if 'triv' in classes:
        r.append(string(3))
    if abort:
        r += [string(2, flags=['-DPOLICY_ABORT']), string(0)]
    for k in ('MAP', 'SET'):
        if 'triv' in classes:
            r.append(assoc(k, 'LESS', cap=3, nkey=4))
            r.append(assoc(k, 'LESS', cap=3, nkey=4, flags=['-DCONTIGUOUS', '-DDEDICATED']))
        if 'tracked' in classes:
            r.append(assoc(k, 'STATEFUL', 'Tracked', cap=3, nkey=3, val='Tracked'))
        if 'moveonly' in classes:
            r.append(assoc(k, 'LESS', 'MoveOnly', cap=2, nkey=3, val='MoveOnly'))
        if abort:
            r += [assoc(k, 'LESS', cap=2, nkey=3, flags=['-DPOLICY_ABORT']), assoc(k, 'LESS', cap=0, nkey=2)]
    for k in ('UMAP', 'USET'):
        if 'triv' in classes:
            r.append(assoc(k, 'LAST', cap=3, nkey=4, flags=['-DBUCKETS(n)=n']))
        if 'tracked' in classes:
            r.append(assoc(k, 'MOD2', 'Tracked', cap=3, nkey=3, val='Tracked'))
            if pairs:
                r.append(assoc(k, 'STATEFUL', 'Tracked', cap=2, nkey=3, val='int'))
        if 'moveonly' in classes:
            r.append(assoc(k, 'CONST', 'MoveOnly', cap=2, nkey=3, val='MoveOnly'))
        if abort:
            r += [assoc(k, 'WY', cap=2, nkey=3, flags=['-DPOLICY_ABORT']), assoc(k, 'WY', cap=0, nkey=2)]
    if 'triv' in classes:
        r += [enumc('EMAP', 'Old', 'int'), enumc('ESET', 'Plain')]
        if not pairs:
            r.append(enumarr('Plain', 'int'))
        r += [adapter(k, 'int', 3, 2, ['--abstract']) for k in ('STACK', 'QUEUE', 'CQUEUE')]
    if 'tracked' in classes:
        r += [enumc('EMAP', 'Old', 'Tracked')]
        r += [enumarr('Old', 'Tracked')] if not pairs else []
        r += [adapter(k, 'Tracked', 2, 2, ['--abstract']) for k in ('STACK', 'QUEUE', 'CQUEUE')]
    if 'moveonly' in classes:
        r += [enumc('EMAP', 'Bool', 'MoveOnly')] + [adapter(k, 'MoveOnly', 2, 2, ['--abstract']) for k in ('STACK', 'QUEUE')]
    if abort:
        r += [enumc('EMAP', 'Old', 'int', flags=['-DPOLICY_ABORT'])] + [adapter(k, 'int', 2, 2, ['--abstract'], flags=['-DPOLICY_ABORT']) for k in ('STACK', 'QUEUE', 'CQUEUE')]
    if pairs:
        for p in r:
            if p.src == 'assoc.cpp' and 'Tracked' in p.name:
                p.opt = '1'
        with_args(r, ['--pairs', pairs])
    if 'tracked' in classes:
        n = 2 if pairs else 3
        r += [assoc(k, 'LESS', 'Tracked', cap=n, nkey=n + 1, val='Tracked', flags=['-DCONTIGUOUS', '-DDEDICATED'], args=['--pairs', pairs] if pairs else []) for k in ('MAP', 'SET')]
        r += [assoc(k, 'LAST', 'Tracked', cap=2, nkey=3, val='Tracked', flags=['-DBUCKETS(n)=n'], args=['--pairs', pairs] if pairs else []) for k in ('UMAP', 'USET')]
    if 'triv' in classes:
        r += [assoc(k, 'GREATER', cap=3, nkey=4, flags=['-DDEDICATED'], args=['--pairs', pairs] if pairs else []) for k in ('MAP', 'SET')]
        if pairs:
            r += [assoc(k, 'STATEFUL', cap=2, nkey=3, args=['--pairs', pairs]) for k in ('MAP', 'SET', 'UMAP', 'USET')]
    if deep:
        r += [assoc(k, 'TRANSPARENT', 'Tracked' if 'tracked' in classes else 'int', cap=6, nkey=7, val='int', args=['--abstract']) for k in ('MAP', 'SET')]
        r += [seq(c, 'Tracked' if 'tracked' in classes else 'int', 6, 1, ['--max-depth', 2, '--max-states', 8000, '--time', 60], wide=True, maxrange=4, opt='1') for c in ('VECTOR', 'DEQUE', 'CIRC', 'LIST')]
    if tier == 'thorough':
        for c in ('VECTOR', 'DEQUE', 'CIRC', 'LIST'):
            if 'triv' in classes:
                r += with_args([seq(c, 'int', 4, 2, ['--time', 400], opt='1', timeout=1500), seq(c, 'Triv', 3, 2, opt='1')], ['--pairs', pairs * 4] if pairs else [])
            if 'tracked' in classes:
                r += with_args([seq(c, 'Tracked', 4, 1 if pairs else 2, ['--time', 400], opt='1', timeout=1500), seq(c, 'HalfTriv', 3, 2, opt='1')], ['--pairs', pairs * 4] if pairs else [])
            if 'moveonly' in classes:
                r += with_args([seq(c, 'MoveOnly', 4, 1 if pairs else 2, ['--time', 400], opt='1', timeout=1500)], ['--pairs', pairs * 4] if pairs else [])
            if not pairs:
                r.append(seq(c, 'Tracked', 9, 1, ['--max-depth', 2, '--time', 300, '--max-states', 1000000], wide=True, maxrange=6, opt='1', timeout=900))
        for k in ('MAP', 'SET'):
            r += with_args([assoc(k, 'TRANSPARENT', cap=7, nkey=8, args=['--abstract', '--time', 300], timeout=1500),
                            assoc(k, 'GREATER', 'Tracked', cap=6, nkey=7, val='Tracked', args=['--abstract', '--time', 300], timeout=1500),
                            assoc(k, 'LESS', cap=4, nkey=5, args=['--time', 300], timeout=1500),
                            assoc(k, 'LESS', 'HalfTriv', val='Triv')], ['--pairs', pairs * 4] if pairs else [])
        for k in ('UMAP', 'USET'):
            r += with_args([assoc(k, 'CONST', cap=4, nkey=4, args=['--time', 300], timeout=1500), assoc(k, 'FP', cap=3, nkey=4, timeout=1500),
                            assoc(k, 'LAST', 'Tracked', cap=4, nkey=4, val='Tracked', args=['--time', 300], timeout=1500)], ['--pairs', pairs * 4] if pairs else [])
        r += [enumc('EMAP', 'Plain', 'int', opt='1'), enumc('EMAP', 'Gaps', 'Tracked', opt='1'), enumc('ESET', 'Many')]
    return r


def both(f):
    return f('quick'), f('thorough')


reg('P13', CHK | CRASH, *both(lambda t: cross(t, ('triv', 'tracked'), abort=True, deep=False)))
reg('P14', LIFE, *both(lambda t: cross(t, ('tracked', 'moveonly')) + [seq(c, 'HalfTriv', 2, 2) for c in ('VECTOR', 'DEQUE', 'CIRC', 'LIST')] + [
    Prog('container assignment of instance counters', 'halfassign.cpp', ['-DPROG="container assignment of instance counters"'])]))
reg('P15', COPY | LIFE, *both(lambda t: cross(t, pairs=20000)))
reg('P16', STAB, *both(lambda t: cross(t, ('triv', 'tracked')) + [large(k, 300, 3) for k in ('LIST', 'MAP', 'SET')] + [large(k, 300, 2, fn=f) for k in ('UMAP', 'USET') for f in ('ID', 'FP')]))


def algos(k, tier):
    n = 5 if tier == 'thorough' else 3 if k in (1, 2, 3) else 4
    nm = 'std algorithms over %s, all words up to length %d' % (('FixedVector', 'FixedDeque', 'FixedCircularDeque', 'FixedList', 'ordered maps and sets', 'unordered maps and sets', 'enum containers', 'FixedString')[k], n)
    return Prog(nm, 'algos.cpp', ['-DKIND=%d' % k, '-DMAXLEN=%d' % n, '-DPROG="%s"' % nm], opt='1' if n == 5 else '0', timeout=900)


reg('P17', ITER, *both(lambda t: cross(t, ('triv', 'tracked')) + [algos(k, t) for k in range(8)]))


def cmpp(part, n=3, **kw):
    nm = 'comparisons of ' + ['partially ordered elements', 'weakly ordered elements', 'elements that only have ==', 'maps', 'sets and enum arrays', 'one-byte elements', 'multi-byte elements', 'elements with padding', 'bool, byte and enum elements', '64-bit elements', 'floating point elements', 'entries with padding'][part]
    return Prog(nm, 'cmp.cpp', ['-DPART=%d' % part, '-DMAXN=%d' % n, '-DPROG="%s"' % nm], opt='1', san=part < 5, **kw)


reg('P18', CMP, *both(lambda t: [cmpp(i, 3 if t == 'quick' else 4) for i in (5, 6, 7, 8, 9, 10, 11, 3, 4, 0, 1, 2)] + cross(t, ('triv', 'tracked'), pairs=40000)))
reg('P19', RELOC, *both(lambda t: cross(t, ('triv',)) + [large(k, 257, 2) for k in ('VECTOR', 'DEQUE', 'CIRC', 'LIST', 'STRING', 'STACK', 'QUEUE', 'MAP', 'SET')] + [large(k, 257, 2, fn='ID') for k in ('UMAP', 'USET')]))

def alloc(i):
    nm = 'every operation above small-buffer sizes, part %d' % i
    return Prog(nm, 'alloc.cpp', ['-DPART=%d' % i, '-DPROG="%s"' % nm])


reg('P27', ALLOC, *both(lambda t: [alloc(i) for i in range(4)] + cross(t, ('triv', 'tracked'))))


def balance(kind, cap, flags=(), large=None, **kw):
    nm = 'balance %s<%d>%s%s' % (kind, cap, ''.join(' ' + f[2:].lower() for f in flags), ' structured runs %s' % large if large else '')
    return Prog(nm, 'balance.cpp', ['-DKIND_' + kind, '-DCAP=%d' % cap, '-DPROG="%s"' % nm.replace('"', '')] + list(flags) + (['-DLARGE=' + large] if large else []),
                opt='2' if large else '1', san=not large, **kw)


def balance_suite(t):
    r = [balance('MAP', 16), balance('SET', 15, ['-DDEDICATED']), balance('MAP', 11, ['-DCONTIGUOUS']), balance('SET', 11, ['-DCONTIGUOUS', '-DDEDICATED']),
         balance('MAP', 1500, large='{300,4},{40,5},{3000,3}'), balance('SET', 1500, ['-DDEDICATED'], large='{200,4},{50,4},{3000,3}')]
    if t == 'thorough':
        r += [balance('MAP', 18, args=['--max-states', 2000000, '--time', 900], timeout=1500), balance('SET', 16, ['-DCONTIGUOUS'], args=['--time', 600], timeout=1500),
              balance('MAP', 6000, large='{1000,5},{17,6},{9000,4}', timeout=3000)]
    return r


reg('P21', BAL | CRASH, *both(balance_suite))


def rawview(part, sub=None):
    nm = 'raw views of %s%s' % (['deques', 'linked lists', 'unordered containers', 'ordered containers'][part], '' if sub is None else ' #%d' % sub)
    return Prog(nm, 'rawview.cpp', ['-DPART=%d' % part, '-DSUB=%d' % (sub or 0), '-DPROG="%s"' % nm])


reg('P22', VIEW | CRASH, *both(lambda t: [rawview(3, 0), rawview(3, 1), rawview(3, 2), rawview(2), rawview(1), rawview(0), rawview(3, 3), api(5)]))

reg('P23', MISC | CRASH | LIFE, [Prog('integer ranges and index arithmetic', 'ranges.cpp', ['-DPROG="integer ranges"'], opt='1')],
    [Prog('integer ranges and index arithmetic', 'ranges.cpp', ['-DPROG="integer ranges"', '-DMAXLEN=24'], opt='1')])

reg('P25', MISC | CRASH | LIFE, [Prog('optional references', 'optref.cpp', ['-DPROG="optional references"', '-DNVAL=3'], opt='1')],
    [Prog('optional references', 'optref.cpp', ['-DPROG="optional references"', '-DNVAL=6'], opt='1')])



def structview(part, **kw):
    nm = 'struct views: ' + ['decomposition 1..128', 'reflection and ranges', 'flat structs', 'arrays and vectors', 'containers of containers', 'optionals', 'deep nesting',
                             'decomposition 129..512', 'decomposition 513..768', 'decomposition 769..1024', 'large offsets and extents'][part]
    fl = ['-DPART=%d' % part, '-DPROG="%s"' % nm] + (['-DFIXED_CONTAINERS_EXTENDED_STRUCT_DECOMPOSITION_1024=1', '-fbracket-depth=2048'] if part in (7, 8, 9) else [])
    return Prog(nm, 'structview.cpp', fl, opt='0', san=part not in (0, 7, 8, 9), **kw)


reg('P26', MISC | CRASH, *both(lambda t: [structview(i) for i in (10, 9, 8, 7, 6, 5, 4, 3, 2, 1, 0)]))



def cexpr(kind, elem, depth=2, compiler='clang++', extra=()):
    nm = 'constant evaluation of %s<%s> depth %d%s (%s)' % (kind, elem, depth, ''.join(' ' + f[2:] for f in extra), compiler)
    fl = ['-DKIND=' + kind, '-DELEM=' + elem, '-DDEPTH=%d' % depth, '-DPROG="%s"' % nm] + list(extra)
    # gcc with -fsanitize=undefined refuses addresses of subobjects in constant expressions (a gcc defect)
    if compiler == 'g++':
        return Prog(nm, 'cexpr.cpp', fl + ['-fconstexpr-ops-limit=4000000000', '-fconstexpr-loop-limit=1000000', '-fconstexpr-cache-depth=2'], compiler='g++', san='address')
    return Prog(nm, 'cexpr.cpp', fl + ['-fconstexpr-steps=%d' % (200000000 if depth <= 2 else 2000000000)])


CX = ('MAP', 'CIRC', 'DEQUE', 'UMAP', 'SET', 'VECTOR', 'LIST', 'EMAP', 'USET', 'ESET', 'STRING', 'EARR', 'STACK', 'QUEUE', 'CQUEUE')


def cexpr_suite(t):
    r = []
    for e in ('NonTriv', 'Owner', 'int'):
        r += [cexpr(k, e) for k in CX if e == 'int' or k not in ('STRING', 'ESET')]
    r += [cexpr(k, 'int', 2, 'g++') for k in ('VECTOR', 'LIST', 'STRING', 'USET', 'ESET', 'EARR', 'STACK', 'QUEUE', 'CQUEUE')]
    if t == 'thorough':
        r = [cexpr(k, 'int', 3) for k in CX] + r
        r += [cexpr(k, 'int', 2, extra=['-DHASH=Hash0']) for k in ('UMAP', 'USET')]
        # gcc shares one constant among the elements of a value-initialised array member (a gcc defect): no EARR of Owner
        r += [cexpr(k, e, 2, 'g++') for e in ('NonTriv', 'Owner') for k in CX if k not in ('STRING', 'ESET') and (k, e) != ('EARR', 'Owner')]
        r += [cexpr(k, 'int', 2, 'g++') for k in ('MAP', 'CIRC', 'DEQUE', 'UMAP', 'SET', 'EMAP')]
    return r


reg('P20', CEXPR | CRASH, *both(cexpr_suite))

reg('P28', MISC | SEM | CRASH | LIFE | CEXPR, [keys(2, 0), keys(0, 3), keys(1, 3)], [keys(2, 0), keys(0, 4, timeout=900), keys(1, 4, timeout=900)])
reg('P29', MISC | CRASH | LIFE, [Prog('value utilities', 'utils.cpp', ['-DPROG="value utilities"'], opt='1'), api(6)], [Prog('value utilities', 'utils.cpp', ['-DPROG="value utilities"'], opt='1'), api(6)])



def types(part):
    nm = ['special members of elements and containers', 'sequences as template arguments', 'associative containers as template arguments', 'elements of every size and alignment', 'everyday elements, capacities'][part]
    return Prog(nm, 'types.cpp', ['-DPART=%d' % part, '-DPROG="%s"' % nm])


reg('P30', MISC | CRASH, [types(i) for i in range(5)], [types(i) for i in range(5)])

TECHNIQUE = {'*': 'explicit-state model checking of the real code: breadth-first enumeration of all operation sequences against a std reference model'}
NOTE = {'*': 'Exhaustive within the stated capacities, element types, value domains and operation alphabet (closure of the reachable state space where reported, otherwise all sequences up to the reported depth); every transition executes the real code under ASan/UBSan. Nothing is claimed beyond those bounds.'}
