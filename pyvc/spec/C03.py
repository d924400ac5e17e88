"""Clamping and guarded arithmetic (core/dataproc/num.py Num)."""
from ..harness import *
from ..core import logF, log10F
suite = Suite()
MOD = 'core.dataproc.num'


def clampd(x, lo, hi):
    r = x
    if lo is not None: r = ite(r < lo, lo, r)
    if hi is not None: r = ite(r > hi, hi, r)
    return r


def bounds(h, haslo, hashi, k='r'):
    mkv = h.real if k == 'r' else h.int
    lo = mkv('lo') if haslo else None
    hi = mkv('hi') if hashi else None
    if haslo and hashi: h.assume(lo <= hi)
    return lo, hi


def expect(h, name, o, x, lo, hi):
    """the statement of the property, spelled out"""
    inside = conj(*([x >= lo] if lo is not None else []), *([x <= hi] if hi is not None else []))
    h.prove(name + ': unchanged inside', imp(inside, o == x))
    if lo is not None: h.prove(name + ': lower limit below', imp(x < lo, o == lo))
    if hi is not None: h.prove(name + ': upper limit above', imp(x > hi, o == hi))


for haslo in (0, 1):
    for hashi in (0, 1):
        tag = f'lo={haslo} hi={hashi}'
        for fname in ('bound', 'bound_scalar'):
            for k in ('r', 'i'):
                @suite.case(f'{fname} of a scalar ({tag}, {k})')
                def _(h, haslo=haslo, hashi=hashi, fname=fname, k=k):
                    Num = h.mod(MOD).Num
                    lo, hi = bounds(h, haslo, hashi, k)
                    x = h.real('x') if k == 'r' else h.int('x')
                    kw = {}
                    if haslo: kw['lo'] = lo
                    if hashi: kw['hi'] = hi
                    o = getattr(Num, fname)(x, **kw)
                    expect(h, 'scalar', o, x, lo, hi)
        for fname in ('bound', 'bound_array'):
            for copy in (True, False):
                for nd, k in ((1, 'r'), (2, 'r'), (1, 'i')):
                    @suite.case(f'{fname} of an array ({tag} copy={copy} {nd}d {k})')
                    def _(h, haslo=haslo, hashi=hashi, fname=fname, copy=copy, nd=nd, k=k):
                        Num = h.mod(MOD).Num
                        lo, hi = bounds(h, haslo, hashi, k)
                        shape = tuple(h.size(f'n{d}') for d in range(nd))
                        x = h.array('x', shape, 'f8' if k == 'r' else 'i8')
                        x0 = x.snap()
                        kw = {} if copy else {'copy': False}
                        o = getattr(Num, fname)(x, lo, hi, **kw)
                        h.shape('result shape', o, shape)
                        ix = [h.idx(n) for n in shape]
                        expect(h, 'element', at(o, ix), S(x0(tuple(C.lift(i) for i in ix))), lo, hi)
                        if copy:
                            h.independent('result does not share storage', o, x)
                            h.unchanged('input unchanged', x, x0)
                        else:
                            h.same_object('in place result is the input', o.buf, x.buf)


@suite.case('bound: scalar and array agree')
def _(h):
    Num = h.mod(MOD).Num
    lo, hi = bounds(h, 1, 1)
    n = h.size('n'); x = h.array('x', (n,)); j = h.idx(n)
    h.eq('same value', at(Num.bound(x, lo, hi), j), Num.bound(at(x, j), lo, hi))


for deflo in (0, 1):
    @suite.case(f'safe_div (default floor={deflo})')
    def _(h, deflo=deflo):
        Num = h.mod(MOD).Num
        n = h.size('n')
        x, y = h.array('x', (n,)), h.array('y', (n,))
        y0, x0 = y.snap(), x.snap()
        lo = 1.0e-10 if deflo else h.real('lo', gt=0)
        o = Num.safe_div(x, y) if deflo else Num.safe_div(x, y, lo)
        h.shape('shape', o, (n,))
        j = h.idx(n)
        yj = at(y, j)
        d = ite(yj < lo, lo, yj)
        h.prove('equals division by the operand raised to the floor', at(o, j) * d == at(x, j))
        h.unchanged('divisor unchanged', y, y0); h.unchanged('dividend unchanged', x, x0)

    @suite.case(f'safe_div of scalars (default floor={deflo})')
    def _(h, deflo=deflo):
        Num = h.mod(MOD).Num
        x, y = h.real('x'), h.real('y')
        lo = 1.0e-10 if deflo else h.real('lo', gt=0)
        o = Num.safe_div(x, y) if deflo else Num.safe_div(x, y, lo)
        d = ite(y < lo, lo, y)
        h.prove('equals division by the operand raised to the floor', o * d == x)

    for nm, F in (('safe_lg', log10F), ('safe_ln', logF)):
        for nargs in (1, 2, 3):
            @suite.case(f'{nm} (default floor={deflo}, {nargs} arguments)')
            def _(h, deflo=deflo, nm=nm, F=F, nargs=nargs):
                Num = h.mod(MOD).Num
                n = h.size('n')
                xs = [h.array(f'x{k}', (n,)) for k in range(nargs - 1)] + [h.real('s')]
                sn = [x.snap() for x in xs[:-1]]
                lo = 1.0e-10 if deflo else h.real('lo', gt=0)
                o = getattr(Num, nm)(*xs) if deflo else getattr(Num, nm)(*xs, lo=lo)
                outs = [o] if nargs == 1 else o
                h.prove('one result per argument', isinstance(outs, (tuple, list)) and len(outs) == nargs)
                j = h.idx(n)
                for k, (x, r) in enumerate(zip(xs, outs)):
                    v = at(x, j) if isinstance(x, SArr) else x
                    a = ite(v < lo, lo, v)
                    h.eq(f'argument {k}: log of the operand raised to the floor', at(r, j) if isinstance(r, SArr) else r,
                         S(F(C.toreal(a))))
                for x, s in zip(xs[:-1], sn): h.unchanged('input unchanged', x, s)

            @suite.case(f'{nm[5:]} ({nargs} arguments, floor {deflo})')
            def _(h, nm=nm, F=F, nargs=nargs):
                Num = h.mod(MOD).Num
                xs = [h.real(f's{k}', gt=0) for k in range(nargs)]
                o = getattr(Num, nm[5:])(*xs)
                outs = [o] if nargs == 1 else o
                for k, (x, r) in enumerate(zip(xs, outs)):
                    h.eq(f'argument {k}', r, S(F(C.toreal(x))))


@suite.case('safe_ln / safe_lg of one array')
def _(h):
    Num = h.mod(MOD).Num
    n, m = h.size('n'), h.size('m')
    x = h.array('x', (n, m)); lo = h.real('lo', gt=0)
    x0 = x.snap()
    for nm, F in (('safe_lg', log10F), ('safe_ln', logF)):
        o = getattr(Num, nm)(x, lo=lo)
        h.shape('shape', o, (n, m))
        i, j = h.idx(n), h.idx(m)
        v = at(x, i, j)
        h.eq(nm, at(o, i, j), S(F(C.toreal(ite(v < lo, lo, v)))))
    h.unchanged('input unchanged', x, x0)


def sumsq(get, m):
    from ..arr import mk_sum
    return S(mk_sum(lambda k: C.toreal(get(S(k)) * get(S(k))), C.lift(m), R))


for axis in (-1, 0, 1, None):
    for nd in (1, 2):
        if axis == 1 and nd == 1: continue
        for keep in (False, True):
            @suite.case(f'norm ({nd}d axis={axis} keepdims={keep})')
            def _(h, axis=axis, nd=nd, keep=keep):
                Num = h.mod(MOD).Num
                n, m = h.size('n', lo=1), h.size('m', lo=1)
                x = h.array('x', (n, m)[:nd])
                if axis is None and nd == 2: axis_ = -1
                else: axis_ = axis
                o = Num.norm(x, axis=axis_, keepdims=keep) if axis != None else Num.norm(x, keepdims=keep)
                ax = -1 if axis is None else axis
                if nd == 1:
                    want = C.m_sqrt(sumsq(lambda k: at(x, k), n))
                    h.eq('norm', at(o, 0) if keep else at(o) if isinstance(o, SArr) else o, want)
                elif ax in (-1, 1):
                    i = h.idx(n)
                    h.shape('shape', o, (n, 1) if keep else (n,))
                    h.eq('norm', at(o, i, 0) if keep else at(o, i), C.m_sqrt(sumsq(lambda k: at(x, i, k), m)))
                else:
                    j = h.idx(m)
                    h.shape('shape', o, (1, m) if keep else (m,))
                    h.eq('norm', at(o, 0, j) if keep else at(o, j), C.m_sqrt(sumsq(lambda k: at(x, k, j), n)))

for axis in (-1, 0, None):
    for nd in (1, 2):
        for inplace in (False, True):
            for deflo in (False, True):
                if deflo and axis == 0: continue
                @suite.case(f'normalize ({nd}d axis={axis} inplace={inplace} default floor={deflo})')
                def _(h, axis=axis, nd=nd, inplace=inplace, deflo=deflo):
                    Num = h.mod(MOD).Num
                    n, m = h.size('n', lo=1), h.size('m', lo=1)
                    x = h.array('x', (n, m)[:nd])
                    x0 = x.snap()
                    lo = 1.0e-10 if deflo else h.real('lo', gt=0)
                    kw = {}
                    if not deflo: kw['lo'] = lo
                    if axis is not None: kw['axis'] = axis
                    if inplace: kw['inplace'] = True
                    o = Num.normalize(x, **kw)
                    h.shape('shape', o, (n, m)[:nd])
                    ax = -1 if axis is None else axis
                    g0 = lambda *ix: S(x0(tuple(C.lift(i) for i in ix)))
                    if nd == 1:
                        ss = sumsq(lambda k: g0(k), n); i = h.idx(n)
                        oi, xi = at(o, i), g0(i); os_ = lambda: sumsq(lambda k: at(o, k), n)
                    elif ax == -1:
                        i, j = h.idx(n), h.idx(m)
                        ss = sumsq(lambda k: g0(i, k), m); oi, xi = at(o, i, j), g0(i, j)
                        os_ = lambda: sumsq(lambda k: at(o, i, k), m)
                    else:
                        i, j = h.idx(n), h.idx(m)
                        ss = sumsq(lambda k: g0(k, j), n); oi, xi = at(o, i, j), g0(i, j)
                        os_ = lambda: sumsq(lambda k: at(o, k, j), n)
                    nr = C.m_sqrt(ss)
                    h.prove('equals division by the length raised to the floor', oi * ite(nr < lo, lo, nr) == xi)
                    h.prove('unit length above the floor', imp(nr >= lo, os_() == 1))
                    h.prove('direction unchanged', conj(imp(xi > 0, oi > 0), imp(xi < 0, oi < 0), imp(xi == 0, oi == 0)))
                    if inplace:
                        h.same_object('in place', o.buf, x.buf)
                    else:
                        h.independent('no shared storage', o, x)
                        h.unchanged('input unchanged', x, x0)
