"""P16: the storages of the crate.  Each one is shown to satisfy what the rest of the crate assumes of an abstract storage."""
import z3
from core import *
from spec import *
import builtin_specs as B
from contracts import case, CASES, USE, SZ, SZC, GV, T, S

U = ('adt', 'U', ())
A_ = ('adt', 'A', ())
SYM = dict(symsizes=True)
ONE = ('sized',)


def szof(x, t):
    return B.size_of(x.i, x.m, t)


def alof(x, t):
    return B.align_of(x.i, x.m, t)


def result(x):
    """what the body returned (the contract characterises it)"""
    if x.out[0] != 'ret':
        x.m.prove(False, 'post: must not panic')
        raise PathEnd()
    return x.out[1]


def prove_floor(x, r, bytes_, so, what='post: '):
    """r is how many values of so bytes fit in bytes_ bytes (at most the largest integer)"""
    m = x.m
    m.prove(land(le(0, r), le(r, MAX)), what + 'capacity is a machine integer')
    m.prove(implies(eq(so, 0), le(IMAX, r)), what + 'any number of zero-sized values fit')
    p = m.mul(r, so)
    m.prove(implies(lt(0, so), le(p, bytes_)), what + 'no more room is reported than the bytes can hold')
    m.prove(implies(lt(0, so), lor(lt(bytes_, add(p, so)), eq(r, MAX))), what + 'all the room is reported')


def prove_ceil(x, r, bytes_, so, what='post: '):
    """r values of so bytes are the fewest that cover bytes_ bytes (at most the largest integer)"""
    m = x.m
    m.prove(land(le(0, r), le(r, MAX)), what + 'request is a machine integer')
    p = m.mul(r, so)
    m.prove(implies(lt(0, so), lor(le(bytes_, p), eq(r, MAX))), what + 'the request covers the bytes asked for')
    m.prove(implies(lt(0, so), lor(eq(r, 0), lt(p, add(bytes_, so)))), what + 'no more than needed is requested')


def sp_capacity(x, old, ss, so, rnd):
    m = x.m
    r = result(x)
    if x.branch(eq(so, 0)):
        m.prove(le(IMAX, r), 'post: any number of zero-sized values fit')
        return r
    p = m.mul(old, ss)
    if x.branch(eq(rnd.variant, x.w.down)):
        prove_floor(x, r, p, so)
    else:
        prove_ceil(x, r, p, so)
    return r


def enum_variants(mod, name):
    """variant numbers of a field-less enum of the crate, by name"""
    import re, os
    src = mod.root
    for d, _, fs in os.walk(os.path.join(src, 'src')):
        for f in fs:
            t = open(os.path.join(d, f)).read()
            r = re.search(r'\benum %s\s*\{([^}]*)\}' % name, t)
            if r:
                vs = [v.strip() for v in re.sub(r'//[^\n]*', '', r.group(1)).split(',')]
                return {v: i for i, v in enumerate(v for v in vs if v)}
    raise Unsupported('lost anchor: enum ' + name)


def rounding(w):
    vs = enum_variants(w.mod, 'Round')
    if set(vs) != {'Up', 'Down'}:
        raise Unsupported('lost anchor: enum Round')
    w.down = vs['Down']
    k = w.int('rounding', 0, 1)
    return Agg(('adt', 'Round', ()), k, {})


case('capacity', lambda w: [w.int('old'), w.int('size_self', 0, IMAX), w.int('size_other', 0, IMAX), rounding(w)], sp_capacity, modes=ONE, ex=SYM, pick=lambda f: len(f.params) == 4)


# ------------------------------------------------------------------ generic shape of a fixed storage
def fixed(key, mk, cap, ptr, modes=ONE, ex=SYM, env=None, **kw):
    """Storage for a storage that never grows.
    mk(w) -> &mut self;  cap(x, r) -> proves the capacity value r right;  ptr(x, self) -> its address"""
    def sp_cap(x, s):
        r = result(x)
        cap(x, r)
        return r

    def fits(x, n):
        """does a request for n elements fit?"""
        return x.branch(x.w.fits(x, n))

    def sp_reserve(x, s, n):
        if not fits(x, n):
            x.panic()
        return UNITV

    def sp_try(x, s, n):
        return fits(x, n)

    e = dict(env or {})
    k = dict(modes=modes, ex=ex, env=e, **kw)
    case(key + '::capacity', lambda w: [mk(w)], sp_cap, **k)
    case(key + '::as_ptr', lambda w: [mk(w)], ptr, **k)
    case(key + '::as_mut_ptr', lambda w: [mk(w)], ptr, **k)
    case(key + '::reserve', lambda w: [mk(w), w.int('n')], sp_reserve, **k)
    case(key + '::try_reserve', lambda w: [mk(w), w.int('n')], sp_try, **k)


def memory(w, n, name='st'):
    m = w.m
    b = m.new_buf(Buf(z3.BoolVal(False), z3.Function(name + '_mem', z3.IntSort(), z3.IntSort())(IX), n, kind='extern'))
    return b


def fits_bytes(bytes_, t):
    """n values of type t fit in that many bytes"""
    def f(x, n):
        so = szof(x, t)
        by = bytes_(x)
        return lor(eq(so, 0), le(x.m.mul(n, so), by))
    return f


def start_of(x, s, p):
    """p, or any other way to point at the start of *s (the storages are transparent wrappers)"""
    r = result(x)
    if isinstance(r, Ref) and r.cell == s.cell and r.path[:len(s.path)] == s.path and not any(r.path[len(s.path):]):
        return r
    return p


# &mut [MaybeUninit<T>] seen as a storage of U
def uninit_slice(w):
    n = w.int('n_units', 0, IMAX)
    w.n = n
    b = memory(w, n)
    x = X(w.i, w.m, w, None, 'check')
    # a slice never spans more than isize::MAX bytes
    w.m.assume(le(w.m.mul(n, szof(x, T)), IMAX))
    w.fits = fits_bytes(lambda x: x.m.mul(n, szof(x, T)), U)
    return SP(EP(b, 0, 0), n)


fixed('Storage for UninitSlice', uninit_slice, lambda x, r: prove_floor(x, r, x.m.mul(x.w.n, szof(x, T)), szof(x, U)),
      lambda x, s: s.p, env={'U': U})


# [T] and [T; N] storing T
def fits_count(x, n):
    return le(n, x.w.n)


def prove_count(x, r):
    x.m.prove(eq(r, x.w.n), 'post: capacity is the number of elements')


def slice_store(w):
    n = w.int('n_units', 0, MAX if w.m.zst else IMAX)
    w.n = n
    w.fits = fits_count
    return SP(EP(memory(w, n), 0, 0), n)


fixed('Storage for slice', slice_store, prove_count, lambda x, s: s.p, modes=SZ, ex={})


def arr_fits(x, n):
    """zero-sized values always fit"""
    return True if x.zst else le(n, x.w.n)


def prove_arr(x, r):
    if x.zst:
        return x.m.prove(le(IMAX, r), 'post: any number of zero-sized values fit')
    prove_count(x, r)


def arr_len(w):
    """N of the implementation under verification"""
    fn = w.i.target
    ts = [fn.impl.self] + [t[2] if t[0] in ('ref', 'ptr') else t for _, t in fn.params] + [fn.ret]
    ns = {t[2][1] for t in ts if t[0] == 'array' and t[2][0] == 'const'}
    n = ns.pop() if ns else w.N()
    w.n = n
    w.fits = arr_fits
    return n


def arr_val(w):
    n = arr_len(w)
    return Agg(('adt', '#arrstore', ()), None, {'buf': SA(memory(w, n)), 'n': n})


def arr_store(w):
    return Ref(w.m.new_cell(arr_val(w)))


fixed('Storage for array', arr_store, prove_arr, lambda x, s: start_of(x, s, EP(x.m.get(s).f['buf'].buf, 0, 0)), modes=SZ, ex={}, multi=True)


# UninitBuffer<T, A> storing U
AB = ('adt', 'AlignedBuffer', (T, A_))


def ub_bytes(x):
    return szof(x, AB)


def ub_val(w):
    return Agg(('adt', 'UninitBuffer', (T, A_)), None, {0: Agg(('adt', 'MaybeUninit', ()), None, {0: UNINIT})})


def ub(w):
    w.fits = fits_bytes(ub_bytes, U)
    return Ref(w.m.new_cell(ub_val(w)))


UBENV = {'U': U, 'A': A_, 'T': T}
fixed('Storage for UninitBuffer', ub, lambda x, r: prove_floor(x, r, ub_bytes(x), szof(x, U)), lambda x, s: start_of(x, s, Ref(s.cell, s.path + (0, 0))), env=UBENV)


def sp_static_cap(x):
    r = result(x)
    prove_floor(x, r, ub_bytes(x), szof(x, U))
    return r


case('UninitBuffer::capacity', lambda w: [], sp_static_cap, modes=ONE, ex=SYM, env=UBENV)


# ZeroSized<T> storing T: only with zero-sized T
def zs(w):
    w.fits = lambda x, n: True
    return Ref(w.m.new_cell(zs_val(w)))


def zs_val(w):
    return Agg(('adt', 'ZeroSized', (T,)), None, {0: UNITV})


fixed('Storage for ZeroSized', zs, lambda x, r: x.m.prove(land(le(IMAX, r), le(r, MAX)), 'post: any number of zero-sized values fit'),
      lambda x, s: sp_dangling(x), modes=('zst',), ex={})


def sp_dangling(x):
    """a non-null address aligned for T"""
    r = result(x)
    if not isinstance(r, IP):
        x.m.prove(False, 'post: address of a zero-sized storage')
        raise PathEnd()
    a = alof(x, T)
    x.m.prove(lnot(eq(r.a, 0)), 'post: pointer is not null')
    x.m.prove(lor(eq(r.a, a), eq(B.int_rem(x.m, r.a, a), 0)), 'post: pointer is aligned')
    return r


# ------------------------------------------------------------------ creating fixed storages
def sp_new_ub(x, *a):
    return Agg(('adt', 'UninitBuffer', (T, A_)), None, {0: Agg(('adt', 'MaybeUninit', ()), None, {0: UNINIT})})


case('UninitBuffer::uninit', lambda w: [], sp_new_ub, modes=ONE, ex=SYM, env=UBENV)
case('Default for UninitBuffer::default', lambda w: [], sp_new_ub, modes=ONE, ex=SYM, env=UBENV)
case('Clone for UninitBuffer::clone', lambda w: [ub(w)], sp_new_ub, modes=ONE, ex=SYM, env=UBENV)


def sp_ub_wc(x, n):
    m = x.m
    so = szof(x, U)
    if not x.branch(lor(eq(so, 0), le(m.mul(n, so), ub_bytes(x)))):
        x.panic()
    return sp_new_ub(x)


case('StorageWithCapacity for UninitBuffer::with_capacity', lambda w: [w.int('n')], sp_ub_wc, modes=ONE, ex=SYM, env=UBENV)


def old_cap(w, n):
    """the constant capacity of another storage, which is known to cover n"""
    k = w.int('old_some', 0, 1)
    o = w.int('old')
    w.m.assume(implies(eq(k, 1), le(n, o)))
    return Agg(('adt', 'Option', ()), k, {0: o})


def with_old(w):
    n = w.int('n')
    return [n, old_cap(w, n)]


WCC = '__with_capacity__const_capacity_checked'
case('StorageWithCapacity for UninitBuffer::' + WCC, with_old, lambda x, n, o: sp_ub_wc(x, n), modes=ONE, ex=SYM, env=UBENV)


def sp_arr_wc(x, n, o=None):
    if not x.branch(arr_fits(x, n)):
        x.panic()
    return any_value


any_value = Atom('any')
case('StorageWithCapacity for array::with_capacity', lambda w: [arr_len(w), w.int('n')][1:], sp_arr_wc, modes=SZ, multi=True)
case('StorageWithCapacity for array::' + WCC, lambda w: [arr_len(w), with_old(w)][1], sp_arr_wc, modes=SZ, multi=True)


def sp_zs_new(x, *a):
    return Agg(('adt', 'ZeroSized', (T,)), None, {0: UNITV})


case('Default for ZeroSized::default', lambda w: [], sp_zs_new, modes=('zst',))
case('Clone for ZeroSized::clone', lambda w: [zs(w)], sp_zs_new, modes=('zst',))
case('StorageWithCapacity for ZeroSized::with_capacity', lambda w: [w.int('n')], sp_zs_new, modes=('zst',))


def sp_zs_const(x):
    if not x.zst:
        x.panic()
    return sp_zs_new(x)


def sp_zs_try(x):
    return some(sp_zs_new(x)) if x.zst else NONE


case('const ZeroSized::NEW', lambda w: [], sp_zs_const, modes=SZ)
case('const ZeroSized::TRY_NEW', lambda w: [], sp_zs_try, modes=SZ)


# ------------------------------------------------------------------ alignment and constant capacity
def aligned_only(f):
    """the storage is reported aligned exactly if its memory is"""
    def sp(x):
        r = result(x)
        x.m.prove(implies(r, f(x)), 'post: reported aligned only if its memory is aligned')
        x.m.prove(implies(f(x), r), 'post: reported aligned if its memory is aligned')
        return r
    return sp


def al_geq(t):
    """memory aligned for a t is aligned for a U (alignments are powers of two)"""
    return lambda x: le(alof(x, U), alof(x, t))


case('const Storage for UninitSlice::IS_ALIGNED', lambda w: [], aligned_only(al_geq(T)), modes=ONE, ex=SYM, env={'U': U})
case('const Storage for UninitBuffer::IS_ALIGNED', lambda w: [], aligned_only(al_geq(AB)), modes=ONE, ex=SYM, env=UBENV)
case('const Storage for Heap::IS_ALIGNED', lambda w: [], aligned_only(al_geq(T)), modes=ONE, ex=SYM, env={'U': U, 'T': T}, alloc=True)
for _k in ('slice', 'array', 'ZeroSized'):
    # memory of T itself
    case('const Storage for %s::IS_ALIGNED' % _k, lambda w: [], aligned_only(lambda x: True), modes=SZ)


def sp_const_cap(f):
    """a constant capacity is the capacity every value of the type reports"""
    def sp(x):
        r = result(x)
        if not B.is_variant(x.m, r, 1):
            return r
        f(x, r.f[0])
        return r
    return sp


case('const Storage for UninitBuffer::CONST_CAPACITY', lambda w: [],
     sp_const_cap(lambda x, c: prove_floor(x, c, ub_bytes(x), szof(x, U))), modes=ONE, ex=SYM, env=UBENV)
case('const Storage for ZeroSized::CONST_CAPACITY', lambda w: [],
     sp_const_cap(lambda x, c: x.m.prove(land(le(IMAX, c), le(c, MAX)), 'post: any number of zero-sized values fit')), modes=('zst',))


def arr_const_cap(x, c):
    m = x.m
    if x.zst:
        return m.prove(land(le(IMAX, c), le(c, MAX)), 'post: any number of zero-sized values fit')
    if 'nightly' in x.mod.config['features']:
        return m.prove(eq(c, NN_(x)), 'post: constant capacity is the length of the array')
    # one implementation per length: the printed constants do not name theirs, but none may be missing or repeated
    seen = x.i.__dict__.setdefault('arr_consts', set())
    m.prove(not isz(c) and 0 <= c <= 32 and c not in seen, 'post: constant capacity is the length of the array')
    seen.add(c)


def NN_(x):
    return x.env['N'][1]


case('const Storage for array::CONST_CAPACITY', lambda w: [w.i.__dict__.setdefault('arr_consts', set()), arr_len(w)][2:],
     sp_const_cap(arr_const_cap), modes=SZ, multi=True)


# ------------------------------------------------------------------ views
case('UninitSlice::from_mut', lambda w: [uninit_slice(w)], lambda x, s: s, modes=ONE, ex=SYM)
case('UninitSlice::to_mut', lambda w: [uninit_slice(w)], lambda x, s: s, modes=ONE, ex=SYM)


# ------------------------------------------------------------------ storages by reference or box
def by_ref(w):
    sa, cap = w.new_sa('s', 'S', own=z3.BoolVal(False))
    w.buf = sa.buf
    return Ref(w.m.new_cell(Ref(w.m.new_cell(sa))))


def by_box(w):
    sa, cap = w.new_sa('s', 'S', own=z3.BoolVal(False))
    w.buf = sa.buf
    return Ref(w.m.new_cell(Agg(('adt', 'Box', (S,)), None, {0: Ref(w.m.new_cell(sa))})))


def sp_w_cap(x, s):
    return x.m.bufs[x.w.buf].cap


def sp_w_ptr(x, s):
    return EP(x.w.buf, x.m.bufs[x.w.buf].epoch, 0)


def sp_w_room(x, n):
    return x.branch(le(n, x.m.bufs[x.w.buf].cap)) or x.ask(x.w.buf, n)


def sp_w_reserve(x, s, n):
    if not sp_w_room(x, n):
        x.panic('reserve')
    return UNITV


def sp_w_aligned(x):
    return z3.Bool('S_aligned')


def sp_w_const(x):
    if x.branch(z3.Bool('S_const')):
        return some(z3.Int('S_const_cap'))
    return NONE


for _k, _mk, _al in (('&mut', by_ref, None), ('Box', by_box, True)):
    _p = 'Storage for %s::' % _k
    _kw = dict(modes=SZ, env={'S': S, 'T': T}, alloc=_al)
    case(_p + 'capacity', lambda w, mk=_mk: [mk(w)], sp_w_cap, **_kw)
    case(_p + 'as_ptr', lambda w, mk=_mk: [mk(w)], sp_w_ptr, **_kw)
    case(_p + 'as_mut_ptr', lambda w, mk=_mk: [mk(w)], sp_w_ptr, **_kw)
    case(_p + 'reserve', lambda w, mk=_mk: [mk(w), w.int('n')], sp_w_reserve, **_kw)
    case(_p + 'try_reserve', lambda w, mk=_mk: [mk(w), w.int('n')], lambda x, s, n: sp_w_room(x, n), **_kw)
    case('const ' + _p + 'IS_ALIGNED', lambda w: [], sp_w_aligned, **dict(_kw, ex=dict(symalign=True)))
    case('const ' + _p + 'CONST_CAPACITY', lambda w: [], sp_w_const, **_kw)


def sp_box_wc(x, n, o=None):
    """a boxed storage obtained with the request"""
    v = x.new_vec(n)
    sa = x.take(v).f[x.f('storage')]
    return Agg(('adt', 'Box', (S,)), None, {0: Ref(x.m.new_cell(sa))})


case('StorageWithCapacity for Box::with_capacity', lambda w: [w.int('n')], sp_box_wc, modes=SZ, env={'S': S, 'T': T}, alloc=True)
case('StorageWithCapacity for Box::' + WCC, with_old, sp_box_wc, modes=SZ, env={'S': S, 'T': T}, alloc=True)
