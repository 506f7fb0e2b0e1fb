"""P21 (and the conversions of P17): building vectors, taking them apart, spare capacity."""
import z3
from core import *
from spec import *
import builtin_specs as B
from contracts import case, CASES, USE, SZ, SZC, GV, T, S, vlen, vcap, pre, generated, sp_grow
from contracts_raw import U, A_, SYM, ONE, UBENV, AB, al_geq, alof, szof, WCC, old_cap, result, ub_val, zs_val
from contracts_heap import hf, has_alloc, heap_val, sp_heap_new

ALIGN = dict(aligned=None)


def aligned(x):
    return z3.Bool('S_aligned')


def mk(x, storage, n, sty=S):
    return Agg(('adt', 'GenericVec', (T, sty)), None, {x.f('mark'): UNITV, x.f('len'): n, x.f('storage'): storage})


def bare(w, own=None, name='s'):
    """a storage of its own"""
    sa, cap = w.new_sa(name, 'S', own=z3.BoolVal(False) if own is None else own)
    return sa


# ------------------------------------------------------------------ from a storage
def sp_with_storage(x, sa):
    if not x.branch(aligned(x)):
        B.drop_storage(x.i, x.m, sa)
        x.panic()
    return mk(x, sa, 0)


case(GV + 'with_storage', lambda w: [bare(w)], sp_with_storage, modes=SZC, ex=ALIGN)


def sp_with_cap(x, n, o=None):
    if not x.branch(aligned(x)):
        x.panic()
    return x.take(x.new_vec(n))


case(GV + 'with_capacity', lambda w: [w.int('n')], sp_with_cap, modes=SZC, ex=ALIGN)


def with_old(w):
    n = w.int('n')
    return [n, old_cap(w, n)]


case(GV + WCC, with_old, sp_with_cap, modes=SZC, ex=ALIGN)


def sp_default(x):
    if not x.branch(aligned(x)):
        x.panic()
    b = x.newborn()
    return mk(x, SA(B.new_storage(x.i, x.m, 'S', b.cap)), 0)


case('Default for GenericVec::default', lambda w: [], sp_default, modes=SZC, ex=ALIGN)


# ------------------------------------------------------------------ apart and together again
def sp_into_raw(x, v):
    x.consume(v)
    return tup(v.f[x.f('len')], v.f[x.f('storage')])


case(GV + 'into_raw_parts', lambda w: [w.vec_val('v')], sp_into_raw, modes=SZC)


def parts(w):
    n = w.int('n')
    sa, cap = w.new_sa('s', 'S', own=z3.And(IX >= 0, IX < n, z3.Bool('S_aligned')))
    if w.m.zst:
        w.m.pool = add(w.m.pool, ite(z3.Bool('S_aligned'), n, 0))
        w.m.assume(le(n, IMAX))
    else:
        w.m.assume(le(n, cap))
    return [n, sa]


def sp_from_raw(x, n, sa):
    if not x.branch(aligned(x)):
        B.drop_storage(x.i, x.m, sa)
        x.panic()
    return mk(x, sa, n)


case(GV + 'from_raw_parts', parts, sp_from_raw, modes=SZC, ex=ALIGN)


# ------------------------------------------------------------------ reading a vector's numbers
def rd(f):
    return lambda x, r: f(x.vec(r))


case(GV + 'len', lambda w: [w.vec()], rd(lambda v: v.len), modes=SZC)
case(GV + 'capacity', lambda w: [w.vec()], rd(lambda v: v.cap), modes=SZC)
case(GV + 'is_empty', lambda w: [w.vec()], rd(lambda v: eq(v.len, 0)), modes=SZC)
case(GV + 'is_full', lambda w: [w.vec()], rd(lambda v: eq(v.len, v.cap)), modes=SZC)
case(GV + 'remaining_capacity', lambda w: [w.vec()], rd(lambda v: sub(v.cap, v.len)), modes=SZC)
for _n in ('storage', 'storage_mut'):
    case(GV + _n, lambda w: [w.vec()], lambda x, r: Ref(r.cell, r.path + (x.f('storage'),)), modes=SZC)


def any_owned(w):
    """a vector whose storage holds values up to some point at or beyond its length"""
    m = w.m
    L, K = w.int('v_len', 0, IMAX), w.int('v_init', 0, IMAX)
    n = w.int('n', 0, IMAX)
    sa, cap = w.new_sa('v', 'S', K)
    m.assume(land(le(n, K), le(L, K)))
    if m.zst:
        m.pool = add(m.pool, K)
    else:
        m.assume(le(K, cap))
    v = Agg(('adt', 'GenericVec', (T, S)), None, {w.f('mark'): UNITV, w.f('len'): L, w.f('storage'): sa})
    return Ref(m.new_cell(v)), n


def sp_set_len_unchecked(x, r, n):
    x.vec(r).len = n
    return UNITV


case(GV + 'set_len_unchecked', lambda w: list(any_owned(w)), sp_set_len_unchecked, modes=SZC)


def inited(w):
    """a vector over a storage that only holds initialised memory (StorageInit: T is Copy)"""
    m = w.m
    L = w.int('v_len', 0, IMAX)
    sa, cap = w.new_sa('v', 'S', own=None, L=z3.Int('v_cap'))
    if not m.zst:
        m.assume(le(L, cap))
    else:
        m.pool = add(m.pool, IMAX)
    v = Agg(('adt', 'GenericVec', (T, S)), None, {w.f('mark'): UNITV, w.f('len'): L, w.f('storage'): sa})
    return [Ref(m.new_cell(v)), w.int('n')]


def sp_set_len(x, r, n):
    v = x.vec(r)
    if not x.branch(le(n, v.cap)):
        x.panic()
    v.len = n
    return UNITV


case(GV + 'set_len', inited, sp_set_len, modes=('copy', 'zst'))


# ------------------------------------------------------------------ spare capacity
def sp_spare(x, r):
    v = x.vec(r)
    return mk(x, SP(v.at(v.len), sub(v.cap, v.len)), 0)


case(GV + 'spare_capacity_mut', lambda w: [w.vec()], sp_spare, modes=SZC)


def spare_and_vec(w):
    """a pointer into the storage of a vector, and the vector's elements as a slice"""
    m = w.m
    r = w.vec()
    v = m.get(r)
    b = v.f[w.f('storage')].buf
    at = w.int('at', 0, IMAX)
    if not m.zst:
        m.assume(le(at, m.bufs[b].cap))
    return [EP(b, m.bufs[b].epoch, 0 if m.zst else at), SP(EP(b, m.bufs[b].epoch, 0), v.f[w.f('len')])]


def sp_validate(x, p, s):
    if x.mod.config['debug'] and not x.zst and not x.branch(eq(p.off, s.n)):
        x.panic()
    return UNITV


case('validate_spare', spare_and_vec, sp_validate, modes=SZC)


# ------------------------------------------------------------------ storages of given memory
def sp_slice_new(x, s):
    return mk(x, s, 0)


case('SliceVec::new', lambda w: [w.slice()], sp_slice_new, modes=SZC)
case('InitSliceVec::new', lambda w: [w.slice()], lambda x, s: mk(x, s, s.n), modes=('copy', 'zst'))
case('InitArrayVec::new', lambda w: [w.array()], lambda x, a: (x.consume(a), mk(x, a, a.n))[1], modes=('copy',), nightly=True)
case('From for InitArrayVec::from', lambda w: [w.array()], lambda x, a: (x.consume(a), mk(x, a, a.n))[1], modes=('copy',), nightly=True)


def ub_of(x, v):
    al = Agg(('adt', 'MaybeUninit', ()), None, {0: UNINIT})
    inner = Agg(('adt', 'AlignedBuffer', ()), None, {fidx(x.mod, 'AlignedBuffer', 'align'): al, fidx(x.mod, 'AlignedBuffer', 'value'): v})
    return Agg(('adt', 'UninitBuffer', ()), None, {0: Agg(('adt', 'MaybeUninit', ()), None, {0: inner})})


def sp_ub_new(x, v):
    x.consume(v)
    return ub_of(x, v)


case('UninitBuffer::new', lambda w: [w.array()], sp_ub_new, modes=SZ, env={'T': ('array', T, ('const', 'N')), 'A': ('adt', 'u8', ())})


def sp_from_array(x, v):
    x.consume(v)
    return mk(x, ub_of(x, v), v.n)


case('ArrayVec::from_array', lambda w: [w.array()], sp_from_array, modes=SZ, nightly=True)
case('From for ArrayVec::from', lambda w: [w.array()], sp_from_array, modes=SZ, nightly=True)


def array_vec(w):
    m = w.m
    n = w.int('v_len', 0, IMAX)
    N = w.N()
    m.assume(le(n, N))
    b = m.new_buf(Buf(z3.And(IX >= 0, IX < n), z3.Function('arr', z3.IntSort(), z3.IntSort())(IX), N, kind='storage:array'))
    w.n, w.b = n, b
    return [mk(w, ub_of(w, Agg(('adt', '#arrstore', ()), None, {'buf': SA(b), 'n': N})), n, ('adt', 'UninitBuffer', (('array', T, ('cterm', N)), T)))]


def sp_into_array(x, v):
    x.consume(v)
    if not x.branch(eq(x.w.n, z3.Int('N'))):
        x.m.e_drop_n(EP(x.w.b, 0, 0), x.w.n, 'contract')
        x.panic()
    return x.m.e_read_arr(EP(x.w.b, 0, 0, z3.Int('N')), z3.Int('N'), 'contract')


case('ArrayVec::into_array', array_vec, sp_into_array, modes=ONE, nightly=True)


# TypeVec<U, B, A> over UninitBuffer<B, A>
TV = {'T': U, 'B': T, 'A': A_}


def sp_typevec(x):
    if x.out[0] != 'ret':
        x.m.prove(lnot(le(alof(x, U), alof(x, AB))), 'post: only buffers that are not sufficiently aligned are rejected')
        x.panic()
    x.m.prove(le(alof(x, U), alof(x, AB)), 'post: buffers that are not sufficiently aligned are rejected')
    return mk(x, ub_val(x.w), 0)


case('TypeVec::with_align', lambda w: [], sp_typevec, modes=ONE, ex=SYM, env=TV)


def sp_typevec_new(x):
    if x.out[0] != 'ret':
        x.m.prove(lnot(le(alof(x, U), alof(x, AB1))), 'post: only buffers that are not sufficiently aligned are rejected')
        x.panic()
    x.m.prove(le(alof(x, U), alof(x, AB1)), 'post: buffers that are not sufficiently aligned are rejected')
    return mk(x, ub_val(x.w), 0)


AB1 = ('adt', 'AlignedBuffer', (T, U))
case('TypeVec::new', lambda w: [], sp_typevec_new, modes=ONE, ex=SYM, env=TV)
case('ZSVec::new', lambda w: [], lambda x: mk(x, zs_val(x.w), 0), modes=('zst',))


# ------------------------------------------------------------------ heap vectors
def sp_heapvec_new(x, *a):
    v = result(x)
    h = v.f[x.f('storage')]
    x.out = ('ret', h)
    sp_heap_new(x)
    x.m.prove(eq(v.f[x.f('len')], 0), 'post: the new vector is empty')
    return v


HV = dict(modes=ONE, ex=SYM, env={'T': T, 'A': A_}, alloc=True)
case('HeapVec::new', lambda w: [], sp_heapvec_new, **HV)
case('HeapVec::with_alloc', lambda w: [Atom('alloc')], sp_heapvec_new, nightly=True, **HV)


def std_vec(w):
    """a std Vec"""
    m = w.m
    L = w.int('v_len', 0, IMAX)
    sa, cap = w.new_sa('v', 'Vec', L)
    m.bufs[sa.buf] = m.bufs[sa.buf].upd(kind='vec')
    w.own_buf = sa.buf
    if m.zst:
        m.pool = add(m.pool, L)
        m.assume(eq(cap, MAX))
    else:
        m.assume(le(L, cap))
    f = {'buf': sa, 'len': L}
    if has_alloc(w):
        f['alloc'] = Atom('alloc')
    return Agg(('adt', 'Vec', (T,)), None, f)


def heap_of(x, v):
    b = v.f['buf'].buf
    f = {hf(x, 'capacity'): x.m.bufs[b].cap, hf(x, 'ptr'): EP(b, x.m.bufs[b].epoch, 0)}
    if has_alloc(x):
        f[hf(x, 'allocator')] = Atom('alloc')
    return mk(x, Agg(('adt', 'Heap', ()), None, f), v.f['len'])


def sp_from_std(x, v):
    x.consume(v)
    return heap_of(x, v)


def heap_vec(w):
    w.std = std_vec(w)
    return heap_of(w, w.std)


VKW = dict(modes=SZ, env={'T': T, 'A': A_}, alloc=True)
case('From for HeapVec::from', lambda w: [std_vec(w)], sp_from_std, **VKW)
case('From for Vec::from', lambda w: [heap_vec(w)], lambda x, v: x.w.std, **VKW)


# ------------------------------------------------------------------ the destructor
def sp_drop(x, r):
    v = x.vec(r)
    n = v.len
    sa = x.m.get(r).f[x.f('storage')]
    pend = None
    try:
        v.drop_range(0, n)
    except Unwind as e:
        pend = e
    B.drop_storage(x.i, x.m, sa)
    if pend:
        raise pend
    return UNITV


case('Drop for GenericVec::drop', lambda w: [w.vec()], sp_drop, modes=SZC, opts=dict(glue=True), name='drop of GenericVec')


# ------------------------------------------------------------------ the macros (what they expand to in a function using them)
def sp_list(x, *vals):
    v = x.vec(x.new_vec(len(vals)))
    for i, e in enumerate(vals):
        x.consume(e)
        v.write(i, e)
    v.len = len(vals)
    return x.take(v.r)


for _k in list(range(0, 21)) + [24, 31, 32, 33]:
    case('vc_gvec%d' % _k, lambda w, k=_k: [w.elem('x%d' % i) for i in range(k)], sp_list, modes=SZC, name='gvec! of %d values' % _k)


def sp_list_with(k):
    def sp(x, f):
        v = x.vec(x.new_vec(k))
        t = generated(x, k)
        v.write_seg(0, k, t)
        v.len = k
        return x.take(v.r)
    return sp


for _k in (1, 2, 3, 4):
    case('vc_gvec_with%d' % _k, lambda w: [w.fn('gen', 'T')], sp_list_with(_k), modes=SZC, opts=dict(weak_panic=True), name='gvec! of %d calls' % _k)


def sp_repeat(x, val, n):
    v = x.new_vec(n)
    sp_grow(x, v, n, val)
    return x.take(v)


case('vc_gvec_repeat', lambda w: [w.elem(), w.int('n')], sp_repeat, modes=SZC, name='gvec! with a count')


def spare_of(w):
    """a vector and its spare-capacity view, in which some values were written"""
    m = w.m
    L, k = w.int('v_len', 0, IMAX), w.int('k', 0, IMAX)
    sa, cap = w.new_sa('v', 'S', add(L, k))
    c = IMAX if m.zst else cap
    m.assume(le(add(L, k), c))
    if m.zst:
        m.pool = add(m.pool, add(L, k))
    r = Ref(m.new_cell(mk(w, sa, L)))
    p = EP(sa.buf, m.bufs[sa.buf].epoch, 0 if m.zst else L)
    return [mk(w, SP(p, sub(c, L)), k, ('ref', True, ('adt', 'UninitSlice', (T,)))), r]


def sp_save(x, sp, r):
    x.consume(sp)
    v = x.vec(r)
    v.len = add(v.len, sp.f[x.f('len')])
    return UNITV


case('vc_save_spare', spare_of, sp_save, modes=SZC, name='save_spare!')


def called_once(x, f, ret=None):
    """a call of f without arguments"""
    m = x.m
    c = m.chan(f.chan)
    m.chans[f.chan] = c.entry(())
    if ret:
        return EV(ZST_T if m.zst else m.uf(f.chan + '_ret', c.count))


def sp_save_once(x, sp, r, f):
    called_once(x, f)
    return sp_save(x, sp, r)


def sp_repeat_once(x, f, g, n):
    called_once(x, g)
    v = x.new_vec(n)
    val = called_once(x, f, 'T')
    if x.m.zst and x.branch(lt(IMAX, n)):
        x.drop(val)
    sp_grow(x, v, n, val)
    return x.take(v)


case('vc_save_spare_once', lambda w: spare_of(w) + [w.fn('orig', 'unit')], sp_save_once, modes=('sized', 'copy'), name='save_spare! of an expression')
case('vc_gvec_repeat_once', lambda w: [w.fn('gen', 'T'), w.fn('count', 'unit'), w.int('n')], sp_repeat_once, modes=SZC,
     name='gvec! of an expression, with a count')


case('vc_count', lambda w: [w.int('i')], lambda x, i: i, modes=('sized',), name='count!')
