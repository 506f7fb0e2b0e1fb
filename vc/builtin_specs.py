"""Assumed contracts of core/alloc functions and of user-supplied code (the trusted base), written over core.Machine.
Every entry used by a proof is listed in the evidence."""
import re
import z3
from core import *
import mir
from mir import show_type
import loops

TRUE = True


# ------------------------------------------------------------------ helpers
def head(t):
    return t[1] if t[0] == 'adt' else t[0]


def elem_of_ptr(t):
    return t[2] if t[0] in ('ref', 'ptr') else ('infer',)


def want(x, cls, what):
    if not isinstance(x, cls):
        raise Unsupported('%s of %r' % (what, x))
    return x


def deref_val(m, v):
    """value behind a reference"""
    while isinstance(v, Ref):
        v = m.get(v)
    return v


# ------------------------------------------------------------------ sizes
def tkey(t):
    return show_type(t).replace("'_ ", '')


def size_of(interp, m, t):
    t = interp.expand(t)
    if t == ('adt', 'T', ()) and not m.ex.symsizes:
        if m.zst:
            return 0
        s = z3.Int('size_T')
        if not getattr(m, 'size_t_known', False):
            m.size_t_known = True
            m.assume(z3.And(s >= 1, s <= IMAX))
        return s
    if t[0] == 'array':
        n = interp.const_n(m, None, t[2])
        return m.mul(size_of(interp, m, t[1]), n)
    if t[0] == 'adt' and t[1] == 'MaybeUninit':
        return size_of(interp, m, t[2][0])
    if t[0] == 'tuple' and not t[1]:
        return 0
    if t[0] == 'adt' and t[1] in ('usize', 'u64', 'isize', 'i64'):
        return 8
    if t[0] == 'adt' and t[1] in ('u8',):
        return 1
    k = 'size<%s>' % tkey(t)
    s = z3.Int(k)
    facts = m.sizefacts
    if k not in facts:
        facts[k] = True
        m.assume(z3.And(s >= 0, s <= IMAX))
        if t[0] == 'adt' and t[1] in m.ex.zero:
            m.assume(eq(s, 0))
        a = align_of(interp, m, t)
        q = z3.Int('sizeq<%s>' % tkey(t))
        m.assume(z3.And(q >= 0, q <= IMAX))
        m.assume(eq(s, m.mul(a, q)))
        if t[0] == 'adt' and t[1] == 'AlignedBuffer' and len(t[2]) == 2:
            inner = size_of(interp, m, t[2][0])
            m.assume(land(le(inner, s), lt(s, add(inner, a))))
            # the size of a type is a multiple of its alignment, so nothing is added where the alignment stays the same
            m.assume(implies(eq(a, align_of(interp, m, t[2][0])), eq(s, inner)))
    return s


def align_of(interp, m, t):
    t = interp.expand(t)
    if t[0] == 'array':
        return align_of(interp, m, t[1])
    if t[0] == 'adt' and t[1] == 'MaybeUninit':
        return align_of(interp, m, t[2][0])
    if t[0] == 'adt' and t[1] in ('usize', 'u64', 'isize', 'i64'):
        return 8
    if t[0] == 'adt' and t[1] in ('u8',):
        return 1
    if t[0] == 'tuple' and not t[1]:
        return 1
    k = 'align<%s>' % tkey(t)
    s = z3.Int(k)
    if k not in m.sizefacts:
        m.sizefacts[k] = True
        m.assume(z3.And(s >= 1, s <= 2 ** 29))
        if t[0] == 'adt' and t[1] == 'AlignedBuffer' and len(t[2]) == 2:
            a, b = align_of(interp, m, t[2][0]), align_of(interp, m, t[2][1])
            m.assume(eq(s, ite(le(a, b), b, a)))
    return s


def int_div(m, a, b):
    if not isz(a) and not isz(b):
        return a // b
    if not isz(b):
        return simp(lit(a) / b)
    sa, sb = str(a), str(b)
    key = ('div', sa, sb)
    if key in m.sizefacts:
        return m.sizefacts[key]
    q = m.fresh('quot', 0)
    r = m.fresh('rem', 0)
    p = m.mul(q, b)
    m.assume(implies(lt(0, b), land(eq(a, add(p, r)), lt(r, b))))
    m.assume(implies(land(lt(0, b), le(0, a)), le(q, a)))
    # exact division of a product that contains b as a factor
    for (x, u, v) in list(m.mulfacts.values()):
        for s, o in ((u, v), (v, u)):
            if str(s) == sb:
                # a == s*o  =>  q == o ; s*o <= a < s*(o+1) => q == o
                m.assume(implies(land(lt(0, b), eq(a, x)), eq(q, o)))
                m.assume(implies(land(lt(0, b), le(x, a), lt(a, add(x, b))), eq(q, o)))
                m.assume(implies(land(lt(0, b), lt(a, x)), lt(q, o)))
                m.assume(implies(land(lt(0, b), le(x, a)), le(o, q)))
    m.sizefacts[key] = q
    return q


def int_rem(m, a, b):
    if not isz(a) and not isz(b):
        return a % b
    if not isz(b):
        return simp(lit(a) % b)
    q = int_div(m, a, b)
    return sub(a, m.mul(q, b))


def mask_op(interp, m, op, a, b):
    if op != 'BitAnd':
        raise Unsupported('bit operation ' + op)
    if isinstance(a, Agg):
        a, b = b, a
    y = b.f[0]
    # x & !(align-1): round down to a multiple of the power of two y+1
    r = m.fresh('masked', 0)
    m.assume(le(r, a))
    m.assume(lt(sub(a, r), add(y, 1)))
    q = m.fresh('maskq', 0)
    m.assume(eq(r, m.mul(q, add(y, 1))))
    for k in list(m.sizefacts):
        if isinstance(k, str) and k.startswith('size<'):
            s = z3.Int(k)
            al = z3.Int('align<' + k[5:])
            # a multiple s of align within [s, s+align) rounds down to s
            m.assume(implies(land(eq(add(y, 1), al), le(s, a), lt(a, add(s, al))), eq(r, s)))
    return r


# ------------------------------------------------------------------ storage
def abs_cap_const(m):
    """CONST_CAPACITY of the abstract storage type: None, or the capacity every value of the type has"""
    return z3.Bool('S_const'), z3.Int('S_const_cap')


def storage_const(interp, m, selfty, tr, name):
    st = interp.expand(selfty)
    if st[0] == 'adt' and st[1] in ('S', 'B') and not st[2]:
        nm = st[1]
        if name == 'IS_ALIGNED':
            if m.ex.symsizes or m.ex.symalign:
                return z3.Bool('%s_aligned' % nm)
            return z3.Bool('%s_aligned' % nm) if m.ex.aligned is None else m.ex.aligned
        c, n = z3.Bool('%s_const' % nm), z3.Int('%s_const_cap' % nm)
        if not m.branch(c, 'CONST_CAPACITY'):
            return NONE
        if not m.sizefacts.get((nm, 'cc')):
            m.sizefacts[(nm, 'cc')] = True
            m.assume(land(le(0, n), le(n, MAX)))
            if m.zst:
                m.assume(le(IMAX, n))
        for bid, b in m.bufs.items():
            if b.kind == 'storage:' + nm:
                if not m.zst:
                    m.assume(eq(b.cap, n))
        return some(n)
    return None


def new_storage(interp, m, nm, cap, own=False):
    b = Buf(z3.BoolVal(False), z3.Function('junk!%d' % m.next_buf, z3.IntSort(), z3.IntSort())(IX), cap, kind='storage:' + nm)
    return m.new_buf(b)


def st_cap(m, v):
    b = m.bufs[v.buf]
    m.prove(not b.freed, 'storage used after it was dropped')
    return b.cap


def sa_of(m, v):
    v = deref_val(m, v)
    if isinstance(v, SA):
        return v
    raise Unsupported('abstract storage %r' % (v,))


def abs_capacity(interp, m, args, info):
    return st_cap(m, sa_of(m, args[0]))


def abs_ptr(interp, m, args, info):
    v = sa_of(m, args[0])
    b = m.bufs[v.buf]
    m.prove(not b.freed, 'storage used after it was dropped')
    return EP(v.buf, b.epoch, 0)


def grow_buf(interp, m, buf, need):
    """the storage obtains capacity >= need: contents preserved, addresses may change"""
    b = m.bufs[buf]
    m.fresh_n += 1
    c = z3.Int('cap!%d' % m.fresh_n)
    m.assume(land(le(need, c), le(c, MAX)))
    if not m.zst:
        m.assume(le(c, IMAX))
    m.bufs[buf] = b.upd(cap=c, epoch=add(b.epoch, 1))


def can_grow(m, b):
    """a storage with CONST_CAPACITY never grows"""
    if b.kind in ('storage:S', 'storage:B'):
        return lnot(z3.Bool(b.kind[-1] + '_const'))
    return True


def ask(interp, m, args):
    """Storage::reserve / try_reserve of the abstract storage: does it now have room?"""
    v = sa_of(m, args[0])
    need = args[1]
    b = m.bufs[v.buf]
    m.prove(not b.freed, 'storage used after it was dropped')
    if m.branch(le(need, b.cap), 'had room'):
        return True
    if m.branch(land(can_grow(m, b), lnot(m.uf('resfail', v.buf, need, sort='bool'))), 'storage grows'):
        m.event('reserve', v.buf, need, True)
        grow_buf(interp, m, v.buf, need)
        return True
    m.event('reserve', v.buf, need, False)
    return False


def abs_reserve(interp, m, args, info):
    if ask(interp, m, args):
        return UNITV
    interp.panic(m, 'reserve')


def abs_try_reserve(interp, m, args, info):
    return ask(interp, m, args)


def abs_with_capacity(interp, m, args, info):
    nm = head(interp.expand(getattr(info, 'self')))
    need = args[0]
    c = m.fresh('newcap', 0, MAX)
    if not m.zst:
        m.assume(le(c, IMAX))
    fail = m.uf('wcfail', need, sort='bool')
    cc = z3.Bool(nm + '_const')
    ccn = z3.Int(nm + '_const_cap')
    m.assume(implies(cc, eq(c, ccn)))
    ok = land(lnot(fail), lor(lnot(cc), le(need, ccn)))
    if m.zst:
        # any number of zero-sized elements fit into any storage
        ok = lor(ok, le(need, IMAX))
    if m.branch(ok, 'with_capacity succeeds'):
        if not m.zst:
            m.assume(le(need, c))
        return SA(new_storage(interp, m, nm, c))
    m.event('with_capacity', nm, need, False)
    interp.panic(m, 'reserve')


def abs_with_capacity_checked(interp, m, args, info):
    """__with_capacity__const_capacity_checked(capacity, old): with_capacity(capacity), or skipped check if old fits.
    The storage may skip its own check when `old` fits, so `old` has to cover the request"""
    o = args[1]
    if isinstance(o, Agg) and o.variant is not None and not (isinstance(o.variant, int) and o.variant == 0):
        need = le(args[0], o.f[0])
        if m.zst:
            need = lor(need, le(args[0], IMAX))
        m.prove(implies(eq(o.variant, 1), need), 'the constant capacity passed on covers the requested capacity')
    return abs_with_capacity(interp, m, args[:1], info)


def abs_default(interp, m, args, info):
    nm = head(interp.expand(getattr(info, 'self')))
    if nm not in ('S', 'B'):
        return Atom('default %s' % nm)
    c = m.fresh('newcap', 0, MAX)
    if not m.zst:
        m.assume(le(c, IMAX))
    cc = z3.Bool(nm + '_const')
    m.assume(implies(cc, eq(c, z3.Int(nm + '_const_cap'))))
    return SA(new_storage(interp, m, nm, c))


def array_default(interp, m, args, info):
    """[T; N] with T: Default + Copy"""
    t = interp.expand(getattr(info, 'self'))
    n = interp.const_n(m, None, t[2])
    b = m.new_buf(Buf(z3.BoolVal(False), z3.Function('dflt!%d' % m.next_buf, z3.IntSort(), z3.IntSort())(IX), n, kind='extern'))
    return Agg(('adt', '#arrstore', ()), None, {'buf': SA(b), 'n': n})


def drop_storage(interp, m, v):
    b = m.bufs[v.buf]
    m.prove(not b.freed, 'storage dropped once')
    m.bufs[v.buf] = b.upd(freed=True)


# ------------------------------------------------------------------ raw pointers
def ptr_ok(m, p, off, what):
    if m.zst:
        return
    b = m.bufs[p.buf]
    m.prove(land(le(0, off), le(off, b.cap)), 'pointer arithmetic stays in bounds (%s)' % what)


def p_add(interp, m, args, info, sign=1, checked=True):
    p, n = args
    if isinstance(p, EP):
        if m.zst:
            return p
        o = add(p.off, n) if sign > 0 else sub(p.off, n)
        if checked:
            ptr_ok(m, p, o, 'add' if sign > 0 else 'sub')
        return EP(p.buf, p.epoch, o, p.n)
    if isinstance(p, IP):
        if m.zst:
            return p
        if checked:
            m.prove(eq(n, 0), 'no arithmetic on a dangling pointer')
        return p
    if isinstance(p, Ref):
        if not isz(n) and n == 0:
            return p
    raise Unsupported('pointer arithmetic on %r' % (p,))


def p_offset_from(interp, m, args, info):
    a, b = args
    if m.zst:
        interp.panic(m)
    if isinstance(a, EP) and isinstance(b, EP):
        if a.buf != b.buf:
            m.prove(False, 'offset_from of pointers into different allocations')
            raise PathEnd()
        m.prove(eq(a.epoch, b.epoch), 'offset_from of pointers into the same allocation')
        return sub(a.off, b.off)
    if isinstance(a, IP) and isinstance(b, IP):
        return sub(a.a, b.a)
    raise Unsupported('offset_from')


def p_read(interp, m, args, info):
    p = args[0]
    if isinstance(p, Ref):
        v = m.get(p)
        from exec import needs_drop
        if needs_drop(v):
            m.set(p, STOLEN)
        t = elem_of_ptr(info.atys[0]) if info.atys else ('infer',)
        if isinstance(v, Agg) and v.ty and v.ty[1] == 'AlignedBuffer' and interp.expand(t)[0] == 'array':
            # repr(C) behind a zero-sized first field: the value is at the start
            return v.f[[i for i, (n, _) in enumerate(interp.module.structs['AlignedBuffer'][1]) if n == 'value'][0]]
        return v
    if isinstance(p, EP) and p.n is not None:
        return m.e_read_arr(p, p.n)
    if isinstance(p, (EP, IP, RefAbs)):
        t = elem_of_ptr(info.atys[0]) if info.atys else ('infer',)
        if isinstance(p, IP) and t[0] == 'array':
            return m.e_read_arr(p, interp.const_n(m, None, t[2]))
        if m.copy and isinstance(p, RefAbs):
            return EV(p.t)
        return m.e_read(p)
    raise Unsupported('read of %r' % (p,))



def p_write(interp, m, args, info):
    p, v = args
    if isinstance(p, Ref):
        m.set(p, v)
        return UNITV
    if isinstance(v, ArrVal) or (isinstance(p, EP) and p.n is not None):
        if isinstance(v, ArrVal):
            m.e_write_arr(p, v, 'write')
            return UNITV
        raise Unsupported('array write of %r' % (v,))
    m.e_write(p, v)
    return UNITV


def elem_count(m, p, n):
    if isinstance(p, EP) and p.n is not None:
        return m.mul(p.n, n)
    return n


def p_copy_from(interp, m, args, info, overlap=True):
    dst, src, n = args
    m.e_copy(src, dst, elem_count(m, dst, n), 'copy', overlap)
    return UNITV


def p_copy_to(interp, m, args, info, overlap=True):
    src, dst, n = args
    m.e_copy(src, dst, elem_count(m, dst, n), 'copy', overlap)
    return UNITV


def drop_in_place(interp, m, args, info):
    p = args[0]
    if isinstance(p, SP):
        m.e_drop_n(p.p, p.n)
    elif isinstance(p, EP) and p.n is not None:
        m.e_drop_n(p, p.n)
    elif isinstance(p, (EP, IP)):
        m.e_drop(p)
    elif isinstance(p, Ref):
        v = m.get(p)
        interp.drop_val_at(m, p, v, elem_of_ptr(info.atys[0]) if info.atys else ('infer',))
    else:
        raise Unsupported('drop_in_place of %r' % (p,))
    return UNITV


def p_cast(interp, m, args, info):
    v = args[0]
    t = info.dty
    if t[0] == 'adt' and t[1] == 'NonNull':
        t = ('ptr', True, t[2][0])
    if t[0] not in ('ptr', 'ref'):
        if info.gargs and info.gargs[-1][0] != 'infer':
            t = ('ptr', True, info.gargs[-1])
        else:
            return v
    return interp.ptr_cast(m, None, v, t[2])


def p_is_null(interp, m, args, info):
    v = args[0]
    if isinstance(v, IP):
        return eq(v.a, 0)
    return False


def p_swap(interp, m, args, info):
    a, b = args
    if isinstance(a, Ref) and isinstance(b, Ref):
        x, y = m.get(a), m.get(b)
        m.set(a, y)
        m.set(b, x)
        return UNITV
    if isinstance(a, (EP, IP)) and isinstance(b, (EP, IP)):
        if m.zst:
            return UNITV
        x, y = m.e_peek(a), m.e_peek(b)
        m.bufs[a.buf] = m.bufs[a.buf].op('w', a.off, y)
        m.bufs[b.buf] = m.bufs[b.buf].op('w', b.off, x)
        return UNITV
    raise Unsupported('swap')


def mem_replace(interp, m, args, info):
    r, v = args
    if isinstance(r, Ref):
        old = m.get(r)
        m.set(r, v)
        return old
    if isinstance(r, (EP, IP)):
        old = m.e_read(r)
        m.e_write(r, v)
        return old
    raise Unsupported('mem::replace')


def mem_take0(interp, m, args, info):
    r = args[0]
    if isinstance(r, Ref):
        old = m.get(r)
        if isinstance(old, bool) or (isz(old) and z3.is_bool(old)):
            m.set(r, False)
            return old
        if isinstance(old, int) or isz(old):
            m.set(r, 0)
            return old
    raise Unsupported('mem::take')


def mem_forget(interp, m, args, info):
    forget_val(m, args[0])
    return UNITV


def forget_val(m, v):
    if m.zst:
        if isinstance(v, EV):
            m.pool = add(m.pool, 1)
        elif isinstance(v, ArrVal):
            m.pool = add(m.pool, v.n)


def mem_drop(interp, m, args, info):
    c = m.new_cell(args[0])
    try:
        interp.drop_val_at(m, Ref(c), args[0], info.atys[0] if info.atys else ('infer',))
    finally:
        m.cells.pop(c, None)
    return UNITV


def b_size_of(interp, m, args, info):
    return size_of(interp, m, info.gargs[0])


def b_align_of(interp, m, args, info):
    return align_of(interp, m, info.gargs[0])


def b_needs_drop(interp, m, args, info):
    return False if m.copy else z3.Bool('needs_drop_T')


# ------------------------------------------------------------------ slices
def s_from_raw_parts(interp, m, args, info):
    p, n = args
    t = ('infer',)
    if info.dty[0] in ('ref', 'ptr') and info.dty[2][0] == 'slice':
        t = info.dty[2][1]
    mu = t[0] == 'adt' and t[1] == 'MaybeUninit'
    if isinstance(p, EP):
        if not m.zst:
            b = m.bufs[p.buf]
            m.prove(lor(eq(n, 0), land(eq(p.epoch, b.epoch), not b.freed)), 'slice over current memory')
            m.prove(land(le(0, p.off), le(0, n), le(add(p.off, n), b.cap)), 'slice in bounds')
            if not mu:
                i = m.sk()
                m.prove(implies(land(le(p.off, i), lt(i, add(p.off, n))), b.was_init(i)), 'slice covers initialised elements only')
        return SP(EP(p.buf, p.epoch, p.off), n)
    if isinstance(p, IP):
        if not m.zst:
            m.prove(eq(n, 0), 'slice through a dangling pointer')
        return SP(p, n)
    raise Unsupported('from_raw_parts of %r' % (p,))


def s_slice_from_raw(interp, m, args, info):
    p, n = args
    return SP(p, n)


def as_sp(interp, m, v):
    """slice value of a &[T]-like operand"""
    if isinstance(v, SP):
        return v
    if isinstance(v, Ref):
        x = m.get(v)
        if isinstance(x, (SP, Ref)):
            return as_sp(interp, m, x)
        if isinstance(x, Agg) and x.ty and x.ty[1] in ('InlineBuf', '#arrstore'):
            return SP(EP(x.f['buf'].buf, 0, 0), x.f['n'])
        if isinstance(x, Agg) and isinstance(x.variant, str) and not x.f:
            return SP(IP(1), 0)
    if isinstance(v, EP) and v.n is not None:
        return SP(EP(v.buf, v.epoch, v.off), v.n)
    raise Unsupported('slice %r' % (v,))


def s_len(interp, m, args, info):
    if isinstance(args[0], Ref) and isinstance(m.get(args[0]), ArrVal):
        return m.get(args[0]).n
    return as_sp(interp, m, args[0]).n


def s_as_ptr(interp, m, args, info):
    return as_sp(interp, m, args[0]).p


def s_is_empty(interp, m, args, info):
    return eq(as_sp(interp, m, args[0]).n, 0)


def sp_off(m, sp, i):
    if isinstance(sp.p, EP):
        if m.zst:
            return sp.p
        return EP(sp.p.buf, sp.p.epoch, add(sp.p.off, i))
    return sp.p


def range_of(m, r, n):
    """(start,end) of a core range value for length n; None if it is not a range"""
    if isinstance(r, Agg) and r.ty and r.ty[0] == 'adt':
        k = r.ty[1].split('::')[-1]
        if k == 'Range':
            return r.f[0], r.f[1]
        if k == 'RangeFrom':
            return r.f[0], n
        if k == 'RangeTo':
            return 0, r.f[0]
        if k == 'RangeFull':
            return 0, n
        if k == 'RangeInclusive':
            return r.f[0], add(r.f[1], 1)
        if k == 'RangeToInclusive':
            return 0, add(r.f[0], 1)
    if isinstance(r, Atom) and 'RangeFull' in str(r.s):
        return 0, n
    return None


def s_get_unchecked(interp, m, args, info):
    sp, i = as_sp(interp, m, args[0]), args[1]
    r = range_of(m, i, sp.n)
    if r is not None:
        s, e = r
        m.prove(land(le(s, e), le(e, sp.n)), 'get_unchecked range within the slice')
        return SP(sp_off(m, sp, s), sub(e, s))
    if isinstance(i, V):
        raise Unsupported('get_unchecked by %r' % (i,))
    m.prove(lt(i, sp.n), 'get_unchecked index within the slice')
    return sp_off(m, sp, i)


def s_index(interp, m, args, info):
    sp, i = as_sp(interp, m, args[0]), args[1]
    if isinstance(i, Abs):
        return Ref(m.new_cell(delegate(interp, m, 'index', sp, i)))
    r = range_of(m, i, sp.n)
    if r is not None:
        s, e = r
        if not m.branch(land(le(s, e), le(e, sp.n)), 'range in bounds'):
            interp.panic(m)
        return SP(sp_off(m, sp, s), sub(e, s))
    if isinstance(i, V):
        raise Unsupported('index by %r' % (i,))
    if not m.branch(lt(i, sp.n), 'index in bounds'):
        interp.panic(m)
    return sp_off(m, sp, i)


def s_get(interp, m, args, info):
    sp, i = as_sp(interp, m, args[0]), args[1]
    r = range_of(m, i, sp.n)
    if r is not None:
        s, e = r
        if not m.branch(land(le(s, e), le(e, sp.n)), 'range in bounds'):
            return NONE
        return some(SP(sp_off(m, sp, s), sub(e, s)))
    if isinstance(i, V):
        raise Unsupported('get')
    if not m.branch(lt(i, sp.n), 'index in bounds'):
        return NONE
    return some(sp_off(m, sp, i))


def s_split_at(interp, m, args, info):
    sp, i = as_sp(interp, m, args[0]), args[1]
    if not m.branch(le(i, sp.n), 'split_at in bounds'):
        interp.panic(m)
    return tup(SP(sp.p, i), SP(sp_off(m, sp, i), sub(sp.n, i)))


def s_ptr_range(interp, m, args, info):
    sp = as_sp(interp, m, args[0])
    return Agg(('adt', 'Range', ()), None, {0: sp.p, 1: sp_off(m, sp, sp.n)})


def s_iter(interp, m, args, info):
    sp = as_sp(interp, m, args[0])
    return Agg(('adt', 'Iter', ()), None, {'sp': sp, 'i': 0, 'j': sp.n})


def s_swap(interp, m, args, info):
    sp, i, j = as_sp(interp, m, args[0]), args[1], args[2]
    if not m.branch(land(lt(i, sp.n), lt(j, sp.n)), 'swap in bounds'):
        interp.panic(m)
    if m.branch(eq(i, j), 'same'):
        return UNITV
    return p_swap(interp, m, [sp_off(m, sp, i), sp_off(m, sp, j)], info)


def s_first(interp, m, args, info):
    sp = as_sp(interp, m, args[0])
    if m.branch(eq(sp.n, 0), 'empty'):
        return NONE
    return some(sp.p)


def s_last(interp, m, args, info):
    sp = as_sp(interp, m, args[0])
    if m.branch(eq(sp.n, 0), 'empty'):
        return NONE
    return some(sp_off(m, sp, sub(sp.n, 1)))


def delegate(interp, m, op, *xs):
    """the slice operation `op` applied to the operands: an uninterpreted function of them; operations that write to their second
    operand (a hasher, a formatter) are recorded as calls"""
    vals = [hash_atom(op)]
    for x in xs:
        vals += ident(m, x)
    if op == 'hash':
        delegate(interp, m, 'hash-length', xs[0].n, xs[1])
        delegate(interp, m, 'hash-elements', *xs)
        return UNITV
    if op in ('hash-length', 'hash-elements', 'hash-element', 'fmt'):
        c = m.chan('slice-op')
        m.chans['slice-op'] = c.entry(tuple(vals))
        k = c.count
    else:
        k = m.uf('slice_' + op, *vals)
    return Agg(('adt', '#delegated', ()), None, {'op': Atom(op), 'k': k})


def slice_eq(interp, m, a, b, key=('builtin', 'slice_eq')):
    """[T]::eq: the lengths, then the elements in order up to the first that differs"""
    if not m.branch(eq(a.n, b.n), 'lengths'):
        return False
    c = m.new_cell(0)

    def step():
        i = m.cells[c]
        if not m.branch(lt(i, a.n), 'eq'):
            return ('exit', True)
        if not m.branch(user_rel(m, 'eq', sp_off(m, a, i), sp_off(m, b, i)), 'equal'):
            return ('exit', False)
        m.cells[c] = add(i, 1)
        return ('cont', None)
    r = loops.accelerate(interp, m, key, step, None)
    m.cells.pop(c, None)
    return r


def slice_order(interp, m, a, b, partial, key=('builtin', 'slice_cmp')):
    """[T]::cmp, [T]::partial_cmp: the first elements that are not equal decide, then the lengths (-1, 0, 1; None: not comparable)"""
    c = m.new_cell(0)

    def step():
        i = m.cells[c]
        if not m.branch(land(lt(i, a.n), lt(i, b.n)), 'cmp'):
            return ('exit', 'lengths')
        o = user_rel(m, 'partial_cmp' if partial else 'cmp', sp_off(m, a, i), sp_off(m, b, i))
        if not m.branch(eq(o, 0), 'equal'):
            return ('exit', o)
        m.cells[c] = add(i, 1)
        return ('cont', None)
    r = loops.accelerate(interp, m, key, step, None)
    m.cells.pop(c, None)
    if isinstance(r, str):
        r = simp(ite(lt(a.n, b.n), -1, ite(eq(a.n, b.n), 0, 1)))
    elif partial and not m.branch(le(r, 1), 'comparable'):
        return NONE
    o = Agg(('adt', 'Ordering', ()), r, {})
    return some(o) if partial else o


def user_rel(m, op, p, q):
    """the elements' own == or order, where what is compared is the slices' (contracts of the PartialEq, PartialOrd and Ord impls): a
    function of the two values that returns"""
    r = m.uf(op + '_of', m.e_peek(p, 'operand of ' + op), m.e_peek(q, 'operand of ' + op), sort='bool' if op == 'eq' else 'int')
    if op != 'eq':
        m.assume(land(le(-1, r), le(r, 2 if op == 'partial_cmp' else 1)))
    return r


def hash_atom(s):
    import zlib
    return zlib.crc32(str(s).encode())


def ident(m, x):
    if isinstance(x, SP):
        if isinstance(x.p, EP):
            return [x.p.buf, x.p.epoch, x.p.off if not m.zst else 0, x.n]
        return [-1, 0, x.p.a if not m.zst else 0, x.n]
    if isinstance(x, Abs):
        return [hash_atom(x.chan)]
    if isinstance(x, Ref):
        v = deref_val(m, x)
        if isinstance(v, (Abs, SP)):
            return ident(m, v)
        return [hash_atom((x.cell, x.path))]
    if isinstance(x, Atom):
        return [hash_atom(x.s)]
    if not isinstance(x, bool) and (isinstance(x, int) or isz(x)):
        return [x]
    raise Unsupported('delegated operand %r' % (x,))


def s_cmp(op):
    def h(interp, m, args, info):
        a = as_sp(interp, m, args[0])
        b = args[1]
        try:
            b = as_sp(interp, m, b)
        except Unsupported:
            if op in ('eq', 'ne', 'partial_cmp', 'cmp'):
                raise
        if op in ('eq', 'ne', 'partial_cmp', 'cmp', 'lt', 'le', 'gt', 'ge') and not m.pure:
            raise Unsupported('comparison of slices')
        if op in ('eq', 'ne'):
            v = slice_eq(interp, m, a, b)
            return lnot(v) if op == 'ne' else v
        if op in ('partial_cmp', 'cmp'):
            return slice_order(interp, m, a, b, op == 'partial_cmp')
        if op in ('lt', 'le', 'gt', 'ge'):
            return models.order_holds(op, slice_order(interp, m, a, b, True))
        return delegate(interp, m, op, a, b)
    return h


def s_clone_from_slice(interp, m, args, info):
    d, s = as_sp(interp, m, args[0]), as_sp(interp, m, args[1])
    if not m.branch(eq(d.n, s.n), 'clone_from_slice lengths'):
        interp.panic(m)
    # for i in 0..n { self[i].clone_from(&src[i]) }   (default clone_from: *self = source.clone())
    c = m.new_cell(0)

    def step():
        i = m.cells[c]
        if not m.branch(lt(i, d.n), 'clone_from_slice'):
            return ('exit', None)
        clone_onto(interp, m, sp_off(m, d, i), sp_off(m, s, i))
        m.cells[c] = add(i, 1)
        return ('cont', None)
    loops.accelerate(interp, m, ('builtin', 'clone_from_slice'), step, None)
    m.cells.pop(c, None)
    return UNITV


# ------------------------------------------------------------------ user code
def clone_elem(interp, m, p):
    t = m.e_peek(p)
    return EV(user_call(interp, m, 'clone', (t,)))


def clone_onto(interp, m, p, src):
    """T::clone_from, as its default is: *self = source.clone()"""
    if m.copy:
        m.e_write(p, EV(m.e_peek(src)))
        return
    v = clone_elem(interp, m, src)
    old = m.e_read(p)
    m.e_write(p, v)
    m.drop_value(old.t)


def b_clone_from(interp, m, args, info):
    clone_onto(interp, m, elem_place(m, args[0]), elem_place(m, args[1]))
    return UNITV


def user_call(interp, m, chan, vals, ret='int'):
    """one call to user code; returns its (uninterpreted) result, or unwinds"""
    c = m.chan(chan)
    k = c.count
    m.chans[chan] = c.entry(tuple(vals))
    if m.user_panics and m.branch(m.uf('unw_' + chan, k, sort='bool'), chan + ' panics'):
        interp.panic(m, chan)
    if ret == 'unit':
        return None
    if chan == 'clone' and m.zst:
        return ZST_T
    return m.uf(chan + '_ret', k, sort=ret)


def b_clone(interp, m, args, info):
    v = args[0]
    st = info.self
    if st == ('adt', 'T', ()) or isinstance(v, (EP, IP, RefAbs)):
        if m.copy:
            return EV(m.e_peek(v))
        return clone_elem(interp, m, v)
    x = deref_val(m, v)
    if isinstance(x, int) or isz(x) or (isinstance(x, Agg) and x.ty and x.ty[0] == 'adt' and x.ty[1] in ('Option', 'Range')):
        return x
    raise Unsupported('clone of %r' % (x,))


def fn_arg_terms(m, xs):
    """terms identifying the arguments of a user call, and the element places it may mutate"""
    vals, muts = [], []
    for x in xs:
        if isinstance(x, (EP, IP)):
            vals.append(m.e_peek(x, 'argument of user code'))
            muts.append(x)
        elif isinstance(x, RefAbs):
            vals.append(x.t)
        elif isinstance(x, (EV,)):
            vals.append(x.t)
        elif isinstance(x, int) or (isz(x) and z3.is_int(x)):
            vals.append(x)
        elif isinstance(x, Ref):
            vals.append(hash_atom((x.cell, x.path)))
        else:
            raise Unsupported('user code argument %r' % (x,))
    return vals, muts


def call_abs(interp, m, f, args):
    if f.kind != 'fn':
        raise Unsupported('call of %r' % (f,))
    vals, muts = fn_arg_terms(m, args)
    c = m.chan(f.chan)
    k = c.count
    m.chans[f.chan] = c.entry(tuple(vals))
    mut = f.ty.get('mut', False)
    for j, p in enumerate(muts):
        if isinstance(args[args.index(p)], EV):
            continue
        if mut and not m.zst and isinstance(p, EP):
            m.bufs[p.buf] = m.bufs[p.buf].op('w', p.off, m.uf('%s_mut%d' % (f.chan, j), k))
    if m.user_panics and m.branch(m.uf('unw_' + f.chan, k, sort='bool'), f.chan + ' panics'):
        interp.panic(m, f.chan)
    r = f.ty.get('ret')
    if r == 'T':
        return EV(ZST_T if m.zst else m.uf(f.chan + '_ret', k))
    if r == 'bool':
        return m.uf(f.chan + '_ret', k, sort='bool')
    if r == 'K':
        return m.uf(f.chan + '_ret', k)
    return UNITV


def call_mut(interp, m, args, info):
    f, t = args[0], args[1]
    xs = [t.f[i] for i in range(len(t.f))] if isinstance(t, Agg) else []
    return interp.call_value(m, f, xs)


def elem_place(m, v):
    x = v if isinstance(v, (EP, IP, RefAbs)) else deref_val(m, v)
    if isinstance(x, (EP, IP, RefAbs)):
        return x
    raise Unsupported('comparison of %r' % (x,))


def user_eq(interp, m, args, info):
    """PartialEq on elements or keys"""
    def term(v):
        if isinstance(v, (EP, IP, RefAbs)):
            return m.e_peek(v, 'operand of ==')
        x = deref_val(m, v)
        if isinstance(x, (EP, IP, RefAbs)):
            return m.e_peek(x, 'operand of ==')
        if isinstance(x, int) or isz(x):
            return x
        if isinstance(x, EV):
            return x.t
        raise Unsupported('operand of == %r' % (x,))
    a, b = term(args[0]), term(args[1])
    r = m.uf('eq_of', a, b, sort='bool') if m.pure else user_call(interp, m, 'eq', (a, b), ret='bool')
    return lnot(r) if info.name == 'ne' else r


# ------------------------------------------------------------------ iterators
def it_next(interp, m, it, ty=('infer',)):
    """Iterator::next on the iterator stored in place `it` (a Ref)"""
    v = m.get(it)
    if isinstance(v, Ref):
        t2 = ty[2] if ty[0] == 'ref' else ('infer',)
        return it_next(interp, m, v, t2)
    if isinstance(v, Abs) and v.kind == 'iter':
        c = m.chan(v.chan)
        k = c.count
        m.chans[v.chan] = c.entry(())
        if m.user_panics and m.branch(m.uf('unw_' + v.chan, k, sort='bool'), v.chan + ' panics'):
            interp.panic(m, v.chan)
        if m.branch(m.uf(v.chan + '_some', k, sort='bool'), 'iterator yields'):
            t = ZST_T if m.zst else m.uf(v.chan + '_ret', k)
            return some(RefAbs(t) if v.ty == 'ref' else EV(t))
        return NONE
    if isinstance(v, Agg):
        nm = v.ty[1].split('::')[-1] if v.ty and v.ty[0] == 'adt' else ''
        if nm == 'Range':
            a, b = v.f[0], v.f[1]
            if m.branch(lt(a, b), 'range'):
                m.set(it, v.with_field(0, add(a, 1)))
                return some(a)
            return NONE
        if nm == 'RangeInclusive':
            a, b, ex = v.f[0], v.f[1], v.f.get(2, False)
            if m.branch(land(le(a, b), lnot(ex)), 'range'):
                if m.branch(lt(a, b), 'range'):
                    m.set(it, v.with_field(0, add(a, 1)))
                else:
                    m.set(it, v.with_field(2, True))
                return some(a)
            return NONE
        if nm == 'Rev':
            return it_next_back(interp, m, Ref(it.cell, it.path + (0,)))
        if nm == 'Iter':
            i = v.f['i']
            if m.branch(lt(i, v.f['j']), 'slice iterator'):
                m.set(it, v.with_field('i', add(i, 1)))
                return some(sp_off(m, v.f['sp'], i))
            return NONE
        if nm in ('Cloned', 'Copied'):
            r = it_next(interp, m, Ref(it.cell, it.path + (0,)))
            if r.variant == 0:
                return NONE
            if m.copy:
                return some(EV(m.e_peek(r.f[0])))
            return some(clone_elem(interp, m, r.f[0]))
        if nm == 'Take':
            n = v.f[1]
            if m.branch(eq(n, 0), 'take exhausted'):
                return NONE
            m.set(it, v.with_field(1, sub(n, 1)))
            return it_next(interp, m, Ref(it.cell, it.path + (0,)))
        if nm == 'Map':
            r = it_next(interp, m, Ref(it.cell, it.path + (0,)))
            if r.variant == 0:
                return NONE
            return some(interp.call_value(m, Ref(it.cell, it.path + (1,)), [r.f[0]]))
        if nm in models.ADAPTERS:
            return models.next_adapter(interp, m, it, v, nm)
        if nm == 'RepeatWith':
            return some(interp.call_value(m, Ref(it.cell, it.path + (0,)), []))
        # an iterator of the crate
        return interp.call_trait(m, v.ty, ('adt', 'Iterator', ()), 'next', (), [it], [('ref', True, v.ty)], ('infer',))
    raise Unsupported('iterator %r' % (v,))


def it_next_back(interp, m, it):
    v = m.get(it)
    if isinstance(v, Ref):
        return it_next_back(interp, m, v)
    if isinstance(v, Agg):
        nm = v.ty[1].split('::')[-1] if v.ty and v.ty[0] == 'adt' else ''
        if nm == 'Range':
            a, b = v.f[0], v.f[1]
            if m.branch(lt(a, b), 'range'):
                m.set(it, v.with_field(1, sub(b, 1)))
                return some(sub(b, 1))
            return NONE
        if nm == 'Iter':
            j = v.f['j']
            if m.branch(lt(v.f['i'], j), 'slice iterator'):
                m.set(it, v.with_field('j', sub(j, 1)))
                return some(sp_off(m, v.f['sp'], sub(j, 1)))
            return NONE
        inner = Ref(it.cell, it.path + (0,))
        if nm == 'Rev':
            return it_next(interp, m, inner)
        if nm in ('Cloned', 'Copied'):
            r = it_next_back(interp, m, inner)
            if r.variant == 0:
                return NONE
            return some(EV(m.e_peek(r.f[0])) if m.copy else clone_elem(interp, m, r.f[0]))
        if nm == 'Map':
            r = it_next_back(interp, m, inner)
            return NONE if r.variant == 0 else some(interp.call_value(m, Ref(it.cell, it.path + (1,)), [r.f[0]]))
        if v.ty and v.ty[0] == 'adt' and nm in ('Drain', 'IntoIter', 'DrainFilter', 'Splice'):
            return interp.call_trait(m, v.ty, ('adt', 'DoubleEndedIterator', ()), 'next_back', (), [it], [('ref', True, v.ty)], ('infer',))
    raise Unsupported('next_back of %r' % (v,))


def i_next(interp, m, args, info):
    it = args[0]
    v = m.get(it) if isinstance(it, Ref) else None
    return it_next(interp, m, it)


def i_next_back(interp, m, args, info):
    return it_next_back(interp, m, args[0])


def i_into_iter(interp, m, args, info):
    v = args[0]
    if isinstance(v, SP):
        return Agg(('adt', 'Iter', ()), None, {'sp': v, 'i': 0, 'j': v.n})
    if isinstance(v, Agg) and v.ty and v.ty[0] == 'adt':
        nm = v.ty[1].split('::')[-1]
        if nm == 'Option':
            return models.opt_iter(v)
        if nm == 'RangeInclusive' and not isinstance(v.f[0], V):
            # (numbers are unbounded here: one past the end is a number)
            return Agg(('adt', 'Range', ()), None, {0: v.f[0], 1: ite(v.f.get(2, False), v.f[0], add(v.f[1], 1))})
    return v


def i_wrap(nm):
    def h(interp, m, args, info):
        return Agg(('adt', nm, ()), None, {i: a for i, a in enumerate(args)})
    return h


def i_for_each(interp, m, args, info):
    it = m.new_cell(args[0])
    f = m.new_cell(args[1])
    ft = args[1]

    def step():
        r = it_next(interp, m, Ref(it), info.self or ('infer',))
        if r.variant == 0:
            return ('exit', None)
        interp.call_value(m, Ref(f), [r.f[0]])
        return ('cont', None)

    def cleanup():
        # the closure's captures and a by-value iterator are dropped
        for c in (f, it):
            v = m.cells.get(c)
            from exec import needs_drop
            if v is not None and needs_drop(v):
                interp.drop_val_at(m, Ref(c), v, ('infer',))
        m.cells.pop(it, None)
        m.cells.pop(f, None)
    try:
        loops.accelerate(interp, m, ('builtin', 'for_each'), step, None)
    except Unwind as e:
        m.unwinding = e.tag
        cleanup()
        m.unwinding = None
        raise
    cleanup()
    return UNITV


def i_collect(interp, m, args, info):
    """collect into a std Vec"""
    t = info.dty
    if not (t[0] == 'adt' and t[1] == 'Vec'):
        raise Unsupported('collect into ' + show_type(t))
    it = m.new_cell(args[0])
    n = m.new_buf(Buf(z3.BoolVal(False), z3.Function('junkc!%d' % m.next_buf, z3.IntSort(), z3.IntSort())(IX), 2 ** 70, kind='vec'))
    v = m.new_cell(0)

    def step():
        r = it_next(interp, m, Ref(it))
        if r.variant == 0:
            return ('exit', None)
        x = want(r.f[0], EV, 'collect item')
        k = m.cells[v]
        if not m.branch(lt(k, IMAX), 'the Vec can hold one more'):
            m.unwinding = 'reserve'
            m.drop_value(x.t)
            m.unwinding = None
            interp.panic(m, 'reserve')
        m.e_write(EP(n, 0, k), x, 'collect')
        m.cells[v] = add(k, 1)
        return ('cont', None)
    try:
        loops.accelerate(interp, m, ('builtin', 'collect'), step, None)
    except Unwind as e:
        m.unwinding = e.tag
        m.e_drop_n(EP(n, 0, 0), m.cells[v], 'collect unwinding')
        m.bufs[n] = m.bufs[n].upd(freed=True)
        m.unwinding = None
        raise
    k = m.cells[v]
    m.assume(le(k, IMAX))
    m.cells.pop(it, None)
    m.cells.pop(v, None)
    return Agg(('adt', 'Vec', ()), None, {'buf': SA(n), 'len': k})


def drop_vec(interp, m, ref, v):
    m.set(ref, MOVED)
    sa = v.f['buf']
    pend = None
    try:
        m.e_drop_n(EP(sa.buf, m.bufs[sa.buf].epoch, 0), v.f['len'], 'drop of a Vec')
    except Unwind as e:
        pend = e
    drop_storage(interp, m, sa)
    if pend:
        raise pend


def vec_of(m, v):
    while isinstance(v, Ref):
        x = m.get(v)
        if isinstance(x, Agg) and x.ty[1] == 'Vec':
            return v, x
        if isinstance(x, Agg) and x.ty[1] == 'ManuallyDrop':
            v = Ref(v.cell, v.path + (0,))
            continue
        v = x
    raise Unsupported('Vec %r' % (v,))


def v_len(interp, m, args, info):
    return vec_of(m, args[0])[1].f['len']


def v_set_len(interp, m, args, info):
    r, v = vec_of(m, args[0])
    m.set(r, v.with_field('len', args[1]))
    return UNITV


def v_deref(interp, m, args, info):
    r, v = vec_of(m, args[0])
    b = v.f['buf'].buf
    return SP(EP(b, m.bufs[b].epoch, 0), v.f['len'])


def v_as_ptr(interp, m, args, info):
    r, v = vec_of(m, args[0])
    b = v.f['buf'].buf
    return EP(b, m.bufs[b].epoch, 0)


def v_capacity(interp, m, args, info):
    r, v = vec_of(m, args[0])
    return m.bufs[v.f['buf'].buf].cap


def v_raw(interp, m, args, info):
    v = args[0]
    if not (isinstance(v, Agg) and v.ty[1] == 'Vec'):
        raise Unsupported('Vec::into_raw_parts')
    b = v.f['buf'].buf
    xs = [EP(b, m.bufs[b].epoch, 0), v.f['len'], m.bufs[b].cap]
    if 'with_alloc' in info.name:
        xs.append(v.f.get('alloc', Atom('alloc')))
    return tup(*xs)


def v_from_raw(interp, m, args, info):
    p, n, cap = args[:3]
    if not isinstance(p, EP):
        raise Unsupported('Vec::from_raw_parts of %r' % (p,))
    b = m.bufs[p.buf]
    m.prove(land(eq(p.off, 0), eq(p.epoch, b.epoch), not b.freed), 'Vec::from_raw_parts: pointer to the start of a live allocation')
    if not m.zst:
        m.prove(eq(cap, b.cap), 'Vec::from_raw_parts: the capacity of the allocation')
        m.all_owned(p, n, 'Vec::from_raw_parts elements')
    m.prove(le(n, cap), 'Vec::from_raw_parts: length within capacity')
    f = {'buf': SA(p.buf), 'len': n}
    if len(args) > 3:
        f['alloc'] = args[3]
    return Agg(('adt', 'Vec', ()), None, f)


def i_size_hint(interp, m, args, info):
    v = deref_val(m, args[0])
    if isinstance(v, Abs):
        lo = m.uf(v.chan + '_hint', m.chan(v.chan).count)
        m.assume(land(le(0, lo), le(lo, MAX)))
        hi = m.uf(v.chan + '_hint_hi', m.chan(v.chan).count)
        m.assume(land(le(0, hi), le(hi, MAX)))
        h = Agg(('adt', 'Option', ()), ite(m.uf(v.chan + '_hint_has', m.chan(v.chan).count, sort='bool'), 1, 0), {0: hi})
        return tup(lo, h)
    if isinstance(v, Agg):
        nm = v.ty[1].split('::')[-1]
        if nm == 'Iter':
            n = sub(v.f['j'], v.f['i'])
            return tup(n, some(n))
        if nm == 'Range':
            n = ite(lt(v.f[0], v.f[1]), sub(v.f[1], v.f[0]), 0)
            return tup(n, some(n))
        if nm in ('Cloned', 'Copied'):
            return i_size_hint(interp, m, [Ref(args[0].cell, args[0].path + (0,))], info)
        r = args[0]
        while isinstance(r, Ref) and isinstance(m.get(r), Ref):
            r = m.get(r)
        return interp.call_trait(m, v.ty, ('adt', 'Iterator', ()), 'size_hint', (), [r], [('ref', False, v.ty)], info.dty)
    raise Unsupported('size_hint')


def i_exact_len(interp, m, args, info):
    """ExactSizeIterator::len: lower bound of size_hint (which must equal the upper bound)"""
    r = i_size_hint(interp, m, args, info)
    lo, hi = r.f[0], r.f[1]
    if not (isinstance(hi, Agg)):
        raise Unsupported('size_hint value')
    if not m.branch(land(eq(hi.variant, 1), eq(hi.f.get(0, 0), lo)), 'exact size hint'):
        interp.panic(m)
    return lo


# ------------------------------------------------------------------ Option / Result / integers
def opt(m, v):
    v = deref_val(m, v) if isinstance(v, Ref) else v
    if not isinstance(v, Agg) or v.variant is None:
        raise Unsupported('option %r' % (v,))
    return v


def is_variant(m, v, i):
    if isz(v.variant):
        return m.branch(eq(v.variant, i), 'variant')
    return v.variant == i


def o_expect(interp, m, args, info):
    v = opt(m, args[0])
    good = 1 if v.ty[1] == 'Option' else 0
    if is_variant(m, v, good):
        return v.f[0]
    interp.panic(m)


def o_unwrap_unchecked(interp, m, args, info):
    v = opt(m, args[0])
    good = 1 if v.ty[1] == 'Option' else 0
    if is_variant(m, v, good):
        return v.f[0]
    m.prove(False, 'unwrap_unchecked of a present value')
    raise PathEnd()


def o_is(i, optname):
    def h(interp, m, args, info):
        v = opt(m, args[0])
        return eq(v.variant, i)
    return h


def o_take(interp, m, args, info):
    r = args[0]
    v = m.get(r)
    m.set(r, NONE)
    return v


def o_eq(interp, m, args, info):
    a, b = opt(m, args[0]), opt(m, args[1])
    r = land(eq(a.variant, b.variant), lor(eq(a.variant, 0), eq(a.f.get(0, 0), b.f.get(0, 0))))
    if any(isinstance(x.f.get(0, 0), V) for x in (a, b)):
        raise Unsupported('option comparison')
    r = simp(r)
    return lnot(r) if info.name == 'ne' else r


def try_into_result(interp, m, args, info):
    v = args[0]
    if v.ty[1] == 'Option':
        return Agg(('adt', 'Result', ()), sub(1, v.variant), {0: v.f.get(0, Atom('none'))})
    return v


def int_of(v):
    if isinstance(v, bool) or isinstance(v, V):
        raise Unsupported('integer %r' % (v,))
    return v


def irange(info):
    from exec import INT_RANGE
    t = getattr(info, 'self')
    return INT_RANGE.get(head(t), (0, MAX))


def n_wrapping(op):
    def h(interp, m, args, info):
        a, b = int_of(args[0]), int_of(args[1])
        lo, hi = irange(info)
        x = add(a, b) if op == '+' else sub(a, b) if op == '-' else m.mul(a, b)
        return interp.wrap(m, x, lo, hi)
    return h


def n_checked(op):
    def h(interp, m, args, info):
        a, b = int_of(args[0]), int_of(args[1])
        lo, hi = irange(info)
        x = add(a, b) if op == '+' else sub(a, b) if op == '-' else m.mul(a, b)
        if m.branch(land(le(lo, x), le(x, hi)), 'no overflow'):
            return some(x)
        return NONE
    return h


def n_overflowing(op):
    def h(interp, m, args, info):
        a, b = int_of(args[0]), int_of(args[1])
        lo, hi = irange(info)
        x = add(a, b) if op == '+' else sub(a, b) if op == '-' else m.mul(a, b)
        o = lnot(land(le(lo, x), le(x, hi)))
        if m.branch(o, 'overflow'):
            return tup(interp.wrap(m, x, lo, hi), True)
        return tup(x, False)
    return h


def n_saturating(op):
    def h(interp, m, args, info):
        a, b = int_of(args[0]), int_of(args[1])
        lo, hi = irange(info)
        x = add(a, b) if op == '+' else sub(a, b) if op == '-' else m.mul(a, b)
        if m.branch(le(x, hi), 'no overflow'):
            if m.branch(le(lo, x), 'no underflow'):
                return x
            return lo
        return hi
    return h


def n_min(interp, m, args, info):
    a, b = int_of(args[0]), int_of(args[1])
    return a if m.branch(le(a, b), 'min') else b


def n_max(interp, m, args, info):
    a, b = int_of(args[0]), int_of(args[1])
    return b if m.branch(le(a, b), 'max') else a


def n_eq(interp, m, args, info):
    a, b = deref_val(m, args[0]), deref_val(m, args[1])
    if isinstance(a, V) or isinstance(b, V):
        return interp.ptr_cmp(m, 'Eq' if info.name == 'eq' else 'Ne', a, b)
    r = eq(a, b)
    return lnot(r) if info.name == 'ne' else r


def ptr_eq(interp, m, args, info):
    a, b = args
    if isinstance(a, SP) and isinstance(b, SP):
        r = interp.ptr_cmp(m, 'Eq', a.p, b.p)
        return r if info.name == 'addr_eq' else land(r, eq(a.n, b.n))
    return interp.ptr_cmp(m, 'Eq', a, b)


# ------------------------------------------------------------------ smart pointers and wrappers
def w_new(nm):
    def h(interp, m, args, info):
        return Agg(('adt', nm, ()), None, {0: args[0]})
    return h


def md_deref(interp, m, args, info):
    r = args[0]
    if not isinstance(r, Ref):
        raise Unsupported('ManuallyDrop %r' % (r,))
    return Ref(r.cell, r.path + (0,))


def md_into_inner(interp, m, args, info):
    return args[0].f[0]


def md_take(interp, m, args, info):
    r = args[0]
    v = m.get(r).f[0]
    m.set(Ref(r.cell, r.path + (0,)), STOLEN)
    return v


def md_drop(interp, m, args, info):
    r = args[0]
    r = Ref(r.cell, r.path + (0,))
    interp.drop_val_at(m, r, m.get(r), ('infer',))
    return UNITV


def box_new(interp, m, args, info):
    c = m.new_cell(args[0])
    return Agg(('adt', 'Box', ()), None, {0: Ref(c)})


def box_deref(interp, m, args, info):
    v = deref_val(m, args[0])
    return v.f[0]


def mu_uninit(interp, m, args, info):
    t = getattr(info, 'self')
    t = t[2][0] if t[0] == 'adt' and t[2] else ('infer',)
    if t[0] == 'array' and t[1][0] == 'adt' and t[1][1] == 'MaybeUninit':
        n = interp.const_n(m, None, t[2])
        b = m.new_buf(Buf(z3.BoolVal(False), z3.Function('junki!%d' % m.next_buf, z3.IntSort(), z3.IntSort())(IX), n, kind='inline'))
        return Agg(('adt', 'MaybeUninit', ()), None, {0: Agg(('adt', 'InlineBuf', ()), None, {'buf': SA(b), 'n': n})})
    return Agg(('adt', 'MaybeUninit', ()), None, {0: UNINIT})


def mu_new(interp, m, args, info):
    return Agg(('adt', 'MaybeUninit', ()), None, {0: args[0]})


def mu_assume_init(interp, m, args, info):
    return args[0].f[0]


def nn_id(interp, m, args, info):
    return args[0]


def nn_as_ref(interp, m, args, info):
    v = args[0]
    if isinstance(v, Ref):
        x = m.get(v)
        if isinstance(x, (Ref, EP, IP, SP)):
            return x
    raise Unsupported('NonNull %r' % (v,))


def nn_dangling(interp, m, args, info):
    t = getattr(info, 'self')
    t = t[2][0] if t[0] == 'adt' and t[2] else ('infer',)
    return IP(align_of(interp, m, t) if t[0] != 'infer' else 1)


def nn_new(interp, m, args, info):
    p = args[0]
    if isinstance(p, IP):
        if m.branch(eq(p.a, 0), 'null'):
            return NONE
        return some(p)
    return some(p)


def transmute_copy(interp, m, args, info):
    src = m.get(args[0]) if isinstance(args[0], Ref) else None
    if isinstance(src, Agg) and src.ty and src.ty[1] == 'ManuallyDrop':
        src = src.f[0]
    t = info.dty
    if isinstance(src, Agg) and t[0] == 'adt' and t[1] in interp.module.structs and src.ty[1] in interp.module.structs:
        # both #[repr(C)] with the same field types in the same order
        a = interp.module.structs[t[1]][1]
        b = interp.module.structs[src.ty[1]][1]
        if a and a[0] != 'enum' and [x for x, _ in a] == [x for x, _ in b]:
            return Agg(t, None, dict(src.f))
    raise Unsupported('transmute_copy to ' + show_type(t))


def nop_atom(interp, m, args, info):
    return Atom('fmt')


def panic(interp, m, args, info):
    interp.panic(m)


def unreachable_unchecked(interp, m, args, info):
    m.prove(False, 'unreachable_unchecked is not reached')
    raise PathEnd()


def abort(interp, m, args, info):
    raise PathEnd()


# ------------------------------------------------------------------ allocator
def lay(size, align):
    return Agg(('adt', 'Layout', ()), None, {'size': size, 'align': align})


def l_new(interp, m, args, info):
    t = info.gargs[0]
    return lay(size_of(interp, m, t), align_of(interp, m, t))


def l_of(m, v):
    v = deref_val(m, v)
    if not (isinstance(v, Agg) and v.ty[1] == 'Layout'):
        raise Unsupported('layout %r' % (v,))
    return v


def l_size(interp, m, args, info):
    return l_of(m, args[0]).f['size']


def l_align(interp, m, args, info):
    return l_of(m, args[0]).f['align']


def l_unchecked(interp, m, args, info):
    m.prove(le(args[0], sub(IMAX, sub(args[1], 1))), 'layout size representable')
    return lay(args[0], args[1])


def l_repeat(interp, m, args, info):
    """Layout::repeat for a layout whose size is a multiple of its alignment (true of Layout::new::<T>())"""
    l, n = l_of(m, args[0]), args[1]
    s = m.mul(l.f['size'], n)
    if m.branch(le(s, sub(MAX, sub(l.f['align'], 1))), 'layout fits'):
        return ok(tup(lay(s, l.f['align']), l.f['size']))
    return err(Atom('LayoutError'))


def l_array(interp, m, args, info):
    t = info.gargs[0]
    s = m.mul(size_of(interp, m, t), args[0])
    if m.branch(le(s, sub(IMAX, sub(align_of(interp, m, t), 1))), 'layout fits'):
        return ok(lay(s, align_of(interp, m, t)))
    return err(Atom('LayoutError'))


def new_block(interp, m, size, align, who):
    c = m.new_cell(Agg(('adt', '#block', ()), None, {'size': size, 'align': align, 'live': True, 'content': Atom('fresh'), 'who': Atom(who)}))
    m.blocks = m.blocks + (c,)
    return Ref(c)


def block(m, p, what):
    if isinstance(p, Ref):
        v = m.cells.get(p.cell)
        if isinstance(v, Agg) and v.ty and v.ty[1] == '#block':
            return v
    m.prove(False, '%s of memory that was allocated' % what)
    raise PathEnd()


def a_alloc(interp, m, args, info, who='global'):
    l = l_of(m, args[0])
    m.prove(lt(0, l.f['size']), 'no zero-sized allocation')
    c = m.chan('alloc')
    m.chans['alloc'] = c.entry((l.f['size'], l.f['align']))
    if m.branch(m.uf('allocfail', c.count, sort='bool'), 'allocation fails'):
        return IP(0)
    m.assume(le(l.f['size'], IMAX))
    return new_block(interp, m, l.f['size'], l.f['align'], who)


def dealloc_block(interp, m, p, l, who, what='deallocation'):
    b = block(m, p, what)
    m.prove(eq(b.f['live'], True), '%s happens once' % what)
    m.prove(eq(b.f['size'], l.f['size']), '%s passes the size the block was allocated with' % what)
    m.prove(eq(b.f['align'], l.f['align']), '%s passes the alignment the block was allocated with' % what)
    m.prove(b.f['who'].s == who, '%s by the allocator that made the block' % what)
    return b


def a_dealloc(interp, m, args, info, who='global'):
    l = l_of(m, args[1])
    b = dealloc_block(interp, m, args[0], l, who)
    m.cells[args[0].cell] = b.with_field('live', False)
    return UNITV


def a_realloc(interp, m, args, info):
    p, l, n = args[0], l_of(m, args[1]), args[2]
    m.prove(lt(0, n), 'no zero-sized reallocation')
    return grow_block(interp, m, p, l, n, l.f['align'], 'global')


def grow_block(interp, m, p, l, n, align, who):
    b = dealloc_block(interp, m, p, l, who, 'reallocation')
    c = m.chan('alloc')
    m.chans['alloc'] = c.entry((n, align))
    if m.branch(m.uf('allocfail', c.count, sort='bool'), 'allocation fails'):
        return IP(0)
    m.assume(le(n, IMAX))
    m.cells[p.cell] = b.with_field('live', False)
    r = new_block(interp, m, n, align, who)
    v = m.cells[r.cell]
    m.cells[r.cell] = v.with_field('content', Agg(('adt', '#old', ()), None, {'of': p, 'n': ite(le(b.f['size'], n), b.f['size'], n)}))
    return r


def alloc_who(m, v):
    v = deref_val(m, v)
    return str(v.s) if isinstance(v, Atom) else str(v)


def A_allocate(interp, m, args, info):
    p = a_alloc(interp, m, args[1:], info, alloc_who(m, args[0]))
    return err(Atom('AllocError')) if isinstance(p, IP) else ok(p)


def A_grow(interp, m, args, info):
    l, l2 = l_of(m, args[2]), l_of(m, args[3])
    m.prove(le(l.f['size'], l2.f['size']), 'grow to a larger layout')
    p = grow_block(interp, m, args[1], l, l2.f['size'], l2.f['align'], alloc_who(m, args[0]))
    return err(Atom('AllocError')) if isinstance(p, IP) else ok(p)


def A_deallocate(interp, m, args, info):
    return a_dealloc(interp, m, args[1:], info, alloc_who(m, args[0]))


def A_default(interp, m, args, info):
    return Atom('alloc')


# ------------------------------------------------------------------ arrays, unsizing
def unsize(interp, m, v, t, st):
    if isinstance(v, Ref):
        x = m.get(v)
        if isinstance(x, Agg) and x.ty and x.ty[0] == 'adt' and x.ty[1] == 'InlineBuf':
            return SP(EP(x.f['buf'].buf, 0, 0), x.f['n'])
        if isinstance(x, Agg) and isinstance(x.variant, str):
            if not x.f:
                return SP(IP(1), 0)
            return v
        if isinstance(x, Atom):
            return x
        if isinstance(x, Agg) and x.ty and x.ty[0] == 'adt' and x.ty[1] == '#arrstore':
            return SP(EP(x.f['buf'].buf, 0, 0), x.f['n'])
        return v
    if isinstance(v, EP) and v.n is not None:
        return SP(EP(v.buf, v.epoch, v.off), v.n)
    if isinstance(v, (Atom, FnItem, SP)):
        return v
    if isinstance(v, Agg):
        return v
    raise Unsupported('unsizing of %r' % (v,))


def repeat(interp, m, fr, r):
    raise Unsupported('array repeat expression')


def range_bound(which):
    def h(interp, m, args, info):
        v = deref_val(m, args[0])
        if isinstance(v, Abs) and v.kind == 'range':
            k = z3.Int('R_%s_kind' % which)
            x = z3.Int('R_%s' % which)
            m.assume(land(le(0, k), le(k, 2), le(0, x), le(x, MAX)))
            c = m.new_cell(x)
            return Agg(('adt', 'Bound', ()), k, {0: Ref(c)})
        if isinstance(v, (Agg, Atom)):
            s = str(v.ty[1] if isinstance(v, Agg) else v.s)
            nm = s.split('::')[-1]
            B = lambda i, x=None: Agg(('adt', 'Bound', ()), i, {} if x is None else {0: Ref(m.new_cell(x))})
            if 'RangeFull' in s:
                return B(2)
            if nm == 'Range':
                return B(0, v.f[0]) if which == 'start' else B(1, v.f[1])
            if nm == 'RangeFrom':
                return B(0, v.f[0]) if which == 'start' else B(2)
            if nm == 'RangeTo':
                return B(2) if which == 'start' else B(1, v.f[0])
        raise Unsupported('range %r' % (v,))
    return h


def as_ref_slice(interp, m, args, info):
    v = args[0]
    st = getattr(info, 'self')
    x = deref_val(m, v)
    if isinstance(x, Abs) and x.kind == 'asref':
        return SP(EP(x.ty[0], 0, x.ty[1]), x.ty[2])
    if isinstance(x, SP):
        return x
    raise Unsupported('as_ref')


import models

# ------------------------------------------------------------------ tables
PTR = {
    'add': p_add, 'sub': lambda i, m, a, f: p_add(i, m, a, f, -1), 'offset': p_add,
    'wrapping_add': lambda i, m, a, f: p_add(i, m, a, f, 1, False), 'wrapping_sub': lambda i, m, a, f: p_add(i, m, a, f, -1, False),
    'wrapping_offset': lambda i, m, a, f: p_add(i, m, a, f, 1, False),
    'offset_from': p_offset_from, 'read': p_read, 'write': p_write, 'copy_from': p_copy_from,
    'copy_from_nonoverlapping': lambda i, m, a, f: p_copy_from(i, m, a, f, False),
    'copy_to': p_copy_to, 'copy_to_nonoverlapping': lambda i, m, a, f: p_copy_to(i, m, a, f, False),
    'drop_in_place': drop_in_place, 'cast': p_cast, 'is_null': p_is_null, 'swap': p_swap, 'replace': mem_replace,
}
SLICE = {
    'len': s_len, 'as_ptr': s_as_ptr, 'as_mut_ptr': s_as_ptr, 'is_empty': s_is_empty, 'get_unchecked': s_get_unchecked,
    'get_unchecked_mut': s_get_unchecked, 'get': s_get, 'get_mut': s_get, 'iter': s_iter, 'iter_mut': s_iter, 'split_at': s_split_at,
    'split_at_mut': s_split_at, 'as_mut_ptr_range': s_ptr_range, 'as_ptr_range': s_ptr_range, 'clone_from_slice': s_clone_from_slice,
    'swap': s_swap, 'first': s_first, 'last': s_last, 'first_mut': s_first, 'last_mut': s_last,
}
OPTION = {
    'expect': o_expect, 'unwrap': o_expect, 'is_some': o_is(1, 1), 'is_none': o_is(0, 1), 'is_ok': o_is(0, 0), 'is_err': o_is(1, 0),
    'take': o_take, 'unwrap_unchecked': o_unwrap_unchecked,
}
INT = {
    'wrapping_add': n_wrapping('+'), 'wrapping_sub': n_wrapping('-'), 'wrapping_mul': n_wrapping('*'), 'checked_add': n_checked('+'),
    'checked_sub': n_checked('-'), 'checked_mul': n_checked('*'), 'saturating_add': n_saturating('+'), 'saturating_sub': n_saturating('-'),
    'saturating_mul': n_saturating('*'), 'overflowing_add': n_overflowing('+'), 'overflowing_sub': n_overflowing('-'),
    'overflowing_mul': n_overflowing('*'), 'min': n_min, 'max': n_max,
}
NONNULL = {
    'as_ptr': nn_id, 'cast': p_cast, 'as_mut': nn_as_ref, 'as_ref': nn_as_ref, 'dangling': nn_dangling, 'new_unchecked': nn_id, 'new': nn_new,
}
MU = {'uninit': mu_uninit, 'new': mu_new, 'as_ptr': md_deref, 'as_mut_ptr': md_deref, 'assume_init': mu_assume_init,
      'write': lambda i, m, a, f: (m.set(Ref(a[0].cell, a[0].path + (0,)), a[1]), Ref(a[0].cell, a[0].path + (0,)))[1]}
MD = {'new': w_new('ManuallyDrop'), 'into_inner': md_into_inner, 'take': md_take, 'drop': md_drop}
VEC = {'len': v_len, 'set_len': v_set_len, 'as_mut_ptr': v_as_ptr, 'as_ptr': v_as_ptr, 'capacity': v_capacity, 'as_slice': v_deref,
       'as_mut_slice': v_deref, 'into_raw_parts_with_alloc': v_raw, 'from_raw_parts': v_from_raw, 'from_raw_parts_in': v_from_raw}
LAYOUT = {'new': l_new, 'size': l_size, 'align': l_align, 'from_size_align_unchecked': l_unchecked, 'repeat': l_repeat, 'array': l_array}
FREE = {
    'size_of': b_size_of, 'align_of': b_align_of, 'forget': mem_forget, 'swap': p_swap, 'replace': mem_replace, 'take': models.mem_take,
    'drop_in_place': drop_in_place, 'from_raw_parts': s_from_raw_parts, 'from_raw_parts_mut': s_from_raw_parts,
    'slice_from_raw_parts_mut': s_slice_from_raw, 'slice_from_raw_parts': s_slice_from_raw, 'read': p_read, 'write': p_write,
    'panic': panic, 'begin_panic_fmt': panic, 'begin_panic': panic, 'panic_fmt': panic, 'panic_str': panic, 'panic_display': panic, 'assert_failed': panic, 'unwrap_failed': panic,
    'expect_failed': panic, 'handle_alloc_error': panic, 'begin_panic': panic, 'panic_bounds_check': panic, 'unreachable_display': panic,
    'needs_drop': b_needs_drop, 'unreachable_unchecked': unreachable_unchecked,
    'transmute_copy': transmute_copy, 'alloc': a_alloc, 'dealloc': a_dealloc, 'realloc': a_realloc,
    'copy': lambda i, m, a, f: p_copy_to(i, m, a, f), 'copy_nonoverlapping': lambda i, m, a, f: p_copy_to(i, m, a, f, False),
    'abort': abort, 'min': n_min, 'max': n_max,
}
QUALIFIED = {'drop': ('mem',), 'swap': ('mem', 'ptr'), 'replace': ('mem', 'ptr'), 'take': ('mem',), 'min': ('cmp',), 'max': ('cmp',),
             'copy': ('ptr', 'intrinsics'), 'alloc': ('alloc',), 'dealloc': ('alloc',), 'realloc': ('alloc',)}
FREE['drop'] = mem_drop
OPTION.update(models.OPTION)
INT.update(models.INT)
VEC.update(models.VEC)
SLICE.update({'split_first': models.s_split_first(False), 'split_first_mut': models.s_split_first(False),
              'split_last': models.s_split_first(True), 'split_last_mut': models.s_split_first(True)})

STORAGE_TRAITS = {
    'capacity': abs_capacity, 'as_ptr': abs_ptr, 'as_mut_ptr': abs_ptr, 'reserve': abs_reserve, 'try_reserve': abs_try_reserve,
    'with_capacity': abs_with_capacity, '__with_capacity__const_capacity_checked': abs_with_capacity_checked,
}
RIGID_STORAGE = ('S', 'B')


def lookup(kind, key, name, interp=None, m=None, args=None):
    if kind == 'inherent':
        h = head(key)
        if h == 'ptr':
            return PTR.get(name)
        if h == 'slice' or h == 'array':
            return SLICE.get(name)
        if h in ('Option', 'Result'):
            return OPTION.get(name)
        if h in ('usize', 'isize', 'u128', 'u64', 'i64', 'u32'):
            return INT.get(name)
        if h == 'NonNull':
            return NONNULL.get(name)
        if h == 'MaybeUninit':
            return MU.get(name)
        if h == 'ManuallyDrop':
            return MD.get(name)
        if h == 'Vec':
            return VEC.get(name)
        if h == 'Layout':
            return LAYOUT.get(name)
        if h == 'Box' and name == 'new':
            return box_new
        if h == 'bool' and name in ('then', 'then_some'):
            return models.b_then
        if h == 'Ordering' and name in models.ORDERING:
            return models.ORDERING[name]
        if (h, name) in models.DEBUG:
            return models.DEBUG[h, name]
        if h in ('Range', 'RangeInclusive', 'RangeTo', 'RangeFrom') and name in models.RANGE:
            return models.RANGE[name]
        if h in ('ArgumentV1', 'Arguments', 'Argument'):
            return nop_atom
        return None
    if kind == 'free':
        if name in ('eq', 'addr_eq'):
            return ptr_eq if 'ptr' in key.split('::') else None
        if name in ('once', 'empty', 'repeat') and not key.startswith('crate'):
            return {'once': models.i_once, 'empty': models.i_empty, 'repeat': models.adapter('Repeat')}[name]
        if name in FREE:
            q = key.split('::')
            q = [x for x in q if not x.startswith('<')]
            if name in ('read', 'write', 'copy', 'min', 'max', 'alloc', 'take', 'drop', 'replace', 'swap', 'panic') and interp is not None:
                pass
            return FREE[name]
        return None
    if kind in ('trait', 'trait-default'):
        selfty, tr, nm = key
        t = tr[1] if tr[0] == 'adt' else '?'
        if kind == 'trait':
            r = models.trait(selfty, tr, t, nm, head(selfty))
            if r is not None:
                return r
            if t in ('Storage', 'StorageWithCapacity', 'StorageInit'):
                if selfty[0] == 'adt' and selfty[1] in RIGID_STORAGE and not selfty[2]:
                    return STORAGE_TRAITS.get(nm)
                return None
            if t in ('FnMut', 'FnOnce', 'Fn') and nm in ('call_mut', 'call_once', 'call'):
                return call_mut
            if t == 'Clone' and nm == 'clone':
                if selfty == ('adt', 'T', ()) or head(selfty) in ('usize', 'Option', 'Range', 'bool'):
                    return b_clone
                return None
            if t == 'Clone' and nm == 'clone_from' and selfty == ('adt', 'T', ()):
                return b_clone_from
            if t == 'PartialEq' and nm in ('eq', 'ne'):
                h = head(selfty)
                if h == 'Option':
                    return o_eq
                if h == 'slice' or (h == 'ref' and selfty[2][0] == 'slice'):
                    return s_cmp(nm)
                if h in ('usize', 'bool', 'ptr'):
                    return n_eq
                if selfty[0] == 'adt' and selfty[1] in ('T', 'K') or (h == 'ref' and selfty[2] == ('adt', 'T', ())):
                    return user_eq
                return None
            if t in ('PartialOrd', 'Ord', 'Hash', 'Debug') and head(selfty) == 'slice':
                return s_cmp(nm)
            if t in ('PartialOrd', 'Ord', 'Hash', 'Debug') and head(selfty) == 'ref' and selfty[2][0] == 'slice':
                return s_cmp(nm)
            if t in ('Ord',) and nm in ('min', 'max') and head(selfty) == 'usize':
                return n_min if nm == 'min' else n_max
            if t in ('Index', 'IndexMut') and head(selfty) in ('slice', 'array'):
                return s_index
            if t == 'Deref' or t == 'DerefMut':
                h = head(selfty)
                if h == 'ManuallyDrop':
                    return md_deref
                if h == 'Vec':
                    return v_deref
                if h == 'Box':
                    return box_deref
            if t == 'AsRef' and nm == 'as_ref' and selfty[0] == 'adt' and selfty[1] == 'O':
                return as_ref_slice
            if t == 'AsRef' and head(selfty) == 'slice':
                return as_ref_slice
            if t == 'RangeBounds' and nm in ('start_bound', 'end_bound'):
                return range_bound(nm.split('_')[0])
            if t == 'From' and head(selfty) == 'NonNull':
                return nn_id
            if t == 'From' and head(selfty) == 'Box' and len(tr[2]) == 1 and selfty[2][:1] == (tr[2][0],):
                return box_new
            if t in ('AsRef', 'AsMut', 'Borrow', 'BorrowMut') and head(selfty) == 'Box' and len(tr[2]) == 1 and selfty[2][:1] == (tr[2][0],):
                return box_deref
            if t == 'Into' and len(tr[2]) == 1 and head(tr[2][0]) == 'Option' and tr[2][0][2][:1] == (selfty,):
                return lambda i, m, a, f: some(a[0])
            if t == 'From' and head(selfty) == 'Option' and len(tr[2]) == 1 and selfty[2][:1] == (tr[2][0],):
                return lambda i, m, a, f: some(a[0])
            if t in ('From', 'Into') and (selfty == ('tuple', ()) or (len(tr[2]) == 1 and tr[2][0] == selfty)):
                return nn_id
            if t == 'Try':
                if nm == 'into_result':
                    return try_into_result
                if nm == 'from_error' and head(selfty) == 'Option':
                    return lambda i, m, a, f: NONE
                if nm == 'from_ok':
                    return lambda i, m, a, f: some(a[0]) if head(selfty) == 'Option' else ok(a[0])
                if nm == 'from_error' and head(selfty) == 'Result':
                    return lambda i, m, a, f: err(a[0])
            if t == 'Default' and selfty[0] == 'adt' and selfty[1] in RIGID_STORAGE and not selfty[2]:
                return abs_default
            if t == 'Default' and selfty[0] == 'array':
                return array_default
            if t == 'Default' and selfty[0] == 'adt' and selfty[1] == 'A' and not selfty[2]:
                return A_default
            if t == 'Allocator':
                return {'allocate': A_allocate, 'grow': A_grow, 'deallocate': A_deallocate}.get(nm)
            if t == 'Extend' and head(selfty) == 'Vec':
                return None
            if t == 'Iterator' or t == 'DoubleEndedIterator' or t == 'IntoIterator':
                h = head(selfty)
                if nm == 'next' and (h in ('Range', 'Iter', 'Cloned', 'Copied', 'Take', 'Map', 'Rev', 'RangeInclusive', 'I', 'RepeatWith', 'IterMut', 'proj') + models.ADAPTERS or models.is_adapter(m, args)):
                    return i_next
                if nm == 'next_back' and h in ('Range', 'Iter', 'IterMut', 'Rev', 'Cloned', 'Copied', 'Map'):
                    return i_next_back
                if nm == 'into_iter' and h not in ('GenericVec',) and not (h == 'ref' and head(selfty[2]) == 'GenericVec'):
                    return i_into_iter
                if nm == 'size_hint' and h in ('Range', 'Iter', 'Cloned', 'I', 'proj'):
                    return i_size_hint
                return None
            return None
        # defaults
        if t == 'Iterator':
            if nm == 'for_each':
                return i_for_each
            if nm in ('cloned', 'copied'):
                return i_wrap('Cloned')
            if nm == 'take':
                return i_wrap('Take')
            if nm == 'map':
                return i_wrap('Map')
            if nm == 'rev':
                return i_wrap('Rev')
            if nm == 'by_ref':
                return nn_id
            if nm == 'collect':
                return i_collect
            if nm == 'next':
                return i_next
            if nm in models.ITER:
                return models.ITER[nm]
        if t == 'DoubleEndedIterator' and nm == 'nth_back':
            return models.i_nth_back
        if t == 'ExactSizeIterator' and nm == 'len':
            return i_exact_len
        return None
    return None


def specialise(interp, m, cands):
    """overlapping impls (nightly min_specialization): the Copy impl applies to Copy element types only"""
    cp = [c for c in cands if 'T: Copy' in c[0].impl.text]
    other = [c for c in cands if c not in cp]
    if m.copy and cp:
        return cp
    return other or cands
