"""P19: consuming iteration."""
import z3
from core import *
from spec import *
import builtin_specs as B
from contracts import case, CASES, USE, SZ, SZC, GV, T, S, vlen, vcap, pre
from contracts_iter import any_range, RANGE


def mk_into(w, name='v', track=True):
    """an IntoIter in an arbitrary state: index within the length, the elements from index on are owned"""
    m = w.m
    L = w.int(name + '_len', 0, IMAX)
    i0 = w.int(name + '_index', 0, IMAX)
    m.assume(le(i0, L))
    sa, cap = w.new_sa(name, 'S', None, own=z3.And(IX >= i0, IX < L))
    m.bufs[sa.buf].stale = z3.And(IX >= 0, IX < L)
    if m.zst:
        m.pool = add(m.pool, sub(L, i0))
    else:
        m.assume(le(L, cap))
    v = Agg(('adt', 'GenericVec', (T, S)), None, {w.f('mark'): UNITV, w.f('len'): L, w.f('storage'): sa})
    fs = {}
    for i, (n, t) in enumerate(w.mod.structs['IntoIter'][1]):
        fs[i] = i0 if t == USIZE else Agg(('adt', 'ManuallyDrop', (v.ty,)), None, {0: v})
    val = Agg(('adt', 'IntoIter', (T, S)), None, fs)
    c = m.new_cell(val)
    w.handles[c] = 'iterator'
    it = Ref(c)

    def held(m):
        x = m.cells.get(c)
        if not isinstance(x, Agg):
            return 0
        y = II(w, it, m)
        return sub(y.len, y.index)

    def hook(m):
        """a live iterator is valid: nothing twice, nothing lost"""
        x = m.cells.get(c)
        if not isinstance(x, Agg):
            if not m.zst:
                i = m.fresh('sk_it')
                m.prove(lnot(m.bufs[sa.buf].own(i)) if not m.copy else True, 'unwinding: no element lost with the iterator')
            m.prove(bool(m.bufs[sa.buf].freed), 'unwinding: the storage of the iterator is released')
            return
        y = II(w, it, m)
        m.prove(land(le(0, y.index), le(y.index, y.len)), 'unwinding: iterator index within its length')
        b = m.bufs[sa.buf]
        m.prove(not b.freed, 'unwinding: storage still there')
        if not m.zst:
            i = m.fresh('sk_it')
            m.prove(le(y.len, b.cap), 'unwinding: iterator within the capacity')
            m.prove(eq(b.own(i), land(le(y.index, i), lt(i, y.len))), 'unwinding: the iterator owns exactly its remaining elements')
    w.counts.append(held)
    w.hook = hook
    return it


class II:
    def __init__(self, x, r, m=None):
        self.m = m = m or x.m
        self.r = r
        v = m.get(r)
        s = x.mod.structs['IntoIter'][1]
        self.fi = [i for i, (n, t) in enumerate(s) if t == USIZE][0]
        self.fv = [i for i, (n, t) in enumerate(s) if t != USIZE][0]
        self.vr = Ref(r.cell, r.path + (self.fv, 0))
        self.x = x
        self.flen = x.f('len')
        self.fst = x.f('storage')

    @property
    def buf(self):
        return self.m.get(self.vr).f[self.fst].buf

    index = property(lambda s: s.m.get(s.r).f[s.fi], lambda s, v: s.m.set(s.r, s.m.get(s.r).with_field(s.fi, v)))
    len = property(lambda s: s.m.get(s.vr).f[s.flen], lambda s, v: s.m.set(s.vr, s.m.get(s.vr).with_field(s.flen, v)))

    @property
    def left(self):
        return sub(self.len, self.index)

    def at(self, i):
        return EP(self.buf, self.m.bufs[self.buf].epoch, i if not self.m.zst else 0)


def sp_next(x, r):
    it = II(x, r)
    if not x.branch(lt(it.index, it.len)):
        return NONE
    v = x.m.e_read(it.at(it.index), 'contract')
    it.index = add(it.index, 1)
    return some(v)


def sp_next_back(x, r):
    it = II(x, r)
    if not x.branch(lt(it.index, it.len)):
        return NONE
    it.len = sub(it.len, 1)
    return some(x.m.e_read(it.at(it.len), 'contract'))


def sp_nth(x, r, n):
    it = II(x, r)
    k = n if x.branch(le(n, it.left)) else it.left
    p = it.at(it.index)
    it.index = add(it.index, k)
    x.m.e_drop_n(p, k, 'contract')
    return sp_next(x, r)


def sp_left(x, r):
    return II(x, r).left


def sp_view(x, r):
    it = II(x, r)
    return SP(it.at(it.index), it.left)


def sp_it_drop(x, r):
    """the elements not yet yielded are dropped, then the storage is released"""
    it = II(x, r)
    b = it.buf
    pend = None
    try:
        x.m.e_drop_n(it.at(it.index), it.left, 'contract')
    except Unwind as e:
        pend = e
    B.drop_storage(x.i, x.m, SA(b))
    if pend:
        raise pend
    return UNITV


def sp_into_iter(x, v):
    fs = {}
    for i, (n, t) in enumerate(x.mod.structs['IntoIter'][1]):
        fs[i] = 0 if t == USIZE else Agg(('adt', 'ManuallyDrop', (v.ty,)), None, {0: v})
    x.consume(v)
    return Agg(('adt', 'IntoIter', (T, S)), None, fs)


def sp_count(x, v):
    c = x.m.new_cell(v)
    n = II(x, Ref(c)).left
    sp_it_drop(x, Ref(c))
    del x.m.cells[c]
    return n


def by_value(w):
    r = mk_into(w)
    w.args_live = add(w.args_live, II(w, r, w.m).left)
    return [w.m.cells.pop(r.cell)]


HOOK = dict(unwind_hook=lambda w, m, pre, post, tag: w.hook(m))
case('Iterator for IntoIter::next', lambda w: [mk_into(w)], sp_next)
case('DoubleEndedIterator for IntoIter::next_back', lambda w: [mk_into(w)], sp_next_back)
case('Iterator for IntoIter::nth', lambda w: [mk_into(w), w.int('n')], sp_nth, exact=False, **HOOK)
case('Iterator for IntoIter::size_hint', lambda w: [mk_into(w)], lambda x, r: tup(sp_left(x, r), some(sp_left(x, r))))
case('Iterator for IntoIter::count', by_value, sp_count, **HOOK)
case('ExactSizeIterator for IntoIter::is_empty', lambda w: [mk_into(w)], lambda x, r: eq(sp_left(x, r), 0), nightly=True)
case('IntoIter::as_slice', lambda w: [mk_into(w)], sp_view)
case('IntoIter::as_mut_slice', lambda w: [mk_into(w)], sp_view)
case('IntoIterator for GenericVec::into_iter', lambda w: [w.vec_val()], sp_into_iter)
case('Drop for IntoIter::drop', lambda w: [mk_into(w)], sp_it_drop, opts=dict(glue=True), name='drop of IntoIter', exact=True,
     pick=lambda f: f.params[0][1][2][1] == 'IntoIter' if f.params[0][1][0] == 'ref' else True)
