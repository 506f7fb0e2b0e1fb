"""The contracts of the crate's functions."""
import sys
import z3
from core import *
from spec import *
import builtin_specs as B

CASES = {}


def case(key, setup, spec, **kw):
    c = Case(key, setup, spec, **kw)
    c.module = sys._getframe(1).f_globals['__name__'].replace('contracts_', '')
    assert c.name not in CASES, c.name
    CASES[c.name] = c
    return c


SZ = ('sized', 'zst')
SZC = ('sized', 'zst', 'copy')
GV = 'GenericVec::'


# ------------------------------------------------------------------ P01 / P04: insertion
def sp_reserve(x, r, n):
    x.grow(x.vec(r), n)
    return UNITV


def sp_try_reserve(x, r, n):
    return x.grown(x.vec(r), n)


case(GV + 'reserve', lambda w: [w.vec(), w.int('n')], sp_reserve)
case(GV + 'try_reserve', lambda w: [w.vec(), w.int('n')], sp_try_reserve)


def put(x, v, i, val):
    """insert one value at i (room is available)"""
    n = v.len
    v.move(i, add(i, 1), sub(n, i))
    x.consume(val)
    v.write(i, val)
    v.len = add(n, 1)
    return v.at(i)


def put_arr(x, v, i, val):
    n = v.len
    v.move(i, add(i, val.n), sub(n, i))
    x.consume(val)
    x.m.e_write_arr(v.at(i), val, 'contract')
    v.len = add(n, val.n)
    return v.arr(i, val.n)


def sp_push(x, r, val):
    v = x.vec(r)
    x.grow(v, 1)
    return put(x, v, v.len, val)


def sp_insert(x, r, i, val):
    v = x.vec(r)
    if not x.branch(le(i, v.len)):
        x.panic()
    x.grow(v, 1)
    return put(x, v, i, val)


def sp_push_array(x, r, val):
    v = x.vec(r)
    x.grow(v, val.n)
    return put_arr(x, v, v.len, val)


def sp_insert_array(x, r, i, val):
    v = x.vec(r)
    if not x.branch(le(i, v.len)):
        x.panic()
    x.grow(v, val.n)
    return put_arr(x, v, i, val)


case(GV + 'push', lambda w: [w.vec(), w.elem()], sp_push)
case(GV + 'insert', lambda w: [w.vec(), w.int('i'), w.elem()], sp_insert)
case(GV + 'push_array', lambda w: [w.vec(), w.array()], sp_push_array, nightly=True)
case(GV + 'insert_array', lambda w: [w.vec(), w.int('i'), w.array()], sp_insert_array, nightly=True)


def sp_push_unchecked(x, r, val):
    v = x.vec(r)
    x.require(lt(v.len, v.cap), 'push_unchecked needs room')
    return put(x, v, v.len, val)


def sp_insert_unchecked(x, r, i, val):
    v = x.vec(r)
    x.require(land(lt(v.len, v.cap), le(i, v.len)), 'insert_unchecked needs room and a valid index')
    return put(x, v, i, val)


def sp_push_array_unchecked(x, r, val):
    v = x.vec(r)
    x.require(le(val.n, sub(v.cap, v.len)), 'push_array_unchecked needs room')
    return put_arr(x, v, v.len, val)


def sp_insert_array_unchecked(x, r, i, val):
    v = x.vec(r)
    x.require(land(le(val.n, sub(v.cap, v.len)), le(i, v.len)), 'insert_array_unchecked needs room and a valid index')
    return put_arr(x, v, i, val)


def pre(setup, *conds):
    """setup with a precondition (unchecked functions)"""
    def f(w):
        a = setup(w)
        for c in conds:
            w.m.assume(c(w, a))
        return a
    return f


def vlen(w, r):
    return w.m.get(r).f[w.f('len')]


def vcap(w, r):
    return IMAX if w.m.zst else w.m.bufs[w.m.get(r).f[w.f('storage')].buf].cap


has_room = lambda w, a: lt(vlen(w, a[0]), vcap(w, a[0]))
has_room_arr = lambda w, a: le(z3.Int('N'), sub(vcap(w, a[0]), vlen(w, a[0])))
idx_le = lambda w, a: le(a[1], vlen(w, a[0]))
idx_lt = lambda w, a: lt(a[1], vlen(w, a[0]))
nonempty = lambda w, a: lt(0, vlen(w, a[0]))
arr_there = lambda w, a: le(z3.Int('N'), vlen(w, a[0]))
arr_at = lambda w, a: le(add(a[1], z3.Int('N')), vlen(w, a[0]))

case(GV + 'push_unchecked', pre(lambda w: [w.vec(), w.elem()], has_room), sp_push_unchecked)
case(GV + 'insert_unchecked', pre(lambda w: [w.vec(), w.int('i'), w.elem()], has_room, idx_le), sp_insert_unchecked)
case(GV + 'push_array_unchecked', pre(lambda w: [w.vec(), w.array()], has_room_arr), sp_push_array_unchecked, nightly=True)
case(GV + 'insert_array_unchecked', pre(lambda w: [w.vec(), w.int('i'), w.array()], has_room_arr, idx_le), sp_insert_array_unchecked,
     nightly=True)


# ------------------------------------------------------------------ P02: removal
def take(x, v, i):
    n = v.len
    val = v.read(i)
    v.move(add(i, 1), i, sub(sub(n, i), 1))
    v.len = sub(n, 1)
    return val


def take_arr(x, v, i, k):
    n = v.len
    val = v.read_arr(i, k)
    v.move(add(i, k), i, sub(sub(n, i), k))
    v.len = sub(n, k)
    return val


def swap_take(x, v, i):
    n = v.len
    val = v.read(i)
    if not x.branch(eq(i, sub(n, 1))):
        v.move(sub(n, 1), i, 1)
    v.len = sub(n, 1)
    return val


def NN(x):
    t = x.env['N'] if hasattr(x, 'env') and 'N' in x.env else None
    return t[1] if t else z3.Int('N')


def sp_pop(x, r):
    v = x.vec(r)
    if x.branch(eq(v.len, 0)):
        x.panic()
    return take(x, v, sub(v.len, 1))


def sp_remove(x, r, i):
    v = x.vec(r)
    if not x.branch(lt(i, v.len)):
        x.panic()
    return take(x, v, i)


def sp_swap_remove(x, r, i):
    v = x.vec(r)
    if not x.branch(lt(i, v.len)):
        x.panic()
    return swap_take(x, v, i)


def sp_pop_array(x, r):
    v = x.vec(r)
    n = NN(x)
    if not x.branch(le(n, v.len)):
        x.panic()
    return take_arr(x, v, sub(v.len, n), n)


def sp_remove_array(x, r, i):
    v = x.vec(r)
    n = NN(x)
    if not x.branch(le(add(i, n), v.len)):
        x.panic()
    return take_arr(x, v, i, n)


def withN(f):
    def g(w):
        w.N()
        return f(w)
    return g


case(GV + 'pop', lambda w: [w.vec()], sp_pop, modes=SZC)
case(GV + 'remove', lambda w: [w.vec(), w.int('i')], sp_remove, modes=SZC)
case(GV + 'swap_remove', lambda w: [w.vec(), w.int('i')], sp_swap_remove, modes=SZC)
case(GV + 'pop_array', withN(lambda w: [w.vec()]), sp_pop_array, nightly=True)
case(GV + 'remove_array', withN(lambda w: [w.vec(), w.int('i')]), sp_remove_array, nightly=True)
def unchecked(cond, f, what):
    """the same effect, under a precondition instead of a panic"""
    def sp(x, r, *a):
        x.require(cond(x, x.vec(r), *a), what)
        return f(x, r, *a)
    return sp


sp_pop_unchecked = unchecked(lambda x, v: lt(0, v.len), sp_pop, 'pop_unchecked needs an element')
sp_remove_unchecked = unchecked(lambda x, v, i: lt(i, v.len), sp_remove, 'remove_unchecked needs a valid index')
sp_swap_remove_unchecked = unchecked(lambda x, v, i: lt(i, v.len), sp_swap_remove, 'swap_remove_unchecked needs a valid index')
sp_pop_array_unchecked = unchecked(lambda x, v: le(NN(x), v.len), sp_pop_array, 'pop_array_unchecked needs N elements')
sp_remove_array_unchecked = unchecked(lambda x, v, i: le(add(i, NN(x)), v.len), sp_remove_array,
                                      'remove_array_unchecked needs N elements at the index')

case(GV + 'pop_unchecked', pre(lambda w: [w.vec()], nonempty), sp_pop_unchecked)
case(GV + 'remove_unchecked', pre(lambda w: [w.vec(), w.int('i')], idx_lt), sp_remove_unchecked)
case(GV + 'swap_remove_unchecked', pre(lambda w: [w.vec(), w.int('i')], idx_lt), sp_swap_remove_unchecked)
case(GV + 'pop_array_unchecked', pre(withN(lambda w: [w.vec()]), arr_there), sp_pop_array_unchecked, nightly=True)
case(GV + 'remove_array_unchecked', pre(withN(lambda w: [w.vec(), w.int('i')]), arr_at), sp_remove_array_unchecked, nightly=True)


def sp_truncate(x, r, n):
    v = x.vec(r)
    k = v.len
    if x.branch(lt(n, k)):
        v.len = n
        v.drop_range(n, sub(k, n))
    return UNITV


case(GV + 'truncate', lambda w: [w.vec(), w.int('n')], sp_truncate, modes=SZC, exact=True)
case(GV + 'clear', lambda w: [w.vec()], lambda x, r: sp_truncate(x, r, 0), modes=SZC, exact=True)


# ------------------------------------------------------------------ P03: fallible operations
def sp_try_push(x, r, val):
    v = x.vec(r)
    if not x.branch(lt(v.len, v.cap)):
        return err(val)
    return ok(put(x, v, v.len, val))


def sp_try_insert(x, r, i, val):
    v = x.vec(r)
    if not x.branch(land(lt(v.len, v.cap), le(i, v.len))):
        return err(val)
    return ok(put(x, v, i, val))


def sp_try_push_array(x, r, val):
    v = x.vec(r)
    if not x.branch(le(val.n, sub(v.cap, v.len))):
        return err(val)
    return ok(put_arr(x, v, v.len, val))


def sp_try_insert_array(x, r, i, val):
    v = x.vec(r)
    if not x.branch(land(le(val.n, sub(v.cap, v.len)), le(i, v.len))):
        return err(val)
    return ok(put_arr(x, v, i, val))


case(GV + 'try_push', lambda w: [w.vec(), w.elem()], sp_try_push, modes=SZC)
case(GV + 'try_insert', lambda w: [w.vec(), w.int('i'), w.elem()], sp_try_insert)
case(GV + 'try_push_array', lambda w: [w.vec(), w.array()], sp_try_push_array, nightly=True)
case(GV + 'try_insert_array', lambda w: [w.vec(), w.int('i'), w.array()], sp_try_insert_array, nightly=True)


def opt_of(cond, f):
    def sp(x, r, *a):
        v = x.vec(r)
        if not x.branch(cond(x, v, *a)):
            return NONE
        return some(f(x, v, *a))
    return sp


case(GV + 'try_pop', lambda w: [w.vec()], opt_of(lambda x, v: lt(0, v.len), lambda x, v: take(x, v, sub(v.len, 1))), modes=SZC)
case(GV + 'try_remove', lambda w: [w.vec(), w.int('i')], opt_of(lambda x, v, i: lt(i, v.len), take), modes=SZC)
case(GV + 'try_swap_remove', lambda w: [w.vec(), w.int('i')], opt_of(lambda x, v, i: lt(i, v.len), swap_take), modes=SZC)
case(GV + 'try_pop_array', withN(lambda w: [w.vec()]),
     opt_of(lambda x, v: le(NN(x), v.len), lambda x, v: take_arr(x, v, sub(v.len, NN(x)), NN(x))), nightly=True)
case(GV + 'try_remove_array', withN(lambda w: [w.vec(), w.int('i')]),
     opt_of(lambda x, v, i: le(add(i, NN(x)), v.len), lambda x, v, i: take_arr(x, v, i, NN(x))), nightly=True)


# ------------------------------------------------------------------ P11: bulk appends
def sp_grow(x, r, n, val):
    v = x.vec(r)
    x.grow(v, n)
    x.consume(val)
    L = v.len
    if x.branch(eq(n, 0)):
        x.drop(val)
        return UNITV
    k = sub(n, 1)
    v.write_seg(L, k, x.clones(k, val.t))
    v.write(add(L, k), val)
    v.len = add(L, n)
    return UNITV


def generated(x, n, chan='gen'):
    m = x.m
    c = m.chan(chan)
    m.chans[chan] = c.seg(n, ())
    return ZST_T if m.zst else lit(m.uf(chan + '_ret', add(c.count, JX)))


def sp_grow_with(x, r, n, f):
    v = x.vec(r)
    x.grow(v, n)
    L = v.len
    v.write_seg(L, n, generated(x, n))
    v.len = add(L, n)
    return UNITV


def sp_resize(x, r, n, val):
    v = x.vec(r)
    L = v.len
    if x.branch(lt(L, n)):
        return sp_grow(x, r, sub(n, L), val)
    x.consume(val)
    sp_truncate(x, r, n)
    x.drop(val)
    return UNITV


def sp_resize_with(x, r, n, f):
    v = x.vec(r)
    L = v.len
    if x.branch(lt(L, n)):
        return sp_grow_with(x, r, sub(n, L), f)
    return sp_truncate(x, r, n)


def sp_extend_from_slice(x, r, s):
    v = x.vec(r)
    m = x.m
    x.grow(v, s.n)
    L = v.len
    t = ZST_T if m.zst else m.bufs[s.p.buf].mem(add(JX, s.p.off))
    v.write_seg(L, s.n, x.clones(s.n, t))
    v.len = add(L, s.n)
    return UNITV


def sp_extend(x, r, it):
    """the iterator produces n items: they are appended; the storage may be asked for what the size hint claims"""
    v = x.vec(r)
    m = x.m
    ch = it.chan
    c = m.chan(ch)
    n = sub(sub(x.ochan(ch).count, c.count), 1)
    m.prove(le(0, n), 'post: the iterator is exhausted')
    L, cap0, ep0 = v.len, v.cap, m.bufs[v.buf].epoch
    hint = m.uf(ch + '_hint', c.count)
    x.adopt_cap(v)
    b = m.bufs[v.buf]
    if v.buf >= x.base_buf and not m.zst:
        # a vector of this call: its storage is the one the body obtained
        m.bufs[v.buf] = b = b.upd(cap=x.newborn().cap)
    elif not m.zst:
        m.prove(implies(land(le(add(L, n), cap0), le(add(L, hint), cap0)), eq(b.epoch, ep0)), 'post: nothing moves when there is room')
    m.prove(le(add(L, n), v.cap), 'post: length within capacity')
    i = m.fresh('sk_item')
    m.instantiate(i)
    some_ = lambda k: m.uf(ch + '_some', add(c.count, k), sort='bool')
    m.prove(implies(land(le(0, i), lt(i, n)), some_(i)), 'post: items are appended until the iterator ends')
    m.chans[ch] = c.seg(n, ())
    t = ZST_T if m.zst else lit(m.uf(ch + '_ret', add(c.count, JX)))
    byref = it.ty == 'ref'
    if byref:
        t = x.clones(n, t)
    v.write_seg(L, n, t)
    v.len = add(L, n)
    m.chans[ch] = m.chan(ch).entry(())
    if x.refused:
        m.prove(some_(n), 'post: refusal only while there are items')
        m.prove(eq(add(L, n), v.cap), 'post: refusal only when there is no room')
        item = EV(ZST_T if m.zst else m.uf(ch + '_ret', add(c.count, n)))
        if byref and not m.copy:
            item = EV(ZST_T if m.zst else x.m.uf('clone_ret', m.chan('clone').count))
            m.chans['clone'] = m.chan('clone').entry((ZST_T if m.zst else m.uf(ch + '_ret', add(c.count, n)),))
        x.owned = [item]
        x.panic('reserve')
    m.prove(lnot(some_(n)), 'post: every item is appended')
    return UNITV


BULK = dict(prefix=True)
case(GV + 'grow', lambda w: [w.vec(), w.int('n'), w.elem()], sp_grow, modes=SZC, **BULK)
case(GV + 'grow_with', lambda w: [w.vec(), w.int('n'), w.fn('gen', 'T')], sp_grow_with, modes=SZC, **BULK)
case(GV + 'resize', lambda w: [w.vec(), w.int('n'), w.elem()], sp_resize, modes=SZC)
case(GV + 'resize_with', lambda w: [w.vec(), w.int('n'), w.fn('gen', 'T')], sp_resize_with, modes=SZ)
case(GV + 'extend_from_slice', lambda w: [w.vec(), w.slice()], sp_extend_from_slice, modes=SZC, **BULK)
case('Extend for GenericVec::extend', lambda w: [w.vec(), w.iter('iter')], sp_extend, modes=SZC,
     pick=lambda f: f.impl.trait[2][0] == T, name='Extend<T>::extend', **BULK)
case('Extend for GenericVec::extend', lambda w: [w.vec(), w.iter('iter', byref=True)], sp_extend, modes=SZC,
     pick=lambda f: f.impl.trait[2][0] != T, name='Extend<&T>::extend', opts=dict(no_items=('iter',)), **BULK)


def sp_from_iter(x, it):
    r = x.new_vec(0)
    try:
        sp_extend(x, r, it)
    except Unwind as e:
        x.m.unwinding = e.tag
        x.drop(x.take(r))
        raise
    return x.take(r)


case('FromIterator for GenericVec::from_iter', lambda w: [w.iter('iter')], sp_from_iter, modes=SZC, env={'V': T})


# ------------------------------------------------------------------ P12: clone
def sp_clone(x, r):
    v = x.vec(r)
    m = x.m
    n = v.len
    o = x.new_vec(n)
    ov = x.vec(o)
    t = ZST_T if m.zst else m.bufs[v.buf].mem(JX)
    ov.write_seg(0, n, x.clones(n, t))
    ov.len = n
    return x.take(o)


case('Clone for GenericVec::clone', lambda w: [w.vec()], sp_clone, modes=SZC)


def sp_clone_from(x, r, s):
    v = x.vec(r)
    m = x.m
    sp_truncate(x, r, s.n)
    k = v.len
    src = lambda o: ZST_T if m.zst else m.bufs[s.p.buf].mem(add(JX, add(o, s.p.off)))
    t = x.clones(k, src(0))
    v.drop_range(0, k)
    v.write_seg(0, k, t)
    d = sub(s.n, k)
    x.grow(v, d)
    t = x.clones(d, src(k))
    v.write_seg(k, d, t)
    v.len = s.n
    return UNITV


def sp_clone_from_vec(x, r, o):
    ov = x.vec(o)
    return sp_clone_from(x, r, SP(ov.at(0), ov.len))


case(GV + 'clone_from', lambda w: [w.vec(), w.slice()], sp_clone_from, modes=SZC)
case('Clone for GenericVec::clone_from', lambda w: [w.vec(), w.vec('o')], sp_clone_from_vec, modes=SZC)


# ------------------------------------------------------------------ P14: moving between vectors
def sp_split_off_into(x, r, i, o):
    v, ov = x.vec(r), x.vec(o)
    n = v.len
    if not x.branch(le(i, n)):
        x.panic()
    k = sub(n, i)
    x.grow(ov, k)
    x.m.e_copy(v.at(i), ov.at(ov.len), k, 'contract')
    v.len = i
    ov.len = add(ov.len, k)
    return UNITV


def sp_split_off(x, r, i):
    v = x.vec(r)
    n = v.len
    if not x.branch(le(i, n)):
        x.panic()
    k = sub(n, i)
    o = x.new_vec(k, 'B')
    ov = x.vec(o)
    x.m.e_copy(v.at(i), ov.at(0), k, 'contract')
    v.len = i
    ov.len = k
    return x.take(o)


def sp_convert(x, val):
    c = x.m.new_cell(val)
    out = sp_split_off(x, Ref(c), 0)
    x.drop(x.m.cells.pop(c))
    return out


BENV = {'B': ('adt', 'B', ())}
case(GV + 'split_off_into', lambda w: [w.vec('v'), w.int('i'), w.vec('o', 'B')], sp_split_off_into, env=BENV, modes=SZC)
case(GV + 'append', lambda w: [w.vec('v'), w.vec('o', 'B')], lambda x, r, o: sp_split_off_into(x, o, 0, r), env=BENV)
case(GV + 'split_off', lambda w: [w.vec('v'), w.int('i')], sp_split_off, env=BENV)
case(GV + 'convert', lambda w: [w.vec_val('v')], sp_convert, env=BENV)


# ------------------------------------------------------------------ contracts used at call sites (verified wherever they are used)
USE = {}
for _n in ('reserve try_reserve push insert push_array insert_array push_unchecked insert_unchecked push_array_unchecked '
           'insert_array_unchecked pop remove swap_remove pop_array remove_array pop_unchecked remove_unchecked '
           'swap_remove_unchecked pop_array_unchecked remove_array_unchecked truncate clear split_off_into').split():
    USE[GV + _n] = Contract(CASES[GV + _n])

import contracts_iter
import contracts_into
import contracts_slice
import contracts_filter
import contracts_splice
import contracts_raw
import contracts_heap
import contracts_make
import contracts_over
