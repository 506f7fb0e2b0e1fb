"""P13: the vector behaves as the slice of its elements."""
import z3
from core import *
from spec import *
import builtin_specs as B
from contracts import case, CASES, USE, SZ, SZC, GV, T, S, vlen, vcap, pre
from contracts_iter import any_range, RANGE


def whole(x, r):
    """the slice of the elements of a vector: exactly those below the length, starting where the storage says"""
    v = x.vec(r)
    return SP(v.at(0), v.len)


def asref(w, r=None):
    """an arbitrary slice-like operand: its own memory, or part of the vector itself"""
    if r is None:
        s = w.slice('other')
        return Ref(w.m.new_cell(Abs('asref', 'other', (s.p.buf, 0, s.n))))
    a, n = w.int('other_off', 0, IMAX), w.int('other_n', 0, IMAX)
    w.m.assume(le(add(a, n), vlen(w, r)))
    return Ref(w.m.new_cell(Abs('asref', 'other', (w.m.get(r).f[w.f('storage')].buf, 0 if w.m.zst else a, n))))


def deleg(op, *rest):
    """the operation `op` of the slice, on the slice of the elements and the same other operands"""
    def sp(x, r, *a):
        ops = [whole(x, r)]
        for y in a:
            if isinstance(y, Abs) and y.kind == 'asref':
                y = SP(EP(y.ty[0], 0, y.ty[1]), y.ty[2])
            elif isinstance(y, Ref):
                v = x.m.get(y)
                if isinstance(v, Abs) and v.kind == 'asref':
                    y = SP(EP(v.ty[0], 0, v.ty[1]), v.ty[2])
                if isinstance(v, Agg) and v.ty and v.ty[1] == 'GenericVec':
                    y = whole(x, y)
            ops.append(y)
        if op == 'eq':
            return B.slice_eq(x.i, x.m, *ops, key=('spec', 'eq'))
        if op in ('cmp', 'partial_cmp'):
            return B.slice_order(x.i, x.m, *ops, op == 'partial_cmp', key=('spec', op))
        d = B.delegate(x.i, x.m, op, *ops)
        if op == 'index':
            return Ref(x.m.new_cell(d))
        return d
    return sp


# == and the order of the elements are taken as functions of the values compared
PURE = dict(pure=True)
OENV = {'O': ('adt', 'O', ()), 'I': ('adt', 'I', ()), 'H': ('adt', 'H', ())}


def two(alias):
    def f(w):
        r = w.vec()
        return [r, asref(w, r if alias else None)]
    return f


for _a, _n in ((False, ''), (True, ' (operand within the vector)')):
    case('PartialEq for GenericVec::eq', two(_a), deleg('eq'), env=OENV, opts=PURE, name='PartialEq for GenericVec::eq' + _n)
    case('PartialOrd for GenericVec::partial_cmp', two(_a), deleg('partial_cmp'), env=OENV, opts=PURE, name='PartialOrd for GenericVec::partial_cmp' + _n)


def same_vec(w):
    r = w.vec()
    return [r, r]


case('Ord for GenericVec::cmp', lambda w: [w.vec(), w.vec('o')], deleg('cmp'), opts=PURE)
case('Ord for GenericVec::cmp', same_vec, deleg('cmp'), opts=PURE, name='Ord for GenericVec::cmp (with itself)')
case('Hash for GenericVec::hash', lambda w: [w.vec(), Ref(w.m.new_cell(Abs('hasher', 'state', None)))], deleg('hash'), env=OENV)
case('Debug for GenericVec::fmt', lambda w: [w.vec(), Ref(w.m.new_cell(Abs('formatter', 'f', None)))], deleg('fmt'))
case('Index for GenericVec::index', lambda w: [w.vec(), Abs('index', 'ix', None)], deleg('index'), env=OENV)
case('IndexMut for GenericVec::index_mut', lambda w: [w.vec(), Abs('index', 'ix', None)], deleg('index'), env=OENV)
for _n in ('Deref for GenericVec::deref', 'DerefMut for GenericVec::deref_mut', 'AsRef for GenericVec::as_ref', 'AsMut for GenericVec::as_mut',
           'Borrow for GenericVec::borrow', 'BorrowMut for GenericVec::borrow_mut', GV + 'as_slice', GV + 'as_mut_slice'):
    case(_n, lambda w: [w.vec()], whole)


def sp_iter(x, r):
    sp = whole(x, r)
    return Agg(('adt', 'Iter', ()), None, {'sp': sp, 'i': 0, 'j': sp.n})


case('IntoIterator for &::into_iter', lambda w: [w.vec()], sp_iter)
case('IntoIterator for &mut::into_iter', lambda w: [w.vec()], sp_iter)
for _n in ('as_ptr', 'as_mut_ptr'):
    case(GV + _n, lambda w: [w.vec()], lambda x, r: x.vec(r).at(0))
