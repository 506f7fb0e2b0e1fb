"""Provided methods of the standard traits that the crate's types do not override today: if they come to be overridden, these contracts hold them
to what the provided method does. (Optional: no such function, no obligation.)"""
import z3
from core import *
from spec import *
import builtin_specs as B
from contracts import case, CASES, USE, T, S
from contracts_iter import *
from contracts_into import mk_into, II, sp_it_drop, sp_next_back, by_value as into_by_value, HOOK
from contracts_splice import splice_live
from contracts_slice import two, deleg, OENV, PURE

OPT = dict(optional=True)


def sp_nth(back):
    def f(x, c, n):
        k = n if x.branch(le(n, c.len)) else c.len
        if back:
            p = c.v.at(sub(c.rb, k))
            c.rb = sub(c.rb, k)
        else:
            p = c.v.at(c.rf)
            c.rf = add(c.rf, k)
        x.m.e_drop_n(p, k, 'contract')
        if not x.branch(some_left(c)):
            return NONE
        return some((st_take_back if back else st_take_front)(x, c))
    return step(f)


for _k, _live in (('Drain', live('Drain')), ('Splice', splice_live)):
    _setup = lambda w, l=_live: l(w) + [w.int('n')]
    case('Iterator for %s::nth' % _k, _setup, sp_nth(False), opts=OPT, exact=False)
    case('DoubleEndedIterator for %s::nth_back' % _k, _setup, sp_nth(True), opts=OPT, exact=False)
    case('ExactSizeIterator for %s::len' % _k, _live, step(lambda x, c: c.len), opts=OPT)
    if _k == 'Splice':
        case('ExactSizeIterator for Splice::is_empty', _live, step(lambda x, c: c.empty), opts=OPT, nightly=True)


def drain_by_value(w):
    r = live('Drain')(w)[0]
    w.args_live = add(w.args_live, held_of(w))
    return [w.m.cells.pop(r.cell)]


def held_of(w):
    return w.counts[-1](w.m)


def sp_drain_count(x, v):
    r = Ref(x.m.new_cell(v))
    n = RC(x, r).len
    drop_rest(x, RC(x, r))
    sp_finish(x, RC(x, r).r)
    return n


def sp_drain_last(x, v):
    r = Ref(x.m.new_cell(v))
    c = RC(x, r)
    if not x.branch(some_left(c)):
        sp_finish(x, c.r)
        return NONE
    l = st_take_back(x, c)
    drop_rest(x, RC(x, r))
    sp_finish(x, RC(x, r).r)
    return some(l)


case('Iterator for Drain::count', drain_by_value, sp_drain_count, opts=OPT, exact=False)
case('Iterator for Drain::last', drain_by_value, sp_drain_last, opts=OPT, exact=False, leak_ok=True)


def sp_into_nth_back(x, r, n):
    it = II(x, r)
    k = n if x.branch(le(n, it.left)) else it.left
    it.len = sub(it.len, k)
    x.m.e_drop_n(it.at(it.len), k, 'contract')
    return sp_next_back(x, r)


def sp_into_last(x, v):
    c = Ref(x.m.new_cell(v))
    out = sp_next_back(x, c)
    sp_it_drop(x, c)
    del x.m.cells[c.cell]
    return out


case('DoubleEndedIterator for IntoIter::nth_back', lambda w: [mk_into(w), w.int('n')], sp_into_nth_back, opts=OPT, exact=False, **HOOK)
case('Iterator for IntoIter::last', into_by_value, sp_into_last, opts=OPT, **HOOK)
case('ExactSizeIterator for IntoIter::len', lambda w: [mk_into(w)], lambda x, r: II(x, r).left, opts=OPT)


# ------------------------------------------------------------------ comparisons
def sp_ne(x, *a):
    return lnot(deleg('eq')(x, *a))


def sp_ord(op):
    def sp(x, *a):
        o = deleg('partial_cmp')(x, *a)
        if o.variant == 0:
            return False
        d = o.f[0].variant
        return {'lt': lt(d, 0), 'le': le(d, 0), 'gt': lt(0, d), 'ge': le(0, d)}[op]
    return sp


for _a, _n in ((False, ''), (True, ' (operand within the vector)')):
    case('PartialEq for GenericVec::ne', two(_a), sp_ne, env=OENV, opts=dict(PURE, **OPT), name='PartialEq for GenericVec::ne' + _n)
    for _op in ('lt', 'le', 'gt', 'ge'):
        case('PartialOrd for GenericVec::' + _op, two(_a), sp_ord(_op), env=OENV, opts=dict(PURE, **OPT), name='PartialOrd for GenericVec::%s%s' % (_op, _n))
