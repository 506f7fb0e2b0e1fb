"""Contracts of the cursors and of the iterators built on them."""
import z3
from core import *
from spec import *
import builtin_specs as B
from contracts import case, CASES, USE, SZ, SZC, GV, T, S, vlen, vcap, pre

RAWF = ('vec', 'old_vec_len', 'write_front', 'read_front', 'read_back', 'write_back', 'finished', 'mark')


def raw_fields(mod):
    return {n: fidx(mod, 'RawCursor', n) for n in RAWF}


# ------------------------------------------------------------------ the arbitrary cursor
def mk_cursor(w, kind='RawCursor', fin=True, extra=None, name='v'):
    """an arbitrary cursor over an arbitrary vector, in a state satisfying the cursor invariant; returns the reference to it"""
    m = w.m
    F = raw_fields(w.mod)
    finished = m.branch(z3.Bool(name + '_finished')) if fin else False
    L = w.int(name + '_len', 0, IMAX)
    if finished:
        p = w.int(name + '_p', 0, IMAX)
        O = w.int(name + '_old', 0, IMAX)
        offs = [p, p, p, p]
        own = z3.And(IX >= 0, IX < L)
        live = L
    else:
        wf, rf, rb, wb = [w.int(name + '_' + x, 0, IMAX) for x in ('wf', 'rf', 'rb', 'wb')]
        O = w.int(name + '_old', 0, IMAX)
        m.assume(cursor_inv(L, wf, rf, rb, wb, O))
        offs = [wf, rf, rb, wb]
        own = cursor_own(IX, wf, rf, rb, wb, O)
        live = add(add(wf, sub(rb, rf)), sub(O, wb))
    sa, cap = w.new_sa(name, 'S', None, own=own)
    if m.zst:
        m.pool = add(m.pool, live)
    else:
        m.assume(land(le(L, cap), le(O, cap)))
        for o in offs:
            m.assume(le(o, cap))
    v = Agg(('adt', 'GenericVec', (T, S)), None, {w.f('mark'): UNITV, w.f('len'): L, w.f('storage'): sa})
    vr = Ref(m.new_cell(v))
    w.vecs.append(vr)
    ptr = (lambda o: IP(o)) if m.zst else (lambda o: EP(sa.buf, 0, o))
    raw = Agg(('adt', 'RawCursor', (T, S)), None, {
        F['vec']: vr, F['old_vec_len']: O, F['write_front']: ptr(offs[0]), F['read_front']: ptr(offs[1]), F['read_back']: ptr(offs[2]),
        F['write_back']: ptr(offs[3]), F['finished']: finished, F['mark']: UNITV})
    path = ()
    val = raw
    if kind != 'RawCursor':
        fs = {}
        for i, (n, t) in enumerate(w.mod.structs[kind][1]):
            if t[0] == 'adt' and t[1] == 'RawCursor':
                fs[i] = raw
                path = (i,)
            else:
                fs[i] = extra(n)
        val = Agg(('adt', kind, (T, S) + tuple(w.env[k] for k in w.mod.structs[kind][0][2:] if k in w.env)), None, fs)
    c = m.new_cell(val)
    w.cursors = getattr(w, 'cursors', []) + [(Ref(c, path), vr)]
    w.cursor_val, w.cursor_path = val, path
    w.cursor_names = F

    def held(m):
        """elements held by the cursor beyond the visible length"""
        rc = m.cells.get(c)
        if not isinstance(rc, Agg):
            return 0
        rc = m.get(Ref(c, path))
        if not isinstance(rc, Agg):
            return 0
        fin = rc.f[F['finished']]
        if fin is True:
            return 0
        o = [off(rc.f[F[n]]) for n in RAWF[2:6]]
        n = sub(add(add(o[0], sub(o[2], o[1])), sub(rc.f[F['old_vec_len']], o[3])), m.get(vr).f[w.f('len')])
        return n if fin is False else ite(fin, 0, n)

    def region(m, r, i, inside):
        rc = m.cells.get(c)
        if r.cell != vr.cell or not isinstance(rc, Agg):
            return inside
        rc = m.get(Ref(c, path))
        if not isinstance(rc, Agg) or rc.f[F['finished']] is True:
            return inside
        o = [off(rc.f[F[n]]) for n in RAWF[2:6]] + [rc.f[F['old_vec_len']]]
        fin = rc.f[F['finished']]
        m.prove(lor(fin, cursor_inv(m.get(vr).f[w.f('len')], *o)), 'unwinding: cursor invariant')
        if not m.zst:
            m.prove(lor(fin, le(o[4], m.bufs[sa.buf].cap)), 'unwinding: cursor within the capacity')
        return ite(fin, inside, cursor_own(i, *o)) if fin is not False else cursor_own(i, *o)
    w.counts.append(held)
    w.regions.append(region)
    return Ref(c)


def off(p):
    if isinstance(p, IP):
        return p.a
    if isinstance(p, EP):
        return p.off
    raise Unsupported('cursor pointer %r' % (p,))


def cursor_inv(L, wf, rf, rb, wb, O):
    return land(le(0, L), le(L, wf), le(wb, O), le(0, rf), le(rf, rb), le(rb, O),
                lor(land(lt(rf, rb), le(wf, rf), le(rb, wb)), land(eq(rf, rb), le(wf, wb))))


def cursor_own(i, wf, rf, rb, wb, O):
    return lor(land(le(0, i), lt(i, wf)), land(le(rf, i), lt(i, rb)), land(le(wb, i), lt(i, O)))


class RC:
    """a RawCursor seen through its contract"""

    def __init__(self, x, r):
        self.x, self.m = x, x.m
        v = x.m.get(r)
        if not isinstance(v, Agg):
            raise Unsupported('cursor %r' % (v,))
        if v.ty[1] != 'RawCursor':
            i = [k for k, t in v.f.items() if isinstance(t, Agg) and t.ty and t.ty[1] == 'RawCursor']
            if len(i) != 1:
                raise Unsupported('cursor %r' % (v,))
            r = Ref(r.cell, r.path + (i[0],))
        self.r = r
        self.F = raw_fields(x.mod)
        self.vr = x.m.get(r).f[self.F['vec']]
        self.v = VV(x, self.vr)

    def g(self, n):
        return self.m.get(self.r).f[self.F[n]]

    def s(self, n, v):
        self.m.set(self.r, self.m.get(self.r).with_field(self.F[n], v))

    def ptr(self, o):
        if self.m.zst:
            return IP(o)
        return EP(self.v.buf, self.m.bufs[self.v.buf].epoch, o)

    wf = property(lambda s: off(s.g('write_front')), lambda s, o: s.s('write_front', s.ptr(o)))
    rf = property(lambda s: off(s.g('read_front')), lambda s, o: s.s('read_front', s.ptr(o)))
    rb = property(lambda s: off(s.g('read_back')), lambda s, o: s.s('read_back', s.ptr(o)))
    wb = property(lambda s: off(s.g('write_back')), lambda s, o: s.s('write_back', s.ptr(o)))
    O = property(lambda s: s.g('old_vec_len'), lambda s, o: s.s('old_vec_len', o))
    fin = property(lambda s: s.g('finished'), lambda s, o: s.s('finished', o))

    @property
    def len(self):
        return sub(self.rb, self.rf)

    @property
    def empty(self):
        return eq(self.rf, self.rb)

    @property
    def write_front_len(self):
        return ite(self.empty, sub(self.wb, self.wf), sub(self.rf, self.wf))

    @property
    def write_back_len(self):
        return ite(self.empty, sub(self.wb, self.wf), sub(self.wb, self.rb))

    def assumed(self):
        """the state satisfies the cursor invariant (which every step is verified under)"""
        m, fin = self.m, self.fin
        for n in RAWF[2:6]:
            p = self.g(n)
            if m.zst and not isinstance(p, IP) or not m.zst and not (isinstance(p, EP) and p.buf == self.v.buf):
                return False
            if not m.zst and not m.known(lor(fin, eq(p.epoch, m.bufs[p.buf].epoch))):
                return False
        a = (self.wf, self.rf, self.rb, self.wb, self.O)
        if not m.known(lor(fin, land(cursor_inv(self.v.len, *a), le(self.O, self.v.cap)))):
            return False
        if m.zst or m.copy:
            return True
        i = m.fresh('sk_cur')
        return m.known(lor(fin, eq(m.bufs[self.v.buf].own(i), cursor_own(i, *a))))

    def inv(self):
        """the step keeps the cursor invariant (checked once per function)"""
        if self.x.mode != 'check':
            return
        m = self.m
        fin = self.fin
        if fin is True:
            m.prove(land(eq(self.wf, self.wb), eq(self.rf, self.rb)), 'post: a finished cursor is exhausted')
            return
        a = (self.wf, self.rf, self.rb, self.wb, self.O)
        m.prove(cursor_inv(self.v.len, *a), 'post: cursor invariant')
        m.prove(le(self.O, self.v.cap), 'post: cursor within the capacity')
        if not m.zst and not m.copy:
            i = m.fresh('sk_cur')
            m.prove(eq(m.bufs[self.v.buf].own(i), cursor_own(i, *a)), 'post: the cursor owns exactly its elements')


def step(f):
    def sp(x, r, *a):
        c = RC(x, r)
        out = f(x, c, *a)
        c.inv()
        return UNITV if out is None else out
    return sp


def strict(cond, f, what):
    """raw: the condition is a precondition;  safe: panics without it"""
    def raw(x, r, *a):
        x.require(cond(RC(x, r), *a), what)
        return step(f)(x, r, *a)

    def safe(x, r, *a):
        if not x.branch(cond(RC(x, r), *a)):
            x.panic()
        return step(f)(x, r, *a)
    return raw, safe


# ------------------------------------------------------------------ the steps
def st_take_front(x, c):
    p = c.v.at(c.rf)
    v = x.m.e_read(p, 'contract')
    c.rf = add(c.rf, 1)
    return v


def st_take_back(x, c):
    c.rb = sub(c.rb, 1)
    return x.m.e_read(c.v.at(c.rb), 'contract')


def st_drop_n_front(x, c, n):
    p = c.v.at(c.rf)
    c.rf = add(c.rf, n)
    x.m.e_drop_n(p, n, 'contract')


def st_drop_n_back(x, c, n):
    c.rb = sub(c.rb, n)
    x.m.e_drop_n(c.v.at(c.rb), n, 'contract')


def st_drop_front(x, c):
    p = c.v.at(c.rf)
    c.rf = add(c.rf, 1)
    x.m.e_drop(p, 'contract')


def st_drop_back(x, c):
    c.rb = sub(c.rb, 1)
    x.m.e_drop(c.v.at(c.rb), 'contract')


def st_write_front(x, c, val):
    x.consume(val)
    c.v.write(c.wf, val)
    c.wf = add(c.wf, 1)


def st_write_back(x, c, val):
    x.consume(val)
    c.wb = sub(c.wb, 1)
    c.v.write(c.wb, val)


def st_write_slice_front(x, c, s):
    x.m.e_copy(s.p, c.v.at(c.wf), s.n, 'contract')
    c.wf = add(c.wf, s.n)


def st_write_slice_back(x, c, s):
    c.wb = sub(c.wb, s.n)
    x.m.e_copy(s.p, c.v.at(c.wb), s.n, 'contract')


def st_skip_n_front(x, c, n):
    c.v.move(c.rf, c.wf, n)
    c.rf = add(c.rf, n)
    c.wf = add(c.wf, n)


def st_skip_n_back(x, c, n):
    c.rb = sub(c.rb, n)
    c.wb = sub(c.wb, n)
    c.v.move(c.rb, c.wb, n)


some_left = lambda c: lt(c.rf, c.rb)
n_left = lambda c, n: le(n, c.len)
slot_front = lambda c, v: lt(0, c.write_front_len)
slot_back = lambda c, v: lt(0, c.write_back_len)
slots_front = lambda c, s: le(s.n, c.write_front_len)
slots_back = lambda c, s: le(s.n, c.write_back_len)

STEPS = {
    'take_front': (some_left, st_take_front), 'take_back': (some_left, st_take_back),
    'drop_front': (some_left, st_drop_front), 'drop_back': (some_left, st_drop_back),
    'drop_n_front': (n_left, st_drop_n_front), 'drop_n_back': (n_left, st_drop_n_back),
    'write_front': (slot_front, st_write_front), 'write_back': (slot_back, st_write_back),
    'write_slice_front': (slots_front, st_write_slice_front), 'write_slice_back': (slots_back, st_write_slice_back),
    'skip_front': (some_left, lambda x, c: st_skip_n_front(x, c, 1)), 'skip_back': (some_left, lambda x, c: st_skip_n_back(x, c, 1)),
    'skip_n_front': (n_left, st_skip_n_front), 'skip_n_back': (n_left, st_skip_n_back),
}


def step_args(w, n):
    if '_n_' in n:
        return [w.int('n')]
    if 'slice' in n:
        return [w.slice()]
    if 'write' in n:
        return [w.elem()]
    return []


def cond_pre(kind, n, cond):
    def setup(w):
        r = mk_cursor(w, kind)
        a = step_args(w, n)

        class Q:
            pass
        x = Q()
        x.m, x.mod, x.mode = w.m, w.mod, 'check'
        x.f = w.f
        x.zst = w.m.zst
        w.m.assume(cond(RC(x, r), *a))
        return [r] + a
    return setup


for _n, (_c, _f) in STEPS.items():
    _raw, _safe = strict(_c, _f, 'RawCursor::%s needs an element or slot' % _n)
    _ex = 'drop' in _n
    case('RawCursor::' + _n, cond_pre('RawCursor', _n, _c), _raw, modes=SZ, exact=_ex)
    case('Cursor::' + _n, (lambda n: lambda w: [mk_cursor(w, 'Cursor')] + step_args(w, n))(_n), _safe,
         modes=('copy',) if 'slice' in _n else SZ, exact=_ex)


def sp_try_write(cond, f):
    def sp(x, r, val):
        if not x.branch(cond(RC(x, r), val)):
            return err(val)
        step(f)(x, r, val)
        return ok(UNITV)
    return sp


case('Cursor::try_write_front', lambda w: [mk_cursor(w, 'Cursor'), w.elem()], sp_try_write(slot_front, st_write_front))
case('Cursor::try_write_back', lambda w: [mk_cursor(w, 'Cursor'), w.elem()], sp_try_write(slot_back, st_write_back))

# ------------------------------------------------------------------ observers
OBS = {
    'len': lambda x, c: c.len, 'is_empty': lambda x, c: c.empty, 'is_write_empty': lambda x, c: eq(c.wf, c.wb),
    'is_write_front_empty': lambda x, c: eq(c.write_front_len, 0), 'is_write_back_empty': lambda x, c: eq(c.write_back_len, 0),
    # documented as unspecified while elements remain
    'write_len': lambda x, c: sub(c.wb, c.wf) if x.branch(c.empty) else Atom('any'),
    'write_front_len': lambda x, c: c.write_front_len, 'write_back_len': lambda x, c: c.write_back_len,
}
ENDS = {'front': lambda x, c: c.v.at(c.rf), 'back': lambda x, c: c.v.at(sub(c.rb, 1))}
for _n, _f in OBS.items():
    for _k in ('RawCursor', 'Cursor'):
        case(_k + '::' + _n, (lambda k: lambda w: [mk_cursor(w, k)])(_k), step(_f))
for _n, _f in ENDS.items():
    for _m in ('', '_mut'):
        case('RawCursor::' + _n + _m, cond_pre('RawCursor', _n, some_left), strict(some_left, _f, 'RawCursor::%s needs an element' % _n)[0])
        case('Cursor::' + _n + _m, lambda w: [mk_cursor(w, 'Cursor')],
             (lambda f: step(lambda x, c: some(f(x, c)) if x.branch(some_left(c)) else NONE))(_f))
case('RawCursor::at_back_of_vec', lambda w: [mk_cursor(w, 'RawCursor', fin=False)],
     step(lambda x, c: land(eq(c.wf, c.O), eq(c.wb, c.O))), modes=('sized',))


# ------------------------------------------------------------------ finish, drop, reserve
def sp_finish(x, r):
    """the gap is closed: kept and written values in front, the untouched rest behind them"""
    c = RC(x, r)
    if x.branch(c.fin):
        return UNITV
    c.fin = True
    n = c.len
    c.v.move(c.rf, c.wf, n)
    w = add(c.wf, n)
    back = sub(c.O, c.wb)
    c.v.move(c.wb, w, back)
    for f in ('rf', 'rb', 'wb', 'wf'):
        setattr(c, f, w)
    c.v.len = add(w, back)
    c.inv()
    return UNITV


case('RawCursor::finish', lambda w: [mk_cursor(w)], sp_finish)
case('Drop for RawCursor::drop', lambda w: [mk_cursor(w)], sp_finish)


def sp_cursor_reserve(x, r, space):
    """room for `space` values in the gap of an exhausted cursor; nothing else changes"""
    c = RC(x, r)
    if not x.branch(c.empty):
        x.panic()
    if x.branch(c.fin):
        x.panic()
    ws = sub(c.wb, c.wf)
    if x.branch(le(space, ws)):
        return UNITV
    inc = sub(space, ws)
    back = sub(c.O, c.wb)
    if x.zst:
        if not x.branch(le(inc, sub(IMAX, c.O))):
            x.panic('reserve')
    else:
        need = add(add(c.wf, back), space)
        if not x.branch(le(need, MAX)):
            x.panic('reserve')
        if x.branch(lt(c.v.cap, need)):
            offs = (c.wf, c.rf, c.rb, c.wb)
            if not x.ask(c.v.buf, need):
                x.panic('reserve')
            c.wf, c.rf, c.rb, c.wb = offs
    c.v.move(c.wb, add(c.wb, inc), back)
    c.wb = add(c.wb, inc)
    c.O = add(c.O, inc)
    c.inv()
    return UNITV


case('RawCursor::reserve', lambda w: [mk_cursor(w), w.int('space')], sp_cursor_reserve)
case('Cursor::reserve', lambda w: [mk_cursor(w, 'Cursor'), w.int('space')], sp_cursor_reserve)


# ------------------------------------------------------------------ P20: ranges
def any_range(w):
    """an arbitrary RangeBounds: two arbitrary bounds"""
    for n in ('start', 'end'):
        k, v = z3.Int('R_%s_kind' % n), z3.Int('R_' + n)
        w.m.assume(land(le(0, k), le(k, 2), le(0, v), le(v, MAX)))
    return Abs('range', 'R')


def resolve(x, rng, n):
    """the range against the length n, as slicing does"""
    if not isinstance(rng, Abs):
        r = B.range_of(x.m, rng, n)
        if r is None:
            raise Unsupported('range %r' % (rng,))
        s, e = r
    else:
        ks, s = z3.Int('R_start_kind'), z3.Int('R_start')
        ke, e = z3.Int('R_end_kind'), z3.Int('R_end')
        s = ite(eq(ks, 0), s, ite(eq(ks, 1), add(s, 1), 0))
        e = ite(eq(ke, 0), add(e, 1), ite(eq(ke, 1), e, n))
    if not x.branch(land(le(s, e), le(e, n))):
        x.panic()
    return s, e


def RANGE(s, e):
    return Agg(('adt', 'Range', (USIZE,)), None, {0: s, 1: e})


def sp_check_range(x, n, rng):
    return RANGE(*resolve(x, rng, n))


def new_raw(x, r, s, e):
    """a cursor over [s,e): until it is finished only the elements before the range are visible"""
    F = raw_fields(x.mod)
    v = x.vec(r)
    n = v.len
    v.len = s
    ptr = (lambda o: IP(o)) if x.zst else (lambda o: v.at(o))
    return Agg(('adt', 'RawCursor', (T, S)), None, {
        F['vec']: Ref(r.cell, r.path), F['old_vec_len']: n, F['write_front']: ptr(s), F['read_front']: ptr(s), F['read_back']: ptr(e),
        F['write_back']: ptr(e), F['finished']: False, F['mark']: UNITV})


def sp_raw_new(x, r, rng):
    s, e = rng.f[0], rng.f[1]
    x.require(land(le(0, s), le(s, e), le(e, x.vec(r).len)), 'RawCursor::new needs a range within the length')
    return new_raw(x, r, s, e)


def sp_over(kind, **extra):
    def sp(x, r, rng, *a):
        s, e = resolve(x, rng, x.vec(r).len)
        raw = new_raw(x, r, s, e)
        if kind == 'RawCursor':
            return raw
        fs, a = {}, list(a)
        for i, (n, t) in enumerate(x.mod.structs[kind][1]):
            if t[0] == 'adt' and t[1] == 'RawCursor':
                fs[i] = raw
            elif t == ('adt', 'bool', ()):
                fs[i] = False
            else:
                fs[i] = a.pop(0)
        return Agg(('adt', kind, (T, S)), None, fs)
    return sp


def new_range_args(w):
    r = w.vec()
    s, e = w.int('r_s'), w.int('r_e')
    w.m.assume(land(le(s, e), le(e, vlen(w, r))))
    return [r, RANGE(s, e)]


case('check_range', lambda w: [w.int('n'), any_range(w)], sp_check_range)
case('RawCursor::new', new_range_args, sp_raw_new)
case(GV + 'raw_cursor', lambda w: [w.vec(), any_range(w)], sp_over('RawCursor'))
case(GV + 'cursor', lambda w: [w.vec(), any_range(w)], sp_over('Cursor'))
case(GV + 'drain', lambda w: [w.vec(), any_range(w)], sp_over('Drain'))
FENV = {'F': ('adt', 'F', ()), 'I': ('adt', 'I', ())}
case(GV + 'drain_filter', lambda w: [w.vec(), any_range(w), w.fn('pred', 'bool', mut=True)], sp_over('DrainFilter'), env=FENV)
case(GV + 'splice', lambda w: [w.vec(), any_range(w), w.iter('iter')], sp_over('Splice'), env=FENV)


# ------------------------------------------------------------------ P07: drain
def sp_take(f):
    return step(lambda x, c: some(f(x, c)) if x.branch(some_left(c)) else NONE)


def sp_exact_hint(x, c):
    return tup(c.len, some(c.len))


def drop_rest(x, c):
    n, p = c.len, c.v.at(c.rf)
    c.rf = c.rb
    x.m.e_drop_n(p, n, 'contract')


def sp_drain_drop(x, r):
    """what was not taken is dropped, the rest closes the gap"""
    drop_rest(x, RC(x, r))
    return sp_finish(x, RC(x, r).r)


def live(kind, extra=None):
    return lambda w: [mk_cursor(w, kind, fin=False, extra=extra and (lambda n: extra(w, n)))]


case('Iterator for Drain::next', live('Drain'), sp_take(st_take_front))
case('DoubleEndedIterator for Drain::next_back', live('Drain'), sp_take(st_take_back))
case('Iterator for Drain::size_hint', live('Drain'), step(sp_exact_hint))
case('ExactSizeIterator for Drain::is_empty', live('Drain'), step(lambda x, c: c.empty), nightly=True)
case('Drop for Drain::drop', live('Drain'), sp_drain_drop, opts=dict(glue=True), name='drop of Drain')

# ------------------------------------------------------------------ contracts used at call sites
for _n in list(STEPS) + ['front', 'front_mut', 'back', 'back_mut', 'finish', 'reserve', 'new', 'at_back_of_vec']:
    USE['RawCursor::' + _n] = Contract(CASES['RawCursor::' + _n])
USE['Drop for RawCursor::drop'] = Contract(CASES['Drop for RawCursor::drop'])
USE['check_range'] = Contract(CASES['check_range'], )
