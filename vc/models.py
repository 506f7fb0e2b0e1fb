"""More of the standard library: combinators, comparisons and iterator adapters that code may reasonably use.  Each is held against the real
function by selftest.rs."""
import z3
from core import *
import loops
import builtin_specs as B
from builtin_specs import *
from builtin_specs import opt, is_variant, int_of, it_next, it_next_back, sp_off, as_sp, deref_val

OPT = lambda v: v.ty[1] == 'Option'


def discard(interp, m, v, ty=('infer',)):
    """a value goes out of scope"""
    from exec import needs_drop
    if isinstance(v, V) and needs_drop(v):
        c = m.new_cell(v)
        try:
            interp.drop_val_at(m, Ref(c), v, ty)
        finally:
            m.cells.pop(c, None)


def dropping(interp, m, vs, f):
    """f(), after which (returning or unwinding) the values vs go out of scope"""
    from exec import needs_drop
    vs = [v for v in vs if isinstance(v, V) and needs_drop(v)]
    if not vs:
        return f()
    try:
        r = f()
    except B.Unwind as e:
        m.unwinding = e.tag
        for v in vs:
            discard(interp, m, v)
        m.unwinding = None
        raise
    try:
        for v in vs:
            discard(interp, m, v)
    except B.Unwind as e:
        m.unwinding = e.tag
        discard(interp, m, r)
        m.unwinding = None
        raise
    return r


def present(m, v):
    return is_variant(m, v, 1 if OPT(v) else 0)


def payload(v):
    return v.f.get(0, UNITV)


# ------------------------------------------------------------------ Option / Result
def o_unwrap_or(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        x = payload(v)
        return dropping(interp, m, [args[1]], lambda: x)
    if not OPT(v):
        return dropping(interp, m, [payload(v)], lambda: args[1])
    return args[1]


def o_unwrap_or_else(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        x = payload(v)
        return dropping(interp, m, [args[1]], lambda: x)
    return interp.call_value(m, args[1], [] if OPT(v) else [payload(v)])


def o_unwrap_or_default(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return payload(v)
    t = info.dty
    if t and t[0] == 'adt' and t[1] in ('usize', 'isize', 'u8', 'u32', 'i32', 'u64', 'i64'):
        return 0
    if t and t[0] == 'adt' and t[1] == 'bool':
        return False
    raise Unsupported('unwrap_or_default of %r' % (t,))


def o_ok_or(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return dropping(interp, m, [args[1]], lambda: ok(payload(v)))
    return err(args[1])


def o_ok_or_else(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return dropping(interp, m, [args[1]], lambda: ok(payload(v)))
    return err(interp.call_value(m, args[1], []))


def o_ok(interp, m, args, info):
    v = opt(m, args[0])
    if is_variant(m, v, 0):
        return some(payload(v))
    discard(interp, m, payload(v))
    return NONE


def o_err(interp, m, args, info):
    v = opt(m, args[0])
    if is_variant(m, v, 1):
        return some(payload(v))
    discard(interp, m, payload(v))
    return NONE


def wrap_same(v, x):
    return some(x) if OPT(v) else ok(x)


def absent(v):
    return NONE if OPT(v) else err(payload(v))


def o_map(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return wrap_same(v, interp.call_value(m, args[1], [payload(v)]))
    return dropping(interp, m, [args[1]], lambda: absent(v))


def o_map_err(interp, m, args, info):
    v = opt(m, args[0])
    if is_variant(m, v, 1):
        return err(interp.call_value(m, args[1], [payload(v)]))
    return dropping(interp, m, [args[1]], lambda: ok(payload(v)))


def o_map_or(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return dropping(interp, m, [args[1]], lambda: interp.call_value(m, args[2], [payload(v)]))
    discard(interp, m, args[2])
    if not OPT(v):
        return dropping(interp, m, [payload(v)], lambda: args[1])
    return args[1]


def o_map_or_else(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return dropping(interp, m, [args[1]], lambda: interp.call_value(m, args[2], [payload(v)]))
    return dropping(interp, m, [args[2]], lambda: interp.call_value(m, args[1], [] if OPT(v) else [payload(v)]))


def o_and_then(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return interp.call_value(m, args[1], [payload(v)])
    return dropping(interp, m, [args[1]], lambda: absent(v))


def o_and(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return dropping(interp, m, [payload(v)], lambda: args[1])
    return dropping(interp, m, [args[1]], lambda: absent(v))


def o_or(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return dropping(interp, m, [args[1]], lambda: wrap_same(v, payload(v)))
    if not OPT(v):
        return dropping(interp, m, [payload(v)], lambda: args[1])
    return args[1]


def o_or_else(interp, m, args, info):
    v = opt(m, args[0])
    if present(m, v):
        return dropping(interp, m, [args[1]], lambda: wrap_same(v, payload(v)))
    return interp.call_value(m, args[1], [] if OPT(v) else [payload(v)])


def o_xor(interp, m, args, info):
    a, b = opt(m, args[0]), opt(m, args[1])
    if present(m, a):
        if present(m, b):
            discard(interp, m, b)
            discard(interp, m, a)
            return NONE
        return some(payload(a))
    return some(payload(b)) if present(m, b) else NONE


def o_zip(interp, m, args, info):
    a, b = opt(m, args[0]), opt(m, args[1])
    if present(m, a):
        if present(m, b):
            return some(tup(payload(a), payload(b)))
        discard(interp, m, payload(a))
        return NONE
    if present(m, b):
        discard(interp, m, payload(b))
    return NONE


def o_filter(interp, m, args, info):
    v = opt(m, args[0])
    if not present(m, v):
        return NONE
    c = m.new_cell(payload(v))
    try:
        keep = m.branch(interp.call_value(m, args[1], [Ref(c)]), 'filter keeps')
    except B.Unwind as e:
        x = m.cells.pop(c)
        m.unwinding = e.tag
        discard(interp, m, x)
        m.unwinding = None
        raise
    x = m.cells.pop(c)
    if keep:
        return some(x)
    discard(interp, m, x)
    return NONE


def place(m, r):
    """the place of an option behind references"""
    while isinstance(r, Ref) and isinstance(m.get(r), Ref):
        r = m.get(r)
    if not isinstance(r, Ref):
        raise Unsupported('option behind %r' % (r,))
    return r


def o_as_ref(interp, m, args, info):
    r = place(m, args[0])
    v = opt(m, r)
    i = (1 if is_variant(m, v, 1) else 0)
    if OPT(v):
        return some(inner(m, r, v)) if i else NONE
    return (err if i else ok)(inner(m, r, v))


def inner(m, r, v):
    x = payload(v)
    return Ref(r.cell, r.path + (0,)) if 0 in v.f else Ref(m.new_cell(x))


def o_copied(interp, m, args, info):
    v = opt(m, args[0])
    if not present(m, v):
        return NONE
    return some(copied(interp, m, payload(v), info.name == 'cloned'))


def copied(interp, m, x, clone):
    y = deref_val(m, x)
    if isinstance(y, (EP, IP, RefAbs)) or isinstance(x, (EP, IP, RefAbs)):
        if clone and not m.copy:
            return B.clone_elem(interp, m, x)
        return EV(m.e_peek(x if isinstance(x, (EP, IP, RefAbs)) else y))
    if isinstance(y, (bool, int)) or isz(y):
        return y
    raise Unsupported('copied %r' % (y,))


def o_replace(interp, m, args, info):
    r = place(m, args[0])
    old = m.get(r)
    m.set(r, some(args[1]))
    return old


def o_insert(interp, m, args, info):
    r = place(m, args[0])
    v = opt(m, r)
    nm = info.name
    if nm == 'get_or_insert_with':
        if not is_variant(m, v, 1):
            m.set(r, some(interp.call_value(m, args[1], [])))
    elif nm == 'get_or_insert':
        if is_variant(m, v, 1):
            discard(interp, m, args[1])
        else:
            m.set(r, some(args[1]))
    else:
        old = m.get(r)
        m.set(r, some(args[1]))
        discard(interp, m, old)
    if not isinstance(m.get(r).variant, int):
        m.set(r, some(m.get(r).f[0]))
    return Ref(r.cell, r.path + (0,))


def o_unwrap_err(interp, m, args, info):
    v = opt(m, args[0])
    if is_variant(m, v, 1):
        return payload(v)
    discard(interp, m, payload(v))
    interp.panic(m)


def o_iter(interp, m, args, info):
    r = place(m, args[0])
    v = opt(m, r)
    if not present(m, v):
        return opt_iter(NONE)
    return opt_iter(some(inner(m, r, v)))


def opt_iter(v):
    return Agg(('adt', 'OptIter', ()), None, {0: v})


def r_eq(interp, m, args, info):
    a, b = opt(m, args[0]), opt(m, args[1])
    va, vb = (is_variant(m, a, 1), is_variant(m, b, 1))
    if va != vb:
        r = False
    elif OPT(a) and not va:
        r = True
    else:
        x, y = payload(a), payload(b)
        r = scalar_eq(m, x, y)
    return lnot(r) if info.name == 'ne' else r


def scalar_eq(m, x, y):
    x, y = deref_val(m, x), deref_val(m, y)
    if name_of(x) == 'Ordering' and name_of(y) == 'Ordering':
        return eq(x.variant, y.variant)
    if any(isinstance(z, Agg) and z.ty == UNITV.ty and not z.f for z in (x, y)):
        return True
    if isinstance(x, Agg) and isinstance(y, Agg):
        if x.variant is not None or y.variant is not None:
            if is_variant(m, x, 1) != is_variant(m, y, 1):
                return False
            if 0 not in x.f or 0 not in y.f or OPT(x) and not is_variant(m, x, 1):
                return True
            return scalar_eq(m, x.f[0], y.f[0])
        if set(x.f) == set(y.f):
            return land(*[scalar_eq(m, x.f[k], y.f[k]) for k in x.f]) if x.f else True
    if isinstance(x, V) or isinstance(y, V):
        raise Unsupported('comparison of %r and %r' % (x, y))
    return eq(x, y)


# ------------------------------------------------------------------ numbers
LESS, EQUAL, GREATER = -1, 0, 1


def ordering(v):
    return Agg(('adt', 'Ordering', ()), v, {})


def n_operands(m, args):
    a, b = deref_val(m, args[0]), deref_val(m, args[1])
    if isinstance(a, (V, bool)) or isinstance(b, (V, bool)):
        raise Unsupported('comparison of %r and %r' % (a, b))
    return a, b


def n_cmp(interp, m, args, info):
    a, b = n_operands(m, args)
    o = ordering(simp(ite(lt(a, b), LESS, ite(eq(a, b), EQUAL, GREATER))))
    return some(o) if info.name == 'partial_cmp' else o


def n_rel(interp, m, args, info):
    a, b = n_operands(m, args)
    nm = info.name
    return lt(a, b) if nm == 'lt' else le(a, b) if nm == 'le' else lt(b, a) if nm == 'gt' else le(b, a)


def o_rel(interp, m, args, info):
    """comparison of options of numbers: None is less"""
    a, b = opt(m, args[0]), opt(m, args[1])
    pa, pb = present(m, a), present(m, b)
    x, y = (payload(a) if pa else -1), (payload(b) if pb else -1)
    x, y = deref_val(m, x), deref_val(m, y)
    if isinstance(x, V) or isinstance(y, V):
        raise Unsupported('option comparison')
    return n_rel(interp, m, [x, y], info)


def order_holds(op, o):
    """lt, le, gt, ge from the result of partial_cmp"""
    if o.variant == 0:
        return False
    v = payload(o).variant
    return {'lt': lt(v, 0), 'le': le(v, 0), 'gt': lt(0, v), 'ge': le(0, v)}[op]


def user_cmp(interp, m, args, info):
    """the order of elements (see builtin_specs.user_rel)"""
    if not m.pure:
        raise Unsupported('comparison of elements')
    a, b = [B.elem_place(m, x) for x in args]
    if info.name == 'cmp':
        return ordering(B.user_rel(m, 'cmp', a, b))
    r = B.user_rel(m, 'partial_cmp', a, b)
    o = some(ordering(r)) if m.branch(le(r, 1), 'comparable') else NONE
    return o if info.name == 'partial_cmp' else order_holds(info.name, o)


def run_of(interp, m, x):
    """the elements a slice iterator (or the first few of it) would yield, as a slice"""
    if isinstance(x, Agg) and name_of(x) == 'Iter':
        return SP(B.sp_off(m, x.f['sp'], x.f['i']), sub(x.f['j'], x.f['i']))
    if isinstance(x, Agg) and name_of(x) == 'Take':
        r, n = run_of(interp, m, x.f[0]), int_of(x.f[1])
        return SP(r.p, n) if m.branch(le(n, r.n), 'take') else r
    return B.as_sp(interp, m, x)


def iter_rel(interp, m, args, info):
    """Iterator::eq, cmp, ... of two slice iterators"""
    sps = [run_of(interp, m, iter_place(m, x)[1]) for x in args]
    return B.s_cmp(info.name)(interp, m, sps, info)


def n_hash(interp, m, args, info):
    """the length prefix of a sequence"""
    n = deref_val(m, args[0]) if info.name == 'hash' else args[1]
    st = args[1] if info.name == 'hash' else args[0]
    B.delegate(interp, m, 'hash-length', n, st)
    return UNITV


def t_hash(interp, m, args, info):
    """one element by itself (for some types not the same as hash_slice of a slice of one)"""
    v = m.e_peek(B.elem_place(m, args[0]), 'hash')
    B.delegate(interp, m, 'hash-element', v if not m.zst else 0, args[1])
    return UNITV


def t_hash_slice(interp, m, args, info):
    B.delegate(interp, m, 'hash-elements', B.as_sp(interp, m, args[0]), args[1])
    return UNITV


def debug_list(interp, m, args, info):
    return Agg(('adt', 'DebugList', ()), None, {'f': args[0], 'sp': NONE})


def debug_entries(interp, m, args, info):
    d = m.get(args[0])
    r, old = run_of(interp, m, args[1]), d.f['sp']
    if old is not NONE:
        # runs that follow one another are one run
        if not (type(old.p) is type(r.p) and getattr(old.p, 'buf', None) == getattr(r.p, 'buf', None) and
                m.known(True if m.zst else eq(B.sp_off(m, old, old.n).off, r.p.off))):
            raise Unsupported('debug_list with several runs of entries')
        r = SP(old.p, add(old.n, r.n))
    m.set(args[0], d.with_field('sp', r))
    return args[0]


def debug_finish(interp, m, args, info):
    """[T]::fmt is debug_list().entries(iter()).finish()"""
    d = m.get(args[0])
    if d.f['sp'] is NONE:
        raise Unsupported('debug_list without entries')
    return B.delegate(interp, m, 'fmt', d.f['sp'], d.f['f'])


def ord_reverse(interp, m, args, info):
    return ordering(sub(0, args[0].variant))


def ord_then(interp, m, args, info):
    if not m.branch(eq(args[0].variant, 0), 'equal'):
        return dropping(interp, m, [args[1]], lambda: args[0])
    return args[1] if info.name == 'then' else interp.call_value(m, args[1], [])


def ord_eq(interp, m, args, info):
    a, b = deref_val(m, args[0]), deref_val(m, args[1])
    r = eq(a.variant, b.variant)
    return lnot(r) if info.name == 'ne' else r


def n_clamp(interp, m, args, info):
    a, lo, hi = [int_of(x) for x in args]
    if not m.branch(le(lo, hi), 'clamp'):
        interp.panic(m)
    if m.branch(lt(a, lo), 'below'):
        return lo
    return hi if m.branch(lt(hi, a), 'above') else a


def n_checked_div(op):
    def h(interp, m, args, info):
        a, b = int_of(args[0]), int_of(args[1])
        if m.branch(eq(b, 0), 'zero divisor'):
            return NONE
        return some(B.int_div(m, a, b) if op == 'Div' else B.int_rem(m, a, b))
    return h


def n_pow2(interp, m, args, info):
    a = int_of(args[0])
    if isinstance(a, int):
        return a > 0 and a & (a - 1) == 0
    return simp(z3.Or(*[a == 2 ** i for i in range(64)]))


def b_then(interp, m, args, info):
    if m.branch(args[0], 'then'):
        return some(interp.call_value(m, args[1], []) if info.name == 'then' else args[1])
    return dropping(interp, m, [args[1]], lambda: NONE)


def n_from(interp, m, args, info):
    v = args[0]
    if isinstance(v, bool) or isz(v) and z3.is_bool(v):
        return ite(v, 1, 0)
    return v


# ------------------------------------------------------------------ iterators
def adapter(nm):
    def h(interp, m, args, info):
        return Agg(('adt', nm, ()), None, {i: a for i, a in enumerate(args)})
    return h


def name_of(v):
    return v.ty[1].split('::')[-1] if isinstance(v, Agg) and v.ty and v.ty[0] == 'adt' else ''


def iter_place(m, it):
    while isinstance(it, Ref) and isinstance(m.get(it), Ref):
        it = m.get(it)
    return it, (m.get(it) if isinstance(it, Ref) else it)


def i_skip(interp, m, args, info):
    v, n = args[0], args[1]
    if name_of(v) in ('Range', 'Iter') and isinstance(v, Agg):
        return ahead(m, v, n)
    return Agg(('adt', 'Skip', ()), None, {0: v, 1: n})


def ahead(m, v, n):
    """a range or slice iterator without its first n items"""
    a, b = (0, 1) if name_of(v) == 'Range' else ('i', 'j')
    if isinstance(v.f[a], V) or not m.branch(le(v.f[a], v.f[b]), 'range'):
        if isinstance(v.f[a], V):
            raise Unsupported('skip on %r' % (v,))
        return v
    if m.branch(le(n, sub(v.f[b], v.f[a])), 'skip within'):
        return v.with_field(a, add(v.f[a], n))
    return v.with_field(a, v.f[b])


def i_nth(interp, m, args, info):
    it, v = iter_place(m, args[0])
    n = args[1]
    if isinstance(v, Agg) and name_of(v) in ('Range', 'Iter') and not isinstance(v.f.get(0, 0), V):
        m.set(it, ahead(m, v, n))
        return it_next(interp, m, it)
    # the provided method: n items are taken and dropped, and the next is the result
    k = m.new_cell(0)

    def step():
        if not m.branch(lt(m.cells[k], n), 'nth'):
            return ('exit', True)
        r = it_next(interp, m, it, ('infer',))
        if r.variant == 0:
            return ('exit', False)
        discard(interp, m, r.f[0])
        m.cells[k] = add(m.cells[k], 1)
        return ('cont', None)
    more = loops.accelerate(interp, m, ('builtin', 'nth'), step, None)
    m.cells.pop(k, None)
    return it_next(interp, m, it) if more else NONE


def i_nth_back(interp, m, args, info):
    it, v = iter_place(m, args[0])
    n = args[1]
    nm = name_of(v)
    if nm in ('Range', 'Iter'):
        a, b = (0, 1) if nm == 'Range' else ('i', 'j')
        if isinstance(v.f[a], V):
            raise Unsupported('nth_back')
        if not m.branch(le(v.f[a], v.f[b]), 'range'):
            return NONE
        if m.branch(le(n, sub(v.f[b], v.f[a])), 'skip within'):
            m.set(it, v.with_field(b, sub(v.f[b], n)))
        else:
            m.set(it, v.with_field(b, v.f[a]))
        return it_next_back(interp, m, it)
    raise Unsupported('nth_back')


def consume(interp, m, it, f, owned, key):
    """hands every item to f until it returns something other than None; the iterator and the closures are dropped afterwards"""
    byref = isinstance(it, Ref)
    c = None if byref else m.new_cell(it)
    ref = it if byref else Ref(c)
    extra = [m.new_cell(x) for x in owned]

    def step():
        r = it_next(interp, m, ref, ('infer',))
        if r.variant == 0:
            return ('exit', ('end', None))
        x = f(r.f[0], [Ref(e) for e in extra])
        return ('cont', None) if x is None else ('exit', x)

    def cleanup():
        for e in extra + ([c] if c is not None else []):
            v = m.cells.pop(e, None)
            if v is not None:
                discard(interp, m, v)
    try:
        r = loops.accelerate(interp, m, ('builtin', key), step, None)
    except B.Unwind as e:
        m.unwinding = e.tag
        cleanup()
        m.unwinding = None
        raise
    cleanup()
    return r


def i_fold(interp, m, args, info):
    acc = m.new_cell(args[1])

    def f(x, cs):
        a = m.cells[acc]
        m.cells[acc] = MOVED
        m.cells[acc] = interp.call_value(m, cs[0], [a, x])
    consume(interp, m, args[0], f, [args[2]], 'fold')
    return m.cells.pop(acc)


def i_try_for_each(interp, m, args, info):
    def f(x, cs):
        r = interp.call_value(m, cs[0], [x])
        v = opt(m, r)
        return None if present(m, v) else ('stop', v)
    r = consume(interp, m, args[0], f, [args[1]], 'try_for_each')
    if r[0] == 'end':
        t = info.dty
        return some(UNITV) if t and t[0] == 'adt' and t[1] == 'Option' else ok(UNITV)
    return r[1]


def i_count(interp, m, args, info):
    n = m.new_cell(0)

    def f(x, cs):
        discard(interp, m, x)
        m.cells[n] = add(m.cells[n], 1)
    consume(interp, m, args[0], f, [], 'count')
    r = m.cells.pop(n)
    m.assume(le(r, MAX))
    return r


def i_last(interp, m, args, info):
    it = args[0]
    if name_of(it) in ('Range', 'Iter'):
        c = m.new_cell(it)
        try:
            return it_next_back(interp, m, Ref(c))
        finally:
            m.cells.pop(c, None)
    raise Unsupported('last')


def i_all(interp, m, args, info):
    want = info.name == 'all'

    def f(x, cs):
        return None if m.branch(interp.call_value(m, cs[0], [x]), info.name) == want else ('stop', not want)
    r = consume(interp, m, args[0], f, [args[1]], info.name)
    return want if r[0] == 'end' else r[1]


def i_find(interp, m, args, info):
    def f(x, cs):
        c = m.new_cell(x)
        keep = m.branch(interp.call_value(m, cs[0], [Ref(c)]), 'found')
        x = m.cells.pop(c)
        if keep:
            return ('stop', x)
        discard(interp, m, x)
    r = consume(interp, m, args[0], f, [args[1]], 'find')
    return NONE if r[0] == 'end' else some(r[1])


def i_position(interp, m, args, info):
    n = m.new_cell(0)

    def f(x, cs):
        if m.branch(interp.call_value(m, cs[0], [x]), 'found'):
            return ('stop', m.cells[n])
        m.cells[n] = add(m.cells[n], 1)
    r = consume(interp, m, args[0], f, [args[1]], 'position')
    m.cells.pop(n, None)
    return NONE if r[0] == 'end' else some(r[1])


def i_sum(interp, m, args, info):
    n = m.new_cell(0)

    def f(x, cs):
        m.cells[n] = add(m.cells[n], int_of(deref_val(m, x)))
    consume(interp, m, args[0], f, [], 'sum')
    r = m.cells.pop(n)
    if not m.branch(le(r, MAX), 'no overflow'):
        interp.panic(m)
    return r


def next_adapter(interp, m, it, v, nm):
    """next of the adapters"""
    sub_ = Ref(it.cell, it.path + (0,))
    if nm == 'Enumerate':
        i = v.f[1]
        r = it_next(interp, m, sub_)
        if r.variant == 0:
            return NONE
        m.set(it, m.get(it).with_field(1, add(i, 1)))
        return some(tup(i, r.f[0]))
    if nm == 'Zip':
        r = it_next(interp, m, sub_)
        if r.variant == 0:
            return NONE
        try:
            q = it_next(interp, m, Ref(it.cell, it.path + (1,)))
        except B.Unwind as e:
            m.unwinding = e.tag
            discard(interp, m, r.f[0])
            m.unwinding = None
            raise
        if q.variant == 0:
            discard(interp, m, r.f[0])
            return NONE
        return some(tup(r.f[0], q.f[0]))
    if nm == 'Chain':
        if plain(v.f[0]):
            r = it_next(interp, m, sub_)
            return r if r.variant != 0 else it_next(interp, m, Ref(it.cell, it.path + (1,)))
        if isinstance(v.f[2], Atom):
            raise Unsupported('loop over a chain')
        if m.branch(v.f[2], 'first part'):
            r = it_next(interp, m, sub_)
            if r.variant != 0:
                return r
            m.set(it, m.get(it).with_field(2, False))
        return it_next(interp, m, Ref(it.cell, it.path + (1,)))
    if nm == 'Skip':
        n = v.f[1]
        if m.branch(lt(0, n), 'still to skip'):
            m.set(it, v.with_field(1, 0))
            i = Agg(('adt', '#i', ()), None, {})
            return i_nth(interp, m, [sub_, n], i)
        return it_next(interp, m, sub_)
    if nm == 'OptIter':
        x = opt(m, v.f[0])
        m.set(it, v.with_field(0, NONE))
        return some(payload(x)) if is_variant(m, x, 1) else NONE
    if nm == 'Repeat':
        return some(copied(interp, m, v.f[0], True)) if not isinstance(v.f[0], EV) else unsupported('repeat')
    if nm == 'Filter':
        def step():
            r = it_next(interp, m, sub_)
            if r.variant == 0:
                return ('exit', NONE)
            c = m.new_cell(r.f[0])
            keep = m.branch(interp.call_value(m, Ref(it.cell, it.path + (1,)), [Ref(c)]), 'filter keeps')
            x = m.cells.pop(c)
            if keep:
                return ('exit', some(x))
            discard(interp, m, x)
            return ('cont', None)
        return loops.accelerate(interp, m, ('builtin', 'filter'), step, None)
    if nm == 'FilterMap':
        def step():
            r = it_next(interp, m, sub_)
            if r.variant == 0:
                return ('exit', NONE)
            o = opt(m, interp.call_value(m, Ref(it.cell, it.path + (1,)), [r.f[0]]))
            return ('exit', some(payload(o))) if present(m, o) else ('cont', None)
        return loops.accelerate(interp, m, ('builtin', 'filter_map'), step, None)
    if nm in ('Fuse', 'TakeWhile'):
        flag = 1 if nm == 'Fuse' else 2
        if nm == 'Fuse' and plain(v.f[0]):
            return it_next(interp, m, sub_)
        if isinstance(v.f[flag], Atom):
            raise Unsupported('loop over a fused iterator')
        if not m.branch(v.f[flag], 'not finished'):
            return NONE
        r = it_next(interp, m, sub_)
        if r.variant != 0:
            if nm == 'Fuse':
                return r
            c = m.new_cell(r.f[0])
            keep = m.branch(interp.call_value(m, Ref(it.cell, it.path + (1,)), [Ref(c)]), 'take_while')
            x = m.cells.pop(c)
            if keep:
                return some(x)
            m.set(it, m.get(it).with_field(flag, False))
            discard(interp, m, x)
            return NONE
        if nm == 'Fuse':
            m.set(it, m.get(it).with_field(flag, False))
        return NONE
    if nm == 'Inspect':
        r = it_next(interp, m, sub_)
        if r.variant != 0:
            c = m.new_cell(r.f[0])
            interp.call_value(m, Ref(it.cell, it.path + (1,)), [Ref(c)])
            return some(m.cells.pop(c))
        return NONE
    return None


def plain(v):
    """an iterator that stays finished"""
    n = name_of(v)
    return n in ('Range', 'Iter', 'OptIter') or n in ('Cloned', 'Copied', 'Map', 'Enumerate', 'Fuse', 'Rev') and plain(v.f[0])


def unsupported(s):
    raise Unsupported(s)


ADAPTERS = ('Skip', 'Enumerate', 'Zip', 'Chain', 'OptIter', 'Repeat', 'Filter', 'Inspect', 'Fuse', 'TakeWhile', 'FilterMap')


def is_adapter(m, args):
    v = iter_place(m, args[0])[1] if args else None
    return isinstance(v, Agg) and name_of(v) == 'OptIter'


def i_zip(interp, m, args, info):
    return Agg(('adt', 'Zip', ()), None, {0: args[0], 1: B.i_into_iter(interp, m, [args[1]], info)})


def i_chain(interp, m, args, info):
    return Agg(('adt', 'Chain', ()), None, {0: args[0], 1: B.i_into_iter(interp, m, [args[1]], info), 2: True})


def i_enumerate(interp, m, args, info):
    return Agg(('adt', 'Enumerate', ()), None, {0: args[0], 1: 0})


def i_fuse(interp, m, args, info):
    return Agg(('adt', 'Fuse', ()), None, {0: args[0], 1: True})


def i_take_while(interp, m, args, info):
    return Agg(('adt', 'TakeWhile', ()), None, {0: args[0], 1: args[1], 2: True})


def i_once(interp, m, args, info):
    return opt_iter(some(args[0]))


def i_empty(interp, m, args, info):
    return opt_iter(NONE)


def r_is_empty(interp, m, args, info):
    v = deref_val(m, args[0])
    if isinstance(v.f[0], V):
        raise Unsupported('range of %r' % (v,))
    return le(v.f[1], v.f[0])


def r_contains(interp, m, args, info):
    v, x = deref_val(m, args[0]), deref_val(m, args[1])
    if isinstance(x, V) or name_of(v) not in ('Range', 'RangeInclusive', 'RangeTo', 'RangeFrom'):
        raise Unsupported('range')
    nm = name_of(v)
    if nm == 'RangeTo':
        return lt(x, v.f[0])
    if nm == 'RangeFrom':
        return le(v.f[0], x)
    return land(le(v.f[0], x), (lt if nm == 'Range' else le)(x, v.f[1]))


def r_incl(interp, m, args, info):
    return Agg(('adt', 'RangeInclusive', ()), None, {0: args[0], 1: args[1], 2: False})


# ------------------------------------------------------------------ slices
def s_split_first(last):
    def h(interp, m, args, info):
        sp = as_sp(interp, m, args[0])
        if m.branch(eq(sp.n, 0), 'empty'):
            return NONE
        n = sub(sp.n, 1)
        if last:
            return some(tup(sp_off(m, sp, n), SP(sp.p, n)))
        return some(tup(sp.p, SP(sp_off(m, sp, 1), n)))
    return h


def mem_take(interp, m, args, info):
    r = args[0]
    if isinstance(r, Ref):
        v = m.get(r)
        if isinstance(v, Agg) and v.ty and v.ty[0] == 'adt' and v.ty[1] == 'Option':
            m.set(r, NONE)
            return v
    return B.mem_take0(interp, m, args, info)


# ------------------------------------------------------------------ std Vec
def v_new(interp, m, args, info):
    m_ = m
    n = m_.new_buf(Buf(z3.BoolVal(False), z3.Function('junkc!%d' % m_.next_buf, z3.IntSort(), z3.IntSort())(IX), 2 ** 70, kind='vec'))
    return Agg(('adt', 'Vec', ()), None, {'buf': SA(n), 'len': 0})


def v_with_capacity(interp, m, args, info):
    if not m.zst:
        if not m.branch(le(args[0], IMAX), 'the Vec can be this large'):
            interp.panic(m, 'reserve')
    return v_new(interp, m, args, info)


def push_one(interp, m, r, x):
    """pushes x, dropping it when the Vec cannot hold one more"""
    v = m.get(r)
    k = v.f['len']
    if not m.branch(lt(k, IMAX), 'the Vec can hold one more'):
        m.unwinding = 'reserve'
        m.drop_value(x.t)
        m.unwinding = None
        interp.panic(m, 'reserve')
    b = v.f['buf'].buf
    m.e_write(EP(b, m.bufs[b].epoch, k), x, 'push')
    m.set(r, v.with_field('len', add(k, 1)))


def v_push(interp, m, args, info):
    r, v = B.vec_of(m, args[0])
    push_one(interp, m, r, B.want(args[1], EV, 'pushed value'))
    return UNITV


def v_pop(interp, m, args, info):
    r, v = B.vec_of(m, args[0])
    k = v.f['len']
    if m.branch(eq(k, 0), 'empty'):
        return NONE
    b = v.f['buf'].buf
    m.set(r, v.with_field('len', sub(k, 1)))
    return some(m.e_read(EP(b, m.bufs[b].epoch, sub(k, 1))))


def v_clear(interp, m, args, info):
    r, v = B.vec_of(m, args[0])
    b = v.f['buf'].buf
    m.set(r, v.with_field('len', 0))
    m.e_drop_n(EP(b, m.bufs[b].epoch, 0), v.f['len'], 'Vec::clear')
    return UNITV


def v_is_empty(interp, m, args, info):
    return eq(B.vec_of(m, args[0])[1].f['len'], 0)


def v_extend(interp, m, args, info):
    r, v = B.vec_of(m, args[0])
    it = B.i_into_iter(interp, m, [args[1]], info)

    def f(x, cs):
        push_one(interp, m, r, B.want(x, EV, 'extend item'))
    consume(interp, m, it, f, [], 'extend')
    return UNITV


def v_iter(interp, m, args, info):
    return B.s_iter(interp, m, [B.v_deref(interp, m, args, info)], info)


OPTION = {
    'unwrap_or': o_unwrap_or, 'unwrap_or_else': o_unwrap_or_else, 'unwrap_or_default': o_unwrap_or_default, 'ok_or': o_ok_or, 'ok_or_else': o_ok_or_else,
    'ok': o_ok, 'err': o_err, 'map': o_map, 'map_err': o_map_err, 'map_or': o_map_or, 'map_or_else': o_map_or_else, 'and_then': o_and_then, 'and': o_and,
    'or': o_or, 'or_else': o_or_else, 'xor': o_xor, 'zip': o_zip, 'filter': o_filter, 'as_ref': o_as_ref, 'as_mut': o_as_ref, 'copied': o_copied,
    'cloned': o_copied, 'replace': o_replace, 'insert': o_insert, 'get_or_insert': o_insert, 'get_or_insert_with': o_insert, 'unwrap_err': o_unwrap_err,
    'expect_err': o_unwrap_err, 'iter': o_iter,
}
ORDERING = {'reverse': ord_reverse, 'then': ord_then, 'then_with': ord_then}
DEBUG = {('Formatter', 'debug_list'): debug_list, ('DebugList', 'entries'): debug_entries, ('DebugList', 'finish'): debug_finish}
INT = {'clamp': n_clamp, 'checked_div': n_checked_div('Div'), 'checked_rem': n_checked_div('Rem'), 'is_power_of_two': n_pow2}
RANGE = {'is_empty': r_is_empty, 'contains': r_contains, 'new': r_incl}
VEC = {'new': v_new, 'with_capacity': v_with_capacity, 'push': v_push, 'pop': v_pop, 'clear': v_clear, 'is_empty': v_is_empty, 'iter': v_iter}
ITER = {
    'nth': i_nth, 'nth_back': i_nth_back, 'fold': i_fold, 'try_for_each': i_try_for_each, 'count': i_count, 'last': i_last, 'all': i_all, 'any': i_all, 'find': i_find,
    'position': i_position, 'sum': i_sum, 'enumerate': i_enumerate, 'zip': i_zip, 'chain': i_chain, 'skip': i_skip, 'filter': adapter('Filter'),
    'fuse': i_fuse, 'take_while': i_take_while, 'filter_map': adapter('FilterMap'), 'inspect': adapter('Inspect'), 'eq': iter_rel, 'ne': iter_rel, 'cmp': iter_rel, 'partial_cmp': iter_rel, 'lt': iter_rel, 'le': iter_rel, 'gt': iter_rel,
    'ge': iter_rel,
}


def trait(selfty, tr, t, nm, h):
    if t in ('PartialOrd', 'Ord') or t == 'PartialEq':
        k = selfty
        while k[0] == 'ref':
            k = k[2]
        kh = k[1] if k[0] == 'adt' else k[0]
        num = kh in ('usize', 'isize', 'u32', 'i32', 'u64', 'i64', 'u8')
        if num and nm in ('cmp', 'partial_cmp'):
            return n_cmp
        if num and nm in ('lt', 'le', 'gt', 'ge'):
            return n_rel
        if num and nm == 'clamp':
            return n_clamp
        if kh == 'T' and (t, nm) != ('PartialEq', 'eq') and nm in ('cmp', 'partial_cmp', 'lt', 'le', 'gt', 'ge'):
            return user_cmp
        if num and nm in ('eq', 'ne') and selfty[0] == 'ref':
            return B.n_eq
        if kh == 'Option' and nm in ('lt', 'le', 'gt', 'ge'):
            return o_rel
        if kh in ('Result', 'Option', 'tuple') and nm in ('eq', 'ne'):
            return r_eq if kh != 'tuple' else lambda i, m, a, f: (lnot if f.name == 'ne' else simp)(scalar_eq(m, a[0], a[1]))
        if kh == 'Ordering' and nm in ('eq', 'ne'):
            return ord_eq
    if t == 'Hash' and h == 'usize' and nm == 'hash' or t == 'Hasher' and nm in ('write_usize', 'write_length_prefix'):
        return n_hash
    if t == 'Hash' and selfty == ('adt', 'T', ()) and nm == 'hash':
        return t_hash
    if t == 'Hash' and selfty == ('adt', 'T', ()) and nm == 'hash_slice':
        return t_hash_slice
    if t == 'From' and h in ('usize', 'isize', 'u64') and nm == 'from':
        return n_from
    if t == 'IntoIterator' and h == 'Option':
        return lambda i, m, a, f: opt_iter(opt(m, a[0]))
    if t == 'Extend' and h == 'Vec' and nm == 'extend':
        return v_extend
    if t == 'Default' and nm == 'default' and h in ('usize', 'isize'):
        return lambda i, m, a, f: 0
    if t == 'Default' and nm == 'default' and h == 'bool':
        return lambda i, m, a, f: False
    if t == 'Default' and nm == 'default' and h == 'Option':
        return lambda i, m, a, f: NONE
    if t == 'Default' and nm == 'default' and h == 'Vec':
        return v_new
    return None
