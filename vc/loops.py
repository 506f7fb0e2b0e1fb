"""Loop invariants.

`accelerate` proves a loop by induction: it derives a candidate exact invariant S(k) (every integer moves linearly with the
iteration number k, element operations and calls to user code accumulate as segments), then *proves* it: it holds on entry by
construction (k = 0), and running one iteration of the real code from S(k) must give S(k+1).  A candidate that is not inductive
makes the function undecided; it is never used.  Loops whose path depends on user code (retain, dedup, ...) are given an annotated
invariant instead (`Family`, see families.py), which is checked in the same way."""
import z3
from core import *


class Delta:
    """result of the inference, shared by all replays of the same decision prefix"""


def scalar(x):
    return isinstance(x, (int, bool)) or isz(x)


# ------------------------------------------------------------------ nested exploration
class NState:
    pass


def explore(interp, m, fr, run, limit=400):
    """all outcomes of run() from the current state, obligations assumed: list of (kind, conds, snapshot, payload)"""
    outs = []
    keep = (m.prefix, m.decisions, m.fresh_n, len(m.pc), list(m.foralls), set(m.instantiated), dict(m.mulfacts), dict(m.sizefacts),
            list(m.trace), list(m.where), m.depth, list(m.conds), getattr(m, 'size_t_known', False), m.family, m.products)
    snap = m.snapshot()
    loc = dict(fr.loc) if fr is not None else None
    stack = [[]]
    m.quiet += 1
    try:
        while stack:
            prefix = stack.pop()
            m.solver.push()
            m.prefix, m.decisions, m.conds = prefix, [], []
            m.ex.nested.append([])
            kind = payload = None
            try:
                kind, payload = run()
            except PathEnd:
                pass
            except Unwind as e:
                kind, payload = 'unwind', e.tag
            finally:
                stack.extend(m.ex.nested.pop())
                if kind is not None:
                    outs.append((kind, list(m.conds), m.snapshot(), payload, m.fresh_n, m.pc[keep[3]:]))
                m.solver.pop()
                m.restore(snap)
                (m.prefix, m.decisions, m.fresh_n) = keep[:3]
                del m.pc[keep[3]:]
                m.foralls, m.instantiated, m.mulfacts, m.sizefacts = list(keep[4]), set(keep[5]), dict(keep[6]), dict(keep[7])
                m.trace, m.where, m.depth, m.conds = list(keep[8]), list(keep[9]), keep[10], list(keep[11])
                m.size_t_known = keep[12]
                m.family, m.products = keep[13:15]
                if fr is not None:
                    fr.loc.clear()
                    fr.loc.update(loc)
            if len(outs) + len(stack) > limit:
                raise Unsupported('too many paths in one loop iteration')
    finally:
        m.quiet -= 1
    return outs


# ------------------------------------------------------------------ comparing / generalising values
def const_delta(a, b):
    d = sub(b, a)
    return d


def isbool(x):
    return isinstance(x, bool) or (isz(x) and z3.is_bool(x))


def same(a, b):
    if a is b:
        return True
    if scalar(a) and scalar(b):
        if isbool(a) != isbool(b):
            return False
        r = eq(a, b)
        return r is True
    if type(a) is not type(b):
        return False
    if isinstance(a, Agg):
        return a.ty == b.ty and same_v(a.variant, b.variant) and set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, dict):
        return a == b
    if isinstance(a, Ref):
        return a.cell == b.cell and a.path == b.path
    if isinstance(a, EP):
        return a.buf == b.buf and same_v(a.epoch, b.epoch) and same_v(a.off, b.off) and same_v(a.n, b.n)
    if isinstance(a, SP):
        return same(a.p, b.p) and same_v(a.n, b.n)
    if isinstance(a, IP):
        return same_v(a.a, b.a)
    if isinstance(a, SA):
        return a.buf == b.buf
    if isinstance(a, (EV, RefAbs)):
        return same_v(a.t, b.t)
    if isinstance(a, ArrVal):
        return same_v(a.t, b.t) and same_v(a.n, b.n)
    if isinstance(a, Abs):
        return a.kind == b.kind and a.chan == b.chan
    if isinstance(a, Atom):
        return a.s == b.s
    if isinstance(a, FnItem):
        return a.path[0] == b.path[0]
    return False


def same_v(a, b):
    if a is None or b is None:
        return a is b
    if not scalar(a) or not scalar(b):
        return a == b
    return eq(a, b) is True


def gen_val(a, b, k, st):
    """value after k iterations, given it is a before and b after the first; POISON if it is not tracked"""
    if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and set(a.f) == set(b.f):
        if same_v(a.variant, b.variant):
            return Agg(a.ty, a.variant, {x: (a.f[x] if isinstance(a.f[x], dict) else gen_val(a.f[x], b.f[x], k, st)) for x in a.f})
        return POISON
    if scalar(a) and scalar(b) and not isbool(a) and not isbool(b):
        d = sub(b, a)
        if not isz(d):
            if d == 0:
                return a
            return add(a, d * k if not isz(k) else simp(d * k))
        # a symbolic constant stride
        if not (consts_of(d) & st.volatile):
            return add(a, simp(lit(d) * lit(k)))
        return POISON
    if isinstance(a, EP) and isinstance(b, EP) and a.buf == b.buf and same_v(a.n, b.n):
        ep = a.epoch
        if not same_v(a.epoch, b.epoch):
            if a.buf in st.epochs and same_v(a.epoch, st.epochs[a.buf][0]) and same_v(b.epoch, st.epochs[a.buf][1]):
                ep = st.epochs[a.buf][2]
            else:
                return POISON
        elif a.buf in st.epochs and same_v(a.epoch, st.epochs[a.buf][0]):
            # the pointer is not renewed when the storage moves: stays at its own epoch
            ep = a.epoch
        off = gen_val(a.off, b.off, k, st)
        if off is POISON:
            return POISON
        return EP(a.buf, ep, off, a.n)
    if isinstance(a, SP) and isinstance(b, SP):
        p, n = gen_val(a.p, b.p, k, st), gen_val(a.n, b.n, k, st)
        if p is POISON or n is POISON:
            return POISON
        return SP(p, n)
    if isinstance(a, IP) and isinstance(b, IP):
        v = gen_val(a.a, b.a, k, st)
        return POISON if v is POISON else IP(v)
    if same(a, b):
        return a
    return POISON


def deltas_key(m, S0, S1):
    """comparable description of what one iteration did to the scalars"""
    out = []
    for c in sorted(S0[0]):
        if c in S1[0]:
            _dk(S0[0][c], S1[0][c], (c,), out)
    out.append(str(sub(S1[3], S0[3])))
    for name in sorted(set(S0[2]) | set(S1[2])):
        a, b = S0[2].get(name) or Chan(), S1[2].get(name) or Chan()
        out.append((name, str(sub(b.count, a.count))))
    for b in sorted(S0[1]):
        x, y = S0[1][b], S1[1].get(b)
        out.append((b, tuple(str(o[:3]) if o[0] in ('w', 'wseg') else str(o) for o in y.ops[len(x.ops):])))
    return out


def _dk(a, b, path, out):
    if isinstance(a, Agg) and isinstance(b, Agg) and set(a.f) == set(b.f) and a.ty == b.ty and same_v(a.variant, b.variant):
        for x in a.f:
            if not isinstance(a.f[x], dict):
                _dk(a.f[x], b.f[x], path + (x,), out)
    elif scalar(a) and scalar(b) and isbool(a) == isbool(b):
        if not isbool(a):
            out.append((path, str(sub(b, a))))
    elif isinstance(a, EP) and isinstance(b, EP) and a.buf == b.buf:
        out.append((path, str(sub(b.off, a.off))))
    elif isinstance(a, SP) and isinstance(b, SP):
        _dk(a.p, b.p, path + ('p',), out)
        _dk(a.n, b.n, path + ('n',), out)
    elif isinstance(a, IP) and isinstance(b, IP):
        _dk(a.a, b.a, path, out)


# ------------------------------------------------------------------ generalising operations
def op_expand(op):
    """copies of one element become a write and a read"""
    return [op]


def new_ops(x, y):
    if y.ops[:len(x.ops)] != x.ops:
        raise Unsupported('loop rewrites memory history')
    return list(y.ops[len(x.ops):])


def one_elem(n):
    return isinstance(n, int) and n == 1


def iter_ops(before, after, copy):
    """the element operations of one iteration as single-element writes/reads [(kind, off, val)]; later evaluation order kept"""
    res = []
    base = before
    for op in new_ops(before, after):
        k = op[0]
        if k in ('w', 'r'):
            res.append(op)
        elif k == 'cp' and one_elem(op[3]):
            v = base.mem(op[2])
            if not op[4]:
                res.append(('r', op[2]))
            res.append(('w', op[1], v))
        elif k == 'in' and one_elem(op[2]):
            res.append(('w', op[1], sbst(op[4], (IX, op[5]))))
        elif k == 'rseg' and one_elem(op[2]):
            res.append(('r', op[1]))
        elif k == 'wseg' and one_elem(op[2]):
            res.append(('w', op[1], sbst(op[3], (JX, 0))))
        elif k in ('rseg', 'wseg'):
            res.append(op)
        else:
            raise Unsupported('loop operation ' + k)
        base = base.op(*op)
    return res


def seg_of(op, j, k):
    """k iterations of `op` (a term in iteration number j) as a segment"""
    kind = op[0]
    o0, o1, o2 = (sbst(op[1], (j, x)) for x in (0, 1, 2))
    d = sub(o1, o0)
    if isz(d) or sub(o2, o1) != d:
        if kind in ('rseg', 'wseg') or not isz(d):
            raise Unsupported('loop stride')
        raise Unsupported('loop stride')
    if kind in ('w', 'r'):
        if d == 1:
            lo, n, idx = o0, k, JX
        elif d == -1:
            lo, n, idx = add(sub(o0, k), 1), k, sub(sub(k, 1), JX)
        elif d == 0:
            lo, n, idx = o0, ite(le(1, k), 1, 0), sub(k, 1)
        else:
            raise Unsupported('loop stride')
        if kind == 'r':
            return ('rseg', lo, n)
        return ('wseg', lo, n, sbst(lit(op[2]), (j, idx)))
    raise Unsupported('segment operation in a loop')


def gen_bufs(S0, ops_j, j, k, order):
    pass


# ------------------------------------------------------------------ the rule
def unrolled(m, step, n):
    """the first n iterations as they are (used to refute, never to prove: see check.refute)"""
    for _ in range(n + 1):
        r = step()
        if r[0] != 'cont':
            return r[1]
        if m.failed:
            break
    raise PathEnd()


def accelerate(interp, m, key, step, fr):
    u = m.ex.unroll
    if u:
        return unrolled(m, step, u * u + 1 if key[0] == 'spec' else u)
    if m.ex.peel and key[0] != 'spec':
        # the first iterations are run as they are; the rest has an invariant of its own
        for _ in range(m.ex.peel):
            r = step()
            if r[0] != 'cont':
                return r[1]
    if m.family is not None and not getattr(m.family, 'fallback', False):
        import families
        mk = ('family', tuple(m.decisions), key, m.quiet, len(m.ex.nested), m.fresh_n, m.gen)
        if mk not in m.ex.memo or m.ex.memo[mk] is not None and not same_state(m.ex.memo[mk].S0, m):
            m.ex.memo[mk] = families.infer(interp, m, fr, step, m.family)
        p = m.ex.memo[mk]
        if p is not None:
            return families.run(interp, m, key, step, fr, p)
    tries = 0
    while True:
        mk = (tuple(m.decisions), key, m.quiet, len(m.ex.nested), m.fresh_n, m.gen)
        plan = m.ex.memo.get(mk)
        if plan is None or plan[0] == 'linear' and not same_state(plan[1].S0, m):
            try:
                plan = infer(interp, m, key, step, fr)
            except Unsupported:
                if m.family is None or tries:
                    raise
                plan = ('annotated', None)
            if m.ex.prefer and plan[0] in ('linear', 'split') and m.family is not None:
                import families
                if families.chunks_apply(m, m.family):
                    plan = ('annotated', None)
            m.ex.memo[mk] = plan
        if plan[0] == 'split':
            tries += 1
            if tries > 6:
                raise Unsupported('loop paths depend on data')
            m.branch(plan[1], 'loop split')
            continue
        break
    if plan[0] == 'annotated':
        import families
        return families.run_chunks(interp, m, key, step, fr, m.family)
    if plan[0] == 'none':
        r = step()
        if r[0] == 'cont':
            if m.failed:
                raise PathEnd()
            raise Unsupported('infeasible continuation taken')
        return r[1]
    return run_linear(interp, m, key, step, fr, plan[1])


def differing(outs):
    """first decision that separates two continuing paths with different effects"""
    a, b = outs
    for x, y in zip(a[1], b[1]):
        if str(x) != str(y):
            return x
    return None


def infer(interp, m, key, step, fr):
    S0 = m.snapshot()
    n0 = m.fresh_n
    outs = explore(interp, m, fr, step)
    conts = [o for o in outs if o[0] == 'cont']
    if not conts:
        return ('none', None)
    groups = {}
    for o in conts:
        groups.setdefault(str(deltas_key(m, S0, o[2])), []).append(o)
    if len(groups) > 1:
        gs = list(groups.values())
        c = differing((gs[0][0], gs[1][0]))
        if c is None:
            raise Unsupported('loop paths')
        names = consts_of(c)
        if any(fresh_after(n, n0) for n in names):
            raise Unsupported('loop path depends on the iteration')
        return ('split', c)
    return ('linear', plan_linear(interp, m, key, step, fr, S0, conts))


def same_t(a, b):
    if a is b:
        return True
    if isz(a) and isz(b):
        return a.eq(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(same_t(x, y) for x, y in zip(a, b))
    if isz(a) or isz(b):
        return False
    return a == b


def same_state(S, m):
    """is the plan made for exactly this state?"""
    if set(S[0]) != set(m.cells) or set(S[1]) != set(m.bufs) or set(S[2]) != set(m.chans) or not same_t(S[3], m.pool):
        return False
    if not all(same(v, m.cells[c]) for c, v in S[0].items()):
        return False
    for b, x in S[1].items():
        y = m.bufs[b]
        if x is not y and not (same_t(x.own0, y.own0) and same_t(x.mem0, y.mem0) and same_t(x.cap, y.cap) and same_t(x.epoch, y.epoch) and
                               x.freed == y.freed and same_t(x.ops, y.ops)):
            return False
    return all(x is m.chans[n] or same_t((x.count, x.ops), (m.chans[n].count, m.chans[n].ops)) for n, x in S[2].items())


def fresh_after(name, n0):
    if '!' in name:
        t = name.rsplit('!', 1)[1]
        return t.isdigit() and int(t) > n0
    return False


class Plan:
    pass


def plan_linear(interp, m, key, step, fr, S0, conts):
    p = Plan()
    S1 = conts[0][2]
    p.S0, p.S1 = S0, S1
    st = NState()
    st.volatile = set()
    for o in conts:
        for n, c in o[2][0].items():
            pass
    n0 = m.fresh_n
    # buffers whose capacity / address may change
    p.hav = {}
    for b in S0[1]:
        x = S0[1][b]
        for o in conts:
            y = o[2][1].get(b)
            if y is None or y.freed is not x.freed:
                raise Unsupported('loop frees memory')
            if not same_v(x.cap, y.cap) or not same_v(x.epoch, y.epoch):
                p.hav[b] = True
    for _ in range(4):
        try:
            return plan_with(interp, m, key, step, fr, p, conts, n0)
        except MoreHavoc as e:
            p.hav[e.args[0]] = True
    raise Unsupported('loop capacity')


class MoreHavoc(Exception):
    pass


def plan_with(interp, m, key, step, fr, p, conts, n0):
    S0, S1 = p.S0, p.S1
    st = NState()
    m.fresh_n += 1
    tag = m.fresh_n
    p.j = z3.Int('it!%d' % tag)
    p.k = z3.Int('k!%d' % tag)
    p.capv = {b: z3.Int('capk!%d_%d' % (tag, b)) for b in p.hav}
    p.epv = {b: z3.Int('epk!%d_%d' % (tag, b)) for b in p.hav}
    p.volnames = {'it!%d' % tag}
    st.volatile = set()
    for o in conts:
        for x in all_names(o[2]):
            if fresh_after(x, n0):
                st.volatile.add(x)
    st.epochs = {b: (S0[1][b].epoch, S1[1][b].epoch, p.epv[b]) for b in p.hav}
    p.st = st
    p.order = 'seq'
    p.cand = None
    p.conds = []
    err = None
    for order in ('seq', 'reads-first'):
        p.order = order
        try:
            fill_ops(interp, m, key, step, fr, p)
            return p
        except Retry as e:
            err = e
    raise Unsupported('loop invariant: %s' % err)


class Retry(Exception):
    pass


def all_names(S):
    acc = set()

    def go(v):
        if isz(v):
            consts_of(v, acc)
        elif isinstance(v, Agg):
            for x in v.f.values():
                if not isinstance(x, dict):
                    go(x)
        elif isinstance(v, EP):
            go(v.off)
            go(v.epoch)
        elif isinstance(v, SP):
            go(v.p)
            go(v.n)
        elif isinstance(v, IP):
            go(v.a)
    for v in S[0].values():
        go(v)
    return acc


def state_at(m, p, k, with_ops=True, capv=None, epv=None):
    """snapshot of the state after k iterations"""
    S0, S1 = p.S0, p.S1
    capv, epv = capv or p.capv, epv or p.epv
    st = NState()
    st.volatile = p.st.volatile
    st.epochs = {b: (p.S0[1][b].epoch, p.S1[1][b].epoch, epv[b]) for b in p.hav}
    cells = {}
    for c, v in S0[0].items():
        cells[c] = gen_val(v, S1[0][c], k, st) if c in S1[0] else POISON
    bufs = {}
    for b, x in S0[1].items():
        y = x
        if with_ops:
            segs = [seg_of(o, p.j, k) for o in p.ops.get(b, [])]
            if p.order == 'reads-first':
                segs = [s for s in segs if s[0] == 'rseg'] + [s for s in segs if s[0] != 'rseg']
            for s in segs:
                y = y.op(*s)
        if b in p.hav:
            y = y.upd(cap=capv[b], epoch=epv[b])
        bufs[b] = y
    chans = {}
    for name in set(S0[2]) | set(S1[2]):
        a, b = S0[2].get(name) or Chan(), S1[2].get(name) or Chan()
        d = sub(b.count, a.count)
        if isz(d):
            if consts_of(d) & p.st.volatile:
                raise Unsupported('loop call count')
            n = simp(d * lit(k))
        else:
            n = d * k if not isz(k) else simp(d * k)
        if not isz(d) and d == 0:
            chans[name] = a
        else:
            vals = p.vals.get(name) if with_ops else None
            if vals is None or isz(d) or d != 1:
                vals = (z3.Int('untracked!' + name),)
            else:
                vals = tuple(sbst(lit(v), (p.j, JX)) for v in vals)
            chans[name] = a.seg(n, vals)
    dpool = sub(S1[3], S0[3])
    pool = add(S0[3], simp(lit(dpool) * lit(k)))
    if S1[7] != S0[7]:
        raise Unsupported('loop allocates')
    return (cells, bufs, chans, pool, S0[4], S0[5], S0[6], S0[7], S0[8] + ((('loop',),) if S1[8] != S0[8] else ()))


def cap_facts(m, p, cells, b, cap0, cap):
    """candidate facts about a capacity that may have grown"""
    ep0 = p.S0[1][b].epoch
    out = [('ge0', lambda cells, cap, ep: le(cap0, cap)), ('ep0', lambda cells, cap, ep: le(ep0, ep)),
           ('same', lambda cells, cap, ep: implies(eq(ep, ep0), eq(cap, cap0)))]
    for c in sorted(p.S0[0]):
        for path in int_leaves(p.S0[0][c]):
            out.append(((c, path), lambda cells, cap, ep, c=c, path=path: leaf_le(cells, c, path, cap)))
            out.append(((c, path, 'u'), lambda cells, cap, ep, c=c, path=path:
                        leaf_le(cells, c, path, cap0, lambda g: implies(g, land(eq(cap, cap0), eq(ep, ep0))))))
    return out


def bound_facts(m, p):
    """candidate bounds of variables that change"""
    out = []
    for c in sorted(p.S0[0]):
        if c not in p.S1[0]:
            continue
        for path in int_leaves(p.S0[0][c]):
            x, y = leaf(p.S0[0][c], path), leaf(p.S1[0][c], path)
            if y is None or same_v(x, y):
                continue
            for B in (IMAX, MAX):
                out.append(((c, path, B), lambda cells, c=c, path=path, B=B: leaf_le(cells, c, path, B)))
    # a slice that shrinks never has a negative length
    for c in sorted(p.S0[0]):
        if c in p.S1[0]:
            for path in sp_leaves(p.S0[0][c]):
                x, y = sp_leaf(p.S0[0][c], path), sp_leaf(p.S1[0][c], path)
                if x is not None and y is not None and not same_v(x.n, y.n):
                    out.append(((c, path, 'n'), lambda cells, c=c, path=path: sp_len_ok(cells, c, path)))
    # one position never passes another (needed by loops that stop when two positions are equal)
    groups = {}
    for c in sorted(p.S0[0]):
        if c in p.S1[0]:
            for path, kind in pos_leaves(p.S0[0][c]):
                x, y = pos_leaf(p.S0[0][c], path), pos_leaf(p.S1[0][c], path)
                if x is not None and y is not None:
                    groups.setdefault(kind, []).append((c, path, not same_v(x, y)))
    for kind, ls in groups.items():
        n = 0
        for a in ls:
            for b in ls:
                if a is b or not (a[2] or b[2]):
                    continue
                n += 1
                if n > 150:
                    break
                out.append(((a[0], a[1], 'le', b[0], b[1]), lambda cells, a=a, b=b: pos_le(cells, a, b)))
    return out


def sp_leaves(v, path=()):
    if isinstance(v, Agg):
        for x in v.f:
            if not isinstance(v.f[x], dict):
                yield from sp_leaves(v.f[x], path + (x,))
    elif isinstance(v, SP):
        yield path


def sp_leaf(v, path):
    for x in path:
        if not isinstance(v, Agg) or x not in v.f:
            return None
        v = v.f[x]
    return v if isinstance(v, SP) else None


def sp_len_ok(cells, c, path):
    v = sp_leaf(cells.get(c), path)
    return False if v is None else le(0, v.n)


def pos_leaves(v, path=()):
    if isinstance(v, Agg):
        for x in v.f:
            if not isinstance(v.f[x], dict):
                yield from pos_leaves(v.f[x], path + (x,))
    elif isinstance(v, EP):
        yield path, ('ep', v.buf)
    elif isinstance(v, IP):
        yield path, 'ip'
    elif isinstance(v, SP):
        for q, k in pos_leaves(v.p):
            yield path + ('sp',), k
    elif scalar(v) and not isbool(v):
        yield path, 'int'


def pos_leaf(v, path):
    for x in path:
        if x == 'sp' and isinstance(v, SP):
            v = v.p
            continue
        if not isinstance(v, Agg) or x not in v.f:
            return None
        v = v.f[x]
    if isinstance(v, EP):
        return v.off
    if isinstance(v, IP):
        return v.a
    return v if scalar(v) and not isbool(v) else None


def pos_le(cells, a, b):
    x, y = pos_leaf(cells.get(a[0]), a[1]), pos_leaf(cells.get(b[0]), b[1])
    if x is None or y is None:
        return False
    return le(x, y)


def leaf(v, path):
    for x in path:
        if not isinstance(v, Agg) or x not in v.f:
            return None
        v = v.f[x]
    return v if scalar(v) and not isbool(v) else None


def int_leaves(v, path=()):
    if isinstance(v, Agg):
        for x in v.f:
            if not isinstance(v.f[x], dict):
                yield from int_leaves(v.f[x], path + (x,))
    elif scalar(v) and not isbool(v):
        yield path


def leaf_le(cells, c, path, cap, wrap=None):
    v = leaf(cells.get(c), path)
    if v is None:
        return False
    r = le(v, cap)
    return wrap(r) if wrap else r


def fill_ops(interp, m, key, step, fr, p):
    """find the operations of iteration j by running one iteration from the linear part of S(j)"""
    S0 = p.S0
    keep_fresh = m.fresh_n
    p.ops, p.vals = {}, {}
    p.cands = {b: cap_facts(m, p, S0[0], b, S0[1][b].cap, p.capv[b]) for b in p.hav}
    p.bounds = bound_facts(m, p)
    # on entry
    for b in p.hav:
        p.cands[b] = [c for c in p.cands[b] if quick_known(m, c[1](S0[0], S0[1][b].cap, S0[1][b].epoch))]
    p.bounds = [c for c in p.bounds if quick_known(m, c[1](S0[0]))]

    def at(kk, with_ops):
        def run():
            m.assume(le(0, kk))
            S = state_at(m, p, kk, with_ops)
            m.restore(S)
            assume_cands(m, p, S)
            # (without the operations the state is only a guess: contracts are applied on trust there, and never in the proof)
            m.guess += not with_ops
            try:
                return step()
            finally:
                m.guess -= not with_ops
        return run
    # pass 1: operations as functions of j, reading memory as it was before the loop
    outs = [o for o in explore(interp, m, fr, at(p.j, False)) if o[0] == 'cont']
    if not outs:
        raise Retry('no continuing path')
    ops = None
    for o in outs:
        for b in S0[1]:
            if b not in p.hav and not (same_v(S0[1][b].cap, o[2][1][b].cap) and same_v(S0[1][b].epoch, o[2][1][b].epoch)):
                raise MoreHavoc(b)
        d = {}
        for b in S0[1]:
            before = state_at(m, p, p.j, False)[1][b]
            d[b] = iter_ops(before, o[2][1][b], m.copy)
        if ops is None:
            ops = d
        elif str(ops) != str(d):
            raise Retry('operations differ between paths')
    p.ops = {b: v for b, v in ops.items() if v}
    vals = {}
    for name, c in outs[0][2][2].items():
        base = S0[2].get(name) or Chan()
        new = c.ops[len(state_at(m, p, p.j, False)[2].get(name, Chan()).ops):]
        if len(new) == 1 and new[0][0] == 'e':
            vals[name] = new[0][2]
    p.vals = vals
    # pass 2: path facts of one iteration from S(j), and the capacity candidates
    for _ in range(8):
        outs = [o for o in explore(interp, m, fr, at(p.j, True)) if o[0] == 'cont']
        if not outs:
            raise Retry('no continuing path')
        bad = set()
        for o in outs:
            for b in S0[1]:
                if b not in p.hav and not (same_v(S0[1][b].cap, o[2][1][b].cap) and same_v(S0[1][b].epoch, o[2][1][b].epoch)):
                    raise MoreHavoc(b)
            m.solver.push()
            for c in o[5]:
                m.solver.add(lit(c))
            m.solver.add(p.j >= 0)
            try:
                tests = [((b, nm), f(o[2][0], o[2][1][b].cap, o[2][1][b].epoch)) for b in p.hav for nm, f in p.cands[b]]
                tests += [(nm, f(o[2][0])) for nm, f in p.bounds]
                for nm, g in tests:
                    g = simp(g)
                    if nm in bad or g is True:
                        continue
                    if g is False or m.solver.check(lit(lnot(g))) != z3.unsat:
                        bad.add(nm)
            finally:
                m.solver.pop()
        if not bad:
            break
        for b in p.hav:
            p.cands[b] = [c for c in p.cands[b] if (b, c[0]) not in bad]
        p.bounds = [c for c in p.bounds if c[0] not in bad]
    common = None
    for o in outs:
        cs = {str(c): c for c in o[1] if not any(fresh_after(n, keep_fresh) and n not in names_ok(p) for n in consts_of(c))}
        common = cs if common is None else {s: c for s, c in common.items() if s in cs}
    p.conds = list((common or {}).values())
    p.fresh_n = m.fresh_n


def assume_cands(m, p, S):
    for b in p.hav:
        m.assume(le(p.S0[1][b].epoch, p.epv[b]))
        m.assume(le(p.capv[b], IMAX if not m.zst else MAX))
        for _, f in p.cands[b]:
            m.assume(f(S[0], p.capv[b], p.epv[b]))
    for _, f in p.bounds:
        m.assume(f(S[0]))


def names_ok(p):
    return {p.j.decl().name()}


def quick_known(m, f):
    f = simp(f)
    if f is True or f is False:
        return f
    return m.check(z3.Not(f)) == z3.unsat


def run_linear(interp, m, key, step, fr, p):
    m.fresh_n = max(m.fresh_n, p.fresh_n)
    m.fresh_n += 1
    k = p.k
    S0 = p.S0
    m.assume(le(0, k))
    # symbols of the plan stand for this loop instance
    S = state_at(m, p, k, True)
    m.restore(S)
    assume_cands(m, p, S)
    if p.conds:
        cap_names = {x.decl().name() for x in list(p.capv.values()) + list(p.epv.values())}
        conds = [c for c in p.conds if not (consts_of(c) & cap_names)]
        if conds:
            m.add_forall(0, k, lambda j: land(*[sbst(c, (p.j, j)) for c in conds]), key)
    loc = dict(fr.loc) if fr is not None else None
    r = step()
    if r[0] != 'cont':
        return r[1]
    if m.failed:
        raise PathEnd()
    # one more iteration of the real code must lead to S(k+1)
    if m.live:
        progress(m, k)
        capv = {b: m.bufs[b].cap for b in p.hav}
        epv = {b: m.bufs[b].epoch for b in p.hav}
        T = state_at(m, p, add(k, 1), True, capv, epv)
        prove_same(m, m.snapshot(), T, S)
        for b in p.hav:
            need(m, land(le(p.S0[1][b].epoch, m.bufs[b].epoch), le(m.bufs[b].cap, IMAX if not m.zst else MAX)), 'capacity')
            for _, f in p.cands[b]:
                need(m, f(m.cells, m.bufs[b].cap, m.bufs[b].epoch), 'capacity')
        for nm, f in p.bounds:
            need(m, f(m.cells), 'bound')
        m.ex.stats.loops.add('%s' % (key,))
    raise PathEnd()


def progress(m, k):
    """the loop stops: the path facts bound the number of iterations, or user code decides (an iterator may be endless)"""
    m.solver.push()
    m.solver.add(k > 2 ** 130)
    r = m.solver.check()
    m.solver.pop()
    if r == z3.unsat or m.foralls and m.confirm(k > 2 ** 130)[0] == z3.unsat:
        return
    if any(n.startswith('iter') or n.startswith('pred') or n.startswith('key') for n in m.chans):
        return
    raise Unsupported('termination of a loop is not shown')


def need(m, f, what):
    f = simp(f)
    if f is True:
        return
    m.ex.stats.queries += 1
    r = m.check(lnot(f)) if f is not False else z3.sat
    if r != z3.unsat:
        import os
        if os.environ.get('VC_DEBUG'):
            print('LOOP', what, str(f)[:1500])
            try:
                print(m.solver.model())
            except Exception:
                pass
        raise Unsupported('loop invariant is not inductive (%s)' % what)
    m.ex.stats.discharged += 1
    m.ex.stats.by['z3'] += 1
    m.ex.stats.obl_names['loop invariant is inductive'] = m.ex.stats.obl_names.get('loop invariant is inductive', 0) + 1
    m.ex.stats.phases['body'] = m.ex.stats.phases.get('body', 0) + 1


def prove_same(m, A, T, S):
    """state A equals T (T: generalised; POISON in T is anything)"""
    for c, v in T[0].items():
        if c not in A[0]:
            if v is UNINIT or v is MOVED or v is POISON:
                continue
            raise Unsupported('loop loses a variable')
        same_prove(m, A[0][c], v, 'variable %s' % c)
    for b, y in T[1].items():
        x = A[1][b]
        i = m.fresh('sk_loop')
        need(m, eq(x.own(i), y.own(i)) if not m.copy else True, 'ownership of buffer %d' % b)
        need(m, implies(y.own(i), eq(x.mem(i), y.mem(i))), 'contents of buffer %d' % b)
        need(m, land(eq(x.cap, y.cap), eq(x.epoch, y.epoch)), 'capacity of buffer %d' % b)
        if x.freed is not y.freed:
            raise Unsupported('loop frees memory')
    for b in A[1]:
        if b not in T[1]:
            x = A[1][b]
            if not x.freed and not m.zst:
                raise Unsupported('loop creates a buffer')
    for n in set(A[2]) | set(T[2]):
        x, y = A[2].get(n) or Chan(), T[2].get(n) or Chan()
        need(m, eq(x.count, y.count), 'calls of ' + n)
        if n == 'drop' or n == 'alloc':
            continue
        i = m.fresh('sk_call')
        ar = max([len(o[2] if o[0] == 'e' else o[3]) for o in x.ops] or [0])
        for j in range(ar):
            need(m, implies(land(le(0, i), lt(i, y.count)), eq(x.at(i, j, ar), y.at(i, j, ar))), 'arguments of ' + n)
    need(m, eq(A[3], T[3]), 'number of live values')


def same_prove(m, a, t, what):
    if t is POISON or t is UNINIT or t is MOVED:
        return
    if isinstance(t, Agg) and isinstance(a, Agg) and set(a.f) == set(t.f):
        if not same_v(a.variant, t.variant):
            need(m, eq(a.variant, t.variant), what)
        for x in t.f:
            if not isinstance(t.f[x], dict):
                same_prove(m, a.f[x], t.f[x], what)
        return
    if scalar(a) and scalar(t):
        return need(m, eq(a, t), what)
    if isinstance(a, EP) and isinstance(t, EP) and a.buf == t.buf:
        return need(m, land(eq(a.epoch, t.epoch), eq(a.off, t.off)) if not m.zst else True, what)
    if isinstance(a, SP) and isinstance(t, SP):
        same_prove(m, a.p, t.p, what)
        return need(m, eq(a.n, t.n), what)
    if isinstance(a, IP) and isinstance(t, IP):
        return need(m, eq(a.a, t.a), what)
    if isinstance(a, (EV, RefAbs)) and type(a) is type(t):
        return need(m, eq(a.t, t.t), what)
    if same(a, t):
        return
    raise Unsupported('loop variable %s: %r / %r' % (what, a, t))
