"""Annotated loop invariants for loops whose effect depends on what user code answers (retain, drain_filter, dedup).

An annotation (`Keep`) belongs to a contract, not to a loop: it describes the state of the vector's memory after `i` elements were
put to the user's predicate, in terms of the ghost functions
    kc(i)   how many of the first i elements are kept:   kc(0) = 0,  kc(i+1) = kc(i) + [kept(i)]
    sel(p)  which call kept the p-th kept element:       kept(i) -> sel(kc(i)) = i
(a definition by recursion, so nothing is assumed about the code).  Every variable of the loop is tracked as base + a*i + b*kc(i)
with coefficients found by elimination; what cannot be tracked so is forgotten.  The whole is then proved: on entry, and after one
more iteration of the real code from an arbitrary state satisfying it."""
import z3
from core import *
import loops
from loops import explore, scalar, isbool, same_v, need, POISON, pos_leaves, pos_leaf, pos_le, fresh_after

COMBOS = ((0, 0), (1, 0), (0, 1), (-1, 0), (0, -1), (1, -1), (-1, 1))
KC = z3.Function('kc', z3.IntSort(), z3.IntSort())
SEL = z3.Function('sel', z3.IntSort(), z3.IntSort())


def kc(i):
    return simp(KC(lit(i))) if isz(i) or i else 0


def sel(p):
    return SEL(lit(p))


class Keep:
    """chan: the channel of the user's predicate, `per` calls for each element; kept(i): was element i kept;
    own(i), mem(i): ownership and contents of the buffer (terms over IX) after i elements; args: arguments of the calls (over JX)"""

    def __init__(self, m, chan, buf, kept, own, mem, args, per=1):
        self.chan, self.buf, self.kept, self.own, self.mem, self.args, self.per = chan, buf, kept, own, mem, args, per
        self.c0 = m.chan(chan).count
        self.base = m.chan(chan)
        self.b0 = m.bufs[buf]
        self.others = {}              # other channels called once for each element: arguments (over JX)
        self.obase = {}
        self.care = None              # where the contents are pinned down (term over IX); None: everywhere

    def count(self, m):
        return sub(m.chan(self.chan).count, self.c0)

    def define(self, m, i):
        """the ghost functions at i"""
        m.assume(eq(KC(0), 0))
        m.assume(land(le(0, kc(i)), le(kc(i), i)))
        k = self.kept(i)
        m.assume(eq(kc(add(i, 1)), add(kc(i), ite(k, 1, 0))))
        m.assume(implies(k, eq(sel(kc(i)), i)))

    def state(self, b, i):
        """the buffer after i elements"""
        n = Buf(self.own(i), self.mem(i), b.cap, b.epoch, (), b.freed, b.kind)
        n.stale = lor(self.b0.own0, self.b0.stale)
        return n

    def other(self, n, m, i):
        b = self.obase[n]
        return b.seg(i, self.others[n])

    def with_others(self, m, others):
        self.others = others
        self.obase = {n: m.chan(n) for n in others}
        return self

    def calls(self, i):
        return self.base.seg(simp(lit(self.per) * lit(i)), self.args)


def relevant(m, outs, fam, before):
    return any(o[0] == 'cont' and not same_v((o[2][2].get(fam.chan) or Chan()).count, before) for o in outs)


def leaves(S, pool, chans):
    """every position and counter of the state: {key: value}"""
    out = {}
    for c in sorted(S[0]):
        for path, kind in pos_leaves(S[0][c]):
            out[(c, path)] = (pos_leaf(S[0][c], path), kind)
    out['pool'] = (S[3], 'pool')
    for n, ch in S[2].items():
        out[('chan', n)] = (ch.count, 'chan')
    return out


def set_leaf(v, path, x):
    if not path:
        if isinstance(v, EP):
            return EP(v.buf, v.epoch, x, v.n)
        if isinstance(v, IP):
            return IP(x)
        return x
    if path[0] == 'sp' and isinstance(v, SP):
        return SP(set_leaf(v.p, path[1:], x), v.n)
    return v.with_field(path[0], set_leaf(v.f[path[0]], path[1:], x))


class Plan:
    pass


def changed_cells(S0, S1, tracked):
    """cells (and parts of cells) that differ in a way that is not a position"""
    bad = set()

    def go(a, b, path):
        if isinstance(a, Agg) and isinstance(b, Agg) and a.ty == b.ty and set(a.f) == set(b.f) and same_v(a.variant, b.variant):
            for x in a.f:
                if not isinstance(a.f[x], dict):
                    go(a.f[x], b.f[x], path + (x,))
            return
        if isinstance(a, EP) and isinstance(b, EP) and a.buf == b.buf and same_v(a.n, b.n) and same_v(a.epoch, b.epoch):
            return
        if isinstance(a, IP) and isinstance(b, IP):
            return
        if isinstance(a, SP) and isinstance(b, SP) and same_v(a.n, b.n):
            return go(a.p, b.p, path + ('sp',))
        if scalar(a) and scalar(b) and not isbool(a) and not isbool(b):
            return
        if not loops.same(a, b):
            bad.add(path)
    for c in S0[0]:
        if c not in S1[0]:
            bad.add((c,))
        else:
            go(S0[0][c], S1[0][c], (c,))
    return bad


def poison(v, path):
    if not path or not isinstance(v, Agg):
        return POISON
    return v.with_field(path[0], poison(v.f[path[0]], path[1:]))


def build(m, p, k):
    """the state after k elements: positions as tracked"""
    S0, fam = p.S0, p.fam
    cells = dict(S0[0])
    di, dk = sub(k, p.i0), sub(kc(k), kc(p.i0))
    pool = S0[3]
    chans = dict(S0[2])
    chans[fam.chan] = fam.calls(k)
    for key, cs in p.cand.items():
        base = p.base[key][0]
        if len(cs) == 1:
            a, b = cs[0]
            x = base
            for c, d in ((a, di), (b, dk)):
                if c == 1:
                    x = add(x, d)
                elif c == -1:
                    x = sub(x, d)
        else:
            x = p.var[key]
        if key == 'pool':
            pool = x
        elif key[0] == 'chan':
            if key[1] == fam.chan:
                continue
            b = S0[2].get(key[1]) or Chan()
            if key[1] in fam.others:
                chans[key[1]] = fam.other(key[1], m, k)
            elif not same_v(x, b.count):
                chans[key[1]] = b.seg(sub(x, b.count), (z3.Int('untracked!' + key[1]),))
        else:
            cells[key[0]] = set_leaf(cells[key[0]], key[1], x)
    for path in sorted(p.bad, key=lambda q: -len(q)):
        cells[path[0]] = poison(cells[path[0]], path[1:])
    bufs = dict(S0[1])
    if not m.zst:
        bufs[fam.buf] = fam.state(S0[1][fam.buf], k)
    return (cells, bufs, chans, pool) + S0[4:]


def facts(m, p, k):
    di, dk = sub(k, p.i0), sub(kc(k), kc(p.i0))
    out = []
    for key, cs in p.cand.items():
        if len(cs) != 1:
            for a, b in cs:
                x = p.base[key][0]
                for c, d in ((a, di), (b, dk)):
                    x = add(x, d) if c == 1 else sub(x, d) if c == -1 else x
                out.append((key, (a, b), eq(p.var[key], x)))
    return out


def expect(p, key, ab, i):
    di, dk = sub(i, p.i0), sub(kc(i), kc(p.i0))
    x = p.base[key][0]
    for c, d in ((ab[0], di), (ab[1], dk)):
        x = add(x, d) if c == 1 else sub(x, d) if c == -1 else x
    return x


def assume_all(m, p, S, k):
    m.assume(land(le(p.i0, k), le(0, p.i0)))
    m.assume(land(le(kc(p.i0), kc(k)), le(sub(kc(k), kc(p.i0)), sub(k, p.i0))))
    p.fam.define(m, k)
    p.fam.define(m, p.i0)
    for _, _, f in facts(m, p, k):
        m.assume(f)
    for _, f in p.bounds:
        m.assume(f(S[0]))


def infer(interp, m, fr, step, fam):
    p = Plan()
    p.fam = fam
    p.S0 = S0 = m.snapshot()
    before = m.chan(fam.chan).count
    p.i0 = div_count(m, fam, S0)
    fam.define(m, p.i0)
    outs = [o for o in explore(interp, m, fr, step) if o[0] == 'cont']
    if not outs or not relevant(m, outs, fam, before):
        return None
    m.fresh_n += 1
    tag = m.fresh_n
    p.k = z3.Int('kk!%d' % tag)
    p.base = leaves(S0, None, None)
    p.bad = set()
    for o in outs:
        p.bad |= changed_cells(S0, o[2], None)
    changed = set()
    p.cand, p.var, p.bounds = {}, {}, []

    def note(lv, ref):
        new = set()
        for key, (x, kind) in p.base.items():
            if key in changed or key == ('chan', fam.chan) or (not isinstance(key, str) and any(is_prefix(b, (key[0],) + tuple(key[1])) for b in p.bad)):
                continue
            y = lv.get(key)
            if y is None or not same_v(ref[key][0] if key in ref else None, y[0]):
                new.add(key)
        return new
    for o in outs:
        changed |= note(leaves(o[2], None, None), p.base)
    for n in {n for o in outs for n in o[2][2]} - set(S0[2]) - {fam.chan}:
        p.base[('chan', n)] = (0, 'chan')
        changed.add(('chan', n))
    for key in changed:
        p.cand[key] = list(COMBOS)
        p.var[key] = z3.Int('fv!%d_%s' % (tag, len(p.var)))
    ls = [key for key in p.base if not isinstance(key, str) and key[0] != 'chan']
    for a in ls:
        for b in ls:
            if a != b and (a in changed or b in changed) and p.base[a][1] == p.base[b][1]:
                f = (lambda a, b: lambda cells: pos_le(cells, a, b))(a, b)
                if loops.quick_known(m, f(S0[0])):
                    p.bounds.append(((a, b), f))
    gen = m.gen
    for rnd in range(14):
        m.gen = gen + (tag, rnd)

        def run():
            m.assume(le(0, p.k))
            S = build(m, p, p.k)
            m.restore(S)
            assume_all(m, p, S, p.k)
            return step()
        outs = [o for o in explore(interp, m, fr, run) if o[0] == 'cont']
        again = False
        for o in outs:
            S = build(m, p, p.k)
            nb = changed_cells(S, o[2], None)
            nb = {q for q in nb if not any(is_prefix(b, q) for b in p.bad)}
            if nb:
                p.bad |= nb
                again = True
            lv, ref = leaves(o[2], None, None), leaves(S, None, None)
            for n in {n for n in o[2][2]} - {k[1] for k in p.base if not isinstance(k, str) and k[0] == 'chan'}:
                p.base[('chan', n)] = (0, 'chan')
                again = True
            nw = note(lv, ref)
            for key in nw:
                changed.add(key)
                p.cand[key] = list(COMBOS)
                p.var[key] = z3.Int('fv!%d_%s' % (tag, len(p.var)))
                again = True
        if again:
            continue
        drop = set()
        for o in outs:
            m.solver.push()
            for c in o[5]:
                m.solver.add(lit(c))
            try:
                i1 = div_count(m, fam, o[2])
                lv = leaves(o[2], None, None)
                for key, cs in p.cand.items():
                    for ab in cs:
                        if (key, ab) in drop:
                            continue
                        if key not in lv:
                            drop.add((key, ab))
                            continue
                        g = simp(eq(lv[key][0], expect(p, key, ab, i1)))
                        if g is True:
                            continue
                        if g is False or m.solver.check(lit(lnot(g))) != z3.unsat:
                            drop.add((key, ab))
                for nm, f in p.bounds:
                    if (nm, None) in drop:
                        continue
                    g = simp(f(o[2][0]))
                    if g is True:
                        continue
                    if g is False or m.solver.check(lit(lnot(g))) != z3.unsat:
                        drop.add((nm, None))
            finally:
                m.solver.pop()
        import os
        if os.environ.get('VC_DEBUG'):
            print('FAM', len(m.ex.nested), {k: c for k, c in p.cand.items()}, 'drop', drop, 'bad', p.bad)
        if not drop:
            break
        for key in p.cand:
            p.cand[key] = [ab for ab in p.cand[key] if (key, ab) not in drop]
        p.bounds = [b for b in p.bounds if (b[0], None) not in drop]
    else:
        raise Unsupported('annotated invariant: no fixed point')
    m.gen = gen
    for key, cs in p.cand.items():
        if not cs and not (isinstance(key, tuple) and key[0] not in ('chan',)):
            raise Unsupported('annotated invariant: %s is not tracked' % (key,))
    p.fresh_n = m.fresh_n
    return p


def is_prefix(a, b):
    return len(a) <= len(b) and tuple(b[:len(a)]) == tuple(a)


def div_count(m, fam, S):
    n = sub((S[2].get(fam.chan) or Chan()).count, fam.c0)
    if fam.per == 1:
        return n
    if not isz(n):
        return n // fam.per
    return simp(lit(n) / fam.per)


def run(interp, m, key, step, fr, p):
    fam = p.fam
    m.fresh_n = max(m.fresh_n, p.fresh_n) + 1
    k = p.k
    # on entry
    fam.define(m, p.i0)
    for n in fam.others:
        need(m, eq(m.chan(n).count, fam.other(n, m, p.i0).count), 'calls of ' + n)
    if not m.zst:
        x, y = m.bufs[fam.buf], fam.state(m.bufs[fam.buf], p.i0)
        same_buf(m, x, y, fam.care and fam.care(p.i0))
    S = build(m, p, k)
    m.restore(S)
    assume_all(m, p, S, k)
    r = step()
    if r[0] != 'cont':
        return r[1]
    if m.failed:
        raise PathEnd()
    if m.live:
        A = m.snapshot()
        i1 = div_count(m, fam, A)
        n = m.chan(fam.chan).count
        need(m, eq(sub(n, fam.c0), simp(lit(fam.per) * lit(i1))), 'whole elements')
        fam.define(m, i1)
        need(m, lt(k, i1), 'progress')
        if not any(stops(p, a, b) for (a, b), _ in p.bounds):
            raise Unsupported('termination of a loop is not shown')
        T = build(m, p, i1)
        if m.bufs[fam.buf].freed:
            raise Unsupported('loop frees memory')
        if not m.zst:
            same_buf(m, A[1][fam.buf], T[1][fam.buf], fam.care and fam.care(i1))
        for b, y in T[1].items():
            if b != fam.buf or m.zst:
                same_buf(m, A[1][b], y)
        for b in A[1]:
            if b not in T[1] and not A[1][b].freed and not m.zst:
                raise Unsupported('loop creates a buffer')
        lv = leaves(A, None, None)
        for key2, cs in p.cand.items():
            for ab in cs:
                need(m, eq(lv[key2][0], expect(p, key2, ab, i1)), 'position')
        for nm, f in p.bounds:
            need(m, f(A[0]), 'bound')
        q = changed_cells(T, A, None)
        q = [x for x in q if not any(is_prefix(b, x) for b in p.bad)]
        if q:
            raise Unsupported('annotated invariant: other variables change')
        for key2, (x, kind) in p.base.items():
            if key2 in p.cand or key2 == ('chan', fam.chan) or (not isinstance(key2, str) and any(is_prefix(b, (key2[0],) + tuple(key2[1])) for b in p.bad)):
                continue
            y = lv.get(key2)
            if y is None:
                raise Unsupported('annotated invariant: lost variable')
            need(m, eq(x, y[0]), 'unchanged variable')
        i = m.fresh('sk_call')
        x, y = m.chan(fam.chan), T[2][fam.chan]
        for j in range(len(fam.args)):
            need(m, implies(land(le(0, i), lt(i, y.count)), eq(x.at(i, j, len(fam.args)), y.at(i, j, len(fam.args)))), 'arguments of ' + fam.chan)
        for n, vals in fam.others.items():
            x, y = m.chan(n), fam.other(n, m, i1)
            need(m, eq(x.count, y.count), 'calls of ' + n)
            for j in range(len(vals)):
                need(m, implies(land(le(0, i), lt(i, y.count)), eq(x.at(i, j, len(vals)), y.at(i, j, len(vals)))), 'arguments of ' + n)
        if m.events != p.S0[8]:
            raise Unsupported('annotated invariant: other effects')
        m.ex.stats.loops.add('%s (annotated: kept/dropped)' % (key,))
    raise PathEnd()


def stops(p, a, b):
    """a moves towards b, which stays (or the other way round)"""
    ca, cb = p.cand.get(a), p.cand.get(b)
    return (ca is not None and (1, 0) in ca and cb is None) or (cb is not None and (-1, 0) in cb and ca is None)


def same_buf(m, x, y, care=None):
    i = m.fresh('sk_fam')
    if not m.copy:
        need(m, eq(x.own(i), y.own(i)), 'ownership')
    c = True if care is None else sbst(care, (IX, i))
    need(m, implies(land(y.own(i), c), eq(x.mem(i), y.mem(i))), 'contents')
    need(m, land(eq(x.cap, y.cap), eq(x.epoch, y.epoch)), 'capacity')


# ------------------------------------------------------------------ items collected in a fixed buffer and written in chunks
class Chunks:
    """annotation for a loop that moves the items of an iterator to the front of a cursor's gap through a small buffer:
    of the w + r items taken so far, w were written in front of the gap (which stays closed) and the last r are in the buffer"""
    fallback = True

    def __init__(self, chan, vec, cursor, F, flen, fst):
        self.chan, self.vec, self.cursor, self.F, self.flen, self.fst = chan, vec, cursor, F, flen, fst

    def fields(self, m, cells):
        v = cells[self.cursor.cell]
        for k in self.cursor.path:
            v = v.f[k]
        return v

    def buffers(self, m):
        """the buffer vector: the only other vector there is"""
        out = []

        def go(v, ref):
            if isinstance(v, Agg):
                if v.ty and v.ty[0] == 'adt' and v.ty[1] == 'GenericVec':
                    return out.append(ref)
                for k, x in v.f.items():
                    if not isinstance(x, dict):
                        go(x, Ref(ref.cell, ref.path + (k,)))
        for c, v in m.cells.items():
            if c != self.vec.cell:
                go(v, Ref(c))
        return out


def chunks_apply(m, fam):
    """the loop starts with a closed gap and an empty buffer"""
    bs = fam.buffers(m)
    if len(bs) != 1:
        return False
    raw = fam.fields(m, m.cells)
    p = lambda n: raw.f[fam.F[n]].off
    return not m.check(lnot(land(eq(p('write_front'), p('write_back')), eq(p('read_front'), p('read_back')), eq(m.get(bs[0]).f[fam.flen], 0)))) != z3.unsat


def run_chunks(interp, m, key, step, fr, fam):
    S0 = m.snapshot()
    bs = fam.buffers(m)
    if len(bs) != 1:
        raise Unsupported('loop paths depend on data')
    br = bs[0]
    vb = m.get(fam.vec).f[fam.fst].buf
    n0 = m.fresh_n
    outs = [o for o in explore(interp, m, fr, step) if o[0] == 'cont']
    cand = {b for o in outs for b in S0[1] if b != vb and o[2][1][b] is not S0[1][b] and o[2][1][b].ops != S0[1][b].ops}
    if len(cand) != 1:
        raise Unsupported('loop paths depend on data')
    bb = cand.pop()
    F = fam.F
    raw = fam.fields(m, m.cells)
    ptr = lambda raw, n: raw.f[F[n]].off
    wf1, rf1, rb1, wb1 = [ptr(raw, n) for n in ('write_front', 'read_front', 'read_back', 'write_back')]
    O1 = raw.f[F['old_vec_len']]
    base, buf1 = m.bufs[vb], m.bufs[bb]
    c1 = m.chan(fam.chan)
    ret = lambda j: m.uf(fam.chan + '_ret', add(c1.count, j))
    some = lambda j: m.uf(fam.chan + '_some', add(c1.count, j), sort='bool')
    i = m.fresh('sk_ch')
    need(m, eq(wf1, wb1), 'the gap is closed')
    need(m, eq(rf1, rb1), 'nothing left to read')
    need(m, eq(m.get(br).f[fam.flen], 0), 'the buffer is empty')
    need(m, lnot(buf1.own(i)), 'the buffer is empty')
    need(m, lt(0, buf1.cap), 'the buffer can hold an item')
    m.fresh_n += 1
    tag = m.fresh_n
    # the buffer is emptied as soon as it is full, or (loose) before the next item
    below = le if m.ex.prefer == 'loose' else lt
    w, r, cap, ep = [z3.Int('%s!%d' % (n, tag)) for n in ('chunk_w', 'chunk_r', 'chunk_cap', 'chunk_ep')]

    def vec_state(w, cap, ep):
        own = lor(land(le(0, IX), lt(IX, add(wf1, w))), land(le(add(wb1, w), IX), lt(IX, add(O1, w))))
        mem = ite(land(le(wf1, IX), lt(IX, add(wf1, w))), ret(sub(IX, wf1)), ite(lt(IX, wf1), base.mem(IX), base.mem(sub(IX, w))))
        b = Buf(own, mem, cap, ep, (), base.freed, base.kind)
        b.stale = base.stale
        return b

    def buf_state(w, r):
        b = Buf(land(le(0, IX), lt(IX, r)), ret(add(w, IX)), buf1.cap, buf1.epoch, (), buf1.freed, buf1.kind)
        b.stale = lor(buf1.own0, buf1.stale)
        return b
    # what else changes is forgotten
    known = {(fam.cursor.cell,) + tuple(fam.cursor.path) + (F[n],) for n in ('write_front', 'read_front', 'read_back', 'write_back', 'old_vec_len')}
    known.add((br.cell,) + tuple(br.path) + (fam.flen,))

    def mine(q):
        return any(is_prefix(x, q) for x in known)
    base_leaves = leaves(S0, None, None)

    def differences(S):
        bad = {q for q in changed_cells(S0, S, None) if not mine(q)}
        lv = leaves(S, None, None)
        for k2, (x, kind) in base_leaves.items():
            if isinstance(k2, str) or k2[0] == 'chan' or mine((k2[0],) + tuple(k2[1])):
                continue
            y = lv.get(k2)
            if y is None or not same_v(x, y[0]):
                bad.add((k2[0],) + tuple(k2[1]))
        return bad
    bad = set()
    for o in outs:
        bad |= differences(o[2])

    def facts():
        m.assume(land(le(0, w), le(0, r), below(r, buf1.cap), le(base.epoch, ep), le(cap, IMAX), le(add(O1, w), cap), le(base.cap, cap)))
        m.assume(implies(eq(ep, base.epoch), eq(cap, base.cap)))

    def enter():
        facts()
        EPV = lambda o: EP(vb, ep, o)
        x = m.get(fam.cursor)
        for n, o in (('write_front', add(wf1, w)), ('write_back', add(wb1, w))):
            x = x.with_field(F[n], EPV(o))
        x = x.with_field(F['read_front'], EPV(rf1)).with_field(F['read_back'], EPV(rb1)).with_field(F['old_vec_len'], add(O1, w))
        m.set(fam.cursor, x)
        m.set(br, m.get(br).with_field(fam.flen, r))
        for q in sorted(bad, key=lambda q: -len(q)):
            m.cells[q[0]] = poison(m.cells[q[0]], q[1:])
        m.bufs[vb] = vec_state(w, cap, ep)
        m.bufs[bb] = buf_state(w, r)
        m.chans[fam.chan] = c1.seg(add(w, r), ())
        m.events = m.events + (('loop',),)
    enter()
    m.add_forall(0, add(w, r), lambda j: some(j), key)
    out = step()
    if out[0] != 'cont':
        return out[1]
    if m.failed:
        raise PathEnd()
    if m.live:
        raw2 = fam.fields(m, m.cells)
        w2 = sub(ptr(raw2, 'write_front'), wf1)
        r2 = m.get(br).f[fam.flen]
        n2 = sub(m.chan(fam.chan).count, c1.count)
        b2 = m.bufs[vb]
        need(m, land(le(0, w2), le(0, r2), below(r2, buf1.cap), eq(add(w2, r2), n2)), 'items')
        need(m, eq(n2, add(add(w, r), 1)), 'one item')
        need(m, some(add(w, r)), 'an item')
        need(m, land(eq(ptr(raw2, 'write_back'), add(wb1, w2)), eq(raw2.f[F['old_vec_len']], add(O1, w2)), eq(ptr(raw2, 'read_front'), rf1),
                     eq(ptr(raw2, 'read_back'), rb1)), 'cursor')
        for n in ('write_front', 'read_front', 'read_back', 'write_back'):
            need(m, eq(raw2.f[F[n]].epoch, b2.epoch), 'cursor pointers are current')
        need(m, land(le(base.epoch, b2.epoch), le(b2.cap, IMAX), le(add(O1, w2), b2.cap), le(base.cap, b2.cap), implies(eq(b2.epoch, base.epoch), eq(b2.cap, base.cap))), 'capacity')
        same_buf(m, b2, vec_state(w2, b2.cap, b2.epoch))
        same_buf(m, m.bufs[bb], buf_state(w2, r2))
        for b, y in S0[1].items():
            if b not in (vb, bb):
                same_buf(m, m.bufs[b], y)
        if any(b not in S0[1] and not x.freed for b, x in m.bufs.items()):
            raise Unsupported('loop creates a buffer')
        A = m.snapshot()
        if {q for q in differences(A) if not any(is_prefix(b, q) for b in bad)}:
            raise Unsupported('annotated invariant: other variables change')
        for n in set(A[2]) | set(S0[2]):
            if n != fam.chan:
                need(m, eq((A[2].get(n) or Chan()).count, (S0[2].get(n) or Chan()).count), 'calls of ' + n)
        need(m, eq(A[3], S0[3]), 'number of live values')
        m.ex.stats.loops.add('%s (annotated: chunks)' % (key,))
    raise PathEnd()
