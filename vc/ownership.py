"""Ownership by itself: on every return (or panic of the crate itself) each live value is owned by exactly one thing the caller can reach.

The owners are found by walking the argument cells and the result: values held directly, vectors, consuming iterators, cursors.  Every slot
of every storage must be live exactly if its owner says so, memory without an owner must hold nothing, and the number of live values
must have changed by what user code made minus what was dropped."""
from core import *

MADE = ('clone', 'gen')


class Owners:
    def __init__(self, w, m):
        self.w, self.m = w, m
        self.direct = 0          # values held directly
        self.inner = 0           # values in vectors
        self.claims = {}         # buffer -> [(guard, predicate of an index)]
        self.over = {}           # vector cell -> claim of the cursor that works on it
        self.vecs = []

    def f(self, n):
        return self.w.f(n)

    def visit(self, v, g, path):
        m = self.m
        if isinstance(v, EV):
            self.direct = add(self.direct, 1 if g is True else ite(g, 1, 0))
        elif isinstance(v, ArrVal):
            self.direct = add(self.direct, v.n if g is True else ite(g, v.n, 0))
        elif isinstance(v, Agg):
            name = v.ty[1] if v.ty and v.ty[0] == 'adt' else None
            if name == 'GenericVec':
                sa = v.f.get(self.f('storage'))
                if isinstance(sa, SA):
                    self.vecs.append((path, sa.buf, v.f[self.f('len')], g, 0))
                    return
            if name == 'IntoIter':
                idx = [x for x in v.f.values() if not isinstance(x, Agg)]
                md = [x for x in v.f.values() if isinstance(x, Agg)]
                if len(idx) == 1 and len(md) == 1:
                    vec = md[0].f.get(0)
                    if isinstance(vec, Agg) and isinstance(vec.f.get(self.f('storage')), SA):
                        self.vecs.append((path, vec.f[self.f('storage')].buf, vec.f[self.f('len')], g, idx[0]))
                        return
            if name == 'ManuallyDrop':
                return
            if name == 'RawCursor':
                self.cursor(v, g)
                return
            var = v.variant
            if var is not None and not isinstance(var, (int, str)) and not isinstance(var, bool):
                # the payload belongs to the variant that has one
                if name == 'Option':
                    g = land(g, eq(var, 1))
            for k, x in v.f.items():
                if k != '#env':
                    self.visit(x, g, None)
            e = v.f.get('#env')
            if isinstance(e, dict):
                pass

    def cursor(self, v, g):
        from contracts_iter import RAWF, raw_fields, off, cursor_own, cursor_inv
        m = self.m
        F = raw_fields(self.w.mod)
        fin = v.f[F['finished']]
        r = v.f[F['vec']]
        if fin is True or not isinstance(r, Ref):
            return
        o = [off(v.f[F[n]]) for n in RAWF[2:6]] + [v.f[F['old_vec_len']]]
        self.over[r.cell] = (land(g, lnot(fin)), o)

    def finish(self, check):
        from contracts_iter import cursor_own, cursor_inv
        m = self.m
        for path, buf, L, g, lo in self.vecs:
            n = sub(L, lo)
            own = (lambda L, lo: lambda i: land(le(lo, i), lt(i, L)))(L, lo)
            if path in self.over:
                c, o = self.over[path]
                if check:
                    m.prove(implies(c, cursor_inv(L, *o)), 'ownership: cursor invariant')
                    if not m.zst:
                        m.prove(implies(c, le(o[4], m.bufs[buf].cap)), 'ownership: cursor within the capacity')
                held = add(add(o[0], sub(o[2], o[1])), sub(o[4], o[3]))
                n = held if c is True else ite(c, held, n)
                own = (lambda c, o, own: lambda i: cursor_own(i, *o) if c is True else ite(c, cursor_own(i, *o), own(i)))(c, o, own)
            if check:
                m.prove(implies(g, land(le(0, lo), le(lo, L))), 'ownership: length')
                if not m.zst:
                    m.prove(implies(g, le(L, m.bufs[buf].cap)), 'ownership: length within the capacity')
            self.inner = add(self.inner, n if g is True else ite(g, n, 0))
            self.claims.setdefault(buf, []).append((g, own))
        return self


def owners(w, m, cells, values, check=False):
    o = Owners(w, m)
    for c, v in sorted(cells.items()):
        o.visit(v, True, c)
    for v in values:
        o.visit(v, True, None)
    return o.finish(check)


def made(m, case, pre, post):
    n = 0
    for c in post[2]:
        d = sub(post[2][c].count, (pre[2].get(c) or Chan()).count)
        if c in case.opts.get('no_items', ()):
            continue
        if c in MADE:
            n = add(n, d)
        elif c == 'iter':
            # the last call may have said that there is nothing more
            if isinstance(d, int) and d == 0:
                continue
            last = m.uf('iter_some', sub(post[2][c].count, 1), sort='bool')
            n = add(n, ite(le(d, 0), 0, ite(last, d, sub(d, 1))))
    return n


def check(w, m, case, args, pre, post, out):
    if m.copy:
        return
    before = owners(w, m, pre[0], args)
    res = [out[1]] if out[0] == 'ret' else []
    cells = {k: v for k, v in post[0].items() if k in pre[0]}
    after = owners(w, m, cells, res, check=True)
    if not m.zst:
        for b, x in sorted(m.bufs.items()):
            if x.kind in ('extern', 'inline'):
                continue
            i = m.fresh('sk_own')
            cl = after.claims.get(b, [])
            if len(cl) > 1:
                for p in range(len(cl)):
                    for q in range(p):
                        m.prove(lnot(land(cl[p][0], cl[q][0])), 'ownership: one owner of each storage')
            has = lor(*[land(g, own(i)) for g, own in cl]) if cl else False
            if x.freed:
                m.prove(lnot(has), 'ownership: the storage of a vector is not released')
                m.prove(lnot(x.own(i)), 'ownership: no element lost with its storage')
            else:
                m.prove(eq(x.own(i), has), 'ownership: a slot holds a value exactly if something owns it')
                if b not in pre[1] and not cl:
                    m.prove(False, 'ownership: temporary storage released')
    dropped = sub((post[2].get('drop') or Chan()).count, (pre[2].get('drop') or Chan()).count)
    b0, a0 = add(before.direct, before.inner), add(after.direct, after.inner)
    leak = case.leak_ok and out[0] == 'unwind'
    m.prove((le if leak else eq)(add(a0, dropped), add(b0, made(m, case, pre, post))), 'ownership: no value lost, made up or dropped twice')
    if m.zst and leak:
        m.prove(le(sub(after.inner, before.inner), sub(post[3], pre[3])), 'ownership: number of live zero-sized values')
    elif m.zst:
        m.prove(eq(sub(post[3], pre[3]), sub(after.inner, before.inner)), 'ownership: number of live zero-sized values')


# bitwise copies of a slice: whether the caller forgets the originals is the caller's business
HANDED_OVER = ('RawCursor::write_slice_front', 'RawCursor::write_slice_back')
