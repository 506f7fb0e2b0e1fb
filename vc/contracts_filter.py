"""P08: filtered draining and retain; P15: deduplication."""
import z3
from core import *
from spec import *
import builtin_specs as B
import loops
from families import Keep, kc, sel
from contracts import case, CASES, USE, SZ, SZC, GV, T, S, vlen, vcap, pre
from contracts_iter import *

FLT = ('adt', 'F', ())


def flt(w, n):
    if n == 'filter':
        return w.fn('pred', 'bool', mut=True)
    return z3.Bool('panicking')


def filter_live(panicking=None):
    def f(w):
        w.env['F'] = FLT
        r = mk_cursor(w, 'DrainFilter', fin=False, extra=lambda n: w.fn('pred', 'bool', mut=True) if fidx(w.mod, 'DrainFilter', 'filter') ==
                      [i for i, (k, t) in enumerate(w.mod.structs['DrainFilter'][1]) if k == n][0] else
                      (z3.Bool('panicking') if panicking is None else panicking))
        return [r]
    return f


def ret(m, k):
    return m.uf('pred_ret', k, sort='bool')


def set_panicking(x, r, v=True):
    i = [i for i, (n, t) in enumerate(x.mod.structs['DrainFilter'][1]) if t == ('adt', 'bool', ())]
    if len(i) != 1:
        raise Unsupported('lost anchor: flag of DrainFilter')
    x.m.set(r, x.m.get(r).with_field(i[0], v))


def called(x, n, panicked=False, t=None):
    """n calls of the predicate with the elements t (over JX)"""
    m = x.m
    c = m.chan('pred')
    m.chans['pred'] = c.seg(n, (ZST_T if m.zst else t,))
    return c.count


def sp_filter_next(front):
    def sp(x, r):
        """the predicate is asked for one element after the other until it says yes; the others are kept"""
        m = x.m
        c = RC(x, r)
        c0 = m.chan('pred').count
        k = sub(x.ochan('pred').count, c0)
        m.prove(land(le(0, k), le(k, c.len)), 'post: the predicate is called at most once for each element')
        i = m.fresh('sk_pred')
        m.instantiate(sub(i, c0))
        m.instantiate(i)
        last = sub(k, 1)
        m.prove(implies(land(le(0, i), lt(i, last)), lnot(ret(m, add(c0, i)))), 'post: stops at the first element the predicate wants')
        pan = x.out[0] == 'unwind'
        base = c.v.buf
        mem = (lambda j: m.bufs[base].mem(add(c.rf, j))) if front else (lambda j: m.bufs[base].mem(sub(sub(c.rb, 1), j)))
        args = ZST_T if m.zst else lit(mem(JX))
        called(x, k, t=args)
        new = (lambda j: ZST_T if m.zst else lit(m.uf('pred_mut0', add(c0, j))))
        if not m.zst:
            if front:
                c.v.update(c.rf, k, new(JX))
            else:
                c.v.update(sub(c.rb, k), k, new(sub(sub(k, 1), JX)))
        found = False if pan else x.branch(land(lt(0, k), ret(m, add(c0, last))))
        skips = last if pan or found else k
        (st_skip_n_front if front else st_skip_n_back)(x, c, skips)
        if pan:
            set_panicking(x, r)
            c.inv()
            x.i.panic(m, 'pred')
        if not found:
            m.prove(eq(c.len, 0), 'post: exhausted only at the end of the range')
            c.inv()
            return NONE
        v = (st_take_front if front else st_take_back)(x, c)
        c.inv()
        return some(v)
    return sp


case('Iterator for DrainFilter::next', filter_live(False), sp_filter_next(True), exact=True)
case('DoubleEndedIterator for DrainFilter::next_back', filter_live(False), sp_filter_next(False), exact=True)
case('Iterator for DrainFilter::size_hint', filter_live(), step(lambda x, c: tup(0, some(c.len))))


# ------------------------------------------------------------------ the rest is processed when the iterator is dropped
def keep_family(yes):
    """the annotation: after i elements of the range were put to the predicate, the kept ones follow the front of the vector"""
    def mk(w, m, args):
        if w.cursors:
            fields = w.cursors[0]
            c = m.get(fields[0])
            F = w.cursor_names
            wf, rf, rb, wb, O = [off(c.f[F[n]]) for n in ('write_front', 'read_front', 'read_back', 'write_back')] + [c.f[F['old_vec_len']]]
            buf = m.get(fields[1]).f[w.f('storage')].buf
        else:
            v = m.get(args[0])
            O = v.f[w.f('len')]
            wf, rf, rb, wb = 0, 0, O, O
            buf = v.f[w.f('storage')].buf
        return keep(m, buf, wf, rf, rb, wb, O, yes)
    return mk


def keep(m, buf, wf, rf, rb, wb, O, yes):
    b0 = m.bufs[buf]
    c0 = m.chan('pred').count
    own = lambda i: cursor_own(IX, add(wf, kc(i)), add(rf, i), rb, wb, O)

    def mem(i):
        return ite(land(le(wf, IX), lt(IX, add(wf, kc(i)))), m.uf('pred_mut0', add(c0, sel(sub(IX, wf)))), b0.mem(IX))
    kept = lambda i: ret(m, add(c0, i)) if yes else lnot(ret(m, add(c0, i)))
    f = Keep(m, 'pred', buf, kept, own, mem, (ZST_T if m.zst else lit(b0.mem(add(rf, JX))),))
    f.wf, f.rf, f.n = wf, rf, sub(rb, rf)
    return f


def sp_filter_rest(x, c):
    """all remaining elements are put to the predicate once, in order; the kept ones close up, the others are dropped"""
    m = x.m
    fam = x.family
    pan = x.out[0] == 'unwind'
    n = fam.n
    k = sub(x.ochan('pred').count, fam.c0)
    if pan:
        m.prove(land(lt(0, k), le(k, n)), 'post: the predicate is called at most once for each element')
    else:
        m.prove(eq(k, n), 'post: the predicate is called once for each element')
    i = sub(k, 1) if pan else n
    fam.define(m, i)
    m.chans['pred'] = fam.calls(k)
    if not m.zst:
        m.bufs[fam.buf] = fam.state(m.bufs[fam.buf], i)
        if pan:
            # the element the predicate panicked on stays
            m.bufs[fam.buf] = m.bufs[fam.buf].op('w', add(fam.rf, i), m.uf('pred_mut0', add(fam.c0, i)))
    if not m.copy:
        m.chans['drop'] = Chan(add(m.chan('drop').count, sub(i, kc(i))), m.chan('drop').ops)
    if m.zst:
        m.pool = sub(m.pool, sub(i, kc(i)))
    c.rf = add(c.rf, i)
    c.wf = add(c.wf, kc(i))


def sp_filter_drop(x, r):
    c = RC(x, r)
    flag = [t for t in x.m.get(r).f.values() if loops.isbool(t)]
    if len(flag) != 1:
        raise Unsupported('lost anchor: flag of DrainFilter')
    if not x.branch(flag[0]):
        sp_filter_rest(x, c)
    sp_finish(x, c.r)
    if x.out[0] == 'unwind':
        x.i.panic(x.m, 'pred')
    return UNITV


case('Drop for DrainFilter::drop', filter_live(), sp_filter_drop, opts=dict(glue=True, family=keep_family(False)), name='drop of DrainFilter', exact=('pred',))


def sp_retain(x, r, f):
    m = x.m
    v = x.vec(r)
    n = v.len
    raw = new_raw(x, r, 0, n)
    c = m.new_cell(raw)
    cc = RC(x, Ref(c))
    sp_filter_rest(x, cc)
    sp_finish(x, Ref(c))
    m.cells.pop(c)
    if x.out[0] == 'unwind':
        x.i.panic(x.m, 'pred')
    return UNITV


case(GV + 'retain', lambda w: [w.vec(), w.fn('pred', 'bool', mut=True)], sp_retain, env={'F': FLT}, opts=dict(family=keep_family(True)), exact=('pred',))


# ------------------------------------------------------------------ P15: deduplication
def dedup_family(kind):
    """after i elements were compared with the last kept one: positions 0..kc(i) hold the kept elements in order"""
    def mk(w, m, args):
        v = m.get(args[0])
        n = v.f[w.f('len')]
        buf = v.f[w.f('storage')].buf
        b0 = m.bufs[buf]
        chan, per = {'by': ('same', 1), 'key': ('key', 2), 'eq': ('eq', 1)}[kind]
        c0 = m.chan(chan).count
        if kind == 'key':
            kept = (lambda e0: lambda i: lnot(m.uf('eq_ret', add(e0, i), sort='bool')))(m.chan('eq').count)
            new = lambda i: m.uf('key_mut0', add(c0, simp(2 * lit(i))))
            prev = lambda i: m.uf('key_mut0', add(c0, simp(2 * lit(i) + 1)))
        elif kind == 'by':
            kept = lambda i: lnot(m.uf('same_ret', add(c0, i), sort='bool'))
            new = lambda i: m.uf('same_mut0', add(c0, i))
            prev = lambda i: m.uf('same_mut1', add(c0, i))
        else:
            kept = lambda i: lnot(m.uf('eq_ret', add(c0, i), sort='bool'))
            new = prev = None
        if kind == 'eq':
            # nothing is changed by comparing
            at = lambda x: ite(eq(x, 0), b0.mem(0), b0.mem(add(sel(sub(x, 1)), 1)))
            last = lambda i: at(kc(i))
            done = at
        else:
            last = lambda i: ite(eq(i, 0), b0.mem(0), ite(kept(sub(i, 1)), new(sub(i, 1)), prev(sub(i, 1))))
            done = lambda x: prev(sel(x))
        own = lambda i: land(le(0, IX), lt(IX, n))
        rest = lambda i: ite(lt(i, IX), b0.mem(IX), m.uf('rejected', i, IX))
        mem = lambda i: ite(lt(IX, kc(i)), done(IX), ite(eq(IX, kc(i)), last(i), rest(i)))
        el, pv = b0.mem(add(JX, 1)), last(JX)
        if m.zst:
            args_ = (ZST_T,) if kind == 'key' else (ZST_T, ZST_T)
        elif kind == 'key':
            h = simp(lit(JX) / 2)
            args_ = (ite(eq(simp(lit(JX) % 2), 0), b0.mem(add(h, 1)), last(h)),)
        else:
            args_ = (el, pv)
        f = Keep(m, chan, buf, kept, own, mem, args_, per=per)
        f.care = lambda i: lor(le(IX, kc(i)), lt(i, IX))
        f.n = n
        if kind == 'key':
            f.with_others(m, {'eq': (m.uf('key_ret', add(c0, simp(2 * lit(JX)))), m.uf('key_ret', add(c0, simp(2 * lit(JX) + 1))))})
        return f
    return mk


def sp_dedup(kind):
    def sp(x, r, *a):
        m = x.m
        v = x.vec(r)
        fam = x.family
        n = v.len
        if not x.branch(lt(1, n)):
            return UNITV
        i = sub(n, 1)
        m.prove(eq(x.ochan(fam.chan).count, add(fam.c0, simp(lit(fam.per) * lit(i)))), 'post: the relation is called once for each element after the first')
        fam.define(m, i)
        m.chans[fam.chan] = fam.calls(i)
        for c in fam.others:
            m.chans[c] = fam.other(c, m, i)
        if not m.zst:
            m.bufs[fam.buf] = fam.state(m.bufs[fam.buf], i)
        k = add(kc(i), 1)
        v.len = k
        v.drop_range(k, sub(n, k))
        return UNITV
    return sp


case(GV + 'dedup_by', lambda w: [w.vec(), w.fn('same', 'bool', mut=True)], sp_dedup('by'), env={'F': FLT}, opts=dict(family=dedup_family('by')))
case(GV + 'dedup_by_key', lambda w: [w.vec(), w.fn('key', 'K', mut=True)], sp_dedup('key'), env={'F': FLT}, opts=dict(family=dedup_family('key')))
case(GV + 'dedup', lambda w: [w.vec()], sp_dedup('eq'), env={'F': FLT}, opts=dict(family=dedup_family('eq')))
