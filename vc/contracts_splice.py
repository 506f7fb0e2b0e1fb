"""P09: splicing."""
import z3
from core import *
from spec import *
import builtin_specs as B
import loops
from families import Chunks
from contracts import case, CASES, USE, SZ, SZC, GV, T, S, vlen, vcap, pre
from contracts_iter import *

ITER = ('adt', 'I', ())


def splice_live(w):
    w.env['I'] = ITER
    return [mk_cursor(w, 'Splice', fin=False, extra=lambda n: w.iter('iter'))]


case('Iterator for Splice::next', splice_live, sp_take(st_take_front))
case('DoubleEndedIterator for Splice::next_back', splice_live, sp_take(st_take_back))
case('Iterator for Splice::size_hint', splice_live, step(sp_exact_hint))


def sp_splice_drop(x, r):
    """the rest of the range is dropped, then every item of the iterator takes its place, in order"""
    m = x.m
    c = RC(x, r)
    drop_rest(x, c)
    ch = m.chan('iter')
    n = sub(sub(x.ochan('iter').count, ch.count), 1)
    m.prove(le(0, n), 'post: the iterator is exhausted')
    i = m.fresh('sk_item')
    m.instantiate_at(i)
    some_ = lambda k: m.uf('iter_some', add(ch.count, k), sort='bool')
    m.prove(implies(land(le(0, i), lt(i, n)), some_(i)), 'post: items are inserted until the iterator ends')
    m.prove(lnot(some_(n)), 'post: every item is inserted')
    m.chans['iter'] = ch.seg(n, ()).entry(())
    t = ZST_T if m.zst else lit(m.uf('iter_ret', add(ch.count, JX)))
    back = sub(c.O, c.wb)
    cap0, ep0 = c.v.cap, m.bufs[c.v.buf].epoch
    total = add(add(c.wf, n), back)
    wf = c.wf
    vb = c.v.buf
    # the storage may have been asked for more room
    x.adopt_cap(c.v)
    if not m.zst:
        m.prove(le(total, c.v.cap), 'post: length within capacity')
    # close the gap exactly around the items
    c.fin = True
    c.v.move(c.wb, add(wf, n), back)
    if m.zst:
        m.pool = add(m.pool, n)
    else:
        c.v.write_seg(wf, n, t)
    e = total if m.zst else add(wf, n)
    for f in ('rf', 'rb', 'wb', 'wf'):
        setattr(c, f, wf)
    c.v.len = total
    return UNITV


def chunks(w, m, args):
    cur, vec = w.cursors[0]
    return Chunks('iter', vec, cur, w.cursor_names, w.f('len'), w.f('storage'))


case('Drop for Splice::drop', splice_live, sp_splice_drop, opts=dict(glue=True, family=chunks, fallback=True, weak_panic=True), name='drop of Splice', leak_ok=True)
