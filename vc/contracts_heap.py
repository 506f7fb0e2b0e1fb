"""P17: the growable storage.  Memory blocks are objects of their own with size, alignment, allocator and liveness."""
import z3
from core import *
from spec import *
import builtin_specs as B
from contracts import case, CASES, USE, SZ, SZC, GV, T, S
from contracts_raw import *

ENV = {'T': T, 'U': U, 'A': A_}
HKW = dict(modes=ONE, ex=SYM, env=ENV, alloc=True)


def hf(w, f):
    """field numbers of Heap"""
    g, fs = w.mod.structs['Heap']
    kinds = {'capacity': lambda t: t == USIZE, 'ptr': lambda t: t[0] == 'adt' and t[1] == 'NonNull' or t[0] == 'ptr',
             'allocator': lambda t: t == ('adt', 'A', ())}
    return fidx(w.mod, 'Heap', f, kinds[f])


def has_alloc(w):
    return any(t == ('adt', 'A', ()) for _, t in w.mod.structs['Heap'][1])


def size_limit(x):
    """the largest size a layout aligned for T may have"""
    return sub(IMAX, sub(alof(x, T), 1))


def heap_val(w):
    """an arbitrary heap storage satisfying the invariant"""
    m = w.m
    x = X(w.i, m, w, None, 'check')
    sz, al = szof(x, T), alof(x, T)
    cap = w.int('cap')
    who = 'alloc' if has_alloc(w) else 'global'
    p = None
    if not m.branch(eq(sz, 0), 'zero-sized') and not m.branch(eq(cap, 0), 'no memory'):
        bytes_ = m.mul(cap, sz)
        m.assume(le(bytes_, size_limit(x)))
        p = B.new_block(w.i, m, bytes_, al, who)
        m.cells[p.cell] = m.cells[p.cell].with_field('content', Atom('the elements'))
    else:
        p = IP(w.int('dangling', 1, IMAX))
    f = {hf(w, 'capacity'): cap, hf(w, 'ptr'): p}
    if has_alloc(w):
        f[hf(w, 'allocator')] = Atom('alloc')
    return Agg(('adt', 'Heap', (T, A_) if has_alloc(w) else (T,)), None, f)


def heap(w):
    return Ref(w.m.new_cell(heap_val(w)))


def hcap(x, h):
    return h.f[hf(x, 'capacity')]


def hptr(x, h):
    return h.f[hf(x, 'ptr')]


def room(x, h):
    """bytes of memory"""
    return x.m.mul(hcap(x, h), szof(x, T))


def is_block(st, p):
    v = st[0].get(p.cell) if isinstance(p, Ref) and not p.path else None
    return v if isinstance(v, Agg) and v.ty and v.ty[1] == '#block' else None


def prove_inv(x, h, what='post: '):
    """the recorded capacity is that of the one live allocation (none when empty or zero-sized)"""
    m = x.m
    o = x.oracle
    cap, p = hcap(x, h), hptr(x, h)
    b = is_block(o, p)
    sz = szof(x, T)
    if b is None:
        m.prove(isinstance(p, IP) and lnot(eq(p.a, 0)), what + 'the pointer is not null')
        m.prove(lor(eq(sz, 0), eq(cap, 0)), what + 'capacity needs an allocation')
    else:
        m.prove(b.f['live'], what + 'the allocation is live')
        m.prove(lnot(eq(sz, 0)), what + 'nothing is allocated for zero-sized elements')
        m.prove(eq(b.f['size'], m.mul(cap, sz)), what + 'the recorded capacity is that of the allocation')
        m.prove(lt(0, cap), what + 'an allocation has capacity')
        m.prove(eq(b.f['align'], alof(x, T)), what + 'the allocation is aligned for its elements')
    for c, v in o[0].items():
        if isinstance(v, Agg) and v.ty and v.ty[1] == '#block' and not (isinstance(p, Ref) and c == p.cell) and c >= x.base_cell:
            m.prove(not v.f['live'], what + 'no other allocation is left')


def prove_kept(x, b, old, n):
    """the first n bytes of block b are those of the old block"""
    m = x.m
    k = b.f['content']
    while isinstance(k, Agg) and k.ty[1] == '#old':
        m.prove(le(n, k.f['n']), 'post: the contents are preserved')
        p = k.f['of']
        if isinstance(p, Ref) and p.cell == old.cell:
            return
        k = x.oracle[0][p.cell].f['content']
    m.prove(False, 'post: the contents are preserved')


def alloc_failed(x):
    """some allocation of the body failed"""
    m = x.m
    n = (x.oracle[2].get('alloc') or Chan()).count
    n0 = m.chan('alloc').count
    if isz(n) or isz(n0):
        raise Unsupported('allocations in a loop')
    return lor(*[m.uf('allocfail', i, sort='bool') for i in range(n0, n)])


def adopt(x, s):
    """the state of the heap storage after growing is the body's (whose freedom the obligations bound)"""
    m = x.m
    for c, v in x.oracle[0].items():
        if isinstance(v, Agg) and v.ty and v.ty[1] == '#block':
            m.cells[c] = v
    if s is not None:
        m.set(s, x.oracle[0][s.cell] if not s.path else None)


def sp_heap_room(x, s, n):
    """make room for n elements of type U; False when refused"""
    m = x.m
    h = m.get(s)
    su, st = szof(x, U), szof(x, T)
    need = m.mul(n, su)
    if x.branch(lor(eq(su, 0), le(need, room(x, h)))):
        return True
    done = x.out[0] == 'ret' and x.out[1] is not False
    if x.out[0] == 'ret' and isz(x.out[1]):
        done = x.branch(x.out[1])
    h2 = x.oracle[0][s.cell]
    if not done:
        lim = size_limit(x)
        m.prove(lor(eq(st, 0), alloc_failed(x), lt(lim, add(need, st)), lt(lim, m.mul(2, room(x, h))), lt(lim, m.mul(4, st))),
                'post: growth is refused only when it is impossible')
        for c, v in x.oracle[0].items():
            if c >= x.base_cell and isinstance(v, Agg) and v.ty and v.ty[1] == '#block':
                m.prove(not v.f['live'], 'post: a failed growth leaves no allocation behind')
        return False
    prove_inv(x, h2)
    m.prove(le(need, room(x, h2)), 'post: at least the requested capacity')
    old, new = hptr(x, h), hptr(x, h2)
    if isinstance(old, Ref) and new != old:
        prove_kept(x, x.oracle[0][new.cell], old, room(x, h))
        m.prove(not x.oracle[0][old.cell].f['live'], 'post: the old allocation is given back')
    adopt(x, s)
    return True


def sp_heap_reserve(x, s, n):
    if not sp_heap_room(x, s, n):
        x.panic()
    return UNITV


def sp_heap_cap(x, s):
    r = result(x)
    prove_floor(x, r, room(x, x.m.get(s)), szof(x, U))
    return r


case('Storage for Heap::capacity', lambda w: [heap(w)], sp_heap_cap, **HKW)
case('Storage for Heap::as_ptr', lambda w: [heap(w)], lambda x, s: hptr(x, x.m.get(s)), **HKW)
case('Storage for Heap::as_mut_ptr', lambda w: [heap(w)], lambda x, s: hptr(x, x.m.get(s)), **HKW)
case('Storage for Heap::reserve', lambda w: [heap(w), w.int('n')], sp_heap_reserve, **HKW)
case('Storage for Heap::try_reserve', lambda w: [heap(w), w.int('n')], sp_heap_room, **HKW)


def sp_heap_wc(x, n):
    m = x.m
    su, st = szof(x, U), szof(x, T)
    need = m.mul(n, su)
    if x.out[0] != 'ret':
        lim = size_limit(x)
        m.prove(lnot(lor(eq(su, 0), eq(n, 0))), 'post: an empty request succeeds')
        m.prove(lor(eq(st, 0), alloc_failed(x), lt(lim, add(need, st))), 'post: a request is refused only when it is impossible')
        for c, v in x.oracle[0].items():
            if c >= x.base_cell and isinstance(v, Agg) and v.ty and v.ty[1] == '#block':
                m.prove(not v.f['live'], 'post: a refused request leaves no allocation behind')
        x.panic()
    h = x.out[1]
    prove_inv(x, h)
    m.prove(lor(eq(su, 0), le(need, room(x, h))), 'post: at least the requested capacity')
    adopt(x, None)
    return h


case('StorageWithCapacity for Heap::with_capacity', lambda w: [w.int('n')], sp_heap_wc, **HKW)


def sp_heap_new(x, *a):
    h = result(x)
    prove_inv(x, h)
    m = x.m
    for c, v in x.oracle[0].items():
        m.prove(not (c >= x.base_cell and isinstance(v, Agg) and v.ty and v.ty[1] == '#block'), 'post: nothing is allocated')
    return h


case('Heap::new', lambda w: [], sp_heap_new, **HKW)
case('Default for Heap::default', lambda w: [], sp_heap_new, **HKW)
case('Heap::with_alloc', lambda w: [Atom('alloc')], sp_heap_new, nightly=True, **HKW)


def sp_heap_raw(with_alloc):
    def sp(x, h):
        xs = [hptr(x, h), hcap(x, h)]
        if with_alloc:
            xs.append(h.f[hf(x, 'allocator')])
        return tup(*xs)
    return sp


def sp_heap_from_raw(x, p, cap, a=None):
    f = {hf(x, 'capacity'): cap, hf(x, 'ptr'): p}
    if has_alloc(x):
        f[hf(x, 'allocator')] = a if a is not None else Atom('any')
    return Agg(('adt', 'Heap', ()), None, f)


def raw_parts(w, alloc=False):
    h = heap_val(w)
    xs = [hptr(w, h), hcap(w, h)]
    if alloc:
        xs.append(Atom('alloc'))
    return xs


case('Heap::into_raw_parts', lambda w: [heap_val(w)], sp_heap_raw(False), **HKW)
case('Heap::into_raw_parts_with_alloc', lambda w: [heap_val(w)], sp_heap_raw(True), nightly=True, **HKW)
case('Heap::from_raw_parts', raw_parts, sp_heap_from_raw, **HKW)
case('Heap::from_raw_parts_in', lambda w: raw_parts(w, True), sp_heap_from_raw, nightly=True, **HKW)


def sp_heap_drop(x, s):
    """the one allocation is freed exactly once"""
    m = x.m
    h = m.get(s)
    p = hptr(x, h)
    if isinstance(p, Ref):
        m.cells[p.cell] = m.cells[p.cell].with_field('live', False)
    return UNITV


case('Drop for Heap::drop', lambda w: [heap(w)], sp_heap_drop, **HKW)
