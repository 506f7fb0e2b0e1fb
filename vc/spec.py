"""Contracts as executable specifications, and the procedure that checks a function body against its contract.

A contract is a small program over the same machine as the code: it describes, for every pre-state, the outcome (result or panic),
the post-state of everything the caller can see, the calls made to user code and the number of destructor runs.  *Checking*: the
body is executed symbolically from an arbitrary pre-state satisfying the precondition, then the contract is executed from the same
pre-state, and every observable must be provably equal.  *Using*: at a call site the contract is executed instead of the body."""
import z3
from core import *
import builtin_specs as B
from exec import Interp, contract_key, needs_drop
import loops
import ownership

T = ('adt', 'T', ())
S = ('adt', 'S', ())
BB = ('adt', 'B', ())
USIZE = ('adt', 'usize', ())


class Case:
    """one function with its contract.
    key: contract_key of the function; setup(w) -> arguments; spec(x, *args) -> result
    weak: on unwinding out of user code only validity + conservation are required (the spec is not run)"""

    def __init__(self, key, setup, spec, modes=('sized', 'zst'), exact=False, prefix=False, name=None, env=None, opts=None,
                 nightly=None, leak_ok=False, alloc=None, pick=None, unwind_hook=None, ex=None, multi=False):
        self.key, self.setup, self.spec, self.modes, self.exact, self.prefix = key, setup, spec, modes, exact, prefix
        self.name = name or key
        self.env = env or {}
        self.opts = opts or {}
        self.nightly = nightly
        self.alloc = alloc
        self.leak_ok = leak_ok
        self.pick = pick
        self.multi = multi          # every function of that name (e.g. macro-generated impls), one after the other
        self.unwind_hook = unwind_hook
        self.ex = ex or {}


def find_fn(interp, case):
    key = case.key.split('#')[0]
    fns = interp.module.funcs
    if key.startswith('const '):
        key, fns = key[6:], interp.module.consts
    fs = [f for f in fns if contract_key(f) == key]
    if case.pick:
        fs = [f for f in fs if case.pick(f)]
    return fs


def fidx(mod, struct, field, ty=None):
    g, fs = mod.structs[struct]
    for i, (n, t) in enumerate(fs):
        if n == field:
            return i
    if ty is not None:
        c = [i for i, (n, t) in enumerate(fs) if ty(t)]
        if len(c) == 1:
            return c[0]
    raise Unsupported('lost anchor: field %s of %s' % (field, struct))


class World:
    """builds the arbitrary pre-state"""

    def __init__(self, interp, m):
        self.i, self.m = interp, m
        self.mod = interp.module
        self.handles = {}
        self.vecs = []          # (cell, path) of vectors reachable by the caller
        self.args_live = 0      # elements passed by value
        self.regions = []
        self.counts = []        # extra functions giving the number of live elements of other structures
        self.cursors = []
        self.env = {'T': T, 'S': S}

    def f(self, field):
        ty = {'len': lambda t: t == USIZE, 'storage': lambda t: t == S,
              'mark': lambda t: t[0] == 'adt' and t[1] == 'PhantomData'}[field]
        return fidx(self.mod, 'GenericVec', field, ty)

    def int(self, name, lo=0, hi=MAX):
        x = z3.Int(name)
        self.m.assume(land(le(lo, x), le(x, hi)))
        return x

    def new_sa(self, name, sty='S', L=None, own=None):
        m = self.m
        cap = self.int(name + '_cap', 0, MAX if m.zst else IMAX)
        mem0 = z3.Function(name + '_mem', z3.IntSort(), z3.IntSort())(IX)
        if own is None:
            own = z3.And(IX >= 0, IX < lit(L))
        b = m.new_buf(Buf(own, mem0, cap, epoch=0, kind='storage:' + sty))
        return SA(b), cap

    def vec_val(self, name='v', sty='S', L=None, track=True):
        m = self.m
        if L is None:
            L = self.int(name + '_len', 0, IMAX)
        sa, cap = self.new_sa(name, sty, L)
        if m.zst:
            m.pool = add(m.pool, L)
        else:
            m.assume(le(L, cap))
        st = ('adt', sty, ())
        return Agg(('adt', 'GenericVec', (T, st)), None,
                   {self.f('mark'): UNITV, self.f('len'): L, self.f('storage'): sa})

    def vec(self, name='v', sty='S', L=None):
        v = self.vec_val(name, sty, L)
        c = self.m.new_cell(v)
        self.vecs.append(Ref(c))
        return Ref(c)

    def elem(self, name='x'):
        self.args_live = add(self.args_live, 1)
        if self.m.zst:
            return EV(ZST_T)      # an element held in a value is not in the pool
        return EV(z3.Int(name))

    def array(self, name='arr'):
        n = self.N()
        self.args_live = add(self.args_live, n)
        if self.m.zst:
            return ArrVal(ZST_T, n)
        return ArrVal(z3.Function(name, z3.IntSort(), z3.IntSort())(IX), n)

    def N(self):
        n = z3.Int('N')
        self.env['N'] = ('cterm', n)
        self.m.assume(land(le(0, n), le(n, MAX if self.m.zst else IMAX)))
        return n

    def slice(self, name='s'):
        """&[T] outside every vector (the caller owns it)"""
        m = self.m
        n = self.int(name + '_n', 0, IMAX)
        b = m.new_buf(Buf(z3.And(IX >= 0, IX < n), z3.Function(name + '_mem', z3.IntSort(), z3.IntSort())(IX), n, kind='extern'))
        if m.zst:
            m.pool = add(m.pool, n)
            self.counts.append(lambda m: n)
        return SP(EP(b, 0, 0), n)

    def fn(self, chan, ret, mut=False):
        return Abs('fn', chan, {'ret': ret, 'mut': mut})

    def iter(self, chan='iter', byref=False):
        return Abs('iter', chan, 'ref' if byref else None)


class X:
    """what specifications are written with"""

    def __init__(self, interp, m, world, oracle, mode):
        self.i, self.m, self.w, self.oracle, self.mode = interp, m, world, oracle, mode
        self.owned = []

    def own(self, args):
        self.owned = [a for a in args if isinstance(a, (EV, ArrVal)) or isinstance(a, Agg) and a.ty[1] == 'GenericVec']

    def consume(self, v):
        self.owned = [a for a in self.owned if a is not v]

    def f(self, field):
        return World.f(self, field)

    @property
    def mod(self):
        return self.i.module

    @property
    def zst(self):
        return self.m.zst

    def panic(self, tag='panic'):
        """the values passed in are dropped while unwinding"""
        owned, self.owned = self.owned, []
        if owned and not self.m.copy:
            keep, self.m.unwinding = self.m.unwinding, tag
            for a in owned:
                self.drop(a)
            self.m.unwinding = keep
        self.i.panic(self.m, tag)

    def branch(self, c):
        return self.m.branch(c, 'spec')

    def require(self, c, what):
        """precondition: assumed when the body is checked, proved at call sites"""
        if self.mode == 'check':
            self.m.assume(c)
        else:
            self.m.prove(c, 'precondition: ' + what)

    # vectors
    def vec(self, r):
        return VV(self, r)

    def grown(self, vv, additional):
        """make room for `additional` more elements; False if that is refused"""
        m = self.m
        if self.branch(le(additional, sub(vv.cap, vv.len))):
            return True
        if self.zst:
            return False
        need = add(vv.len, additional)
        if not self.branch(le(need, MAX)):
            return False
        return self.ask(vv.buf, need)

    def ask(self, buf, need):
        """the storage is asked for capacity `need` (which it does not have)"""
        m = self.m
        b = m.bufs[buf]
        if self.mode == 'check':
            evs = [e for e in self.oracle[8] if e[0] == 'reserve' and e[1] == buf and e[3] is False]
            nm = b.kind[-1]
            if evs:
                m.prove(lor(*[le(e[2], need) for e in evs]), 'post: the storage is asked for no more than is needed')
                return False
            if b.kind in ('storage:S', 'storage:B'):
                if self.branch(z3.Bool(nm + '_const')):
                    if self.branch(lt(z3.Int(nm + '_const_cap'), need)):
                        return False
            nb = self.oracle[1][buf]
            m.prove(le(need, nb.cap), 'post: capacity reserved')
            m.bufs[buf] = b.upd(cap=nb.cap, epoch=nb.epoch)
            return True
        return B.ask(self.i, m, [SA(buf), need])

    def grow(self, vv, additional):
        if not self.grown(vv, additional):
            self.panic('reserve')

    # user code
    def clone(self, p):
        if self.m.copy:
            return EV(self.m.e_peek(p))
        return B.clone_elem(self.i, self.m, p)

    def call(self, f, *args):
        return self.i.call_value(self.m, f, list(args))

    def loop(self, key, step):
        return loops.accelerate(self.i, self.m, ('spec', key), step, None)

    # the outcome of the body (existential witnesses of the contract are taken from it)
    @property
    def refused(self):
        return self.out[0] == 'unwind' and self.out[1] in OWN_PANIC

    def ochan(self, name):
        return self.oracle[2].get(name) or Chan()

    def new_vec(self, need, sty='S', who=None):
        """a new vector whose storage was asked for room for `need` elements"""
        m = self.m
        if self.mode == 'check':
            if self.refused and not self.born():
                evs = [e for e in self.oracle[8] if e[0] == 'with_capacity' and e[3] is False]
                m.prove(lor(*[le(e[2], need) for e in evs]), 'post: the storage is asked for no more than is needed')
                self.panic('reserve')
            cap = m.fresh('newcap', 0, MAX)
            if not m.zst:
                m.assume(land(le(need, cap), le(cap, IMAX)))
            sa = SA(B.new_storage(self.i, m, sty, cap))
        else:
            class I: pass
            i = I()
            setattr(i, 'self', ('adt', sty, ()))
            sa = B.abs_with_capacity(self.i, m, [need], i)
        v = Agg(('adt', 'GenericVec', (T, ('adt', sty, ()))), None, {self.f('mark'): UNITV, self.f('len'): 0, self.f('storage'): sa})
        c = m.new_cell(v)
        return Ref(c)

    def born(self):
        """did the body obtain a new storage before it was refused?"""
        return any(b >= self.base_buf and x.kind.startswith('storage') for b, x in self.oracle[1].items())

    def newborn(self):
        """the only storage the body created"""
        bs = [y for b, y in self.oracle[1].items() if b >= self.base_buf and y.kind.startswith('storage')]
        if len(bs) != 1:
            self.m.prove(False, 'post: one new storage is created')
            raise PathEnd()
        return bs[0]

    def take(self, r):
        """move a value out of a cell of the contract"""
        return self.m.cells.pop(r.cell)

    def adopt_cap(self, vv, buf=None):
        """the capacity after an operation whose requests depend on hints is the body's"""
        nb = self.oracle[1].get(vv.buf)
        if nb is None:
            return
        m = self.m
        m.bufs[vv.buf] = m.bufs[vv.buf].upd(cap=nb.cap, epoch=nb.epoch)

    def clones(self, n, t):
        """n clones, of the values t (over JX); the results (over JX)"""
        m = self.m
        if m.copy:
            return t
        c = m.chan('clone')
        m.chans['clone'] = c.seg(n, (t,))
        return ZST_T if m.zst else lit(m.uf('clone_ret', add(c.count, JX)))

    def drop(self, v):
        if isinstance(v, Agg) and v.ty and v.ty[0] == 'adt' and v.ty[1] == 'GenericVec':
            sa = v.f[self.f('storage')]
            if isinstance(sa, SA):
                b = self.m.bufs[sa.buf]
                pend = None
                try:
                    self.m.e_drop_n(EP(sa.buf, b.epoch, 0), v.f[self.f('len')], 'contract')
                except Unwind as e:
                    pend = e
                B.drop_storage(self.i, self.m, sa)
                if pend:
                    raise pend
                return
        c = self.m.new_cell(v)
        try:
            self.i.drop_val_at(self.m, Ref(c), v, ('infer',))
        finally:
            self.m.cells.pop(c, None)


class VV:
    """a GenericVec seen through its contract: length, capacity, elements"""

    def __init__(self, x, r):
        self.x, self.r = x, r
        m = x.m
        v = m.get(r)
        if not (isinstance(v, Agg) and v.ty[1] == 'GenericVec'):
            raise Unsupported('vector %r' % (v,))
        sa = v.f[x.f('storage')]
        if not isinstance(sa, SA):
            raise Unsupported('storage %r' % (sa,))
        self.buf = sa.buf

    @property
    def len(self):
        return self.x.m.get(self.r).f[self.x.f('len')]

    @len.setter
    def len(self, n):
        m = self.x.m
        m.set(self.r, m.get(self.r).with_field(self.x.f('len'), n))

    @property
    def cap(self):
        return IMAX if self.x.zst else self.x.m.bufs[self.buf].cap

    def at(self, i):
        return EP(self.buf, self.x.m.bufs[self.buf].epoch, i if not self.x.zst else 0)

    def arr(self, i, n):
        return EP(self.buf, self.x.m.bufs[self.buf].epoch, i if not self.x.zst else 0, n)

    def sl(self, i, n):
        return SP(self.at(i), n)

    def move(self, src, dst, n):
        """elements [src,src+n) move to [dst,dst+n)"""
        self.x.m.e_copy(self.at(src), self.at(dst), n, 'contract')

    def write_seg(self, i, n, t):
        """n values (term over JX) at i"""
        self.x.m.e_write_arr(self.at(i), ArrVal(sbst(lit(t), (JX, IX)), n), 'contract')

    def write(self, i, v):
        self.x.m.e_write(self.at(i), v, 'contract')

    def update(self, i, n, t):
        """user code changes the n elements at i in place (new values over JX)"""
        m = self.x.m
        m.bufs[self.buf] = m.bufs[self.buf].op('wseg', i, n, t)

    def read(self, i):
        return self.x.m.e_read(self.at(i), 'contract')

    def read_arr(self, i, n):
        return self.x.m.e_read_arr(self.at(i), n, 'contract')

    def drop_range(self, i, n):
        self.x.m.e_drop_n(self.at(i), n, 'contract')


class Contract:
    """use of a contract at a call site"""

    def __init__(self, case, spec=None):
        self.case = case

    def applies(self, interp, m, fn, args, env):
        mode = 'zst' if m.zst else 'copy' if m.copy else 'sized'
        if mode not in self.case.modes or any(isinstance(a, Ref) and not self.abstract(m, a) for a in args[:1]):
            return False
        f = self.case.opts.get('applies')
        if f and not f(interp, m, fn, args, env):
            return False
        return self.assumed(interp, m, args)

    def abstract(self, m, r):
        """the vector's storage is the abstract one"""
        try:
            v = m.get(r)
            for _ in range(3):
                if not isinstance(v, Agg):
                    return False
                if any(isinstance(x, SA) for x in v.f.values()):
                    return True
                if v.ty and v.ty[1] == 'RawCursor':
                    rs = [x for x in v.f.values() if isinstance(x, Ref)]
                else:
                    rs = [x for x in v.f.values() if isinstance(x, Agg) and x.ty and x.ty[0] == 'adt' and x.ty[1] == 'RawCursor']
                if len(rs) != 1:
                    return False
                v = m.get(rs[0]) if isinstance(rs[0], Ref) else rs[0]
        except Unsupported:
            return False
        return False

    def generate(self, interp, m, args, env):
        x = X(interp, m, None, None, 'use')
        x.env = env
        x.own(args)
        return self.case.spec(x, *args)

    def assumed(self, interp, m, args):
        """what the contract's own verification assumed of the vector or cursor holds here (otherwise the body is used instead)"""
        if m.guess:
            return True
        key = self.case.key
        x = X(interp, m, None, None, 'use')
        if (key.startswith('GenericVec::') or key == 'RawCursor::new') and isinstance(args[0], Ref):
            v = x.vec(args[0])
            if not m.known(le(v.len, v.cap)):
                return False
            if m.zst or m.copy or key.endswith('reserve'):
                return True
            i = m.fresh('sk_vec')
            return m.known(eq(m.bufs[v.buf].own(i), land(le(0, i), lt(i, v.len))))
        if 'RawCursor' in key and isinstance(args[0], Ref):
            from contracts_iter import RC
            return RC(x, args[0]).assumed()
        return True


# ------------------------------------------------------------------ comparing outcomes
class Cmp:
    def __init__(self, m, A, Bs):
        self.m, self.A, self.B = m, A, Bs
        self.cells, self.bufs = {}, {}
        self.todo = []

    def prove(self, f, what):
        self.m.prove(f, 'post: ' + what)

    def mismatch(self, what, a, b):
        if isinstance(a, Atom) and a.s == 'poison' or isinstance(b, Atom) and b.s == 'poison':
            raise Unsupported('untracked value compared')
        self.m.trace.append(('%s: %r / %r' % (what, a, b), 'mismatch'))
        self.prove(False, what)
        raise PathEnd()

    def val(self, a, b, what):
        if a is b:
            return
        if isinstance(a, dict) or isinstance(b, dict):
            return
        if loops.scalar(a) and loops.scalar(b):
            if loops.isbool(a) != loops.isbool(b):
                return self.mismatch(what, a, b)
            return self.prove(eq(a, b), what)
        if isinstance(b, Agg) and isinstance(a, Agg):
            if b.ty and b.ty[0] == 'adt' and b.ty[1] == 'PhantomData':
                return
            if b.ty and b.ty[0] == 'adt' and b.ty[1] == 'GenericVec' and not self.m.zst:
                sa, L = a.f.get(self.fst), a.f.get(self.flen)
                if isinstance(sa, SA) and loops.scalar(L):
                    self.prove(land(le(0, L), le(L, self.A[1][sa.buf].cap)), what + ': length within capacity')
            if not loops.scalar(a.variant) or not loops.scalar(b.variant):
                if a.variant != b.variant:
                    return self.mismatch(what, a, b)
            else:
                self.prove(eq(a.variant, b.variant), what + ': variant')
            ka = {k for k in a.f if k != '#env'}
            kb = {k for k in b.f if k != '#env'}
            for k in sorted(ka & kb, key=str):
                self.val(a.f[k], b.f[k], '%s.%s' % (what, k))
            if ka != kb and not (a.ty and a.ty[0] == 'adt' and a.ty[1] in ('Option', 'Result')):
                extra = [x for k in (ka ^ kb) for x in [a.f.get(k, b.f.get(k))] if not unit(x)]
                if extra:
                    return self.mismatch(what + ': fields', a, b)
            return
        if unit(a) and unit(b):
            return
        if isinstance(a, EV) and isinstance(b, EV):
            return self.prove(eq(a.t, b.t), what + ': value') if not self.m.zst else None
        if isinstance(a, RefAbs) and isinstance(b, RefAbs):
            return self.prove(eq(a.t, b.t), what + ': value') if not self.m.zst else None
        if isinstance(a, ArrVal) and isinstance(b, ArrVal):
            self.prove(eq(a.n, b.n), what + ': length')
            if self.m.zst:
                return
            i = self.m.fresh('sk_arr')
            return self.prove(implies(land(le(0, i), lt(i, a.n)), eq(sbst(a.t, (IX, i)), sbst(b.t, (IX, i)))), what + ': values')
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.path != b.path:
                return self.mismatch(what, a, b)
            return self.cell(a.cell, b.cell, what)
        if isinstance(a, EP) and isinstance(b, EP):
            if not self.buf(a.buf, b.buf, what):
                return
            if (a.n is None) != (b.n is None):
                return self.mismatch(what, a, b)
            if a.n is not None:
                self.prove(eq(a.n, b.n), what + ': array length')
            if self.m.zst:
                return
            return self.prove(land(eq(a.off, b.off), eq(a.epoch, b.epoch)), what + ': address')
        if isinstance(a, SP) and isinstance(b, SP):
            self.prove(eq(a.n, b.n), what + ': slice length')
            if type(a.p) is not type(b.p):
                # an empty slice may point anywhere
                return self.prove(eq(b.n, 0), what + ': address') if not self.m.zst else None
            if isinstance(a.p, EP) and a.p.buf != b.p.buf and self.bufs.get(a.p.buf, b.p.buf) != b.p.buf:
                return self.prove(eq(b.n, 0), what + ': address')
            return self.val(a.p, b.p, what)
        if isinstance(a, IP) and isinstance(b, IP):
            return self.prove(eq(a.a, b.a), what + ': address')
        if self.m.zst and isinstance(a, IP) and isinstance(b, EP) and b.n is None:
            # a reference to a zero-sized value may point anywhere but must not be null
            return self.prove(lnot(eq(a.a, 0)), what + ': reference is not null')
        if isinstance(a, SA) and isinstance(b, SA):
            self.buf(a.buf, b.buf, what)
            return
        if isinstance(a, Abs) and isinstance(b, Abs):
            if a.chan != b.chan:
                return self.mismatch(what, a, b)
            return
        if isinstance(a, Atom) and isinstance(b, Atom):
            if a.s == b.s or b.s == 'any':
                return
        if isinstance(b, Atom) and b.s == 'any':
            return
        return self.mismatch(what, a, b)

    def cell(self, a, b, what):
        if a in self.cells:
            if self.cells[a] != b:
                self.mismatch(what + ': reference target', a, b)
            return
        if (a < self.base_cell or b < self.base_cell) and a != b:
            return self.mismatch(what + ': reference target', a, b)
        self.cells[a] = b
        self.val(self.A[0].get(a, UNINIT), self.B[0].get(b, UNINIT), what)

    def buf(self, a, b, what):
        if a in self.bufs:
            if self.bufs[a] != b:
                self.mismatch(what + ': storage', a, b)
                return False
            return True
        if (a < self.base_buf or b < self.base_buf) and a != b:
            self.mismatch(what + ': storage', a, b)
            return False
        self.bufs[a] = b
        self.todo.append((a, b, what))
        return True

    def buffers(self):
        m = self.m
        for a, b, what in self.todo:
            x, y = self.A[1][a], self.B[1][b]
            self.prove(bool(x.freed) == bool(y.freed), what + ': storage released')
            if x.freed:
                if not m.copy and not m.zst:
                    i = m.fresh('sk_freed')
                    self.prove(lnot(x.own(i)), what + ': no element lost with its storage')
                continue
            if m.zst:
                continue
            if a < self.base_buf:
                self.prove(eq(x.cap, y.cap), what + ': capacity')
                self.prove(eq(x.epoch, y.epoch), what + ': memory not moved')
            i = m.fresh('sk_el')
            ox, oy = x.own(i), y.own(i)
            if not m.copy:
                self.prove(eq(ox, oy), what + ': initialised exactly where it must be')
                self.prove(implies(oy, eq(x.mem(i), y.mem(i))), what + ': elements')
            else:
                self.prove(implies(oy, land(ox, eq(x.mem(i), y.mem(i)))), what + ': elements')
        matched = set(self.bufs)
        for a, x in self.A[1].items():
            if a in matched or x.kind in ('extern', 'inline'):
                continue
            if x.kind == 'inline':
                continue
            if a >= self.base_buf:
                self.prove(bool(x.freed), 'temporary storage released')
            if not m.zst and not m.copy:
                i = m.fresh('sk_tmp')
                self.prove(lnot(x.own(i)), 'no element left in temporary storage')

    def channels(self, weak=()):
        m = self.m
        for n in sorted(set(self.A[2]) | set(self.B[2])):
            if n == 'alloc' or n == 'drop' and m.copy:
                continue
            x, y = self.A[2].get(n) or Chan(), self.B[2].get(n) or Chan()
            self.prove(eq(x.count, y.count), 'number of calls of ' + n if n != 'drop' else 'number of values dropped')
            if n == 'drop' or n in weak:
                continue
            ar = max([len(o[2] if o[0] == 'e' else o[3]) for o in x.ops + y.ops] or [0])
            if not ar or x.ops == y.ops:
                continue
            i = m.fresh('sk_call')
            m.instantiate(i)
            for j in range(ar):
                self.prove(implies(land(le(0, i), lt(i, y.count)), eq(x.at(i, j, ar), y.at(i, j, ar))),
                           'argument %d of %s' % (j, n))


def unit(a):
    return (isinstance(a, Agg) and not [k for k in a.f if k != '#env'] and a.variant is None) or (isinstance(a, Atom) and a.s in ('uninit', 'moved'))


# ------------------------------------------------------------------ the check
def check_case(interp, ex, case, fns, mode):
    seen = {}
    for fn in fns if isinstance(fns, list) else [fns]:
        for k, v in check_fn(interp, ex, case, fn, mode).items():
            seen[k] = v if isinstance(v, bool) else seen.get(k, 0) + v
    return seen


def check_fn(interp, ex, case, fn, mode):
    """explore every path of the body of `fn` and compare it with the contract"""
    seen = {}

    def run(m):
        w = World(interp, m)
        interp.world = w
        interp.target = fn
        args = case.setup(w)
        env = dict(w.env)
        env.update(case.env)
        if fn.impl is not None and 'Self' not in env:
            import mir
            env['Self'] = mir.subst(interp.expand(fn.impl.self), env)
        m.pure = case.opts.get('pure', False)
        m.family = case.opts['family'](w, m, args) if 'family' in case.opts else None
        pre = m.snapshot()
        base_cell, base_buf = m.next_cell, m.next_buf
        before = live_total(w, m)
        m.restore(pre)
        try:
            m.where = [case.name]
            if case.opts.get('glue'):
                # the drop glue: the Drop impl, then the fields (also when the Drop impl unwinds)
                interp.drop_val_at(m, args[0], m.get(args[0]), ('infer',))
                r = UNITV
            else:
                r = interp.call_fn(m, fn, list(args), env, None)
            out = ('ret', r)
        except Unwind as e:
            out = ('unwind', e.tag)
            m.unwinding = None
            m.depth = 0
        m.where = [case.name]
        if m.failed:
            seen['failed'] = True
            raise PathEnd()
        if case.opts.get('glue'):
            m.set(args[0], MOVED)
        if ex.unroll and hasattr(m.family, 'define'):
            for i in range((ex.unroll + 1) ** 2 + 1):
                m.family.define(m, i)
        post = m.snapshot()
        tag = out[0] if out[0] == 'ret' else ('panic' if out[1] in OWN_PANIC else out[1])
        seen[tag] = seen.get(tag, 0) + 1
        user = out[0] == 'unwind' and out[1] not in OWN_PANIC
        m.post_phase = 'unwind' if user else 'post'
        if ex.own and not user and case.name not in ownership.HANDED_OVER:
            ownership.check(w, m, case, args, pre, post, out)
        if out[0] == 'unwind' and out[1] in OWN_PANIC and case.opts.get('weak_panic'):
            return weak_check(interp, m, w, case, pre, post, before, out)
        if out[0] == 'unwind' and out[1] not in OWN_PANIC and not (case.exact if isinstance(case.exact, bool) else out[1] in case.exact):
            return weak_check(interp, m, w, case, pre, post, before, out)
        if user and ex.unw:
            weak_check(interp, m, w, case, pre, post, before, out)
        # the contract from the same pre-state
        m.restore(pre)
        # fresh cells of the contract must not collide with those of the body
        m.next_cell, m.next_buf = post[4] + 1000, post[5] + 1000
        x = X(interp, m, w, post, 'check')
        x.env, x.out, x.base_buf, x.base_cell, x.family = env, out, base_buf, base_cell, m.family
        interp.use_contracts, keep = False, interp.use_contracts
        m.user_panics = ex.panics and case.exact is True
        keepf, m.family = m.family, None
        try:
            m.where = ['contract of ' + case.name]
            x.own(args)
            sout = ('ret', case.spec(x, *args))
        except Unwind as e:
            sout = ('unwind', e.tag)
            m.unwinding = None
        finally:
            interp.use_contracts = keep
            m.family = keepf
        m.where = [case.name]
        if case.opts.get('glue'):
            m.set(args[0], MOVED)
        sp = m.snapshot()
        if out[0] != sout[0]:
            m.prove(False, 'post: %s' % ('must not panic' if out[0] == 'unwind' else 'must panic'))
            raise PathEnd()
        if out[0] == 'unwind' and (out[1] in OWN_PANIC) != (sout[1] in OWN_PANIC):
            m.prove(False, 'post: panics for another reason (%s, expected %s)' % (out[1], sout[1]))
            raise PathEnd()
        m.prove(True, 'post: returns or panics exactly when it must')
        c = Cmp(m, post, sp)
        c.base_cell, c.base_buf = base_cell, base_buf
        c.fst, c.flen = w.f('storage'), w.f('len')
        for k in sorted(pre[0]):
            c.cell(k, k, w.handles.get(k, 'argument'))
        if out[0] == 'ret':
            c.val(out[1], sout[1], 'result')
        for b in pre[1]:
            c.buf(b, b, 'buffer %d' % b)
        c.buffers()
        c.channels(case.opts.get('weak_channels', ()))
        if m.zst:
            c.prove(eq(post[3], sp[3]), 'number of live zero-sized values')

    def guarded(m):
        try:
            run(m)
        except Unsupported as e:
            ex.stats.unsupported.append('%s at %s' % (e, ' < '.join(reversed(m.where[-4:]))))
            if len(ex.stats.unsupported) > 5:
                raise Budget('too many unsupported paths')
    ex.run(guarded)
    ex.outcomes = seen
    return seen


from core import Budget


def live_total(w, m):
    n = w.args_live
    for r in w.vecs:
        v = m.get(r)
        n = add(n, v.f[w.f('len')])
    for f in w.counts:
        n = add(n, f(m))
    return n


CREATES = ('clone', 'gen')


def created(m, before, after):
    n = 0
    for c in set(after[2]):
        d = sub(after[2][c].count, (before[2].get(c) or Chan()).count)
        if c in CREATES or c.startswith('gen'):
            n = add(n, d)
        elif c == 'iter':
            n = add(n, d)
    return n


def weak_check(interp, m, w, case, pre, post, before, out):
    """unwinding out of user code: the vector is valid, nothing is dropped twice or lost"""
    tag = out[1]
    for r in w.vecs:
        v = m.get(r)
        if not isinstance(v, Agg):
            continue
        L = v.f[w.f('len')]
        sa = v.f[w.f('storage')]
        b = m.bufs[sa.buf]
        m.prove(not b.freed, 'unwinding: storage still there')
        m.prove(le(0, L), 'unwinding: length')
        if not m.zst:
            m.prove(le(L, b.cap), 'unwinding: length within capacity')
            i = m.fresh('sk_un')
            inside = land(le(0, i), lt(i, L))
            for f in w.regions:
                inside = f(m, r, i, inside)
            if m.copy:
                m.prove(implies(inside, b.own(i)), 'unwinding: every element below the length is initialised')
            else:
                m.prove(eq(b.own(i), inside), 'unwinding: the vector owns exactly the elements below its length')
            if case.prefix:
                v0 = pre[0][r.cell]
                L0 = v0.f[w.f('len')]
                m.prove(le(L0, L), 'unwinding: earlier elements are kept')
                m.prove(implies(land(le(0, i), lt(i, L0)), eq(b.mem(i), pre[1][sa.buf].mem(i))), 'unwinding: earlier elements are unchanged')
    if not m.copy:
        # conservation: nothing lost, nothing dropped twice
        made = 0
        for c in post[2]:
            d = sub(post[2][c].count, (pre[2].get(c) or Chan()).count)
            if c in ('clone', 'gen', 'iter') and c not in case.opts.get('no_items', ()):
                made = add(made, d if c != tag else sub(d, 1))
        dropped = sub((post[2].get('drop') or Chan()).count, (pre[2].get('drop') or Chan()).count)
        after = 0
        for r in w.vecs:
            v = m.get(r)
            if isinstance(v, Agg):
                after = add(after, v.f[w.f('len')])
        for f in w.counts:
            after = add(after, f(m))
        if case.leak_ok:
            m.prove(le(add(after, dropped), add(before, made)), 'unwinding: no value dropped twice')
            if m.zst:
                m.prove(le(after, m.pool), 'unwinding: live zero-sized values')
        else:
            m.prove(eq(add(after, dropped), add(before, made)), 'unwinding: no value lost or dropped twice')
            if m.zst:
                m.prove(eq(m.pool, after), 'unwinding: live zero-sized values')
    for b, x in m.bufs.items():
        if b not in pre[1] and x.kind not in ('inline', 'extern'):
            m.prove(bool(x.freed), 'unwinding: temporary storage released')
            if not m.zst and not m.copy:
                i = m.fresh('sk_ut')
                m.prove(lnot(x.own(i)), 'unwinding: no element left in temporary storage')
    if case.unwind_hook:
        case.unwind_hook(w, m, pre, post, tag)


def loopy(ex, err):
    """what is open is due to a loop without an established invariant"""
    return any('invariant' in u or 'loop' in u or 'poison' in u or 'untracked' in u for u in ex.stats.unsupported + [err or ''])


def checked(interp, case, fs, mode, make):
    """check_case; where a loop's invariant is not found the loops' first iterations are split off.  Returns (explorer, outcomes, error)"""
    first = None
    for peel in (0, 'annotated', 'loose', 1, 3):
        ex = make()
        if isinstance(peel, str):
            if not case.opts.get('fallback'):
                continue
            ex.prefer = peel
        else:
            ex.peel = peel
        seen, err = {}, None
        try:
            seen = check_case(interp, ex, case, fs, mode)
        except (Budget, Unsupported) as e:
            err = '%s: %s' % (type(e).__name__, e)
        except RecursionError:
            err = 'recursion limit'
        st = ex.stats
        clean = not st.failed and not st.undecided and not st.unsupported and not err
        if first is None:
            first = ex, seen, err
            if not loopy(ex, err):
                return first
        elif clean or st.failed and not st.unsupported and not err and peel != 'loose':
            return ex, seen, err
    return first
