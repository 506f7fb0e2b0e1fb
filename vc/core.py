"""Symbolic machine: terms, path exploration by re-execution, element memory with ownership, channels.

A *path* is one run of ordinary Python code over a Machine; `Machine.branch` decides conditions, recording
decisions, and the Explorer re-runs the code once per feasible decision sequence.  Nothing is bounded: lengths,
indices, capacities and loop counts are symbolic integers (loops: see loops.py)."""
import z3, time, itertools

MAX = 2 ** 64 - 1
IMAX = 2 ** 63 - 1
IX = z3.Int('IX')      # bound index of memory / log terms
JX = z3.Int('JX')      # bound index inside segments


class Unsupported(Exception):
    """construct outside the verifier's reach: the function is undecided, never a violation"""


class PathEnd(Exception):
    """this path needs no further exploration"""


OWN_PANIC = ('panic', 'reserve')     # panics raised by the crate itself; every other tag is user code


class Unwind(Exception):
    def __init__(self, tag):
        Exception.__init__(self, tag)
        self.tag = tag


# ------------------------------------------------------------------ terms
def isz(x):
    return isinstance(x, z3.ExprRef)


def lit(x):
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


def simp(x):
    if not isz(x):
        return x
    x = z3.simplify(x)
    if z3.is_int_value(x):
        return x.as_long()
    if z3.is_true(x):
        return True
    if z3.is_false(x):
        return False
    return x


def add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    return simp(lit(a) + lit(b))


def sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    return simp(lit(a) - lit(b))


def eq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    return simp(lit(a) == lit(b))


def lt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    return simp(lit(a) < lit(b))


def le(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    return simp(lit(a) <= lit(b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def land(*xs):
    ys = []
    for x in xs:
        if isinstance(x, bool) or not isz(x):
            if not x:
                return False
        else:
            ys.append(x)
    if not ys:
        return True
    return ys[0] if len(ys) == 1 else z3.And(*ys)


def lor(*xs):
    ys = []
    for x in xs:
        if not isz(x):
            if x:
                return True
        else:
            ys.append(x)
    if not ys:
        return False
    return ys[0] if len(ys) == 1 else z3.Or(*ys)


def lnot(x):
    if not isz(x):
        return not x
    return simp(z3.Not(x))


def implies(a, b):
    return lor(lnot(a), b)


def ite(c, a, b):
    if not isz(c):
        return a if c else b
    if not isz(a) and not isz(b) and a == b:
        return a
    return simp(z3.If(c, lit(a), lit(b)))


def sbst(t, *pairs):
    if not isz(t):
        return t
    return simp(z3.substitute(t, *[(a, lit(b)) for a, b in pairs]))


_contains_cache = {}


def consts_of(t, acc=None):
    """names of uninterpreted constants / functions in a term"""
    if acc is None:
        acc = set()
    if not isz(t):
        return acc
    todo = [t]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            acc.add(x.decl().name())
        todo.extend(x.children())
    return acc


# ------------------------------------------------------------------ values
class V:
    __slots__ = ()


class EV(V):
    """an owned element"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t

    def __repr__(self):
        return 'EV(%s)' % (self.t,)


class ArrVal(V):
    """an owned array of n elements; term over IX (0-based)"""
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t, self.n = t, n

    def __repr__(self):
        return 'Arr(%s;%s)' % (self.t, self.n)


class Agg(V):
    __slots__ = ('ty', 'variant', 'f')

    def __init__(self, ty, variant, f):
        self.ty, self.variant, self.f = ty, variant, f

    def with_field(self, k, v):
        g = dict(self.f)
        g[k] = v
        return Agg(self.ty, self.variant, g)

    def __repr__(self):
        return '%s#%s%s' % (self.ty[1] if self.ty and self.ty[0] == 'adt' else self.ty and self.ty[0], self.variant, self.f)


class Ref(V):
    """reference or pointer to a place of a cell"""
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell, self.path = cell, path

    def __repr__(self):
        return 'Ref(%s%s)' % (self.cell, self.path)


class EP(V):
    """pointer/reference to element `off` of buffer `buf` (obtained when the buffer had `epoch`).
    n is None for one element, else the pointer is a pointer to an array of n elements"""
    __slots__ = ('buf', 'epoch', 'off', 'n')

    def __init__(self, buf, epoch, off, n=None):
        self.buf, self.epoch, self.off, self.n = buf, epoch, off, n

    def __repr__(self):
        return 'EP(%s@%s+%s%s)' % (self.buf, self.epoch, self.off, '' if self.n is None else ';%s' % self.n)


class SP(V):
    """slice reference/pointer: n elements starting at p (p: EP or IP)"""
    __slots__ = ('p', 'n')

    def __init__(self, p, n):
        self.p, self.n = p, n

    def __repr__(self):
        return 'SP(%s,%s)' % (self.p, self.n)


class IP(V):
    """pointer made from an integer (dangling pointers, zero-sized cursors)"""
    __slots__ = ('a',)

    def __init__(self, a):
        self.a = a

    def __repr__(self):
        return 'IP(%s)' % (self.a,)


class SA(V):
    """value of the abstract storage type, owning buffer `buf`"""
    __slots__ = ('buf', 'ty')

    def __init__(self, buf, ty=None):
        self.buf, self.ty = buf, ty

    def __repr__(self):
        return 'SA(%s)' % self.buf


class FnItem(V):
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __repr__(self):
        return 'Fn(%s)' % (self.path,)


class Abs(V):
    """abstract user object (closure, iterator, hasher, ...) named by its channel"""
    __slots__ = ('kind', 'chan', 'ty')

    def __init__(self, kind, chan, ty=None):
        self.kind, self.chan, self.ty = kind, chan, ty

    def __repr__(self):
        return 'Abs(%s,%s)' % (self.kind, self.chan)


class RefAbs(V):
    """shared reference to an element living outside every tracked buffer"""
    __slots__ = ('t',)

    def __init__(self, t):
        self.t = t


class Atom(V):
    """opaque constant"""
    __slots__ = ('s',)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return 'Atom(%s)' % (self.s,)


UNINIT = Atom('uninit')
STOLEN = Atom('stolen')
MOVED = Atom('moved')
POISON = Atom('poison')
ZST_T = z3.IntVal(0)


def tup(*xs):
    return Agg(('tuple', ()), None, {i: x for i, x in enumerate(xs)})


UNITV = tup()


def some(x):
    return Agg(('adt', 'Option', ()), 1, {0: x})


NONE = Agg(('adt', 'Option', ()), 0, {})


def ok(x):
    return Agg(('adt', 'Result', ()), 0, {0: x})


def err(x):
    return Agg(('adt', 'Result', ()), 1, {0: x})


# ------------------------------------------------------------------ memory
class Buf:
    """element memory. own0/mem0: terms over IX; ops applied oldest first:
       ('w', off, val) ('r', off) ('wseg', lo, n, val over JX) ('rseg', lo, n) ('cp', dst, src, n)  (same buffer, moves ownership)
       ('in', dst, n, own term over IX (source index), mem term over IX, src)  copy from another buffer"""
    __slots__ = ('own0', 'mem0', 'ops', 'cap', 'epoch', 'freed', 'kind', 'drop', 'stale')

    def __init__(self, own0, mem0, cap, epoch=0, ops=(), freed=False, kind='storage'):
        self.own0, self.mem0, self.ops, self.cap, self.epoch, self.freed, self.kind = own0, mem0, ops, cap, epoch, freed, kind
        self.stale = False      # slots (over IX) whose bytes are initialised although their value was moved out

    def upd(self, **kw):
        b = Buf(self.own0, self.mem0, self.cap, self.epoch, self.ops, self.freed, self.kind)
        b.stale = self.stale
        for k, v in kw.items():
            setattr(b, k, v)
        return b

    def op(self, *op):
        return self.upd(ops=self.ops + (op,))

    def own(self, i):
        return self._eval(i, True)

    def was_init(self, i):
        """the bytes of slot i hold some value, possibly one that was moved out (references to it are not undefined behaviour)"""
        return self._eval(i, 'init')

    def mem(self, i):
        return self._eval(i, False)

    def _eval(self, i, own):
        # fold from newest to oldest; index transformed by copies
        res = []          # list of (cond, value) ; evaluated lazily
        return self._ev(len(self.ops), i, own)

    def _ev(self, n, i, own):
        while n > 0:
            n -= 1
            op = self.ops[n]
            k = op[0]
            if k == 'w':
                c = eq(i, op[1])
                v = True if own else op[2]
            elif k == 'r':
                if not own or own == 'init':
                    continue
                c = eq(i, op[1])
                v = False
            elif k == 'wseg':
                c = simp(land(le(op[1], i), lt(i, add(op[1], op[2]))))
                v = True if own else sbst(op[3], (JX, sub(i, op[1])))
            elif k == 'rseg':
                if not own or own == 'init':
                    continue
                c = simp(land(le(op[1], i), lt(i, add(op[1], op[2]))))
                v = False
            elif k == 'cp':
                _, d, s, cnt, keep = op
                c = simp(land(le(d, i), lt(i, add(d, cnt))))
                if c is True:
                    i = add(sub(i, d), s)
                    continue
                if c is False:
                    if own is True and not keep:
                        cs = simp(land(le(s, i), lt(i, add(s, cnt))))
                        if cs is False:
                            continue
                        return ite(cs, False, self._ev(n, i, own))
                    continue
                a = self._ev(n, add(sub(i, d), s), own)
                b = self._ev(n, i, own)
                if own is True and not keep:
                    cs = simp(land(le(s, i), lt(i, add(s, cnt))))
                    b = ite(cs, False, b)
                return ite(c, a, b)
            elif k == 'in':
                _, d, cnt, ot, mt, s = op
                c = simp(land(le(d, i), lt(i, add(d, cnt))))
                v = sbst(ot if own else mt, (IX, add(sub(i, d), s)))
            else:
                raise Unsupported('op ' + k)
            if c is True:
                return v
            if c is False:
                continue
            return ite(c, v, self._ev(n, i, own))
        if own == 'init':
            return sbst(lor(self.own0, self.stale), (IX, i))
        return sbst(self.own0 if own else self.mem0, (IX, i))


class Chan:
    """log of calls to user code; ops: ('e', idx, vals) / ('eseg', lo, n, vals over JX)"""
    __slots__ = ('count', 'ops')

    def __init__(self, count=0, ops=()):
        self.count, self.ops = count, ops

    def entry(self, vals):
        return Chan(add(self.count, 1), self.ops + (('e', self.count, vals),))

    def seg(self, n, vals):
        return Chan(add(self.count, n), self.ops + (('eseg', self.count, n, vals),))

    def at(self, i, j, arity):
        """value j of entry i as a term"""
        t = z3.IntVal(-77)
        for op in self.ops:
            if op[0] == 'e':
                v = op[2][j] if j < len(op[2]) else -77
                t = ite(eq(i, op[1]), v, t)
            else:
                v = op[3][j] if j < len(op[3]) else -77
                t = ite(simp(land(le(op[1], i), lt(i, add(op[1], op[2])))), sbst(v, (JX, sub(i, op[1]))), t)
        return t


# ------------------------------------------------------------------ statistics shared by a run
class Stats:
    def __init__(self):
        self.discharged = 0
        self.failed = []
        self.undecided = []
        self.solver_s = 0.0
        self.queries = 0
        self.paths = 0
        self.retry = 0
        self.by = {'z3': 0, 'cvc5': 0, 'syntactic': 0}
        self.obl_names = {}
        self.phases = {}
        self.loops = set()
        self.unsupported = []

    def merge(self, o):
        self.discharged += o.discharged


class Machine:
    def __init__(self, ex, prefix):
        self.ex = ex
        self.prefix = prefix
        self.decisions = []
        self.solver = z3.Solver()
        self.solver.set('timeout', ex.timeout)
        self.pc = []
        self.quiet = 0
        self.guess = 0
        self.fresh_n = 0
        self.cells = {}
        self.bufs = {}
        self.moved = []        # what ptr::read took out of memory, and with which operation
        self.twins = []        # pairs of copies of one element
        self.aliased = False
        self.chans = {}
        self.pool = 0
        self.next_cell = 0
        self.next_buf = 0
        self.zst = ex.zst
        self.copy = ex.copy
        self.facts = []        # lazily instantiated universal facts: (lo, hi, fn)
        self.foralls = []
        self.trace = []
        self.unwinding = None
        self.post_phase = None
        self.oracle = None
        self.depth = 0
        self.instantiated = set()
        self.where = ['?']
        self.mulfacts = {}
        self.products = []
        self.nb = {}
        self.drop_unw = {}
        self.spec_mode = None
        self.sizefacts = {}
        self.blocks = ()
        self.events = ()
        self.family = None
        self.gen = ()
        self.conds = []
        self.failed = False
        self.user_panics = ex.panics
        self.pure = False

    @property
    def phase(self):
        """what the current obligation is about: the body, the unwinding out of user code, or the outcome"""
        if self.post_phase:
            return self.post_phase
        return 'unwind' if self.unwinding and self.unwinding not in OWN_PANIC else 'body'

    # -- state
    STATE = ('cells', 'bufs', 'chans')

    def snapshot(self):
        return (dict(self.cells), dict(self.bufs), dict(self.chans), self.pool, self.next_cell, self.next_buf, self.unwinding,
                self.blocks, self.events)

    def restore(self, s):
        self.cells, self.bufs, self.chans = dict(s[0]), dict(s[1]), dict(s[2])
        self.pool, self.next_cell, self.next_buf, self.unwinding, self.blocks, self.events = s[3:9]

    def event(self, *e):
        self.events = self.events + (e,)

    def new_cell(self, v=UNINIT):
        c = self.next_cell
        self.next_cell += 1
        self.cells[c] = v
        return c

    def new_buf(self, b):
        n = self.next_buf
        self.next_buf += 1
        self.bufs[n] = b
        return n

    def fresh(self, name, lo=None, hi=None):
        self.fresh_n += 1
        x = z3.Int('%s!%d' % (name, self.fresh_n))
        if lo is not None:
            self.assume(le(lo, x))
        if hi is not None:
            self.assume(le(x, hi))
        return x

    def freshb(self, name):
        self.fresh_n += 1
        return z3.Bool('%s!%d' % (name, self.fresh_n))

    def uf(self, name, *args, sort='int'):
        f = z3.Function(name, *([z3.IntSort()] * len(args)), z3.BoolSort() if sort == 'bool' else z3.IntSort())
        return f(*[lit(a) for a in args])

    # -- logic
    def assume(self, f):
        f = simp(f)
        if f is True:
            return
        if f is False:
            raise PathEnd()
        self.pc.append(f)
        self.solver.add(f)

    def check(self, *fs):
        self.ex.stats.queries += 1
        t = time.time()
        r = self.solver.check(*[lit(f) for f in fs])
        self.ex.stats.solver_s += time.time() - t
        self.ex.check_time()
        return r

    def branch(self, c, why=None):
        c = simp(c)
        if c is True or c is False:
            return c
        i = len(self.decisions)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            r1 = self.check(c)
            if r1 == z3.unsat:
                d = False
                # the path itself is feasible (invariant), so not c is
            else:
                r0 = self.check(z3.Not(c))
                if r0 == z3.unsat:
                    d = True
                else:
                    if r1 == z3.unknown or r0 == z3.unknown:
                        self.ex.stats.retry += 1
                    d = True
                    self.ex.push(self, self.decisions + [False])
        self.decisions.append(d)
        f = c if d else z3.Not(c)
        self.pc.append(f)
        self.solver.add(f)
        self.trace.append((why or '', d))
        self.conds.append(f)
        return d

    @property
    def live(self):
        return len(self.decisions) >= len(self.prefix) and not self.quiet

    def known(self, c):
        """is c implied by the path condition? (no decision recorded; must be deterministic)"""
        c = simp(c)
        if c is True or c is False:
            return c
        return self.check(z3.Not(c)) == z3.unsat

    def prove(self, f, name):
        if self.quiet:
            f = simp(f)
            if f is False:
                raise PathEnd()
            if f is not True:
                self.pc.append(f)
                self.solver.add(f)
            return
        if not self.live:
            f = simp(f)
            if f is not True and f is not False:
                self.pc.append(f)
                self.solver.add(f)
            elif f is False:
                raise PathEnd()
            return
        st = self.ex.stats
        st.obl_names[name] = st.obl_names.get(name, 0) + 1
        ph = ('own' if name.startswith('ownership:') else self.phase)
        st.phases[ph] = st.phases.get(ph, 0) + 1
        f = simp(f)
        if f is True:
            st.discharged += 1
            st.by['syntactic'] += 1
            return
        r = self.check(lnot(f))
        if r == z3.sat and self.products:
            r = self.check(lnot(f), *self.products)
        if r == z3.unknown:
            r = self.ex.second_opinion(self, lnot(f))
            back = 'cvc5'
        else:
            back = 'z3'
        model = None
        if r == z3.sat and self.foralls:
            # the hypotheses about passed loops were instantiated where they seemed needed: they must all hold in the counterexample
            r, model = self.confirm(lnot(f))
        if r == z3.unsat:
            st.discharged += 1
            st.by[back] += 1
        elif r == z3.sat:
            # a satisfiable path condition is required for a failure to mean anything
            if back == 'z3' and model is None:
                try:
                    model = self.solver.model()
                except z3.Z3Exception:
                    pass
            if self.aliased:
                self.ex.undecided(self, name, f)
            else:
                self.ex.fail(self, name, f, model)
            self.failed = True
            if f is False:
                raise PathEnd()
            self.pc.append(f)
            self.solver.add(lit(f))
            if self.check() == z3.unsat:
                raise PathEnd()
            return
        else:
            self.ex.undecided(self, name, f)
        self.pc.append(f)
        self.solver.add(lit(f))

    def confirm(self, g):
        K = 6

        def tried(facts, tmo):
            self.ex.stats.queries += 1
            t = time.time()
            self.solver.push()
            try:
                self.solver.set('timeout', tmo)
                for x in facts + self.products:
                    self.solver.add(lit(x))
                self.solver.add(lit(g))
                r = self.solver.check()
                return r, (self.solver.model() if r == z3.sat else None)
            except z3.Z3Exception:
                return z3.unknown, None
            finally:
                self.solver.pop()
                self.solver.set('timeout', self.ex.timeout)
                self.ex.stats.solver_s += time.time() - t
        few = []
        for lo, hi, fn, tag in self.foralls:
            few.append(le(hi, add(lo, K)))
            for d in range(K):
                few.append(implies(lt(add(lo, d), hi), fn(add(lo, d))))
        r, mod = tried([simp(x) for x in few], self.ex.timeout)
        if r == z3.sat:
            return r, mod
        J = z3.Int('j!all')
        every = [z3.ForAll([J], lit(implies(land(le(lo, J), lt(J, hi)), fn(J)))) for lo, hi, fn, tag in self.foralls]
        return tried(every, min(self.ex.timeout, 5000))

    # -- universal facts, instantiated on demand
    def add_forall(self, lo, hi, fn, tag):
        """for all j in [lo,hi): fn(j)"""
        self.foralls.append((lo, hi, fn, tag))
        for (lo2, hi2, _, tag2) in list(self.foralls):
            self.instantiate(hi2)
            self.instantiate(lo2)
        self.instantiate(sub(hi, 1))

    def instantiate(self, j):
        for n, (lo, hi, fn, tag) in enumerate(self.foralls):
            key = (n, str(j))
            if key in self.instantiated:
                continue
            self.instantiated.add(key)
            f = fn(j)
            self.assume(implies(land(le(lo, j), lt(j, hi)), f))

    def instantiate_at(self, j):
        """at j, counted from the start of each of the loops passed so far"""
        his = [hi for (lo, hi, fn, tag) in self.foralls]
        self.instantiate(j)
        acc = j
        for hi in his:
            self.instantiate(sub(j, hi))
            acc = sub(acc, hi)
            self.instantiate(acc)

    # -- nonlinear multiplication helper
    def mul(self, a, b):
        if not isz(a) and not isz(b):
            return a * b
        if not isz(a):
            a, b = b, a
        if not isz(b):
            return simp(a * b)
        if a.get_id() > b.get_id():
            a, b = b, a
        key = (a.get_id(), b.get_id())
        if key not in self.mulfacts:
            p = a * b
            if self.ex.symsizes:
                # a product is a number known by its facts; its definition is only brought in where those do not suffice
                q = self.fresh('product')
                self.products = self.products + [q == p]
                p = q
            self.mulfacts[key] = (p, a, b)
            self.assume(z3.Implies(z3.And(a >= 0, b >= 0), p >= 0))
            for x, y in ((a, b), (b, a)):
                self.assume(z3.Implies(z3.And(x >= 1, y >= 0), p >= y))
                self.assume(z3.Implies(x == 0, p == 0))
                self.assume(z3.Implies(x == 1, p == y))
            self.assume(z3.Implies(z3.And(a >= 0, b >= 0, a <= MAX, b <= MAX), p <= MAX * MAX))
            if self.ex.symsizes:
                # products with a common factor are ordered like the other factor
                for x, u, v in list(self.mulfacts.values())[:-1]:
                    for s, o in ((u, v), (v, u)):
                        for s2, o2 in ((a, b), (b, a)):
                            if s.get_id() == s2.get_id():
                                self.assume(z3.Implies(z3.And(s >= 0, o <= o2), x <= p))
                                self.assume(z3.Implies(z3.And(s >= 0, o2 <= o), p <= x))
                                self.assume(z3.Implies(z3.And(s >= 0, o < o2), x + s <= p))
                                self.assume(z3.Implies(z3.And(s >= 0, o2 < o), p + s <= x))
        return self.mulfacts[key][0]

    # -- channels
    def chan(self, name):
        return self.chans.get(name) or Chan()

    # -- memory obligations
    def buf_of(self, p):
        b = self.bufs[p.buf]
        return b

    def access(self, p, n, what):
        """bounds + validity obligations for n elements at p"""
        b = self.bufs[p.buf]
        self.prove(eq(p.epoch, b.epoch), 'pointer not stale (%s)' % what)
        self.prove(not b.freed, 'memory not freed (%s)' % what)
        self.prove(land(le(0, p.off), le(add(p.off, n), b.cap)), 'in bounds (%s)' % what)
        return b

    def valid_ptr(self, p, what):
        pass

    def sk(self, name='i'):
        return self.fresh('sk_' + name)

    def all_owned(self, p, n, what):
        """obligation: the n elements at p are initialised"""
        if self.zst:
            self.prove(le(n, self.pool), what)
            return
        if not isinstance(p, EP):
            self.prove(eq(n, 0), 'a dangling pointer designates no element (%s)' % what)
            return
        b = self.bufs[p.buf]
        self.prove(lor(eq(n, 0), land(eq(p.epoch, b.epoch), not b.freed)), 'pointer not stale (%s)' % what)
        self.prove(lor(eq(n, 0), land(le(0, p.off), le(add(p.off, n), b.cap))), 'in bounds (%s)' % what)
        i = self.sk()
        o = b.own(i)
        self.prove(implies(land(le(p.off, i), lt(i, add(p.off, n))), o), 'initialised and owned (%s)' % what)

    def none_owned(self, p, n, what):
        if self.zst or self.copy:
            return
        if not isinstance(p, EP):
            return
        b = self.bufs[p.buf]
        i = self.sk()
        self.prove(implies(land(le(p.off, i), lt(i, add(p.off, n))), lnot(b.own(i))), what)

    # -- element operations used by builtins and by specifications
    def e_write(self, p, v, what='write'):
        """ptr::write"""
        if isinstance(v, ArrVal):
            return self.e_write_arr(p, v, what)
        if not isinstance(v, EV):
            raise Unsupported('write of %r through element pointer' % (v,))
        if self.zst:
            self.pool = add(self.pool, 1)
            return
        if not isinstance(p, EP):
            self.prove(False, 'write through a dangling pointer (%s)' % what)
            raise PathEnd()
        b = self.access(p, 1, what)
        if not self.copy:
            self.prove(lnot(b.own(p.off)), 'no live element overwritten (%s)' % what)
        self.bufs[p.buf] = b.op('w', p.off, v.t)
        if self.twins and not self.copy and self.twin(v):
            self.bufs[p.buf] = self.bufs[p.buf].op('r', p.off)

    def e_write_arr(self, p, v, what):
        if self.zst:
            self.pool = add(self.pool, v.n)
            return
        if not isinstance(p, EP):
            self.prove(eq(v.n, 0), 'write through a dangling pointer (%s)' % what)
            return
        b = self.access(p, v.n, what)
        self.none_owned(p, v.n, 'no live element overwritten (%s)' % what)
        self.bufs[p.buf] = self.bufs[p.buf].op('wseg', p.off, v.n, sbst(v.t, (IX, JX)))

    def e_read(self, p, what='read'):
        """ptr::read: moves ownership out"""
        if self.zst:
            if what == 'read' and not self.quiet:
                if self.moved and self.branch(eq(self.pool, 0), 'reads a moved-out value again'):
                    self.aliased = True          # a second bitwise copy: one of the copies has to go back before the end
                else:
                    self.prove(le(1, self.pool), 'a live element exists (%s)' % what)
                self.moved.append(None)
            else:
                self.prove(le(1, self.pool), 'a live element exists (%s)' % what)
            self.pool = sub(self.pool, 1)
            return EV(ZST_T)
        if isinstance(p, RefAbs):
            raise Unsupported('move out of external reference')
        if not isinstance(p, EP):
            self.prove(False, 'read through a dangling pointer (%s)' % what)
            raise PathEnd()
        b = self.access(p, 1, what)
        if what == 'read' and not self.quiet and not self.copy:
            v = self.reread(p, b)
            if v is not None:
                return v
        self.prove(b.own(p.off), 'initialised and owned (%s)' % what)
        v = EV(b.mem(p.off))
        if not self.copy:
            self.bufs[p.buf] = b.op('r', p.off)
            if what == 'read' and not self.quiet:
                self.moved.append((p.buf, self.bufs[p.buf].ops[-1], v))
        return v

    def reread(self, p, b):
        """ptr::read of a slot whose value ptr::read took out before: the bytes are still there, and a second copy of them is a
        value like the first. The two stand for one element: the contract says which of them counts (what is returned, what was
        dropped), and the first of them to be written back into memory does not make the slot own it. Anything that fails on such a
        path is undecided: the choice of the copy that counts may have been the wrong one"""
        same = self.taken(p)
        if same is False:
            return None
        if not self.branch(land(lnot(b.own(p.off)), same), 'reads a moved-out value again'):
            return None
        self.aliased = True
        v = EV(b.mem(p.off))
        twins = []
        for _, op, o in self.moved_from(p):
            c = simp(eq(p.off, op[1]))
            if c is True or (c is not False and self.check(lnot(c)) == z3.unsat):
                twins.append(o)
        self.twins.append(([v] + twins, [len(self.twins)]))
        return v

    def moved_from(self, p):
        ops = self.bufs[p.buf].ops
        for e in self.moved:
            if e is None or e[0] != p.buf:
                continue
            at = [n for n, o in enumerate(ops) if o is e[1]]
            if at and all(o[0] in ('r', 'w') for o in ops[at[-1] + 1:]):
                yield e

    def taken(self, p):
        """was the value of this slot taken out by ptr::read (its bytes are still there)?"""
        return simp(lor(*[eq(p.off, e[1][1]) for e in self.moved_from(p)]))

    def twin(self, v):
        """is v one of two copies of an element, neither of which was written back yet?"""
        for t in self.twins:
            if t[1] and any(v is o for o in t[0]):
                t[1].clear()
                return True
        return False

    def e_read_arr(self, p, n, what='read'):
        if self.zst:
            self.prove(le(n, self.pool), 'live elements exist (%s)' % what)
            self.pool = sub(self.pool, n)
            return ArrVal(ZST_T, n)
        if not isinstance(p, EP):
            self.prove(eq(n, 0), 'read through a dangling pointer (%s)' % what)
            return ArrVal(ZST_T, 0)
        b = self.access(p, n, what)
        self.all_owned(p, n, what)
        t = b.mem(add(IX, p.off))
        if not self.copy:
            self.bufs[p.buf] = b.op('rseg', p.off, n)
        return ArrVal(t, n)

    def e_peek(self, p, what='deref'):
        """value behind a shared reference"""
        if isinstance(p, RefAbs):
            return p.t
        if isinstance(p, Ref):
            v = self.get(p)
            if isinstance(v, EV):
                return v.t
            if isinstance(v, (EP, IP, RefAbs, Ref)):
                return self.e_peek(v, what)
            raise Unsupported('element behind %r' % (v,))
        if self.zst:
            return ZST_T
        if not isinstance(p, EP):
            self.prove(False, 'reference to a dangling element (%s)' % what)
            raise PathEnd()
        b = self.access(p, 1, what)
        self.prove(b.own(p.off), 'initialised and owned (%s)' % what)
        return b.mem(p.off)

    def e_copy(self, src, dst, n, what='copy', overlap=True):
        """ptr::copy: n elements from src to dst, moving ownership (for Copy element types: duplicating)"""
        if self.zst:
            return
        if n is not None and isinstance(n, int) and n == 0:
            return
        for p in (src, dst):
            if not isinstance(p, EP):
                self.prove(eq(n, 0), 'copy through a dangling pointer (%s)' % what)
                return
        bs = self.bufs[src.buf]
        bd = self.bufs[dst.buf]
        for p, b in ((src, bs), (dst, bd)):
            self.prove(lor(eq(n, 0), land(eq(p.epoch, b.epoch), not b.freed)), 'pointer not stale (%s)' % what)
            self.prove(land(le(0, n), le(0, p.off), le(add(p.off, n), b.cap)), 'in bounds (%s)' % what)
        if src.buf == dst.buf:
            if not overlap:
                self.prove(lor(eq(n, 0), le(add(src.off, n), dst.off), le(add(dst.off, n), src.off)), 'non-overlapping (%s)' % what)
            if not self.copy:
                i = self.sk()
                self.prove(implies(land(le(dst.off, i), lt(i, add(dst.off, n)), lnot(land(le(src.off, i), lt(i, add(src.off, n))))),
                                   lnot(bd.own(i))), 'no live element overwritten (%s)' % what)
            self.bufs[dst.buf] = bd.op('cp', dst.off, src.off, n, self.copy)
        else:
            self.none_owned(dst, n, 'no live element overwritten (%s)' % what)
            ot, mt = bs.own(IX), bs.mem(IX)
            self.bufs[dst.buf] = self.bufs[dst.buf].op('in', dst.off, n, ot, mt, src.off)
            if not self.copy:
                self.bufs[src.buf] = bs.op('rseg', src.off, n)

    # -- dropping
    def drop_value(self, t, n=1):
        """n destructor runs; value term t (over JX if n is symbolic)"""
        c = self.chan('drop')
        if isinstance(n, int) and n == 1:
            self.chans['drop'] = c.entry((t,))
        else:
            self.chans['drop'] = c.seg(n, (t,))
        if self.copy:
            return
        if self.branch(self.unwinds('drop', c.count, n), 'destructor panics'):
            if self.unwinding:
                raise PathEnd()      # panic while unwinding: the process aborts
            raise Unwind('drop')

    def unwinds(self, chan, lo, n):
        """does one of the n calls numbered from lo unwind?"""
        if isinstance(n, int) and n == 0:
            return False
        if not self.user_panics:
            return False
        if isinstance(n, int) and n == 1:
            return self.uf('unw_' + chan, lo, sort='bool')
        a = self.uf('unwseg_' + chan, lo, add(lo, n), sort='bool')
        self.assume(implies(eq(n, 0), lnot(a)))
        self.assume(implies(eq(n, 1), eq(a, self.uf('unw_' + chan, lo, sort='bool'))))
        return a

    def e_drop(self, p, what='drop'):
        if self.zst:
            self.prove(le(1, self.pool), 'a live element exists (%s)' % what)
            self.pool = sub(self.pool, 1)
            return self.drop_value(ZST_T)
        if not isinstance(p, EP):
            self.prove(False, 'drop through a dangling pointer (%s)' % what)
            raise PathEnd()
        b = self.access(p, 1, what)
        self.prove(b.own(p.off), 'initialised and owned (%s)' % what)
        t = b.mem(p.off)
        if not self.copy:
            self.bufs[p.buf] = b.op('r', p.off)
        self.drop_value(t)

    def e_drop_n(self, p, n, what='drop'):
        """drop_in_place of a slice: every element is dropped even if one destructor panics"""
        if isinstance(n, int) and n == 0:
            return
        if self.zst:
            self.prove(le(n, self.pool), 'live elements exist (%s)' % what)
            self.pool = sub(self.pool, n)
            return self.drop_value(ZST_T, n)
        if not isinstance(p, EP):
            self.prove(eq(n, 0), 'drop through a dangling pointer (%s)' % what)
            return
        self.prove(le(0, n), 'slice length (%s)' % what)
        self.all_owned(p, n, what)
        b = self.bufs[p.buf]
        t = b.mem(add(JX, p.off))
        if not self.copy:
            self.bufs[p.buf] = b.op('rseg', p.off, n)
        self.drop_value(t, n)

    # -- places of cells
    def get(self, r):
        v = self.cells[r.cell]
        for k in r.path:
            if not isinstance(v, Agg):
                raise Unsupported('field %s of %r' % (k, v))
            if k not in v.f:
                return UNINIT
            v = v.f[k]
        return v

    def set(self, r, x):
        self.cells[r.cell] = self._set(self.cells[r.cell], r.path, x)

    def _set(self, v, path, x):
        if not path:
            return x
        if not isinstance(v, Agg):
            v = Agg(None, None, {})
        return v.with_field(path[0], self._set(v.f.get(path[0], UNINIT), path[1:], x))


# ------------------------------------------------------------------ exploration
class Budget(Exception):
    pass


class Explorer:
    symsizes = False
    symalign = False
    aligned = True
    zero = ()              # type parameters taken to be zero-sized (contracts with symbolic sizes)
    own = False            # also check ownership by itself (conservation), also when the outcome is compared exactly
    prefer = None          # 'annotated', 'loose': the annotated invariant is tried first where it applies
    peel = 0               # so many iterations of each loop are run before its invariant is sought
    unroll = 0             # loops by their first iterations only (refutation)
    unw = False            # the same for unwinding out of user code

    def __init__(self, zst=False, copy=False, timeout=10000, budget_s=120, panics=True):
        self.zst, self.copy, self.timeout = zst, copy, timeout
        self.panics = panics
        self.stats = Stats()
        self.stack = []
        self.nested = []
        self.memo = {}
        self.families = {}
        self.deadline = time.time() + budget_s
        self.outcomes = {}

    def check_time(self):
        if time.time() > self.deadline:
            raise Budget('time budget exhausted')

    def push(self, m, prefix):
        if self.nested:
            self.nested[-1].append(prefix)
        else:
            self.stack.append(prefix)

    def run(self, fn):
        self.stack = [[]]
        while self.stack:
            prefix = self.stack.pop()
            m = Machine(self, prefix)
            self.stats.paths += 1
            if self.stats.paths > 20000:
                raise Budget('too many paths')
            try:
                fn(m)
            except PathEnd:
                pass
        return self.stats

    def fail(self, m, name, f, model):
        cex = {}
        if model is not None:
            for d in model.decls()[:60]:
                n = d.name()
                if d.arity() == 0 and not n.startswith('sk_'):
                    cex[n] = str(model[d])
        self.stats.failed.append(dict(obligation=name, phase=m.phase, formula=str(f)[:600], model=cex, where=' < '.join(reversed(m.where[-6:])),
                                      trace=[('%s=%s' % t) for t in m.trace if t[0]][-25:]))

    def undecided(self, m, name, f):
        self.stats.undecided.append(dict(obligation=name, phase=m.phase, formula=str(f)[:300], where=' < '.join(reversed(m.where[-6:]))))

    def second_opinion(self, m, f):
        s = z3.Solver()
        s.set('timeout', self.timeout)
        for a in m.pc + m.products:
            s.add(a)
        s.add(lit(f))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        import subprocess, tempfile
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.timeout, '--lang=smt2', '-'], input=txt, stdout=subprocess.PIPE,
                               stderr=subprocess.DEVNULL, text=True, timeout=self.timeout / 1000 + 5)
            out = p.stdout.strip().split('\n')[0]
        except Exception:
            out = ''
        if out == 'unsat':
            return z3.unsat
        if out == 'sat':
            return z3.sat
        return z3.unknown
