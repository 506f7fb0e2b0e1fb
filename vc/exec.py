"""Symbolic execution of MIR functions on a core.Machine."""
import re
import z3
from core import *
import mir
from mir import parse_callee, subst, unify, show_type

RIGID = {'T', 'S', 'B', 'F', 'I', 'R', 'A', 'U', 'O', 'K', 'H', 'V'}

ENUMS = {
    'Option': ['None', 'Some'], 'Result': ['Ok', 'Err'], 'Bound': ['Included', 'Excluded', 'Unbounded'],
    'Ordering': ['Less', 'Equal', 'Greater'],
}

INT_RANGE = {'usize': (0, MAX), 'u64': (0, MAX), 'u128': (0, 2 ** 128 - 1), 'u32': (0, 2 ** 32 - 1), 'u8': (0, 255), 'u16': (0, 65535),
             'isize': (-2 ** 63, IMAX), 'i64': (-2 ** 63, IMAX), 'i32': (-2 ** 31, 2 ** 31 - 1)}


class Frame:
    __slots__ = ('fn', 'env', 'loc', 'module')

    def __init__(self, fn, env, module):
        self.fn, self.env, self.loc, self.module = fn, env, {}, module


def find_loops(fn):
    """natural loops of the non-cleanup CFG: head -> set of blocks"""
    if fn.loops is not None:
        return fn.loops
    succ = {}
    for b, (st, te, cl) in fn.blocks.items():
        s = []
        if te[0] == 'goto':
            s = [te[1]]
        elif te[0] == 'switch':
            s = [v for _, v in te[2]]
        elif te[0] in ('drop', 'call', 'assert'):
            d = te[-1]
            if 'return' in d:
                s = [d['return']]
        succ[b] = [x for x in s if not fn.blocks[x][2]] if not cl else []
    order, seen = [], set()

    def dfs(b):
        stack = [(b, iter(succ[b]))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(succ[y])))
                    break
            else:
                order.append(x)
                stack.pop()
    dfs(0)
    rpo = order[::-1]
    pos = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in succ[b]:
            preds[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[0] = {0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            n = set.intersection(*[dom[p] for p in preds[b]]) | {b}
            if n != dom[b]:
                dom[b] = n
                ch = True
    loops = {}
    for u in rpo:
        for h in succ[u]:
            if h in dom[u]:
                body = loops.setdefault(h, {h})
                st = [u]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(preds[x])
    fn.loops = loops
    return loops


def switch_key(k):
    g = re.match(r'-?\d+', k)
    if g:
        return int(g.group(0))
    g = re.search(r'\b(u|i)(8|16|32|64|size)::(MAX|MIN)\b', k)
    if g:
        w = 64 if g.group(2) == 'size' else int(g.group(2))
        if g.group(1) == 'u':
            return 2 ** w - 1 if g.group(3) == 'MAX' else 0
        return 2 ** (w - 1) - 1 if g.group(3) == 'MAX' else -2 ** (w - 1)
    raise Unsupported('switch key ' + k)


class Interp:
    """one verification task: a module + prelude, contracts to use at call sites"""

    def __init__(self, module, contracts=None, prelude=None):
        self.module = module
        self.contracts = contracts or {}
        self.prelude = prelude
        self.use_contracts = True
        self.target = None
        self.called_contracts = set()
        self.inlined = set()
        self.builtins_used = set()
        self.assumed = set()
        self.index()
        import builtin_specs
        self.bi = builtin_specs
        self.max_depth = 60

    # ------------------------------------------------------------ indexing
    def index(self):
        mod = self.module
        self.aliases = mod_aliases(mod)
        self.by_trait, self.by_inherent, self.by_free, self.closures = {}, {}, {}, {}
        for f in mod.funcs:
            if f.kind == 'closure':
                self.closures[f.closure_span] = f
                continue
            if f.impl is not None and '::' not in f.name and f.name in f.impl.fns:
                if f.impl.trait:
                    self.by_trait.setdefault((f.impl.trait[1], f.name), []).append(f)
                else:
                    self.by_inherent.setdefault(f.name, []).append(f)
            else:
                self.by_free.setdefault(f.name, []).append(f)
        self.consts = {}
        for c in mod.consts:
            self.consts.setdefault(c.name, []).append(c)

    def expand(self, t):
        """expand type aliases"""
        if t[0] == 'adt' and t[1] in self.aliases:
            params, body = self.aliases[t[1]]
            args = list(t[2])
            env = {}
            for i, (p, dflt) in enumerate(params):
                if i < len(args):
                    env[p] = self.expand(args[i])
                elif dflt is not None:
                    env[p] = subst(dflt, env)
            return self.expand(subst(body, env))
        if t[0] == 'adt':
            return ('adt', t[1], tuple(self.expand(x) for x in t[2]))
        if t[0] in ('ref', 'ptr'):
            return (t[0], t[1], self.expand(t[2]))
        return t

    # ------------------------------------------------------------ types
    def local_type(self, fr, n):
        return self.expand(subst(fr.fn.locals[n], fr.env))

    def place_type(self, fr, place):
        t = self.local_type(fr, place[0])
        for p in place[1]:
            if p[0] == 'deref':
                if t[0] in ('ref', 'ptr'):
                    t = t[2]
                elif t[0] == 'adt' and t[1] == 'Box' and t[2]:
                    t = t[2][0]
                else:
                    t = ('infer',)
            elif p[0] == 'field':
                t = self.expand(subst(p[2], fr.env))
            elif p[0] in ('index', 'cindex'):
                t = t[1] if t[0] in ('slice', 'array') else ('infer',)
        return t

    def op_type(self, fr, op):
        if op[0] in ('move', 'copy'):
            return self.place_type(fr, op[1])
        if op[0] == 'const':
            m = re.match(r'^-?\d+_(\w+)$', op[1])
            if m:
                return ('adt', m.group(1), ())
            if op[1] in ('true', 'false'):
                return mir.BOOL
        return ('infer',)

    def const_n(self, m, fr_env, t):
        """array length type -> term"""
        t = subst(t, fr_env) if fr_env else t
        if t[0] == 'const':
            return t[1]
        if t[0] == 'cterm':
            return t[1]
        raise Unsupported('array length ' + show_type(t))

    # ------------------------------------------------------------ places
    def cell(self, m, fr, n):
        c = fr.loc.get(n)
        if c is None or c not in m.cells:
            c = fr.loc[n] = m.new_cell(self.unit_value(fr, n))
        return c

    def unit_value(self, fr, n):
        """locals of unit types are not assigned"""
        t = fr.fn.locals.get(n)
        if t is not None and t[0] == 'adt' and t[1].split('::')[-1] == 'RangeFull':
            return Agg(('adt', 'RangeFull', ()), None, {})
        return UNINIT

    def resolve(self, m, fr, place):
        cur = ('cell', Ref(self.cell(m, fr, place[0])))
        for p in place[1]:
            if p[0] == 'deref':
                v = self.load(m, cur)
                cur = self.deref(m, v)
            elif p[0] == 'field':
                if cur[0] == 'cell':
                    base = m.get(cur[1])
                    if isinstance(base, SP) and False:
                        pass
                    cur = ('cell', Ref(cur[1].cell, cur[1].path + (p[1],)))
                elif cur[0] == 'slice':
                    pass
                else:
                    raise Unsupported('field of ' + cur[0])
            elif p[0] == 'downcast':
                pass
            elif p[0] == 'index':
                i = m.cells[fr.loc[p[1]]]
                cur = self.index_place(m, cur, i)
            elif p[0] == 'cindex':
                cur = self.index_place(m, cur, p[1])
        return cur

    def index_place(self, m, cur, i):
        if cur[0] == 'cell':
            v = m.get(cur[1])
            if isinstance(v, Agg) and isinstance(v.variant, str):
                n = len(v.f)
                if isinstance(i, int):
                    return ('cell', Ref(cur[1].cell, cur[1].path + (i,)))
                for j in range(n):
                    if m.branch(eq(i, j), 'index'):
                        return ('cell', Ref(cur[1].cell, cur[1].path + (j,)))
                raise PathEnd()
            raise Unsupported('index into %r' % (v,))
        if cur[0] == 'slice':
            sp = cur[1]
            if isinstance(sp.p, EP):
                return ('elem', EP(sp.p.buf, sp.p.epoch, add(sp.p.off, i)))
            return ('elem', sp.p)
        if cur[0] == 'elem' and isinstance(cur[1], EP) and cur[1].n is not None:
            return ('elem', EP(cur[1].buf, cur[1].epoch, add(cur[1].off, i)))
        raise Unsupported('index of ' + cur[0])

    def deref(self, m, v):
        if isinstance(v, Ref):
            return ('cell', v)
        if isinstance(v, (EP, IP, RefAbs)):
            return ('elem', v)
        if isinstance(v, SP):
            return ('slice', v)
        if isinstance(v, Agg) and v.ty and v.ty[0] == 'adt' and v.ty[1] == 'Box':
            return self.deref(m, v.f[0])
        if isinstance(v, Atom):
            if v is UNINIT or v is MOVED or v is POISON:
                raise Unsupported('deref of %r' % v)
            return ('atom', v)
        raise Unsupported('deref of %r' % (v,))

    def load(self, m, cur):
        if cur[0] == 'cell':
            v = m.get(cur[1])
            if v is POISON:
                raise Unsupported('value not tracked through a loop')
            return v
        if cur[0] == 'elem':
            p = cur[1]
            if isinstance(p, EP) and p.n is not None:
                if not m.copy:
                    raise Unsupported('copy of array place')
                m.all_owned(p, p.n, 'array read')
                return ArrVal(m.bufs[p.buf].mem(add(IX, p.off)), p.n)
            return EV(lit(m.e_peek(p, 'place read')))
        if cur[0] == 'atom':
            return cur[1]
        raise Unsupported('load of ' + cur[0])

    def store(self, m, cur, v):
        if cur[0] == 'cell':
            m.set(cur[1], v)
        elif cur[0] == 'elem':
            # assignment through a reference: MIR drops the old value before
            m.e_write(cur[1], v, 'assignment')
        else:
            raise Unsupported('store to ' + cur[0])

    def addr_of(self, m, cur, raw=False):
        if cur[0] == 'cell':
            return cur[1]
        if cur[0] == 'elem':
            p = cur[1]
            if not raw and not m.zst:
                if isinstance(p, EP):
                    if p.n is None:
                        if m.copy or m.taken(p) is False:
                            m.all_owned(p, 1, 'reference to element')
                        else:
                            b = m.access(p, 1, 'reference to element')
                            m.prove(lor(b.own(p.off), m.taken(p)), 'initialised and owned (reference to element)')
                    else:
                        m.all_owned(p, p.n, 'reference to array')
                elif isinstance(p, IP):
                    m.prove(False, 'reference to a dangling element')
            return p
        if cur[0] == 'slice':
            return cur[1]
        return cur[1]

    # ------------------------------------------------------------ operands
    def operand(self, m, fr, op):
        if op[0] == 'copy':
            v = self.load(m, self.resolve(m, fr, op[1]))
            return v
        if op[0] == 'move':
            cur = self.resolve(m, fr, op[1])
            if cur[0] == 'elem':
                return m.e_read(cur[1], 'move out of place')
            v = self.load(m, cur)
            if v is UNINIT and not op[1][1]:
                t = self.local_type(fr, op[1][0])
                if t[0] in ('closure',):
                    v = self.fresh_agg(fr, t)
            if cur[0] == 'cell':
                m.set(cur[1], MOVED)
            return v
        if op[0] == 'const':
            return self.const(m, fr, op[1])
        if op[0] == 'fnitem':
            return self.fnitem(m, fr, op[1])
        raise Unsupported('operand %r' % (op,))

    def fnitem(self, m, fr, txt):
        return FnItem((txt, dict(fr.env)))

    def const(self, m, fr, s):
        r = re.match(r'^(-?\d+)_([iu](?:\d+|size))$', s)
        if r:
            return int(r.group(1))
        if s == 'true':
            return True
        if s == 'false':
            return False
        if s == '()':
            return UNITV
        if s.startswith(('"', 'b"')):
            return Atom(s)
        if s in fr.env:
            t = fr.env[s]
            return self.const_n(m, None, t)
        if '::promoted[' in s:
            return self.promoted(m, fr, s)
        r = re.match(r'^(?:(?:core|std)::)?num::<impl (\w+)>::(MAX|MIN)$', s) or re.match(r'^(?:(?:core|std)::)?(\w+)::(MAX|MIN)$', s)
        if r and r.group(1) in INT_RANGE:
            return INT_RANGE[r.group(1)][1 if r.group(2) == 'MAX' else 0]
        c = parse_callee(s)
        name = c['name']
        if c['kind'] == 'trait':
            selfty = self.expand(subst(c['self'], fr.env))
            tr = subst(c['trait'], fr.env)
            return self.trait_const(m, selfty, tr, name)
        cands = self.consts.get(name, [])
        if c['kind'] == 'inherent':
            selfty = self.expand(subst(c['self'], fr.env))
            for f in cands:
                if f.impl is not None and f.impl.trait is None:
                    env = {}
                    if unify(self.expand(f.impl.self), selfty, f.impl.params, env):
                        return self.eval_const(m, f, env, selfty)
        else:
            fs = [f for f in cands if f.impl is None]
            if len(fs) >= 1:
                return self.eval_const(m, fs[0], dict(fr.env), None)
        # unit-like struct constants such as PhantomData / Global
        if re.match(r'^[\w:]*[A-Z]\w*(::<.*>)?$', s):
            return Agg(('adt', name if name[0].isupper() else s, ()), None, {})
        return self.fnitem(m, fr, s)

    def eval_const(self, m, f, env, selfty):
        if selfty is not None:
            env = dict(env, Self=selfty)
        return self.run_fn(m, f, [], env)

    def trait_const(self, m, selfty, tr, name):
        if name in ('CONST_CAPACITY', 'IS_ALIGNED'):
            r = self.bi.storage_const(self, m, selfty, tr, name)
            if r is not None:
                return r
        cands = [f for f in self.consts.get(name, []) if f.impl is not None and f.impl.trait is not None and f.impl.trait[1] == tr[1]]
        for f in cands:
            env = {}
            if unify(self.expand(f.impl.self), selfty, f.impl.params, env):
                unify(f.impl.trait, tr, f.impl.params, env)
                return self.eval_const(m, f, env, selfty)
        for f in self.consts.get(name, []):
            if f.impl is None and f.key.startswith(tr[1] + '::'):
                return self.eval_const(m, f, {'Self': selfty}, selfty)
        raise Unsupported('trait const %s of %s' % (name, show_type(selfty)))

    def promoted(self, m, fr, s):
        r = re.search(r'promoted\[(\d+)\]$', s)
        n = int(r.group(1))
        owner = fr.fn
        hdr = owner.header
        name = owner_header_name(hdr)
        lst = self.module.promoted.get((name, n)) or []
        if not lst:
            # match by function name
            for (nm, k), v in self.module.promoted.items():
                if k == n and nm.split('::')[-1] == owner.name:
                    lst = v
                    break
        if not lst:
            raise Unsupported('promoted ' + s)
        f = lst[0]
        if f.ret[0] == 'ref' and f.ret[2][0] in ('array', 'slice') and ('str' in str(f.ret) or 'Argument' in str(f.ret)):
            return Atom('text')
        v = self.run_fn(m, f, [], fr.env, keep=True)
        return v

    # ------------------------------------------------------------ running
    def run_fn(self, m, fn, args, env, keep=False):
        if m.depth > self.max_depth:
            raise Unsupported('recursion depth')
        fr = Frame(fn, env, self.module)
        m.depth += 1
        m.where.append(fn.key)
        try:
            if len(args) != len(fn.params):
                raise Unsupported('arity of ' + fn.key)
            for (n, t), v in zip(fn.params, args):
                fr.loc[n] = m.new_cell(v)
            r = self.run_blocks(m, fr, 0, None)
            if r[0] != 'ret':
                raise Unsupported('function left through ' + str(r))
            return r[1]
        finally:
            m.depth -= 1
            m.where.pop()
            if not keep:
                for c in fr.loc.values():
                    m.cells.pop(c, None)

    def run_blocks(self, m, fr, blk, loop):
        fn = fr.fn
        loops = find_loops(fn)
        first = True
        while True:
            if loop is not None:
                if blk == loop and not first:
                    return ('cont', None)
                if blk not in loops[loop]:
                    return ('exit', blk)
            if blk in loops and blk != loop:
                import loops as L
                h = blk
                blk = L.accelerate(self, m, (fn.key, h), lambda: self.run_blocks(m, fr, h, h), fr)
                first = False
                continue
            first = False
            stmts, term, cleanup = fn.blocks[blk]
            for s in stmts:
                self.stmt(m, fr, s)
            k = term[0]
            if k == 'goto':
                blk = term[1]
            elif k == 'return':
                v = m.cells.get(fr.loc.get(0, -1), UNITV)
                if v is UNINIT:
                    v = UNITV
                return ('ret', v)
            elif k == 'switch':
                blk = self.switch(m, fr, term)
            elif k == 'assert':
                v = self.operand(m, fr, term[1])
                c = v if term[2] else lnot(v)
                if m.branch(c, 'assert'):
                    blk = term[4]['return']
                else:
                    blk = self.unwind_to(m, term[4], 'panic')
            elif k == 'drop':
                try:
                    cur = self.resolve(m, fr, term[1])
                    self.drop_place(m, cur, self.place_type(fr, term[1]))
                    blk = term[2]['return']
                except Unwind as e:
                    blk = self.catch(m, term[2], e)
            elif k == 'call':
                try:
                    v = self.call_term(m, fr, term)
                    if 'return' not in term[4]:
                        raise Unsupported('diverging call returned: ' + term[2])
                    if term[1] is not None:
                        self.store(m, self.resolve(m, fr, term[1]), v)
                    blk = term[4]['return']
                except Unwind as e:
                    blk = self.catch(m, term[4], e)
            elif k == 'resume':
                tag = m.unwinding
                m.unwinding = None
                raise Unwind(tag)
            elif k == 'unreachable':
                m.prove(False, 'unreachable code is not reached')
                raise PathEnd()
            elif k == 'abort':
                raise PathEnd()
            else:
                raise Unsupported('terminator ' + k)

    def catch(self, m, d, e):
        if 'unwind' not in d:
            raise e
        m.unwinding = e.tag
        return d['unwind']

    def unwind_to(self, m, d, tag):
        if m.unwinding:
            raise PathEnd()
        if 'unwind' not in d:
            raise Unwind(tag)
        m.unwinding = tag
        return d['unwind']

    def panic(self, m, tag='panic'):
        if m.unwinding:
            raise PathEnd()          # abort
        raise Unwind(tag)

    def switch(self, m, fr, term):
        v = self.operand(m, fr, term[1])
        if isinstance(v, Agg) or isinstance(v, V):
            raise Unsupported('switch on %r' % (v,))
        other = None
        for k, b in term[2]:
            if k == 'otherwise':
                other = b
                continue
            if k in ('false', 'true'):
                c = v if k == 'true' else lnot(v)
                if not isz(v) and not isinstance(v, bool):
                    c = (v != 0) if k == 'true' else (v == 0)
            else:
                n = switch_key(k)
                if isz(v) and z3.is_bool(v):
                    c = v if n else lnot(v)
                elif isinstance(v, bool):
                    c = (v == bool(n))
                else:
                    c = eq(v, n)
            if m.branch(c, fr.fn.name):
                return b
        if other is None:
            raise PathEnd()
        return other

    # ------------------------------------------------------------ statements
    def stmt(self, m, fr, s):
        if s[0] == 'assign':
            v = self.rvalue(m, fr, s[2], s[1])
            if isinstance(v, Agg) and isinstance(v.variant, str) and not v.f and not s[1][1]:
                t = self.expand(subst(self.local_type(fr, s[1][0]), fr.env))
                if t[0] == 'array' and t[1] == ('adt', 'T', ()):
                    v = ArrVal(ZST_T if m.zst else z3.IntVal(0), 0)
            cur = self.resolve(m, fr, s[1])
            if cur[0] == 'cell' and cur[1].path and isinstance(m.cells[cur[1].cell], Atom):
                # building an aggregate field by field
                m.cells[cur[1].cell] = self.fresh_agg(fr, self.local_type(fr, s[1][0]))
            self.store(m, cur, v)
        elif s[0] == 'setdiscr':
            cur = self.resolve(m, fr, s[1])
            if cur[0] != 'cell':
                raise Unsupported('set discriminant')
            v = m.get(cur[1])
            ty = self.place_type(fr, s[1])
            f = v.f if isinstance(v, Agg) else {}
            # (the order of variants; Ordering's numbers start at -1)
            m.set(cur[1], Agg(ty, s[2] - 1 if head(ty) == 'Ordering' else s[2], f))
        else:
            raise Unsupported('statement %r' % (s,))

    def fresh_agg(self, fr, t):
        if t[0] == 'closure':
            return Agg(t, None, {'#env': fr.env})
        if t[0] == 'opaque':
            # the closure returned as `impl Fn..`
            cs = [f for f in self.closures.values() if f.key.startswith(fr.fn.key + '::{closure#')]
            if len(cs) == 1:
                return Agg(('closure', cs[0].closure_span), None, {'#env': fr.env})
            raise Unsupported('opaque value')
        return Agg(t, None, {})

    def rvalue(self, m, fr, r, dest):
        k = r[0]
        if k == 'use':
            return self.operand(m, fr, r[1])
        if k in ('ref', 'refm'):
            return self.addr_of(m, self.resolve(m, fr, r[1]))
        if k == 'rawptr':
            return self.addr_of(m, self.resolve(m, fr, r[2]), True)
        if k == 'bin':
            return self.binop(m, fr, r, dest)
        if k == 'un':
            v = self.operand(m, fr, r[2])
            if r[1] == 'Not':
                if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
                    return lnot(v)
                t = self.op_type(fr, r[2])
                return Agg(('adt', '#not', ()), None, {0: v}) if isz(v) else (MAX - v)
            raise Unsupported('unary ' + r[1])
        if k == 'len':
            cur = self.resolve(m, fr, r[1])
            if cur[0] == 'slice':
                return cur[1].n
            if cur[0] == 'cell':
                v = m.get(cur[1])
                if isinstance(v, Agg) and isinstance(v.variant, str):
                    return len(v.f)
                if isinstance(v, ArrVal):
                    return v.n
            raise Unsupported('Len')
        if k == 'discr':
            cur = self.resolve(m, fr, r[1])
            v = self.load(m, cur)
            if not isinstance(v, Agg) or v.variant is None:
                raise Unsupported('discriminant of %r' % (v,))
            return v.variant
        if k == 'cast':
            return self.cast(m, fr, r)
        if k == 'array':
            xs = [self.operand(m, fr, x) for x in r[1]]
            if xs and all(isinstance(x, EV) for x in xs):
                if m.zst:
                    return ArrVal(ZST_T, len(xs))
                e = lit(xs[-1].t)
                for i in reversed(range(len(xs) - 1)):
                    e = z3.If(IX == i, lit(xs[i].t), e)
                return ArrVal(e, len(xs))
            return Agg(('array', ('infer',), ('const', len(xs))), 'array', dict(enumerate(xs)))
        if k == 'tuple':
            xs = [self.operand(m, fr, x) for x in r[1]]
            return tup(*xs)
        if k == 'repeat':
            return self.bi.repeat(self, m, fr, r)
        raise Unsupported('rvalue %r' % (r,))

    def ptr_cmp(self, m, op, a, b):
        def key(p):
            return p
        if isinstance(a, IP) and isinstance(b, IP):
            x, y = a.a, b.a
        elif isinstance(a, EP) and isinstance(b, EP):
            if a.buf != b.buf and op in ('Eq', 'Ne'):
                # the end of one allocation may be the start of another
                m.fresh_n += 1
                r = z3.Bool('same_addr!%d' % m.fresh_n)
                return r if op == 'Eq' else lnot(r)
            if a.buf != b.buf:
                raise Unsupported('comparison of pointers into different buffers')
            if m.zst:
                x = y = 0
            else:
                if not isinstance(simp(eq(a.epoch, b.epoch)), bool) or not eq(a.epoch, b.epoch):
                    m.prove(eq(a.epoch, b.epoch), 'compared pointers belong to the same allocation')
                x, y = a.off, b.off
        elif isinstance(a, Ref) and isinstance(b, Ref) and op in ('Eq', 'Ne'):
            same = a.cell == b.cell and a.path == b.path
            return same if op == 'Eq' else not same
        else:
            raise Unsupported('comparison of %r and %r' % (a, b))
        return {'Eq': eq(x, y), 'Ne': lnot(eq(x, y)), 'Lt': lt(x, y), 'Le': le(x, y), 'Gt': lt(y, x), 'Ge': le(y, x)}[op]

    def binop(self, m, fr, r, dest):
        op = r[1]
        a = self.operand(m, fr, r[2])
        b = self.operand(m, fr, r[3])
        if isinstance(a, Agg) and a.ty[1] == '#not' or isinstance(b, Agg) and b.ty[1] == '#not':
            return self.bi.mask_op(self, m, op, a, b)
        if isinstance(a, V) or isinstance(b, V):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return self.ptr_cmp(m, op, a, b)
            raise Unsupported('%s of %r %r' % (op, a, b))
        ab = isinstance(a, bool) or (isz(a) and z3.is_bool(a))
        if op == 'Eq':
            return eq(a, b)
        if op == 'Ne':
            return lnot(eq(a, b))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if ab:
                raise Unsupported('bool order')
            return {'Lt': lt(a, b), 'Le': le(a, b), 'Gt': lt(b, a), 'Ge': le(b, a)}[op]
        if ab:
            if op == 'BitAnd':
                return simp(land(a, b))
            if op == 'BitOr':
                return simp(lor(a, b))
            if op == 'BitXor':
                return lnot(eq(a, b))
            raise Unsupported(op)
        t = self.op_type(fr, r[2])
        if t[0] != 'adt':
            t = self.op_type(fr, r[3])
        lo, hi = INT_RANGE.get(t[1], (None, None)) if t[0] == 'adt' else (None, None)
        if lo is None:
            raise Unsupported('arithmetic on ' + show_type(t))
        base = op.replace('Checked', '')
        if base in ('Shl', 'Shr', 'BitOr', 'BitAnd', 'BitXor') and not isz(a) and not isz(b) and lo == 0:
            w = (hi + 1).bit_length() - 1
            if base in ('Shl', 'Shr'):
                x = (a << (b % w)) & hi if base == 'Shl' else a >> (b % w)
                return tup(x, not 0 <= b < w) if op.startswith('Checked') else x
            return {'BitOr': a | b, 'BitAnd': a & b, 'BitXor': a ^ b}[base]
        if lo == 0 and base in ('Shl', 'Shr') and isinstance(b, int) and 0 <= b < (hi + 1).bit_length() - 1:
            x = self.bi.int_div(m, a, 1 << b) if base == 'Shr' else self.wrap(m, m.mul(a, 1 << b), lo, hi)
            return tup(x, False) if op.startswith('Checked') else x
        if lo == 0 and base == 'BitAnd' and isinstance(a, int) and isz(b):
            a, b = b, a
        if lo == 0 and base == 'BitAnd' and isinstance(b, int) and b & (b + 1) == 0:
            return self.bi.int_rem(m, a, b + 1)
        if base == 'Add':
            x = add(a, b)
        elif base == 'Sub':
            x = sub(a, b)
        elif base == 'Mul':
            x = m.mul(a, b)
        elif base == 'Div':
            return self.bi.int_div(m, a, b)
        elif base == 'Rem':
            return self.bi.int_rem(m, a, b)
        else:
            raise Unsupported('operator ' + op)
        over = simp(lnot(land(le(lo, x), le(x, hi))))
        if op.startswith('Checked'):
            # the value is used only if no overflow (an assert follows)
            return tup(x, over)
        return self.wrap(m, x, lo, hi)

    def wrap(self, m, x, lo, hi):
        if not isz(x):
            w = hi - lo + 1
            return (x - lo) % w + lo
        w = hi - lo + 1
        if m.branch(land(le(lo, x), le(x, hi)), None):
            return x
        # x = k * 2^bits + r
        k, r = m.fresh('laps'), m.fresh('wrapped')
        m.assume(land(eq(x, add(r, k * w)), le(lo, r), le(r, hi)))
        return r

    def cast(self, m, fr, r):
        kind, v, t = r[1], self.operand(m, fr, r[2]), self.expand(subst(r[3], fr.env))
        if kind.startswith('Pointer(Unsize') or kind.startswith('Pointer(ArrayToPointer'):
            return self.bi.unsize(self, m, v, t, self.op_type(fr, r[2]))
        if kind.startswith('Pointer('):
            return v
        if t[0] == 'ptr':
            if isinstance(v, (EP, SP, Ref, Atom)):
                return self.ptr_cast(m, fr, v, t[2])
            if isinstance(v, IP):
                return v
            return IP(v)
        if t[0] == 'adt' and t[1] in INT_RANGE:
            if isinstance(v, IP):
                return v.a
            if isinstance(v, bool):
                return int(v)
            if isz(v) and z3.is_bool(v):
                return ite(v, 1, 0)
            if isinstance(v, Agg) and v.variant is not None:
                return v.variant
            if isinstance(v, V):
                raise Unsupported('cast of %r to %s' % (v, show_type(t)))
            lo, hi = INT_RANGE[t[1]]
            st = self.op_type(fr, r[2])
            slo, shi = INT_RANGE.get(st[1], (None, None)) if st[0] == 'adt' else (None, None)
            if slo is not None and slo >= lo and shi <= hi:
                return v
            if m.branch(land(le(lo, v), le(v, hi)), 'cast'):
                return v
            return simp(lit(v) % (hi + 1)) if lo == 0 else self.wrap(m, v, lo, hi)
        raise Unsupported('cast to ' + show_type(t))

    def ptr_cast(self, m, fr, v, target):
        if isinstance(v, EP):
            if target[0] == 'array':
                n = self.const_n(m, fr.env if fr else None, target[2])
                return EP(v.buf, v.epoch, v.off, n)
            if v.n is not None:
                return EP(v.buf, v.epoch, v.off)
            return v
        if isinstance(v, SP) and self.is_sized(target):
            return v.p
        if isinstance(v, Ref) and (target == ('adt', 'T', ()) or target[0] == 'array' and target[1] == ('adt', 'T', ())):
            # an array inside an inline buffer (transparent wrappers; repr(C) behind a zero-sized first field)
            try:
                x = m.get(v)
            except Unsupported:
                return v
            while isinstance(x, Agg) and x.ty and x.ty[1] in ('UninitBuffer', 'MaybeUninit', 'AlignedBuffer'):
                k = 0 if x.ty[1] != 'AlignedBuffer' else [i for i, (n, _) in enumerate(self.module.structs['AlignedBuffer'][1]) if n == 'value'][0]
                x = x.f.get(k)
            if isinstance(x, Agg) and x.ty and x.ty[1] == '#arrstore':
                p = EP(x.f['buf'].buf, 0, 0)
                return self.ptr_cast(m, fr, p, target) if target[0] == 'array' else p
        return v

    def is_sized(self, t):
        """certainly Sized (the target of a thin pointer)"""
        if t[0] in ('array', 'ptr', 'ref', 'tuple'):
            return True
        if t[0] == 'adt':
            if t[1] in INT_RANGE or t == ('adt', 'T', ()) or t == ('adt', 'U', ()):
                return True
            if t[1] == 'MaybeUninit':
                return True
        return False

    # ------------------------------------------------------------ drops
    def drop_place(self, m, cur, ty):
        if cur[0] == 'elem':
            p = cur[1]
            if isinstance(p, EP) and p.n is not None:
                m.e_drop_n(p, p.n)
            else:
                m.e_drop(p)
            return
        if cur[0] == 'slice':
            return m.e_drop_n(cur[1].p, cur[1].n)
        if cur[0] != 'cell':
            return
        ref = cur[1]
        v = m.get(ref)
        self.drop_val_at(m, ref, v, ty)

    def drop_val_at(self, m, ref, v, ty):
        if v is MOVED or v is UNINIT:
            # drop flags make this unreachable for live values; partially moved aggregates drop the rest
            return
        if isinstance(v, Atom):
            if v is POISON:
                raise Unsupported('drop of an untracked value')
            if v is STOLEN:
                m.prove(False, 'value not dropped after it was moved out')
            return
        if isinstance(v, EV):
            m.set(ref, MOVED)
            return m.drop_value(v.t)
        if isinstance(v, ArrVal):
            m.set(ref, MOVED)
            return m.drop_value(sbst(v.t, (IX, JX)), v.n)
        if isinstance(v, SA):
            m.set(ref, MOVED)
            return self.bi.drop_storage(self, m, v)
        if isinstance(v, Agg):
            ty = v.ty if v.ty and v.ty[0] != 'infer' else ty
            if ty and ty[0] == 'proj':
                raise Unsupported('drop of a value of type ' + show_type(ty))
            name = ty[1] if ty and ty[0] == 'adt' else None
            if name == 'Vec':
                return self.bi.drop_vec(self, m, ref, v)
            if name == 'ManuallyDrop' or name == 'MaybeUninit':
                return
            if name == 'Box':
                inner = v.f[0]
                if isinstance(inner, Ref):
                    self.drop_val_at(m, inner, m.get(inner), ('infer',))
                return
            pending = None
            if name:
                f = self.find_drop(m, ty)
                if f is not None:
                    fn, env = f
                    try:
                        self.call_fn(m, fn, [ref], env, None)
                    except Unwind as e:
                        pending = e
                        m.unwinding = e.tag
                    v = m.get(ref)
            try:
                order = sorted((x for x in v.f if isinstance(x, int)), key=int) if isinstance(v, Agg) else []
                for k in order:
                    r2 = Ref(ref.cell, ref.path + (k,))
                    x = m.get(r2)
                    if needs_drop(x):
                        try:
                            self.drop_val_at(m, r2, x, ('infer',))
                        except Unwind as e:
                            if pending is not None:
                                raise PathEnd()
                            pending = e
                            m.unwinding = e.tag
            finally:
                if pending is not None:
                    m.unwinding = None
            m.set(ref, MOVED)
            if pending is not None:
                raise Unwind(pending.tag)

    def find_drop(self, m, ty):
        for f in self.by_trait.get(('Drop', 'drop'), []):
            env = {}
            if f.impl.self[0] == 'adt' and unify(self.expand(f.impl.self), ty, f.impl.params, env):
                return f, env
        return None

    # ------------------------------------------------------------ calls
    def call_term(self, m, fr, term):
        _, dest, callee, ops, d = term
        args = [self.operand(m, fr, o) for o in ops]
        atys = [self.op_type(fr, o) for o in ops]
        dty = self.place_type(fr, dest) if dest is not None else ('never',)
        return self.call_path(m, fr, callee, args, atys, dty)

    def call_path(self, m, fr, callee, args, atys, dty):
        env0 = fr.env if isinstance(fr, Frame) else fr
        if re.match(r'^(move |copy )?_\d+$', callee) or callee.startswith('move '):
            raise Unsupported('indirect call')
        c = parse_callee(callee)
        return self.call_resolved(m, c, env0, args, atys, dty)

    def call_resolved(self, m, c, env0, args, atys, dty):
        name = c['name']
        gargs = tuple(self.expand(subst(g, env0)) for g in c['gargs'])
        if c['kind'] == 'trait':
            selfty = self.expand(subst(c['self'], env0))
            tr = subst(c['trait'], env0)
            tr = ('adt', tr[1], tuple(self.expand(x) for x in tr[2])) if tr[0] == 'adt' else tr
            return self.call_trait(m, selfty, tr, name, gargs, args, atys, dty)
        if c['kind'] == 'inherent':
            selfty = self.expand(subst(c['self'], env0))
            h = self.bi.lookup('inherent', selfty, name)
            if h is not None:
                self.builtins_used.add('%s::%s' % (head(selfty), name))
                return h(self, m, args, Info(selfty, None, name, gargs, atys, dty, env0))
            f = self.find_inherent(selfty, name, args, atys, dty)
            if f is not None:
                fn, env = f
                self.bind(fn, env, gargs, atys, dty)
                return self.call_fn(m, fn, args, env, selfty)
            # trait method called through the concrete type path
            for (tn, mn), fs in self.by_trait.items():
                if mn == name:
                    for fn in fs:
                        env = {}
                        if unify(self.expand(fn.impl.self), selfty, fn.impl.params, env) and fn.impl.self[0] == selfty[0]:
                            self.bind(fn, env, gargs, atys, dty)
                            return self.call_fn(m, fn, args, env, selfty)
            raise Unsupported('call %s' % c['path'])
        fs = [f for f in self.by_free.get(name, []) if len(f.params) == len(args) and
              not (f.impl is None and '::' in f.key and '{' not in f.key and name in f.key.split('::')[1:2] and f.key.split('::')[0][:1].isupper())]
        if not fs:
            # a function declared inside another one
            outer = re.findall(r'([A-Za-z_0-9]+)(?:::<[^()]*?>)?::%s\b' % re.escape(name), c['path'])
            fs = [f for o in outer[-1:] for f in self.by_free.get('%s::%s' % (o, name), []) if len(f.params) == len(args)]
        lib = c['path'].split('::')[0] in ('core', 'std', 'alloc')
        h = self.bi.lookup('free', c['path'], name) if lib or not fs else None
        if h is not None:
            self.builtins_used.add(name)
            return h(self, m, args, Info(None, None, name, gargs, atys, dty, env0))
        if fs:
            fn = self.pick_free(fs, args, c['path'])
            env = {}
            if fn.impl is not None:
                # nested function: inherits nothing
                pass
            self.bind(fn, env, gargs, atys, dty)
            return self.call_fn(m, fn, args, env, None)
        raise Unsupported('call %s' % c['path'])

    def pick_free(self, fs, args, path):
        fs = [f for f in fs if len(f.params) == len(args)]
        if not fs:
            raise Unsupported('no candidate')
        if len(fs) > 1:
            segs = re.findall(r'[A-Za-z_0-9]+', strip_generics(path))
            for n in range(len(segs), 0, -1):
                c = [f for f in fs if re.findall(r'[A-Za-z_0-9]+', strip_generics(f.key))[-n:] == segs[-n:]]
                if len(c) == 1:
                    return c[0]
                if c:
                    raise Unsupported('%d functions named %s' % (len(c), path))
        return fs[0]

    def bind(self, fn, env, gargs, atys, dty):
        params = set(fn.generics) | set(fn.impl.params if fn.impl else ())
        if gargs:
            gs = [g for g in fn.generics]
            for g, t in zip(gs, gargs):
                if t[0] != 'infer':
                    env.setdefault(g, t)
        for (n, t), at in zip(fn.params, atys):
            unify(self.expand(t), at, params, env)
        if dty[0] != 'never':
            unify(self.expand(fn.ret), dty, params, env)
        if fn.impl is not None:
            env.setdefault('Self', subst(self.expand(fn.impl.self), env))

    def find_inherent(self, selfty, name, args, atys, dty):
        best = None
        for fn in self.by_inherent.get(name, []):
            if len(fn.params) != len(args):
                continue
            env = {}
            if unify(self.expand(fn.impl.self), selfty, fn.impl.params, env):
                e2 = dict(env)
                params = set(fn.generics) | set(fn.impl.params)
                okk = all(unify(self.expand(t), at, params, e2) for (n, t), at in zip(fn.params, atys))
                if okk:
                    return fn, env
                best = best or (fn, env)
        return best

    def call_trait(self, m, selfty, tr, name, gargs, args, atys, dty):
        info = Info(selfty, tr, name, gargs, atys, dty, {})
        h = self.bi.lookup('trait', (selfty, tr, name), name, self, m, args)
        if h is not None:
            self.builtins_used.add('%s::%s' % (tr[1], name))
            return h(self, m, args, info)
        cands = []
        for fn in self.by_trait.get((tr[1], name), []):
            env = {}
            if selfty[0] == 'infer' or not unify(self.expand(fn.impl.self), selfty, fn.impl.params, env):
                continue
            if fn.impl.trait[2] and tr[2]:
                if not all(unify(a, b, fn.impl.params, env) for a, b in zip(fn.impl.trait[2], tr[2])):
                    continue
            e2 = dict(env)
            params = set(fn.generics) | set(fn.impl.params)
            if not all(unify(self.expand(t), at, params, e2) for (n, t), at in zip(fn.params, atys)):
                continue
            cands.append((fn, env))
        if len(cands) > 1:
            cands = self.bi.specialise(self, m, cands)
        if cands:
            fn, env = cands[0]
            self.bind(fn, env, gargs, atys, dty)
            return self.call_fn(m, fn, args, env, selfty)
        # provided method of a crate trait
        for fn in self.by_free.get(name, []):
            if fn.key.startswith(tr[1] + '::'):
                env = {'Self': selfty}
                if tr[2]:
                    env['T'] = tr[2][0]
                return self.call_fn(m, fn, args, env, selfty)
        st = selfty
        while st[0] == 'ref':
            st = st[2]
        if tr[1] in ('Iterator', 'DoubleEndedIterator') and st[0] == 'adt':
            # provided methods are taken as written in terms of next and next_back, or of an override that is under contract
            for n in ('fold', 'rfold', 'try_fold', 'try_rfold', 'advance_by', 'advance_back_by'):
                if any(head(f.impl.self) == st[1] for t in ('Iterator', 'DoubleEndedIterator') for f in self.by_trait.get((t, n), [])):
                    raise Unsupported('%s of an iterator with its own %s' % (name, n))
        h = self.bi.lookup('trait-default', (selfty, tr, name), name, self, m, args)
        if h is not None:
            self.builtins_used.add('%s::%s' % (tr[1], name))
            return h(self, m, args, info)
        raise Unsupported('trait call <%s as %s>::%s' % (show_type(selfty), show_type(tr), name))

    def call_fn(self, m, fn, args, env, selfty):
        key = contract_key(fn)
        c = self.contracts.get(key) if self.use_contracts else None
        if c is not None and not (self.target is fn and m.depth == 0) and c.applies(self, m, fn, args, env):
            self.called_contracts.add(key)
            m.where.append('contract of ' + key)
            try:
                return c.generate(self, m, args, env)
            finally:
                m.where.pop()
        self.inlined.add(fn.key)
        return self.run_fn(m, fn, args, env)

    # call a closure / function value
    def call_value(self, m, f, args, tys=None):
        if isinstance(f, Ref):
            v = m.get(f)
            if isinstance(v, Agg) and v.ty and v.ty[0] == 'closure':
                return self.call_closure(m, v, f, args)
            return self.call_value(m, v, args, tys)
        if isinstance(f, FnItem):
            txt, env = f.path
            fr = env
            return self.call_path(m, fr, txt, args, tys or [('infer',)] * len(args), ('infer',))
        if isinstance(f, Agg) and f.ty and f.ty[0] == 'closure':
            c = m.new_cell(f)
            try:
                return self.call_closure(m, f, Ref(c), args)
            finally:
                m.cells.pop(c, None)
        if isinstance(f, Abs):
            return self.bi.call_abs(self, m, f, args)
        raise Unsupported('call of value %r' % (f,))

    def call_closure(self, m, v, ref, args):
        fn = self.closures.get(v.ty[1])
        if fn is None:
            raise Unsupported('closure ' + str(v.ty))
        env = v.f.get('#env', {})
        t = fn.params[0][1]
        first = ref if t[0] == 'ref' else m.get(ref)
        return self.run_fn(m, fn, [first] + list(args), env)


def strip_generics(path):
    while True:
        p = re.sub(r'::<[^<>]*>|<[^<>]*>', '', path)
        if p == path:
            return p
        path = p


class Info:
    __slots__ = ('self', 'trait', 'name', 'gargs', 'atys', 'dty', 'env')

    def __init__(self, s, t, n, g, a, d, e):
        self.self, self.trait, self.name, self.gargs, self.atys, self.dty, self.env = s, t, n, g, a, d, e


def head(t):
    return t[1] if t[0] == 'adt' else t[0]


def needs_drop(v):
    if isinstance(v, (EV, ArrVal, SA)):
        return True
    if isinstance(v, Agg):
        if v.ty and v.ty[0] == 'adt' and v.ty[1] in ('ManuallyDrop', 'MaybeUninit', 'PhantomData'):
            return False
        if v.ty and v.ty[0] == 'adt' and v.ty[1] in ('Option', 'Result', 'Range'):
            return any(needs_drop(x) for k, x in v.f.items() if k != '#env')
        if v.ty and v.ty[0] == 'adt':
            return True
        return any(needs_drop(x) for k, x in v.f.items() if k != '#env')
    return False


def contract_key(fn):
    if fn.impl is None or '{' in fn.key:
        return fn.name
    h = head(fn.impl.self)
    if fn.impl.self[0] == 'ref':
        h = '&mut' if fn.impl.self[1] else '&'
    h = {'SliceVec': 'SliceVec'}.get(h, h)
    if fn.impl.trait is not None:
        return '%s for %s::%s' % (fn.impl.trait[1], h, fn.name)
    return '%s::%s' % (h, fn.name)


def owner_header_name(hdr):
    h = hdr
    if h.startswith('promoted['):
        return h
    if h.startswith(('const ', 'static ')):
        h = h.split(' ', 1)[1]
        i = h.rfind(': ')
        return h[:i]
    i = h.index('fn ') + 3
    h = h[i:]
    p = h.find('(_1:')
    if p < 0:
        p = h.find('() ->')
    return h[:p]


def mod_aliases(mod):
    """pub type X<..> = ..; of the crate (the variant active in this configuration)"""
    import os
    res = {}
    txt = mir.strip_comments(open(os.path.join(mod.root, 'src/lib.rs')).read())
    nightly = 'nightly' in mod.config['features']
    for m_ in re.finditer(r'\bpub type (\w+)\s*', txt):
        name = m_.group(1)
        if name == 'Target':
            continue
        rest = txt[m_.end():]
        params = []
        if rest.startswith('<'):
            e = mir.match_close(rest, 0)
            gen, rest = rest[1:e - 1], rest[e:]
            for g in mir.split_top(gen):
                g = g.strip()
                if not g or g.startswith("'"):
                    continue
                if g.startswith('const '):
                    params.append((g[6:].split(':')[0].strip(), None))
                    continue
                a = [x.strip() for x in g.split('=')]
                params.append((a[0].split(':')[0].strip(), mir.parse_type(a[1].split('::')[-1]) if len(a) > 1 else None))
        rest = rest.lstrip()
        if not rest.startswith('='):
            continue
        d = 0
        for k, ch in enumerate(rest):
            if ch in '[(<':
                d += 1
            elif ch in '])>':
                d -= 1
            elif ch == ';' and d == 0:
                break
        body = ' '.join(rest[1:k].split())
        body = re.sub(r"&\s*'\w+\s+", '&', body)
        body = re.sub(r'\b(raw|std|alloc|crate)::', '', body)
        body = re.sub(r'\b(alloc)::', '', body)
        if name == 'HeapVec' and (len(params) == 2) != nightly:
            continue
        try:
            res[name] = (params, mir.parse_type(body))
        except Exception:
            continue
    return res
