"""Parser for the MIR text printed by rustc 1.52.1 (-Zunpretty=mir, opt level 0).

The text is regenerated from /repo's working tree by every check; nothing in
/verif contains a copy of the verified code.
"""
import re, os, subprocess, hashlib, pickle

RUSTC = "/root/.rustup/toolchains/1.52.1-x86_64-unknown-linux-gnu/bin/rustc"


class ParseError(Exception):
    pass


# ---------------------------------------------------------------- utilities
OPEN = {'(': ')', '[': ']', '{': '}', '<': '>'}


def split_top(s, sep=','):
    """Split on `sep` at nesting depth 0 of () [] {} <> (-> is not a bracket)."""
    out, depth, cur, i, n = [], 0, [], 0, len(s)
    instr = False
    while i < n:
        c = s[i]
        if instr:
            cur.append(c)
            if c == '\\':
                cur.append(s[i + 1])
                i += 1
            elif c == '"':
                instr = False
            i += 1
            continue
        if c == '"':
            instr = True
            cur.append(c)
            i += 1
            continue
        if c == '-' and s[i:i + 2] == '->':
            cur.append('->')
            i += 2
            continue
        if c == '=' and s[i:i + 2] == '=>':
            cur.append('=>')
            i += 2
            continue
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        if depth == 0 and s.startswith(sep, i):
            out.append(''.join(cur))
            cur = []
            i += len(sep)
            continue
        cur.append(c)
        i += 1
    last = ''.join(cur)
    if last.strip() or out:
        out.append(last)
    return [x.strip() for x in out if x.strip() or sep != ',']


def match_close(s, i):
    """index just past the bracket matching s[i]"""
    depth = 0
    n = len(s)
    instr = False
    while i < n:
        c = s[i]
        if instr:
            if c == '\\':
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif s[i:i + 2] in ('->', '=>'):
            i += 2
            continue
        elif c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise ParseError('unbalanced: ' + s)


# ---------------------------------------------------------------- types
def T_adt(name, *args):
    return ('adt', name, tuple(args))


USIZE = T_adt('usize')
ISIZE = T_adt('isize')
BOOL = T_adt('bool')
UNIT = ('tuple', ())
PRIMS = {'usize', 'isize', 'bool', 'u8', 'u16', 'u32', 'u64', 'u128', 'i8', 'i16', 'i32', 'i64', 'i128', 'str', 'char'}

_tcache = {}


def parse_type(s):
    s = s.strip()
    r = _tcache.get(s)
    if r is None:
        r = _parse_type(s)
        _tcache[s] = r
    return r


def _parse_type(s):
    if s.startswith("for<"):
        s = s[match_close(s, 3):].strip()
    if s == '!':
        return ('never',)
    if s.startswith('&'):
        r = s[1:].strip()
        m = re.match(r"'[A-Za-z_]\w*\s*", r)
        if m:
            r = r[m.end():]
        if r.startswith('mut '):
            return ('ref', True, parse_type(r[4:]))
        return ('ref', False, parse_type(r))
    if s.startswith('*mut '):
        return ('ptr', True, parse_type(s[5:]))
    if s.startswith('*const '):
        return ('ptr', False, parse_type(s[7:]))
    if s.startswith('['):
        if s.startswith('[closure@'):
            return ('closure', re.sub(r'\s+', '', s[9:-1].split('#')[0]))
        inner = s[1:match_close(s, 0) - 1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('array', parse_type(parts[0]), parse_constgen(parts[1]))
        return ('slice', parse_type(inner))
    if s.startswith('('):
        end = match_close(s, 0)
        if end == len(s):
            return ('tuple', tuple(parse_type(x) for x in split_top(s[1:-1])))
    if s.startswith('fn(') or s.startswith('unsafe fn(') or s.startswith('extern'):
        m = re.search(r'\{(.*)\}\s*$', s)
        if m:
            return ('fndef', m.group(1).strip())
        return ('fnptr', s)
    if s.startswith('dyn ') or s.startswith('impl '):
        return ('opaque', s)
    if s.startswith('<'):
        end = match_close(s, 0)
        inner = s[1:end - 1]
        rest = s[end:]
        parts = split_top(inner, ' as ')
        if len(parts) == 2 and rest.startswith('::'):
            if re.match(r'::\w+::\w', rest):
                # an item local to a method: <X as Trait>::method::Item
                return parse_type(rest.split('::', 2)[2])
            return ('proj', parse_type(parts[0]), parse_type(parts[1]), rest[2:])
        if len(parts) == 1 and rest.startswith('::'):
            return ('proj', parse_type(parts[0]), None, rest[2:])
        raise ParseError('type ' + s)
    if re.fullmatch(r'-?\d+(_\w+)?', s):
        return ('const', int(s.split('_')[0]))
    if s == '_':
        return ('infer',)
    # path
    segs = path_segments(s)
    name, args = segs[-1]
    if len(segs) >= 2 and name[0].isupper() and segs[-2][0][0].isupper() and not segs[-2][1] and len(segs[-2][0]) <= 2:
        # I::Item style projection
        return ('proj', parse_type(segs[-2][0]), None, name)
    if len(segs) >= 2 and segs[-2][0] == 'Self':
        return ('proj', parse_type('Self'), None, name)
    return ('adt', name, tuple(args))


def parse_constgen(s):
    s = s.strip()
    if re.fullmatch(r'\d+(_usize)?', s):
        return ('const', int(s.split('_')[0]))
    m = re.fullmatch(r'const (\d+)_usize', s)
    if m:
        return ('const', int(m.group(1)))
    return ('adt', s.replace('const ', '').strip(), ())


def path_segments(s):
    """a::b::<T>::c<U> -> [(a,()),(b,(T)),(c,(U))]; lifetimes dropped"""
    segs = []
    for part in split_top(s, '::'):
        part = part.strip()
        if part.startswith('<'):
            inner = part[1:match_close(part, 0) - 1]
            if inner.startswith('impl ') and not (segs and segs[-1][0][:1].islower() and not segs[-1][1] and 'FnMut' in inner):
                segs.append(('<impl>', (inner[5:],)))
            elif segs and not segs[-1][1]:
                segs[-1] = (segs[-1][0], tuple(parse_type(x) for x in split_top(inner) if not x.startswith("'")))
            else:
                segs.append(('<impl>', (inner,)))
        else:
            i = part.find('<')
            if i > 0 and part.endswith('>'):
                name = part[:i]
                args = [x for x in split_top(part[i + 1:-1]) if not x.startswith("'")]
                args = [x for x in args if not re.match(r'^\w+ = ', x)] + [x.split(' = ', 1)[1] for x in args if re.match(r'^\w+ = ', x)]
                segs.append((name, tuple(parse_type(x) for x in args)))
            else:
                segs.append((part, ()))
    return segs


def show_type(t):
    k = t[0]
    if k == 'adt':
        return t[1] + ('<' + ', '.join(map(show_type, t[2])) + '>' if t[2] else '')
    if k == 'ref':
        return '&' + ('mut ' if t[1] else '') + show_type(t[2])
    if k == 'ptr':
        return '*' + ('mut ' if t[1] else 'const ') + show_type(t[2])
    if k == 'slice':
        return '[' + show_type(t[1]) + ']'
    if k == 'array':
        return '[' + show_type(t[1]) + '; ' + show_type(t[2]) + ']'
    if k == 'tuple':
        return '(' + ', '.join(map(show_type, t[1])) + ')'
    if k == 'const':
        return str(t[1])
    if k == 'proj':
        return '<%s as %s>::%s' % (show_type(t[1]), show_type(t[2]) if t[2] else '_', t[3])
    return str(t)


def subst(t, env):
    k = t[0]
    if k == 'adt':
        if not t[2] and t[1] in env:
            return env[t[1]]
        if not t[2]:
            return t
        return ('adt', t[1], tuple(subst(x, env) for x in t[2]))
    if k in ('ref', 'ptr'):
        return (k, t[1], subst(t[2], env))
    if k == 'slice':
        return (k, subst(t[1], env))
    if k == 'array':
        return (k, subst(t[1], env), subst(t[2], env))
    if k == 'tuple':
        return (k, tuple(subst(x, env) for x in t[1]))
    if k == 'proj':
        return (k, subst(t[1], env), subst(t[2], env) if t[2] else None, t[3])
    return t


def unify(pat, t, params, env):
    """match pattern type `pat` (with type params `params`) against `t`, extending env; returns success"""
    if pat[0] == 'adt' and not pat[2] and pat[1] in params:
        if pat[1] in env:
            return True
        if t[0] != 'infer':
            env[pat[1]] = t
        return True
    if pat[0] in ('proj', 'opaque', 'infer') or t[0] in ('proj', 'opaque', 'infer'):
        return True
    if pat[0] == 'fndef' or t[0] == 'fndef':
        return True
    if pat[0] != t[0]:
        return False
    k = pat[0]
    if k == 'adt':
        if pat[1] != t[1]:
            return False
        ok = True
        for a, b in zip(pat[2], t[2]):
            ok = unify(a, b, params, env) and ok
        return ok
    if k == 'ref':
        return unify(pat[2], t[2], params, env)
    if k == 'ptr':
        return unify(pat[2], t[2], params, env)
    if k == 'slice':
        return unify(pat[1], t[1], params, env)
    if k == 'array':
        ok = unify(pat[1], t[1], params, env)
        return unify(pat[2], t[2], params, env) and ok
    if k == 'tuple':
        if len(pat[1]) != len(t[1]):
            return False
        ok = True
        for a, b in zip(pat[1], t[1]):
            ok = unify(a, b, params, env) and ok
        return ok
    if k == 'const':
        return pat[1] == t[1]
    return True


# ---------------------------------------------------------------- callee paths
_ccache = {}


def parse_callee(s):
    """-> dict(kind, ...)
    kind 'trait': self, trait (adt type), name, gargs
    kind 'inherent': self type or adt name with args, name, gargs
    kind 'free': name, gargs, path
    """
    r = _ccache.get(s)
    if r is None:
        r = _ccache[s] = _parse_callee(s.strip())
    return r


def _parse_callee(s):
    if s.startswith('<'):
        end = match_close(s, 0)
        inner = s[1:end - 1]
        rest = s[end:]
        if rest.startswith('::'):
            segs = path_segments(rest[2:])
            parts = split_top(inner, ' as ')
            name, gargs = segs[-1]
            if len(parts) == 2:
                if len(segs) > 1:
                    return dict(kind='free', name=name, gargs=gargs, path=s)
                return dict(kind='trait', self=parse_type(parts[0]), trait=parse_type(parts[1]), name=name, gargs=gargs, path=s)
            return dict(kind='inherent', self=parse_type(parts[0]), name=name, gargs=gargs, path=s)
    segs = path_segments(s)
    name, gargs = segs[-1]
    if len(segs) >= 2:
        pn, pa = segs[-2]
        if pn == '<impl>':
            txt = pa[0]
            if ' for ' in txt:
                txt = txt.split(' for ', 1)[1]
            if txt.startswith('at '):
                return dict(kind='free', name=name, gargs=gargs, path=s)
            return dict(kind='inherent', self=parse_type(txt), name=name, gargs=gargs, path=s)
        if pn[0].isupper():
            return dict(kind='inherent', self=('adt', pn, tuple(pa)), name=name, gargs=gargs, path=s)
    return dict(kind='free', name=name, gargs=gargs, path='::'.join(n for n, _ in segs))


# ---------------------------------------------------------------- functions
class Func:
    __slots__ = ('header', 'name', 'impl_span', 'owner', 'params', 'ret', 'locals', 'blocks', 'argc', 'kind', 'impl',
                 'generics', 'key', 'closure_span', 'loops', 'mirtext', 'promoted_of')

    def __repr__(self):
        return '<Func %s>' % self.key


class Impl:
    __slots__ = ('params', 'trait', 'self', 'text', 'fns', 'default')


_src_cache = {}


def src_lines(root, path):
    k = os.path.join(root, path)
    if k not in _src_cache:
        with open(k) as f:
            _src_cache[k] = f.read().split('\n')
    return _src_cache[k]


def parse_generics_list(txt):
    names = []
    for g in split_top(txt):
        g = g.strip()
        if g.startswith("'"):
            continue
        if g.startswith('const '):
            g = g[6:]
        m = re.match(r'\w+', g)
        if m:
            names.append(m.group(0))
    return names


def strip_comments(txt):
    txt = re.sub(r'//[^\n]*', ' ', txt)
    return re.sub(r'/\*.*?\*/', ' ', txt, flags=re.S)


def parse_impl(root, span):
    m = re.match(r'(.*?):(\d+):(\d+):\s*(\d+):(\d+)', span)
    path, l0, c0, l1, c1 = m.group(1), *map(int, m.groups()[1:])
    lines = src_lines(root, path)
    body = '\n'.join([lines[l0 - 1][c0 - 1:]] + lines[l0:l1])
    body = strip_comments(body)
    im = Impl()
    i = body.find('impl')
    j = i + 4
    im.params = []
    rest = body[j:]
    if rest.lstrip().startswith('<'):
        k = rest.find('<')
        e = match_close(rest, k)
        im.params = parse_generics_list(rest[k + 1:e - 1])
        rest = rest[e:]
    k = find_top(rest, '{')
    head = rest[:k]
    im.text = ' '.join(head.split())
    head = re.split(r'\bwhere\b', im.text)[0].strip()
    parts = split_top(head, ' for ')
    if len(parts) == 2:
        im.trait = parse_type(parts[0])
        im.self = parse_type(parts[1].replace('$N', '_'))
    else:
        im.trait = None
        im.self = parse_type(head)
    im.fns = {}
    for m in re.finditer(r'\bfn\s+(\w+)\s*(<)?', rest[k:]):
        g = []
        if m.group(2):
            p = k + m.end() - 1
            e = match_close(rest, p)
            g = parse_generics_list(rest[p + 1:e - 1])
        im.fns.setdefault(m.group(1), g)
    return im


def find_top(s, ch):
    depth = 0
    i = 0
    while i < len(s):
        c = s[i]
        if s[i:i + 2] == '->':
            i += 2
            continue
        if depth == 0 and c == ch:
            return i
        if c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        i += 1
    return len(s)


class Module:
    """All functions, constants, structs of one configuration."""

    def __init__(self, root, text, config):
        self.root, self.config = root, config
        self.impls = {}
        self.funcs = []
        self.promoted = {}
        self.consts = []
        self.parse(text)
        self.scan_structs()
        self.free_generics = self.scan_free_fns()
        for f in self.funcs + self.consts:
            self.finish(f)

    # -- text level
    def parse(self, text):
        lines = text.split('\n')
        i = 0
        seen = {}
        while i < len(lines):
            ln = lines[i]
            if ln and not ln[0].isspace() and ln.rstrip().endswith('{') and (
                    ln.startswith(('fn ', 'const ', 'static ', 'promoted[')) or ' fn ' in ln[:12]):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                key = '\n'.join(lines[i:j])
                f = self.parse_func(ln, lines[i + 1:j])
                if f is not None and key not in seen:
                    seen[key] = 1
                    f.mirtext = (i, j)
                    if f.kind == 'fn':
                        self.funcs.append(f)
                    elif f.kind == 'promoted':
                        self.promoted.setdefault(f.name, []).append(f)
                    else:
                        self.consts.append(f)
                i = j
            i += 1

    def parse_func(self, head, body):
        f = Func()
        head = head.rstrip()[:-1].strip()
        f.header = head
        f.promoted_of = None
        f.closure_span = None
        f.generics = []
        f.impl = None
        f.loops = None
        if head.startswith('promoted['):
            m = re.match(r'promoted\[(\d+)\] in (.*?): (&.*) =$', head)
            f.kind = 'promoted'
            f.name = (m.group(2), int(m.group(1)))
            name = m.group(2)
            f.params, f.ret = [], parse_type(m.group(3))
        elif head.startswith(('const ', 'static ')):
            h = head.split(' ', 1)[1]
            # name: type =
            m = re.match(r'(.*?[A-Za-z0-9_}]): ([^:].*) =$', h)
            name = m.group(1)
            mm = re.match(r'((?:.*>::)?\w+): (.*) =$', h)
            if mm:
                name = mm.group(1)
                f.ret = parse_type(mm.group(2))
            else:
                f.ret = parse_type(m.group(2))
            f.kind = 'const'
            f.name = name
            f.params = []
        else:
            h = head[head.index('fn ') + 3:]
            p = h.find('(_1:')
            if p < 0:
                p = h.find('() ->')
            name = h[:p]
            e = match_close(h, p)
            f.params = []
            for x in split_top(h[p + 1:e - 1]):
                m = re.match(r'_(\d+): (.*)$', x, re.S)
                f.params.append((int(m.group(1)), parse_type(m.group(2))))
            f.ret = parse_type(h[e:].strip()[2:].strip())
            f.kind = 'fn'
            f.name = name
        f.key = name
        f.impl_span = None
        ms = re.findall(r'<impl at ([^>]*)>', name)
        if ms:
            f.impl_span = ms[-1]
        f.argc = len(f.params)
        f.locals = {0: f.ret}
        for n, t in f.params:
            f.locals[n] = t
        f.blocks = {}
        cur = None
        buf = []
        txt = []
        for ln in body:
            c = ln.find('//')
            if c >= 0 and '"' not in ln[:c]:
                ln = ln[:c]
            elif c >= 0:
                ln = re.sub(r'\s+// .*$', '', ln)
            ln = ln.strip()
            if ln:
                txt.append(ln)
        for ln in txt:
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', ln)
            if m and cur is None:
                f.locals[int(m.group(1))] = parse_type(m.group(2))
                continue
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', ln)
            if m:
                cur = int(m.group(1))
                buf = []
                cl = bool(m.group(2))
                continue
            if cur is not None and ln == '}':
                f.blocks[cur] = self.parse_block(buf, cl)
                cur = None
                continue
            if cur is not None:
                buf.append(ln)
        return f

    def parse_block(self, lines, cleanup):
        # join multi-line? MIR statements are on one line
        stmts = []
        for ln in lines[:-1]:
            if ln.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'AscribeUserType', 'Retag', 'Coverage')):
                continue
            stmts.append(parse_stmt(ln))
        term = parse_term(lines[-1])
        return (stmts, term, cleanup)

    # -- sources
    def scan_structs(self):
        """struct field names/types, from the real source (feature-filtered by existence in MIR config)."""
        self.structs = {}
        feats = self.config['features']
        files = []
        for d, _, fs in os.walk(os.path.join(self.root, 'src')):
            for fn in fs:
                if fn.endswith('.rs'):
                    files.append(os.path.join(d, fn))
        for p in sorted(files):
            rel = os.path.relpath(p, self.root)
            if 'nightly' in rel and 'nightly' not in feats:
                continue
            if rel.endswith('stable.rs') and 'nightly' in feats:
                continue
            txt = strip_comments(open(p).read())
            for m in re.finditer(r'\b(struct|enum)\s+(\w+)\s*(<)?', txt):
                name = m.group(2)
                pos = m.end()
                gens = []
                if m.group(3):
                    e = match_close(txt, m.end() - 1)
                    gens = parse_generics_list(txt[m.end():e - 1])
                    pos = e
                rest = txt[pos:]
                mm = re.match(r'\s*(where[^{]*)?\{', rest)
                if m.group(1) == 'struct':
                    if mm:
                        e = match_close(rest, mm.end() - 1)
                        body = rest[mm.end():e - 1]
                        fields = []
                        for x in split_top(body):
                            x = re.sub(r'#\[[^\]]*\]', '', x).strip()
                            x = re.sub(r'^pub(\([^)]*\))?\s+', '', x)
                            if ':' in x:
                                n, t = x.split(':', 1)
                                fields.append((n.strip(), parse_type(t.strip())))
                        self.structs[name] = (gens, fields)
                    else:
                        mt = re.match(r'\s*\(', rest)
                        if mt:
                            e = match_close(rest, mt.end() - 1)
                            body = rest[mt.end():e - 1]
                            fields = []
                            for n, x in enumerate(split_top(body)):
                                x = re.sub(r'^pub(\([^)]*\))?\s+', '', x.strip())
                                fields.append((str(n), parse_type(x)))
                            self.structs[name] = (gens, fields)
                elif mm:
                    e = match_close(rest, mm.end() - 1)
                    vs = [re.match(r'\w+', re.sub(r'#\[[^\]]*\]', '', v).strip()).group(0) for v in split_top(rest[mm.end():e - 1])]
                    self.structs[name] = (gens, ('enum', vs))

    def scan_free_fns(self):
        res = {}
        for d, _, fs in os.walk(os.path.join(self.root, 'src')):
            for fn in fs:
                if fn.endswith('.rs'):
                    txt = strip_comments(open(os.path.join(d, fn)).read())
                    for m in re.finditer(r'\bfn\s+(\w+)\s*(<)', txt):
                        e = match_close(txt, m.end() - 1)
                        res.setdefault(m.group(1), []).append(parse_generics_list(txt[m.end():e - 1]))
        return res

    def finish(self, f):
        if f.impl_span:
            if f.impl_span not in self.impls:
                self.impls[f.impl_span] = parse_impl(self.root, f.impl_span)
            f.impl = self.impls[f.impl_span]
            if f.impl.self[0] == 'array' and f.impl.self[2] == ('adt', '_', ()):
                # generated by a macro once per array length: the length is in the signature
                ts = [t[2] if t[0] in ('ref', 'ptr') else t for _, t in f.params] + [f.ret]
                ns = [t[2] for t in ts if t[0] == 'array' and t[2][0] == 'const']
                if ns:
                    import copy
                    f.impl = copy.copy(f.impl)
                    f.impl.self = ('array', f.impl.self[1], ns[0])
        key = f.name if isinstance(f.name, str) else f.name[0]
        tail = key.split('>::')[-1] if f.impl_span else key
        f.name = tail if f.impl_span else key.split('::')[-1] if '{' not in key else key
        f.owner = None
        if '{closure' in key:
            f.kind = 'closure' if f.kind == 'fn' else f.kind
            t = f.locals.get(1)
            while t and t[0] == 'ref':
                t = t[2]
            if t and t[0] == 'closure':
                f.closure_span = t[1]
        elif f.impl is not None and '::' not in tail:
            f.generics = f.impl.fns.get(f.name, [])
        else:
            g = self.free_generics.get(f.name, [])
            f.generics = g[0] if g else []
        if f.impl is not None:
            s = f.impl.self
            f.key = '%s%s::%s' % ((show_type(f.impl.trait) + ' for ') if f.impl.trait else '', show_type(s), tail)
        else:
            f.key = key


# ---------------------------------------------------------------- statements
BINOPS = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitAnd', 'BitOr', 'BitXor', 'Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge', 'Offset',
          'Shl', 'Shr', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}

_place_cache = {}


def parse_place(s):
    """-> (local, (proj...)); proj: ('deref',) ('field', n, type) ('downcast', name) ('index', local) ('cindex', n, from_end)"""
    s = s.strip()
    r = _place_cache.get(s)
    if r is None:
        r, rest = _place(s)
        if rest.strip():
            raise ParseError('place %r rest %r' % (s, rest))
        _place_cache[s] = r
    return r


def _place(s):
    s = s.strip()
    if s.startswith('('):
        e = match_close(s, 0)
        inner = s[1:e - 1].strip()
        rest = s[e:]
        if inner.startswith('*'):
            base, r = _place(inner[1:])
            if r.strip():
                raise ParseError('deref ' + s)
            pl = (base[0], base[1] + (('deref',),))
        else:
            # (place as Variant) or (place.n: Type)
            m = split_top(inner, ' as ')
            if len(m) == 2 and len(split_top(inner, ': ')) == 1:
                base, r = _place(m[0])
                pl = (base[0], base[1] + (('downcast', m[1].strip()),))
            else:
                parts = split_top(inner, ': ')
                left = parts[0]
                typ = ': '.join(parts[1:])
                mm = re.match(r'^(.*)\.(\d+)$', left, re.S)
                if not mm:
                    raise ParseError('place ' + s)
                base, r = _place(mm.group(1))
                pl = (base[0], base[1] + (('field', int(mm.group(2)), parse_type(typ)),))
        return _place_suffix(pl, rest)
    m = re.match(r'_(\d+)', s)
    if not m:
        raise ParseError('place ' + s)
    return _place_suffix((int(m.group(1)), ()), s[m.end():])


def _place_suffix(pl, rest):
    while rest.startswith('['):
        e = match_close(rest, 0)
        inner = rest[1:e - 1]
        rest = rest[e:]
        m = re.match(r'_(\d+)$', inner)
        if m:
            pl = (pl[0], pl[1] + (('index', int(m.group(1))),))
            continue
        m = re.match(r'(-?\d+) of (\d+)$', inner)
        if m:
            pl = (pl[0], pl[1] + (('cindex', int(m.group(1))),))
            continue
        raise ParseError('index ' + inner)
    return pl, rest


def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('move', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('copy', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:].strip())
    if re.match(r'[_(]', s) and not s.startswith('()'):
        try:
            return ('copy', parse_place(s))
        except ParseError:
            pass
    return ('fnitem', s)


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('&raw mut '):
        return ('rawptr', True, parse_place(s[9:]))
    if s.startswith('&raw const '):
        return ('rawptr', False, parse_place(s[11:]))
    if s.startswith('&mut '):
        return ('refm', parse_place(s[5:]))
    if s.startswith('&'):
        r = s[1:]
        if r.startswith('shallow '):
            r = r[8:]
        return ('ref', parse_place(r))
    m = re.match(r'(\w+)\(', s)
    if m and m.group(1) in BINOPS:
        e = match_close(s, m.end() - 1)
        if e == len(s):
            a = split_top(s[m.end():-1])
            return ('bin', m.group(1), parse_operand(a[0]), parse_operand(a[1]))
    if m and m.group(1) in ('Not', 'Neg'):
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if m and m.group(1) == 'Len':
        return ('len', parse_place(s[m.end():-1]))
    if m and m.group(1) == 'discriminant':
        return ('discr', parse_place(s[m.end():-1]))
    if m and m.group(1) in ('SizeOf', 'AlignOf', 'Box'):
        return ('nullop', m.group(1), s[m.end():-1])
    mm = re.match(r'^(.*) as (.*) \(((?:Misc|Pointer\(.*\)))\)$', s, re.S)
    if mm:
        return ('cast', mm.group(3), parse_operand(mm.group(1)), parse_type(mm.group(2)))
    if s.startswith('['):
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parse_constgen(parts[1]))
        if s.startswith('[closure@'):
            return ('closure', s)
        return ('array', [parse_operand(x) for x in split_top(inner)])
    if s.startswith(('move ', 'copy ', 'const ')):
        return ('use', parse_operand(s))
    if s.startswith('(') and match_close(s, 0) == len(s):
        # tuple aggregate or a place
        try:
            return ('use', ('copy', parse_place(s)))
        except ParseError:
            return ('tuple', [parse_operand(x) for x in split_top(s[1:-1])])
    if re.match(r'^[_(]', s):
        try:
            return ('use', ('copy', parse_place(s)))
        except ParseError:
            pass
    return ('unknown', s)


def parse_stmt(ln):
    assert ln.endswith(';'), ln
    ln = ln[:-1]
    m = re.match(r'^discriminant\((.*)\) = (-?\d+)$', ln)
    if m:
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    parts = split_top(ln, ' = ')
    if len(parts) >= 2:
        lhs = parts[0]
        rhs = ' = '.join(parts[1:])
        return ('assign', parse_place(lhs), parse_rvalue(rhs))
    return ('unknown', ln)


def parse_targets(s):
    """'bb3' or '[return: bb1, unwind: bb2]' or '[false: bb1, otherwise: bb2]'"""
    s = s.strip()
    m = re.match(r'^bb(\d+)$', s)
    if m:
        return {'return': int(m.group(1))}
    d = {}
    for x in split_top(s[1:-1]):
        k, v = x.rsplit(':', 1)
        d[k.strip()] = int(v.strip()[2:])
    return d


def parse_term(ln):
    assert ln.endswith(';'), ln
    ln = ln[:-1]
    if ln == 'return':
        return ('return',)
    if ln == 'resume':
        return ('resume',)
    if ln == 'unreachable':
        return ('unreachable',)
    if ln == 'abort':
        return ('abort',)
    m = re.match(r'^goto -> bb(\d+)$', ln)
    if m:
        return ('goto', int(m.group(1)))
    parts = split_top_arrow(ln)
    if ln.startswith('switchInt('):
        e = match_close(ln, 9)
        op = parse_operand(ln[10:e - 1])
        t = []
        for x in split_top(ln[e:].split('->', 1)[1].strip()[1:-1]):
            k, v = x.rsplit(':', 1)
            k = k.strip()
            v = int(v.strip()[2:])
            t.append((k, v))
        return ('switch', op, t)
    if ln.startswith('drop('):
        e = match_close(ln, 4)
        return ('drop', parse_place(ln[5:e - 1]), parse_targets(ln[e:].split('->', 1)[1]))
    if ln.startswith('assert('):
        e = match_close(ln, 6)
        args = split_top(ln[7:e - 1])
        cond = args[0]
        exp = True
        if cond.startswith('!'):
            exp = False
            cond = cond[1:]
        d = parse_targets(ln[e:].split('->', 1)[1])
        if 'success' in d:
            d['return'] = d.pop('success')
        return ('assert', parse_operand(cond), exp, args[1:], d)
    if ln.startswith('falseEdge') or ln.startswith('falseUnwind'):
        m = re.search(r'(?:real|imaginary)?:? ?bb(\d+)', ln)
        return ('goto', int(m.group(1)))
    # call
    left, tgt = parts
    if ' = ' in left and re.match(r'^[_(]', left):
        p = split_top(left, ' = ')
        dest = parse_place(p[0])
        call = ' = '.join(p[1:])
    else:
        dest = None
        call = left
    # find the argument list: the last top-level parenthesis group
    e = len(call)
    i = last_paren(call)
    fn = call[:i]
    args = [parse_operand(x) for x in split_top(call[i + 1:-1])]
    d = {}
    if tgt is not None:
        d = parse_targets(tgt)
        if dest is None and 'unwind' not in d:
            d = {'unwind': d['return']}
    return ('call', dest, fn.strip(), args, d)


def split_top_arrow(ln):
    """split 'xxx -> targets' at the last top-level ' -> '"""
    depth = 0
    pos = -1
    i = 0
    instr = False
    while i < len(ln):
        c = ln[i]
        if instr:
            if c == '\\':
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif ln.startswith('->', i):
            if depth == 0:
                pos = i
            i += 2
            continue
        elif c in '([{<':
            depth += 1
        elif c in ')]}>':
            depth -= 1
        i += 1
    if pos < 0:
        return ln, None
    return ln[:pos].strip(), ln[pos + 2:].strip()


def last_paren(s):
    """index of '(' opening the final argument list"""
    assert s.endswith(')'), s
    # scan forward recording positions of top-level '('
    depth = 0
    pos = -1
    i = 0
    instr = False
    while i < len(s):
        c = s[i]
        if instr:
            if c == '\\':
                i += 1
            elif c == '"':
                instr = False
        elif c == '"':
            instr = True
        elif s.startswith('->', i):
            i += 2
            continue
        elif c in '([{<':
            if depth == 0 and c == '(':
                pos = i
            depth += 1
        elif c in ')]}>':
            depth -= 1
        i += 1
    return pos


# ---------------------------------------------------------------- driver
def build_text(root, features, debug, crate_root=None, crate='generic_vec', cwd=None):
    env = dict(os.environ, RUSTC_BOOTSTRAP='1')
    cmd = [RUSTC, '--crate-name', crate, '--crate-type', 'lib', '--edition', '2018']
    for f in features:
        cmd += ['--cfg', 'feature="%s"' % f]
    cmd += ['-Zunpretty=mir', '-Zmir-opt-level=0', '-Awarnings', '-C', 'debug-assertions=' + ('on' if debug else 'off'),
            '-C', 'overflow-checks=' + ('on' if debug else 'off'), crate_root or 'src/lib.rs']
    p = subprocess.run(cmd, cwd=cwd or root, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if p.returncode != 0:
        raise ParseError('rustc failed: ' + p.stderr[-3000:])
    return p.stdout


EXTRA = ''


def with_probe(root, features, debug, counts):
    """MIR of the crate with a module of macro uses appended to (a copy of) its root file: the macros expand to code in their caller,
    so this is how their expansions are obtained.  Everything else is the crate's own text."""
    import tempfile, shutil
    d = tempfile.mkdtemp(prefix='vcprobe')
    try:
        shutil.copytree(os.path.join(root, 'src'), os.path.join(d, 'src'))
        probe = open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'probe.rs')).read()
        if not counts:
            probe = re.sub(r'(?s)//COUNT.*//END', '', probe)
        with open(os.path.join(d, 'src', 'lib.rs'), 'a') as f:
            f.write(probe + EXTRA)
        return build_text(d, features, debug)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def load(root, features, debug, cache_dir=None):
    for counts in (True, False):
        try:
            text = with_probe(root, features, debug, counts)
            break
        except ParseError:
            pass
    else:
        # (the macro contracts are then reported as unanchored)
        text = build_text(root, features, debug)
    return Module(root, text, dict(features=list(features), debug=debug))
