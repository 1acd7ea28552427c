"""Loads LLVM IR text (clang -O0 -g, mem2reg) into Python objects: types, globals, functions, CFG, debug info."""
import re, os, subprocess, tempfile, glob, shutil, sys
from functools import lru_cache

TOK = re.compile(r'''
  \s+|
  (?P<str>c?"(?:[^"\\]|\\.)*")|
  (?P<loc>%(?:"[^"]*"|[-\w.$]+))|
  (?P<glob>@(?:"[^"]*"|[-\w.$]+))|
  (?P<meta>!(?:[\w.]+)?)|
  (?P<attr>\#\d+)|
  (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?|0x[0-9A-Fa-fKLMH]+)(?![\w])|
  (?P<word>[A-Za-z_][\w.]*)|
  (?P<dots>\.\.\.)|
  (?P<p>[\[\]{}()<>,=*:|])
''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            raise SyntaxError('IR token at: ' + s[i:i + 60] + ' in ' + s[:200])
        i = m.end()
        k = m.lastgroup
        if k:
            out.append((k, m.group(k)))
    return out


class Named:
    __slots__ = ('name',)

    def __init__(s, name): s.name = name
    def __eq__(s, o): return isinstance(o, Named) and o.name == s.name
    def __hash__(s): return hash(('N', s.name))
    def __repr__(s): return s.name


# ---- values -------------------------------------------------------------------------------------------------
# ('loc', name) ('glob', name) ('int', v) ('null',) ('undef',) ('cexpr', op, type, [ (type,val)...]) ('agg',[..])
# ('zero',) ('str', bytes) ('fp', text) ('meta', ...)

INT = re.compile(r'i\d+$')
SKIPWORDS = set('''noundef nonnull signext zeroext noalias nocapture readonly writeonly readnone returned immarg inreg
 nest swiftself swifterror nofree inbounds nuw nsw exact volatile dso_local tail musttail notail fastcc ccc
 dead_on_unwind writable allocalign allocptr noundef disjoint nneg nusw samesign inrange writable captures'''.split())


class P:
    """token cursor"""
    def __init__(self, toks, mod): self.t = toks; self.i = 0; self.m = mod
    def peek(self, k=0): return self.t[self.i + k] if self.i + k < len(self.t) else (None, None)
    def next(self):
        r = self.peek(); self.i += 1; return r
    def eat(self, v):
        if self.peek()[1] == v: self.i += 1; return True
        return False
    def expect(self, v):
        if not self.eat(v): raise SyntaxError('expected %r got %r in %r' % (v, self.peek(), ' '.join(str(x[1]) for x in self.t)[:300]))

    def type(self):
        k, v = self.next()
        if k == 'word' and (INT.match(v) or v in ('void', 'ptr', 'float', 'double', 'x86_fp80', 'label', 'metadata', 'token', 'half', 'fp128')):
            ty = v
            if v == 'ptr' and self.peek()[1] == 'addrspace':
                self.next(); self.expect('('); self.next(); self.expect(')')
        elif k == 'loc':
            ty = Named(v[1:].strip('"'))
        elif v == '[':
            n = int(self.next()[1]); self.next(); e = self.type(); self.expect(']'); ty = ('arr', n, e)
        elif v == '{':
            fs = []
            while not self.eat('}'):
                fs.append(self.type()); self.eat(',')
            ty = ('struct', tuple(fs))
        elif v == '<':
            if self.peek()[1] == '{':
                ty = self.type(); self.expect('>'); ty = ('packed',) + ty[1:]
            else:
                n = int(self.next()[1]); self.next(); e = self.type(); self.expect('>'); ty = ('vec', n, e)
        elif k == 'word' and v == 'opaque':
            ty = 'opaque'
        else:
            raise SyntaxError('type? %r %r' % (k, v) + ' '.join(str(x[1]) for x in self.t)[:300])
        while self.peek()[1] == '(' and (ty == 'void' or self.m._fnty):
            # function type
            self.next(); args = []
            while not self.eat(')'):
                if self.peek()[0] == 'dots': self.next(); args.append('...')
                else: args.append(self.type())
                self.eat(',')
            ty = ('fn', ty, tuple(args))
        return ty

    def attrs(self):
        while True:
            k, v = self.peek()
            if k == 'word' and v in SKIPWORDS: self.next()
            elif k == 'word' and v in ('align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'allocsize', 'memory', 'range'):
                self.next()
                if self.peek()[1] == '(':
                    d = 0
                    while True:
                        x = self.next()[1]
                        if x == '(': d += 1
                        if x == ')':
                            d -= 1
                            if d == 0: break
                else: self.next()
            else: return

    def value(self, ty):
        k, v = self.next()
        if k == 'loc': return ('loc', v[1:].strip('"'))
        if k == 'glob': return ('glob', v[1:].strip('"'))
        if k == 'num':
            if ty in ('float', 'double', 'x86_fp80', 'half', 'fp128'): return ('fp', v)
            return ('int', int(v))
        if k == 'word':
            if v == 'null': return ('null',)
            if v in ('undef', 'poison'): return ('undef',)
            if v == 'true': return ('int', 1)
            if v == 'false': return ('int', 0)
            if v == 'zeroinitializer': return ('zero',)
            if v == 'none': return ('null',)
            # constant expression
            op = v
            self.attrs()
            if op in ('icmp', 'fcmp'): pred = self.next()[1]
            self.expect('(')
            ops = []
            sty = None
            if op == 'getelementptr':
                self.attrs()
                sty = self.type(); self.expect(',')
            while not self.eat(')'):
                self.attrs()
                t = self.type(); self.attrs(); ops.append((t, self.value(t)))
                if self.peek()[1] == 'to': self.next(); sty = self.type()
                self.eat(',')
            return ('cexpr', op, sty, ops)
        if k == 'str':
            b = v[1:] if v[0] == 'c' else v
            return ('str', unescape(b[1:-1]))
        if v == '[' or v == '{' or v == '<':
            close = {'[': ']', '{': '}', '<': '>'}[v]
            out = []
            if v == '<' and self.peek()[1] == '{':
                r = self.value(ty); self.expect('>'); return r
            while not self.eat(close):
                t = self.type(); out.append((t, self.value(t))); self.eat(',')
            return ('agg', out)
        if k == 'meta':
            # metadata operand; swallow
            d = 0
            while self.peek()[0] is not None:
                x = self.peek()[1]
                if x == '(': d += 1
                if x == ')':
                    if d == 0: break
                    d -= 1
                if x == ',' and d == 0: break
                self.next()
            return ('meta', v)
        raise SyntaxError('value? %r %r' % (k, v) + ' '.join(str(x[1]) for x in self.t)[:300])

    def tyval(self):
        self.attrs()
        t = self.type(); self.attrs()
        return t, self.value(t)


def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\': out.append(92); i += 2
            else: out.append(int(s[i + 1:i + 3], 16)); i += 3
        else: out.append(ord(s[i]) & 255); i += 1
    return bytes(out)


class Instr:
    __slots__ = ('op', 'res', 'ty', 'ops', 'x', 'dbg', 'block', 'idx', 'fn')
    # op: opcode; res: result name or None; ty: result type; ops: list of (type,value); x: extra
    def __repr__(s): return '<%s %s = %s %s %s>' % (s.fn.name if s.fn else '', s.res, s.op, s.ops, s.x)
    @property
    def line(s): return s.fn.mod.loc_line(s.dbg)
    @property
    def where(s): return s.fn.mod.loc_str(s.dbg, s.fn)


class Block:
    __slots__ = ('name', 'ins', 'succ', 'pred', 'fn', 'rpo')
    def __init__(s, name, fn): s.name = name; s.ins = []; s.succ = []; s.pred = []; s.fn = fn; s.rpo = -1


class Function:
    def __init__(s, mod): s.mod = mod; s.blocks = {}; s.order = []; s.params = []; s.name = None; s.dbg = None; s.ret = None; s.vararg = False; s.internal = False; s.instr_by_res = {}
    def __repr__(s): return '<fn %s>' % s.name
    @property
    def src(s):  # source-level name
        d = s.mod.md.get(s.dbg)
        return d.get('name', s.name) if d else s.name
    @property
    def file(s):
        return s.mod.di_file(s.dbg)
    @property
    def line(s):
        d = s.mod.md.get(s.dbg)
        return int(d.get('line', 0)) if d else 0
    def instrs(s):
        for b in s.order:
            for i in b.ins: yield i

    def compute(s):
        names = {b.name: b for b in s.order}
        for b in s.order:
            t = b.ins[-1]
            b.succ = []
            if t.op == 'br': b.succ = [names[x] for x in t.x]
            elif t.op == 'switch': b.succ = [names[t.x[0]]] + [names[l] for _, l in t.x[1]]
            seen = []
            for q in b.succ:
                if q not in seen: seen.append(q)
            b.succ = seen
        for b in s.order: b.pred = []
        for b in s.order:
            for q in b.succ: q.pred.append(b)
        # rpo
        post = []; vis = set()
        st = [(s.order[0], iter(s.order[0].succ))]; vis.add(s.order[0])
        while st:
            b, it = st[-1]
            for q in it:
                if q not in vis:
                    vis.add(q); st.append((q, iter(q.succ))); break
            else:
                post.append(b); st.pop()
        for k, b in enumerate(reversed(post)): b.rpo = k
        s.rpo = list(reversed(post))

    def dominators(s):
        if hasattr(s, '_idom'): return s._idom
        idom = {s.rpo[0]: s.rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in s.rpo[1:]:
                ps = [p for p in b.pred if p in idom]
                if not ps: continue
                n = ps[0]
                for p in ps[1:]:
                    a, c = p, n
                    while a is not c:
                        while a.rpo > c.rpo: a = idom[a]
                        while c.rpo > a.rpo: c = idom[c]
                    n = a
                if idom.get(b) is not n: idom[b] = n; ch = True
        s._idom = idom
        return idom

    def dominates(s, a, b):
        idom = s.dominators()
        while True:
            if a is b: return True
            if idom.get(b) is b or b not in idom: return False
            b = idom[b]

    def loops(s):
        """natural loops: {head: set(blocks)}"""
        if hasattr(s, '_loops'): return s._loops
        L = {}
        for b in s.rpo:
            for q in b.succ:
                if s.dominates(q, b):
                    body = L.setdefault(q, {q})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x in body: continue
                        body.add(x); st.extend(p for p in x.pred if p.rpo >= 0)
        s._loops = L
        return L


class Module:
    def __init__(self):
        self.types = {}; self.globals = {}; self.funcs = {}; self.decls = {}; self.md = {}; self._fnty = True
        self.raw_md = {}

    # ---- debug info
    def loc_line(self, d):
        m = self.md.get(d)
        return int(m.get('line', 0)) if m else 0

    def di_file(self, d):
        seen = 0
        while d and seen < 60:
            m = self.md.get(d)
            if not m: return '?'
            if 'file' in m and m['file'] in self.md:
                f = self.md[m['file']]
                p = f.get('filename', '?')
                if not p.startswith('/'): p = os.path.join(f.get('directory', ''), p)
                return os.path.normpath(p)
            d = m.get('scope'); seen += 1
        return '?'

    def loc_str(self, d, fn=None):
        m = self.md.get(d)
        if not m:
            if fn: return '%s:%d' % (rel(fn.file), fn.line)
            return '?'
        return '%s:%s' % (rel(self.di_file(m.get('scope'))), m.get('line', '0'))

    def di_strip(self, t, keep_ptr=False):
        """strip typedef/const/volatile"""
        n = 0
        while t and n < 50:
            m = self.md.get(t)
            if not m: return None
            if m['_'] == 'DIDerivedType' and m.get('tag') in ('DW_TAG_typedef', 'DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_restrict_type', 'DW_TAG_member'):
                t = m.get('baseType'); n += 1
            else: return t
        return t

    def di_typedef_name(self, t):
        """outermost typedef name through const/member"""
        n = 0
        while t and n < 50:
            m = self.md.get(t)
            if not m: return None
            if m['_'] == 'DIDerivedType' and m.get('tag') == 'DW_TAG_typedef': return m.get('name')
            if m['_'] == 'DIDerivedType' and m.get('tag') in ('DW_TAG_const_type', 'DW_TAG_volatile_type', 'DW_TAG_member'):
                t = m.get('baseType'); n += 1
            else: return m.get('name')
        return None

    def di_pointee(self, t):
        t = self.di_strip(t)
        m = self.md.get(t)
        if m and m['_'] == 'DIDerivedType' and m.get('tag') == 'DW_TAG_pointer_type':
            return m.get('baseType') or 'void'
        if m and m['_'] == 'DICompositeType' and m.get('tag') == 'DW_TAG_array_type':
            return m.get('baseType')
        return None

    def di_size(self, t):
        t = self.di_strip(t)
        m = self.md.get(t)
        if not m: return 0
        return int(m.get('size', 0)) // 8

    def di_name(self, t):
        """struct/typedef display name"""
        m = self.md.get(t)
        if not m: return '?'
        if m.get('name'): return m['name']
        if m['_'] == 'DIDerivedType' and m.get('baseType'):
            b = self.di_name(m['baseType'])
            return b + (' *' if m.get('tag') == 'DW_TAG_pointer_type' else '')
        return m.get('tag', '?')

    def di_members(self, t):
        t = self.di_strip(t)
        m = self.md.get(t)
        if not m or m['_'] != 'DICompositeType' or m.get('tag') not in ('DW_TAG_structure_type', 'DW_TAG_union_type'): return None
        k = '_mem'
        if k in m: return m[k]
        out = []
        els = m.get('elements')
        for e in self.md_list(els):
            mm = self.md.get(e)
            if mm and mm.get('tag') == 'DW_TAG_member':
                out.append((int(mm.get('offset', 0)) // 8, mm.get('name', '?'), mm.get('baseType'), int(mm.get('size', 0)) // 8))
        m[k] = out
        return out

    def md_list(self, ref):
        raw = self.raw_md.get(ref, '')
        return re.findall(r'!\d+', raw[raw.find('{'):]) if '{' in raw else []

    def field_at(self, t, off):
        """-> (path, leaf di type, leaf offset remainder)"""
        path = ''
        for _ in range(12):
            s = self.di_strip(t)
            m = self.md.get(s)
            if not m: return path, t, off
            if m['_'] == 'DICompositeType' and m.get('tag') in ('DW_TAG_structure_type', 'DW_TAG_union_type'):
                best = None
                for o, n, bt, sz in self.di_members(s):
                    if o <= off < o + max(sz, 1): best = (o, n, bt); break
                if not best: return path, t, off
                o, n, bt = best
                path = path + ('.' if path else '') + n
                t = bt; off -= o
            elif m['_'] == 'DICompositeType' and m.get('tag') == 'DW_TAG_array_type':
                es = self.di_size(m.get('baseType')) or 1
                if m.get('baseType') and self.di_members(m['baseType']):
                    path += '[]'
                    t = m['baseType']; off %= es
                else:
                    return path, t, off
            else:
                return path, t, off
        return path, t, off

    # ---- layout
    def sizeof(self, t):
        return self._lay(t)[0]
    def alignof(self, t):
        return self._lay(t)[1]
    def _lay(self, t):
        k = t
        c = self.__dict__.setdefault('_lc', {})
        if k in c: return c[k]
        if isinstance(t, Named): r = self._lay(self.types[t.name])
        elif isinstance(t, str):
            if t == 'ptr': r = (8, 8)
            elif INT.match(t):
                b = (int(t[1:]) + 7) // 8
                p = 1
                while p < b: p *= 2
                r = (p, min(p, 16))
            elif t == 'float': r = (4, 4)
            elif t == 'double': r = (8, 8)
            elif t in ('x86_fp80', 'fp128'): r = (16, 16)
            else: r = (1, 1)
        elif t[0] == 'arr':
            s, a = self._lay(t[2]); r = (s * t[1], a)
        elif t[0] == 'vec':
            s, a = self._lay(t[2]); r = (s * t[1], s * t[1])
        elif t[0] in ('struct', 'packed'):
            off = 0; al = 1
            for f in t[1]:
                s, a = self._lay(f)
                if t[0] == 'packed': a = 1
                off = (off + a - 1) // a * a
                off += s; al = max(al, a)
            off = (off + al - 1) // al * al
            r = (off, al)
        else: r = (8, 8)
        c[k] = r
        return r
    def field_off(self, t, idx):
        """-> (offset, fieldtype) for struct index"""
        while isinstance(t, Named): t = self.types[t.name]
        off = 0
        for k, f in enumerate(t[1]):
            s, a = self._lay(f)
            if t[0] == 'packed': a = 1
            off = (off + a - 1) // a * a
            if k == idx: return off, f
            off += s
        raise IndexError


REPO = '/repo'
def rel(p):
    i = p.find('/lib/')
    if p.startswith(REPO + '/'): return p[len(REPO) + 1:]
    return p


MDRE = re.compile(r'^(!\d+) = (distinct )?(!?)(.*)$')


def parse_md_fields(s):
    out = {}
    # name(...)
    p = s.index('(')
    body = s[p + 1:s.rindex(')')]
    i = 0; n = len(body)
    while i < n:
        m = re.compile(r'\s*(\w+):\s*').match(body, i)
        if not m: break
        k = m.group(1); i = m.end()
        if body[i] == '"':
            j = i + 1
            while body[j] != '"':
                if body[j] == '\\': j += 1
                j += 1
            v = body[i + 1:j]; j += 1
        else:
            j = i; d = 0
            while j < n and (body[j] != ',' or d):
                if body[j] in '([{': d += 1
                if body[j] in ')]}': d -= 1
                j += 1
            v = body[i:j].strip()
        out[k] = v
        i = j
        if i < n and body[i] == ',': i += 1
    return out


CASTS = set('zext sext trunc bitcast ptrtoint inttoptr fptoui fptosi uitofp sitofp fpext fptrunc addrspacecast'.split())
BIN = set('add sub mul udiv sdiv urem srem and or xor shl lshr ashr fadd fsub fmul fdiv frem'.split())
DBGSUF = re.compile(r', !dbg (!\d+)')


def parse(text):
    mod = Module()
    lines = text.split('\n')
    # metadata first pass
    for ln in lines:
        if ln.startswith('!') and ' = ' in ln:
            k, v = ln.split(' = ', 1)
            mod.raw_md[k] = v
            vv = v[9:] if v.startswith('distinct ') else v
            if vv.startswith('!DI'):
                nm = vv[1:vv.index('(')]
                d = parse_md_fields(vv); d['_'] = nm
                mod.md[k] = d
        elif ln.startswith('%') and ' = type ' in ln:
            k, v = ln.split(' = type ', 1)
            p = P(tokenize(v), mod)
            mod.types[k[1:].strip('"')] = p.type() if v.strip() != 'opaque' else 'opaque'
    fn = None; blk = None
    i = 0
    for ln in lines:
        if fn is None:
            if ln.startswith('@'):
                parse_global(mod, ln)
            elif ln.startswith('declare'):
                nm, ret, params, va = parse_header(mod, ln, None)
                mod.decls[nm] = (ret, params, va)
            elif ln.startswith('define'):
                fn = Function(mod)
                nm, ret, params, va = parse_header(mod, ln, fn)
                fn.name = nm; fn.ret = ret; fn.params = params; fn.vararg = va
                fn.internal = ' internal ' in ln[:60]
                m = re.search(r'!dbg (!\d+)', ln)
                fn.dbg = m.group(1) if m else None
                # entry block number = number of unnamed params
                blk = None
                fn._entry = str(len(params))
                mod.funcs[nm] = fn
            continue
        if ln == '}':
            fn.compute()
            for b in fn.order:
                for k, ins in enumerate(b.ins):
                    ins.block = b; ins.idx = k
                    if ins.res is not None: fn.instr_by_res[ins.res] = ins
            fn = None; continue
        if not ln.strip(): continue
        if ln[0] != ' ':
            m = re.match(r'("?[-\w.$]+"?):', ln)
            blk = Block(m.group(1).strip('"'), fn); fn.order.append(blk); fn.blocks[blk.name] = blk
            continue
        if blk is None:
            blk = Block(fn._entry, fn); fn.order.append(blk); fn.blocks[blk.name] = blk
        s = ln.strip()
        if s.startswith(']') or not s: continue
        if s.startswith('switch') and s.endswith('['):
            pend = s; fn._sw = [s]; continue
        if getattr(fn, '_sw', None) is not None:
            fn._sw.append(s)
            if s.startswith(']'):
                s = ' '.join(fn._sw); fn._sw = None
            else: continue
        ins = parse_instr(mod, fn, s)
        if ins is not None: blk.ins.append(ins)
    return mod


def parse_lines(text):
    # join multi-line switches
    out = []; acc = None
    for ln in text.split('\n'):
        if acc is not None:
            acc += ' ' + ln.strip()
            if ln.startswith('  ]'):
                out.append(acc); acc = None
            continue
        if ln.startswith('  switch ') and ln.rstrip().endswith('['):
            acc = ln.rstrip(); continue
        if ' = !{' in ln or ln.startswith('  call void asm') : pass
        out.append(ln)
    return '\n'.join(out)


def parse_header(mod, ln, fn):
    at = ln.index('@')
    toks = tokenize(ln[at:].split(' !dbg')[0].rstrip(' {'))
    p = P(toks, mod)
    nm = p.next()[1][1:].strip('"')
    # return type: last type before @
    pre = tokenize(ln[:at])
    # drop keywords
    j = 1
    q = P(pre, mod)
    q.i = 1
    while True:
        k, v = q.peek()
        if k == 'word' and not (INT.match(v) or v in ('void', 'ptr', 'float', 'double', 'x86_fp80')):
            sv = q.i
            q.attrs()
            if q.i == sv:
                q.next()
                if q.peek()[1] == '(':
                    while q.next()[1] != ')': pass
            continue
        break
    fl = mod._fnty; mod._fnty = False
    ret = q.type()
    mod._fnty = fl
    p.expect('(')
    params = []; va = False
    while not p.eat(')'):
        if p.peek()[0] == 'dots': p.next(); va = True; continue
        t = p.type(); p.attrs()
        n = None
        if p.peek()[0] == 'loc': n = p.next()[1][1:].strip('"')
        params.append((t, n if n is not None else str(len(params))))
        p.eat(',')
    return nm, ret, params, va


def parse_global(mod, ln):
    m = re.match(r'@("[^"]*"|[-\w.$]+) = (.*)$', ln)
    nm = m.group(1).strip('"'); rest = m.group(2)
    d = re.search(r', !dbg (!\d+)', rest)
    dbg = d.group(1) if d else None
    rest = re.sub(r'(, !\w+ !\d+)+$', '', rest)
    const = bool(re.search(r'\bconstant\b', rest.split('c"')[0]))
    mm = re.search(r'\b(global|constant)\b ', rest)
    if not mm: return
    head = rest[:mm.start()]
    body = rest[mm.end():]
    p = P(tokenize(body), mod)
    fl = mod._fnty; mod._fnty = False
    t = p.type(); mod._fnty = fl
    init = None
    if 'external' not in head:
        mod._fnty = False
        init = p.value(t)
        mod._fnty = fl
    mod.globals[nm] = dict(name=nm, type=t, init=init, const=const, dbg=dbg, internal=('internal' in head or 'private' in head))


def parse_instr(mod, fn, s):
    I = Instr(); I.res = None; I.x = None; I.ops = []; I.fn = fn; I.ty = 'void'
    m = DBGSUF.search(s)
    I.dbg = m.group(1) if m else None
    if m: s = s[:m.start()] + s[m.end():]
    s = re.sub(r', !(?:srcloc|llvm\.loop|tbaa|range|nonnull|noundef|prof) !\d+', '', s)
    if 'llvm.dbg.' in s:
        # dbg.value(metadata ptr %0, metadata !173, ...)
        mm = re.search(r'metadata (\S+) ([^,]+), metadata (!\d+)', s)
        if mm:
            v = mm.group(2)
            nmv = v[1:] if v.startswith('%') else None
            if nmv is not None:
                fn.__dict__.setdefault('dbgvars', {}).setdefault(nmv, []).append(mm.group(3))
                return None
        return None
    if 'asm ' in s[:60]: raise SyntaxError('inline asm')
    toks = tokenize(s)
    p = P(toks, mod)
    mod._fnty = False
    if p.peek(1)[1] == '=':
        I.res = p.next()[1][1:].strip('"'); p.next()
    k, op = p.next()
    while op in ('tail', 'musttail', 'notail'): k, op = p.next()
    I.op = op
    if op == 'load':
        p.attrs(); I.ty = p.type(); p.expect(','); I.ops = [p.tyval()]
    elif op == 'store':
        p.attrs(); v = p.tyval(); p.expect(','); I.ops = [v, p.tyval()]
    elif op == 'alloca':
        I.ty = 'ptr'; I.x = p.type(); I.ops = []
        if p.eat(','):
            if p.peek()[1] != 'align':
                I.ops = [p.tyval()]
    elif op == 'getelementptr':
        p.attrs(); I.x = p.type(); I.ty = 'ptr'
        while p.eat(','): I.ops.append(p.tyval())
    elif op in CASTS:
        p.attrs(); I.ops = [p.tyval()]; p.expect('to'); I.ty = p.type()
    elif op in BIN:
        p.attrs(); t = p.type(); a = p.value(t); p.expect(','); I.ops = [(t, a), (t, p.value(t))]; I.ty = t
        I.x = set(w for w in ('nsw', 'nuw') if (' %s ' % w) in s)
    elif op in ('icmp', 'fcmp'):
        I.x = p.next()[1]; t = p.type(); a = p.value(t); p.expect(','); I.ops = [(t, a), (t, p.value(t))]; I.ty = 'i1'
    elif op == 'phi':
        I.ty = p.type(); I.x = []
        while p.eat('['):
            v = p.value(I.ty); p.expect(','); l = p.next()[1][1:].strip('"'); p.expect(']'); I.x.append((v, l)); p.eat(',')
        I.ops = [(I.ty, v) for v, _ in I.x]
    elif op == 'select':
        I.ops = [p.tyval()]; p.expect(','); I.ops.append(p.tyval()); p.expect(','); I.ops.append(p.tyval()); I.ty = I.ops[1][0]
    elif op == 'br':
        if p.peek()[1] == 'label':
            p.next(); I.x = [p.next()[1][1:].strip('"')]
        else:
            I.ops = [p.tyval()]; p.expect(','); p.next(); a = p.next()[1][1:].strip('"'); p.expect(','); p.next(); I.x = [a, p.next()[1][1:].strip('"')]
    elif op == 'switch':
        I.ops = [p.tyval()]; p.expect(','); p.next(); d = p.next()[1][1:].strip('"'); cases = []
        p.expect('[')
        while not p.eat(']'):
            t, v = p.tyval(); p.expect(','); p.next(); cases.append((v[1], p.next()[1][1:].strip('"')))
        I.x = (d, cases)
    elif op == 'ret':
        if p.peek()[1] != 'void': I.ops = [p.tyval()]
    elif op == 'call':
        p.attrs()
        I.ty = p.type()
        if p.peek()[1] == '(':
            # explicit fn type
            p.next(); d = 1
            while d:
                x = p.next()[1]
                if x == '(': d += 1
                if x == ')': d -= 1
        cal = p.value('ptr')
        I.x = cal
        p.expect('(')
        while not p.eat(')'):
            t = p.type(); p.attrs()
            if t == 'metadata':
                p.value(t); I.ops.append((t, ('undef',)))
            else: I.ops.append((t, p.value(t)))
            p.eat(',')
    elif op in ('unreachable',): pass
    elif op == 'extractvalue':
        I.ops = [p.tyval()]; I.x = []
        while p.eat(','): I.x.append(int(p.next()[1]))
        t = I.ops[0][0]
        for k2 in I.x:
            while isinstance(t, Named): t = mod.types[t.name]
            t = t[1][k2] if t[0] != 'arr' else t[2]
        I.ty = t
    elif op == 'insertvalue':
        I.ops = [p.tyval()]; p.expect(','); I.ops.append(p.tyval()); I.x = []
        while p.eat(','): I.x.append(int(p.next()[1]))
        I.ty = I.ops[0][0]
    elif op == 'freeze':
        I.ops = [p.tyval()]; I.ty = I.ops[0][0]
    elif op == 'fneg':
        I.ops = [p.tyval()]; I.ty = I.ops[0][0]
    else:
        raise SyntaxError('unknown op %s in %s' % (op, s))
    return I


def load_text(text):
    return parse(parse_lines(text))
