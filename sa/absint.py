"""Abstract interpreter over the IR: intervals + linear relations over value-numbered symbols, nullness, field-sensitive
heap objects named by access path, trace partitioning with a cap, joins and widening at loop heads, calls analysed in
context (inlined).  No path is handed to a solver and nothing is executed: every construct is given its abstract
transfer function, states are joined, loops run to a fixpoint."""
import math, time, itertools, sys, heapq
from ir import Named, INT, rel

sys.setrecursionlimit(20000)
BIG = 1 << 62

# ------------------------------------------------------------------------------------------------ terms
class Sym:
    __slots__ = ('key', 'w', 'lo', 'hi', 'n', 'label')
    def __repr__(s): return s.label or ('$%d' % s.n)

_syms = {}
_cnt = itertools.count()
_label_cnt = {}

def mksym(key, w, lo, hi, label=None):
    s = _syms.get(key)
    if s is None:
        s = Sym(); s.key = key; s.w = w; s.lo = lo; s.hi = hi; s.n = next(_cnt); s.label = label
        _syms[key] = s
    return s

class Lin:
    """c + sum(coef*sym)"""
    __slots__ = ('c', 't', 'h')
    def __init__(s, c, t): s.c = c; s.t = t; s.h = hash((c, t))
    def __eq__(s, o): return s is o or (isinstance(o, Lin) and s.c == o.c and s.t == o.t)
    def __hash__(s): return s.h
    def __repr__(s): return '+'.join([('%d*' % k if k != 1 else '') + repr(_bysym[n]) for n, k in s.t] + ([str(s.c)] if s.c else []))

class _By:
    def __getitem__(s, n): return _symlist[n]
_bysym = _By()
_symlist = {}

def lin(sym):
    _symlist[sym.n] = sym
    return Lin(0, ((sym.n, 1),))

def ladd(a, b, kb=1):
    """a + kb*b"""
    if isinstance(a, int) and isinstance(b, int): return a + kb * b
    d = {}
    c = 0
    for x, k in ((a, 1), (b, kb)):
        if isinstance(x, int): c += k * x
        else:
            c += k * x.c
            for n, q in x.t:
                d[n] = d.get(n, 0) + k * q
    t = tuple(sorted((n, q) for n, q in d.items() if q))
    if not t: return c
    return Lin(c, t)

def lscale(a, k):
    if isinstance(a, int): return a * k
    if k == 0: return 0
    return Lin(a.c * k, tuple((n, q * k) for n, q in a.t))

def is_num(x): return isinstance(x, (int, Lin))
def one_sym(x):
    """x == sym + c with coef 1 -> (sym, c)"""
    if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1: return _symlist[x.t[0][0]], x.c
    return None

# ------------------------------------------------------------------------------------------------ conditions
NEG = {'eq': 'ne', 'ne': 'eq', 'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt'}
class Cond:
    """boolean value: ('cmp', pred, a, b) on numbers in Z; ('pnull', obj); ('peq', p, q); ('and'|'or', c1, c2);
    ('opq', key)"""
    __slots__ = ('k', 'neg', 'h')
    def __init__(s, k, neg=False): s.k = k; s.neg = neg; s.h = hash((k, neg))
    def __eq__(s, o): return isinstance(o, Cond) and s.k == o.k and s.neg == o.neg
    def __hash__(s): return s.h
    def inv(s):
        if s.k[0] == 'cmp': return Cond(('cmp', NEG[s.k[1]], s.k[2], s.k[3]))
        if s.k[0] == 'and': return Cond(('or', s.k[1].inv() if isinstance(s.k[1], Cond) else 1 - s.k[1], s.k[2].inv() if isinstance(s.k[2], Cond) else 1 - s.k[2]))
        if s.k[0] == 'or': return Cond(('and', s.k[1].inv() if isinstance(s.k[1], Cond) else 1 - s.k[1], s.k[2].inv() if isinstance(s.k[2], Cond) else 1 - s.k[2]))
        return Cond(s.k, not s.neg)
    def __repr__(s): return ('!' if s.neg else '') + repr(s.k)

# ------------------------------------------------------------------------------------------------ objects/pointers
class Obj:
    __slots__ = ('name', 'kind', 'di', 'size', 'site', 'irty', 'fn', 'parent')
    def __repr__(s): return 'Obj(%s)' % s.name

_objs = {}
def mkobj(name, kind, di=None, size=None, site=None, irty=None, parent=None):
    o = _objs.get(name)
    if o is None:
        o = Obj(); o.name = name; o.kind = kind; o.di = di; o.size = size; o.site = site; o.irty = irty; o.parent = parent
        _objs[name] = o
    return o

class Ptr:
    __slots__ = ('o', 'off', 'h')
    def __init__(s, o, off): s.o = o; s.off = off; s.h = hash((id(o), off))
    def __eq__(s, x): return s is x or (isinstance(x, Ptr) and s.o is x.o and s.off == x.off)
    def __hash__(s): return s.h
    def __repr__(s): return '&%s+%r' % (s.o.name, s.off) if s.off != 0 else '&' + s.o.name

class Fn:
    __slots__ = ('name',)
    def __init__(s, name): s.name = name
    def __eq__(s, x): return isinstance(x, Fn) and x.name == s.name
    def __hash__(s): return hash(('fn', s.name))
    def __repr__(s): return '@' + s.name

class Undef:
    def __repr__(s): return 'undef'
UNDEF = Undef()
NULL = 0  # null pointer is the integer 0

class Agg:
    __slots__ = ('f',)
    def __init__(s, f): s.f = f
    def __eq__(s, o): return isinstance(o, Agg) and o.f == s.f
    def __hash__(s): return hash(s.f)

# ------------------------------------------------------------------------------------------------ state
class State:
    __slots__ = ('mem', 'dflt', 'ver', 'iv', 'ne', 'rel', 'null', 'cf', 'bind', 'alts', 'mon', 'trace', 'dead', 'env', 'frames')
    def __init__(s):
        s.env = {}; s.frames = ()
        s.mem = {}; s.dflt = {}; s.ver = {}; s.iv = {}; s.ne = {}; s.rel = frozenset(); s.null = {}; s.cf = {}
        s.bind = {}; s.alts = {}; s.mon = {}; s.trace = None; s.dead = False
    def clone(s):
        n = State.__new__(State)
        n.mem = dict(s.mem); n.dflt = dict(s.dflt); n.ver = dict(s.ver); n.iv = dict(s.iv); n.ne = dict(s.ne)
        n.rel = s.rel; n.null = dict(s.null); n.cf = dict(s.cf); n.bind = dict(s.bind); n.alts = dict(s.alts)
        n.mon = {k: (dict(v) if isinstance(v, dict) else v) for k, v in s.mon.items()}; n.trace = s.trace; n.dead = False
        n.env = dict(s.env); n.frames = s.frames
        return n
    def note(s, where, what): s.trace = (s.trace, where, what)
    def path(s, limit=40):
        out = []; t = s.trace
        while t and len(out) < limit:
            out.append('%s: %s' % (t[1], t[2])); t = t[0]
        return list(reversed(out))

# interval of a linear term in a state
def iv_sym(st, n):
    r = st.iv.get(n)
    if r is not None: return r
    s = _symlist[n]
    return (s.lo, s.hi)

def iv(st, x):
    if isinstance(x, int): return (x, x)
    if isinstance(x, Lin):
        lo = hi = x.c
        for n, k in x.t:
            a, b = iv_sym(st, n)
            if k > 0: lo += k * a; hi += k * b
            else: lo += k * b; hi += k * a
        return (lo, hi)
    if isinstance(x, Cond): return (0, 1)
    return (-BIG, BIG)

def lp_infeasible(cons):
    """Are the linear inequalities {(const, {sym:coef})  meaning const + sum <= 0} infeasible?  Fourier-Motzkin over
    the rationals with a small budget (this is the closure operation of the polyhedra domain, limited)."""
    cons = [(c, dict(t)) for c, t in cons]
    vars_ = set()
    for c, t in cons: vars_.update(t)
    budget = 400
    for v in sorted(vars_, key=lambda v: sum(1 for c, t in cons if v in t)):
        pos = [(c, t) for c, t in cons if t.get(v, 0) > 0]
        neg = [(c, t) for c, t in cons if t.get(v, 0) < 0]
        rest = [(c, t) for c, t in cons if t.get(v, 0) == 0]
        if len(pos) * len(neg) + len(rest) > budget: return False
        for cp, tp in pos:
            for cn, tn in neg:
                a, b = tp[v], -tn[v]
                t = {}
                for q, k in tp.items(): t[q] = t.get(q, 0) + b * k
                for q, k in tn.items(): t[q] = t.get(q, 0) + a * k
                t = {q: k for q, k in t.items() if k}
                c = b * cp + a * cn
                if not t:
                    if c > 0: return True
                    continue
                rest.append((c, t))
        cons = list({(c, tuple(sorted(t.items()))): (c, t) for c, t in rest}.values())
    return any(c > 0 for c, t in cons if not t)

def relevant(st, syms):
    """relations transitively connected with syms"""
    rel_ = [r for r in st.rel]
    s = set(syms); out = []
    ch = True
    pend = rel_
    n = 0
    while ch and n < 6:
        ch = False; n += 1
        rest = []
        for r in pend:
            if any(q in s for q, _ in r.t):
                out.append(r); s.update(q for q, _ in r.t); ch = True
            else: rest.append(r)
        pend = rest
    return out, s

def prove_le0(st, x):
    """is x <= 0 in every concretisation of st?"""
    if isinstance(x, int): return x <= 0
    lo, hi = iv(st, x)
    if hi <= 0: return True
    if lo > 0: return False
    rs, syms = relevant(st, [n for n, _ in x.t])
    cons = [(-x.c + 1, {n: -k for n, k in x.t})]  # x >= 1
    for r in rs: cons.append((r.c, dict(r.t)))
    for n in syms:
        a, b = iv_sym(st, n)
        if a > -BIG: cons.append((a, {n: -1}))
        if b < BIG: cons.append((-b, {n: 1}))
    return lp_infeasible(cons)

def feasible_with(st, x):
    """can x <= 0 hold? (False only when proven not)"""
    return not prove_le0(st, ladd(1, x, -1))  # not (x>=1 always) ; 1-x<=0

def assume_le0(st, x):
    """add x <= 0; returns False if infeasible"""
    if isinstance(x, int): return x <= 0
    lo, hi = iv(st, x)
    if hi <= 0: return True
    if lo > 0: return False
    if len(x.t) > 1 and not feasible_with(st, x): return False
    if len(x.t) == 1:
        n, k = x.t[0]
        a, b = iv_sym(st, n)
        if k > 0: b = min(b, (-x.c) // k)
        else: a = max(a, -((-x.c) // (-k)) if False else -(-x.c // k) if False else _ceil_div(x.c, -k))
        if a > b: return False
        ne = st.ne.get(n)
        if ne:
            while a in ne and a <= b: a += 1
            while b in ne and b >= a: b -= 1
            if a > b: return False
        st.iv[n] = (a, b)
        if st.rel and not rel_ok(st, n): return False
        return True
    st.rel = st.rel | {x}
    # interval propagation from this relation
    for n, k in x.t:
        rest = Lin(x.c, tuple((m, q) for m, q in x.t if m != n))
        rlo, _ = iv(st, rest)
        a, b = iv_sym(st, n)
        if k > 0:
            nb = (-rlo) // k
            if nb < b: b = nb
        else:
            na = _ceil_div(rlo, -k)
            if na > a: a = na
        if a > b: return False
        if (a, b) != iv_sym(st, n): st.iv[n] = (a, b)
    return True

def _ceil_div(a, b): return -((-a) // b)

def rel_ok(st, n):
    # re-propagate the relations mentioning n once
    for r in st.rel:
        if any(m == n for m, _ in r.t):
            lo, _ = iv(st, r)
            if lo > 0: return False
            for m, k in r.t:
                if m == n: continue
                rest = Lin(r.c, tuple((q, z) for q, z in r.t if q != m))
                rlo, _ = iv(st, rest)
                a, b = iv_sym(st, m)
                if k > 0: b = min(b, (-rlo) // k)
                else: a = max(a, _ceil_div(rlo, -k))
                if a > b: return False
                if (a, b) != iv_sym(st, m): st.iv[m] = (a, b)
    return True

def assume_ne(st, x):
    """x != 0"""
    if isinstance(x, int): return x != 0
    lo, hi = iv(st, x)
    if lo > 0 or hi < 0: return True
    if len(x.t) == 1:
        n, k = x.t[0]
        if (-x.c) % k: return True
        v = (-x.c) // k
        a, b = iv_sym(st, n)
        if v < a or v > b: return True
        if a == b: return False
        ne = st.ne.get(n, frozenset()) | {v}
        while a in ne: a += 1
        while b in ne: b -= 1
        if a > b: return False
        st.iv[n] = (a, b)
        if a < v < b and len(ne) < 24: st.ne[n] = ne
        return True
    # relation: sharpen x<=0 / x>=0 already known
    if prove_le0(st, x):
        return assume_le0(st, ladd(x, 1))
    if prove_le0(st, lscale(x, -1)):
        return assume_le0(st, ladd(1, x, -1))
    st.cf[('ne', x)] = True
    return True


class Budget(Exception): pass
class Report:
    def __init__(s, rule, where, fn, msg, path): s.rule = rule; s.where = where; s.fn = fn; s.msg = msg; s.path = path
    @property
    def key(s): return (s.rule, s.where, s.fn, s.msg)


class Monitor:
    alloc_fail = False       # fork on failure of allocators and nullable library calls
    def key(self, st): return ()
    def on_call(self, I, st, ins, name, args): return None
    def after_call(self, I, st, ins, name, args, ret): pass
    def on_load(self, I, st, ins, p, size): pass
    def on_store(self, I, st, ins, p, size, val): pass
    def on_null(self, I, st, ins, what): pass
    def on_mem(self, I, st, ins, p, n, write, what): pass
    def on_copy(self, I, st, ins, p, q, n): pass
    def on_backedge(self, I, st, fn, head): pass
    def on_free(self, I, st, ins, p): pass
    def on_lazy_ptr(self, I, st, obj, off, newobj): return None
    def loaded(self, I, st, ins, p, v): return [(st, v)]
    def on_alloc(self, I, st, ins, obj): pass
    def on_enter(self, I, st, fn, args): pass
    def on_exit(self, I, st, fn, ret): pass
    def keep(self, st): return ()
    def joined_ptr(self, I, o, sa, a, sb, b): pass
    def after_join(self, I, st, sa, sb, widen): pass


PURE_EXT = set('memcmp strlen strcmp strncmp strchr strstr abs labs toupper tolower isdigit printf puts putchar fprintf fputs'.split())
NORET = set('__assert_fail abort exit _exit'.split())


class Interp:
    heap_copies = 5          # distinct objects per allocation site
    def __init__(self, mod, mon=None, cap=12, loop_unroll=1, depth=30, skip=(), steps=4000000, config=None):
        self.mod = mod; self.mon = mon or Monitor(); self.cap = cap; self.unroll = loop_unroll; self.maxdepth = depth
        self.skip = set(skip); self.reports = {}; self.stack = []; self.steps = 0; self.max_steps = steps; self.cpu_limit = None
        self.covered = set(); self.sites = {}; self.unknown_ext = {}; self._live = {}
        self.joineq = False; self._unr = {}; self._pairs = None; self.widths = ()
        self.unresolved = []; self.joinoff = False       # join pointers into the same object by their offsets
        self.reduced = 0

    # ------------------------------------------------------------------ utils
    def report(self, rule, ins, msg, st):
        r = Report(rule, ins.where, ins.fn.src, msg, st.path() + ['%s: %s' % (ins.where, msg)] if st else [])
        r.fname = ins.fn.name
        if r.key not in self.reports: self.reports[r.key] = r

    def ctx(self):
        return tuple(self.stack)

    def site(self, kind, ins): self.sites.setdefault(kind, set()).add((ins.fn.name, ins.block.name, ins.idx))

    def resolve(self, st, v):
        n = 0
        while isinstance(v, Ptr) and v.o in st.bind and n < 20:
            b = st.bind[v.o]
            if isinstance(b, Ptr): v = Ptr(b.o, ladd(b.off, v.off))
            else:
                v = b
            n += 1
        return v

    def split(self, st, v):
        """resolve v; fork on alternatives -> list of (st, v)"""
        v = self.resolve(st, v)
        if isinstance(v, Ptr) and v.o in st.alts:
            out = []
            alts = st.alts[v.o]
            for a in alts:
                s2 = st.clone()
                nn = s2.null.get(v.o)
                if a == 0 and nn is False: continue
                if a != 0 and nn is True: continue
                if isinstance(a, Ptr) and self.resolve(s2, a) == 0 and nn is False: continue
                s2.bind[v.o] = a; s2.alts.pop(v.o, None)
                out.extend(self.split(s2, v))
            return out
        return [(st, v)]

    # ------------------------------------------------------------------ memory
    def leaf(self, obj, off):
        """(path, ditype) at constant offset"""
        if obj.di is None or not isinstance(off, int): return None, None
        m = self.mod
        sz = m.di_size(obj.di)
        o = off
        if sz and (off >= sz or off < 0): o = off % sz
        path, t, r = m.field_at(obj.di, o)
        return path, t

    def fieldname(self, p):
        """human/anchor name for a pointer: (struct typename, field path)"""
        if not isinstance(p, Ptr) or p.o.di is None: return None, None
        off = p.off if isinstance(p.off, int) else p.off.c if isinstance(p.off, Lin) else 0
        path, t = self.leaf(p.o, off)
        m = self.mod.md.get(self.mod.di_strip(p.o.di)) or {}
        nm = m.get('name') or self.mod.di_typedef_name(p.o.di)
        return nm, path

    def fresh_of(self, st, obj, off, ty, tag=None):
        """unknown content of obj at off with IR type ty"""
        v = st.ver.get(obj, 0)
        offk = off
        label = None
        path = None; t = None
        if isinstance(off, int) or isinstance(off, Lin):
            c = off if isinstance(off, int) else off.c
            path, t = self.leaf(obj, c)
        nm = '%s%s%s' % (obj.name, ('->' + path) if path else '[%r]' % (off,), ("'%d" % v) if v else '')
        if isinstance(off, Lin): nm += '{%r}' % (off,)
        elif path and path.endswith(']') or (path and '[]' in path): nm += '@%r' % (off,)
        if tag: nm += tag
        if ty == 'ptr':
            pt = self.mod.di_pointee(t) if t else None
            if pt == 'void': pt = None
            fnp = pt and (self.mod.md.get(self.mod.di_strip(pt)) or {}).get('_') == 'DISubroutineType'
            o = mkobj(('fnptr:' if fnp else '') + nm, 'lazy', di=pt, parent=(obj, off))
            r = self.mon.on_lazy_ptr(self, st, obj, off, o)
            if r is not None: return r
            return Ptr(o, 0)
        if isinstance(ty, str) and INT.match(ty):
            w = int(ty[1:])
            lo, hi = self.range_of(t, w)
            return lin(mksym(('mem', obj.name, off, v, w, tag), w, lo, hi, nm))
        if ty in ('float', 'double'): return UNDEF
        return UNDEF

    def range_of(self, t, w):
        s = self.mod.di_strip(t) if t else None
        m = self.mod.md.get(s) if s else None
        if m:
            if m['_'] == 'DICompositeType' and m.get('tag') == 'DW_TAG_array_type' and m.get('baseType'):
                s = self.mod.di_strip(m['baseType']); m = self.mod.md.get(s) or {'_': ''}
            if m['_'] == 'DIBasicType' and int(m.get('size', 0)) == w:
                e = m.get('encoding', '')
                if e == 'DW_ATE_boolean': return (0, 1)
                if e in ('DW_ATE_unsigned', 'DW_ATE_unsigned_char'): return (0, (1 << w) - 1)
                if e == 'DW_ATE_signed': return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                if e == 'DW_ATE_signed_char': return (0, 255)   # raw byte; sext handled on use
            if m['_'] == 'DICompositeType' and m.get('tag') == 'DW_TAG_enumeration_type' and int(m.get('size', 0)) == w:
                els = [int(self.mod.md[e].get('value', 0)) for e in self.mod.md_list(m.get('elements')) if e in self.mod.md]
                if els and min(els) < 0: return (-(1 << (w - 1)), (1 << (w - 1)) - 1)
                return (0, (1 << w) - 1)
        if w == 1: return (0, 1)
        if w in (8, 16): return (0, (1 << w) - 1)
        if w == 32: return (-(1 << 31), (1 << 31) - 1)
        return (0, (1 << 48)) if w == 64 else (-BIG, BIG)

    def const_global(self, name, off, ty):
        g = self.mod.globals.get(name)
        if not g or not g['const'] or g['init'] is None: return None
        return self.const_at(g['type'], g['init'], off, ty)

    def const_at(self, t, v, off, ty):
        m = self.mod
        while isinstance(t, Named): t = m.types[t.name]
        if v[0] == 'zero': return 0
        if v[0] == 'str':
            if ty == 'i8' and 0 <= off < len(v[1]): return v[1][off]
            return None
        if v[0] == 'agg':
            if t[0] == 'arr':
                es = m.sizeof(t[2]); k = off // es
                if 0 <= k < len(v[1]): return self.const_at(t[2], v[1][k][1], off - k * es, ty)
                return None
            o = 0
            for k, (ft, fv) in enumerate(v[1]):
                fo, fty = m.field_off(t, k)
                if fo <= off < fo + m.sizeof(fty): return self.const_at(fty, fv, off - fo, ty)
            return None
        if off != 0: return None
        return self.const(ty if isinstance(t, str) else t, v)

    def const_cells(self, name, lo, hi):
        """scalars of a constant global within [lo, hi): offset -> (value, size)"""
        g = self.mod.globals.get(name); m = self.mod; out = {}
        if not g or not g['const'] or g['init'] is None: return out
        def walk(t, off):
            while isinstance(t, Named): t = m.types[t.name]
            sz = m.sizeof(t)
            if off >= hi or off + sz <= lo or len(out) > 64: return
            if isinstance(t, tuple) and t[0] == 'arr':
                es = m.sizeof(t[2])
                if not es: return
                for k in range(max(0, (lo - off) // es), min(t[1], (hi - off + es - 1) // es)): walk(t[2], off + k * es)
            elif isinstance(t, tuple):
                k = 0
                while k < len(t[1]): fo, ft = m.field_off(t, k); walk(ft, off + fo); k += 1
            elif off >= lo and off + sz <= hi:
                v = self.const_global(name, off, t)
                if v is not None and v is not UNDEF: out[off] = (v, sz)
        try: walk(g['type'], 0)
        except Exception: return {}
        return out

    def load(self, st, p, ty):
        obj, off = p.o, p.off
        if isinstance(off, Lin):
            lo, hi = iv(st, off)
            if lo == hi: off = lo
        size = self.mod.sizeof(ty)
        if obj.kind == 'global' and isinstance(off, int):
            c = self.const_global(obj.name, off, ty)
            if c is not None: return c
        cells = st.mem.get(obj)
        if cells:
            c = cells.get(off)
            if c is not None and c[1] == size:
                return c[0]
            if c is not None and isinstance(off, int) and c[0] == 0: return 0
        d = st.dflt.get(obj)
        if isinstance(off, int) and cells and ty != 'ptr' and 1 < size <= 8:
            r = 0; at = off
            while at < off + size:
                c = cells.get(at)
                if c is None or not is_num(c[0]) or c[1] > off + size - at: break
                lo, hi = iv(st, c[0])
                if lo < 0 or hi >= 1 << (8 * c[1]): break
                r = ladd(r, c[0], 1 << (8 * (at - off))); at += c[1]
            else: return r
        if isinstance(off, int) and cells:
            for o2, (v2, s2) in cells.items():
                if isinstance(o2, int) and o2 <= off < o2 + s2 and o2 != off:
                    if v2 == 0 and is_num(v2): return 0
                    d = None; break
                if isinstance(o2, int) and off < o2 < off + size: d = None
        if d == 0 and isinstance(off, int): return 0
        if isinstance(d, tuple) and isinstance(off, int):
            for lo, hi, val in d:
                if lo <= off < hi:
                    if val == 0: return 0
                    break
        v = self.fresh_of(st, obj, off, ty)
        # remember (so that repeated loads agree even after symbol refinement)
        nc = dict(cells) if cells else {}
        nc[off] = (v, size); st.mem[obj] = nc
        return v

    def store(self, st, p, val, size):
        obj, off = p.o, p.off
        if isinstance(off, Lin):
            lo, hi = iv(st, off)
            if lo == hi: off = lo
        cells = dict(st.mem.get(obj, {}))
        if isinstance(off, int):
            for o2 in [o2 for o2, (v2, s2) in cells.items() if (not isinstance(o2, int) and not self.apart(o2, s2, off, size)) or (isinstance(o2, int) and o2 < off + size and off < o2 + s2)]:
                v2, s2 = cells.pop(o2)
                if isinstance(v2, int) and v2 == 0 and isinstance(o2, int) and s2 <= 8:
                    # the rest of a zero stays zero
                    if o2 < off: cells[o2] = (0, off - o2)
                    if o2 + s2 > off + size: cells[off + size] = (0, o2 + s2 - off - size)
            cells[off] = (val, size)
            st.mem[obj] = cells
        else:
            self.havoc_range(st, obj, off, size)
            cells = dict(st.mem.get(obj, {}))
            cells[off] = (val, size)
            st.mem[obj] = cells

    def array_extent(self, obj, c):
        """enclosing array field [lo,hi) of a constant base offset"""
        if obj.di is None: return None
        m = self.mod
        t = obj.di; base = 0; off = c
        for _ in range(10):
            s = m.di_strip(t); mm = m.md.get(s)
            if not mm: return None
            if mm['_'] == 'DICompositeType' and mm.get('tag') in ('DW_TAG_structure_type',):
                for o, n, bt, sz in m.di_members(s):
                    if o <= off < o + max(sz, 1):
                        t = bt; base += o; off -= o; break
                else: return None
            elif mm['_'] == 'DICompositeType' and mm.get('tag') == 'DW_TAG_array_type':
                return base, base + m.di_size(s)
            else: return None
        return None

    def havoc_range(self, st, obj, off, size):
        """forget cells possibly overlapping [off, off+size)"""
        lo, hi = iv(st, off) if not isinstance(off, int) else (off, off)
        ext = None
        if isinstance(off, Lin):
            # the array written is the one of the smallest possible offset; with an unknown index, the one of the constant part
            # provided that it lies in the first element (out[i - 1] must not be taken for the member in front of out)
            ext = self.array_extent(obj, lo) if 0 <= lo else None
            if lo < 0:
                ext = self.array_extent(obj, off.c)
                if ext and off.c - ext[0] >= min(abs(k) for _, k in off.t): ext = None
            if ext: lo, hi = max(lo, ext[0]), min(hi, ext[1])
        if not isinstance(size, int):
            _, sh = iv(st, size)
            end = hi + sh
            if ext is None and isinstance(off, int): ext = self.array_extent(obj, lo)
            if ext: end = min(end, ext[1])
        else:
            end = hi + size
            if ext: end = min(end, ext[1])
        cells = st.mem.get(obj, {})
        n = {}
        for o2, c in cells.items():
            if isinstance(o2, int) and (o2 + c[1] <= lo or o2 >= end): n[o2] = c
            elif isinstance(size, int) and isinstance(off, Lin) and self.apart(o2, c[1], off, size): n[o2] = c
        # new version for the range: pin survivors, bump version
        st.mem[obj] = n
        st.ver[obj] = st.ver.get(obj, 0) + 1
        if st.ver[obj] > 6: st.ver[obj] = 6
        d = st.dflt.get(obj)
        if d is not None:
            if d == 0: d = ((-BIG, BIG, 0),)
            st.dflt[obj] = ((lo, end, None),) + d

    @staticmethod
    def apart(o2, s2, off, size):
        """different members of elements of an array never overlap"""
        d = ladd(o2, off, -1)
        if isinstance(d, int): return d >= size or d + s2 <= 0
        g = 0
        for _, k in d.t: g = math.gcd(g, k)
        r = d.c % g if g else 0
        return r >= size and r + s2 <= g

    def havoc(self, st, obj):
        st.mem.pop(obj, None); st.dflt.pop(obj, None)
        st.ver[obj] = min(st.ver.get(obj, 0) + 1, 6)

    def zero_range(self, st, obj, off, n):
        if isinstance(off, int) and isinstance(n, int):
            cells = {o2: c for o2, c in st.mem.get(obj, {}).items() if isinstance(o2, int) and (o2 + c[1] <= off or o2 >= off + n)}
            st.mem[obj] = cells
            d = st.dflt.get(obj)
            if d == 0: return
            st.dflt[obj] = ((off, off + n, 0),) + (d if isinstance(d, tuple) else ())
        else:
            self.havoc_range(st, obj, off, n)

    # ------------------------------------------------------------------ constants and operands
    def const(self, ty, v):
        k = v[0]
        if k == 'int':
            x = v[1]
            if isinstance(ty, str) and INT.match(ty):
                w = int(ty[1:])
                if w in (1, 8, 16): x &= (1 << w) - 1
            return x
        if k == 'null': return 0
        if k == 'zero': return 0
        if k == 'glob':
            n = v[1]
            if n in self.mod.funcs or n in self.mod.decls: return Fn(n)
            g = self.mod.globals.get(n)
            di = None
            if g and g['dbg']:
                e = self.mod.md.get(g['dbg']); var = self.mod.md.get(e.get('var')) if e else None
                di = var.get('type') if var else None
            o = mkobj(n, 'global', di=di, size=self.mod.sizeof(g['type']) if g else None, irty=g['type'] if g else None)
            return Ptr(o, 0)
        if k == 'cexpr':
            op = v[1]
            if op == 'getelementptr':
                base = self.const(*v[3][0])
                return self.gep(base, v[2], [(t, self.const(t, x)) for t, x in v[3][1:]])
            if op in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'): return self.const(*v[3][0])
            return UNDEF
        if k == 'undef': return UNDEF
        return UNDEF

    def gep(self, base, ty, idx):
        m = self.mod
        off = 0
        t, i0 = idx[0]
        if not is_num(i0): return UNDEF
        off = ladd(off, lscale(i0, m.sizeof(ty)))
        cur = ty
        for t, i in idx[1:]:
            while isinstance(cur, Named): cur = m.types[cur.name]
            if cur[0] in ('struct', 'packed'):
                o, cur = m.field_off(cur, i)
                off = ladd(off, o)
            else:
                cur = cur[2]
                if not is_num(i): return UNDEF
                off = ladd(off, lscale(i, m.sizeof(cur)))
        if isinstance(base, Ptr): return Ptr(base.o, ladd(base.off, off))
        if is_num(base): return ladd(base, off) if base != 0 or off != 0 else 0
        return base if off == 0 else UNDEF

    def val(self, env, tv):
        t, v = tv
        if v[0] == 'loc':
            return env[v[1]] if v[1] in env else UNDEF
        return self.const(t, v)

    # ------------------------------------------------------------------ conditions
    def cmp(self, st, pred, ty, a, b):
        """-> int 0/1 or Cond"""
        a = self.resolve(st, a); b = self.resolve(st, b)
        if a is UNDEF or b is UNDEF: return Cond(('opq', ('undef', next(_cnt))))
        isptr = ty == 'ptr'
        if isinstance(a, Fn) or isinstance(b, Fn):
            if pred in ('eq', 'ne'):
                if isinstance(a, Fn) and isinstance(b, Fn): r = a == b
                elif 0 in (a, b) and not isinstance(a, (Cond,)): r = False
                else: return Cond(('opq', ('fncmp', a, b)), pred == 'ne')
                return int(r == (pred == 'eq'))
            return Cond(('opq', ('c', pred, a, b)))
        if isinstance(a, Cond) or isinstance(b, Cond):
            # zext'ed booleans
            if isinstance(b, Cond) and not isinstance(a, Cond): a, b = b, a; pred = {'ult': 'ugt', 'ugt': 'ult', 'slt': 'sgt', 'sgt': 'slt', 'ule': 'uge', 'uge': 'ule', 'sle': 'sge', 'sge': 'sle'}.get(pred, pred)
            if isinstance(b, Cond):
                if pred == 'eq' and a == b: return 1
                if pred in ('eq', 'ne'):
                    return Cond(('opq', ('bb', a, b)), pred == 'ne')
                return Cond(('opq', ('bb', pred, a, b)))
            if isinstance(b, int):
                t = {'eq': 1 == b, 'ne': 1 != b, 'slt': 1 < b, 'sgt': 1 > b, 'sle': 1 <= b, 'sge': 1 >= b, 'ult': 1 < b % (1 << 64), 'ugt': 1 > b, 'ule': 1 <= b, 'uge': 1 >= b}[pred]
                f = {'eq': 0 == b, 'ne': 0 != b, 'slt': 0 < b, 'sgt': 0 > b, 'sle': 0 <= b, 'sge': 0 >= b, 'ult': 0 < b % (1 << 64), 'ugt': 0 > b, 'ule': 0 <= b, 'uge': 0 >= b}[pred]
                if t and f: return 1
                if not t and not f: return 0
                return a if t else a.inv()
            return Cond(('opq', ('bc', pred, a, b)))
        if isinstance(a, Ptr) and isinstance(b, int) and b == 0 or isinstance(b, Ptr) and isinstance(a, int) and a == 0:
            p = a if isinstance(a, Ptr) else b
            if pred in ('eq', 'ne', 'ugt', 'ule'):
                n = self.nullness(st, p)
                if n is not None: r = n
                else: return Cond(('pnull', p.o), pred in ('ne', 'ugt'))
                return int(r == (pred in ('eq', 'ule')))
            return Cond(('opq', (pred, a, b)))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.o is b.o and is_num(a.off) and is_num(b.off):
                return self.cmpnum(st, pred, 'i64', a.off, b.off, sgn=True)
            if pred in ('eq', 'ne'):
                if self.distinct(st, a, b): return int(pred == 'ne')
                ka, kb = sorted((repr(a), repr(b)))
                return Cond(('peq', ka, kb), pred == 'ne')
            return Cond(('opq', (pred, a, b)))
        if is_num(a) and is_num(b): return self.cmpnum(st, pred, ty, a, b)
        return Cond(('opq', (pred, a, b)))

    def distinct(self, st, a, b):
        ka, kb = a.o.kind, b.o.kind
        if ka in ('heap', 'stack', 'global') and kb in ('heap', 'stack', 'global') and a.o is not b.o: return True
        na, nb = self.nullness(st, a), self.nullness(st, b)
        if na is not None and nb is not None and na != nb: return True
        if {ka, kb} & {'stack'} and a.o is not b.o and {ka, kb} & {'lazy', 'param'}: return True
        return False

    def nullness(self, st, p):
        """True null / False non-null / None unknown"""
        p = self.resolve(st, p)
        if isinstance(p, int): return p == 0
        if isinstance(p, Fn): return False
        if not isinstance(p, Ptr): return None
        if p.o.kind in ('stack', 'global', 'heap'): return False
        n = st.null.get(p.o)
        if n is None and p.o in st.alts:
            ns = {self.nullness(st, a) for a in st.alts[p.o]}
            if len(ns) == 1: return ns.pop()
        if n is None and isinstance(p.off, int) and p.off != 0: return None
        return n

    def view(self, st, ty, x, signed):
        """integer x of IR type ty, viewed signed/unsigned, as number in Z (or None)"""
        w = int(ty[1:]) if isinstance(ty, str) and INT.match(ty) else 64
        lo, hi = iv(st, x)
        if signed:
            mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        else:
            mn, mx = 0, (1 << w) - 1
        if lo >= mn and hi <= mx: return x
        if isinstance(x, int):
            x &= (1 << w) - 1
            if signed and x >> (w - 1): x -= 1 << w
            return x
        if self.relview and (lo >= mn or prove_le0(st, ladd(mn, x, -1))) and (hi <= mx or prove_le0(st, ladd(x, -mx))): return x
        return lin(mksym(('view', w, signed, x), w, mn, mx, '%s%d(%r)' % ('s' if signed else 'u', w, x)))

    def cmpnum(self, st, pred, ty, a, b, sgn=None):
        if pred in ('eq', 'ne'):
            # equality is sign agnostic; bring both into the same view
            la, ha = iv(st, a); lb, hb = iv(st, b)
            if min(la, lb) >= 0 or sgn: x, y = a, b
            else:
                w = int(ty[1:]) if INT.match(ty) else 64
                if isinstance(b, int) and b < 0 and la >= 0 and w < 64 and ha > (1 << (w - 1)) - 1: b &= (1 << w) - 1
                x, y = a, b
            p = pred
        else:
            signed = pred[0] == 's' if sgn is None else True
            x = self.view(st, ty, a, signed); y = self.view(st, ty, b, signed)
            p = pred[1:]
        d = ladd(x, y, -1)
        r = self.decide(st, p, d)
        if r is not None: return int(r)
        return Cond(('cmp', p, x, y))

    def decide(self, st, p, d):
        lo, hi = iv(st, d)
        if p in ('eq', 'ne'):
            if lo == hi == 0: return p == 'eq'
            if lo > 0 or hi < 0: return p == 'ne'
            if isinstance(d, Lin) and len(d.t) == 1:
                n, k = d.t[0]
                if (-d.c) % k: return p == 'ne'
                if (-d.c) // k in st.ne.get(n, ()): return p == 'ne'
            elif st.rel and isinstance(d, Lin):
                if prove_le0(st, ladd(d, 1)) or prove_le0(st, ladd(1, d, -1)): return p == 'ne'
                if d in st.rel and lscale(d, -1) in st.rel: return p == 'eq'
            if st.cf.get(('ne', d)) or st.cf.get(('ne', lscale(d, -1))): return p == 'ne'
            return None
        x = {'lt': ladd(d, 1), 'le': d, 'gt': ladd(1, d, -1), 'ge': lscale(d, -1)}[p]
        lo, hi = iv(st, x)
        if hi <= 0: return True
        if lo > 0: return False
        if isinstance(x, Lin) and len(x.t) > 1 and st.rel:
            if prove_le0(st, x): return True
            if prove_le0(st, ladd(1, x, -1)): return False
        return None

    def assume(self, st, c, truth):
        """refine st with c==truth -> list of states (may fork); st may be mutated"""
        if isinstance(c, int): return [st] if bool(c) == truth else []
        if c is UNDEF: return [st]
        if is_num(c): c = Cond(('cmp', 'ne', c, 0))
        if not isinstance(c, Cond): return [st]
        if not truth: c = c.inv()
        k = c.k
        if k[0] == 'cmp':
            _, p, a, b = k
            d = ladd(a, b, -1)
            if p == 'eq': ok = assume_le0(st, d) and assume_le0(st, lscale(d, -1)) and self._not_known_ne(st, d)
            elif p == 'ne': ok = assume_ne(st, d)
            else: ok = assume_le0(st, {'lt': ladd(d, 1), 'le': d, 'gt': ladd(1, d, -1), 'ge': lscale(d, -1)}[p])
            return [st] if ok else []
        if k[0] == 'pnull':
            want = not c.neg
            o = k[1]
            p = self.resolve(st, Ptr(o, 0))
            n = self.nullness(st, p)
            if n is not None: return [st] if n == want else []
            if isinstance(p, Ptr):
                st.null[p.o] = want
                if p.o in st.alts:
                    al = [a for a in st.alts[p.o] if self.nullness(st, a) in (None, want)]
                    if not al: return []
                    if len(al) == 1:
                        st.bind[p.o] = al[0]; del st.alts[p.o]
                        if isinstance(al[0], Ptr) and self.nullness(st, al[0]) is None: st.null[al[0].o] = want
                    else: st.alts[p.o] = tuple(al)
                if want: pass
            return [st]
        if k[0] == 'and':
            out = []
            for s in self.assume(st, k[1], True): out.extend(self.assume(s, k[2], True))
            return out
        if k[0] == 'or':
            s2 = st.clone()
            out = self.assume(st, k[1], True)
            for s in self.assume(s2, k[1], False): out.extend(self.assume(s, k[2], True))
            return out
        # opaque
        cur = st.cf.get(k)
        want = not c.neg
        if cur is not None and cur != want: return []
        st.cf[k] = want
        return [st]

    def _not_known_ne(self, st, d):
        if isinstance(d, Lin):
            if len(d.t) == 1:
                n, kk = d.t[0]
                if (-d.c) % kk: return False
                if (-d.c) // kk in st.ne.get(n, ()): return False
            if st.cf.get(('ne', d)) or st.cf.get(('ne', lscale(d, -1))): return False
        return True

    # ------------------------------------------------------------------ arithmetic
    rebyte = None
    def binop(self, st, op, ty, a, b, flags):
        r = self.binop_(st, op, ty, a, b, flags)
        if self.rebyte and op in ('add', 'or', 'shl', 'and', 'lshr', 'ashr') and isinstance(r, Lin): r = self.rebyte(st, r, ty)
        return r
    def binop_(self, st, op, ty, a, b, flags):
        if isinstance(a, Cond) or isinstance(b, Cond):
            if op in ('and', 'or', 'xor'):
                if op == 'xor':
                    if isinstance(a, int): a, b = b, a
                    if b == 0: return a
                    if b == 1: return a.inv()
                    if isinstance(a, Cond) and isinstance(b, Cond) and a == b: return 0
                    return Cond(('opq', ('xor', a, b)))
                x, y = a, b
                if isinstance(x, int): x, y = y, x
                if isinstance(y, int):
                    if op == 'and': return x if y & 1 else 0
                    if y == 0: return x
                    if y == 1: return 1
                    return self.opq(op, ty, a, b)
                if isinstance(x, Cond) and isinstance(y, Cond):
                    if x == y: return x
                    return Cond((op, x, y))
                # Cond op number
                if is_num(y):
                    lo, hi = iv(st, y)
                    if lo >= 0 and hi <= 1:
                        return Cond((op, x, Cond(('cmp', 'ne', y, 0))))
                return self.opq(op, ty, a, b)
            if op == 'shl' and isinstance(b, int) and b == 0: return a
            return self.opq(op, ty, a, b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
                a = self.resolve(st, a); b = self.resolve(st, b)
                if isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and is_num(a.off) and is_num(b.off): return ladd(a.off, b.off, -1)
            if op == 'add' and isinstance(a, Ptr) and is_num(b): return Ptr(a.o, ladd(a.off, b))
            return self.opq(op, ty, a, b)
        if not is_num(a) or not is_num(b): return UNDEF
        w = int(ty[1:]) if isinstance(ty, str) and INT.match(ty) else 64
        if op in ('add', 'sub'):
            r = ladd(a, b, 1 if op == 'add' else -1)
            lo, hi = iv(st, r)
            if isinstance(r, int):
                if w < 64 or True: return self.wrapc(r, w, a, b)
            # may it wrap?
            if w >= 32:
                mn, mx = -(1 << (w - 1)), (1 << w) - 1
                if 'nsw' in (flags or ()):
                    # signed overflow is undefined: the result lies in the type's range on every defined execution
                    if hi >= 1 << (w - 1) and lo < 1 << (w - 1): assume_le0(st, ladd(r, -((1 << (w - 1)) - 1)))
                    if lo < mn and hi >= mn: assume_le0(st, ladd(mn, r, -1))
                    return r
                if lo >= mn and hi <= mx:
                    la, _ = iv(st, a); lb, _ = iv(st, b)
                    if op == 'sub' and la >= 0 and lo < 0 and not prove_le0(st, lscale(r, -1)):
                        # unsigned subtraction that may wrap below zero: keep the exact number only when used as signed
                        pass
                    return r
                if self.relview and (lo >= mn or prove_le0(st, ladd(mn, r, -1))) and (hi <= mx or prove_le0(st, ladd(r, -mx))): return r
            else:
                if lo >= 0 and hi <= (1 << w) - 1: return r
            return self.opq(op, ty, a, b)
        if op == 'mul':
            if isinstance(a, int): a, b = b, a
            if isinstance(b, int):
                r = lscale(a, b)
                lo, hi = iv(st, r)
                if isinstance(r, int): return self.wrapc(r, w, a, b)
                if lo >= -(1 << (w - 1)) and hi <= (1 << w) - 1: return r
                return self.opq(op, ty, a, b)
            x, y = sorted((a, b), key=repr)
            la, ha = iv(st, x); lb, hb = iv(st, y)
            c = [la * lb, la * hb, ha * lb, ha * hb]
            return self.opq(op, ty, x, y, max(min(c), -(1 << (w - 1))), min(max(c), (1 << w) - 1))
        if isinstance(a, int) and isinstance(b, int):
            ua, ub = a & ((1 << w) - 1), b & ((1 << w) - 1)
            if op == 'and': return self.canon(ua & ub, w, a, b)
            if op == 'or': return self.canon(ua | ub, w, a, b)
            if op == 'xor': return self.canon(ua ^ ub, w, a, b)
            if op == 'shl': return self.canon((ua << ub) & ((1 << w) - 1), w, a, b)
            if op == 'lshr': return ua >> ub
            if op == 'ashr': return self.canon(a >> ub, w, a, b)
            if b != 0:
                if op == 'udiv': return ua // ub
                if op == 'urem': return ua % ub
                if op == 'sdiv': q = abs(a) // abs(b); return q if (a < 0) == (b < 0) else -q
                if op == 'srem': return abs(a) % abs(b) * (-1 if a < 0 else 1)
            return UNDEF
        la, ha = iv(st, a); lb, hb = iv(st, b)
        if op == 'and':
            if isinstance(a, int): a, b = b, a; la, ha, lb, hb = lb, hb, la, ha
            if isinstance(b, int):
                m = b & ((1 << w) - 1)
                if la >= 0 and ha <= m and (m & (m + 1)) == 0: return a
                r = self.opq('and', ty, a, m, 0, m)
                inv = m ^ ((1 << w) - 1)
                if la >= 0 and ha < 1 << w and (inv & (inv + 1)) == 0 and isinstance(r, Lin) and len(r.t) == 1 and r.c == 0 and r.t[0][1] == 1:
                    l0, h0 = iv_sym(st, r.t[0][0]); st.iv[r.t[0][0]] = (max(l0, la & m), min(h0, ha & m))
                return r
            if la >= 0 and lb >= 0: return self.opq('and', ty, a, b, 0, min(ha, hb))
        if op in ('or', 'xor'):
            if b == 0: return a
            if a == 0: return b
            if la >= 0 and lb >= 0:
                bits = max(ha, hb).bit_length()
                if op == 'or' and la == 0 and lb == 0 and ha <= 1 and hb <= 1:
                    return Cond(('or', Cond(('cmp', 'ne', a, 0)), Cond(('cmp', 'ne', b, 0))))
                return self.opq(op, ty, a, b, max(la, lb) if op == 'or' else 0, (1 << bits) - 1)
        if op == 'shl' and isinstance(b, int):
            r = lscale(a, 1 << b)
            lo, hi = iv(st, r)
            if lo >= 0 and hi < (1 << w): return r
        if self.relview and op in ('udiv', 'lshr') and isinstance(b, int) and isinstance(a, Lin) and (la >= 0 or prove_le0(st, lscale(a, -1))):
            k = b if op == 'udiv' else 1 << b
            if k > 1 and not (a.c % k == 0 and all(x % k == 0 for _, x in a.t)):
                q = self.opq('udiv', ty, a, k, 0, max(ha, 0) // k)
                assume_le0(st, ladd(lscale(q, k), a, -1)); assume_le0(st, ladd(ladd(a, lscale(q, k), -1), 1 - k))
                return q
        if op == 'lshr' and isinstance(b, int) and la >= 0: return self.opq(op, ty, a, b, la >> b, ha >> b)
        if op == 'ashr' and isinstance(b, int): return self.opq(op, ty, a, b, la >> b, ha >> b)
        if op == 'udiv' and isinstance(b, int) and b > 0 and la >= 0 and isinstance(a, Lin) and a.c % b == 0 and all(k % b == 0 for _, k in a.t):
            return Lin(a.c // b, tuple((n, k // b) for n, k in a.t))
        if op == 'udiv' and lb > 0 and la >= 0:
            q = self.opq(op, ty, a, b, la // hb, ha // lb)
            if isinstance(b, int) and isinstance(q, Lin):
                # b*q <= a <= b*q + b-1
                st.rel = st.rel | {ladd(lscale(q, b), a, -1)}
            return q
        if op == 'urem' and lb > 0 and la >= 0: return self.opq(op, ty, a, b, 0, hb - 1)
        if op == 'udiv' and la >= 0 and lb == 0: return self.opq(op, ty, a, b, 0, ha)
        return self.opq(op, ty, a, b)

    def wrapc(self, r, w, a, b):
        mn, mx = -(1 << (w - 1)), (1 << w) - 1
        if w in (1, 8, 16): return r & mx
        if mn <= r <= mx: return r
        r &= mx
        return r
    def canon(self, r, w, a, b):
        if w in (1, 8, 16): return r & ((1 << w) - 1)
        if w == 32 and (r >> 31) and (a < 0 or b < 0): return r - (1 << 32)
        if w == 64 and (r >> 63): return r - (1 << 64)
        return r

    def opq(self, op, ty, a, b, lo=None, hi=None):
        w = int(ty[1:]) if isinstance(ty, str) and INT.match(ty) else 64
        if lo is None:
            if w in (1, 8, 16): lo, hi = 0, (1 << w) - 1
            else: lo, hi = -(1 << (w - 1)), (1 << w) - 1
        return lin(mksym(('op', op, w, a, b), w, lo, hi, '(%r %s %r)' % (a, op, b)))

    def cast(self, st, op, fty, tty, v):
        if isinstance(v, (Ptr, Fn)) or v is UNDEF: return v
        if op in ('bitcast', 'ptrtoint', 'inttoptr', 'freeze'): return v
        wf = int(fty[1:]) if isinstance(fty, str) and INT.match(fty) else 64
        wt = int(tty[1:]) if isinstance(tty, str) and INT.match(tty) else 64
        if isinstance(v, Cond):
            if op == 'zext' or op == 'trunc': return v
            if op == 'sext': return self.opq('sextb', tty, v, 0, -1, 0)
            return UNDEF
        if not is_num(v): return UNDEF
        if op == 'zext': return self.view(st, fty, v, False)
        if op == 'sext': return self.view(st, fty, v, True)
        if op == 'trunc':
            if wt == 1:
                lo, hi = iv(st, v)
                if lo >= 0 and hi <= 1:
                    if lo == hi: return lo
                    return Cond(('cmp', 'ne', v, 0))
                if isinstance(v, int): return v & 1
                return Cond(('cmp', 'ne', self.opq('and', fty, v, 1, 0, 1), 0))
            lo, hi = iv(st, v)
            if isinstance(v, int):
                if wt in (8, 16): return v & ((1 << wt) - 1)
                if -(1 << (wt - 1)) <= v < (1 << wt): return v
                v &= (1 << wt) - 1
                return v - (1 << wt) if v >> (wt - 1) else v
            if wt in (8, 16):
                if lo >= 0 and hi < (1 << wt): return v
                if self.relview and (lo >= 0 or prove_le0(st, lscale(v, -1))) and (hi < 1 << wt or prove_le0(st, ladd(v, 1 - (1 << wt)))): return v
                return self.opq('trunc', tty, v, wt, 0, (1 << wt) - 1)
            if lo >= -(1 << (wt - 1)) and hi < (1 << wt): return v
            return self.opq('trunc', tty, v, wt, -(1 << (wt - 1)), (1 << (wt - 1)) - 1)
        return UNDEF

    # ------------------------------------------------------------------ liveness
    def liveness(self, fn):
        if fn.name in self._live: return self._live[fn.name]
        use = {}; deff = {}; phiuse = {}
        for b in fn.rpo:
            u = set(); d = set()
            for i in b.ins:
                if i.op == 'phi':
                    d.add(i.res)
                    for v, l in i.x:
                        if v[0] == 'loc': phiuse.setdefault(l, set()).add(v[1])
                    continue
                for t, v in i.ops:
                    for n in self._locs(v):
                        if n not in d: u.add(n)
                if i.op == 'call' and i.x[0] == 'loc' and i.x[1] not in d: u.add(i.x[1])
                if i.res is not None: d.add(i.res)
            use[b] = u; deff[b] = d
        li = {b: set() for b in fn.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(fn.rpo):
                out = set(phiuse.get(b.name, ()))
                for s in b.succ:
                    out |= li[s]
                phid = set(i.res for i in b.ins if i.op == 'phi')
                n = use[b] | (out - deff[b])
                if n != li[b]: li[b] = n; ch = True
        # live-in at block start, after phis: includes phi results used
        self._live[fn.name] = li
        return li
    def _locs(self, v):
        if v[0] == 'loc': yield v[1]
        elif v[0] == 'cexpr':
            for t, x in v[3]: yield from self._locs(x)
        elif v[0] == 'agg':
            for t, x in v[1]: yield from self._locs(x)

    # ------------------------------------------------------------------ joins
    def join_val(self, st, sa, sb, a, b, slot, widen=False):
        """value for slot in joined state st"""
        if a == b and type(a) == type(b): return a
        ra, rb = self.resolve(sa, a), self.resolve(sb, b)
        if ra == rb and type(ra) == type(rb): return ra
        a, b = ra, rb
        if a is UNDEF or b is UNDEF:
            return UNDEF
        if self.relview:
            if isinstance(a, Cond): a = self.simplify(sa, a)
            if isinstance(b, Cond): b = self.simplify(sb, b)
            if a == b and type(a) == type(b): return a
        pa = isinstance(a, (Ptr, Fn)); pb = isinstance(b, (Ptr, Fn))
        if self.joinoff and isinstance(a, Ptr) and isinstance(b, Ptr) and a.o is b.o and is_num(a.off) and is_num(b.off):
            off = self.join_val(st, sa, sb, a.off, b.off, ('off', slot), widen)
            if is_num(off):
                if self._offs is not None: self._offs.append((a.off, b.off, off))
                return Ptr(a.o, off)
        if pa or pb:
            o = mkobj('J%s' % (slot,), 'lazy', di=(a.o.di if isinstance(a, Ptr) else b.o.di if isinstance(b, Ptr) else None))
            na, nb = self.nullness(sa, a), self.nullness(sb, b)
            self.mon.joined_ptr(self, o, sa, a, sb, b)
            st.mem.pop(o, None); st.dflt.pop(o, None); st.null.pop(o, None); st.bind.pop(o, None); st.alts.pop(o, None)
            if na is not None and na == nb: st.null[o] = na
            if not widen:
                al = []
                for s, x in ((sa, a), (sb, b)):
                    if isinstance(x, Ptr) and x.o is o and x.off == 0:
                        for y in s.alts.get(o, ()):
                            if y not in al: al.append(y)
                        if not s.alts.get(o): al = None; break
                    elif isinstance(x, Ptr) and x.o in s.alts:
                        al = None; break
                    elif x not in al: al.append(x)
                if al is not None and len(al) <= 4 and all(isinstance(x, (Ptr, Fn)) or x == 0 for x in al):
                    st.alts[o] = tuple(al)
            return Ptr(o, 0)
        if self.joineq and is_num(a) and is_num(b) and self._pairs is not None:
            # numbers that are equal (up to a constant) on both sides stay so
            for pa_, pb_, l in self._pairs:
                d = ladd(a, pa_, -1)
                if d == ladd(b, pb_, -1) and (isinstance(d, int) or (len(d.t) <= 3 and not any(self.rebound(m, slot) for m, _ in d.t))):
                    if d != 0: self.common_bounds(st, sa, sb, a, b, ladd(l, d), slot)
                    return ladd(l, d)
            if self.relview:
                # numbers that add up to the same on both sides
                for pa_, pb_, l in self._pairs:
                    d = ladd(a, pa_)
                    if d == ladd(b, pb_) and (isinstance(d, int) or (len(d.t) <= 3 and not any(self.rebound(m, slot) for m, _ in d.t))):
                        r = ladd(d, l, -1)
                        self.common_bounds(st, sa, sb, a, b, r, slot)
                        return r
            # numbers that equal the same expression on both sides
            if isinstance(a, int) and isinstance(b, int):
                for n, x in sa.iv.items():
                    if x == (a, a) and sb.iv.get(n) == (b, b) and _symlist[n].key[0] != 'J': self._pairs.append((a, b, Lin(0, ((n, 1),)))); return Lin(0, ((n, 1),))
            for q, x, q2, y in ((sa, a, sb, b), (sb, b, sa, a)):
                if not isinstance(x, Lin) or len(x.t) != 1 or abs(x.t[0][1]) != 1: continue
                n, k = x.t[0]
                if _symlist[n].key[0] != 'J':
                    f = ladd(y, x, -1)
                    if prove_le0(q2, f) and prove_le0(q2, lscale(f, -1)): self._pairs.append((a, b, x)); return x
                for r in q.rel:
                    c = dict(r.t).get(n)
                    if c not in (1, -1) or len(r.t) > 3: continue
                    e = ladd(x, r, -k * c)
                    if isinstance(e, Lin) and any(m == n for m, _ in e.t): continue
                    if any(_symlist[m].key[0] == 'J' for m, _ in (e.t if isinstance(e, Lin) else ())): continue
                    d = ladd(x, e, -1); f = ladd(y, e, -1)
                    if prove_le0(q, d) and prove_le0(q, lscale(d, -1)) and prove_le0(q2, f) and prove_le0(q2, lscale(f, -1)): self._pairs.append((a, b, e)); return e
        if isinstance(a, Cond) or isinstance(b, Cond) or (is_num(a) and is_num(b)):
            la, ha = iv(sa, a); lb, hb = iv(sb, b)
            lo, hi = min(la, lb), max(ha, hb)
            if widen:
                def wl(x):
                    for t in (1, 0, -1, -(1 << 31)):
                        if x >= t: return t
                    return -(1 << 63)
                def wh(x):
                    for t in self.widths + (0, 1, 255, 65535, (1 << 31) - 1, (1 << 32) - 1, 1 << 48):
                        if x <= t: return t
                    return 1 << 64
                if lb < la: lo = wl(lb)
                if hb > ha: hi = wh(hb)
            s = mksym(('J', slot), 64, -(1 << 63), (1 << 64), 'J%s' % (slot[-1],))
            l = lin(s)
            st.iv[s.n] = (lo, hi)
            st.ne.pop(s.n, None)
            st.rel = frozenset(r for r in st.rel if all(m != s.n for m, _ in r.t))
            # small-set memory through excluded values
            ex = frozenset()
            if hi - lo <= 24:
                vals = set()
                ok = True
                for q, x in ((sa, a), (sb, b)):
                    l0, h0 = iv(q, x)
                    if h0 - l0 > 24: ok = False; break
                    e = ()
                    if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1:
                        e = [y + x.c for y in q.ne.get(x.t[0][0], ())]
                    vals |= set(z for z in range(l0, h0 + 1) if z not in e)
                if ok:
                    ex = frozenset(z for z in range(lo + 1, hi) if z not in vals)
            else:
                # 0 (or small consts) excluded on both sides
                cand = set()
                for q, x in ((sa, a), (sb, b)):
                    if isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1:
                        cand |= set(y + x.c for y in q.ne.get(x.t[0][0], ()))
                def excl(q, x, v):
                    l0, h0 = iv(q, x)
                    if v < l0 or v > h0: return True
                    return isinstance(x, Lin) and len(x.t) == 1 and x.t[0][1] == 1 and (v - x.c) in q.ne.get(x.t[0][0], ())
                ex = frozenset(v for v in list(cand) + [0] if lo < v < hi and excl(sa, a, v) and excl(sb, b, v))
            if ex: st.ne[s.n] = ex
            if self.joineq and self._pairs is not None and is_num(a) and is_num(b):
                self._pairs.append((a, b, l))
                self.common_bounds(st, sa, sb, a, b, l, slot)
            return l
        return UNDEF

    def common_bounds(self, st, sa, sb, a, b, l, slot):
        """l, the join of a and b, keeps the upper bounds both sides have in common"""
        ha, hb = iv(sa, a)[1], iv(sb, b)[1]
        cand = set()
        for n in sa.iv:
            if n in sb.iv and sa.iv[n][0] != sb.iv[n][0] and _symlist[n].key[0] != 'J' and iv_sym(sa, n)[0] >= ha and iv_sym(sb, n)[0] >= hb: cand.add(Lin(0, ((n, 1),)))
        for q, x in ((sa, a), (sb, b)):
            if self.relview and isinstance(x, Lin) and len(x.t) <= 3 and not any(self.rebound(m, slot) for m, _ in x.t): cand.add(x)
            if not isinstance(x, Lin) or len(x.t) > 2 or any(k != 1 for _, k in x.t): continue
            for r in q.rel:
                if set(x.t) <= set(r.t) and len(r.t) == len(x.t) + 1:
                    e = ladd(x, r, -1)
                    if isinstance(e, Lin) and not any(self.rebound(m, slot) for m, _ in e.t): cand.add(e)
        for e in cand:
            if prove_le0(sa, ladd(a, e, -1)) and prove_le0(sb, ladd(b, e, -1)):
                if self.relview:
                    for c in (4, 3, 2, 1):
                        if prove_le0(sa, ladd(ladd(a, e, -1), c)) and prove_le0(sb, ladd(ladd(b, e, -1), c)): e = ladd(e, -c); break
                r = ladd(l, e, -1)
                if isinstance(r, Lin) and not any(q.t == r.t and q.c >= r.c for q in st.rel): st.rel = frozenset(q for q in st.rel if q.t != r.t) | {r}
    @staticmethod
    def rebound(n, slot):
        """a symbol of a join at the same place, which is about to get another meaning"""
        def base(x):
            while x and x[0] == 'off': x = x[1]
            return x[0] if x else None
        k = _symlist[n].key
        return k[0] == 'J' and base(k[1]) == base(slot)

    def join(self, sa, sb, slotbase, widen=False):
        st = State(); self._pairs = [] if self.joineq else None; self._offs = [] if self.relview else None
        # facts
        for n, r in sa.iv.items():
            q = sb.iv.get(n)
            if q is not None:
                lo, hi = min(r[0], q[0]), max(r[1], q[1])
                if widen and self.relview and _symlist[n].key[0] == 'J':
                    if lo < r[0]: lo = next((t for t in (1, 0, -1, -(1 << 31)) if lo >= t), -(1 << 63))
                    if hi > r[1]: hi = next((t for t in self.widths + (255, 65535, (1 << 32) - 1, 1 << 48) if hi <= t), 1 << 64)
                st.iv[n] = (lo, hi)
        for n, e in sa.ne.items():
            q = sb.ne.get(n)
            lo, hi = iv_sym(sb, n)
            keep = frozenset(v for v in e if (q and v in q) or v < lo or v > hi)
            lo2, hi2 = st.iv.get(n, (_symlist[n].lo, _symlist[n].hi))
            keep = frozenset(v for v in keep if lo2 <= v <= hi2)
            if keep: st.ne[n] = keep
        for n, e in sb.ne.items():
            if n in sa.ne: continue
            lo, hi = iv_sym(sa, n)
            keep = frozenset(v for v in e if v < lo or v > hi)
            if keep: st.ne[n] = st.ne.get(n, frozenset()) | keep
        rels = sa.rel & sb.rel
        if sa.rel != sb.rel and not widen:
            extra = [r for r in (sa.rel ^ sb.rel)]
            if len(extra) <= 60:
                for r in extra:
                    other = sb if r in sa.rel else sa
                    if prove_le0(other, r): rels = rels | {r}
        elif widen:
            for r in sa.rel - sb.rel:
                if prove_le0(sb, r): rels = rels | {r}
        st.rel = rels
        for o, v in sa.null.items():
            if sb.null.get(o) == v: st.null[o] = v
        for k, v in sa.cf.items():
            if sb.cf.get(k) == v: st.cf[k] = v
        for o, v in sa.bind.items():
            if sb.bind.get(o) == v: st.bind[o] = v
        for o, v in sa.alts.items():
            if sb.alts.get(o) == v and o not in st.bind: st.alts[o] = v
            elif o not in st.bind:
                w = sb.bind.get(o)
                al = list(v)
                q = sb.alts.get(o, (w,) if w is not None else None)
                if q is not None:
                    for y in q:
                        if y not in al: al.append(y)
                    if len(al) <= 4: st.alts[o] = tuple(al)
        for o, v in sa.bind.items():
            if o in st.bind or o in st.alts: continue
            al = [v]
            q = sb.alts.get(o, (sb.bind[o],) if o in sb.bind else None)
            if q is not None:
                for y in q:
                    if y not in al: al.append(y)
                if len(al) <= 4: st.alts[o] = tuple(al)
        for o, v in sa.ver.items():
            st.ver[o] = max(v, sb.ver.get(o, 0))
        for o, v in sb.ver.items():
            if o not in st.ver: st.ver[o] = v
        for o in set(sa.dflt) | set(sb.dflt):
            if sa.dflt.get(o) == sb.dflt.get(o): st.dflt[o] = sa.dflt[o]
        st.trace = sa.trace
        st.mon = {}
        for k in set(sa.mon) | set(sb.mon):
            a, b = sa.mon.get(k), sb.mon.get(k)
            st.mon[k] = a if a == b else self.mon.join_field(k, a, b)
        # memory
        only = set(sa.mem) ^ set(sb.mem)
        for o in list(sa.mem) + [o for o in sb.mem if o not in sa.mem]:
            ca, cb = sa.mem.get(o), sb.mem.get(o)
            if ca is cb or ca == cb:
                st.mem[o] = ca; continue
            offs = set(ca or ()) | set(cb or ())
            out = {}
            for off in offs:
                x = ca.get(off) if ca else None; y = cb.get(off) if cb else None
                if x is None: x = self.implied(sa, o, off, y)
                if y is None: y = self.implied(sb, o, off, x)
                if x is None or y is None or x[1] != y[1]:
                    if o.kind in ('heap', 'stack') and not isinstance(off, Lin):
                        # unknown on one side: pin a fresh symbol so that the default does not apply
                        z = x or y
                        v = self.topval(st, z[0], (slotbase, o.name, off))
                        out[off] = (v, z[1])
                    continue
                out[off] = (self.join_val(st, sa, sb, x[0], y[0], (slotbase, o.name, off), widen), x[1])
            st.mem[o] = out
        def jenv(ea, eb, sb_):
            if ea is eb: return ea
            env = {}
            for n in ea:
                if n in eb: env[n] = self.join_val(st, sa, sb, ea[n], eb[n], (sb_, n), widen)
            return env
        st.env = jenv(sa.env, sb.env, slotbase)
        st.frames = tuple(jenv(x, y, (slotbase, k)) for k, (x, y) in enumerate(zip(sa.frames, sb.frames)))
        if self._offs and len(self._offs) > 1:
            # order between joined offsets
            u = {}
            for a, b, l in self._offs:
                if isinstance(l, Lin): u.setdefault(l, (a, b))
            u = list(u.items())[:8]
            for i, (l, (a, b)) in enumerate(u):
                for l2, (a2, b2) in u[:i] + u[i + 1:]:
                    r = ladd(l, l2, -1)
                    if isinstance(r, int) or prove_le0(st, ladd(r, 1)): continue
                    da, db = ladd(a, a2, -1), ladd(b, b2, -1)
                    if not (prove_le0(sa, da) and prove_le0(sb, db)): continue
                    if not widen and prove_le0(sa, ladd(da, 1)) and prove_le0(sb, ladd(db, 1)): r = ladd(r, 1)
                    if not prove_le0(st, r): st.rel = st.rel | {r}
        if self.rates and self._offs and self._pairs:
            # sums that grow with an offset
            us = {l: (a, b) for a, b, l in self._offs if isinstance(l, Lin) and len(l.t) <= 2}
            for a, b, l in self._pairs[:30]:
                if l in us or not isinstance(l, Lin) or len(l.t) > 1 or l.c: continue
                if iv(st, l)[1] < 200: continue
                for l2, (a2, b2) in list(us.items())[:6]:
                    for k in self.rates:
                        r = ladd(l, l2, -k)
                        if prove_le0(sa, ladd(a, a2, -k)) and prove_le0(sb, ladd(b, b2, -k)):
                            if not prove_le0(st, r): assume_le0(st, r)
                            r2 = lscale(l, -1)
                            if prove_le0(sa, lscale(a, -1)) and prove_le0(sb, lscale(b, -1)) and not prove_le0(st, r2): assume_le0(st, r2)
                            break
        if self._offs: self.mon.after_join(self, st, sa, sb, widen)
        if self._offs and not widen:
            # what is known of the contents at a joined offset
            for i, (a, b, l) in enumerate(self._offs):
                if a == b or not isinstance(l, Lin): continue
                for o in sa.mem:
                    x = sa.mem[o].get(a); y = sb.mem.get(o, {}).get(b)
                    if x is None or y is None or x[1] != y[1] or not is_num(x[0]) or not is_num(y[0]) or o not in st.mem and o.kind != 'lazy': continue
                    if l in st.mem.get(o, {}) or o.kind == 'ghost': continue
                    c = dict(st.mem.get(o, {})); c[l] = (self.join_val(st, sa, sb, x[0], y[0], ('cell', slotbase, o.name, i)), x[1]); st.mem[o] = c
        self._pairs = None
        return st

    def implied(self, st, o, off, other):
        """value at (o,off) not materialised: default content"""
        if not isinstance(off, int): return None
        size = other[1]
        d = st.dflt.get(o)
        cells = st.mem.get(o) or {}
        for o2, (v2, s2) in cells.items():
            if isinstance(o2, int) and o2 < off + size and off < o2 + s2: return None
        if d == 0: return (0, size)
        if isinstance(d, tuple):
            for lo, hi, val in d:
                if lo <= off < hi: return (0, size) if val == 0 else None
        v = other[0]
        ty = 'ptr' if isinstance(v, (Ptr, Fn)) else 'i%d' % (size * 8)
        if v == 0 and size == 8:
            # could be null pointer: check di
            path, t = self.leaf(o, off)
            if t is not None and self.mod.di_pointee(t) is not None: ty = 'ptr'
        if o.kind == 'stack' and d is None: return None
        if isinstance(v, Cond): ty = 'i8'
        return (self.fresh_of(st, o, off, ty), size)

    def topval(self, st, v, slot):
        if isinstance(v, (Ptr, Fn)):
            o = mkobj('J%s' % (slot,), 'lazy', di=v.o.di if isinstance(v, Ptr) else None)
            self.mon.joined_ptr(self, o, st, v, st, v)
            st.mem.pop(o, None); st.null.pop(o, None); st.alts.pop(o, None); st.bind.pop(o, None)
            return Ptr(o, 0)
        if v is UNDEF: return UNDEF
        s = mksym(('J', slot), 64, -(1 << 63), 1 << 64, 'J%s' % (slot[-1],))
        st.iv.pop(s.n, None); st.ne.pop(s.n, None)
        return lin(s)

    def same(self, sa, sb):
        """is sb covered by sa syntactically (identical up to redundant facts)?"""
        for ea, eb in zip((sa.env,) + sa.frames, (sb.env,) + sb.frames):
            if ea is eb: continue
            if ea.keys() != eb.keys(): return False
            for n in ea:
                a, b = ea[n], eb[n]
                if not (a is b or (type(a) == type(b) and a == b)): return False
        if sa.mon != sb.mon: return False
        for o in set(sa.mem) | set(sb.mem):
            ca, cb = sa.mem.get(o) or {}, sb.mem.get(o) or {}
            if ca is cb: continue
            for off in set(ca) | set(cb):
                x, y = ca.get(off), cb.get(off)
                if x is None: continue   # old knows nothing here (lazily unknown)
                if y is None:
                    y = self.implied(sb, o, off, x)
                    if y is None: return False
                if not (x[0] == y[0] and type(x[0]) == type(y[0]) and x[1] == y[1]): return False
        for o in set(sa.dflt) | set(sb.dflt):
            if sa.dflt.get(o) != sb.dflt.get(o): return False
        for n, r in sa.iv.items():
            q = iv_sym(sb, n)
            if q[0] < r[0] or q[1] > r[1]: return False
        for n, e in sa.ne.items():
            q = sb.ne.get(n, ())
            lo, hi = iv_sym(sb, n)
            for v in e:
                if v not in q and lo <= v <= hi: return False
        for r in sa.rel:
            if r not in sb.rel and not prove_le0(sb, r): return False
        for o, v in sa.null.items():
            if sb.null.get(o) != v: return False
        for k, v in sa.cf.items():
            if sb.cf.get(k) != v: return False
        for o, v in sa.bind.items():
            if sb.bind.get(o) != v: return False
        for o, v in sa.alts.items():
            w = sb.alts.get(o, (sb.bind[o],) if o in sb.bind else None)
            if w is None or not set(w) <= set(v): return False
        return True

    def diff(self, sa, sb):
        out = []
        for k, (ea, eb) in enumerate(zip((sa.env,) + sa.frames, (sb.env,) + sb.frames)):
            for n in set(ea) | set(eb):
                if ea.get(n) != eb.get(n) or type(ea.get(n)) != type(eb.get(n)): out.append('env%d %s: %r -> %r' % (k, n, ea.get(n), eb.get(n)))
        if sa.mon != sb.mon: out.append('mon %r -> %r' % (sa.mon, sb.mon))
        for o in set(sa.mem) | set(sb.mem):
            ca, cb = sa.mem.get(o) or {}, sb.mem.get(o) or {}
            for off in set(ca) | set(cb):
                if ca.get(off) != cb.get(off): out.append('mem %s+%r: %r -> %r' % (o.name, off, ca.get(off), cb.get(off)))
        for at in ('dflt', 'null', 'cf', 'bind', 'alts', 'ne'):
            a, b = getattr(sa, at), getattr(sb, at)
            for k in a:
                if a.get(k) != b.get(k): out.append('%s %r: %r -> %r' % (at, k, a.get(k), b.get(k)))
        for n, r in sa.iv.items():
            q = iv_sym(sb, n)
            if q[0] < r[0] or q[1] > r[1]: out.append('iv %r %r -> %r' % (_symlist[n], r, q))
        for r in sa.rel:
            if r not in sb.rel: out.append('rel %r' % r)
        return '\n   '.join(x[:300] for x in out[:30])

    def reduce(self, states, cap, slotbase, extra=None):
        """join states with equal monitor key when there are too many"""
        if len(states) <= 1: return states
        out = []
        for s in states:
            for s2 in out:
                if self.same(s2, s): break
            else: out.append(s)
        if len(out) <= cap: return out
        self.reduced += 1
        groups = {}
        for s in out:
            k = (self.mon.key(s), extra(s) if extra else None)
            if self.localpath: k += (s.env.get('#p'),) + tuple(f.get('#p') for f in s.frames)
            groups.setdefault(k, []).append(s)
        res = []
        per = max(1, cap // max(1, len(groups)))
        for gi, (k, g) in enumerate(groups.items()):
            acc = g[per - 1:]
            if len(acc) > 1:
                j = acc[0]
                for x in acc[1:]: j = self.join(j, x, (slotbase, gi))
                g = g[:per - 1] + [j]
            res.extend(g)
        return res

    # ------------------------------------------------------------------ running
    settle = False
    def canonical(self, st, x):
        """the same number without symbols of joins, where it is known to equal one"""
        if not isinstance(x, Lin): return x
        for n, k in x.t:
            if _symlist[n].key[0] != 'J': continue
            y = Lin(0, ((n, 1),))
            lo, hi = iv_sym(st, n)
            if lo == hi: return self.canonical(st, ladd(x, ladd(lo, y, -1), k))
            for r in st.rel:
                c = dict(r.t).get(n)
                if c not in (1, -1): continue
                e = ladd(y, r, -c)
                if isinstance(e, Lin) and any(_symlist[m].key[0] == 'J' for m, _ in e.t): continue
                d = ladd(y, e, -1)
                if prove_le0(st, d) and prove_le0(st, lscale(d, -1)): return self.canonical(st, ladd(x, ladd(e, y, -1), k))
        return x
    def settle_state(self, st):
        """replaces numbers that have become known at the end of a loop"""
        memo = {}
        def f(v):
            if isinstance(v, Ptr):
                if not isinstance(v.off, Lin): return v
                w = f(v.off)
                return v if w == v.off else Ptr(v.o, w)
            if not isinstance(v, Lin): return v
            if v not in memo: memo[v] = self.canonical(st, v)
            return memo[v]
        st.env = {k: f(v) for k, v in st.env.items()}
        for o, cells in list(st.mem.items()):
            new = {k: (f(c[0]), c[1]) for k, c in cells.items()}
            if any(new[k][0] is not cells[k][0] for k in cells): st.mem[o] = new
    unroll_const = 0
    def unrolled(self, fn, b):
        """how many iterations of a loop are analysed before it is widened: all of them if there are few"""
        if not self.unroll_const: return self.unroll
        c = self._unr.get((fn.name, b.name))
        if c is None:
            c = self.unroll; ld = [i for i in b.ins if i.op == 'icmp']
            if len(ld) == 1 and b.ins[-1].op == 'br' and len(b.ins[-1].x) == 2:
                for t, v in ld[0].ops:
                    try: k = self.const(t, v) if v[0] != 'loc' else None
                    except Exception: k = None
                    if isinstance(k, int) and 1 < k <= self.unroll_const: c = k + 1
            self._unr[(fn.name, b.name)] = c
        return c
    def run_function(self, fname, calls):
        """calls: list of (st, args).  -> list of (ret, st); the caller frame of each state is restored"""
        fn = self.mod.funcs[fname]
        self.covered.add(fname)
        if len(self.stack) >= 2 * self.maxdepth: raise Budget('depth')
        live = self.liveness(fn)
        loops = fn.loops()
        ctx = hash(tuple(self.stack)) & 0xffffffff
        lpath = self.localpath and not loops and len(fn.blocks) <= self.localpath
        start = []
        for st, args in calls:
            st.frames = st.frames + (st.env,)
            st.env = {n: a for (t, n), a in zip(fn.params, args)}
            self.mon.on_enter(self, st, fn, args)
            start.append((st, None))
        pending = {fn.rpo[0]: start}
        heads = {}
        rets = []
        heap = [(0, 0, fn.rpo[0])]
        inq = {fn.rpo[0]}
        cnt = itertools.count(1)
        while heap:
            _, _, b = heapq.heappop(heap)
            inq.discard(b)
            inc = pending.pop(b, [])
            if not inc: continue
            cur = []
            phis = [i for i in b.ins if i.op == 'phi']
            lv = live[b]
            for s, frm in inc:
                e = s.env
                e2 = {n: e[n] for n in lv if n in e}
                if lpath:
                    q = e.get('#p', ())
                    e2['#p'] = ((q if q is not UNDEF else ()) + (frm,))[-6:] if len(b.pred) > 1 else q
                for i in phis:
                    for v, l in i.x:
                        if l == frm: e2[i.res] = self.val(e, (i.ty, v)); break
                s.env = e2
                cur.append(s)
            slot = (ctx, b.name)
            if b in loops:
                h = heads.setdefault(b, {'n': 0, 'st': {}})
                h['n'] += 1
                if h['n'] > self.unrolled(fn, b) + 1:
                    nxt = []
                    grp = {}
                    for s in cur: grp.setdefault(self.mon.key(s), []).append(s)
                    for k, g in grp.items():
                        old = h['st'].get(k)
                        if old is not None: g = [s for s in g if not self.same(old[0], s)]
                        if not g: continue
                        ks = k and hash(k) & 0xffff
                        s = g[0]
                        if len(g) > 1: self.gc(s)
                        for x in g[1:]:
                            self.gc(x)
                            s = self.join(s, x, (slot, ks, 'g'))
                        if old is None:
                            self.gc(s)
                            h['st'][k] = (s.clone(), 1)
                            nxt.append(s)
                        else:
                            if self.same(old[0], s): continue
                            self.gc(s)
                            ns = self.join(old[0], s, (slot, ks), widen=old[1] > 1)
                            self.gc(ns)
                            if self.same(old[0], ns): continue
                            if old[1] > 8:
                                self.forget_changed(old[0], ns, (slot, 'fc'))
                                if self.same(old[0], ns): continue
                            if old[1] > 12:
                                self.forget_hard(old[0], ns, slot)
                                if self.same(old[0], ns): continue
                            if old[1] > 40: raise Budget('no fixpoint in %s %s: %s' % (fn.name, b.name, self.diff(old[0], ns)))
                            h['st'][k] = (ns, old[1] + 1)
                            nxt.append(ns.clone())
                    cur = self.dedupe_keys(nxt)
                else:
                    cur = self.reduce(cur, self.cap, (slot, 'i%d' % h['n']))
            else:
                it = tuple(min(heads[h]['n'], self.unrolled(fn, h) + 2) for h in heads if b in loops[h])
                cur = self.reduce(cur, self.cap, (slot, it))
            for kind, payload in self.run_block(fn, b, cur):
                if kind == 'ret': rets.append(payload)
                else:
                    s2, tgt = payload
                    if tgt in loops and b in loops[tgt]: self.mon.on_backedge(self, s2, fn, tgt)
                    if self.settle and any(b in loops[h] and tgt not in loops[h] for h in loops): self.settle_state(s2)
                    pending.setdefault(tgt, []).append((s2, b.name))
                    if tgt not in inq:
                        inq.add(tgt); heapq.heappush(heap, (self.prio(fn, tgt, loops), next(cnt), tgt))
        pref = 'stk:%s:' % (ctx,)
        res = []
        for r, s in rets:
            for o in [o for o in s.mem if o.kind == 'stack' and o.name.startswith(pref)]: s.mem.pop(o)
            for o in [o for o in s.dflt if o.kind == 'stack' and o.name.startswith(pref)]: s.dflt.pop(o)
            self.mon.on_exit(self, s, fn, r)
            s.env = {'ret': r}
            res.append(s)
        res = self.reduce(res, self.cap, (ctx, 'ret'), extra=lambda s: self.retkey(s, s.env['ret']))
        out = []
        for s in res:
            r = s.env['ret']
            s.env = dict(s.frames[-1]); s.frames = s.frames[:-1]
            out.append((r, s))
        return out

    def gc(self, st):
        """drop lazily named objects that no live value refers to"""
        work = []
        def add(v):
            if isinstance(v, Ptr): work.append(v.o)
        for e in (st.env,) + st.frames:
            for v in e.values(): add(v)
        for o in st.mem:
            if o.kind != 'lazy': work.append(o)
        seen = set()
        while work:
            o = work.pop()
            if o in seen: continue
            seen.add(o)
            for v, _ in st.mem.get(o, {}).values(): add(v)
            b = st.bind.get(o)
            if b is not None: add(b)
            for a in st.alts.get(o, ()): add(a)
        keep = self.mon.keep(st)
        for d in (st.mem, st.dflt, st.null, st.alts, st.bind):
            for o in [o for o in d if o.kind == 'lazy' and o not in seen and o not in keep and o.name.startswith('J')]: d.pop(o)

    def dedupe_keys(self, sts):
        d = {}
        for s in sts: d[self.mon.key(s)] = s
        return list(d.values())

    def retkey(self, s, r):
        r = self.resolve(s, r)
        if isinstance(r, int): return r
        if is_num(r):
            lo, hi = iv(s, r)
            if lo > 0 or hi < 0: return 'nz'
            if 0 in s.ne.get(r.t[0][0], ()) and len(r.t) == 1 and r.c == 0: return 'nz'
        if isinstance(r, Ptr): return ('p', self.nullness(s, r))
        return None

    def prio(self, fn, b, loops):
        # process inner loops to completion before the exits: topological priority by rpo works for reducible graphs
        # when loop bodies come before exits; enforce by loop nesting: exits of a loop get priority after its blocks
        p = getattr(fn, '_prio', None)
        if p is None:
            p = {}
            order = self.loop_order(fn, loops)
            for k, q in enumerate(order): p[q] = k
            fn._prio = p
        return p.get(b, b.rpo)

    def loop_order(self, fn, loops):
        """order of blocks in which every loop's blocks are contiguous before blocks that follow the loop"""
        blocks = list(fn.rpo)
        def order(bs, entry):
            # weak topological order restricted to bs
            bs_set = set(bs)
            # immediate sub-loops headed in bs (not entry)
            subs = [h for h in bs if h in loops and h is not entry]
            top = []
            for h in subs:
                if not any(h is not g and h in loops[g] and g is not entry and g in bs_set for g in subs): top.append(h)
            comp = {}
            for h in top:
                for q in loops[h]: comp[q] = h
            nodes = {}
            for q in bs:
                nodes.setdefault(comp.get(q, q), []).append(q)
            # topological sort of the quotient graph ignoring edges to entry
            indeg = {n: set() for n in nodes}
            for q in bs:
                cq = comp.get(q, q)
                for s in q.succ:
                    if s in bs_set and s is not entry:
                        cs = comp.get(s, s)
                        if cs is not cq: indeg[cs].add(cq)
            done = []; rem = dict(indeg); placed = set()
            while rem:
                ready = [n for n in rem if not (rem[n] - placed)]
                if not ready: ready = [min(rem, key=lambda n: n.rpo)]
                n = min(ready, key=lambda n: n.rpo)
                placed.add(n); del rem[n]; done.append(n)
            out = []
            for n in done:
                if n in top: out.extend(order([q for q in bs if q in loops[n]], n))
                else: out.append(n)
            return out
        return order(blocks, fn.rpo[0] if fn.rpo[0] in loops else None)

    def forget_changed(self, so, ns, slot=('fc',)):
        for o in list(ns.mem):
            ca = so.mem.get(o) or {}
            cb = ns.mem[o]
            out = None
            for off, y in cb.items():
                x = ca.get(off)
                if x is not None and (x[0] != y[0] or type(x[0]) != type(y[0])):
                    if out is None: out = dict(cb)
                    if isinstance(off, int): out[off] = (self.topval(ns, y[0], (slot, o.name, off)), y[1])
                    else: del out[off]
            if out is not None: ns.mem[o] = out
        for d, e in ((ns.null, so.null), (ns.alts, so.alts), (ns.bind, so.bind)):
            for k in [k for k in d if d[k] != e.get(k)]:
                if d is not ns.bind: d.pop(k)
        for n in list(ns.iv):
            if so.iv.get(n) != ns.iv[n]: ns.iv.pop(n)
        for n in list(ns.ne):
            if so.ne.get(n) != ns.ne[n]: ns.ne.pop(n)
        ns.rel = ns.rel & so.rel
        for k in list(ns.cf):
            if so.cf.get(k) != ns.cf[k]: ns.cf.pop(k)

    def forget_hard(self, so, ns, slot):
        """last resort for convergence: whatever still differs from the previous round becomes unknown"""
        for o in list(ns.mem):
            ca = so.mem.get(o)
            if ca is None:
                if o.kind not in ('heap', 'stack') or ns.dflt.get(o) is None: del ns.mem[o]
                continue
            cb = ns.mem[o]; out = {}
            for off, y in cb.items():
                x = ca.get(off)
                if x is not None and x == y and type(x[0]) == type(y[0]): out[off] = y
                elif ns.dflt.get(o) is not None and isinstance(off, int):
                    out[off] = (self.topval(ns, y[0], ('hard', slot, o.name, off)), y[1])
            ns.mem[o] = out
        def env(ea, eb, k):
            if ea is eb: return eb
            r = {}
            for n, v in eb.items():
                if n in ea and ea[n] == v and type(ea[n]) == type(v): r[n] = v
                else: r[n] = self.topval(ns, v, ('hard', slot, k, n)) if isinstance(v, (Ptr, Fn)) or is_num(v) else v if isinstance(v, Cond) and False else UNDEF if not isinstance(v, Cond) else lin(mksym(('J', ('hard', slot, k, n)), 64, 0, 1, 'J?'))
            return r
        ns.env = env(so.env, ns.env, 0)
        ns.frames = tuple(env(a, b, k + 1) for k, (a, b) in enumerate(zip(so.frames, ns.frames)))

    def run_block(self, fn, b, states):
        cur = states
        for ins in b.ins:
            op = ins.op
            if op == 'phi': continue
            self.steps += len(cur)
            if self.steps > self.max_steps: raise Budget('steps')
            if self.cpu_limit and time.process_time() > self.cpu_limit: raise Budget('time')
            if op == 'br':
                if len(ins.x) == 1:
                    for st in cur: yield ('br', (st, fn.blocks[ins.x[0]]))
                else:
                    for st in cur: yield from self.branch(fn, st, self.val(st.env, ins.ops[0]), ins)
                return
            if op == 'switch':
                for st in cur: yield from self.switch(fn, st, ins)
                return
            if op == 'ret':
                for st in cur: yield ('ret', (self.val(st.env, ins.ops[0]) if ins.ops else None, st))
                return
            if op == 'unreachable': return
            if op == 'call':
                cur = self.call(fn, cur, ins)
            else:
                nxt = []
                for st in cur:
                    outs = self.step(fn, st, ins)
                    if outs is None: nxt.append(st)
                    else: nxt.extend(outs)
                cur = nxt
            if not cur: return
            if len(cur) > 2 * self.cap:
                cur = self.reduce(cur, self.cap, (hash(tuple(self.stack)) & 0xffffffff, b.name, ins.idx))

    def branch(self, fn, st, c, ins):
        if isinstance(c, int):
            yield ('br', (st, fn.blocks[ins.x[0 if c else 1]])); return
        if is_num(c): c = Cond(('cmp', 'ne', c, 0))
        c = self.simplify(st, c)
        if isinstance(c, int):
            yield ('br', (st, fn.blocks[ins.x[0 if c else 1]])); return
        s2 = st.clone()
        for s in self.assume(st, c, True):
            s.note(ins.where, 'branch true')
            yield ('br', (s, fn.blocks[ins.x[0]]))
        for s in self.assume(s2, c, False):
            s.note(ins.where, 'branch false')
            yield ('br', (s, fn.blocks[ins.x[1]]))

    def simplify(self, st, c):
        if isinstance(c, Cond):
            k = c.k
            if k[0] == 'cmp':
                r = self.decide(st, k[1], ladd(k[2], k[3], -1))
                if r is not None: return int(r)
            elif k[0] == 'pnull':
                n = self.nullness(st, Ptr(k[1], 0))
                if n is not None: return int(n != c.neg)
            elif k[0] in ('opq', 'peq'):
                v = st.cf.get(k)
                if v is not None: return int(v != c.neg)
            elif k[0] in ('and', 'or'):
                a, b = self.simplify(st, k[1]), self.simplify(st, k[2])
                if k[0] == 'and':
                    if a == 0 or b == 0: return 0 if (isinstance(a, int) and a == 0) or (isinstance(b, int) and b == 0) else c
                    if isinstance(a, int): return b
                    if isinstance(b, int): return a
                else:
                    if (isinstance(a, int) and a == 1) or (isinstance(b, int) and b == 1): return 1
                    if isinstance(a, int): return b
                    if isinstance(b, int): return a
                return Cond((k[0], a, b))
        return c

    def switch(self, fn, st, ins):
        v = self.val(st.env, ins.ops[0])
        ty = ins.ops[0][0]
        d, cases = ins.x
        w = int(ty[1:])
        if isinstance(v, Cond) or v is UNDEF or not is_num(v):
            tgts = []
            for cv, l in cases: tgts.append((cv, l))
            for t in {d} | {l for _, l in cases}:
                yield ('br', (st.clone(), fn.blocks[t]))
            return
        norm = []
        for cv, l in cases:
            x = cv
            if w in (1, 8, 16): x &= (1 << w) - 1
            norm.append((x, l))
        if isinstance(v, int):
            for x, l in norm:
                if x == v or (x & ((1 << w) - 1)) == (v & ((1 << w) - 1)):
                    yield ('br', (st, fn.blocks[l])); return
            yield ('br', (st, fn.blocks[d])); return
        rest = st
        for x, l in norm:
            s = rest.clone()
            ok = self.assume(s, Cond(('cmp', 'eq', v, x)), True)
            for s3 in ok:
                s3.note(ins.where, 'case %d' % x)
                yield ('br', (s3, fn.blocks[l]))
            nx = self.assume(rest, Cond(('cmp', 'ne', v, x)), True)
            if not nx: return
            rest = nx[0]
        rest.note(ins.where, 'default case')
        yield ('br', (rest, fn.blocks[d]))

    def deref(self, st, ins, v, what):
        """resolve pointer for access -> list of (st, Ptr); reports null"""
        out = []
        for s, p in self.split(st, v):
            p = self.resolve(s, p)
            if isinstance(p, int):
                if p == 0 or (0 < p < 4096): self.mon.on_null(self, s, ins, what)
                continue
            if isinstance(p, Lin): 
                # address computed from null?
                self.mon.on_null(self, s, ins, what) if p.t == () else None
                continue
            if isinstance(p, Ptr):
                n = self.nullness(s, p)
                if n is True:
                    self.mon.on_null(self, s, ins, what); continue
                if n is None and p.o.kind in ('lazy', 'param'): s.null[p.o] = False
                out.append((s, p))
            elif isinstance(p, Fn): out.append((s, Ptr(mkobj('fn:' + p.name, 'global'), 0)))
            else:
                o = mkobj('?unk:%s:%s' % (ins.fn.name, ins.block.name + str(ins.idx)), 'lazy')
                out.append((s, Ptr(o, 0)))
        return out

    def step(self, fn, st, ins):
        """None: st updated in place; else list of states"""
        op = ins.op
        env = st.env
        if op == 'getelementptr':
            base = self.val(env, ins.ops[0])
            if isinstance(base, Ptr): base = self.resolve(st, base)
            env[ins.res] = self.gep(base, ins.x, [(t, self.val(env, (t, v))) for t, v in ins.ops[1:]])
            return None
        if op == 'load':
            outs = []
            for s, p in self.table_forks(self.deref(st, ins, self.val(env, ins.ops[0]), 'load')):
                self.mon.on_load(self, s, ins, p, self.mod.sizeof(ins.ty))
                v = self.load(s, p, ins.ty)
                for s3, v3 in self.mon.loaded(self, s, ins, p, v):
                    s3.env[ins.res] = v3
                    outs.append(s3)
            if len(outs) == 1 and outs[0] is st: return None
            return outs
        if op == 'store':
            val = self.val(env, ins.ops[0])
            outs = []
            for s, p in self.deref(st, ins, self.val(env, ins.ops[1]), 'store'):
                size = self.mod.sizeof(ins.ops[0][0])
                self.mon.on_store(self, s, ins, p, size, val)
                self.store(s, p, val, size)
                outs.append(s)
            if len(outs) == 1 and outs[0] is st: return None
            return outs
        if op == 'icmp':
            a, b = self.val(env, ins.ops[0]), self.val(env, ins.ops[1])
            env[ins.res] = self.cmp(st, ins.x, ins.ops[0][0], a, b); return None
        if op in ('zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr'):
            v = self.val(env, ins.ops[0])
            if isinstance(v, Ptr): v = self.resolve(st, v)
            env[ins.res] = self.cast(st, op, ins.ops[0][0], ins.ty, v); return None
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            a, b = self.val(env, ins.ops[0]), self.val(env, ins.ops[1])
            if isinstance(a, Ptr): a = self.resolve(st, a)
            if isinstance(b, Ptr): b = self.resolve(st, b)
            env[ins.res] = self.binop(st, op, ins.ty, a, b, ins.x); return None
        if op == 'select':
            c = self.val(env, ins.ops[0]); a = self.val(env, ins.ops[1]); b = self.val(env, ins.ops[2])
            if is_num(c) and not isinstance(c, int): c = Cond(('cmp', 'ne', c, 0))
            c = self.simplify(st, c)
            if isinstance(c, int): env[ins.res] = a if c else b; return None
            if a == b and type(a) == type(b): env[ins.res] = a; return None
            if is_num(a) and is_num(b) and a == 1 and b == 0 and isinstance(c, Cond): env[ins.res] = c; return None
            if is_num(a) and is_num(b) and a == 0 and b == 1 and isinstance(c, Cond): env[ins.res] = c.inv(); return None
            if ins.ty == 'i1' and isinstance(c, Cond):
                def ascond(x): return x if isinstance(x, (Cond, int)) else Cond(('cmp', 'ne', x, 0))
                if isinstance(b, int) and b == 0 and isinstance(a, (Cond, Lin)): env[ins.res] = Cond(('and', c, ascond(a))); return None
                if isinstance(a, int) and a == 1 and isinstance(b, (Cond, Lin)): env[ins.res] = Cond(('or', c, ascond(b))); return None
            outs = []
            s2 = st.clone()
            for s in self.assume(st, c, True):
                s.env[ins.res] = a; outs.append(s)
            for s in self.assume(s2, c, False):
                s.env[ins.res] = b; outs.append(s)
            return outs
        if op == 'alloca':
            ctx = hash(tuple(self.stack)) & 0xffffffff
            di = None
            for v in getattr(fn, 'dbgvars', {}).get(ins.res, []):
                di = (self.mod.md.get(v) or {}).get('type')
            o = mkobj('stk:%s:%s:%s' % (ctx, fn.name, self.varname(fn, ins.res)), 'stack', di=di, size=self.mod.sizeof(ins.x), irty=ins.x)
            st.mem.pop(o, None); st.dflt.pop(o, None)
            env[ins.res] = Ptr(o, 0); return None
        if op == 'freeze': env[ins.res] = self.val(env, ins.ops[0]); return None
        if ins.res is not None: env[ins.res] = UNDEF
        return None

    fork_tables = 0
    relview = False
    rates = ()
    _offs = None
    localpath = 0          # small functions without loops: states are joined only if they came the same way
    def table_forks(self, l):
        """one state per entry of a constant table that is accessed with an index of few values"""
        if not self.fork_tables: return l
        out = []
        for s, p in l:
            x = isinstance(p, Ptr) and p.o.kind == 'global' and isinstance(p.off, Lin) and len(p.off.t) == 1
            g = self.mod.globals.get(p.o.name) if x else None
            if not g or not g['const']: out.append((s, p)); continue
            sym, k, c = _symlist[p.off.t[0][0]], p.off.t[0][1], p.off.c
            lo, hi = iv_sym(s, sym.n)
            if hi - lo >= self.fork_tables: out.append((s, p)); continue
            for v in range(lo, hi + 1):
                s2 = s.clone()
                if assume_le0(s2, ladd(lin(sym), -v)) and assume_le0(s2, ladd(v, lin(sym), -1)): out.append((s2, Ptr(p.o, c + k * v)))
        return out

    def varname(self, fn, res):
        for v in getattr(fn, 'dbgvars', {}).get(res, []):
            m = self.mod.md.get(v)
            if m: return '%s#%s' % (m.get('name', res), res)
        return res

    # ------------------------------------------------------------------ calls
    def callees(self, st, ins, v):
        v = self.resolve(st, v)
        if isinstance(v, Fn): return [(st, v.name)]
        return None

    def table_candidates(self, p):
        """functions that may be loaded from a (constant) table object"""
        return []

    def call(self, fn, states, ins):
        cal = ins.x
        byname = {}
        for st in states:
            args = [self.val(st.env, o) for o in ins.ops]
            if cal[0] == 'glob':
                byname.setdefault(cal[1], []).append((st, args)); continue
            v = self.val(st.env, ('ptr', cal))
            for s, p in self.split(st, v):
                if isinstance(p, Fn): byname.setdefault(p.name, []).append((s, args))
                elif isinstance(p, int) and p == 0: self.mon.on_null(self, s, ins, 'indirect call')
                elif isinstance(p, Ptr) and self.nullness(s, p) is True: self.mon.on_null(self, s, ins, 'indirect call')
                else:
                    cands = self.fnptr_cands(s, p, ins)
                    if cands:
                        for c in cands:
                            s2 = s.clone()
                            if isinstance(p, Ptr): s2.bind[p.o] = Fn(c)
                            byname.setdefault(c, []).append((s2, args))
                    else:
                        self.unresolved.append(ins.where)
                        byname.setdefault(None, []).append((s, args))
        outs = []
        for name, calls in byname.items():
            for r, s2 in self.call_one(fn, ins, name, calls):
                if ins.res is not None: s2.env[ins.res] = r
                outs.append(s2)
        if len(outs) > self.cap:
            slot = (hash(tuple(self.stack)) & 0xffffffff, ins.block.name, ins.idx)
            outs = self.reduce(outs, self.cap, slot, extra=(lambda s: self.retkey(s, s.env.get(ins.res))) if ins.res is not None else None)
        return outs

    def fnptr_cands(self, st, p, ins):
        """candidates for an indirect call through a lazily loaded pointer: functions stored in the table/field the
        pointer was loaded from"""
        if not isinstance(p, Ptr): return []
        par = p.o.parent
        if par is None: return []
        obj, off = par
        if obj.kind == 'global':
            g = self.mod.globals.get(obj.name)
            if g and g['init'] is not None:
                # same field across array elements
                t = g['type']
                fns = []
                if isinstance(t, tuple) and t[0] == 'arr' and g['init'][0] == 'agg':
                    es = self.mod.sizeof(t[2])
                    c = off if isinstance(off, int) else off.c
                    fo = c % es
                    for k, (et, ev) in enumerate(g['init'][1]):
                        x = self.const_at(et, ev, fo, 'ptr')
                        if isinstance(x, Fn) and x.name not in fns: fns.append(x.name)
                return fns
        return []

    def call_one(self, fn, ins, name, calls):
        out = []; rest = []
        for st, args in calls:
            r = self.mon.on_call(self, st, ins, name, args)
            if r is not None: out.extend(r)
            else: rest.append((st, args))
        if not rest: return out
        if name is None:
            return out + [(self.ext_ret(st, ins, 'indirect', args), st) for st, args in rest]
        if name.startswith('llvm.'):
            for st, args in rest: out.extend(self.intrinsic(st, ins, name, args))
            return out
        if name in self.mod.funcs and name not in self.skip and name not in self.stack:
            self.stack.append('@%s.%d' % (ins.block.name, ins.idx)); self.stack.append(name)
            try:
                out.extend(self.run_function(name, rest))
            finally:
                self.stack.pop(); self.stack.pop()
            return out
        if name in NORET: return out
        for st, args in rest: out.extend(self.external(st, ins, name, args))
        return out

    def intrinsic(self, st, ins, name, args):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            return self.do_memcpy(st, ins, args[0], args[1], args[2])
        if name.startswith('llvm.memset'):
            return self.do_memset(st, ins, args[0], args[1], args[2])
        if name.startswith('llvm.stack') or name.startswith('llvm.va') or name.startswith('llvm.lifetime') or name.startswith('llvm.assume'):
            return [(UNDEF, st)]
        return [(self.ext_ret(st, ins, name, args), st)]

    def do_memset(self, st, ins, d, c, n):
        outs = []
        for s, p in self.deref(st, ins, d, 'memset'):
            self.mon.on_mem(self, s, ins, p, n, True, 'memset')
            if c == 0 and is_num(c):
                nn = n
                if isinstance(nn, Lin):
                    lo, hi = iv(s, nn)
                    if lo == hi: nn = lo
                self.zero_range(s, p.o, p.off, nn)
            else: self.havoc_range(s, p.o, p.off, n if is_num(n) else 1 << 40)
            outs.append((p, s))
        return outs

    def do_memcpy(self, st, ins, d, sp, n):
        outs = []
        for s, p in self.deref(st, ins, d, 'memcpy dst'):
            for s2, q in self.table_forks(self.deref(s, ins, sp, 'memcpy src')):
                self.mon.on_mem(self, s2, ins, p, n, True, 'memcpy dst')
                self.mon.on_mem(self, s2, ins, q, n, False, 'memcpy src')
                self.mon_copy(s2, ins, p, q, n)
                if isinstance(n, int) and isinstance(p.off, int) and isinstance(q.off, int):
                    src = dict(s2.mem.get(q.o, {}))
                    sd = s2.dflt.get(q.o)
                    srccells = {o: c for o, c in src.items() if isinstance(o, int) and q.off <= o and o + c[1] <= q.off + n}
                    if q.o.kind == 'global' and not srccells and n <= 256: srccells = self.const_cells(q.o.name, q.off, q.off + n)
                    self.havoc_range(s2, p.o, p.off, n)
                    dst = dict(s2.mem.get(p.o, {}))
                    for o, c in srccells.items(): dst[p.off + o - q.off] = c
                    # unknown source cells of known-typed objects stay lazily unknown; zero default carries over
                    if sd == 0:
                        s2.dflt[p.o] = ((p.off, p.off + n, 0),) + tuple(x for x in (s2.dflt.get(p.o) or ()) )
                    s2.mem[p.o] = dst
                else: self.havoc_range(s2, p.o, p.off, n if is_num(n) else 1 << 40)
                outs.append((p, s2))
        return outs

    def mon_copy(self, st, ins, p, q, n): self.mon.on_copy(self, st, ins, p, q, n)

    def ext_ret(self, st, ins, name, args, nullable=None):
        ty = ins.ty
        key = (tuple(self.stack), ins.fn.name, ins.block.name, ins.idx)
        n = st.mon.setdefault('_cc', {}) if False else None
        if ty == 'void': return None
        if ty == 'ptr':
            o = mkobj('ret:%s@%s:%s.%d/%x' % (name, ins.fn.name, ins.block.name, ins.idx, hash(key) & 0xffff), 'lazy')
            st.mem.pop(o, None); st.null.pop(o, None); st.dflt.pop(o, None)
            return Ptr(o, 0)
        if isinstance(ty, str) and INT.match(ty):
            w = int(ty[1:])
            lo, hi = {1: (0, 1), 8: (0, 255), 16: (0, 65535), 32: (-(1 << 31), (1 << 31) - 1)}.get(w, (-(1 << 63), (1 << 63) - 1))
            s = mksym(('ret', name, key), w, lo, hi, '%s()@%s' % (name, ins.where))
            st.iv.pop(s.n, None); st.ne.pop(s.n, None)
            st.rel = frozenset(r for r in st.rel if all(m != s.n for m, _ in r.t))
            return lin(s)
        return UNDEF

    def external(self, st, ins, name, args):
        if name in ('malloc', 'calloc', 'realloc', 'strdup', 'g_malloc', 'g_malloc0', 'g_strdup', 'CRYPTO_malloc', 'CRYPTO_zalloc', 'CRYPTO_strdup'):
            return self.do_alloc(st, ins, name, args)
        if name in ('free', 'CRYPTO_free', 'g_free'):
            outs = []
            for s, p in self.split(st, args[0]):
                p = self.resolve(s, p)
                if isinstance(p, int) and p == 0: outs.append((None, s)); continue
                if isinstance(p, Ptr) and self.nullness(s, p) is True: outs.append((None, s)); continue
                self.mon.on_free(self, s, ins, p)
                outs.append((None, s))
            return outs
        if name in ('memcpy', 'memmove'): return self.do_memcpy(st, ins, args[0], args[1], args[2])
        if name == 'memset': return self.do_memset(st, ins, args[0], args[1], args[2])
        if name in ('memcmp', 'strcmp', 'strncmp', 'strlen', 'strcpy', 'strncpy', 'strcat', 'strncat'):
            outs = [st]
            ptrs = {'memcmp': (0, 1), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strlen': (0,), 'strcpy': (0, 1), 'strncpy': (0, 1), 'strcat': (0, 1), 'strncat': (0, 1)}[name]
            cur = [(st, [])]
            for k in ptrs:
                nxt = []
                for s, ps in cur:
                    for s2, p in self.deref(s, ins, args[k], '%s arg %d' % (name, k)): nxt.append((s2, ps + [p]))
                cur = nxt
            res = []
            for s, ps in cur:
                if name == 'memcmp':
                    for p in ps: self.mon.on_mem(self, s, ins, p, args[2], False, 'memcmp')
                if name in ('strcpy', 'strncpy', 'strcat', 'strncat'):
                    self.havoc_range(s, ps[0].o, ps[0].off, 1 << 40); res.append((ps[0], s)); continue
                r = self.ext_ret(s, ins, name, args)
                if name == 'strlen':
                    x = one_sym(r)[0]
                    s.iv[x.n] = (0, 1 << 40)
                    c = self.cstr(ps[0])
                    if c is not None: r = len(c)
                if name == 'strcmp':
                    a, b = self.cstr(ps[0]), self.cstr(ps[1])
                    if a is not None and b is not None: r = (a > b) - (a < b)
                res.append((r, s))
            return res
        self.unknown_ext[name] = self.unknown_ext.get(name, 0) + 1
        # generic library call: may write through pointer arguments one level
        if name not in PURE_EXT:
            for a in args:
                a = self.resolve(st, a)
                if isinstance(a, Ptr): self.havoc_arg(st, a)
        r = self.ext_ret(st, ins, name, args)
        if isinstance(r, Ptr) and self.mon.alloc_fail and self.mon.may_fail(name):
            s2 = st.clone()
            s2.note(ins.where, '%s() returns NULL' % name)
            st.null[r.o] = False
            return [(r, st), (0, s2)]
        return [(r, st)]

    def cstr(self, p):
        if isinstance(p, Ptr) and p.o.kind == 'global' and isinstance(p.off, int):
            g = self.mod.globals.get(p.o.name)
            if g and g['const'] and g['init'] is not None:
                if g['init'][0] == 'str': return g['init'][1][p.off:].split(b'\0')[0]
                if g['init'][0] == 'zero': return b''
        return None

    def havoc_arg(self, st, a):
        if a.o.kind == 'global': 
            return
        if a.o.kind == 'stack' and a.off == 0: self.havoc(st, a.o); return
        if a.o.di is not None and isinstance(a.off, int):
            path, t = self.leaf(a.o, a.off)
            sz = self.mod.di_size(t) if t else 0
            s = self.mod.md.get(self.mod.di_strip(a.o.di)) or {}
            # pointer to a whole struct of the library's own: library functions get only leaf buffers
            if a.off == 0 and self.mod.di_members(a.o.di): 
                if path and sz: self.havoc_range(st, a.o, a.off, sz)
                return
            if sz: self.havoc_range(st, a.o, a.off, sz); return
        if a.o.kind == 'heap': self.havoc_range(st, a.o, a.off, 1 << 40)

    def do_alloc(self, st, ins, name, args):
        key = (tuple(self.stack), ins.fn.name, ins.block.name, ins.idx)
        base = 'heap:%s@%s/%x' % (name, ins.where, hash(key) & 0xffff)
        live = st.mon.get('_heap', frozenset())
        nm = base
        for k in range(2, self.heap_copies):
            if nm in live: nm = base + '#%d' % k
        di = self.alloc_di(ins)
        size = None
        if name in ('malloc', 'g_malloc', 'g_malloc0', 'CRYPTO_malloc', 'CRYPTO_zalloc'): size = args[0]
        elif name == 'calloc':
            size = self.binop(st, 'mul', 'i64', args[0], args[1], ()) if is_num(args[0]) and is_num(args[1]) else None
        elif name == 'realloc': size = args[1]
        o = mkobj(nm, 'heap', di=di, site=ins.where)
        outs = []
        if self.mon.alloc_fail:
            s2 = st.clone(); s2.note(ins.where, '%s() fails' % name)
            outs.append((0, s2))
        st.mem.pop(o, None); st.dflt.pop(o, None); st.ver.pop(o, None)
        if name in ('calloc', 'g_malloc0', 'CRYPTO_zalloc'): st.dflt[o] = 0
        st.mon['_heap'] = live | {nm}
        st.mon.setdefault('_size', {})
        st.mon['_size'] = dict(st.mon['_size']); st.mon['_size'][o] = size
        if name == 'realloc':
            old = self.resolve(st, args[0])
            if isinstance(old, Ptr):
                self.mon.on_free(self, st, ins, old)
                if old.o.di is not None and o.di is None: o.di = old.o.di
        self.mon.on_alloc(self, st, ins, o)
        outs.insert(0, (Ptr(o, 0), st))
        return outs

    def alloc_di(self, ins):
        """type of an allocation: from the debug variable bound to the result or the field it is stored in"""
        fn = ins.fn
        for v in getattr(fn, 'dbgvars', {}).get(ins.res, []):
            t = (self.mod.md.get(v) or {}).get('type')
            if t:
                pt = self.mod.di_pointee(t)
                if pt and pt != 'void': return pt
        return None

    # ------------------------------------------------------------------ entry helpers
    def make_args(self, fname, st, over=None):
        fn = self.mod.funcs[fname]
        sub = self.mod.md.get(fn.dbg) or {}
        tys = []
        st_ty = self.mod.md.get(sub.get('type')) or {}
        lst = self.raw_list(st_ty.get('types'))
        tys = lst[1:] if lst else []
        names = self.param_names(fn)
        args = []
        sret = 0
        if len(fn.params) > len(tys): sret = len(fn.params) - len(tys)
        for k, (t, n) in enumerate(fn.params):
            nm = names.get(n, n)
            if over and nm in over:
                args.append(over[nm]); continue
            if k < sret:
                args.append(Ptr(mkobj('%s.sret' % fname, 'stack', di=lst[0] if lst else None), 0)); continue
            di = tys[k - sret] if k - sret < len(tys) else None
            if t == 'ptr':
                pt = self.mod.di_pointee(di) if di else None
                if pt == 'void': pt = None
                args.append(Ptr(mkobj(nm + ('' if True else fname), 'param' , di=pt), 0) if (nm, 'param') else None)
                o = args[-1].o
                if o.di != pt:
                    args[-1] = Ptr(mkobj('%s.%s' % (fname, nm), 'param', di=pt), 0)
            elif isinstance(t, str) and INT.match(t):
                lo, hi = self.range_of(di, int(t[1:]))
                args.append(lin(mksym(('arg', fname, nm), int(t[1:]), lo, hi, nm)))
            else: args.append(UNDEF)
        return args

    def raw_list(self, ref):
        import re
        raw = self.mod.raw_md.get(ref, '')
        if '{' not in raw: return []
        body = raw[raw.index('{') + 1:raw.rindex('}')]
        return [x.strip() if x.strip() != 'null' else None for x in body.split(',')] if body.strip() else []

    def param_names(self, fn):
        out = {}
        for res, vs in getattr(fn, 'dbgvars', {}).items():
            for v in vs:
                m = self.mod.md.get(v)
                if m and m.get('arg') and any(res == n for _, n in fn.params): out[res] = m.get('name')
        return out

    def run(self, fname, over=None, st=None):
        st = st or State()
        self.stack = [fname]
        args = self.make_args(fname, st, over)
        return self.run_function(fname, [(st, args)])


def _join_field(self, k, a, b):
    if k == '_heap': return (a or frozenset()) | (b or frozenset())
    if k == '_size':
        a = a or {}; b = b or {}
        return {o: a.get(o, b.get(o)) for o in list(a) + list(b) if o not in a or o not in b or a[o] == b[o]}
    return a if b is None else b if a is None else a
Monitor.join_field = _join_field
Monitor.may_fail = lambda self, name: True
