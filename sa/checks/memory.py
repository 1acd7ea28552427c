"""B04: memory is released exactly once, not used afterwards and not lost."""
from core import *
import os, re, absint

RULES = ('use-after-release', 'double-release', 'lost-memory', 'overwritten-member', 'member-not-released', 'never-released', 'dangling-member')
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'g_malloc', 'g_malloc0', 'g_strdup', 'CRYPTO_malloc', 'CRYPTO_zalloc', 'CRYPTO_strdup'}
FREE = {'free', 'CRYPTO_free', 'g_free'}
XNEW = re.compile(r'^(BIO_new|BIO_new_mem_buf|BIO_new_file|EVP_MD_CTX_new|EVP_PKEY_CTX_new(_id|_from_name)?|EVP_PKEY_new|X509_STORE_new|X509_STORE_CTX_new|X509_new|PEM_read_bio_\w+|PEM_read_\w+|X509_get_pubkey|OPENSSL_sk_new_null|EVP_MD_fetch|BN_new|d2i_\w+|OBJ_txt2obj)$')
XFREE = re.compile(r'^(BIO_free|BIO_free_all|EVP_MD_CTX_free|EVP_PKEY_CTX_free|EVP_PKEY_free|X509_STORE_free|X509_STORE_CTX_free|X509_free|OPENSSL_sk_free|OPENSSL_sk_pop_free|EVP_MD_free|BN_free|ASN1_OBJECT_free)$')
OUTNEW = {'ASN1_STRING_to_UTF8': 0, 'i2d_ASN1_OBJECT': 1, 'i2d_PUBKEY': 1, 'i2d_X509': 1}
TAKES = re.compile(r'push|assign|set0|add0|set_bio|thread|insert|append|queue|hash_table')

class Mem(Monitor):
    alloc_fail = True
    def __init__(self, P, root): self.P = P; self.root = root; self.sites = set(); self.arrays = set(); self.lost = {}; self.kept = set(); self.seen_own = set(); self.where = {}
    def may_fail(self, name): return XNEW.match(name) is not None
    def key(self, st): return (st.mon.get('freed', frozenset()), st.mon.get('own', frozenset()))
    def join_field(self, k, a, b):
        if k in ('given', 'maybe'): return (a or frozenset()) | (b or frozenset())
        if k in ('freed', 'own', 'ow'): return (a or frozenset()) & (b or frozenset())
        return Monitor.join_field(self, k, a, b) if hasattr(Monitor, 'join_field') else a
    def own(self, st): return st.mon.get('own', frozenset())
    def freed(self, st): return st.mon.get('freed', frozenset())
    # ------------------------------------------------------------------------------------------
    def on_alloc(self, I, st, ins, o):
        self.seen_own.add(o)
        st.mon['own'] = self.own(st) | {o}; st.mon['freed'] = self.freed(st) - {o}
        self.sites.add(('alloc', ins.fn.name, ins.block.name, ins.idx))
    def on_free(self, I, st, ins, p):
        self.sites.add(('release', ins.fn.name, ins.block.name, ins.idx))
        if not isinstance(p, Ptr) or p.off != 0: return
        if not self.single(p.o) or getattr(p.o, 'parent', None) and p.o.parent[0] in self.arrays: return
        if p.o in self.freed(st): I.report('double-release', ins, '%s is released a second time' % nm(p.o), st)
        st.mon['freed'] = self.freed(st) | {p.o}; st.mon['own'] = self.own(st) - {p.o}; self.clear(st, {p.o})
    def given(self, st): return st.mon.get('given', frozenset())
    def single(self, o):
        """stands for one object: not for an element of an array, an item of a list or what several paths left"""
        c = self.__dict__.setdefault('_single', {})
        if o in c: return c[o]
        r = not (o.name.startswith(('J', '?', 'stk:')) and o.kind != 'heap' or re.search(r'[\[{]|\bJ', o.name))
        q, ds = o, set()
        while r and q is not None:
            if q.di is not None and q.kind != 'heap':
                d = self.P.m.di_strip(q.di)
                if d in ds: r = False
                ds.add(d)
            pa = getattr(q, 'parent', None)
            if pa is not None and not isinstance(pa[1], int): r = False
            q = pa[0] if pa else None
        c[o] = r
        return r
    def used(self, I, st, ins, p):
        if isinstance(p, Ptr) and p.o in self.freed(st): I.report('use-after-release', ins, '%s is used after it has been released' % nm(p.o), st)
    def on_load(self, I, st, ins, p, size):
        self.used(I, st, ins, p)
        if isinstance(p, Ptr) and p.o.di is not None and p.o not in self.arrays and (not isinstance(p.off, int) or p.off >= (self.P.m.di_size(p.o.di) or 1 << 40)): self.arrays.add(p.o)
    def clear(self, st, os):
        if st.mon.get('ow'): st.mon['ow'] = frozenset(w for w in st.mon['ow'] if w[0] not in os)
    def overwritten(self, I, st, ins, p, val):
        """a member that the library releases elsewhere gets new memory: the old must have been released or kept"""
        if not (p.o.kind in ('lazy', 'param') and p.o.di is not None and self.single(p.o) and isinstance(val, Ptr) and val.o.kind in ('heap', 'lazy') and val.o in self.seen_own): return
        k = (sname(self.P, p.o.di), p.off)
        if k not in self.P._owned or k[0] in on_stack(self.P) or k in st.mon.get('maybe', ()): return
        self.sites.add(('member', ins.fn.name, ins.block.name, ins.idx))
        old = I.resolve(st, I.load(st, Ptr(p.o, p.off), 'ptr'))
        if not isinstance(old, Ptr) or old.o is val.o or old.o in self.freed(st) or I.nullness(st, old) is True or old.o.kind != 'lazy' or not self.single(old.o): return
        if old.o in self.given(st): return
        if any(isinstance(v, Ptr) and v.o is old.o for q, c in st.mem.items() if q is not p.o for v, _ in c.values()): return
        w = (old.o, ins.fn.name, ins.block.name, ins.idx, I.fieldname(Ptr(p.o, p.off))[1])
        self.where[w] = ins
        st.mon['ow'] = st.mon.get('ow', frozenset()) | {w}
    def on_store(self, I, st, ins, p, size, val):
        self.used(I, st, ins, p)
        if isinstance(p, Ptr) and isinstance(p.off, int) and size == 8: self.overwritten(I, st, ins, p, I.resolve(st, val))
        if isinstance(val, Ptr) and self.own(st) and isinstance(p, Ptr) and (not isinstance(p.off, int) or p.o.kind in ('lazy', 'param', 'global') and not p.o.name.startswith('ret:') or p.o.kind == 'heap' and p.o not in self.own(st)):
            e = self.refs(I, st, [val]); st.mon['own'] = frozenset(o for o in self.own(st) if o not in e)
    def on_mem(self, I, st, ins, p, n, write, what): self.used(I, st, ins, p)
    def refs(self, I, st, roots):
        """objects reachable from values"""
        seen = set(); work = []; fr = self.freed(st)
        def push(v):
            v = I.resolve(st, v)
            if isinstance(v, Ptr):
                for a in st.alts.get(v.o, (v,)):
                    a = I.resolve(st, a)
                    if isinstance(a, Ptr) and a.o not in seen: seen.add(a.o); work.append(a.o)
                if v.o not in seen: seen.add(v.o); work.append(v.o)
        for v in roots: push(v)
        while work:
            o = work.pop()
            if o in fr: continue
            for at, (v, s) in st.mem.get(o, {}).items(): push(v)
        return seen
    def outer(self, I, st):
        out = []
        fr = self.freed(st)
        for o, c in st.mem.items():
            if o.kind in ('lazy', 'param', 'global') and o not in fr:
                for at, (v, s) in c.items(): out.append(v)
        return out
    def escape(self, I, st, args):
        st.mon['given'] = self.given(st) | frozenset(a.o for a in map(lambda x: I.resolve(st, x), args) if isinstance(a, Ptr))
        self.clear(st, self.given(st))
        if not self.own(st): return
        e = self.refs(I, st, list(args) + self.outer(I, st))
        st.mon['own'] = frozenset(o for o in self.own(st) if o not in e)
    def on_call(self, I, st, ins, name, args):
        if name in self.P.m.funcs:
            d = len(I.stack) // 2
            if d >= I.maxinline or not I.inline(name, d):
                self.escape(I, st, args)
                x = may_release(self.P, name)
                if x: st.mon['maybe'] = st.mon.get('maybe', frozenset()) | x
            return None
        if name is None: self.escape(I, st, args); return None
        if name in ALLOC or name in FREE: return None
        if XFREE.match(name):
            for s, p in I.split(st, args[0]):
                p = I.resolve(s, p)
                if isinstance(p, Ptr) and I.nullness(s, p) is not True: self.on_free(I, s, ins, p)
            return None
        if TAKES.search(name): self.escape(I, st, args)
        return None
    def returned(self, I, st, ins, name, ret, stored=False):
        """a call of a function that is not followed returned something else than before"""
        if isinstance(ret, Ptr) and ret.o.kind == 'lazy':
            st.mon['freed'] = self.freed(st) - {ret.o}
            if name and XNEW.match(name) and not (name.startswith(('d2i_', 'PEM_')) and stored) and I.nullness(st, ret) is not True: self.on_alloc(I, st, ins, ret.o)
    def dangling(self, I, st, ins):
        """what has been released is no longer reachable for later calls"""
        fr = self.freed(st)
        for o in fr:
            for q, c in st.mem.items():
                if q.kind not in ('lazy', 'param', 'global') or q in fr or q.di is None or not self.single(q) or self.gone(q, fr): continue
                for at, (v, s) in c.items():
                    v = I.resolve(st, v)
                    if isinstance(at, int) and isinstance(v, Ptr) and v.o is o and v.off == 0: I.report('dangling-member', ins, '%s still refers to memory that has been released when the operation ends' % I.fieldname(Ptr(q, at))[1], st)
    def gone(self, q, fr):
        while q is not None:
            if q in fr: return True
            pa = getattr(q, 'parent', None); q = pa[0] if pa else None
        return False
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root or len(I.stack) > 2: return
        if self.root in self.P._pub: self.dangling(I, st, [i for i in fn.instrs() if i.op == 'ret'][-1])
        own = self.own(st)
        live = self.refs(I, st, [ret] + self.outer(I, st))
        ins = [i for i in fn.instrs() if i.op == 'ret'][-1]
        for w in sorted(st.mon.get('ow', ()), key=str):
            if w[0] not in live: I.report('overwritten-member', self.where[w], '%s is overwritten and the memory it referred to is never released' % w[4], st)
        for o in own:
            if o not in live and (o.kind == 'heap' or I.nullness(st, Ptr(o, 0)) is not True):
                s2 = st.clone()
                if failure(self.P, I, st, fn, ret): I.report('lost-memory', ins, '%s is neither released nor kept anywhere when %s() fails' % (nm(o), fn.src), s2)
                else: self.lost.setdefault(o, []).append((ins, s2))
        self.kept |= {o for o in live if o.kind == 'heap' or o.name.startswith('ret:')} | self.freed(st) | (self.seen_own - own)

class MInterp(SInterp):
    def external(self, st, ins, name, args):
        out = super().external(st, ins, name, args)
        k = OUTNEW.get(name)
        if k is not None and k < len(args):
            # new memory is handed over through a pointer to a pointer
            res = []
            for r, s in out:
                p = self.resolve(s, args[k])
                if not isinstance(p, Ptr) or p.o.kind != 'stack' or not is_num(r): res.append((r, s)); continue
                s2 = s.clone()
                if isinstance(r, int) or assume_le0(s2, r): self.store(s2, p, 0, 8); res.append((r, s2))
                if isinstance(r, int) or assume_le0(s, ladd(1, r, -1)):
                    o = mkobj('ret:%s@%s:%s.%d:out' % (name, ins.fn.name, ins.block.name, ins.idx), 'lazy')
                    s.null[o] = False; s.mon['freed'] = self.mon.freed(s) - {o}
                    self.store(s, p, Ptr(o, 0), 8); self.mon.on_alloc(self, s, ins, o); res.append((r, s))
            out = res
        if name not in ALLOC and name not in FREE:
            # with somewhere to store it in, the same pointer is in both places
            k = 1 if name.startswith('PEM_') else 0
            for r, s in out: self.mon.returned(self, s, ins, name, r, len(args) > k and args[k] != 0)
        return out
    def summary_call(self, st, ins, name, args):
        out = super().summary_call(st, ins, name, args)
        for r, s in out: self.mon.returned(self, s, ins, name, r)
        return out
    # what is forgotten is not lost
    def forget(self, st, obj, f):
        own = self.mon.own(st); a = list(st.mem.get(obj, {}).values()) if own else ()
        f()
        if a:
            b = list(st.mem.get(obj, {}).values())
            gone = self.mon.refs(self, st, [v for v, _ in a if isinstance(v, Ptr) and all(w is not v for w, _ in b)])
            if gone: st.mon['own'] = frozenset(o for o in own if o not in gone)
    def havoc(self, st, obj): self.forget(st, obj, lambda: super(MInterp, self).havoc(st, obj))
    def havoc_range(self, st, obj, off, size):
        if isinstance(off, int) and isinstance(size, int) and size <= 8: return super().havoc_range(st, obj, off, size)
        self.forget(st, obj, lambda: super(MInterp, self).havoc_range(st, obj, off, size))

def failure(P, I, st, fn, ret):
    """the function reports a failure: a null pointer, false or a status that is not SV_OK"""
    if ret is None: return False
    ret = I.resolve(st, ret)
    if fn.ret == 'ptr': return isinstance(ret, int) and ret == 0 or isinstance(ret, Ptr) and I.nullness(st, ret) is True
    if is_num(ret):
        lo, hi = iv(st, ret)
        return hi < 0 or (lo > 0 and fn.ret != 'i1' and False) 
    return False

def nm(o):
    m = re.match(r'(?:heap|ret):(\w+)@([^/]*/)*([\w.:-]+?)(/[0-9a-f]+)?$', o.name)
    if o.kind == 'heap' or o.name.startswith('ret:'): return 'memory from %s' % o.name.split(':', 1)[1].split('/')[0].split('@')[0] + (' (%s)' % o.site if getattr(o, 'site', None) else '')
    return o.name

def norm(s): return re.sub(r'_(t|st)$', '', str(s or '').lstrip('_'))

class Who(Monitor):
    """what each function releases: parameters, what lies behind them, and members of structs"""
    def __init__(self, P, S): self.P = P; self.S = S; self.args = []; self.local = set()
    def on_enter(self, I, st, fn, args):
        if len(I.stack) <= 2 and not self.args: self.args = [a.o if isinstance(a, Ptr) else None for a in args]; self.fn = fn.name
    def see(self, I, st, p, off=None):
        """what p points to is released; with an offset, what the pointer stored there points to"""
        if not isinstance(p, Ptr): return
        if off is not None: self.member(I, p.o, ladd(p.off, off)); return
        if p.off != 0: return
        f = self.S[self.fn]
        if p.o in self.args: f['par'].add((self.args.index(p.o), None))
        if p.o.di is not None and p.o.kind != 'heap': f['types'].add(sname(self.P, p.o.di))
        pa = getattr(p.o, 'parent', None)
        if pa: self.member(I, pa[0], pa[1])
        # an element of a local array: any of the members copied to it
        if pa and pa[0].kind == 'stack' or p.o.name.startswith('J'):
            for o, off in self.local: self.member(I, o, off)
    def member(self, I, o, off):
        f = self.S[self.fn]
        x = inner(self.P, o, off)
        if x: f['imem'].add(x)
        if not isinstance(off, int): return
        if o in self.args: f['par'].add((self.args.index(o), off))
        if o.di is not None:
            n = sname(self.P, o.di)
            if n: f['mem'].add((n, off))
    def on_free(self, I, st, ins, p): self.see(I, st, p)
    def on_call(self, I, st, ins, name, args):
        if name and XFREE.match(name):
            for s, p in I.split(st, args[0]): self.see(I, s, I.resolve(s, p))
        for k, off in self.S[name]['par'] if name in self.S else ():
            if k < len(args):
                for s, p in I.split(st, args[k]): self.see(I, s, I.resolve(s, p), off)
        return None
    def on_store(self, I, st, ins, p, size, val):
        """a member is given memory"""
        val = I.resolve(st, val)
        if isinstance(p, Ptr) and p.o.kind == 'stack' and isinstance(val, Ptr) and val.off == 0 and getattr(val.o, 'parent', None): self.local.add(val.o.parent)
        if isinstance(val, Ptr) and val.off == 0 and (val.o.kind == 'heap' or val.o.name.startswith('ret:') and XNEW.match(val.o.name[4:].split('@')[0].split('/')[0])) and isinstance(p, Ptr) and p.o.di is not None:
            n = sname(self.P, p.o.di); x = inner(self.P, p.o, p.off)
            if n and isinstance(p.off, int): self.S[self.fn]['given'].add((n, p.off))
            if x: self.S[self.fn]['group'].setdefault(val.o.name, set()).add(x)

def inner(P, o, off):
    """(struct, offset) of the innermost struct a member lies in; the index of an array does not matter"""
    m = P.m
    if o.di is None: return None
    k = m.di_strip(o.di); mm = m.md.get(k) or {}
    c, ks = (off, 0) if isinstance(off, int) else (off.c, [x for _, x in off.t])
    if not isinstance(off, int) and m.di_size(k) and all(x % m.di_size(k) == 0 for x in ks): c %= m.di_size(k); ks = 0
    best = None
    for _ in range(8):
        if mm.get('_') != 'DICompositeType': break
        if mm.get('tag') == 'DW_TAG_array_type':
            k = m.di_strip(mm.get('baseType')); es = m.di_size(k)
            if not es or ks and any(x % es for x in ks): return None
            c %= es; ks = 0; mm = m.md.get(k) or {}; continue
        nm_ = sname(P, k)
        if nm_ and not ks: best = (nm_, c)
        for at, n, t, sz in m.di_members(k) or ():
            if t and at <= c < at + sz: k = m.di_strip(t); mm = m.md.get(k) or {}; c -= at; break
        else: break
    return best

def sname(P, di):
    """name of a struct, of its typedef where it has none itself"""
    k = P.m.di_strip(di); mm = P.m.md.get(k) or {}
    if mm.get('_') != 'DICompositeType': return ''
    if mm.get('name'): return norm(mm.get('name'))
    c = P.__dict__.get('_tdn')
    if c is None: c = P._tdn = {P.m.di_strip(v.get('baseType')): v.get('name') for v in P.m.md.values() if v.get('tag') == 'DW_TAG_typedef' and v.get('baseType')}
    return norm(c.get(k))

def on_stack(P):
    """structs of which there are local variables"""
    c = P.__dict__.get('_ost')
    if c is None: c = P._ost = {sname(P, v['type']) for v in P.m.md.values() if v.get('_') == 'DILocalVariable' and v.get('type') and (P.m.md.get(P.m.di_strip(v['type'])) or {}).get('_') == 'DICompositeType'}
    return c

def may_release(P, f):
    c = P.__dict__.setdefault('_mrl', {})
    if f not in c:
        S = releases(P); c[f] = frozenset().union(*(S[g]['mem'] for g in P.reach(f) | {f} if g in S))
    return c[f]

def typed(P, I, f):
    """parameters of type void * that the function reads as a pointer to a struct"""
    m = P.m; fn = m.funcs[f]; out = {}; names = I.param_names(fn)
    for t, n in fn.params:
        vs = [m.di_pointee((m.md.get(v) or {}).get('type')) for v in getattr(fn, 'dbgvars', {}).get(n, []) if (m.md.get(v) or {}).get('type')]
        cs = {m.di_strip(p): p for p in vs if p and p not in ('void', 'null') and (m.md.get(m.di_strip(p)) or {}).get('_') == 'DICompositeType'}
        if t == 'ptr' and any(p in (None, 'void', 'null') for p in vs) and len(cs) == 1: out[names.get(n, n)] = Ptr(mkobj('%s.%s:t' % (f, names.get(n, n)), 'param', di=list(cs.values())[0]), 0)
    return out

def releases(P):
    S = P.__dict__.get('_rl')
    if S is not None: return S
    S = P._rl = {f: {'par': set(), 'types': set(), 'mem': set(), 'given': set(), 'group': {}, 'imem': set()} for f in P.m.funcs}
    lib = FREE | ALLOC
    todo = [f for f in P.m.funcs if P.reach(f) & lib or any(XFREE.match(c) or XNEW.match(c) for c in P.reach(f))]
    for k in range(5):
        n = sum(len(v) for s in S.values() for v in s.values())
        for f in todo:
            mon = Who(P, S); I = SInterp(P, mon, maxinline=0, cap=4, steps=60000)
            try: I.run(f, typed(P, I, f))
            except Budget: pass
        if sum(len(v) for s in S.values() for v in s.values()) == n: break
    return S

def nins(P, n): return sum(1 for _ in P.m.funcs[n].instrs())

def list_types(P):
    """structs that hold a pointer to their own kind, and those that hold a pointer to such"""
    m = P.m; c = P.__dict__.get('_lt')
    if c is not None: return c
    names = {}
    for k, mm in m.md.items():
        if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type' and mm.get('elements'): names[k] = mm
    def ptrs(k):
        out = set()
        for o, n, t, sz in m.di_members(k) or ():
            pt = m.di_pointee(t) if t else None
            if pt and pt != 'void': out.add(m.di_strip(pt))
        return out
    pt = {k: ptrs(k) for k in names}
    items = {k for k in names if k in pt[k]}
    c = P._lt = items | {k for k in names if pt[k] & items and len(m.di_members(k)) <= 6}
    return c

def on_lists(P, n):
    m = P.m; f = m.funcs[n]; lt = list_types(P)
    I = SInterp(P, Monitor())
    l = I.raw_list((m.md.get((m.md.get(f.dbg) or {}).get('type')) or {}).get('types'))
    for t in l:
        pt = m.di_pointee(t) if t else None
        if pt and pt != 'void' and m.di_strip(pt) in lt: return True
    return False

def roots(P):
    lib = ALLOC | FREE
    return sorted(f for f in P.m.funcs if not on_lists(P, f) and (P.reach(f) & lib or any(XNEW.match(c) or XFREE.match(c) for c in P.reach(f))))

def work(P, f):
    for ml, cap, t in ((3, 16, 14), (1, 8, 8)):
        r = work1(P, f, ml, cap, t)
        if not r[4]: return r
    return r

def work1(P, f, ml, cap, t, size=110):
    mon = Mem(P, f)
    rs = P._mr
    I = MInterp(P, mon, maxinline=ml, cap=cap, steps=1500000)
    tf = set().union(*P.table_fns.values()) if P.table_fns else set()
    I.inline = lambda n, d: n not in tf and not on_lists(P, n) and ((n in rs and nins(P, n) <= size) or P.small(n))
    I.cpu_limit = time.process_time() + t
    try: I.run(f, typed(P, I, f))
    except Budget as e: return f, [], mon.sites, I.covered, str(e)
    for o, l in mon.lost.items():
        if o not in mon.kept:
            ins, st = l[0]
            I.report('lost-memory', ins, '%s is neither released nor kept anywhere' % nm(o), st)
    return f, list(I.reports.values()), mon.sites, I.covered, None

def link(P, n, off):
    """a pointer to a struct of the same kind, as in a list"""
    m = P.m; c = P.__dict__.get('_lnk')
    if c is None:
        c = P._lnk = set()
        for k, mm in m.md.items():
            if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type' and mm.get('elements'):
                for o, nme, t, sz in m.di_members(k) or ():
                    pt = m.di_pointee(t) if t else None
                    if pt and m.di_strip(pt) == k: c.add((sname(P, k), o))
    return (n, off) in c

def members(P):
    """structs that the library releases: every member that it gives memory to or releases elsewhere is released too"""
    S = releases(P); m = P.m
    owned = {}
    for f, s in S.items():
        for n, off in s['mem'] | s['given']:
            if not link(P, n, off): owned.setdefault(n, {}).setdefault(off, set()).add(f)
    out = []; sites = set()
    fns = {n: [f for f, s in S.items() if n in s['types']] for n in owned}
    for n, ms in owned.items():
        if n in on_stack(P): continue
        for f in fns[n]:
            down = set().union(*(S[g]['mem'] for g in P.reach(f) | {f} if g in S))
            for off, who in sorted(ms.items()):
                sites.add((n, off, f))
                if (n, off) not in down: out.append((f, n, off, who))
    # memory that is kept in a member is released somewhere; structs of the public headers belong to the application
    rel = {x for s in S.values() for x in s['imem']}; pub = public_structs()
    for f, s in S.items():
        for g in s['group'].values():
            sites.add(('kept', f, tuple(sorted(g))))
            if not g & rel and not any(n in pub for n, off in g):
                n, off = sorted(g)[0]; out.append((f, n, off, None))
    return out, sites

def public_structs():
    import glob
    return {norm(x) for p in glob.glob(REPO + '/lib/src/includes/*.h') for x in re.findall(r'struct\s+(\w+)', open(p, errors='replace').read())} | {norm(x) for p in glob.glob(REPO + '/lib/src/includes/*.h') for x in re.findall(r'}\s*(\w+)\s*;', open(p, errors='replace').read())}

def prepare(P):
    import nulls
    P._pub = set(nulls.public_functions(P)); P._mr = set(roots(P))
    P._owned = {x for s in releases(P).values() for x in s['mem']}
    return sorted(P._mr)

def run_memory(R):
    und = set(); ns = na = 0
    for cfg in ('default', 'threaded') + (('novendors', 'debugprints') if R.tier == 'thorough' else ()):
        absint._objs.clear()      # the objects of another configuration have other types
        P = Prog(build(cfg)); rs = prepare(P)
        if cfg == 'threaded': rs = [f for f in rs if '/plugins/' in str(P.m.funcs[f].file) or f in P._pub and f.startswith('sv_')]
        sites = set()
        for f, reps, s, cov, err in pmap(lambda f: work(P, f), rs):
            sites |= s; R.functions |= {P.m.funcs[x].src for x in cov if x in P.m.funcs}
            if err: und.add('%s (%s)' % (P.m.funcs[f].src, cfg))
            for r in reps: R.add(r.rule, r.where, r.fn, r.msg, r.path, config=cfg)
        out, ms = members(P)
        for f, n, off, who in out:
            g = P.m.funcs[f]; name = member_name(P, n, off)
            if who is None:
                R.add('never-released', fwhere(g), g.src, 'the library never releases the memory that %s() keeps in the %s of a %s' % (g.src, name, n), ['%s() keeps new memory in the %s of a %s' % (g.src, name, n)], config=cfg); continue
            R.add('member-not-released', fwhere(g), g.src, 'the %s of a %s is released nowhere in the release of the latter, while %s() gives it memory or releases it' % (name, n, sorted(who)[0]), ['%s() releases a %s' % (g.src, n)], config=cfg)
        R.count('calls that allocate memory (%s)' % cfg, len({x for x in sites if x[0] == 'alloc'}))
        R.count('calls that release memory (%s)' % cfg, len({x for x in sites if x[0] == 'release'}))
        R.count('stores of new memory in owned members (%s)' % cfg, len({x for x in sites if x[0] == 'member'}))
        R.count('owned members of structs released (%s)' % cfg, len(ms))
        t = cfg == 'threaded'; R.need('calls that release memory (%s)' % cfg, 5 if t else 20); R.need('calls that allocate memory (%s)' % cfg, 3 if t else 10); R.need('owned members of structs released (%s)' % cfg, 20)
    R.rules = list(RULES)
    if und: R.notes.append('not decided within the time allowed: ' + ', '.join(sorted(und)))

def fwhere(g):
    for i in g.instrs():
        if i.dbg: return i.where
    return g.src

def member_name(P, n, off):
    m = P.m
    for k, mm in m.md.items():
        if mm.get('_') == 'DICompositeType' and mm.get('elements') and sname(P, k) == n:
            for o, nme, t, sz in m.di_members(k) or ():
                if o <= off < o + sz: return nme
    return 'member at %d' % off

if __name__ == '__main__':
    P = Prog(build(sys.argv[1] if len(sys.argv) > 1 else 'default')); rs = prepare(P)
    print(len(rs))
    t0 = time.time()
    seen = set()
    for f, reps, sites, cov, err in pmap(lambda f: work(P, f), rs):
        if err: print('ERR', f, err)
        for r in reps:
            k = (r.rule, r.where, r.msg)
            if k in seen: continue
            seen.add(k); print(f, '|', r.rule, r.where, r.msg)
    print('%.1f' % (time.time() - t0))
    for x in members(P)[0]: print(x)
