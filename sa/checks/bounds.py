"""C01: parsing never reads or writes outside the memory it has been given.  The parsers of NAL Units and TLV data are analysed
on data of unknown content and unknown size; every access to memory whose size is known (the data, memory allocated on the
way, arrays, tables) has to be proved to lie within it."""
from core import *
from absint import _symlist
from nulls import public_functions
import os, re

RULES = ('out-of-bounds', 'span-exceeds-data', 'unterminated-string', 'no-decoder', 'stale-size')

# pointer members of the library's structs and the member that holds the size of what they point at
SIZED = {'key': 'key_size', 'signature': 'max_signature_size', 'attestation': 'attestation_size', 'encoded_oid': 'encoded_oid_size',
         'arbitrary_data': 'arbitrary_data_size'}
# library functions that access memory: (argument, size argument, writes)
ACCESS = {'EVP_DigestUpdate': [(1, 2, 0)], 'BIO_new_mem_buf': [(0, 1, 0)], 'EVP_PKEY_verify': [(1, 2, 0), (3, 4, 0)], 'EVP_DigestVerify': [(1, 2, 0), (3, 4, 0)],
          'OBJ_obj2txt': [(0, 1, 1)], 'EVP_PKEY_get_group_name': [(1, 2, 1)], 'memchr': [(0, 2, 0)], 'strnlen': [(0, 1, 0)], 'fwrite': [(0, 2, 0)],
          'EVP_Digest': [(0, 1, 0)], 'SHA256': [(0, 1, 0)], 'snprintf': [(0, 1, 1)], '__snprintf_chk': [(0, 1, 1)], 'strncmp': [(0, 2, 0), (1, 2, 0)], 'HMAC': [(3, 4, 0)], 'CRYPTO_memcmp': [(0, 2, 0), (1, 2, 0)]}
# further members that hold a size of the same memory
ALSO = {'signature': 'signature_size'}
D2I = re.compile(r'd2i_')
MAXTAG = 65535          # decoders of tags are given at most what a length of two bytes announces; checked where they are called
GHOST = mkobj('ghost of sizes', 'ghost')

_hj = {}
def joined(*terms):
    """a value that stands for several paths at once: that a bound of it is not proved may be due to the analysis"""
    def key(k):
        if isinstance(k, tuple):
            if k and isinstance(k[0], str) and k[0] in ('J', 'hard'): return True
            return any(key(x) for x in k)
        if isinstance(k, Lin): return joined(k)
        return isinstance(k, str) and re.search(r'\bJ', k) is not None
    for t in terms:
        if isinstance(t, Lin):
            for n, _ in t.t:
                if n not in _hj:
                    _hj[n] = False
                    y = _symlist[n]
                    _hj[n] = bool(y.label and re.search(r'\bJ', y.label)) or key(y.key)
                if _hj[n]: return True
    return False

def le(st, a, b):
    d = ladd(a, b, -1)
    return d <= 0 if isinstance(d, int) else prove_le0(st, d)

class Bounds(Monitor):
    alloc_fail = False
    def __init__(self, P, spans=(), handles=None):
        self.lenient = False; self.thorough = True; self.open = set()
        self.P = P; self.spans = set(spans); self.handles = handles or {}; self.idx = {}; self.sites = {}; self.root_ext = {}; self.root = None; self.gsize = {}
    # ---------------------------------------------------------------- ghosts: sizes and termination, kept as memory so that joins treat them as values
    def slot(self, o): return self.idx.setdefault(o, len(self.idx)) * 16
    def keep(self, st): return (GHOST,)
    def gput(self, st, k, v): st.mem[GHOST] = dict(st.mem.get(GHOST, {})); st.mem[GHOST][k] = (v, 8)
    def gget(self, I, st, k):
        c = st.mem.get(GHOST, {}).get(k)
        return I.resolve(st, c[0]) if c else None
    def extent(self, I, st, o, create=False):
        x = self.root_ext.get(o)
        if x is not None: return x
        x = self.gget(I, st, self.slot(o))
        if is_num(x): return x
        if o.kind == 'global':
            if o not in self.gsize:
                g = self.P.m.globals.get(o.name)
                try: self.gsize[o] = self.P.m.sizeof(g['type']) if g and g.get('type') else None
                except Exception: self.gsize[o] = None
            return self.gsize[o] or None
        if o.kind == 'stack' and o.irty is not None:
            try: return self.P.m.sizeof(o.irty) or None
            except Exception: return None
        if create and o.kind == 'lazy' and self.is_char(o):
            s = lin(mksym(('cap', o.name), 64, 1, 1 << 40, 'capacity of ' + o.name))
            self.gput(st, self.slot(o), s)
            return s
        return None
    def is_char(self, o):
        t = self.P.m.md.get(self.P.m.di_strip(o.di)) if o.di else None
        return bool(t) and t.get('_') == 'DIBasicType' and t.get('name') == 'char'
    # ---------------------------------------------------------------- a NAL Unit being parsed: its flags are not mixed up, and the order of its members is kept
    result = None           # (object, {member: (offset, size)})
    def key(self, st):
        # what has been allocated is not mixed up with what was there before
        if self.result is None:
            if not self.lenient: return ()
            k = []
            for o, c in st.mem.items():
                if o.di is None or o.kind == 'ghost': continue
                for at, (v, w) in c.items():
                    if w == 8 and isinstance(v, Ptr) and isinstance(at, int) and sized_member(self.P.m, o.di, at) is not None: k.append((o.name, at, v.o.kind))
            return tuple(sorted(k))
        o, off = self.result
        c = st.mem.get(o)
        if not c: return ()
        k = []
        for n in FLAGS:
            if n in off:
                v = c.get(off[n][0])
                if v is not None and isinstance(v[0], int): k.append((n, v[0]))
        return tuple(k)
    def terms(self, I, st):
        o, off = self.result; c = st.mem.get(o) or {}; out = {}
        def g(n):
            v = c.get(off[n][0]) if n in off else None
            return I.resolve(st, v[0]) if v else None
        for pf, sf in NALU_SPANS + (('payload', None),):
            p = g(pf)
            if not isinstance(p, Ptr) or p.o not in self.root_ext: continue
            out[pf] = p.off
            z = g(sf) if sf else None
            if is_num(z): out[pf, sf] = ladd(p.off, z)
        return out
    def after_join(self, I, st, sa, sb, widen):
        if not self.thorough: return
        if self.result is None or self.result[0] not in st.mem: return
        ta, tb, t = self.terms(I, sa), self.terms(I, sb), self.terms(I, st)
        ks = [k for k in t if k in ta and k in tb]
        if len(ks) < 2: return
        (D, N), = self.root_ext.items()
        for x in (ta, tb, t): x['end'] = N
        ks.append('end')
        cs = [0] if widen else sorted({abs(r.c) for r in sa.rel if abs(r.c) <= 64} | {0, 1, 2}, reverse=True)
        for i in ks:
            for j in ks:
                if i == j: continue
                r = ladd(t[i], t[j], -1)
                if isinstance(r, int): continue
                da, db = ladd(ta[i], ta[j], -1), ladd(tb[i], tb[j], -1)
                if not (le(sa, da, 0) and le(sb, db, 0)): continue
                for c in cs:
                    if c == 0 or (le(sa, da, -c) and le(sb, db, -c)):
                        q = ladd(r, c)
                        if not prove_le0(st, q): st.rel = st.rel | {q}
                        break
    # ---------------------------------------------------------------- the rule
    def check(self, I, st, ins, p, n, write, what):
        if not isinstance(p, Ptr): return
        p = I.resolve(st, p)
        if not isinstance(p, Ptr): return
        o, off = p.o, p.off
        if isinstance(n, int) and n == 0: return
        if not is_num(n): return
        if is_num(n) and not isinstance(n, int) and iv(st, n)[1] <= 0 and iv(st, n)[0] == 0: return
        ext = self.extent(I, st, o)
        lo = 0
        if ext is None:
            if o.di is None or o.kind == 'ghost': return
            if isinstance(off, int) and isinstance(n, int): return
            a = None
            if isinstance(off, Lin):
                l, h = iv(st, off)
                a = I.array_extent(o, l if 0 <= l < 1 << 30 else off.c)
            else: a = I.array_extent(o, off)
            if a is None: return
            lo, ext = a
        elif o.di is not None and o.kind in ('heap', 'stack') and not (isinstance(off, int) and isinstance(n, int)):
            a = I.array_extent(o, off if isinstance(off, int) else max(0, min(iv(st, off)[0], 1 << 30)))
            if a is not None and isinstance(ext, int): lo, ext = a
        self.sites.setdefault((ins.fn.name, ins.block.name, ins.idx, what), True)
        if os.environ.get('SV_TRACE'): print('acc', ins.where, what, p, n, 'of', ext)
        ok = le(st, lo, off) and le(st, ladd(off, n), ext)
        if not ok and is_num(n) and not isinstance(n, int) and iv(st, n)[0] <= 0:
            # nothing is accessed if the size is zero: the bounds only have to hold otherwise
            s2 = st.clone()
            if not assume_le0(s2, ladd(1, n, -1)): ok = True
            else: ok = le(s2, lo, off) and le(s2, ladd(off, n), ext)
        if not ok:
            self.sites[(ins.fn.name, ins.block.name, ins.idx, what)] = False
            nm = I.fieldname(p)[1] or self.name(o)
            if (self.lenient or what == 'strcpy') and joined(off, n, ext): return self.open.add('%s: %s of %s' % (ins.where, what, nm))
            if os.environ.get('SV_DEBUG'):
                print('BAD', ins.where, what, p, 'n', n, 'ext', ext, iv(st, off) if is_num(off) else '', iv(st, n), iv(st, ext), [r for r in st.rel if any(m in dict((off if isinstance(off, Lin) else lin0).t) for m, _ in r.t)][:6] if isinstance(off, Lin) else '')
            I.report('out-of-bounds', ins, '%s of %s is not proved to stay within it' % ({'load': 'a read', 'store': 'a write'}.get(what, what), nm), st)
    def name(self, o):
        n = o.name
        return 'the data' if o in self.root_ext else 'the table ' + n if o.kind == 'global' else 'allocated memory' if o.kind == 'heap' else n.split('/')[0]
    def on_load(self, I, st, ins, p, size): self.check(I, st, ins, p, size, False, 'load')
    def on_store(self, I, st, ins, p, size, val):
        self.check(I, st, ins, p, size, True, 'store')
        self.wrote(I, st, p, size)
    def on_mem(self, I, st, ins, p, n, write, what):
        self.check(I, st, ins, p, n, write, what)
        if write: self.wrote(I, st, p, n)
    def wrote(self, I, st, p, n):
        """the last byte of zeroed memory terminates a string as long as nothing is written to it"""
        p = I.resolve(st, p)
        if not isinstance(p, Ptr) or self.gget(I, st, self.slot(p.o) + 8) is None: return
        ext = self.extent(I, st, p.o)
        if ext is None or not is_num(n) or not le(st, ladd(ladd(p.off, n), 1), ext): self.gput(st, self.slot(p.o) + 8, 0)
    def on_alloc(self, I, st, ins, o):
        size = st.mon.get('_size', {}).get(o)
        if is_num(size): self.gput(st, self.slot(o), I.view(st, 'i64', size, False))
        else:
            c = dict(st.mem.get(GHOST, {})); c.pop(self.slot(o), None); st.mem[GHOST] = c
        self.gput(st, self.slot(o) + 8, 1 if st.dflt.get(o) == 0 and not isinstance(st.dflt.get(o), tuple) else 0)
    # ---------------------------------------------------------------- strings
    def terminated(self, I, st, p):
        """largest proved string length, or None: (length bound, exact)"""
        o = p.o
        c = I.cstr(p)
        if c is not None: return len(c)
        ext = self.extent(I, st, o, True)
        if ext is None:
            a = I.array_extent(o, p.off) if isinstance(p.off, int) else None
            if a: return ladd(a[1] - 1, p.off, -1)          # members of structs that hold strings are kept terminated by whoever writes them
            return True
        if o.kind == 'lazy' and o not in self.root_ext:
            return ladd(ladd(ext, -1), p.off, -1)
        if self.gget(I, st, self.slot(o) + 8) == 1: return ladd(ladd(ext, -1), p.off, -1)
        best = None
        for q, (v, s) in st.mem.get(o, {}).items():
            v = I.resolve(st, v)
            if s == 1 and is_num(v) and iv(st, v) == (0, 0) and le(st, p.off, q) and le(st, ladd(q, 1), ext): best = ladd(q, p.off, -1)
        if best is None and self.gget(I, st, self.slot(o) + 8) == 2: return ladd(ladd(ext, -1), p.off, -1)
        return best
    def strlen(self, I, st, ins, p, what):
        t = self.terminated(I, st, p)
        self.sites.setdefault((ins.fn.name, ins.block.name, ins.idx, what), True)
        if t is None:
            self.sites[(ins.fn.name, ins.block.name, ins.idx, what)] = False
            if p.o not in self.root_ext: self.open.add('%s: %s of %s' % (ins.where, what, self.name(p.o)))
            else: I.report('unterminated-string', ins, '%s reads a string in %s that is not proved to end within it' % (what, self.name(p.o)), st)
        if isinstance(t, int) and t is not True and I.cstr(p) is not None: return t
        s = mksym(('strlen', p.o.name, p.off, st.ver.get(p.o, 0)), 64, 0, 1 << 40, 'strlen(%s)' % p.o.name)
        r = lin(s)
        if is_num(t) and t is not True:
            if p.o.kind == 'lazy' and p.off == 0 and st.ver.get(p.o, 0) == 0 and p.o not in self.root_ext: return t
            st2 = assume_le0(st, ladd(r, t, -1))
        return r
    def string_call(self, I, st, ins, name, args):
        k = {'strlen': (0,), 'strcmp': (0, 1), 'strcpy': (0, 1), 'strstr': (0, 1), 'strchr': (0,), 'strncmp': (), 'strdup': (0,), 'atoi': (0,)}.get(name)
        cur = [(st, [])]
        for i in k:
            nxt = []
            for s, ps in cur:
                for s2, p in I.deref(s, ins, args[i], '%s arg %d' % (name, i)): nxt.append((s2, ps + [p]))
            cur = nxt
        out = []
        for s, ps in cur:
            if name == 'strlen':
                out.append((self.strlen(I, s, ins, ps[0], name), s))
            elif name == 'strcpy':
                n = self.strlen(I, s, ins, ps[1], name)
                if self.extent(I, s, ps[0].o, True) is not None or I.array_extent(ps[0].o, ps[0].off if isinstance(ps[0].off, int) else ps[0].off.c): self.check(I, s, ins, ps[0], ladd(n, 1), True, 'strcpy')
                I.havoc_range(s, ps[0].o, ps[0].off, 1 << 40)
                self.gput(s, self.slot(ps[0].o) + 8, 2)
                out.append((ps[0], s))
            else:
                for p in ps: self.strlen(I, s, ins, p, name)
                r = I.ext_ret(s, ins, name, args)
                if name == 'strcmp':
                    a, b = I.cstr(ps[0]), I.cstr(ps[1])
                    if a is not None and b is not None: r = (a > b) - (a < b)
                out.append((r, s))
        return out
    # ---------------------------------------------------------------- calls
    def on_call(self, I, st, ins, name, args):
        m = self.P.m
        if name in self.spans and len(I.stack) >= 1 and name != self.root:
            for k, n in span_params(self.P, name)[:1]:
                self.sites.setdefault((ins.fn.name, ins.block.name, ins.idx, 'span'), True)
                for s, p in I.split(st, args[k]):
                    p = I.resolve(s, p)
                    if not isinstance(p, Ptr): continue
                    ext = self.extent(I, s, p.o)
                    if ext is None: continue
                    if not (le(s, 0, p.off) and is_num(args[n]) and le(s, ladd(p.off, args[n]), ext) and le(s, args[n], MAXTAG)):
                        if os.environ.get('SV_DEBUG'): print('SPAN', ins.where, p, args[n], ext)
                        self.sites[(ins.fn.name, ins.block.name, ins.idx, 'span')] = False
                        I.report('span-exceeds-data', ins, '%s() is given data that is not proved to lie within the data parsed' % m.funcs[name].src, s)
            return I.summary_call(st, ins, name, args)
        if name in m.funcs: return None
        if name in ('strlen', 'strcmp', 'strcpy', 'strstr', 'strchr', 'atoi'): return self.string_call(I, st, ins, name, args)
        if name in ACCESS or D2I.match(name):
            acc = ACCESS.get(name)
            if acc is None:
                acc = []
                if len(args) >= 3:
                    # d2i functions read through a pointer to the pointer
                    for s, pp in I.deref(st, ins, args[1], name + ' arg 1')[:1]:
                        q = I.load(s, pp, 'ptr')
                        for s2, p in I.split(s, q): self.check(I, s2, ins, I.resolve(s2, p), args[2], False, name)
            for a, n, w in acc:
                if a < len(args) and n < len(args) and not isinstance(args[a], int):
                    for s, p in I.split(st, args[a]):
                        p = I.resolve(s, p)
                        # strings may end before
                        if name == 'strncmp' and (not isinstance(p, Ptr) or p.o not in self.root_ext): continue
                        self.check(I, s, ins, p, args[n], bool(w), name)
                        # the functions that write here write strings, cut to what fits
                        if w and isinstance(p, Ptr): self.gput(st, self.slot(p.o) + 8, 2)
            return None
        if re.match(r'EVP_MD_(get_)?size$', name):
            # -1 without a digest, at most EVP_MAX_MD_SIZE with one
            out = []
            for s, p in I.split(st, args[0]):
                p = I.resolve(s, p)
                nn = True if p == 0 and isinstance(p, int) else I.nullness(s, p) if isinstance(p, Ptr) else None
                r = I.ext_ret(s, ins, name, args)
                s.iv[one_sym(r)[0].n] = (-1, -1) if nn is True else (0, 64) if nn is False else (-1, 64)
                out.append((r, s))
            return out
        return None
    def on_lazy_ptr(self, I, st, obj, off, newobj):
        path, t = I.leaf(obj, off) if isinstance(off, int) else (None, None)
        if path in ('vendor_handle', 'crypto_handle') and newobj.di in (None, 'null', 'void'): newobj.di = self.handles.get(path)
        x = self.sized(I, obj, off)
        if x is not None:
            so, w = x
            v = st.mem.get(obj, {}).get(so)
            v = I.resolve(st, v[0]) if v else None
            # the size at the start: later changes of the size do not change the memory
            if st.ver.get(obj, 0) == 0 and not is_num(v): v = I.load(st, Ptr(obj, so), 'i%d' % (8 * w))
            k = ('size of', obj.name, so)
            if is_num(v): self.gput(st, self.slot(newobj), v)
        elif path == 'hash' and I.fieldname(Ptr(obj, off))[0] in ('_sign_or_verify_data', '_sign_or_verify_data_t', 'sign_or_verify_data_t'): self.gput(st, self.slot(newobj), 64)
        return None
    def sized(self, I, obj, off):
        """(offset, width) of the member that holds the size of the memory the pointer member at off points at"""
        if obj.di is None or not isinstance(off, int): return None
        return sized_member(self.P.m, obj.di, off)

_SM = {}
def also_member(m, di, off): return sized_member(m, di, off, names=ALSO)

def initial(P, o, y):
    I = SInterp(P, Monitor()); s = State()
    return I.view(s, 'i%d' % (8 * y[1]), I.load(s, Ptr(o, y[0]), 'i%d' % (8 * y[1])), False)

def sized_member(m, di, off, base=0, names=SIZED):
    k = (id(m), m.di_strip(di), off, id(names))
    if k in _SM: return _SM[k] and (_SM[k][0] + base, _SM[k][1])
    r = None
    ms = m.di_members(m.di_strip(di)) or []
    for o, n, t, sz in ms:
        if o <= off < o + max(sz, 1):
            mm = m.md.get(m.di_strip(t)) or {}
            if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type':
                x = sized_member(m, t, off - o, 0, names)
                r = x and (x[0] + o, x[1])
            elif o == off and n in names:
                for o2, n2, t2, sz2 in ms:
                    if n2 == names[n]: r = (o2, sz2)
            break
    _SM[k] = r
    return r and (r[0] + base, r[1])

def span_params(P, name):
    """(pointer argument, size argument) of bytes and their number"""
    m = P.m; f = m.funcs[name]
    key = '_span'
    c = P.__dict__.setdefault(key, {})
    if name in c: return c[name]
    sub = m.md.get(f.dbg) or {}
    I = SInterp(P, Monitor())
    l = I.raw_list((m.md.get(sub.get('type')) or {}).get('types')); tys = l[1:]
    sret = len(f.params) - len(tys)
    out = []
    for k in range(len(tys) - 1):
        if f.params[k + sret][0] != 'ptr' or f.params[k + sret + 1][0] != 'i64': continue
        pt = m.di_pointee(tys[k]) if tys[k] else None
        t = m.md.get(m.di_strip(pt)) or {} if pt and pt != 'void' else {}
        if t.get('name') == 'unsigned char': out.append((k + sret, k + sret + 1))
    c[name] = out
    return out

def external_linkage(m, f): return 'LocalToUnit' not in str((m.md.get(f.dbg) or {}).get('spFlags'))

def sret_di(P, name):
    m = P.m; f = m.funcs[name]
    I = SInterp(P, Monitor())
    l = I.raw_list((m.md.get((m.md.get(f.dbg) or {}).get('type')) or {}).get('types'))
    return l[0] if l and len(f.params) > len(l) - 1 else None

def decoders(P):
    """functions of the decoder tables: those that take bytes and their number"""
    tf = set().union(*P.table_fns.values()) if P.table_fns else set()
    return {f for f in tf if span_params(P, f)}

def find_roots(P):
    m = P.m; pub = set(public_functions(P)); dec = decoders(P)
    parsers, walkers, finders = [], [], []
    for n, f in m.funcs.items():
        if not span_params(P, n) or n in dec or n in pub: continue
        d = sret_di(P, n)
        if d and {'hashable_data', 'hashable_data_size'} <= {x for _, x, _, _ in m.di_members(m.di_strip(d))}: parsers.append(n); continue
        if any(c in dec for c in P.callees.get(n, ())) : walkers.append(n); continue
        if f.ret == 'ptr' and external_linkage(m, f) and 'plugin' not in f.file: finders.append(n)
    return parsers, walkers, finders, sorted(dec)

def handle_types(P):
    m = P.m; out = {}
    for k, mm in m.md.items():
        if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type' and mm.get('elements'):
            ns = {n for _, n, _, _ in m.di_members(k)}
            if {'attestation', 'certificate_chain'} <= ns: out['vendor_handle'] = k
            if {'primary_ctx', 'hash_algo'} <= ns: out['crypto_handle'] = k
    return out

NALU_SPANS = (('hashable_data', 'hashable_data_size'), ('tlv_data', 'tlv_size'), ('tlv_start_in_nalu_data', 'tlv_size'), ('nalu_data', 'nalu_data_size'))

FLAGS = ('is_gop_sei', 'is_hashable', 'is_valid', 'uuid_type', 'with_epb')

def analyse(P, root, kind, spans, R, cfg, thorough=False):
    m = P.m; f = m.funcs[root]
    mon = Bounds(P, spans, handle_types(P)); mon.root = root; mon.lenient = kind in ('parser', 'decoder'); mon.thorough = thorough
    I = SInterp(P, mon, maxinline=8, cap=48, steps=6000000)
    I.cpu_limit = time.process_time() + 240; I.joinoff = True; I.joineq = True; I.settle = True; I.fork_tables = 24; I.relview = True; I.rates = (255,) if kind != 'parser' or thorough else (); I.localpath = 14; I.unroll_const = 8
    st = State()
    k, n = span_params(P, root)[0]
    I.stack = [root]
    args = I.make_args(root, st)
    D = args[k].o; N = args[n]
    mon.root_ext = {D: N}
    st.iv[one_sym(N)[0].n] = (0, MAXTAG if kind == 'decoder' else 1 << 40)
    for a, (t, nm) in zip(args, f.params):
        if isinstance(a, Ptr): st.null[a.o] = False
    if kind == 'parser': mon.result = (args[0].o, {nm: (o, sz) for o, nm, t, sz in m.di_members(m.di_strip(sret_di(P, root)))})
    try: outs = I.run_function(root, [(st, args)])
    except Budget as e: return ('undecided', root, str(e), mon, I)
    if kind == 'parser':
        off = {nm: (o, sz) for o, nm, t, sz in m.di_members(m.di_strip(sret_di(P, root)))}
        S = args[0].o
        ins = [i for i in f.instrs() if i.op == 'ret'][-1]
        for ret, s in outs:
            for pf, sf in NALU_SPANS:
                if pf not in off or sf not in off: continue
                v = I.load(s, Ptr(S, off[pf][0]), 'ptr'); sz = I.load(s, Ptr(S, off[sf][0]), 'i64')
                for s2, p in I.split(s, v):
                    p = I.resolve(s2, p)
                    if not isinstance(p, Ptr) or I.nullness(s2, p) is True: continue
                    x = mon.extent(I, s2, p.o)
                    mon.sites.setdefault((root, pf, 0, 'result'), True)
                    if x is None: continue
                    if not (le(s2, 0, p.off) and is_num(sz) and le(s2, ladd(p.off, sz), x)):
                        if os.environ.get('SV_DEBUG'): print('RESULT', pf, p, sz, x, iv(s2, sz) if is_num(sz) else '')
                        mon.sites[(root, pf, 0, 'result')] = False
                        if joined(p.off, sz, x): mon.open.add('%s: %s of the parsed NAL Unit' % (root, pf)); continue
                        I.report('span-exceeds-data', ins, '%s and %s of the parsed NAL Unit are not proved to lie within the memory they point at' % (pf, sf), s2)
    # the size members still describe the memory
    for ret, s in outs:
        for o, cells in list(s.mem.items()):
            if o.di is None or o.kind == 'ghost': continue
            for at, (v, w) in list(cells.items()):
                if not isinstance(at, int) or w != 8: continue
                x = sized_member(m, o.di, at)
                if x is None: continue
                for s2, p in I.split(s, v):
                    p = I.resolve(s2, p)
                    if not isinstance(p, Ptr) or I.nullness(s2, p) is True: continue
                    e = mon.extent(I, s2, p.o)
                    if e is None: continue
                    sz = I.load(s2, Ptr(o, x[0]), 'i%d' % (8 * x[1]))
                    mon.sites.setdefault((root, at, o.name, 'size member'), True)
                    fld = I.fieldname(Ptr(o, at))
                    y = also_member(m, o.di, at)
                    if y is not None and y[0] in s2.mem.get(o, {}):
                        z = I.resolve(s2, s2.mem[o][y[0]][0])
                        z = I.view(s2, 'i%d' % (8 * y[1]), z, False) if is_num(z) else z
                        mon.sites.setdefault((root, at, o.name, 'size member 2'), True)
                        if is_num(z) and z != initial(P, o, y) and not le(s2, z, e):
                            I.report('stale-size', [i for i in f.instrs() if i.op == 'ret'][-1], 'afterwards %s can be larger than the memory %s points at' % (ALSO.get((fld[1] or '').split('.')[-1], 'the size'), fld[1]), s2)
                    if not (is_num(sz) and le(s2, sz, e)):
                        if os.environ.get('SV_DEBUG'): print('STALE', o.name, at, p, sz, e)
                        ins = [i for i in f.instrs() if i.op == 'ret'][-1]
                        I.report('stale-size', ins, 'afterwards %s can be larger than the memory %s points at' % (SIZED.get((fld[1] or '').split('.')[-1], 'the size'), fld[1]), s2)
    return ('ok', root, '', mon, I)

def run_bounds(R):
    tier = R.tier
    R.rules = list(RULES)
    cfgs = ['default', 'novendors'] if tier == 'thorough' else ['default']
    for cfg in cfgs:
        P = Prog(build(cfg))
        parsers, walkers, finders, dec = find_roots(P)
        jobs = [(r, 'parser') for r in parsers] + [(r, 'walker') for r in walkers] + [(r, 'finder') for r in finders] + [(r, 'decoder') for r in dec]
        def job(j):
            t, root, why, mon, I = analyse(P, j[0], j[1], dec, R, cfg, tier == 'thorough')
            reps = [(r.rule, r.where, r.fn, r.msg, r.path) for r in I.reports.values()]
            return t, root, why, reps, list(mon.sites.items()), sorted({s[0] for s in mon.sites}), sorted(mon.open)
        for j, (t, root, why, reps, sites, fns, summ) in zip(jobs, pmap(job, jobs)):
            R.functions.add(root); R.functions |= {P.m.funcs[x].src for x in fns if x in P.m.funcs}
            if t == 'undecided': R.notes.append('%s: not decided within the budget (%s)' % (root, why)); R.count('entry points not decided'); continue
            R.count('%s analysed' % {'parser': 'NAL Unit parsers', 'walker': 'TLV walkers', 'finder': 'tag finders', 'decoder': 'tag decoders'}[j[1]])
            for k, ok in sites: R.count('memory accesses with a known bound' if k[3] not in ('span', 'result', 'size member', 'size member 2') else {'span': 'data handed over', 'result': 'members of parsed NAL Units', 'size member': 'size members'}[k[3].replace(' 2', '')])
            for r in reps: R.add(*r, config=cfg)
            for o in summ: R.notes.append('%s: not decided (the value stands for several paths): %s' % (root, o)); R.count('accesses not decided')
        if cfg == 'default':
            R.need('NAL Unit parsers analysed', 1); R.need('TLV walkers analysed', 1); R.need('tag decoders analysed', 6); R.need('memory accesses with a known bound', 50)
