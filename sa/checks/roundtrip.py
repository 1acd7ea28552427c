"""C03: what the library writes into a SEI is what it reads back.  The layout written by the encoder of every tag is computed
by abstract interpretation (sequence of constants, bytes of numbers and ranges of memory); the decoder is then analysed on
data of exactly that layout, and every value it ends up with is compared with the value it was written from."""
from core import *
from nulls import public_functions
import os, re

RULES = ('direct-write', 'emulation-prevention', 'size-differs', 'not-contiguous', 'lost-value', 'reads-elsewhere', 'rejects-own-data', 'length-truncated', 'byte-codec')

# ---------------------------------------------------------------------------------------------- bytes of a term
def atoms(st, v, n):
    """the n lowest bytes of a number, each a constant, ('b', number, k) or None"""
    if isinstance(v, int): return [(v >> (8 * k)) & 255 for k in range(n)]
    if not isinstance(v, Lin): return [None] * n
    s, k0 = one_sym(v) if v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1 else (None, 0)
    if s is not None:
        k = s.key
        if k[0] == 'op':
            op, w, a, b = k[1:]
            wb = max(1, w // 8)
            if op in ('lshr', 'ashr') and isinstance(b, int) and b % 8 == 0:
                x = atoms(st, a, wb)[b // 8:]
                return (x + [0 if op == 'lshr' else None] * n)[:n] if op == 'lshr' else (x + [None] * n)[:n]
            if op == 'and' and isinstance(b, int):
                x = atoms(st, a, n); out = []
                for i in range(n):
                    m = (b >> (8 * i)) & 255
                    out.append(0 if m == 0 else x[i] if m == 255 else (x[i] & m) if isinstance(x[i], int) else None)
                if None not in out: return out
            if op == 'trunc' and isinstance(b, int):
                x = atoms(st, a, b // 8)
                return (x + [0 if b < 32 or s.lo >= 0 else None] * n)[:n]
            if op == 'shl' and isinstance(b, int) and b % 8 == 0:
                return ([0] * (b // 8) + atoms(st, a, max(0, wb - b // 8)) + [0] * n)[:n]
            if op in ('or', 'add'):
                x = atoms(st, a, wb) if is_num(a) else [None]; y = atoms(st, b, wb) if is_num(b) else [None]
                r = merge(x, y)
                if r is not None: return (r + [0] * n)[:n]
        if k[0] == 'view' and not k[2]:
            return (atoms(st, k[3], max(1, k[1] // 8)) + [0] * n)[:n]
        lo, hi = iv(st, v)
        return [('b', v, i) if (lo < 0 or hi >= 1 << (8 * i)) and i < max(1, s.w // 8) else 0 if lo >= 0 else None for i in range(n)]
    if v.c == 0 or (v.c > 0 and all(k > 1 for _, k in v.t)):
        r = atoms(st, v.c, n)
        for m, k in v.t:
            j = 0
            while k > 1 and k % 256 == 0: k //= 256; j += 1
            if k != 1: r = None; break
            r = merge(r, ([0] * j + atoms(st, Lin(0, ((m, 1),)), n - j))[:n])
            if r is None: break
        if r is not None and not any(isinstance(x, tuple) and x[1] == v for x in r): return r
    lo, hi = iv(st, v)
    if lo < 0: return [('b', v, i) for i in range(n)]
    return [('b', v, i) if hi >= 1 << (8 * i) else 0 for i in range(n)]

def merge(x, y):
    out = []
    for i in range(max(len(x), len(y))):
        a = x[i] if i < len(x) else 0; b = y[i] if i < len(y) else 0
        if a == 0 and isinstance(a, int): out.append(b)
        elif b == 0 and isinstance(b, int): out.append(a)
        else: return None
    return out

def recombine(st, r, ty):
    w = int(ty[1:]) // 8 if isinstance(ty, str) and re.match(r'i\d+$', ty) else 8
    if w < 2: return r
    a = atoms(st, r, w)
    f = a[0]
    if not (isinstance(f, tuple) and f[2] == 0): return r
    X = f[1]
    if X == r: return r
    n = 0
    while n < w and a[n] == ('b', X, n): n += 1
    if any(x != 0 or not isinstance(x, int) for x in a[n:]): return r
    lo, hi = iv(st, X)
    if n == w or (lo >= 0 and hi < 1 << (8 * n)): return X
    return r

def same_bytes(st, a, b, n):
    if a == b: return True
    x, y = atoms(st, a, n), atoms(st, b, n)
    return None not in x and x == y

def eq(st, a, b):
    if a == b: return True
    if not (is_num(a) and is_num(b)): return False
    return prove_le0(st, ladd(a, b, -1)) and prove_le0(st, ladd(b, a, -1))

def le(st, a, b): return is_num(a) and is_num(b) and prove_le0(st, ladd(a, b, -1))

GHOST = mkobj('ghost of the layout', 'ghost')
DATA = mkobj('written data', 'ghostdata')

class Layout(Monitor):
    """pieces: tuple of ('fill', value) | ('byte',) | ('seg', object); numbers of piece i in cells i*4.. (length, start or value)"""
    alloc_fail = False
    def __init__(self, P, writer, rx=None, sites=None): self.P = P; self.writer = writer; self.sites = sites if sites is not None else set(); self.rx = rx; self.decoding = False; self.prov = {}; self.epb = None; self.strings = set()
    def key(self, st):
        g = st.mon
        return (g.get('pieces', ()), g.get('copies', ()), g.get('bad'))
    def join_field(self, k, a, b):
        if k in ('pieces', 'copies'): return a if a == b else None
        return Monitor.join_field(self, k, a, b)
    def keep(self, st): return (GHOST,)
    def gput(self, st, k, v): st.mem[GHOST] = dict(st.mem.get(GHOST, {})); st.mem[GHOST][k] = (v, 8)
    def gget(self, I, st, k):
        c = st.mem.get(GHOST, {}).get(k)
        return I.resolve(st, c[0]) if c else None
    # ---------------------------------------------------------------- writing
    def emit(self, I, st, ins, off, v):
        ps = st.mon.get('pieces', ())
        if ps is None: return
        end = self.pieces(I, st)[1]
        if not eq(st, off, end): I.report('not-contiguous', ins, 'a byte is not written right after the previous one', st)
        self.sites.add(('write', ins.fn.name, ins.where))
        v = I.resolve(st, v)
        if isinstance(v, Lin):
            lo, hi = iv(st, v)
            if lo == hi: v = lo
        i = len(ps) - 1
        last = ps[i] if ps else None
        n = self.gget(I, st, i * 32) if ps else None
        if isinstance(v, int):
            v &= 255
            if last == ('fill', v): self.gput(st, i * 32, ladd(n, 1)); return
            self.push(st, ps + (('fill', v),), 1, 0); return
        src = self.source(st, v)
        if src:
            o, so = src
            if last == ('seg', o) and eq(st, so, ladd(self.gget(I, st, i * 32 + 8), n)): self.gput(st, i * 32, ladd(n, 1)); return
            self.push(st, ps + (('seg', o),), 1, so); return
        self.push(st, ps + (('byte',),), 1, v)
    def push(self, st, ps, n, x):
        i = len(ps) - 1
        if i > 60: st.mon['pieces'] = None; st.mon['bad'] = True; return
        st.mon['pieces'] = ps; self.gput(st, i * 32, n); self.gput(st, i * 32 + 8, x)
    def source(self, st, v):
        """the memory a byte has been loaded from"""
        a = atoms(st, v, 1)[0]
        if isinstance(a, tuple) and isinstance(a[1], Lin) and len(a[1].t) == 1 and a[1].c == 0 and a[2] == 0: return self.prov.get(a[1].t[0][0])
        return None
    def loaded(self, I, st, ins, p, v):
        if p.o is DATA and self.decoding:
            r = self.read(I, st, p.off)
            self.sites.add(('read', ins.fn.name, ins.where))
            if r is not None: return [(st, r)]
            I.report('reads-elsewhere', ins, '%s: reads data[%r], which is not known to be one of the %r bytes written' % (self.tag, p.off, self.pieces(I, st)[1]), st)
            return []
        if p.o in self.strings and ins.ty == 'i8' and eq(st, p.off, self.strsym(p.o, 0)): return [(st, 0)]
        x = one_sym(v) if isinstance(v, Lin) else None
        if x and ins.ty == 'i8' and p.o.kind != 'stack' and v.c == 0 and x[0].key[0] == 'mem': self.prov[x[0].n] = (p.o, p.off)
        return [(st, v)]
    def on_store(self, I, st, ins, p, size, val):
        if p.o is DATA:
            I.report('direct-write', ins, 'a byte is written without emulation prevention', st)
            self.emit(I, st, ins, p.off, val); return
        if self.decoding and size == 1 and isinstance(val, Lin) and p.o.kind != 'stack':
            src = self.source(st, val)
            if src: self.copied(I, st, p, src[0], src[1], 1)
    # ---------------------------------------------------------------- reading back
    def pieces(self, I, st):
        out = []; at = 0
        for i, k in enumerate(st.mon.get('pieces') or ()):
            n = self.gget(I, st, i * 32); x = self.gget(I, st, i * 32 + 8)
            out.append((k, at, n, x)); at = ladd(at, n)
        return out, at
    def read(self, I, st, off):
        for k, at, n, x in self.pieces(I, st)[0]:
            if le(st, at, off) and le(st, ladd(off, 1), ladd(at, n)):
                if k[0] == 'fill': return k[1]
                if k[0] == 'byte': return x
                so = ladd(x, ladd(off, at, -1))
                v = I.load(st, Ptr(k[1], so), 'i8')
                s = one_sym(v) if isinstance(v, Lin) else None
                if s: self.prov[s[0].n] = (k[1], so)
                return v
        return None
    def parts(self, I, st, off, n):
        """the sources of data[off..off+n): list of (kind, source offset, length), or None"""
        out = []; cur = off; end = ladd(off, n)
        for k, at, m, x in self.pieces(I, st)[0]:
            if not out and not (le(st, at, cur) and le(st, ladd(cur, 1), ladd(at, m))): continue
            stop = ladd(at, m)
            last = le(st, end, stop)
            t = ladd(end if last else stop, cur, -1)
            out.append((k, ladd(x, ladd(cur, at, -1)) if k[0] == 'seg' else x, t))
            cur = ladd(cur, t)
            if last: return out
        return None
    def copied(self, I, st, p, so, soff, n):
        cs = st.mon.get('copies', ()) or ()
        for i, (d, s) in enumerate(cs):
            if d is p.o and s is so:
                b = -1000 - i * 32
                ds, ss, ln = (self.gget(I, st, b - 8 * j) for j in (0, 1, 2))
                if eq(st, p.off, ladd(ds, ln)) and eq(st, soff, ladd(ss, ln)): self.gput(st, b - 16, ladd(ln, n)); return
                if eq(st, p.off, ds) and eq(st, soff, ss) and le(st, ln, n): self.gput(st, b - 16, n); return
        if len(cs) > 12: return
        b = -1000 - len(cs) * 32
        st.mon['copies'] = cs + ((p.o, so),)
        for j, v in enumerate((p.off, soff, n)): self.gput(st, b - 8 * j, v)
    def content(self, I, st, o):
        out = []
        for i, (d, s) in enumerate(st.mon.get('copies', ()) or ()):
            if d is o: out.append((s,) + tuple(self.gget(I, st, -1000 - i * 32 - 8 * j) for j in (0, 1, 2)))
        return out
    def from_data(self, I, st, p, off, n):
        ps = self.parts(I, st, off, n)
        if not ps: return
        at = p.off
        for k, x, t in ps:
            if k[0] == 'seg': self.copied(I, st, Ptr(p.o, at), k[1], x, t)
            at = ladd(at, t)
    def on_copy(self, I, st, ins, p, q, n):
        if self.decoding and q.o is DATA and is_num(n):
            self.sites.add(('read', ins.fn.name, ins.where))
            self.from_data(I, st, p, q.off, n)
    def holds(self, I, st, p, off, n):
        """p[0..n) is known to equal data[off..off+n)"""
        ps = self.parts(I, st, off, n)
        if not ps: return False
        at = p.off; cont = self.content(I, st, p.o)
        for k, x, t in ps:
            if k[0] != 'seg': return False
            if not any(s is k[1] and le(st, ds, at) and le(st, ladd(at, t), ladd(ds, ln)) and eq(st, ladd(at, ds, -1), ladd(x, ss, -1)) for s, ds, ss, ln in cont): return False
            at = ladd(at, t)
        return True
    def slen(self, I, st, p):
        """length of a string"""
        if p.o is DATA and self.decoding:
            ps, tot = self.pieces(I, st)
            for i, (k, at, n, x) in enumerate(ps):
                if not (le(st, at, p.off) and le(st, ladd(p.off, 1), ladd(at, n))): continue
                if k == ('fill', 0): return 0
                if k[0] == 'seg' and eq(st, at, p.off) and eq(st, x, 0):
                    m = self.strsym(k[1], 0)
                    if le(st, n, m) and i + 1 < len(ps) and ps[i + 1][0] == ('fill', 0): return n
                    if le(st, ladd(m, 1), n): return m
                return None
            return None
        return self.strsym(p.o, p.off)
    def strsym(self, o, off): return lin(mksym(('strlen', o.name, off), 64, 0, 1 << 40, 'strlen(%s)' % o.name))
    def on_call(self, I, st, ins, name, args):
        if name == self.writer and not self.decoding:
            l2, pp, v, flag = [I.resolve(st, a) for a in args]
            if self.epb is not None and not same_flag(I, st, flag, self.epb): I.report('emulation-prevention', ins, 'a byte is written with another setting for emulation prevention than the one of the session', st)
            fl = I.fieldname(l2)[1] if isinstance(l2, Ptr) else None
            if isinstance(l2, Ptr) and not (fl or '').startswith('last_two_bytes'): I.report('emulation-prevention', ins, 'a byte is written without regard to the two bytes written before', st)
            outs = []
            for s, q in I.deref(st, ins, pp, name):
                d = I.resolve(s, I.load(s, q, 'ptr'))
                if isinstance(d, Ptr) and d.o is DATA:
                    self.emit(I, s, ins, d.off, v)
                    I.store(s, q, Ptr(d.o, ladd(d.off, 1)), 8)
                    outs.append((None, s))
                else: return None
            return outs
        if name in self.chain and not self.decoding:
            return [(lin(mksym(('c03', 'chain'), 64, 1, 60000, 'size of the certificates')), st)]
        if name == 'strlen':
            p = I.resolve(st, args[0])
            if isinstance(p, Ptr) and I.cstr(p) is None and p.o.kind != 'stack':
                r = []
                for s, q in I.deref(st, ins, p, name):
                    n = self.slen(I, s, q)
                    r.append((n if n is not None else I.ext_ret(s, ins, name, args), s))
                return r
        if name in ('strcpy', 'strncpy') and self.decoding:
            d, q = I.resolve(st, args[0]), I.resolve(st, args[1])
            if isinstance(q, Ptr) and q.o is DATA and isinstance(d, Ptr):
                n = self.slen(I, st, q)
                if n is not None and n != 0:
                    if name == 'strncpy' and not le(st, n, I.resolve(st, args[2])): return None
                    I.havoc_range(st, d.o, d.off, 1 << 40)
                    self.from_data(I, st, d, q.off, n); return [(d, st)]
        if name == 'strstr':
            p = I.resolve(st, args[0])
            if isinstance(p, Ptr):
                x = lin(mksym(('strstr', p.o.name, p.off), 64, 0, 1 << 30, 'strstr'))
                s2 = st.clone()
                return [(Ptr(p.o, ladd(p.off, x)), st), (0, s2)]
        if name in ('memcmp', 'bcmp', 'strncmp') and self.decoding:
            p, q = I.resolve(st, args[0]), I.resolve(st, args[1]); n = I.resolve(st, args[2])
            if isinstance(p, Ptr) and isinstance(q, Ptr) and (p.o is DATA) != (q.o is DATA):
                d, o = (p, q) if p.o is DATA else (q, p)
                if self.holds(I, st, o, d.off, n): return [(0, st)]
                s2 = st.clone(); self.from_data(I, s2, o, d.off, n)
                r = I.ext_ret(st, ins, name, args)
                if isinstance(r, Lin) and assume_ne(st, r) is not False: return [(0, s2), (r, st)]
                return [(0, s2)]
        return None

def same_flag(I, st, a, b):
    if a == b: return True
    if isinstance(a, Cond) and is_num(b): return a == Cond(('cmp', 'ne', b, 0)) or repr(a) == repr(Cond(('cmp', 'ne', b, 0)))
    if isinstance(a, Lin) and isinstance(b, Lin): return eq(st, a, b)
    return False

# ---------------------------------------------------------------------------------------------- what must survive
# (member the value is written from, member it is read into, kind, number of bytes or the member with the length)
SPEC = {
 'GENERAL_TAG': [('gop_info.global_gop_counter', 'gop_info.global_gop_counter', 'num', 4), ('gop_info.num_nalus_in_gop_hash', 'gop_info.num_sent_nalus', 'num', 2),
   ('code_version', 'code_version', 'version', 3), ('gop_info.has_timestamp', 'gop_info.has_timestamp', 'num', 1), ('gop_info.timestamp', 'gop_info.timestamp', 'ts', 8),
   ('gop_info.has_timestamp', 'latest_validation.has_timestamp', 'num', 1), ('gop_info.timestamp', 'latest_validation.timestamp', 'ts', 8),
   ('gop_info.linked_hashes', 'received_linked_hash', 'mem', 'sign_data.hash_size'), ('gop_info.computed_gop_hash', 'received_gop_hash', 'mem', 'sign_data.hash_size')],
 'PUBLIC_KEY_TAG': [('pem_public_key.key_size', 'pem_public_key.key_size', 'num', 8), ('pem_public_key.key', 'pem_public_key.key', 'buf', 'pem_public_key.key_size')],
 'PRODUCT_INFO_TAG': [('product_info.' + x, 'product_info.' + x, 'str', None) for x in ('hardware_id', 'firmware_version', 'serial_number', 'manufacturer', 'address')],
 'HASH_LIST_TAG': [('gop_info.list_idx', 'gop_info.list_idx', 'num', 4), ('gop_info.hash_list', 'gop_info.hash_list', 'mem', 'gop_info.list_idx')],
 'SIGNATURE_TAG': [('sign_data.signature_size', 'verify_data.signature_size', 'num', 8), ('sign_data.signature', 'verify_data.signature', 'buf', 'sign_data.signature_size'),
   ('gop_info.encoding_status', 'gop_info.encoding_status', 'num', 1), ('gop_info.signature_hash_type', 'gop_info.signature_hash_type', 'num', 4)],
 'ARBITRARY_DATA_TAG': [('arbitrary_data_size', 'arbitrary_data_size', 'num', 8), ('arbitrary_data', 'arbitrary_data', 'buf', 'arbitrary_data_size')],
 'CRYPTO_INFO_TAG': [('crypto_handle.hash_algo.encoded_oid_size', 'crypto_handle.hash_algo.encoded_oid_size', 'num', 8), ('crypto_handle.hash_algo.encoded_oid', 'crypto_handle.hash_algo.encoded_oid', 'buf', 'crypto_handle.hash_algo.encoded_oid_size')],
 'VENDOR_AXIS_COMMUNICATIONS_TAG': [('vendor_handle.attestation_size', 'vendor_handle.attestation_size', 'num', 1), ('vendor_handle.attestation', 'vendor_handle.attestation', 'buf', 'vendor_handle.attestation_size'),
   ('vendor_handle.certificate_chain', 'vendor_handle.certificate_chain', 'buf', 'rest')],
}
# what the rest of the library guarantees when a SEI is written: bounds of the member
BOUNDS = {'sign_data.hash_size': (1, 64), 'gop_info.list_idx': (1, 19200), 'sign_data.max_signature_size': (1, 4096), 'pem_public_key.key_size': (1, 65534), 'arbitrary_data_size': (1, 65534),
  'crypto_handle.hash_algo.encoded_oid_size': (1, 200), 'vendor_handle.attestation_size': (1, 255), 'sign_data.signature_size': (1, 4096), 'gop_info.signature_hash_type': (0, 1)}
NONNULL = ('pem_public_key.key', 'arbitrary_data', 'sign_data.signature', 'crypto_handle.hash_algo.encoded_oid', 'vendor_handle.attestation', 'vendor_handle.certificate_chain')

# failures of the cryptographic library and of the vendor's validation, which do not depend on the format of the data
EXTERNAL = ((-20, -20), (-21, -21), (-21, -20))

def tables(P):
    """[(tag value, tag name)] of the tables of encoders and decoders"""
    m = P.m; names = {}
    for k, mm in m.md.items():
        if mm.get('tag') == 'DW_TAG_enumeration_type':
            e = m.enumerators(k) if hasattr(m, 'enumerators') else {}
            if any(n in SPEC for n in e): names.update({v: n for n, v in e.items()})
    return names

class World:
    def __init__(self, P, I, base):
        self.P = P; self.I = I; self.m = P.m
        self.o = mkobj(base, 'param', di=P.distruct('_signed_video_t'))
    def at(self, st, path):
        """(place, DI type) of a member, following pointers"""
        m = self.m; o, off, di = self.o, 0, self.o.di
        parts = path.split('.')
        for i, x in enumerate(parts):
            mem = {n: (a, t, s) for a, n, t, s in (m.di_members(m.di_strip(di)) or ())}
            if x not in mem: raise AnalysisError('no member %s (%s)' % (x, path))
            a, t, s = mem[x]; off = off + a; di = t
            if i == len(parts) - 1: return Ptr(o, off), t, s
            if m.di_pointee(t) is not None:
                v = self.I.resolve(st, self.I.load(st, Ptr(o, off), 'ptr'))
                if not isinstance(v, Ptr): return None, None, 0
                o, off, di = v.o, v.off, v.o.di
                if di is None: return None, None, 0
    def get(self, st, path):
        p, t, s = self.at(st, path)
        if p is None: return None
        return self.I.resolve(st, self.I.load(st, p, 'ptr' if self.m.di_pointee(t) is not None else 'i%d' % (s * 8)))

def byte_writers(P):
    """functions that append one byte: (state of the last two bytes, position, byte, flag)"""
    m = P.m; out = []
    for f in m.funcs.values():
        t = [x for x, _ in f.params]
        if t == ['ptr', 'ptr', 'i8', 'i1']: out.append(f.name)
    return out
def byte_readers(P):
    return [f.name for f in P.m.funcs.values() if [x for x, _ in f.params] == ['ptr', 'ptr', 'i1'] and f.ret == 'i8']

def list_encoders(P):
    """the function that writes a list of tags: (session, tags, number, data) -> size, with an indirect call below"""
    m = P.m
    return [f.name for f in m.funcs.values() if [x for x, _ in f.params] == ['ptr', 'ptr', 'i64', 'ptr'] and f.ret == 'i64' and P.table_fns and any(g in P.reach(f.name) for g in byte_writers(P))]

def chain_sizes(P):
    """functions that compute how much of the certificate chain is written"""
    return [f.name for f in P.m.funcs.values() if [x for x, _ in f.params] == ['ptr'] and f.ret == 'i64' and 'strstr' in P.callees.get(f.name, ())]

def enum_names(P):
    m = P.m; out = {}
    for k, mm in m.md.items():
        if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_enumeration_type' and mm.get('elements'):
            raw = m.raw_md.get(mm['elements'], '')
            e = {}
            for x in re.findall(r'![0-9]+', raw):
                d = m.md.get(x) or {}
                if d.get('_') == 'DIEnumerator': e[str(d.get('name')).strip('"')] = int(str(d.get('value')))
            if any(n in SPEC for n in e): out.update({v: n for n, v in e.items()})
    return out

def table_tags(P):
    """tags with an encoder in the tables of the tag handlers"""
    m = P.m; tags = {}
    I = SInterp(P, Monitor())
    for g, fs in P.table_fns.items():
        if not any(x in P.reach(f) for f in fs for x in byte_writers(P)): continue
        o = I.const('ptr', ('glob', g)).o
        a = m.md.get(m.di_strip(o.di)) or {}
        et = a.get('baseType') if a.get('tag') == 'DW_TAG_array_type' else None
        if not et: continue
        mem = {n: (off, t, s) for off, n, t, s in m.di_members(m.di_strip(et))}
        if 'encoder' not in mem or 'tag' not in mem: continue
        es = m.di_size(m.di_strip(et)); n = m.di_size(m.di_strip(o.di)) // es
        for i in range(n):
            e = I.const_global(g, i * es + mem['encoder'][0], 'ptr'); t = I.const_global(g, i * es + mem['tag'][0], 'i32'); d = I.const_global(g, i * es + mem['decoder'][0], 'ptr')
            if isinstance(e, Fn): tags[t] = (e.name, d.name if isinstance(d, Fn) else None)
    return tags

class Enc(Layout):
    def on_lazy_ptr(self, I, st, obj, off, newobj):
        path, t = I.leaf(obj, off) if isinstance(off, int) else (None, None)
        if path in ('vendor_handle', 'crypto_handle') and newobj.di in (None, 'null', 'void'): newobj.di = self.handles.get(path)
        if path in ('attestation',): pass
        st.null.setdefault(newobj, None) if False else None
        return None

def handle_types(P):
    m = P.m; out = {}
    for k, mm in m.md.items():
        if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type' and mm.get('elements'):
            ns = {n for _, n, _, _ in m.di_members(k)}
            if {'attestation', 'certificate_chain'} <= ns: out['vendor_handle'] = k
            if 'hash_algo' in ns: out['crypto_handle'] = k
    return out

def one(P, root, dec, tag, name, variant):
    m = P.m; sites = set()
    mon = Enc(P, byte_writers(P)[0], sites=sites); mon.handles = handle_types(P); mon.tag = name; mon.chain = chain_sizes(P) if name.startswith('VENDOR') else ()
    I = SInterp(P, mon, maxinline=12, cap=32, steps=900000)
    I.unroll_const = 8; I.widths = (0, 1, 253, 254, 255, 256)
    I.joineq = True; I.settle = True; I.joinoff = True; I.rebyte = recombine; I.cpu_limit = time.process_time() + 200; mon.I = I
    st = State(); I.stack = [root]
    tx = World(P, I, 'tx'); rx = World(P, I, 'rx')
    for w in (tx, rx): st.null[w.o] = False
    spec = SPEC.get(name, [])
    for w in (tx, rx):
        for x in ('gop_info', 'sign_data', 'verify_data', 'product_info', 'vendor_handle', 'crypto_handle', 'latest_validation', 'accumulated_validation', 'authenticity'):
            v = w.get(st, x)
            if isinstance(v, Ptr): st.null[v.o] = False
    used = {p for a, b, k, n in spec for p in (a, n) if isinstance(p, str)}
    for p, (lo, hi) in BOUNDS.items():
        if p.startswith('vendor') and 'vendor_handle' not in mon.handles: continue
        pl, t, s = tx.at(st, p)
        I.store(st, pl, lin(mksym(('c03', p), s * 8, lo, hi, p)), s)
    for p in NONNULL:
        if p.startswith('vendor') and 'vendor_handle' not in mon.handles: continue
        v = tx.get(st, p)
        if isinstance(v, Ptr): st.null[v.o] = False
    # a signature never exceeds the memory it is in
    if name == 'SIGNATURE_TAG' and variant == 'full': I.store(st, tx.at(st, 'sign_data.max_signature_size')[0], tx.get(st, 'sign_data.signature_size'), 8)
    else: assume_le0(st, ladd(ladd(tx.get(st, 'sign_data.signature_size'), tx.get(st, 'sign_data.max_signature_size'), -1), 1))
    for k in range(3):
        pl, t, s = tx.at(st, 'code_version'); I.store(st, Ptr(pl.o, pl.off + 4 * k), lin(mksym(('c03', 'version', k), 32, 0, 255, 'code_version[%d]' % k)), 4)
    I.store(st, tx.at(st, 'has_recurrent_data')[0], 1, 1)
    I.store(st, tx.at(st, 'add_public_key_to_sei')[0], 1, 1)
    for e, v in (('authenticity_level', 1),): I.store(st, tx.at(st, e)[0], v, 4)
    if name == 'PRODUCT_INFO_TAG':
        for a, b, k, n in spec:
            v = tx.get(st, a)
            c = variant.get(a, 'null')
            if c == 'null': I.store(st, tx.at(st, a)[0], 0, 8); continue
            st.null[v.o] = False; mon.strings.add(v.o)
            ln = mon.strsym(v.o, 0)
            if c == 'normal': assume_le0(st, ladd(ln, -254)); assume_le0(st, ladd(1, ln, -1))
            else: assume_le0(st, ladd(255, ln, -1))
    if name == 'GENERAL_TAG': I.store(st, tx.at(st, 'gop_info.has_timestamp')[0], int(variant), 1)
    fn = m.funcs[root]; pn = I.param_names(fn); nm = [pn.get(n, n) for _, n in fn.params]
    tl = mkobj('list of tags', 'param'); st.null[tl] = False; I.store(st, Ptr(tl, 0), tag, 4)
    st.null[DATA] = False
    mon.epb = tx.get(st, 'sei_epb')
    base = st.clone()
    # size only
    s0 = I.run(root, over={nm[0]: Ptr(tx.o, 0), nm[1]: Ptr(tl, 0), nm[2]: 1, nm[3]: 0}, st=st.clone())
    s1 = I.run(root, over={nm[0]: Ptr(tx.o, 0), nm[1]: Ptr(tl, 0), nm[2]: 1, nm[3]: Ptr(DATA, 0)}, st=st)
    out = {'sizes': [r for r, s in s0], 'layouts': []}
    here = m.funcs.get(table_tags(P)[tag][1]) or fn
    def fail(rule, s, msg): I.report(rule, next(here.instrs()), msg, s)
    dn = m.funcs[dec]; pd = I.param_names(dn); dm = [pd.get(n, n) for _, n in dn.params]
    covered = set(I.covered)
    for ret, s in s1:
        for i in range(len(s.mon.get('pieces') or ())): mon.gput(s, i * 32, I.canonical(s, mon.gget(I, s, i * 32)))
        ps, tot = mon.pieces(I, s)
        desc = ' '.join('%s[%r]' % (k[1].name if k[0] == 'seg' else '%02x' % k[1] if k[0] == 'fill' else repr(x), n) if k[0] != 'byte' else repr(x) for k, at, n, x in ps)
        out['layouts'].append((repr(ret), repr(tot), desc))
        if not eq(s, I.resolve(s, ret), tot): fail('size-differs', s, '%s: the size returned (%r) is not the number of bytes written (%r)' % (name, ret, tot))
        for r0, t0 in s0:
            if not any(eq(s, I.resolve(s, r0), I.resolve(s, ret)) for _ in (0,)): fail('size-differs', s, '%s: the size announced (%r) is not the size written (%r)' % (name, r0, ret))
        if s.mon.get('pieces') is None: out['undecided'] = True; continue
        after = s.clone()
        mon.decoding = True
        # fresh session for the vendor data, any session otherwise
        for p in ('vendor_handle.attestation', 'vendor_handle.certificate_chain', 'verify_data.signature'):
            if p.startswith('vendor') and 'vendor_handle' not in mon.handles: continue
            pl, t, z = rx.at(s, p); I.store(s, pl, 0, z)
        s.mon['copies'] = ()
        d = s.clone()
        I.stack = [dec]
        ends = I.run(dec, over={dm[0]: Ptr(rx.o, 0), dm[1]: Ptr(DATA, 0), dm[2]: tot}, st=d)
        covered |= set(I.covered)
        mon.decoding = False
        for r, e in ends:
            rv = I.resolve(e, r)
            if dn.ret == 'i1':
                # true: decoded
                rv = I.simplify(e, rv) if isinstance(rv, Cond) else rv
                if rv in (0, False): out.setdefault('refused', True); continue
                rv = 0
            acc = out.get('accepted', False); out['accepted'] = True
            out.setdefault('ends', []).append(repr(rv) + (repr(iv(e, rv)) if isinstance(rv, Lin) else ''))
            if rv != 0:
                lo, hi = iv(e, rv) if is_num(rv) else (0, 0)
                if (lo, hi) in EXTERNAL or hi < 0 and lo >= -21 and hi <= -20: out['accepted'] = acc; continue
                if not (lo <= 0 <= hi): fail('rejects-own-data', e, '%s: data written by the library is rejected with %r' % (name, rv)); continue
            for a, b, k, n in spec:
                msg = compare(I, mon, tx, rx, after, e, a, b, k, n, variant, tot)
                if msg: fail('lost-value', e, '%s: %s' % (name, msg))
    if not out.get('accepted') and not out.get('undecided'): I.report('rejects-own-data', next(dn.instrs()), '%s: data written by the library is never accepted' % name, st)
    out['reports'] = [(r.rule, r.where, r.fname, r.msg, r.path) for r in I.reports.values() if r.rule in RULES]
    out['covered'] = covered; out['sites'] = sites
    return out

def compare(I, mon, tx, rx, after, e, a, b, k, n, variant, tot):
    if k == 'ts':
        if variant == 0: return None
        k = 'num'
    x = tx.get(after, a) if k in ('num', 'buf', 'str') else None
    if k == 'num':
        y = rx.get(e, b)
        if same_bytes(e, x, y, n) or eq(e, x, y): return None
        return '%s is written as %r but read back as %r in %s' % (a, x, y, b)
    if k == 'version':
        p, _, _ = tx.at(after, a); q, _, _ = rx.at(e, b)
        for i in range(n):
            u = I.resolve(after, I.load(after, Ptr(p.o, p.off + 4 * i), 'i32')); v = I.resolve(e, I.load(e, Ptr(q.o, q.off + 4 * i), 'i32'))
            if not same_bytes(e, u, v, 4): return '%s[%d] is written as %r but read back as %r' % (a, i, u, v)
        return None
    if k == 'str':
        if variant.get(a, 'null') == 'null': return None
        y = rx.get(e, b)
        if not isinstance(y, Ptr): return '%s is not read back' % b
        want = mon.strsym(x.o, 0)
        if variant[a] == 'long': want = 254
        src, ln = Ptr(x.o, 0), want
    elif k == 'buf':
        y = rx.get(e, b)
        if not isinstance(y, Ptr): return '%s is not read back' % b
        if n == 'rest': ln = 1
        else: ln = tx.get(after, n)
        src = Ptr(x.o, x.off)
    else:
        p, _, _ = tx.at(after, a); src = p; y = rx.at(e, b)[0]; ln = tx.get(after, n)
    for s, ds, ss, l in mon.content(I, e, y.o):
        if s is src.o and le(e, ds, y.off) and eq(e, ladd(y.off, ds, -1), ladd(src.off, ss, -1)) and le(e, ladd(y.off, ln), ladd(ds, l)):
            if n == 'rest':
                # everything written from the source
                w = next((m_ for kk, at, m_, xx in mon.pieces(I, e)[0] if kk == ('seg', src.o)), None)
                if w is None or not le(e, w, l): continue
            return None
    return '%s is not read back in full into %s' % (a, b)

# ---------------------------------------------------------------------------------------------- one byte
def codec(P, fname, writing):
    """-> (number of cases, reports): one byte with every combination of flag, previous bytes and value"""
    m = P.m; fn = m.funcs[fname]; out = []; cases = 0; covered = set()
    for flag in (0, 1):
        for zero in (0, 1):
            for small in (0, 1):
                for c in ('a', 'b', 'c', 'd'):
                    I = SInterp(P, Monitor(), maxinline=12, cap=64, steps=20000); I.rebyte = recombine; I.stack = [fname]
                    st = State(); pn = I.param_names(fn); nm = [pn.get(n, n) for _, n in fn.params]
                    lo = mkobj('last two bytes', 'param'); po = mkobj('position', 'param')
                    for o in (lo, po, DATA): st.null[o] = False
                    L = 0 if zero else lin(mksym(('c03', 'last'), 16, 1, 65535, 'last two bytes'))
                    I.store(st, Ptr(lo, 0), L, 2); I.store(st, Ptr(po, 0), Ptr(DATA, 0), 8)
                    # every value matters: the ones that need the extra byte (or are it) one by one, the others together
                    if writing: v = 'abcd'.index(c) if small else None
                    else: v = 3 if small else None
                    if not small and c != 'a' and not (writing is False and c in 'bcd'): continue
                    if v is None: v = lin(mksym(('c03', 'byte', writing), 8, 4, 255, 'byte')) if writing or c == 'a' else 'bcd'.index(c)
                    nxt = lin(mksym(('c03', 'next'), 8, 0, 255, 'next byte'))
                    if not writing:
                        if small and c != 'a': continue
                        I.store(st, Ptr(DATA, 0), v, 1); I.store(st, Ptr(DATA, 1), nxt, 1)
                    over = {nm[0]: Ptr(lo, 0), nm[1]: Ptr(po, 0), nm[-1]: flag}
                    if writing: over[nm[2]] = v
                    ends = I.run(fname, over=over, st=st); covered |= I.covered; cases += 1
                    extra = bool(flag and zero and (small if writing else v == 3))
                    for r, s in ends:
                        pos = I.resolve(s, I.load(s, Ptr(po, 0), 'ptr')); l2 = I.resolve(s, I.load(s, Ptr(lo, 0), 'i16'))
                        n = 2 if extra else 1; last = v if writing or not extra else nxt; bad = None
                        if not (isinstance(pos, Ptr) and pos.o is DATA and eq(s, pos.off, n)): bad = 'the position moves to %r instead of by %d' % (pos, n)
                        want = [atoms(s, last, 1)[0], 3 if extra else atoms(s, L, 1)[0]]
                        if not bad and atoms(s, l2, 2) != want: bad = 'the bytes remembered for emulation prevention are %r instead of %r' % (atoms(s, l2, 2), want)
                        if not bad and writing:
                            got = [I.resolve(s, I.load(s, Ptr(DATA, k), 'i8')) for k in range(n)]
                            w = ([3] if extra else []) + [v]
                            if any(not same_bytes(s, x, y, 1) for x, y in zip(got, w)): bad = 'writes %r instead of %r' % (got, w)
                        if not bad and not writing and not same_bytes(s, I.resolve(s, r), last, 1): bad = 'returns %r instead of %r' % (r, last)
                        if bad:
                            ins = next(fn.instrs())
                            out.append(('byte-codec', ins.where, fname, '%s (emulation prevention %s, last two bytes %s, byte %r)' % (bad, 'on' if flag else 'off', 'zero' if zero else 'not zero', v), s.path()))
                    if not ends: out.append(('byte-codec', next(fn.instrs()).where, fname, 'never returns', []))
    return cases, out, covered

def decoders(P):
    """functions that decode the data of a SEI: (session, data, size), with a call of a decoder through the tables"""
    m = P.m; T = {d for e, d in table_tags(P).values() if d}
    out = []
    for f in m.funcs.values():
        if [t for t, _ in f.params] != ['ptr', 'ptr', 'i64'] or f.name in T or P.ptype(f, ('loc', f.params[0][1])) != '_signed_video_t': continue
        if T and T <= P.reach(f.name): out.append(f.name)
    return [f for f in out if not any(g != f and g in P.reach(f) and f not in P.reach(g) for g in out)]

def run_roundtrip(res):
    P = Prog(build('default')); m = P.m
    W, R = byte_writers(P), byte_readers(P); roots = list_encoders(P); decs = decoders(P); T = table_tags(P); N = enum_names(P)
    if not roots or not decs or not W: raise AnalysisError('no encoder or decoder of tags found')
    jobs = []
    for f in W: jobs.append(('codec', f, True))
    for f in R: jobs.append(('codec', f, False))
    for root in roots:
        for dec in decs:
            for t in sorted(T):
                name = N.get(t)
                if name not in SPEC: continue
                if m.funcs[dec].ret == 'i1' and name not in ('PUBLIC_KEY_TAG', 'PRODUCT_INFO_TAG', 'CRYPTO_INFO_TAG'): continue
                vs = [None]
                if name == 'GENERAL_TAG': vs = [0, 1]
                if name == 'SIGNATURE_TAG': vs = ['full', 'padded']
                if name == 'PRODUCT_INFO_TAG': vs = [{a: c} for a, _, _, _ in SPEC[name] for c in ('normal', 'long')] + [{}]
                if name.startswith('VENDOR') and len(chain_sizes(P)) != 1: res.notes.append('the size of the certificate chain is not computed by one function: tag not decided'); continue
                for v in vs: jobs.append(('tag', root, dec, t, name, v))
    def work(j):
        t0 = time.time()
        try:
            if j[0] == 'codec':
                n, out, cov = codec(P, j[1], j[2])
                return j, n, out, cov, set(), None
            o = one(P, *j[1:])
            if os.environ.get('SV_DEBUG'): print(j[1:], '%.1f s' % (time.time() - t0), flush=True)
            return j, len(o['layouts']), o['reports'], o['covered'], o['sites'], 'more pieces than the analysis follows' if o.get('undecided') else None
        except Budget as e: return j, 0, [], set(), set(), str(e)
    for j, n, out, cov, sites, und in pmap(work, jobs):
        res.functions |= cov
        if und: res.notes.append('not decided: %s (%s)' % (' '.join(map(str, j[1:])), und)); res.count('cases not decided'); continue
        for r in out: res.add(*r)
        if j[0] == 'codec': res.count('cases of one byte', n); continue
        res.count('tags and variants'); res.count('layouts decoded', n)
        for s in sites: res.seen.setdefault(s[0], set()).add(s[1:])
    res.count('places that write', len(res.seen.get('write', ()))); res.count('places that read', len(res.seen.get('read', ())))
    res.rules = RULES
    if not res.counts.get('cases not decided'): res.need('tags and variants', 8); res.need('layouts decoded', 8); res.need('cases of one byte', 16)
    return res
