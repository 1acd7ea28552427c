"""A05: the hash of a NAL unit covers all of it; A06: the signed document covers the whole SEI."""

from core import *
from vendor import fields, may
from nulls import nonzero

SLICES = {0: {1: 'P', 5: 'I'}, 1: dict([(0, 'P'), (1, 'P')] + [(k, 'I') for k in range(16, 22)])}

SEI = (6, 39)

def parsers(P):
    """the functions that describe a NAL unit: from data and size to a struct with the part to hash"""
    out = []
    for f in P.m.funcs.values():
        if len(f.params) < 4 or f.ret != 'void': continue
        d = result_struct(P, f)
        if d and {'hashable_data', 'hashable_data_size', 'is_hashable', 'nalu_type'} <= set(fields(P.m, d)): out.append(f.name)
    return sorted(out)

def result_struct(P, f):
    """the struct a function returns by value (through a hidden first parameter)"""
    m = P.m; sub = m.md.get(f.dbg) or {}
    if not isinstance(sub, dict): return None
    lst = SInterp(P, Monitor()).raw_list((m.md.get(sub.get('type')) or {}).get('types'))
    if not lst or not lst[0]: return None
    t = m.di_strip(lst[0])
    return t if (m.md.get(t) or {}).get('tag', '').endswith('structure_type') and f.params[0][0] == 'ptr' else None

class Parse(Monitor):
    def __init__(self, root, data): self.root = root; self.data = data; self.exits = []
    def key(self, st): return (st.mon.get('it', 0), tuple(sorted(st.mon.get('byte', {}))))
    def join_field(self, k, a, b):
        if k == 'it': return max(a or 0, b or 0)
        if k == 'byte': return {x: v for x, v in (a or {}).items() if (b or {}).get(x) == v}
        return Monitor.join_field(self, k, a, b)
    def on_backedge(self, I, st, fn, head):
        if st.mon.get('byte'): st.mon['it'] = min(st.mon.get('it', 0) + 1, 2)
    def loaded(self, I, st, ins, p, v):
        if p.o is self.data and isinstance(p.off, Lin) and not st.mon.get('it'): st.mon['byte'] = dict(st.mon.get('byte', {})); st.mon['byte'][str(p.off)] = v
        return [(st, v)]
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.exits.append(st)

def parse_run(P, root, codec, start, head, trailing, out, sl=0x80):
    m = P.m; fn = m.funcs[root]; d = result_struct(P, fn); F = fields(m, d)
    data = mkobj(root + ':data', 'param'); res = mkobj(root + ':nalu', 'param', di=d)
    mon = Parse(root, data)
    I = SInterp(P, mon, maxinline=8, cap=16, steps=200000)
    I.cpu_limit = time.process_time() + 20
    st = State(); I.stack = [root]; st.null[data] = False; st.null[res] = False
    by = list(start) + list(head) + [sl, 0x21, 0x43, 0x65]
    for k, b in enumerate(by): I.store(st, Ptr(data, k), b, 1)
    size = mksym(('a05', 'size'), 64, len(by) + 2, 1 << 40, 'nalu_data_size')
    names = I.param_names(fn); nm = lambda k: names.get(fn.params[k][1], fn.params[k][1])
    over = {}; ints = 0
    for k, (t, x) in enumerate(fn.params):
        if k == 0: over[nm(k)] = Ptr(res, 0)
        elif t == 'ptr': over[nm(k)] = Ptr(data, 0)
        elif t == 'i64': over[nm(k)] = lin(size)
        elif t == 'i32': over[nm(k)] = codec
        elif t == 'i1': over[nm(k)] = trailing if not ints else 1; ints += 1
    I.run(root, over=over, st=st)
    at = [i for i in fn.instrs() if i.op == 'ret'][-1].where
    typ = (head[0] & 0x1f) if codec == 0 else (head[0] & 0x7e) >> 1
    kind = SLICES[codec].get(typ)
    desc = '%s, type %d, %s' % (('H.264', 'H.265')[codec], typ, {0: 'no start code', 3: 'start code of 3 bytes', 4: 'start code of 4 bytes'}[len(start)])
    if not mon.exits: out.append(('no-exit', at, root, 'no result for a NAL unit (%s)' % desc, ()))
    for s in mon.exits:
        g = lambda k, ty: I.resolve(s, I.load(s, Ptr(res, F[k][0]), ty))
        rep = lambda rule, msg: out.append((rule, at, root, '%s (%s)' % (msg, desc), s.path()))
        hb = g('is_hashable', 'i8'); valid = g('is_valid', 'i32')
        legal = not head[0] & 0x80 and (codec == 1 and (head[0] & 1, head[1] >> 3) == (0, 0) and (head[1] & 7 == 1 or head[1] & 7 and kind == 'P') or codec == 0 and (kind == 'P' or head[0] & 0x60))
        if kind and legal and (may(I, s, valid, 0) or may(I, s, valid, -1)): rep('slice-rejected', 'a slice that follows the standard may be taken for invalid and left out from hashing')
        if may(I, s, valid, 1) and kind and may(I, s, hb, 0): rep('slice-not-hashed', 'a slice may be left out from hashing')
        if kind and may(I, s, valid, 1):
            fi = g('is_first_nalu_in_gop', 'i8'); want = kind == 'I' and bool(sl & 0x80)
            if may(I, s, fi, 0 if want else 1): rep('wrong-gop-start', 'the %s of a GOP may %sbe recognised' % (('first NAL unit', 'not ') if want else ('start', 'wrongly ')))
        if not kind and typ != SEI[codec]: continue
        p = g('hashable_data', 'ptr'); n = g('hashable_data_size', 'i64')
        if not kind and isinstance(p, Ptr) and p.o.kind != 'param': continue      # emulation prevention bytes removed
        if not isinstance(p, Ptr) or p.o is not data or p.off != len(start): rep('hash-starts-late', 'the part to hash may not start at the header of the NAL unit'); continue
        it = s.mon.get('it', 0) if trailing else 0
        if not is_num(n): rep('hash-size', 'the size of the part to hash is not known'); continue
        cut = ladd(ladd(lin(size), len(start), -1), n, -1)
        if not trailing or it == 0:
            if cut != 0 and not (prove_le0(s, cut) and prove_le0(s, lscale(cut, -1))): rep('hash-ends-early', 'the part to hash may not reach to the end of the NAL unit')
        elif it == 1:
            last = s.mon.get('byte', {}).get(str(ladd(lin(size), 1, -1)))
            if cut != 1: rep('hash-ends-early', 'more than the trailing zero bytes may be left out from hashing')
            elif last is None or iv(s, I.resolve(s, last)) != (0, 0): rep('hash-ends-early', 'bytes other than trailing zeros may be left out from hashing')
    return len(mon.exits), set(I.covered)

DIGEST = {'EVP_Digest', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex', 'EVP_DigestFinal', 'EVP_DigestInit_ex', 'EVP_DigestInit'}

EVP = {'EVP_Digest', 'EVP_DigestUpdate', 'EVP_DigestFinal_ex', 'EVP_DigestInit_ex'}
class Hash(Monitor):
    """which memory holds a hash that covers the data in question, and which running hashes have been fed with it.
    h: {(object, offset): kind}, kind 'N' (hash of the data) or 'R' (hash of a reference followed by that hash)
    ctx: {object: kinds}, kinds among 'i' (initialised here), 'n' (fed with the data), 'N' / 'R' (fed with such a hash)"""
    def __init__(self, P, root, data, size): self.P = P; self.root = root; self.data = data; self.n = size; self.exits = []; self.sites = set(); self.hs = None; self.region = None; self.listidx = None; self.parse = {}; self.parts = False
    def key(self, st): return (self.hk(st.mon.get('h')), self.hk(st.mon.get('ctx')), 'sig' in st.mon, st.mon.get('it', 0), tuple(sorted(st.mon.get('byte', {}))))
    def hk(self, d): return tuple(sorted((repr(k), repr(v)) for k, v in (d or {}).items()))
    def join_field(self, k, a, b):
        if k in ('h', 'ctx', 'byte'): return {x: v for x, v in (a or {}).items() if (b or {}).get(x) == v}
        if k == 'it': return max(a or 0, b or 0)
        return Monitor.join_field(self, k, a, b)
    def keep(self, st): return [k[0] for k in (st.mon.get('h') or {})] + list(st.mon.get('ctx') or ())
    def on_backedge(self, I, st, fn, head):
        if st.mon.get('byte'): st.mon['it'] = min(st.mon.get('it', 0) + 1, 2)
    def loaded(self, I, st, ins, p, v):
        if p.o is self.data and isinstance(p.off, Lin) and not st.mon.get('it'): st.mon['byte'] = dict(st.mon.get('byte', {})); st.mon['byte'][str(p.off)] = v
        return [(st, v)]
    def eq(self, st, a, b):
        if not is_num(a) or not is_num(b): return False
        d = ladd(a, b, -1)
        return d == 0 or prove_le0(st, d) and prove_le0(st, lscale(d, -1))
    def covers(self, I, st, p, n):
        """does [p, p+n) consist of exactly the data in question"""
        if not isinstance(p, Ptr) or self.region is None: return False
        o, off, size = self.region(I, st)
        if p.o is not o or not self.eq(st, p.off, off): return False
        if self.eq(st, n, size): return True
        if o is self.data and st.mon.get('it') and is_num(n):           # trailing zeros left out
            last = st.mon.get('byte', {}).get(str(ladd(size, 1, -1)))
            if last is not None and iv(st, I.resolve(st, last)) == (0, 0) and (self.eq(st, n, ladd(size, 1, -1)) if st.mon['it'] == 1 else not isinstance(n, int)): return True
        return False
    def kind(self, I, st, p, n):
        """kind of the hash found at [p, p+n)"""
        if not isinstance(p, Ptr): return None
        h = st.mon.get('h') or {}
        k = h.get((p.o, p.off))
        if k and self.eq(st, n, self.hs(I, st)): return k
        for (o, off), k in h.items():
            if o is not p.o or k != 'N' or not is_num(off) or not is_num(p.off): continue
            if self.eq(st, ladd(off, p.off, -1), self.hs(I, st)) and self.eq(st, n, lscale(self.hs(I, st), 2)): return 'R'
        return None
    def write(self, I, st, p, n, kind):
        h = dict(st.mon.get('h') or {})
        for (o, off) in list(h):
            if o is not p.o: continue
            e1, e2 = (I.array_extent(o, x.c if isinstance(x, Lin) else x) if o.di is not None and is_num(x) else None for x in (off, p.off))
            if e1 and e2 and e1 != e2: continue        # members of their own
            a, b = ladd(off, ladd(p.off, n if is_num(n) else 1 << 40), -1), ladd(p.off, ladd(off, self.hs(I, st)), -1)     # disjoint: off >= p+n or p >= off+hs
            if not prove_le0(st, lscale(a, -1)) and not prove_le0(st, lscale(b, -1)): del h[o, off]
        if kind: h[p.o, p.off] = kind
        st.mon['h'] = h
    def feed(self, st, o, k, clear=False):
        c = dict(st.mon.get('ctx') or {}); c[o] = k if clear else c.get(o, '') + (k if k not in c.get(o, '') else ''); st.mon['ctx'] = c
    def on_copy(self, I, st, ins, p, q, n):
        if p.o.kind == 'stack' and q.o.kind == 'stack': return
        self.write(I, st, p, n, self.kind(I, st, q, n) if self.eq(st, n, self.hs(I, st)) else None)
    def on_call(self, I, st, ins, name, args):
        if name in self.parse: return self.parse[name](I, st, ins, args)
        if name not in DIGEST: return None
        a = [I.resolve(st, x) for x in args]
        r = I.ext_ret(st, ins, name, args); t = st.clone(); assume_ne(t, ladd(r, 1, -1))
        I.assume(st, I.cmp(st, 'eq', 'i32', r, 1), True)
        self.sites.add((name, ins.fn.name, ins.where))
        if name == 'EVP_Digest':
            k = ('N' if not self.parts else None) if self.covers(I, st, a[0], a[1]) else {'N': None, 'R': 'R'}.get(self.kind(I, st, a[0], a[1]))
            if isinstance(a[2], Ptr): self.write(I, st, a[2], self.hs(I, st), k)
            if isinstance(a[3], Ptr): I.havoc_arg(st, a[3])
        elif name == 'EVP_DigestUpdate':
            if isinstance(a[0], Ptr):
                k = 'n' if self.covers(I, st, a[1], a[2]) else self.kind(I, st, a[1], a[2])
                self.feed(st, a[0].o, k or '')
                if k in ('N', 'R'): st.note(ins.where, 'a running hash is updated with the hash of the NAL unit')
        elif name.startswith('EVP_DigestInit'):
            if isinstance(a[0], Ptr):
                self.feed(st, a[0].o, 'i', clear=True)
                z = self.listidx(I, st) if self.listidx else None
                if z is not None and iv(st, z) == (0, 0): self.feed(st, a[0].o, 'z')
        elif name.startswith('EVP_DigestFinal'):
            if isinstance(a[0], Ptr) and isinstance(a[1], Ptr):
                c = (st.mon.get('ctx') or {}).get(a[0].o, '')
                self.write(I, st, a[1], self.hs(I, st), 'N' if 'n' in c else None); self.feed(st, a[0].o, '', clear=True)
                if isinstance(a[2], Ptr): I.havoc_arg(st, a[2])
        return [(r, st), (r, t)]
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.exits.append((I.resolve(st, ret), st))

def struct_param(P, f, k):
    if k >= len(f.params): return None
    s = P.ptype(f, ('loc', f.params[k][1]))
    return P.distruct(s) if s else None

def refs(v, names, out):
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == 'glob' and v[1] in names: out.add(v[1])
        for x in v: refs(x, names, out)
    elif isinstance(v, list):
        for x in v: refs(x, names, out)

def areach(P):
    """functions reached by calls, also of functions whose address is taken on the way"""
    if hasattr(P, '_areach'): return P._areach
    m = P.m; e = {}
    for f in m.funcs.values():
        s = set()
        for i in f.instrs(): refs(i.ops, m.funcs, s); refs(i.x, m.funcs, s)
        e[f.name] = s | set(P.callees.get(f.name, ()))
    out = {}
    for f in m.funcs:
        seen = {f}; w = [f]
        while w:
            for g in e.get(w.pop(), ()):
                if g not in seen: seen.add(g); w.append(g)
        out[f] = seen
    P._areach = out
    return out

def digesters(P):
    """functions from which the data of a NAL unit is hashed"""
    m = P.m; R = areach(P); ld = set()
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != 'load': continue
            pl = P.place(f, i.ops[0][1])
            if pl[0] == 'field':
                d = P.distruct(pl[1]); n = (m.field_at(d, pl[2])[0] if d else None) or ''
                if n.split('.')[-1] == 'hashable_data_size': ld.add(f.name)
    return {f for f in m.funcs if 'EVP_Digest' in set().union(*(set(P.callees.get(g, ())) | {g} for g in R[f])) and R[f] & ld}

def writers(P):
    m = P.m; out = set()
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != 'store': continue
            pl = P.place(f, i.ops[1][1])
            if pl[0] == 'field':
                d = P.distruct(pl[1]); n = (m.field_at(d, pl[2])[0] if d else None) or ''
                if n.split('.')[-1] in ('hashable_data_size', 'hashable_data'): out.add(f.name)
    return out - set(parsers(P))

def item_functions(P):
    """functions of a session and an item of the NAL unit list that hash it; those entered from elsewhere"""
    m = P.m; c = set(); D = digesters(P)
    for f in m.funcs.values():
        if len(f.params) != 2 or f.name not in D or 'PEM_read_bio_PUBKEY' in P.reach(f.name): continue
        d, e = struct_param(P, f, 0), struct_param(P, f, 1)
        if d and e and 'crypto_handle' in fields(m, d) and {'hash', 'nalu'} <= set(fields(m, e)): c.add(f.name)
    return sorted(f for f in c if not P.callers.get(f) or any(x not in c for x in P.callers[f]))

def member(I, st, di, o, name, fresh=True):
    """object a member of a struct points to"""
    m = I.mod; F = fields(m, di); off, t = F[name][0], m.field_at(di, F[name][0])[1]
    d = m.di_strip(m.di_pointee(t)); e = m.md.get(d) or {}
    if 'elements' not in e and e.get('name'): d = I.prog.distruct(e['name']) or d      # declared only
    x = mkobj('%s->%s' % (o.name, name), 'lazy', di=d, parent=(o, off)); st.null[x] = False
    I.store(st, Ptr(o, off), Ptr(x, 0), 8)
    return x

FIND = {'tlv_find_tag', 'legacy_tlv_find_tag'}

def item_run(P, root, first, ref, sei=0):
    m = P.m; fn = m.funcs[root]; out = []
    ds, de = struct_param(P, fn, 0), struct_param(P, fn, 1)
    S, E = fields(m, ds), fields(m, de)
    mon = Hash(P, root, None, None)
    D = digesters(P); W = writers(P)
    I = SInterp(P, mon, inline=lambda n, d: n in D or P.small(n, 40) or EVP & P.reach(n) or n in W, maxinline=6, cap=30, steps=600000)
    I.cpu_limit = time.process_time() + 120
    st = State(); I.stack = [root]
    h = mkobj(root + ':session', 'param', di=ds); it = mkobj(root + ':item', 'param', di=de); st.null[h] = st.null[it] = False
    nalu = member(I, st, de, it, 'nalu'); gi = member(I, st, ds, h, 'gop_info'); vd = member(I, st, ds, h, 'verify_data'); ch = mkobj(root + ':crypto_handle', 'lazy', parent=(h, S['crypto_handle'][0])); st.null[ch] = False
    I.store(st, Ptr(h, S['crypto_handle'][0]), Ptr(ch, 0), 8)
    N = fields(m, nalu.di); G = fields(m, gi.di); V = fields(m, vd.di)
    data = mkobj(root + ':data', 'lazy'); st.null[data] = False
    size = mksym(('a05', 'hsize'), 64, 1, 1 << 40, 'hashable_data_size'); hs = mksym(('a05', 'hash_size'), 64, 1, 64, 'hash_size')
    for k, v, w in (('is_hashable', 1, 1), ('is_valid', 1, 4), ('is_gop_sei', sei, 1), ('is_first_nalu_part', 1, 1), ('is_last_nalu_part', 1, 1), ('is_first_nalu_in_gop', first, 1)): I.store(st, Ptr(nalu, N[k][0]), v, w)
    I.store(st, Ptr(nalu, N['hashable_data'][0]), Ptr(data, 0), 8); I.store(st, Ptr(nalu, N['hashable_data_size'][0]), lin(size), 8)
    I.store(st, Ptr(vd, V['hash_size'][0]), lin(hs), 8)
    I.store(st, Ptr(gi, G['has_reference_hash'][0]), ref, 1)
    if 'validation_flags.hash_algo_known' in S: I.store(st, Ptr(h, S['validation_flags.hash_algo_known'][0]), 1, 1)
    mon.hs = lambda I, s: lin(hs); mon.region = lambda I, s: (data, 0, s.mon.get('sig', lin(size))); mon.data = data
    if sei:
        tl = mksym(('a05', 'tlv'), 64, 20, 40, 'tlv_start'); sg = mksym(('a05', 'sig'), 64, 20, 1 << 40, 'signature_start')
        if 'tlv_start_in_nalu_data' in N: I.store(st, Ptr(nalu, N['tlv_start_in_nalu_data'][0]), Ptr(data, lin(tl)), 8)
        def find(I, s, ins, args):
            a = [I.resolve(s, x) for x in args]; t = s.clone()
            if isinstance(a[0], Ptr) and a[0].o is data and a[2] == 5: s.mon['sig'] = lin(sg); r = Ptr(data, lin(sg)); mon.sites.add(('tlv_find_tag', ins.fn.name, ins.where))
            else: r = Ptr(data, lin(mksym(('a05', 'other', ins.where), 64, 0, 1 << 40, 'tag')))
            assume_le0(s, ladd(lin(sg), lin(size), -1))
            return [(r, s), (0, t)]
        for k in FIND: mon.parse[k] = find
    names = I.param_names(fn); nm = lambda k: names.get(fn.params[k][1], fn.params[k][1])
    I.run(root, over={nm(0): Ptr(h, 0), nm(1): Ptr(it, 0)}, st=st)
    at = [i for i in fn.instrs() if i.op == 'ret'][-1].where; n = 0
    for r, s in mon.exits:
        if nonzero(s, r): continue
        n += 1
        H = s.mon.get('h') or {}
        k = H.get((it, E['hash'][0]))
        rep = lambda rule, msg: out.append((rule, at, root, msg, s.path()))
        if not k: rep('data-not-hashed', 'the hash of a %s to validate may not cover all of its data' % ('SEI' if sei else 'NAL unit'))
        elif sei and k != 'N': rep('sei-with-reference', 'the hash of a SEI to validate may depend on other NAL units')
        elif sei: pass
        elif k == 'N' and ref: rep('no-reference', 'a NAL unit may be hashed without the reference of its GOP')
        if 'second_hash' in E:
            p = I.resolve(s, I.load(s, Ptr(it, E['second_hash'][0]), 'ptr'))
            if isinstance(p, Ptr) and p.o.kind == 'heap' and not H.get((p.o, 0)): rep('data-not-hashed', 'the second hash of a NAL unit to validate may not cover all of its data')
    return out, set(I.covered), mon.sites, n

# ------------------------------------------------------------------------------------------------ signing side
SIGN = 'sv_signing_plugin_sign'
ENTRY = ('signed_video_add_nalu_for_signing', 'signed_video_add_nalu_for_signing_with_timestamp', 'signed_video_add_nalu_part_for_signing_with_timestamp')

def session(P, I, st, root):
    """a session with its parts, ready for signing"""
    m = P.m; fn = m.funcs[root]; ds = struct_param(P, fn, 0); S = fields(m, ds)
    h = mkobj(root + ':session', 'param', di=ds); st.null[h] = False
    o = {k: member(I, st, ds, h, k) for k in ('gop_info', 'sign_data', 'last_nalu')}
    ch = mkobj(root + ':crypto_handle', 'lazy', parent=(h, S['crypto_handle'][0])); st.null[ch] = False
    I.store(st, Ptr(h, S['crypto_handle'][0]), Ptr(ch, 0), 8)
    hs = mksym(('a05', 'hash_size'), 64, 1, 64, 'hash_size')
    I.store(st, Ptr(o['sign_data'], fields(m, o['sign_data'].di)['hash_size'][0]), lin(hs), 8)
    o['h'] = h
    return o

def set_nalu(I, st, F, o, base, vals):
    for k, v in vals.items():
        w = {'hashable_data': 8, 'hashable_data_size': 8, 'is_valid': 4, 'nalu_type': 4, 'uuid_type': 4}.get(k, 1)
        I.store(st, Ptr(o, ladd(base, F[k][0])), v, w)

def parse_summary(P, mon, name, what, trailing):
    """a result of parsing, as far as parse_run establishes it: what(I, st, data, size) gives the members to set"""
    m = P.m; fn = m.funcs[name]; d = result_struct(P, fn); F = fields(m, d); sz = max(off + 8 for off, _ in F.values())
    def call(I, st, ins, args):
        a = [I.resolve(st, x) for x in args]; r = a[0]
        p = [x for x, (t, _) in zip(a[1:], fn.params[1:]) if t == 'ptr'][0]; n = [x for x, (t, _) in zip(a[1:], fn.params[1:]) if t == 'i64'][0]
        if not isinstance(r, Ptr): return None
        I.havoc_range(st, r.o, r.off, sz)
        tr = [x for x, (t, _) in zip(a[1:], fn.params[1:]) if t == 'i1'][:1]
        w = what(I, st, p, n) if isinstance(p, Ptr) else None
        if w and tr and not trailing and may(I, st, tr[0], 1): w['hashable_data_size'] = lin(mksym(('a05', 'cut', ins.where), 64, 1, 1 << 40, 'size without trailing zeros'))
        if w: set_nalu(I, st, F, r.o, r.off, w)
        return [(0, st)]
    mon.parse[name] = call

def sign_run(P, root, first, last, gop, ref):
    m = P.m; fn = m.funcs[root]; out = []
    mon = Hash(P, root, None, None); D = digesters(P)
    direct = {f for f in P.callers.get(SIGN, {}) if f != root}
    I = SInterp(P, mon, inline=lambda n, d: n not in direct and (n in D or P.small(n, 40) or bool(EVP & P.reach(n))), maxinline=8, cap=24, steps=800000)
    I.cpu_limit = time.process_time() + 120
    st = State(); I.stack = [root]; o = session(P, I, st, root)
    h, gi, sd, ln = o['h'], o['gop_info'], o['sign_data'], o['last_nalu']
    S, G, N, V = (fields(m, x.di) for x in (h, gi, ln, sd))
    data = mkobj(root + ':data', 'param'); st.null[data] = False; mon.data = data
    size = mksym(('a05', 'size'), 64, 64, 1 << 40, 'nalu_data_size'); hn = mksym(('a05', 'hsize'), 64, 1, 1 << 40, 'hashable_data_size')
    I.store(st, Ptr(ln, N['is_last_nalu_part'][0]), int(first), 1)
    if not first: set_nalu(I, st, N, ln, 0, dict(is_valid=1, is_hashable=1, is_gop_sei=0, is_first_nalu_in_gop=int(gop)))
    I.store(st, Ptr(gi, G['has_reference_hash'][0]), int(ref), 1)
    ld = lambda s, ob, F, k, t: I.resolve(s, I.load(s, Ptr(ob, F[k][0]), t))
    mon.hs = lambda I, s: ld(s, sd, V, 'hash_size', 'i64')
    mon.listidx = lambda I, s: ld(s, gi, G, 'list_idx', 'i32')
    mon.region = (lambda I, s: (data, 4, lin(hn))) if first else (lambda I, s: (data, 0, lin(size)))
    mon.parts = not first
    def what(I, s, p, n):
        if p.o is not data: return None
        s.mon['parsed'] = 1
        return dict(is_valid=1, is_hashable=1, is_gop_sei=0, is_first_nalu_in_gop=int(gop), is_first_nalu_part=1, is_last_nalu_part=1, hashable_data=Ptr(data, 4), hashable_data_size=lin(hn)) if first else dict(is_valid=0, is_hashable=0)
    for p in parsers(P): parse_summary(P, mon, p, what, last)
    hl = mksym(('a05', 'hash_list_size'), 64, 0, 1 << 20, 'hash_list_size'); I.store(st, Ptr(gi, G['hash_list_size'][0]), lin(hl), 8)
    def ranged(s, k):
        li = mksym(('a05', 'list_idx', k), 32, -1, 1 << 20, 'list_idx'); I.store(s, Ptr(gi, G['list_idx'][0]), lin(li), 4); I.store(s, Ptr(gi, G['hash_list_size'][0]), lin(hl), 8)
    ranged(st, 0)
    def generate(I, s, ins, args):
        """the SEI of the previous GOP is made: everything in the session may change, the caller's own variables may not"""
        mine = {o for o in s.mem if o.kind == 'stack' and not any(isinstance(a, Ptr) and a.o is o for a in args)}
        sv = {o: (s.mem.get(o), s.dflt.get(o), s.ver.get(o)) for o in mine}; sv = {o: (dict(a) if a is not None else None, b, c) for o, (a, b, c) in sv.items()}
        hz = I.load(s, Ptr(sd, V['hash_size'][0]), 'i64')
        res = I.summary_call(s, ins, ins.x[1], args)
        for r, t in res:
            for o, (a, b, c) in sv.items():
                for dct, v in ((t.mem, a), (t.dflt, b), (t.ver, c)):
                    if v is None: dct.pop(o, None)
                    else: dct[o] = dict(v) if isinstance(v, dict) else v
            ranged(t, 1); I.store(t, Ptr(sd, V['hash_size'][0]), hz, 8)
        return res
    for f in direct: mon.parse[f] = generate
    names = I.param_names(fn); over = {}
    for k, (t, x) in enumerate(fn.params):
        nm = names.get(x, x)
        over.update({nm: Ptr(h, 0) if k == 0 else Ptr(data, 0) if k == 1 else lin(size) if k == 2 else None})
        if t == 'i1' and k == 4: over[nm] = int(last)
        if over[nm] is None: del over[nm]
    I.run(root, over=over, st=st)
    at = [i for i in fn.instrs() if i.op == 'ret'][-1].where; n = 0
    desc = '%s%s of a NAL unit%s' % ('first' if first else 'later', ' and last part' if last else ' part, not the last,', ' starting a GOP' if gop else '')
    for r, s in mon.exits:
        if nonzero(s, r): continue
        n += 1
        rep = lambda rule, msg: out.append((rule, at, root, '%s (%s)' % (msg, desc), s.path()))
        C = s.mon.get('ctx') or {}; H = s.mon.get('h') or {}
        if not last:
            c = [k for k in C.values() if 'n' in k]
            if not c: rep('part-not-hashed', 'signing may report success without hashing all of the data')
            elif first and 'i' not in c[0]: rep('part-hash-not-started', 'the hash of a NAL unit in parts may be continued from an earlier one')
            elif not first and 'i' in c[0]: rep('part-hash-restarted', 'the hash of the earlier parts may be thrown away')
            continue
        hsz = mon.hs(I, s)
        c = [k for k in C.values() if 'N' in k or 'R' in k]
        if not c: rep('not-in-gop-hash', 'signing may report success without adding the hash of all of the data to the hash of the GOP')
        else:
            if 'i' in c[0] and 'z' not in c[0]: rep('gop-hash-restarted', 'the hash of the GOP may be restarted after NAL units have been added to it')
            if 'N' in c[0] and not gop: rep('no-reference', 'a NAL unit may be hashed without the reference of its GOP')
            if 'N' in c[0] and gop and (H.get((gi, G['hash_buddies'][0])) != 'N' or may(I, s, ld(s, gi, G, 'has_reference_hash', 'i8'), 0)):
                rep('reference-not-kept', 'the hash of the first NAL unit of a GOP may not become the reference of the GOP')
        idx = ld(s, gi, G, 'list_idx', 'i32'); full = iv(s, idx)[1] < 0 if is_num(idx) else False
        def slot(k):
            if k[0] is not gi or not H[k]: return False
            return mon.eq(s, k[1], ladd(G['hash_list'][0], ladd(idx, hsz, -1)))
        if not full and not any(slot(k) for k in H): rep('not-in-hash-list', 'signing may report success without adding the hash of all of the data to the hash list')
        if gop and not H.get((gi, ladd(G['linked_hashes'][0], hsz))): rep('link-not-kept', 'the hash of the first NAL unit of a GOP may not become the link to the GOP')
        if first is False and any('i' in k and 'n' in k for k in C.values()): rep('part-hash-restarted', 'the hash of the earlier parts may be thrown away')
    return out, set(I.covered), mon.sites, n

# ------------------------------------------------------------------------------------------------ the signed document
DOCS = ('signed_video_set_end_of_stream', 'signed_video_generate_golden_sei', ENTRY[2])

class Doc(Hash):
    """the data handed over for signing is the hash of the SEI up to where the signature is written"""
    def setup(self, out): self.out = out; self.signed = 0; self.stored = 0
    def rep(self, st, rule, ins, msg): self.out.append((rule, ins.where, ins.fn.name, msg, st.path()))
    def on_call(self, I, st, ins, name, args):
        if name == SIGN:
            a = [I.resolve(st, x) for x in args]; self.signed += 1; self.sites.add((name, ins.fn.name, ins.where))
            if self.kind(I, st, a[1], a[2]) != 'N': self.rep(st, 'signs-other-data', ins, 'the data handed over for signing may not be the hash of the whole SEI written so far')
            r = I.ext_ret(st, ins, name, args); t = st.clone()
            I.assume(st, I.cmp(st, 'eq', 'i32', r, 0), True); st.mon['sg'] = 1
            I.assume(t, I.cmp(t, 'eq', 'i32', r, 0), False); t.mon['sg'] = 2
            return [(r, st), (r, t)]
        return Hash.on_call(self, I, st, ins, name, args)
    def on_store(self, I, st, ins, p, size, val):
        for k, (o, off, c) in enumerate(self.fixed):
            if p.o is o and p.off == off: st.mon['as'] = st.mon.get('as', frozenset()) | {k}
        if size != 8 or not isinstance(p.off, (int, Lin)) or p.o.di is None: return
        n = (I.fieldname(p)[1] or '').split('.')[-1]
        if n not in ('sei', 'write_position'): return
        v = I.resolve(st, val); doc = st.mon.get('doc')
        if n == 'sei' and isinstance(v, Ptr) and v.o.kind == 'heap':
            self.stored += 1
            if st.mon.get('sg') != 1: self.rep(st, 'sei-not-signed', ins, 'a SEI may be kept for output without its hash being handed over for signing')
            if doc is None or v.o is not doc[0] or v.off != doc[1]: self.rep(st, 'hash-of-other-sei', ins, 'the SEI kept for output may not be the one that was hashed')
        if n == 'write_position' and doc is not None and isinstance(v, Ptr) and v.o is doc[0]:
            if not self.eq(st, v.off, ladd(doc[1], doc[2])): self.rep(st, 'data-after-hash', ins, 'the signature may not be written where the hashed part of the SEI ends')
    def key(self, st): return Hash.key(self, st) + (st.mon.get('doc'), st.mon.get('sg'), tuple(sorted(st.mon.get('as', ()))))
    def loaded(self, I, st, ins, p, v):
        for k, (o, off, c) in enumerate(self.fixed):
            if p.o is o and p.off == off and (k == 0 or k in st.mon.get('as', ())): return [(st, c)]
        return Hash.loaded(self, I, st, ins, p, v)

def assigned(P, root, s, off):
    """the constant that is assigned to a member by all functions reached from root, if there is only one"""
    t = getattr(P, '_assigned', None)
    if t is None: t = P._assigned = {}
    if root not in t:
        d = t[root] = {}
        for g in areach(P)[root]:
            f = P.m.funcs.get(g)
            for i in (f.instrs() if f else ()):
                if i.op != 'store': continue
                pl = P.place(f, i.ops[1][1])
                if pl[0] == 'field': d.setdefault((pl[1], pl[2]), []).append((i.ops[0][1], g, i))
    vs = t[root].get((s, off)) or []
    if not vs or not all(v[0] == 'int' for v, _, _ in vs) or len({v[1] for v, _, _ in vs}) != 1: return None
    return vs[0][0][1]

def parse_jobs(P):
    for root in parsers(P):
        for codec in (0, 1):
            for start in ((), (0, 0, 1), (0, 0, 0, 1)):
                for b in range(256):
                    typ = (b & 0x1f) if codec == 0 else (b & 0x7e) >> 1
                    if typ not in SLICES[codec] and typ != SEI[codec]: continue
                    for second in ((0,) if codec == 0 else (1, 2, 3)):
                        head = (b,) if codec == 0 else (b, second)
                        for sl in ((0x80, 0x40) if typ in SLICES[codec] else (4,)):
                            for tr in (0, 1):
                                if not start and codec == 1 and (b, second) == (0, 0): continue
                                yield root, codec, start, head, tr, sl

def run_nalu(res):
    """A05"""
    P = Prog(build('default')); m = P.m
    res.count('functions that describe a NAL unit', len(parsers(P))); res.need('functions that describe a NAL unit', 2)
    pj = list(parse_jobs(P)); n = 24
    its = item_functions(P); res.count('functions that hash a NAL unit for validation', len(its)); res.need('functions that hash a NAL unit for validation', 2)
    jobs = [('parse', pj[k::n]) for k in range(n)]
    jobs += [('item', (f, a, b, c)) for f in its for a, b, c in ((0, 0, 0), (0, 1, 0), (1, 0, 0), (1, 1, 0), (0, 0, 1), (0, 1, 1))]
    for root in ENTRY:
        if root not in m.funcs: raise AnalysisError('%s() not found' % root)
        for first in (True, False):
            for last in (True, False):
                if len(m.funcs[root].params) < 5 and not (first and last): continue
                jobs += [('sign', (root, first, last, g, r)) for g in (False, True) for r in (False, True)]
    def work(j):
        if j[0] == 'parse':
            out = []; cov = set(); k = 0; ex = 0
            for root, codec, start, head, tr, sl in j[1]:
                e, c = parse_run(P, root, codec, start, head, tr, out, sl); cov |= c; k += 1; ex += e
            return j[0], out, cov, set(), (k, ex)
        out, cov, sites, n = (item_run if j[0] == 'item' else sign_run)(P, *j[1])
        return j[0], out, cov, sites, (1, n)
    tot = {}; sites = set()
    for kind, out, cov, ss, (k, ex) in pmap(work, sorted(jobs, key=lambda j: j[0] != 'sign')):
        for f in out: res.add(*f)
        res.functions |= cov; sites |= ss
        a, b = tot.get(kind, (0, 0)); tot[kind] = (a + k, b + ex)
    for kind, t in (('parse', 'header, start code and trailing byte combinations'), ('item', 'validation contexts'), ('sign', 'signing contexts')):
        res.count(t, tot[kind][0]); res.count(t + ': successful outcomes', tot[kind][1]); res.need(t + ': successful outcomes', 8)
    res.count('calls of hash functions reached', len(sites)); res.need('calls of hash functions reached', 4)
    res.rules = ['the description of a NAL unit covers it from its header to its end, trailing zero bytes aside, for every start code and header', 'slices are hashed, and the start of a GOP is recognised exactly',
                 'signing reports success only after the hash of all of the data has been added to the hash of the GOP and to the hash list (unless full), or, for a part, to the hash of the parts', 'the hash of the GOP and of the parts is started once and never restarted',
                 'the hash of a NAL unit to validate covers all of it, together with the reference of its GOP, and that of a SEI everything up to the signature']
    res.assumptions = ['writes to an array stay within that array', 'the stream is given as whole NAL units or consecutive parts of them', 'collision resistance of the hash function']

def run_doc(res):
    """A06"""
    P = Prog(build('default')); m = P.m
    def work(root): return doc_run(P, root)
    for r in DOCS:
        if r not in m.funcs: raise AnalysisError('%s() not found' % r)
    sites = set()
    for out, cov, ss, signed, stored in pmap(work, DOCS):
        for f in out: res.add(*f)
        res.functions |= cov; sites |= ss
        res.count('signing requests on all paths', signed); res.count('SEIs kept for output on all paths', stored)
    res.need('signing requests on all paths', 6); res.need('SEIs kept for output on all paths', 3)
    res.count('calls of hash functions and signing reached', len(sites))
    res.rules = ['what is handed over for signing is the hash of the SEI from its header to where the signature is written, in the size of the hash in use', 'the SEI kept for output is the one that was hashed, and the signature is written where the hashed part ends', 'a SEI is kept for output only if its hash was handed over for signing']
    res.assumptions = ['the hash size of a session does not change once signing has started (property D03)', 'writes to an array stay within that array']

def doc_run(P, root):
    m = P.m; fn = m.funcs[root]; out = []
    mon = Doc(P, root, None, None); mon.setup(out); D = digesters(P)
    reach = lambda n: SIGN in P.reach(n)
    tab = set().union(*P.table_fns.values()) if P.table_fns else set()
    def inline(n, d):
        if reach(n) or n in D or EVP & P.reach(n): return True
        if P.reach(n) & tab: return False
        return True
    I = SInterp(P, mon, inline=inline, maxinline=8, cap=24, steps=1200000)
    I.cpu_limit = time.process_time() + 200; I.joinoff = True
    st = State(); I.stack = [root]; o = session(P, I, st, root)
    h, gi, sd, ln = o['h'], o['gop_info'], o['sign_data'], o['last_nalu']
    V = fields(m, sd.di); G = fields(m, gi.di)
    hs = lin(mksym(('a05', 'hash_size'), 64, 1, 64, 'hash_size')); mon.fixed = [(sd, V['hash_size'][0], hs)]       # cannot change once the session is set up (D03)
    for k in G:
        c = assigned(P, root, (m.md.get(m.di_strip(gi.di)) or {}).get('name'), G[k][0])
        if c is not None: mon.fixed.append((gi, G[k][0], c))
    mon.hs = lambda I, s: hs
    mon.region = lambda I, s: (s.mon['doc'][0], ladd(s.mon['doc'][1], 4), ladd(s.mon['doc'][2], 4, -1)) if s.mon.get('doc') else (None, 0, 0)
    def what(I, s, p, n):
        if p.o.kind != 'heap': return None
        s.mon['doc'] = (p.o, p.off, n)
        return dict(is_valid=1, is_hashable=1, is_gop_sei=1, is_first_nalu_in_gop=0, is_first_nalu_part=1, is_last_nalu_part=1, hashable_data=Ptr(p.o, ladd(p.off, 4)), hashable_data_size=ladd(n, 4, -1))
    for p in parsers(P): parse_summary(P, mon, p, what, False)
    names = I.param_names(fn); over = {names.get(fn.params[0][1], fn.params[0][1]): Ptr(h, 0)}
    I.run(root, over=over, st=st)
    return out, set(I.covered), mon.sites, mon.signed, mon.stored
