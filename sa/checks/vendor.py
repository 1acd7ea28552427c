"""E01: a public key is reported as validated only after its attestation has been verified against the trusted root."""
from core import *
from drive import Discharge
from nulls import fkey, norm, nonzero
from report import enum_value
import re

GET, SET, SETUP = 'get_axis_communications_supplemental_authenticity', 'set_axis_communications_public_key', 'sv_vendor_axis_communications_setup'
HANDLE = '_sv_vendor_axis_communications_t'
EC = 408
NID_SERIAL = 105
# functions that make a verification accept what it would not accept
WEAKEN = {'X509_STORE_CTX_set_verify': 0, 'X509_STORE_CTX_set_verify_cb': 0, 'X509_STORE_CTX_set_error': 0, 'X509_STORE_set_verify': 0, 'X509_STORE_set_verify_cb': 0, 'X509_STORE_CTX_set0_trusted_stack': 0,
          'X509_STORE_load_locations': 0, 'X509_STORE_load_file': 0, 'X509_STORE_load_path': 0, 'X509_STORE_set_default_paths': 0, 'X509_STORE_load_store': 0, 'X509_STORE_CTX_set_cert': 0}

def fields(m, di, base=0, pre=''):
    """{path: (offset, size)} of all members"""
    out = {}
    for o, n, t, sz in m.di_members(m.di_strip(di)):
        p = pre + n; out[p] = (base + o, sz)
        if m.di_members(m.di_strip(t)): out.update(fields(m, t, base + o, p + '.'))
    return out

class Crypto(Monitor):
    """what is known of certificates, keys and contexts on the current path"""
    def __init__(self, P, F, root, hobj, entry): self.P = P; self.F = F; self.root = root; self.h = hobj; self.entry = entry; self.sites = set(); self.exits = []
    def key(self, st):
        return (frozenset(st.mon.get('facts', ())), st.mon.get('sk'), st.mon.get('base'), st.mon.get('serial'), st.mon.get('dv'))
    def join_field(self, k, a, b):
        if k in ('facts',): return (a or frozenset()) & (b or frozenset())
        if k in ('sk', 'base', 'serial'): return a if a == b else None
        return Monitor.join_field(self, k, a, b)
    def facts(self, st): return st.mon.get('facts') or frozenset()
    def add(self, st, *f): st.mon['facts'] = self.facts(st) | set(f)
    def at(self, I, st, v, path):
        """is v the pointer held by, or into, member `path` of the handle?"""
        v = I.resolve(st, v)
        if not isinstance(v, Ptr): return False
        off, sz = self.F[path]
        if v.o is self.h: return isinstance(v.off, int) and off <= v.off < off + sz
        return v.o.parent is not None and v.o.parent[0] is self.h and v.o.parent[1] == off and v.off == 0
    def obj(self, I, st, v):
        v = I.resolve(st, v)
        return v.o if isinstance(v, Ptr) else None
    def outcome(self, I, st, ins, name, args, good, bad='any'):
        """a call that succeeded is told apart from one that did not"""
        (r, s), = I.external(st, ins, name, args)[:1]
        t = s.clone(); out = [(1, s)]
        if not isinstance(r, Lin) or assume_le0(t, r): out.append((r, t))
        s.note(ins.where, '%s() == 1' % name)
        return out
    def on_call(self, I, st, ins, name, args):
        o = lambda k: self.obj(I, st, args[k])
        if name in self.P.m.funcs or name.startswith('llvm.'): return None
        lab = self.facts(st)
        def label(x, kind):
            for f in lab:
                if f[0] == kind and f[1] is x: return f[2]
            return None
        self.sites.add((name, ins.fn.name, ins.where))
        if name in WEAKEN:
            self.add(st, ('weak', o(WEAKEN[name]), 1)); return None
        if name == 'X509_STORE_add_cert':
            store, good = o(0), self.at(I, st, args[1], self.F['trusted'])
            out = self.outcome(I, st, ins, name, args, None)
            for r, s in out:
                if not good: self.add(s, ('weak', store, 1))
                elif r == 1: self.add(s, ('trust', store, 1))
            return out
        if name == 'X509_STORE_CTX_init':
            ctx, store, cert = o(0), o(1), o(2)
            out = self.outcome(I, st, ins, name, args, None)
            if out[0][0] == 1: self.add(out[0][1], ('ctx', ctx, (store, cert)))
            return out
        if name == 'X509_verify_cert':
            ctx = o(0); sc = label(ctx, 'ctx')
            out = self.outcome(I, st, ins, name, args, None)
            if sc and sc[1] is None: return out[1:]           # there is nothing to verify
            if sc and label(sc[0], 'trust') and not label(sc[0], 'weak') and not label(ctx, 'weak'): self.add(out[0][1], ('chain', sc[1], 1))
            return out
        if name == 'OPENSSL_sk_push':
            if st.mon.get('sk') in (None, 'empty'): st.mon['sk'] = (o(0), o(1))
            r = I.ext_ret(st, ins, name, args)
            return [(r, st)]
        if name == 'OPENSSL_sk_value':
            sk = st.mon.get('sk')
            if sk == 'empty': return [(0, st)]
            if I.resolve(st, args[1]) == 0 and sk and sk[0] is o(0) and sk[1] is not None: return [(Ptr(sk[1], 0), st)]
            return [(I.ext_ret(st, ins, name, args), st)]
        if name in ('OPENSSL_sk_insert', 'OPENSSL_sk_unshift', 'OPENSSL_sk_shift', 'OPENSSL_sk_delete', 'OPENSSL_sk_set', 'OPENSSL_sk_sort'):
            st.mon['sk'] = (None, None); return None
        if name in ('OPENSSL_sk_new_null', 'OPENSSL_sk_new'):
            st.mon['sk'] = 'empty'; return None
        if name == 'OPENSSL_sk_zero': st.mon['sk'] = 'empty'; return [(None, st)]
        if name in ('PEM_read_bio_X509', 'PEM_read_bio_X509_AUX', 'd2i_X509_bio'):
            r = I.ext_ret(st, ins, name, args); t = st.clone(); st.null[r.o] = False
            return [(r, st), (0, t)]
        if name in ('X509_get0_pubkey', 'X509_get_pubkey', 'X509_get_X509_PUBKEY'):
            c = o(0); r = I.ext_ret(st, ins, name, args); t = st.clone(); st.null[r.o] = False
            self.add(st, ('pk', r.o, c)); return [(r, st), (0, t)]
        if name in ('EVP_DigestVerifyInit', 'EVP_DigestVerifyInit_ex'):
            md = o(0); c = label(o(4), 'pk')
            out = self.outcome(I, st, ins, name, args, None)
            s = out[0][1]
            s.mon['facts'] = frozenset(f for f in self.facts(s) if not (f[0] == 'md' and f[1] is md))
            if c is not None: self.add(s, ('md', md, c))
            return out
        if name == 'X509_get_subject_name':
            c = o(0); r = I.ext_ret(st, ins, name, args); self.add(st, ('nm', r.o, (c, None))); return [(r, st)]
        if name == 'X509_NAME_get_index_by_NID':
            c = label(o(0), 'nm'); r = I.ext_ret(st, ins, name, args)
            if c and isinstance(r, Lin): self.add(st, ('idx', one_sym(r)[0], I.resolve(st, args[1])))
            return [(r, st)]
        if name == 'X509_NAME_get_entry':
            c = label(o(0), 'nm'); i = I.resolve(st, args[1]); r = I.ext_ret(st, ins, name, args)
            k = one_sym(i) if isinstance(i, Lin) else None
            if c and k: self.add(st, ('nm', r.o, (c[0], label(k[0], 'idx'))))
            return [(r, st)]
        if name == 'X509_NAME_ENTRY_get_data':
            c = label(o(0), 'nm'); r = I.ext_ret(st, ins, name, args)
            if c: self.add(st, ('nm', r.o, c))
            return [(r, st)]
        if name == 'ASN1_STRING_to_UTF8':
            c = label(o(1), 'nm')
            b = mkobj('utf8@%s' % ins.where, 'lazy'); st.null[b] = False
            p = I.resolve(st, args[0])
            r = I.ext_ret(st, ins, name, args); t = st.clone(); out = []
            if assume_le0(t, r): out.append((r, t))
            if assume_le0(st, ladd(1, r, -1)):
                if isinstance(p, Ptr): I.store(st, p, Ptr(b, 0), 8)
                if c: self.add(st, ('nm', b, c))
                out.append((r, st))
            return out
        if name == 'EVP_PKEY_CTX_get0_pkey':
            sess = self.at(I, st, args[0], self.F['key']) or self.obj(I, st, args[0]) is getattr(self, 'param', 0)
            r = I.ext_ret(st, ins, name, args); t = st.clone(); st.null[r.o] = False
            if sess: self.add(st, ('sess', r.o, 1))
            return [(r, st), (0, t)]
        if name == 'EVP_PKEY_get1_encoded_public_key' or name == 'EVP_PKEY_get1_tls_encodedpoint':
            sess = label(o(0), 'sess'); p = I.resolve(st, args[1])
            b = mkobj('encoded key@%s' % ins.where, 'lazy'); st.null[b] = False
            if isinstance(p, Ptr): I.store(st, p, Ptr(b, 0), 8)
            r = I.ext_ret(st, ins, name, args); assume_le0(st, ladd(r, -100000)); assume_le0(st, lscale(r, -1))
            if sess: self.add(st, ('enc', b, one_sym(r)[0]))
            return [(r, st)]
        if name in ('EVP_DigestVerify', 'EVP_DigestVerifyFinal'):
            md = o(0); why = []
            c = label(md, 'md')
            if c is None: why.append('the verification context is not initialised with the key of a certificate')
            elif not label(c, 'chain'): why.append('the certificate of the attestation key has not been verified')
            if name == 'EVP_DigestVerify':
                tbs = I.resolve(st, args[3]); n = I.resolve(st, args[4])
                got = [f for f in lab if f[0] == 'part' and isinstance(tbs, Ptr) and f[1] in (tbs.o, None)]
                if not any(f[2][0] == 'key' and self.inside(I, st, f[2], tbs, n) for f in got): why.append('the signed data does not hold the whole public key in use')
                if not any(f[2][0] == 'chip' and self.inside(I, st, f[2], tbs, n) for f in got): why.append('the signed data does not hold the chip identity of the certificate')
            r = I.ext_ret(st, ins, name, args)
            a, b = st.clone(), st.clone()
            out = [(1, a), (0, b)]
            if assume_le0(st, ladd(r, 1)): out.append((r, st))
            a.mon['dv'] = 1; b.mon['dv'] = 0; st.mon['dv'] = -1
            if not why: self.add(a, ('attested', None, 1))
            else: a.mon['why'] = '; '.join(why)
            return out
        if name in ('EVP_PKEY_get_base_id', 'EVP_PKEY_base_id', 'EVP_PKEY_get_id', 'EVP_PKEY_id'):
            x = o(0); k = label(x, 'base')
            if k == 'ec': return [(EC, st)]
            r = I.ext_ret(st, ins, name, args); t = st.clone()
            self.add(st, ('base', x, 'ec')); st.note(ins.where, 'the key is an EC key')
            if k == 'other': return [(r, t)] if assume_ne(t, ladd(r, -EC)) else []
            if assume_ne(t, ladd(r, -EC)): self.add(t, ('base', x, 'other')); return [(EC, st), (r, t)]
            return [(EC, st)]
        if name == 'EVP_PKEY_get_group_name':
            x = o(0); buf = o(1)
            out = self.outcome(I, st, ins, name, args, None)
            self.add(out[0][1], ('group', buf, x))
            return out
        if name in ('strcmp', 'strncmp', 'strcasecmp', 'memcmp'):
            a, b = I.resolve(st, args[0]), I.resolve(st, args[1])
            rs = I.external(st, ins, name, args); out = []
            for r, s in rs:
                if not isinstance(r, Lin): out.append((r, s)); continue
                t = s.clone()
                if assume_ne(t, r): out.append((r, t))
                for u, v in ((a, b), (b, a)):
                    g = label(u.o, 'group') if isinstance(u, Ptr) else None
                    if g is not None and I.cstr(v) == b'prime256v1': self.add(s, ('p256', g, 1))
                    c = label(v.o, 'nm') if isinstance(v, Ptr) else None
                    if c and isinstance(u, Ptr) and self.at(I, s, u, self.F['serial']) and name == 'strcmp': s.mon['serial'] = c
                out.append((0, s))
            return out
        # copies into the serial number
        if args and any(self.at(I, st, a, self.F['serial']) for a in args[:1]) and name not in ('strlen', 'strstr', 'memset'):
            c = None
            for a in args[1:]:
                x = self.obj(I, st, a)
                if x is not None and label(x, 'nm'): c = label(x, 'nm')
            st.mon['serial'] = c
        return None
    def inside(self, I, st, f, tbs, n):
        kind, off, ln, sym = f
        if sym is not None:
            lo, hi = iv_sym(st, sym.n)
            if not (isinstance(ln, int) and lo <= hi <= ln): return False
        if not isinstance(off, int) or not isinstance(ln, int): return True
        return isinstance(tbs.off, int) and isinstance(n, int) and tbs.off <= off and off + ln <= tbs.off + n
    def target(self, p):
        """the object written; None for a pointer that moved in a loop"""
        return None if p.o.name.startswith('J(') else p.o
    def on_copy(self, I, st, ins, p, q, n):
        n = I.resolve(st, n)
        d = self.target(p)
        if isinstance(n, Lin) and iv(st, n)[0] == iv(st, n)[1]: n = iv(st, n)[0]
        for f in self.facts(st):
            if f[0] == 'enc' and f[1] is q.o and q.off == 0: self.add(st, ('part', d, ('key', p.off if d and isinstance(p.off, int) else None, n, f[2])))
            if f[0] == 'nm' and f[1] is q.o and self.at(I, st, p, self.F['serial']): st.mon['serial'] = f[2]
        off, sz = self.F['chip_id']
        if q.o is self.h and q.off == off and n == sz: self.add(st, ('part', d, ('chip', p.off if d and isinstance(p.off, int) else None, n, None)))
    def loaded(self, I, st, ins, p, v):
        # data copied byte by byte
        for f in self.facts(st):
            if f[0] == 'enc' and f[1] is p.o: st.mon['bytes'] = ('key', f[2])
        off, sz = self.F['chip_id']
        if p.o is self.h and (not isinstance(p.off, int) or off <= p.off < off + sz) and ins.ty == 'i8': st.mon['bytes'] = ('chip', None)
        return [(st, v)]
    def on_store(self, I, st, ins, p, size, val):
        b = st.mon.get('bytes')
        if b and size == 1 and (p.o.kind in ('heap', 'stack') or not self.target(p)) and one_sym(I.resolve(st, val)): self.add(st, ('part', self.target(p), (b[0], None, None, None)))
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.exits.append((I.resolve(st, ret), st))
    def value(self, I, st, path, ty='i32'):
        v = I.load(st, Ptr(self.h, self.F[path][0]), ty)
        if isinstance(v, list): v = v[0]
        return I.resolve(st, v)

def may(I, st, v, k):
    if isinstance(v, int): return v == k
    if isinstance(v, Cond): return k in (0, 1)
    if not is_num(v): return True
    lo, hi = iv(st, v)
    return lo <= k <= hi and not (one_sym(v) and k - one_sym(v)[1] in st.ne.get(one_sym(v)[0].n, ()))

def layout(P):
    m = P.m
    di = P.distruct(HANDLE)
    if not di: raise AnalysisError('the vendor handle was not found')
    F = fields(m, di)
    def tail(n):
        c = [p for p in F if p.split('.')[-1] == n]
        if len(c) != 1: raise AnalysisError('member %s of the vendor handle not found' % n)
        return c[0]
    G = {p: F[p] for p in F}
    val, ser, chip, key = tail('public_key_validation'), tail('serial_number'), tail('chip_id'), tail('public_key')
    F['chip_id'] = F[chip]; F['trusted'] = None; F['key'] = key; F['serial'] = ser; F['val'] = val
    F[val] = G[val]
    return di, F

def trusted_member(P, di, F, res):
    """the member that the setup fills with the certificate built from a constant, and that nothing else writes"""
    m = P.m
    f = m.funcs.get(SETUP)
    if not f: raise AnalysisError('%s() not found' % SETUP)
    class Mon(Monitor):
        def __init__(s): s.hit = []; s.other = []
        def key(s, st): return (st.mon.get('bio'),)
        def join_field(s, k, a, b): return (a if a == b else None) if k in ('bio', 'cert') else Monitor.join_field(s, k, a, b)
        def on_call(s, I, st, ins, name, args):
            if name in ('BIO_puts', 'BIO_write', 'BIO_new_mem_buf') and args:
                src = I.resolve(st, args[0] if name == 'BIO_new_mem_buf' else args[1])
                c = I.cstr(src)
                if c and b'BEGIN CERTIFICATE' in c:
                    if name == 'BIO_new_mem_buf':
                        r = I.ext_ret(st, ins, name, args); st.mon['bio'] = r.o; return [(r, st)]
                    b = I.resolve(st, args[0]); st.mon['bio'] = b.o if isinstance(b, Ptr) else None
            if name == 'PEM_read_bio_X509':
                b = I.resolve(st, args[0]); r = I.ext_ret(st, ins, name, args)
                st.mon['cert'] = r.o if isinstance(b, Ptr) and b.o is st.mon.get('bio') else None
                return [(r, st)]
            return None
        def on_store(s, I, st, ins, p, size, val):
            v = I.resolve(st, val)
            if isinstance(v, Ptr) and v.o is st.mon.get('cert') and p.o.kind != 'stack' and isinstance(p.off, int): s.hit.append((p.off, ins))
    mon = Mon()
    I = SInterp(P, mon, inline=lambda n, d: True, cap=16, steps=500000); I.run(SETUP)
    res.functions |= set(I.covered)
    offs = {o for o, i in mon.hit}
    if len(offs) != 1: raise AnalysisError('%s(): the member holding the trusted certificate was not found' % SETUP)
    off = offs.pop()
    path = [p for p in F if isinstance(F[p], tuple) and F[p][0] == off and F[p][1] == 8]
    if not path: raise AnalysisError('trusted certificate: no member at offset %d' % off)
    for g in m.funcs.values():
        for i in g.instrs():
            if i.op != 'store': continue
            pl = P.place(g, i.ops[1][1])
            if pl[0] == 'field' and sname(pl[1]) == HANDLE and pl[2] == off:
                res.count('stores to the trusted certificate')
                if i not in [x for _, x in mon.hit] and i.ops[0][1] != ('null',) and g.name not in P.reach(SETUP):
                    res.add('trusted-root-replaced', i.where, g.name, 'the trusted certificate is replaced outside the setup of the vendor handle')
    F['trusted'] = path[0]
    return path[0]

def run_one(P, F, di, root, entry, key=None, changed=None):
    m = P.m; fn = m.funcs[root]
    h = mkobj('handle', 'param', di=di)
    mon = Crypto(P, F, root, h, entry)
    I = SInterp(P, mon, inline=lambda n, d: True, maxinline=8, cap=40, steps=1500000)
    I.cpu_limit = time.process_time() + 200
    st = State()
    I.stack = [root]
    I.store(st, Ptr(h, F[F['val']][0]), entry, 4)
    names = I.param_names(fn)
    nm = lambda k: names.get(fn.params[k][1], fn.params[k][1])
    over = {nm(0): Ptr(h, 0)}
    st.null[h] = False
    if key is not None:
        if key: 
            k = mkobj('earlier key', 'lazy', parent=None); st.null[k] = False
            I.store(st, Ptr(h, F[F['key']][0]), Ptr(k, 0), 8)
        else: I.store(st, Ptr(h, F[F['key']][0]), 0, 8)
        over[nm(2)] = changed
        mon.param = mkobj('key', 'param'); st.null[mon.param] = False
        over[nm(1)] = Ptr(mon.param, 0)
    I.run(root, over=over, st=st)
    return I, mon

class Adopt(Monitor):
    """the vendor's result is adopted by the report"""
    def __init__(self, P, ok, sites): self.P = P; self.ok = ok; self.sites = sites
    def key(self, st): return (st.mon.get('got'), st.mon.get('one'), st.mon.get('ser'), st.mon.get('told'))
    def join_field(self, k, a, b):
        if k in ('got', 'one', 'ser', 'told'): return a if a == b else None
        return Monitor.join_field(self, k, a, b)
    def on_call(self, I, st, ins, name, args):
        if name == GET:
            self.sites.add(('get', ins.fn.name, ins.where))
            h = mkobj('vendor handle', 'lazy', di=self.P.distruct(HANDLE)); st.null[h] = False
            p = I.resolve(st, args[1])
            off = I.prog._vendor['val'] if False else None
            o = mkobj('supplemental authenticity@%s' % ins.where, 'lazy', di=self.P.distruct('sv_vendor_axis_supplemental_authenticity_t'))
            st.mem.pop(o, None); st.null[o] = False
            if isinstance(p, Ptr): I.store(st, p, Ptr(o, 0), 8)
            r = I.ext_ret(st, ins, name, args); t = st.clone()
            st.mon['got'] = o; st.mon['one'] = st.mon['ser'] = None
            t.mon['got'] = None
            return [(0, st)] + ([(r, t)] if assume_ne(t, r) else [])
        if name == SET:
            self.sites.add(('set', ins.fn.name, ins.where))
            k = I.resolve(st, args[1])
            cur = isinstance(k, Ptr) and k.o.parent is not None and self.where(I, k.o.parent) == 'key'
            r = I.ext_ret(st, ins, name, args); t = st.clone()
            st.mon['told'] = True if cur else None
            return [(0, st)] + ([(r, t)] if assume_ne(t, r) else [])
        if name in self.P.m.funcs and 'openssl_public_key_malloc' in self.P.reach(name) and not I.inline(name, 0): st.mon['told'] = None
        if name in ('strcmp', 'strncmp'):
            a, b = I.resolve(st, args[0]), I.resolve(st, args[1]); out = []
            for r, s in I.external(st, ins, name, args):
                if not isinstance(r, Lin): out.append((r, s)); continue
                t = s.clone()
                if assume_ne(t, r): out.append((r, t))
                f = [self.ser(I, s, x) for x in (a, b)]
                if name == 'strcmp' and sorted(x or '' for x in f) == ['product', 'vendor']: s.mon['ser'] = True
                out.append((0, s))
            return out
        return None
    def where(self, I, par):
        s, f = I.fieldname(Ptr(par[0], par[1]))
        return (f or '').split('.')[-1]
    def ser(self, I, st, p):
        if not isinstance(p, Ptr): return None
        if p.o is st.mon.get('got'): return 'vendor' if (I.fieldname(p)[1] or '').split('[')[0] == 'serial_number' else None
        if p.o.parent is not None and self.where(I, p.o.parent) == 'serial_number': return 'product'
        return None
    def loaded(self, I, st, ins, p, v):
        if p.o is st.mon.get('got') and (I.fieldname(p)[1] or '').endswith('public_key_validation') and isinstance(v, Lin):
            t = st.clone(); out = []
            if assume_le0(st, ladd(v, -1)) and assume_le0(st, ladd(1, v, -1)): st.mon['one'] = True; out.append((st, 1))
            if assume_ne(t, ladd(v, -1)): t.mon['one'] = False; out.append((t, v))
            return out
        return [(st, v)]
    def on_store(self, I, st, ins, p, size, val):
        s, f = I.fieldname(p); s = s or ''; f = (f or '').split('.')[-1]
        if f != 'public_key_validation' or not 'latest_validation' in s or p.o.kind == 'heap': return
        v = I.resolve(st, val)
        if not may(I, st, v, self.ok): return
        self.sites.add(('ok', ins.fn.name, ins.where))
        why = []
        if st.mon.get('got') is None: why.append('the vendor has not validated it')
        elif not st.mon.get('one'): why.append('the vendor did not find it valid')
        if not st.mon.get('ser'): why.append('the serial number is not the one of the certificate')
        if not st.mon.get('told'): why.append('the key given to the vendor may not be the one in use')
        if why: I.report('key-reported-valid', ins, 'the public key may be reported as validated although ' + ', and '.join(why), st)

def run_vendor(res):
    P = Prog(build('default')); m = P.m
    for f in (GET, SET, SETUP):
        if f not in m.funcs: raise AnalysisError('%s() not found' % f)
    di, F = layout(P)
    trusted_member(P, di, F, res)
    at = lambda f: [i for i in m.funcs[f].instrs() if i.op == 'ret'][-1]
    def work(j):
        out = []
        if j[0] == 'get':
            I, mon = run_one(P, F, di, GET, j[1])
            n = 0
            for r, st in mon.exits:
                v = mon.value(I, st, F['val'])
                fs = {f[0] for f in mon.facts(st)}
                if j[1] == 0 and v != 0: out.append(('failed-validation-forgotten', at(GET).where, GET, 'an earlier failed validation of the public key may turn into %r' % (v,), st.path()))
                if nonzero(st, r): continue
                if may(I, st, v, 1):
                    n += 1
                    if 'attested' not in fs: out.append(('unverified-key-valid', at(GET).where, GET, 'the public key may be taken as valid without a verified attestation%s' % (': ' + st.mon['why'] if st.mon.get('why') else ''), st.path()))
                    s = st.mon.get('serial')
                    if not s or s[1] != NID_SERIAL or not any(f[0] == 'chain' and f[1] is s[0] for f in mon.facts(st)):
                        out.append(('serial-not-from-certificate', at(GET).where, GET, 'the serial number may not be the one of the verified certificate', st.path()))
            return j, out, set(I.covered), mon.sites, n
        if j[0] == 'set':
            I, mon = run_one(P, F, di, SET, j[1], key=j[2], changed=j[3])
            for r, st in mon.exits:
                v = mon.value(I, st, F['val']); k = mon.value(I, st, F['key'], 'ptr')
                if j[1] == 0 and v != 0: out.append(('failed-validation-forgotten', at(SET).where, SET, 'setting a key may turn an earlier failed validation into %r' % (v,), st.path()))
                if j[2] and j[3] and v != 0: out.append(('changed-key-valid', at(SET).where, SET, 'a changed public key may be left with the validation result %r' % (v,), st.path()))
                if v != j[1] and v != 0: out.append(('unverified-key-valid', at(SET).where, SET, 'setting a key may turn the validation result %r into %r' % (j[1], v), st.path()))
                if v != 0 and not nonzero(st, r):
                    ok = any(f[0] == 'p256' for f in mon.facts(st)) and not any(f[0] == 'base' and f[2] == 'other' for f in mon.facts(st))
                    if not ok: out.append(('key-type-not-checked', at(SET).where, SET, 'a public key that is no NIST P-256 key may be left with the validation result %r' % (v,), st.path()))
                if not nonzero(st, r) and not (k == 0 or isinstance(k, Ptr) and (k.o is mon.param or I.nullness(st, k) is True)):
                    out.append(('stale-key', at(SET).where, SET, 'the vendor may go on using an earlier key', st.path()))
            return j, out, set(I.covered), mon.sites, len(mon.exits)
        sites = set()
        D = Discharge(P, lambda: Adopt(P, pkok, sites), inline=lambda n: GET in P.callees.get(n, ()), cap=24, maxlevels=2); D.run_cpu = 40; D.site_cpu = 80
        rep = D.site(j[1])
        return j, [(r.rule, r.where, r.fname, r.msg, r.path) for r in rep], D.analysed | D.covered, sites, D.runs
    pkok = enum_value(m, 'SV_PUBKEY_VALIDATION_OK')
    if pkok is None: raise AnalysisError('SV_PUBKEY_VALIDATION_OK not found')
    writers = set()
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != 'store': continue
            pl = P.place(f, i.ops[1][1])
            if pl[0] != 'field': continue
            d = P.distruct(pl[1]); p = (m.field_at(d, pl[2])[0] if d else None) or ''
            if p.split('.')[-1] == 'public_key_validation' and 'latest' in sname(pl[1]) + p:
                if i.ops[0][1][0] == 'int' and i.ops[0][1][1] != pkok: continue
                writers.add(f.name)
            if p.split('.')[-1] == 'public_key_validation' and ('supplemental' in sname(pl[1]) + p):
                res.count('stores to the vendor result')
                if f.name not in P.reach(GET) | P.reach(SET):
                    if not (i.ops[0][1][0] == 'int' and i.ops[0][1][1] in (-1, 0)):
                        res.add('unverified-key-valid', i.where, f.name, 'the validation result of the vendor is written outside the validation of the key')
    jobs = [('get', v) for v in (-1, 0, 1)] + [('set', v, k, c) for v in (-1, 0, 1) for k in (0, 1) for c in (0, 1)] + [('adopt', f) for f in sorted(writers)]
    for j, out, cov, sites, n in pmap(work, jobs):
        res.functions |= cov
        for r in out: res.add(*r)
        for s in sites: res.seen.setdefault(s[0], set()).add(s[1:])
        res.count({'get': 'paths on which the key is found valid', 'set': 'paths that set a key', 'adopt': 'analysis runs of functions that report the result'}[j[0]], n)
    for k in ('X509_verify_cert', 'EVP_DigestVerify'): res.count('%s() sites' % k, len(res.seen.get(k, ())))
    res.count('stores that report the key as validated', len(res.seen.get('ok', ())))
    res.need('stores that report the key as validated', 2); res.need('paths on which the key is found valid', 1); res.need('X509_verify_cert() sites'); res.need('stores to the vendor result')
    return res
