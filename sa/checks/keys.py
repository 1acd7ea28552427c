"""A07: another public key than the one in use never goes unnoticed."""
from core import *
from vendor import fields, may
from nulls import nonzero, fkey
from verdict import gate_offset

class Decode(Monitor):
    """one decoding of a public key, with a key already in use"""
    def __init__(self, P, root, F, h, old): self.P = P; self.root = root; self.F = F; self.h = h; self.old = old; self.exits = []; self.sites = set()
    def key(self, st): return (st.mon.get('eq'), st.mon.get('new'), st.mon.get('pem'), st.mon.get('inst'))
    def join_field(self, k, a, b):
        if k in ('eq', 'pem', 'fresh', 'inst'): return a if a == b else None
        if k == 'new': return a or b
        return Monitor.join_field(self, k, a, b)
    def cur(self, I, st):
        v = I.resolve(st, I.load(st, Ptr(self.h, self.F['pem_public_key.key'][0]), 'ptr'))
        return v.o if isinstance(v, Ptr) else None
    def size(self, I, st): return I.resolve(st, I.load(st, Ptr(self.h, self.F['pem_public_key.key_size'][0]), 'i64'))
    def on_alloc(self, I, st, ins, obj): st.mon['fresh'] = obj
    def on_call(self, I, st, ins, name, args):
        if name in ('memcmp', 'CRYPTO_memcmp', 'bcmp'):
            a, b, n = (I.resolve(st, x) for x in args[:3]); out = []
            for r, s in I.external(st, ins, name, args):
                if not isinstance(r, Lin): out.append((r, s)); continue
                t = s.clone(); k = None
                for x, y in ((a, b), (b, a)):
                    if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o.kind == 'heap' and x.o is self.cur(I, s) and s.dflt.get(x.o) == 0: k = 'zero'
                    elif isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is self.old and x.off == 0: k = (y.o, str(y.off), str(n))
                if assume_ne(t, r): t.note(ins.where, '%s() finds a difference' % name); out.append((r, t))
                if k == 'zero': continue          # no public key consists of zeros
                self.sites.add(('compare', ins.fn.name, ins.where))
                if k:
                    sz = self.size(I, s)
                    if is_num(n) and is_num(sz) and prove_le0(s, ladd(n, sz, -1)) and prove_le0(s, ladd(sz, n, -1)): s.mon['eq'] = k; s.note(ins.where, 'the keys are equal')
                out.append((0, s))
            return out
        if name == 'BIO_new_mem_buf':
            k = I.resolve(st, args[0]); r = I.ext_ret(st, ins, name, args); st.null[r.o] = False
            st.mon['pem'] = 'bio' if isinstance(k, Ptr) and k.o is self.cur(I, st) and k.off == 0 else None
            return [(r, st)]
        if name in ('PEM_read_bio_PUBKEY',):
            r = I.ext_ret(st, ins, name, args); t = st.clone(); st.null[r.o] = False
            st.mon['pem'] = ('pkey', r.o) if st.mon.get('pem') == 'bio' else None
            return [(r, st), (0, t)]
        if name in ('EVP_PKEY_CTX_new', 'EVP_PKEY_CTX_new_from_pkey'):
            k = I.resolve(st, args[1 if name.endswith('pkey') else 0]); r = I.ext_ret(st, ins, name, args); t = st.clone(); st.null[r.o] = False
            p = st.mon.get('pem')
            st.mon['pem'] = ('ctx', r.o) if isinstance(p, tuple) and p[0] == 'pkey' and isinstance(k, Ptr) and k.o is p[1] else None
            return [(r, st), (0, t)]
        if name == 'EVP_PKEY_CTX_free': return [(None, st)]
        return None
    def on_copy(self, I, st, ins, p, q, n):
        if p.o is not self.cur(I, st): return
        self.sites.add(('copy', ins.fn.name, ins.where))
        e = st.mon.get('eq')
        if p.o is self.old and e and isinstance(q, Ptr) and e == (q.o, str(q.off), str(I.resolve(st, n))): return
        st.mon['inst'] = None
        if not st.mon.get('new'): st.note(ins.where, 'another key is stored')
        st.mon['new'] = True
    def on_store(self, I, st, ins, p, size, val):
        if p.o is not self.vd or p.off != self.vkey: return
        v = I.resolve(st, val); q = st.mon.get('pem')
        st.mon['inst'] = isinstance(q, tuple) and q[0] == 'ctx' and isinstance(v, Ptr) and v.o is q[1]
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.exits.append((I.resolve(st, ret), st))

def roots(P):
    """the functions in the tables of decoders from which the key of a session is written"""
    m = P.m; W = set()
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op == 'call' and i.x[0] == 'glob' and (i.x[1].startswith('llvm.memcpy') or i.x[1].startswith('llvm.memmove') or i.x[1] in ('memcpy', 'memmove')):
                W.add(f.name)
    dec = set().union(*P.table_fns.values()) if P.table_fns else set()
    out = []
    for f in sorted(dec):
        fn = m.funcs[f]
        if len(fn.params) != 3: continue
        if 'PEM_read_bio_PUBKEY' in P.reach(f): out.append(f)
    return out

def run_keychange(res):
    P = Prog(build('default')); m = P.m
    R = roots(P)
    res.count('decoders of a public key', len(R)); res.need('decoders of a public key', 2)
    def work(j):
        out = []; root = j[1]; fn = m.funcs[root]
        if j[0] == 'lower': return lower(P, root, R)
        names = None
        I0 = SInterp(P, Monitor()); names = I0.param_names(fn)
        nm = lambda k: names.get(fn.params[k][1], fn.params[k][1])
        s = P.ptype(fn, ('loc', fn.params[0][1])); di = P.distruct(s) if s else None
        if not di: raise AnalysisError('%s(): the session was not found' % root)
        F = fields(m, di)
        for k in ('pem_public_key.key', 'pem_public_key.key_size', 'has_public_key', 'latest_validation', 'accumulated_validation', 'verify_data'):
            if k not in F: raise AnalysisError('%s(): member %s of the session not found' % (root, k))
        h = mkobj('session', 'param', di=di); old = mkobj('key in use', 'lazy')
        mon = Decode(P, root, F, h, old)
        I = SInterp(P, mon, inline=lambda n, d: not n.startswith('set_axis') , maxinline=6, cap=40, steps=800000)
        I.cpu_limit = time.process_time() + 120
        st = State(); I.stack = [root]; st.null[h] = False; st.null[old] = False
        I.store(st, Ptr(h, F['pem_public_key.key'][0]), Ptr(old, 0), 8)
        I.store(st, Ptr(h, F['has_public_key'][0]), j[2], 1)
        obj = {}
        for k, sn in (('latest_validation', None), ('accumulated_validation', None), ('verify_data', None)):
            t = m.field_at(di, F[k][0])[1]; d = m.di_pointee(t)
            o = mkobj(k, 'lazy', di=d, parent=(h, F[k][0])); st.null[o] = False; obj[k] = (o, fields(m, d))
            I.store(st, Ptr(h, F[k][0]), Ptr(o, 0), 8)
        for k in ('latest_validation', 'accumulated_validation'): I.store(st, Ptr(obj[k][0], obj[k][1]['public_key_has_changed'][0]), j[3], 1)
        mon.vd, mon.vkey = obj['verify_data'][0], obj['verify_data'][1]['key'][0]
        I.run(root, over={nm(0): Ptr(h, 0)}, st=st)
        at = [i for i in fn.instrs() if i.op == 'ret'][-1].where
        n = 0
        for r, s in mon.exits:
            ok = not nonzero(s, r)
            rep = lambda rule, msg: out.append((rule, at, root, msg, s.path()))
            new = s.mon.get('new')
            cur = mon.cur(I, s)
            if cur is not old and cur is not None and not new: new = ok
            flag = lambda k: I.resolve(s, I.load(s, Ptr(obj[k][0], obj[k][1]['public_key_has_changed'][0]), 'i8'))
            inst = s.mon.get('inst')
            has = I.resolve(s, I.load(s, Ptr(h, F['has_public_key'][0]), 'i8'))
            n += 1
            if j[3]:
                if may(I, s, flag('latest_validation'), 0) or may(I, s, flag('accumulated_validation'), 0): rep('key-change-withdrawn', 'a change of the public key detected earlier may be withdrawn when another key is decoded')
                continue
            if j[2] and new:
                if ok and may(I, s, flag('latest_validation'), 0): rep('key-change-not-flagged', 'another public key than the one in use may be accepted without flagging the change')
                if may(I, s, flag('accumulated_validation'), 0): rep('key-change-not-recorded', 'another public key than the one in use may be stored without the change being recorded for the session')
            if ok and not (new or s.mon.get('eq')): rep('key-not-stored', 'a public key may be received without becoming the one in use')
            elif ok and not inst and (new or not j[2]): rep('key-not-in-use', 'the received public key may not be the one used for verification')
            if ok and may(I, s, has, 0): rep('key-not-remembered', 'a public key may be received without being remembered as the one in use')
        return j, out, set(I.covered), mon.sites, n
    L = lowering(P, R)
    jobs = [('decode', f, h, c) for f in R for h, c in ((0, 0), (1, 0), (1, 1))] + [('lower', f) for f in L]
    for j, out, cov, sites, n in pmap(work, jobs):
        res.functions |= cov
        for r in out: res.add(*r)
        for s in sites: res.seen.setdefault(s[0], set()).add(s[1:])
        res.count('paths through a decoder of a public key' if j[0] == 'decode' else 'paths on which the flag is lowered', n)
    for k, t in (('compare', 'comparisons of keys'), ('copy', 'copies of a received key'), ('lower', 'stores that lower the flag'), ('forget', 'stores that forget the key in use')): res.count(t, len(res.seen.get(k, ())))
    res.need('comparisons of keys', 2); res.need('copies of a received key', 2)
    return res

def stores(P, member, owner=''):
    m = P.m
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != 'store': continue
            pl = P.place(f, i.ops[1][1])
            if pl[0] != 'field': continue
            d = P.distruct(pl[1]); p = (m.field_at(d, pl[2])[0] if d else None) or ''
            if p.split('.')[-1] == member and owner in sname(pl[1]) + p: yield f, i

INIT = ('signed_video_create', 'signed_video_reset', 'legacy_sv_create', 'legacy_sv_reset', 'signed_video_free')
def session(P, f):
    if not f.params: return None
    return P.ptype(f, ('loc', f.params[0][1]))

def lowering(P, R):
    """the functions of the validation that lower the flag or forget the key; those that set up a session are no part of it"""
    setup = set()
    for i in INIT: setup |= P.reach(i) if i in P.m.funcs else set()
    out = []
    for f in sorted(writers(P)):
        if f in INIT: continue
        c = set(P.callers.get(f, ()))
        if f in setup and not (set(R) & P.reach(f)): continue
        d = session(P, P.m.funcs[f]) and P.distruct(session(P, P.m.funcs[f]))
        if d and 'has_public_key' in fields(P.m, d): out.append(f)
    return out

def writers(P):
    return {f.name for f, i in stores(P, 'public_key_has_changed', 'latest') if i.ops[0][1] != ('int', 1)} | {f.name for f, i in stores(P, 'has_public_key') if i.ops[0][1] != ('int', 1)}

def loaders(P, member):
    out = set(); m = P.m
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != 'load': continue
            pl = P.place(f, i.ops[0][1])
            if pl[0] != 'field': continue
            d = P.distruct(pl[1]); p = (m.field_at(d, pl[2])[0] if d else None) or ''
            if p.split('.')[-1] == member: out.add(f.name)
    return out

class Lower(Monitor):
    """the flag is lowered only after the verdict has been derived from it; the key in use is forgotten only if nothing verified with it"""
    def __init__(self, P, R, read, sites): self.P = P; self.R = set(R); self.read = read; self.sites = sites
    def key(self, st): return (st.mon.get('raised'), st.mon.get('has', 1))
    def join_field(self, k, a, b):
        if k == 'raised': return a or b
        if k == 'has': return max(1 if a is None else a, 1 if b is None else b)
        return Monitor.join_field(self, k, a, b)
    def on_call(self, I, st, ins, name, args):
        if name not in self.P.m.funcs: return None
        r = self.P.reach(name)
        if name in self.R or not I.inline(name, 0):
            if self.R & r:
                out = I.summary_call(st, ins, name, args)
                for x, s in out:
                    if s.mon.get('has', 1): s.mon['raised'] = True; s.note(ins.where, '%s() may detect another key' % name)
                return out
            if self.read & r and st.mon.get('raised'): st.mon['raised'] = None
        return None
    def on_load(self, I, st, ins, p, size):
        if ins.fn.name in self.read and (I.fieldname(p)[1] or '').split('.')[-1] == 'public_key_has_changed': st.mon['raised'] = None
    def on_store(self, I, st, ins, p, size, val):
        s, f = I.fieldname(p); f = (f or '').split('.')[-1]
        v = I.resolve(st, val)
        if f == 'public_key_has_changed' and 'latest' in (s or '') + p.o.name and p.o.kind != 'heap' and may(I, st, v, 0):
            self.sites.add(('lower', ins.fn.name, ins.where))
            if st.mon.get('raised'): I.report('key-change-forgotten', ins, 'a detected change of the public key may be forgotten before it is reported', st)
        if f == 'has_public_key' and p.o.kind != 'heap' and may(I, st, v, 0):
            self.sites.add(('forget', ins.fn.name, ins.where))
            g = [I.resolve(st, cells[gate_offset(I, o)][0]) for o, cells in st.mem.items() if gate_offset(I, o) in cells]
            if not g or any(may(I, st, x, 1) for x in g):
                I.report('key-in-use-forgotten', ins, 'the key in use may be forgotten, so that a change of it is not detected, although the signature was not found to be wrong', st)
            st.mon['has'] = 0

def lower(P, root, R):
    m = P.m; fn = m.funcs[root]; sites = set()
    fs = writers(P); hl = loaders(P, 'has_public_key') - set(R)
    # the verdict is derived from the flag in the functions that read it and write the verdict
    av = {f.name for f, i in stores(P, 'authenticity', 'latest')}
    read = (loaders(P, 'public_key_has_changed') & av) - set(R)
    ses = session(P, fn)
    mine = lambda n: session(P, m.funcs[n]) in (ses, None) or n in fs or n in read
    mon = Lower(P, R, read, sites)
    I = SInterp(P, mon, inline=lambda n, d: n not in R and mine(n) and bool(P.reach(n) & (fs | hl)) and n not in INIT, maxinline=7, cap=24, steps=1500000)
    I.cpu_limit = time.process_time() + 200
    names = I.param_names(fn); nm = lambda k: names.get(fn.params[k][1], fn.params[k][1])
    di = P.distruct(ses); F = fields(m, di)
    h = mkobj('session', 'param', di=di); st = State(); st.null[h] = False; I.stack = [root]
    I.store(st, Ptr(h, F['has_public_key'][0]), 1, 1)
    I.run(root, over={nm(0): Ptr(h, 0)}, st=st)
    return ('lower', root), [(r.rule, r.where, r.fname, r.msg, r.path) for r in I.reports.values()], set(I.covered), sites, 1
