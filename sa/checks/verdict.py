"""Signature gate and hash-comparison gate of per-NALU verdicts (properties A01, A02)."""
from core import *
from drive import Discharge

AUTH = 46   # '.'
FIELD_OF_SYM = {}
JSEI = {}       # object standing for a joined item pointer -> every joined item is known to be a SEI
ORIGIN = {}     # object standing for a joined pointer -> fields it may point into

def fld(I, p):
    """(struct, field) of a pointer"""
    s, f = I.fieldname(p)
    return (s or '', (f or '').split('[')[0])

def may_be(I, st, v, k):
    v = I.resolve(st, v)
    if isinstance(v, int): return v == k
    if isinstance(v, Cond): return k in (0, 1)
    if is_num(v):
        lo, hi = iv(st, v)
        if not lo <= k <= hi: return False
        if isinstance(v, Lin) and len(v.t) == 1 and v.t[0][1] == 1 and (k - v.c) in st.ne.get(v.t[0][0], ()): return False
        return True
    return True

class Base(Monitor):
    """records which comparison results are in force"""
    def key(self, st): return st.mon.get('nmark', False)
    def loaded(self, I, st, ins, p, v):
        o = one_sym(v) if isinstance(v, Lin) else None
        if o and o[1] == 0:
            s, f = fld(I, p)
            if f: FIELD_OF_SYM[o[0].n] = (s, f)
        return [(st, v)]
    def join_field(self, k, a, b):
        if k == 'cmp':
            a = a or {}; b = b or {}
            out = dict(a)
            for x, y in b.items():
                z = out.get(x)
                if z is None or z == y: out[x] = y
                else: out[x] = (tuple(sorted(set(z[0]) | set(y[0]))), tuple(sorted(set(z[1]) | set(y[1]))), z[2] if z[2] == y[2] else ('mixed',), z[3])
            return out
        if k == 'nmark': return bool(a) and bool(b)
        return Monitor.join_field(self, k, a, b)

    def joined_ptr(self, I, o, sa, a, sb, b):
        e = ORIGIN.setdefault(o, set())
        for s, x in ((sa, a), (sb, b)):
            if isinstance(x, Ptr) and not (x.o is o and x.off == 0): e.update(self.operand(I, s, x))
    def operand(self, I, st, p):
        """field name set a compared pointer belongs to"""
        p = I.resolve(st, p)
        if not isinstance(p, Ptr): return ()
        al = st.alts.get(p.o)
        if al:
            out = ()
            for a in al:
                out += self.operand(I, st, Ptr(a.o, ladd(a.off, p.off)) if isinstance(a, Ptr) else a)
            return tuple(sorted(set(out)))
        if p.o in ORIGIN and p.off == 0: return tuple(sorted(ORIGIN[p.o]))
        s, f = fld(I, p)
        if p.o.kind == 'stack': return (('local', 'zero' if self.zero(st, p.o) else p.o.name.split(':')[-1]),)
        if p.o.parent is not None and (not f or f == '' or p.o.di is None or not I.mod.di_members(p.o.di)):
            ps, pf = fld(I, Ptr(p.o.parent[0], p.o.parent[1]))
            return ((ps, pf),)
        return ((s, f),)
    def zero(self, st, o):
        d = st.dflt.get(o)
        if d == 0: return True
        if isinstance(d, tuple) and d and d[0][2] == 0: return True
        return False

    def on_call(self, I, st, ins, name, args):
        if name in ('memcmp', 'CRYPTO_memcmp', 'bcmp'):
            rs = I.external(st, ins, 'memcmp', args)
            for r, s in rs:
                n = one_sym(r)[0].n
                c = dict(s.mon.get('cmp', {}))
                c[n] = (self.operand(I, s, args[0]), self.operand(I, s, args[1]), self.size(I, s, args[2]), ins.where)
                s.mon['cmp'] = c
            return rs
        return None
    def size(self, I, st, n):
        if isinstance(n, int): return ('const', n)
        o = one_sym(n) if isinstance(n, Lin) else None
        if o and o[1] == 0 and o[0].n in FIELD_OF_SYM: return ('field',) + FIELD_OF_SYM[o[0].n]
        if o and o[1] != 0 and o[0].n in FIELD_OF_SYM: return ('short', o[1]) + FIELD_OF_SYM[o[0].n]
        return ('expr', repr(n))
    def facts(self, st):
        """comparisons known to have come out equal"""
        out = []
        for n, f in st.mon.get('cmp', {}).items():
            lo, hi = iv_sym(st, n)
            if lo == hi == 0 and f: out.append(f)
        return out


_GOFF = {}
def gate_offset(I, o):
    """offset of the signature verification result inside objects of o's type"""
    if o.di is None: return None
    if o.di not in _GOFF:
        r = None
        for off, n, t, sz in I.mod.di_members(I.mod.di_strip(o.di)) or ():
            if n == 'verified_signature_hash': r = off
        _GOFF[o.di] = r
    return _GOFF[o.di]

def gate_value(I, st):
    """interval of every verified_signature_hash cell known in the state"""
    out = []
    for o, cells in st.mem.items():
        off = gate_offset(I, o)
        if off is None: continue
        c = cells.get(off)
        if c is not None:
            x = I.resolve(st, c[0])
            out.append(iv(st, x) if is_num(x) else (-BIG, BIG))
    return out

def is_status(f): return f == 'validation_status' or f.endswith('.validation_status')

class Gate(Base):
    """A01: an item becomes authentic only while the signature verification result is exactly 1"""
    def key(self, st): return any(x == (1, 1) for x in gate_value(self.I, st))
    def on_enter(self, I, st, fn, args): self.I = I
    def __init__(self, sites): self.sites = sites
    def on_store(self, I, st, ins, p, size, val):
        s, f = fld(I, p)
        if not is_status(f) or 'item' not in s: return
        if not may_be(I, st, val, AUTH): return
        self.sites.add((ins.fn.name, ins.where))
        g = gate_value(I, st)
        if any(x == (1, 1) for x in g): return
        I.report('authentic-without-verified-signature', ins,
                 'a NALU may be marked authentic although the signature verification result is not known to be 1 here (known: %s)' % (g or 'nothing'), st)

FULL = ('hash_size',)
def full(sz): return sz[0] == 'field' and sz[2].split('.')[-1] in FULL

class HashGate(Base):
    """A02: a non-SEI item becomes authentic only after full-length equal comparison(s)"""
    def __init__(self, sites, used): self.sites = sites; self.used = used
    def key(self, st):
        return (bool(st.mon.get('nmark')), tuple(sorted((f[0], f[1]) for f in self.facts(st))), any(x == (1, 1) for x in gate_value(self.I, st)))
    def on_enter(self, I, st, fn, args): self.I = I
    def flag(self, I, st, o, name):
        for off, (v, sz) in st.mem.get(o, {}).items():
            if isinstance(off, int) and fld(I, Ptr(o, off))[1] == name:
                x = I.resolve(st, v)
                return isinstance(x, Cond) is False and is_num(x) and iv(st, x)[0] >= 1
        return False
    def on_store(self, I, st, ins, p, size, val):
        s, f = fld(I, p)
        if not is_status(f) or 'item' not in s: return
        v = I.resolve(st, val)
        if not may_be(I, st, val, AUTH):
            if isinstance(v, int) and v in (78, 69): st.mon['nmark'] = True
            return
        legacy = 'legacy' in s
        self.sites.add((ins.fn.name, ins.where))
        if self.is_sei(I, st, p.o) or self.golden(I, st): return
        fs = self.facts(st)
        for x in fs: self.used.add((x[0], x[1], x[2], x[3]))
        def has(a, b):
            for x in fs:
                A = {f.split('.')[-1] for _, f in x[0]}; B = {f.split('.')[-1] for _, f in x[1]}
                if (A and B and A <= a and B <= b) or (A and B and A <= b and B <= a):
                    if full(x[2]): return True
            return False
        gop = has({'computed_gop_hash'}, {'received_gop_hash'})
        link = has({'linked_hashes'}, {'received_linked_hash'}) or has({'linked_hashes'}, {'zero'})
        lst = has({'hash', 'second_hash'}, {'hash_list'})
        ok = (gop and link) or (lst and (link or legacy or st.mon.get('nmark')))
        if legacy and not ok:
            # legacy GOP hash mode: the verified signature is over the hash of exactly the items used in it
            ok = any(x == (1, 1) for x in gate_value(I, st)) and self.flag(I, st, p.o, 'used_in_gop_hash')
        if not ok:
            I.report('authentic-without-hash-match', ins,
                     'a NALU may be marked authentic without a full-length matching hash comparison in force (equal here: %s%s)' %
                     (sorted({'/'.join(f for _, f in x[0]) + '==' + '/'.join(f for _, f in x[1]) + ' over ' + str(x[2][-1]) for x in fs}) or 'nothing',
                      '' if link or not lst else '; GOP order not established'), st)
    def on_call(self, I, st, ins, name, args):
        if name in I.mod.funcs:
            # remember which items are known to be signed-video SEIs before a callee's writes are summarised
            for o in st.mem:
                if o.di and 'item' in (I.struct_of(o) or '') and o not in st.mon.get('sei', ()) and self.is_sei(I, st, o):
                    st.mon['sei'] = st.mon.get('sei', frozenset()) | {o}
        return Base.on_call(self, I, st, ins, name, args)
    def on_exit(self, I, st, fn, ret):
        r = I.resolve(st, ret) if isinstance(ret, Ptr) else None
        if isinstance(r, Ptr) and 'item' in (I.struct_of(r.o) or '') and self.is_sei(I, st, r.o):
            st.mon['sei'] = st.mon.get('sei', frozenset()) | {r.o}
    def joined_ptr(self, I, o, sa, a, sb, b):
        Base.joined_ptr(self, I, o, sa, a, sb, b)
        def known(s, x): return not isinstance(x, Ptr) or x.o is o or I.nullness(s, x) is True or (x.off == 0 and self.is_sei(I, s, x.o))
        if JSEI.get(o, True): JSEI[o] = known(sa, a) and known(sb, b)
    def join_field(self, k, a, b):
        if k == 'sei': return (a or frozenset()) & (b or frozenset())
        return Base.join_field(self, k, a, b)
    def golden(self, I, st):
        """the NALU being handled is known to be a golden SEI"""
        for o, cells in st.mem.items():
            if (I.struct_of(o) or '').endswith('h26x_nalu_t') and self.flag(I, st, o, 'is_golden_sei'): return True
        return False
    def is_sei(self, I, st, o):
        sei = st.mon.get('sei', ())
        if o in sei or JSEI.get(o): return True
        for k, v in st.bind.items():
            if isinstance(v, Ptr) and v.o is o and v.off == 0 and (k in sei or JSEI.get(k)): return True
        cells = st.mem.get(o, {})
        for off, (v, sz) in cells.items():
            if isinstance(off, int) and fld(I, Ptr(o, off))[1] == 'nalu':
                q = I.resolve(st, v)
                if isinstance(q, Ptr):
                    for off2, (v2, s2) in st.mem.get(q.o, {}).items():
                        if isinstance(off2, int) and fld(I, Ptr(q.o, off2))[1] in ('is_gop_sei', 'is_golden_sei'):
                            x = I.resolve(st, v2)
                            if is_num(x) and iv(st, x)[0] >= 1: return True
        return False


# ------------------------------------------------------------------------------------------------ where the result comes from
VERIFY = 'EVP_PKEY_verify'

class GateSource(Base):
    """every value that can make the verification result 1 is the return value of the signature verification, wherever it
    is stored"""
    def __init__(self, sites): self.sites = sites
    def key(self, st): return tuple(sorted(st.mon.get('ver', ())))
    def join_field(self, k, a, b):
        if k == 'ver': return (a or frozenset()) & (b or frozenset())
        return Base.join_field(self, k, a, b)
    def on_call(self, I, st, ins, name, args):
        if name == VERIFY:
            rs = I.external(st, ins, name, args)
            for r, s in rs: s.mon['ver'] = frozenset((one_sym(r)[0].n,))
            return rs
        return Base.on_call(self, I, st, ins, name, args)
    def on_store(self, I, st, ins, p, size, val):
        s, f = fld(I, p)
        if f.split('.')[-1] != 'verified_signature_hash': return
        self.sites.add(('result-store', ins.fn.name, ins.where, ''))
        if not may_be(I, st, val, 1): return
        v = I.resolve(st, val)
        ver = st.mon.get('ver', ())
        o = one_sym(v) if isinstance(v, Lin) else None
        if o and o[1] == 0 and o[0].n in ver: return
        if any(iv_sym(st, n) == (1, 1) for n in ver): return
        if any(isinstance(n, int) and self.implies(I, st, v, n) for n in ver): return
        I.report('result-source', ins, 'the signature verification result may become 1 from a value that is not the result of %s (value %r)' % (VERIFY, v), st)
    def implies(self, I, st, v, n):
        """v == 1 implies the verification returned 1"""
        t = st.clone()
        c = v if isinstance(v, Cond) else Cond(('cmp', 'eq', v, 1)) if isinstance(v, Lin) else None
        if c is None: return False
        try: outs = I.assume(t, c, True)
        except Exception: return False
        outs = outs if isinstance(outs, list) else [t] if outs else []
        return bool(outs) and all(iv_sym(x, n) == (1, 1) for x in outs)


class VerifyArgs(Base):
    """the signature verification is called on the received signature and the hash to verify, with their full sizes, with
    the verification key"""
    def __init__(self, sites): self.sites = sites
    def on_call(self, I, st, ins, name, args):
        if name == VERIFY:
            want = (('signature', 1), ('signature_size', 2), ('hash', 3), ('hash_size', 4), ('key', 0))
            for f, k in want:
                got = None
                if f.endswith('_size'):
                    z = self.size(I, st, args[k])
                    ok = z[0] == 'field' and z[2].split('.')[-1] == f
                    got = z
                else:
                    o = self.operand(I, st, args[k])
                    ok = bool(o) and all(x[1].split('.')[-1] == f for x in o)
                    got = o
                self.sites.add(('verify-argument', ins.fn.name, ins.where, f))
                if not ok: I.report('verify-argument', ins, 'argument %d of %s is not the %s of the verification data (found %s)' % (k + 1, name, f.replace('_', ' '), got), st)
        return Base.on_call(self, I, st, ins, name, args)


class DecodedHash(Base):
    """once a SEI has been decoded (its signature is now the one to verify) the hash to verify is that SEI's hash"""
    def __init__(self, sites): self.sites = sites
    def key(self, st): return st.mon.get('dec')
    def join_field(self, k, a, b):
        if k == 'dec': return a or b
        return Base.join_field(self, k, a, b)
    def on_store(self, I, st, ins, p, size, val):
        s, f = fld(I, p)
        if f.split('.')[-1] == 'has_been_decoded' and 'legacy' not in s and may_be(I, st, val, 1) and p.o.kind != 'heap':
            self.sites.add(('decoded', ins.fn.name, ins.where, ''))
            if st.mon.get('copied') == p.o: return
            st.mon['dec'] = (p.o, ins.where)
            self.last = ins
    def on_copy(self, I, st, ins, p, q, n):
        d = self.operand(I, st, p); s = self.operand(I, st, q)
        if d and all(x[1] == 'hash' and 'verify_data' in x[0] for x in d):
            src = s and all(x[1] in ('hash', 'gop_hash') for x in s)
            self.sites.add(('hash-copy', ins.fn.name, ins.where, ''))
            if not src: I.report('hash-to-verify', ins, 'the hash to verify is copied from %s, not from the hash of the SEI' % (s,), st)
            elif not full(self.size(I, st, n)): I.report('hash-to-verify', ins, 'the hash to verify is copied over %s instead of the full hash size' % (self.size(I, st, n),), st)
            else:
                dec = st.mon.get('dec')
                q = I.resolve(st, q)
                item = q.o.parent[0] if isinstance(q, Ptr) and q.o.parent else None
                if dec:
                    if item is not None and dec[0] is not item and not self.same_item(I, st, dec[0], item):
                        return
                    st.mon['dec'] = None
                elif item is not None: st.mon['copied'] = item
    def same_item(self, I, st, a, b):
        x = I.resolve(st, Ptr(a, 0)); y = I.resolve(st, Ptr(b, 0))
        return x == y
    def on_call(self, I, st, ins, name, args):
        if name == VERIFY and st.mon.get('dec'):
            I.report('hash-to-verify', self.last, 'a decoded SEI (marked at %s) reaches the signature verification without its hash having been copied as the hash to verify' % st.mon['dec'][1], st)
        return Base.on_call(self, I, st, ins, name, args)


class Fresh(Base):
    """no result of an earlier round is used: in the function that verifies and marks in a loop, a NALU is marked authentic
    only after a verification in the same round, or after the result was reset"""
    def __init__(self, sites): self.sites = sites
    def on_enter(self, I, st, fn, args):
        self.I = I
        if len(I.stack) == 1: st.mon['fresh'] = 'in'
    def key(self, st): return (st.mon.get('fresh'), any(x == (1, 1) for x in gate_value(self.I, st)))
    def join_field(self, k, a, b):
        if k == 'fresh': return a if a == b else 'stale' if 'stale' in (a, b) else 'in'
        return Base.join_field(self, k, a, b)
    def loaded(self, I, st, ins, p, v):
        s, f = fld(I, p)
        if f.split('.')[-1] == 'has_sei' and isinstance(v, Lin): return [(st, 1)]
        return Base.loaded(self, I, st, ins, p, v)
    def on_backedge(self, I, st, fn, head):
        if len(I.stack) == 1 and st.mon.get('fresh') == 'fresh': st.mon['fresh'] = 'stale'
    def on_call(self, I, st, ins, name, args):
        if name == VERIFY: st.mon['fresh'] = 'fresh'
        return Base.on_call(self, I, st, ins, name, args)
    def on_store(self, I, st, ins, p, size, val):
        s, f = fld(I, p)
        if f.split('.')[-1] == 'verified_signature_hash' and not may_be(I, st, val, 1): st.mon['fresh'] = 'reset'
        if not is_status(f) or 'item' not in s or not may_be(I, st, val, AUTH): return
        if any(x == (1, 1) for x in gate_value(I, st)):
            self.sites.add(('round', ins.fn.name, ins.where, ''))
            if st.mon.get('fresh') == 'stale':
                I.report('stale-verification-result', ins, 'a NALU may be marked authentic with the verification result of an earlier round', st)


def field_uses(P, field, kinds=('store', 'call')):
    """functions that store to / pass the address of a field of this name"""
    m = P.m
    out = {'store': set(), 'call': set()}
    def is_field(f, v):
        pl = P.place(f, v)
        if pl[0] != 'field': return False
        d = P.distruct(pl[1])
        return bool(d) and (m.field_at(d, pl[2])[0] or '').split('.')[-1] == field
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op == 'store' and is_field(f, i.ops[1][1]): out['store'].add(f.name)
            elif i.op == 'call':
                for t, v in i.ops:
                    if t == 'ptr' and v[0] == 'loc':
                        d = P.defs(f).get(v[1])
                        if d is not None and d.op == 'getelementptr' and is_field(f, v): out['call'].add(f.name)
    return out

def run_gate(res):
    m = build('default'); P = Prog(m)
    res.rules += ['a store of the authentic status to a NALU item requires the signature verification result to be exactly 1 on that path',
                  'the verification result becomes 1 only as the return value of EVP_PKEY_verify',
                  'EVP_PKEY_verify is called with the signature, the hash and their full sizes and the key of the verification data',
                  'a decoded SEI has its own hash copied, full length, as the hash to verify before verification',
                  'a verification result is never carried over to a later validation round']
    st = field_uses(P, 'validation_status')['store']
    jobs = [('gate', f) for f in sorted(st)]
    gu = field_uses(P, 'verified_signature_hash')
    jobs += [('args', f) for f in sorted(P.callers.get(VERIFY, {}))]
    jobs += [('src', f) for f in sorted(gu['store'] | gu['call'])]
    ver = [f for f in P.callers.get(VERIFY, {})]
    if not ver: res.errors.append('no call of %s found' % VERIFY)
    hb = field_uses(P, 'has_been_decoded')['store']
    jobs += [('dec', f) for f in sorted(hb)]
    # functions that verify and mark in a loop
    rounds = set()
    for f in m.funcs.values():
        loops = f.loops()
        for h, body in loops.items():
            cs = [i.x[1] for b in body for i in b.ins if i.op == 'call' and i.x[0] == 'glob' and i.x[1] in m.funcs]
            if any(VERIFY in P.reach(c) for c in cs) and any(P.reach(c) & st for c in cs): rounds.add(f.name)
    # the innermost only
    rounds = {f for f in rounds if not any(g != f and g in P.reach(f) for g in rounds)}
    jobs += [('round', f) for f in sorted(rounds)]
    def work(j):
        kind, f = j
        sites = set(); rep = []; an = set(); runs = 0
        if kind == 'gate':
            D = Discharge(P, lambda: Gate(sites), inline=lambda n: False)
            rep = D.site(f); runs = D.runs; an = D.analysed | D.covered
        elif kind == 'args':
            D = Discharge(P, lambda: VerifyArgs(sites), inline=lambda n: False)
            rep = D.site(f); runs = D.runs; an = D.analysed | D.covered
        elif kind == 'src':
            mon = GateSource(sites)
            I = SInterp(P, mon, inline=lambda n, d: P.small(n) or VERIFY in P.reach(n), cap=8, steps=1500000)
            I.run(f); rep = list(I.reports.values()); runs = 1; an = set(I.covered)
        elif kind == 'dec':
            D = Discharge(P, lambda: DecodedHash(sites), inline=lambda n: VERIFY in P.reach(n))
            rep = D.site(f); runs = D.runs; an = D.analysed | D.covered
        else:
            mon = Fresh(sites)
            I = SInterp(P, mon, inline=lambda n, d: P.small(n) or VERIFY in P.reach(n) or bool(P.reach(n) & st), cap=8, steps=4000000)
            I.run(f); rep = list(I.reports.values()); runs = 1; an = set(I.covered)
        return kind, f, sites, rep, an, runs
    for kind, f, sites, rep, an, runs in pmap(work, jobs):
        res.functions |= an
        res.count('analysis runs', runs)
        for s in sites: res.seen.setdefault(kind if kind == 'gate' else s[0], set()).add(s)
        for r in rep: res.add(r.rule, r.where, r.fname, r.msg, r.path)
    names = {'gate': 'stores that can mark a NALU authentic', 'result-store': 'stores to the verification result', 'verify-argument': 'checked arguments of EVP_PKEY_verify',
             'decoded': 'SEI decode markers', 'hash-copy': 'copies of the hash to verify', 'round': 'authentic stores inside validation rounds'}
    for k, n in names.items():
        res.count(n, len(res.seen.get(k, ())))
        res.need(n)
    return res

def run_hash(res):
    m = build('default'); P = Prog(m)
    res.rules += ['a non-SEI NALU is marked authentic only on paths where a memcmp over the full hash size of the locally computed and the received hash came out equal: '
                  'GOP hash and link hash (or no link yet), or its own hash against the signed hash list with the link established or an earlier NALU of the GOP failed',
                  'legacy: own hash against the signed hash list, or membership in the GOP hash whose signature verified']
    st = field_uses(P, 'validation_status')['store']
    def work(f):
        sites = set(); used = set()
        D = Discharge(P, lambda: HashGate(sites, used), inline=lambda n: False)
        rep = D.site(f)
        return sites, used, rep, D.analysed | D.covered, D.runs
    S = set(); U = set()
    for sites, used, rep, an, runs in pmap(work, sorted(st)):
        S |= sites; U |= used; res.functions |= an; res.count('analysis runs', runs)
        for r in rep: res.add(r.rule, r.where, r.fname, r.msg, r.path)
    res.count('stores that can mark a NALU authentic', len(S)); res.need('stores that can mark a NALU authentic')
    res.count('hash comparisons relied upon', len({u[3] for u in U})); res.need('hash comparisons relied upon')
    res.notes += sorted('%s: %s == %s over %s' % (u[3], '/'.join(f for _, f in u[0]), '/'.join(f for _, f in u[1]), u[2][-1]) for u in U)
    return res
