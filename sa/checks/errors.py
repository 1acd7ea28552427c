"""B01: a failed step is never reported as success."""
from core import *
from drive import Discharge

VENDOR = -21     # SV_VENDOR_ERROR: the outcome of the vendor's own verification; the caller turns it into a result
# external calls whose failure is a failure of the step; value: which results mean success
POS = {'EVP_Digest', 'EVP_DigestFinal_ex', 'EVP_DigestFinal', 'EVP_DigestInit_ex', 'EVP_DigestInit', 'EVP_DigestUpdate', 'EVP_DigestVerifyInit', 'EVP_PKEY_sign', 'EVP_PKEY_sign_init',
       'EVP_PKEY_verify_init', 'EVP_PKEY_CTX_set_rsa_padding', 'EVP_PKEY_CTX_set_signature_md', 'PEM_write_bio_PrivateKey', 'PEM_write_bio_PUBKEY', 'PEM_write_PrivateKey', 'X509_STORE_CTX_init',
       'X509_STORE_add_cert'}
# of these, the ones that report failure as exactly zero
ZERO = {n for n in POS if n.startswith(('EVP_Digest', 'PEM_write', 'X509_STORE'))}
PTR = {'BIO_new', 'BIO_new_mem_buf', 'EVP_MD_CTX_new', 'EVP_PKEY_CTX_new', 'EVP_get_digestbynid', 'OBJ_txt2obj', 'd2i_ASN1_OBJECT', 'PEM_read_bio_PUBKEY', 'PEM_read_bio_PrivateKey',
       'X509_STORE_new', 'X509_STORE_CTX_new', 'OPENSSL_sk_new_null', 'EVP_RSA_gen', 'EVP_PKEY_Q_keygen', 'EVP_MD_fetch', 'X509_get0_pubkey', 'g_thread_try_new'}
ALLOC = {'malloc', 'calloc', 'realloc', 'strdup', 'g_malloc', 'g_malloc0'}

def status_type(m, t):
    """is DI type t the library's return code?"""
    seen = 0
    while t and seen < 10:
        mm = m.md.get(t) or {}
        if mm.get('_') == 'DIDerivedType' and mm.get('tag') == 'DW_TAG_typedef':
            if mm.get('name') in ('SignedVideoReturnCode', 'svrc_t'): return True
            t = mm.get('baseType'); seen += 1
        else: return False
    return False

def status_fns(P):
    m = P.m; out = set()
    I = Interp.raw_list
    for f in m.funcs.values():
        sub = m.md.get(f.dbg) or {}
        lst = I(P, (m.md.get(sub.get('type')) or {}).get('types')) if sub else []
        if lst and lst[0] and status_type(m, lst[0]): out.add(f.name)
    return out

def peek_fns(P, sfns):
    """bool functions that call decoders through the table: looking ahead for optional data"""
    dec = set().union(set(), *P.table_fns.values()) & sfns
    return {f.name for f in P.m.funcs.values() if f.ret == 'i1' and f.name not in sfns and P.reach(f.name) & dec}

INVALID = -10    # SV_INVALID_PARAMETER

def ret_consts(P, f):
    """constants function f may return, or None if it may return something else"""
    fn = P.m.funcs[f]; out = set(); seen = set(); w = [i.ops[0][1] for i in fn.instrs() if i.op == 'ret' and i.ops]
    while w:
        v = w.pop()
        if v[0] == 'int': out.add(v[1])
        elif v[0] == 'loc' and v[1] in fn.instr_by_res:
            if v[1] in seen: continue
            seen.add(v[1]); i = fn.instr_by_res[v[1]]
            if i.op == 'phi': w += [x for x, _ in i.x]
            elif i.op == 'select': w += [i.ops[1][1], i.ops[2][1]]
            else: return None
        else: return None
    return out

def only_checks(P, f, sfns):
    """a function that can fail only by rejecting its arguments"""
    c = ret_consts(P, f)
    return c is not None and c <= {0, INVALID} and not (P.reach(f) - {f}) & (sfns | POS | PTR | ALLOC)

def adds_missing(P, f):
    """adds placeholders for missing NAL units: statistics only"""
    return any(i.op == 'store' and i.ops[0] == ('i8', ('int', 77)) for i in P.m.funcs[f].instrs())

def only_printed(P, caller, mark):
    fn = P.m.funcs.get(caller)
    b, _, k = mark[1:].rpartition('.')
    res = fn.blocks[b].ins[int(k)].res if fn and b in fn.blocks else None
    if res is None: return False
    for i in fn.instrs():
        if i.op == 'call' and i.x[0] == 'glob' and i.x[1] in ('free', 'printf', 'fprintf', 'llvm.dbg.value'): continue
        if any(v == ('loc', res) for _, v in i.ops): return False
    return True

def used(ins): return any(v == ('loc', ins.res) for i in ins.fn.instrs() for _, v in i.ops)

def out_params(P):
    """functions that deliver an error code through a pointer: name -> argument index"""
    c = getattr(P, '_outp', None)
    if c is None:
        c = P._outp = {}; m = P.m
        for f in m.funcs.values():
            sub = m.md.get(f.dbg) or {}
            lst = Interp.raw_list(P, (m.md.get(sub.get('type')) or {}).get('types')) if sub else []
            for k, t in enumerate(lst[1:]):
                mm = m.md.get(t) or {}
                if mm.get('tag') == 'DW_TAG_pointer_type' and status_type(m, mm.get('baseType')) and k < len(f.params): c[f.name] = k
    return c

class Fail(Monitor):
    alloc_fail = False
    def __init__(self, P, sfns, root, sites):
        self.P = P; self.sfns = sfns; self.peek = peek_fns(P, sfns); self.root = root; self.sites = sites
        self.outp = out_params(P)
        self.checks = {f for f in sfns if only_checks(P, f, sfns)}; self.lenient = {f for f in sfns if adds_missing(P, f)}
    def key(self, st): return (st.mon.get('failed'),)
    def join_field(self, k, a, b):
        if k == 'failed': return a or b
        return Monitor.join_field(self, k, a, b)
    def exempt(self, I, ins, alloc):
        """the two places where a failure is by contract not one of the caller's step: looking ahead for optional
        data in a SEI that is not yet validated, and the descriptive strings of the report (null if not available)"""
        if any(f in self.peek for f in I.stack): return True
        fr = [f for f in I.stack if f in self.P.m.funcs]
        return alloc and len(fr) > 1 and self.rets_str(fr[-1]) and self.P.m.funcs[fr[-2]].ret == 'void'
    def rets_str(self, f):
        m = self.P.m; sub = m.md.get(m.funcs[f].dbg) or {}
        lst = Interp.raw_list(self.P, (m.md.get(sub.get('type')) or {}).get('types')) if sub else []
        t = m.md.get(lst[0]) if lst and lst[0] else None
        if not t or t.get('tag') != 'DW_TAG_pointer_type': return False
        b = m.md.get(t.get('baseType')) or {}
        return b.get('name') == 'char'
    def fail(self, I, st, ins, what): 
        if not st.mon.get('failed'): st.mon['failed'] = '%s at %s' % (what, ins.where); st.mon['depth'] = len(I.stack)
        st.note(ins.where, what)
    def on_call(self, I, st, ins, name, args):
        if name.startswith('PEM_read_bio') and args and I.resolve(st, args[0]) == 0: return [(0, st)]
        if st.mon.get('failed'): 
            if name in self.sfns and name not in I.stack: 
                return I.summary_call(st, ins, name, args)
            return None
        if name in self.sfns and name != self.root:
            self.sites.add(('call', ins.fn.name, ins.where, name))
            out = []
            ex = self.exempt(I, ins, False) or name in self.lenient or name in self.checks and ins.fn.ret == 'void' and not used(ins)
            for r, s in I.summary_call(st, ins, name, args):
                t = s.clone(); v = s.clone(); d = ladd(r, -VENDOR)
                if ex: out.append((r, s)); continue
                if assume_le0(s, r) and assume_le0(s, lscale(r, -1)): out.append((0, s))
                if assume_le0(v, d) and assume_le0(v, lscale(d, -1)): out.append((VENDOR, v))
                if assume_ne(t, r) and assume_ne(t, d): self.fail(I, t, ins, '%s() fails' % self.P.m.funcs[name].src); out.append((r, t))
            return out
        if name in self.outp and ins.ty != 'void':
            self.sites.add(('call', ins.fn.name, ins.where, name))
            out = []
            for r, s in I.summary_call(st, ins, name, args):
                e = I.resolve(s, args[self.outp[name]])
                v = I.load(s, e, 'i32') if isinstance(e, Ptr) else None
                if not is_num(v): out.append((r, s)); continue
                t = s.clone()
                if assume_le0(s, v) and assume_le0(s, lscale(v, -1)): out.append((r, s))
                if assume_ne(t, v): self.fail(I, t, ins, 'the error %s() delivers is set' % self.P.m.funcs[name].src); out.append((r, t))
            return out
        if name in POS:
            self.sites.add(('library', ins.fn.name, ins.where, name))
            out = []
            for r, s in I.external(st, ins, name, args):
                t = s.clone()
                if assume_le0(s, ladd(1, r, -1)): out.append((r, s))
                if assume_le0(t, r) and (name not in ZERO or assume_le0(t, lscale(r, -1))): self.fail(I, t, ins, '%s() fails' % name); out.append((r, t))
            return out
        if name in PTR or name in ALLOC:
            self.sites.add(('library', ins.fn.name, ins.where, name))
            if self.exempt(I, ins, name in ALLOC): return None
            out = []
            t = st.clone()
            for r, s in I.external(st, ins, name, args):
                if isinstance(r, Ptr): s.null[r.o] = False
                out.append((r, s))
            self.fail(I, t, ins, '%s() returns null' % name); out.append((0, t))
            return out
        return None
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root:
            # a descriptive string that is only printed
            if st.mon.get('failed') and st.mon['depth'] >= len(I.stack) and len(I.stack) >= 3 and self.rets_str(fn.name) and only_printed(self.P, I.stack[-3], I.stack[-2]):
                st.mon.pop('failed', None); st.mon.pop('depth', None); return
            # a helper that still delivers an object dealt with the failure itself
            if st.mon.get('failed') and st.mon['depth'] >= len(I.stack):
                r = I.resolve(st, ret) if ret is not None else None
                if isinstance(r, Ptr) and I.nullness(st, r) is not True: st.mon.pop('failed', None); st.mon.pop('depth', None)
            return
        f = st.mon.get('failed')
        if not f: return
        r = I.resolve(st, ret)
        if isinstance(r, int) and r != 0: return
        if is_num(r):
            lo, hi = iv(st, r)
            if lo > 0 or hi < 0: return
            o = one_sym(r)
            if o and -o[1] in st.ne.get(o[0].n, ()): return
        I.report('failure-reported-as-success', self.at(fn), '%s, yet the function may return success' % f, st)
    def at(self, fn): return [i for i in fn.instrs() if i.op == 'ret'][-1]

def run_errors(res):
    done = set()
    for cfg in ('default', 'threaded'):
        P = Prog(build(cfg)); sf = status_fns(P)
        todo = sorted(f for f in sf if (P.m.funcs[f].file, f) not in done)
        done |= {(P.m.funcs[f].file, f) for f in todo}
        inl = lambda n, d: n not in sf and (bool(P.reach(n) & (sf | POS | PTR | ALLOC)) or P.small(n))
        def work(f):
            sites = set()
            I = SInterp(P, Fail(P, sf, f, sites), inline=inl, cap=24, steps=1500000)
            I.cpu_limit = time.process_time() + 100
            try: I.run(f)
            except Budget as e: return f, sites, [], I.covered, str(e)
            return f, sites, list(I.reports.values()), I.covered, None
        for f, sites, reps, cov, err in pmap(work, todo):
            if err: res.errors.append('%s: %s' % (f, err))
            res.functions |= set(cov)
            for s in sites: res.seen.setdefault(s[0], set()).add(s)
            for r in reps: res.add(r.rule, r.where, r.fname, r.msg, r.path)
        res.count('functions returning a status (%s)' % cfg, len(todo))
    res.need('functions returning a status (default)', 20)
    for k in ('call', 'library'): res.count('failing %s sites' % k, len(res.seen.get(k, ()))); res.need('failing %s sites' % k)
    return res
