"""B03: null arguments of the public API; B02: allocation failures never end in a null dereference."""
from core import *
from errors import status_fns, status_type, POS, PTR, ALLOC
import glob, re, os

INVALID = -10

def public_functions(P):
    """functions declared in the installed headers"""
    out = {}
    for p in sorted(glob.glob(REPO + '/lib/src/includes/*.h')):
        s = re.sub(r'/\*.*?\*/|//[^\n]*', '', open(p, encoding='utf-8', errors='replace').read(), flags=re.S)
        for m in re.finditer(r'\b(\w+)\s*\(([^;{}()]*)\)\s*;', s):
            if m.group(1) in P.m.funcs and not P.m.funcs[m.group(1)].internal: out[m.group(1)] = os.path.basename(p)
    return out

NOTSUP = -12
# data arguments without which a call is rejected: function -> (argument positions that must not be null, positions that must not be 0)
REQUIRED = {
 'signed_video_add_nalu_and_authenticate': ((1,), (2,)),
 'signed_video_set_public_key': ((1,), (2,)),
 'signed_video_compare_versions': ((0, 1), ()),
 'signed_video_is_golden_sei': ((1,), (2,)),
 'openssl_sign_hash': ((0,), ()),
 'openssl_private_key_malloc': ((0, 1), (2,)),
 'signed_video_add_nalu_part_for_signing_with_timestamp': ((1,), (2,)),
 'signed_video_add_nalu_for_signing_with_timestamp': ((1,), (2,)),
 'signed_video_add_nalu_for_signing': ((1,), (2,)),
 'signed_video_get_nalu_to_prepend': ((1,), ()),
 'signed_video_get_sei': ((2,), ()),
 'signed_video_set_private_key_new': ((1,), (2,)),
 'signed_video_set_private_key': ((2,), (3,)),
 'signed_video_set_recurrence_interval_frames': ((), (1,)),
 'sv_signing_plugin_sign': ((0, 1), (2,)),
 'sv_signing_plugin_get_signature': ((0, 1, 3), ()),
}
# enumeration arguments: position, enumeration, whose values outside the enumeration are rejected
ENUMS = {'signed_video_create': (0, 2), 'signed_video_set_authenticity_level': (1, 2), 'signed_video_set_private_key': (1, 2), 'signed_video_generate_private_key': (0, 2)}

class Args(Monitor):
    """the fate of one call of a public function with a given argument"""
    alloc_fail = False
    def __init__(self, P, root): self.P = P; self.root = root; self.rets = []
    def key(self, st): return (bool(st.mon.get('w')),)
    def join_field(self, k, a, b):
        if k == 'w': return a or b
        return Monitor.join_field(self, k, a, b)
    def on_null(self, I, st, ins, what):
        I.report('null-argument-dereferenced', ins, 'a null argument is dereferenced (%s)' % what, st)
    def w(self, st, ins, what):
        if not st.mon.get('w'): st.mon['w'] = '%s at %s' % (what, ins.where)
    def on_store(self, I, st, ins, p, size, val):
        if p.o.kind not in ('stack', 'heap'): self.w(st, ins, 'a store')
    def on_free(self, I, st, ins, p): self.w(st, ins, 'a release of memory')
    def on_call(self, I, st, ins, name, args):
        if name in self.P.m.funcs and not I.inline(name, 0) and self.P.modset(name): self.w(st, ins, 'a call of %s()' % name)
        return None
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.rets.append((I.resolve(st, ret) if ret is not None else None, st))

def small(v): return isinstance(v, int) and 0 <= v < 4096

class NInterp(SInterp):
    """analyses in context every callee that is handed a null pointer, and the public functions"""
    force = False; pub = ()
    def call_one(self, fn, ins, name, calls):
        if name in self.mod.funcs:
            self.force = name in self.pub or any(t == 'ptr' and small(self.resolve(st, a)) for st, args in calls for (t, _), a in zip(self.mod.funcs[name].params, args))
        return super().call_one(fn, ins, name, calls)

def attempt(P, pub, f, k, v):
    fn = P.m.funcs[f]; mon = Args(P, f)
    I = NInterp(P, mon, inline=None, cap=16, steps=1500000); I.pub = pub
    I.inline = lambda n, d: I.force or P.small(n)
    I.cpu_limit = time.process_time() + 60
    nm = I.param_names(fn).get(fn.params[k][1], fn.params[k][1])
    I.run(f, over={nm: v})
    return I, mon, nm

def may_accept(P, I, f, st, r, sfns):
    """may the result r mean anything but a rejection?"""
    fn = P.m.funcs[f]
    if fn.ret == 'void': return False
    if f in sfns:
        if isinstance(r, int): return r not in (INVALID, NOTSUP)
        return True
    if fn.ret == 'i32': return r == 0 or not isinstance(r, int)          # comparison result: 0 would mean equal
    if isinstance(r, int): return r != 0
    return True

def run_args(res):
    ndone = 0
    for cfg in ('default', 'threaded'):
        P = Prog(build(cfg)); pub = public_functions(P); sfns = status_fns(P)
        jobs = []
        for f in sorted(pub):
            if cfg == 'threaded' and 'plugin' not in pub[f]: continue
            fn = P.m.funcs[f]
            req, nz = REQUIRED.get(f, ((), ()))
            for k, (t, n) in enumerate(fn.params):
                if t == 'ptr': jobs.append((f, k, 0, 'session' if is_session(P, f, k) else 'required' if k in req else 'optional'))
                elif k in nz: jobs.append((f, k, 0, 'required'))
                if f in ENUMS and ENUMS[f][0] == k:
                    for v in (ENUMS[f][1], ENUMS[f][1] + 1, 77, -1): jobs.append((f, k, v, 'required'))
        def work(j):
            f, k, v, kind = j
            try: I, mon, nm = attempt(P, pub, f, k, v)
            except Budget as e: return j, None, str(e), None, None
            out = [(r.rule, r.where, r.fname, r.msg, r.path) for r in I.reports.values()]
            if kind != 'optional':
                fn = P.m.funcs[f]; at = [i for i in fn.instrs() if i.op == 'ret'][-1]
                for r, st in mon.rets:
                    if may_accept(P, I, f, st, r, sfns):
                        out.append(('invalid-argument-accepted', at.where, f, '%s() called with %s = %d may not be rejected' % (f, nm, v), st.path())); break
                for r, st in mon.rets:
                    if st.mon.get('w'):
                        out.append(('rejected-call-has-effect', at.where, f, '%s() called with %s = %d changes state (%s)' % (f, nm, v, st.mon['w']), st.path())); break
            return j, out, None, set(I.covered), nm
        for j, out, err, cov, nm in pmap(work, jobs):
            if err: res.errors.append('%s argument %d: %s' % (j[0], j[1], err)); continue
            res.functions |= cov
            res.count('%s arguments' % j[3]); ndone += 1
            for r in out: res.add(*r)
        res.count('public functions (%s)' % cfg, len({j[0] for j in jobs}))
    res.need('public functions (default)', 25); res.need('session arguments', 10); res.need('required arguments', 15)
    return res

def is_session(P, f, k):
    m = P.m; sub = m.md.get(m.funcs[f].dbg) or {}
    lst = Interp.raw_list(P, (m.md.get(sub.get('type')) or {}).get('types')) if sub else []
    t = m.md.get(lst[k + 1]) if k + 1 < len(lst) and lst[k + 1] else None
    if not t or t.get('tag') != 'DW_TAG_pointer_type': return False
    b = m.md.get(t.get('baseType')) or {}
    return b.get('name') in ('signed_video_t', '_signed_video_t')

# ---------------------------------------------------------------------------------------------------------------------
# D03: what is fixed once a session has started
ADD = {'signing': 'signed_video_add_nalu_part_for_signing_with_timestamp', 'validation': 'signed_video_add_nalu_and_authenticate'}
FROZEN = {'signed_video_set_using_golden_sei': 'signing', 'signed_video_set_hash_algo': 'signing', 'signed_video_set_public_key': 'validation'}
ONCE = ('signed_video_set_public_key', 'sv_vendor_axis_communications_set_attestation_report')
RESTART = ('signed_video_create', 'signed_video_reset', 'signed_video_free')

def fkey(I, p, ins=None):
    s, f = I.fieldname(p)
    if (not s or not f) and ins is not None:
        pl = I.prog.place(ins.fn, ins.ops[-1][1])
        if pl[0] == 'field': return (norm(sname(pl[1])), '%s+%d' % (norm(sname(pl[1])), pl[2]), pl[2])
    return (norm(s), f, p.off) if s and f and isinstance(p.off, int) else None
def norm(s): return str(s).lstrip('_').removesuffix('_t')
def is_sess(k): return k is not None and k[0] in ('signed_video',)

class MarkSet(Monitor):
    """session flags raised by a constant store"""
    def __init__(self, root, cand): self.root = root; self.rets = []; self.cand = cand
    def key(self, st): return (st.mon.get('on') or frozenset(),)
    def on_store(self, I, st, ins, p, size, val):
        k = fkey(I, p)
        if k is None or size != 1 or k not in self.cand: return
        on = st.mon.get('on') or frozenset()
        v = I.resolve(st, val)
        st.mon['on'] = on | {k} if v == 1 else on - {k}
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.rets.append((nonzero(st, I.resolve(st, ret)), st.mon.get('on') or frozenset()))

def nonzero(st, r):
    if isinstance(r, int): return r != 0
    if not is_num(r): return False
    lo, hi = iv(st, r)
    if lo > 0 or hi < 0: return True
    o = one_sym(r)
    return bool(o and -o[1] in st.ne.get(o[0].n, ()))

class Any:
    def __contains__(self, k): return is_sess(k)
    def __bool__(self): return True

class Forced(Args):
    """a call of a setter when some state is already in force"""
    def __init__(self, P, root, flags=(), ptrs=()): Args.__init__(self, P, root); self.flags = flags; self.ptrs = ptrs; self.guards = set(); self.heap = set()
    def on_null(self, I, st, ins, what): pass
    def loaded(self, I, st, ins, p, v):
        k = fkey(I, p, ins)
        if k in self.flags and not st.mon.get('w') and isinstance(v, Lin) and ins.ty == 'i8':
            self.guards.add(k)
            return [(st, v if isinstance(self.flags, Any) else 1)]
        if k in self.ptrs and isinstance(v, Ptr) and v.o.kind != 'heap': st.null[v.o] = False; self.guards.add(k)
        return [(st, v)]
    def on_store(self, I, st, ins, p, size, val):
        k = fkey(I, p, ins)
        v = I.resolve(st, val)
        if k and isinstance(v, Ptr) and v.o.kind == 'heap': self.heap.add(k)
        if self.ptrs:
            if k in self.ptrs: st.mon['w'] = st.mon.get('w') or 'a store at %s' % ins.where
        else: Args.on_store(self, I, st, ins, p, size, val)
    def on_free(self, I, st, ins, p):
        if not self.ptrs: Args.on_free(self, I, st, ins, p)
    def on_call(self, I, st, ins, name, args):
        return None if self.ptrs else Args.on_call(self, I, st, ins, name, args)

def setter(P, f, mon):
    I = NInterp(P, mon, inline=None, cap=24, steps=1500000)
    # helpers are looked into as long as they are not part of the crypto layer
    I.inline = lambda n, d: P.small(n)
    I.cpu_limit = time.process_time() + 100
    I.run(f)
    return I

def run_frozen(res):
    P = Prog(build('default')); m = P.m
    flags = {}
    for side, f in ADD.items():
        if f not in m.funcs: raise AnalysisError('%s() not found' % f)
        S = set()
        for g in m.funcs.values():
            for i in g.instrs():
                if i.op == 'store' and i.ops[0] == ('i8', ('int', 1)): S.add(g.name)
        # the flags of the session any of the setters looks at
        cand = set()
        for g in (g for g in FROZEN if FROZEN[g] == side and g in m.funcs):
            looks = Forced(P, g, flags=Any()); setter(P, g, looks); cand |= looks.guards
        mon = MarkSet(f, cand)
        I = SInterp(P, mon, inline=lambda n, d: n in S and d < 4 or P.small(n) and P.reach(n) & S, cap=24, steps=2000000)
        I.cpu_limit = time.process_time() + 200
        I.run(f)
        res.functions |= set(I.covered)
        ok = [on for failed, on in mon.rets if not failed]
        res.count('paths of a successful first NAL unit (%s)' % side, len(ok))
        flags[side] = frozenset.intersection(*ok) if ok else frozenset()
        if not ok: raise AnalysisError('%s(): no successful path' % f)
    # flags that anything but a new start may lower do not freeze anything
    low = {}
    for side in flags:
        keep = set()
        for k in flags[side]:
            l = [i for i in lowers(P, k) if i.fn.name not in P_restart(P)]
            if l: low[k] = l
            else: keep.add(k)
        flags[side] = keep
    for f, side in FROZEN.items():
        if f not in m.funcs: raise AnalysisError('%s() not found' % f)
        mon = Forced(P, f, flags=flags[side]); I = setter(P, f, mon)
        res.functions |= set(I.covered)
        at = [i for i in m.funcs[f].instrs() if i.op == 'ret'][-1]
        res.count('setters frozen by a started session'); res.count('flags that mark a started session', len(flags[side]))
        why = '' if mon.guards else '; no flag raised by every accepted NAL unit and lowered only by a new session or reset is looked at' + (' (%s is lowered at %s)' % (list(low)[0][1], list(low.values())[0][0].where) if low else '')
        for r, st in mon.rets:
            if not (isinstance(r, int) and r in (INVALID, NOTSUP)):
                res.add('changed-during-session', at.where, f, '%s() may be accepted after %s has started%s' % (f, side, why), st.path()); break
        for r, st in mon.rets:
            if st.mon.get('w'):
                res.add('changed-during-session', at.where, f, '%s() changes state after %s has started (%s)%s' % (f, side, st.mon['w'], why), st.path()); break
    for f in ONCE:
        if f not in m.funcs: raise AnalysisError('%s() not found' % f)
        mon = Forced(P, f); I = setter(P, f, mon)
        res.functions |= set(I.covered)
        if not mon.heap: raise AnalysisError('%s(): no stored value found' % f)
        for k in sorted(mon.heap):
            mon = Forced(P, f, ptrs={k}); setter(P, f, mon)
            res.count('values that are set once')
            at = [i for i in m.funcs[f].instrs() if i.op == 'ret'][-1]
            for r, st in mon.rets:
                if st.mon.get('w'):
                    res.add('value-replaced', at.where, f, '%s() replaces %s although it is already set (%s)' % (f, k[1], st.mon['w']), st.path()); break
    res.need('setters frozen by a started session', 3); res.need('values that are set once', 2)
    return res

def P_restart(P):
    """the restarting API functions and whatever only they call"""
    c = getattr(P, '_rest', None)
    if c is None:
        c = set(RESTART)
        n = 0
        while n != len(c):
            n = len(c)
            for f in P.m.funcs:
                cs = P.callers.get(f, ())
                if f not in c and cs and set(cs) <= c: c.add(f)
        P._rest = c
    return c

def lowers(P, k):
    """stores that may lower the session flag k = (struct, path)"""
    out = []
    for f in P.m.funcs.values():
        for i in f.instrs():
            if i.op != 'store' or i.ops[0][0] != 'i8' or i.ops[0] == ('i8', ('int', 1)): continue
            pl = P.place(f, i.ops[1][1])
            if pl[0] == 'field' and norm(sname(pl[1])) == k[0] and pl[2] == k[2]: out.append(i)
    return out

# ---------------------------------------------------------------------------------------------------------------------
# B02: a failed allocation never leads to an access of the missing memory
from errors import ALLOC as _ALLOC
# library functions that do not accept a null pointer in the given argument positions
NONNULL = {'strlen': (0,), 'strcmp': (0, 1), 'strncmp': (0, 1), 'strcpy': (0, 1), 'strcat': (0, 1), 'strncpy': (0, 1), 'strstr': (0, 1), 'sscanf': (0, 1), 'sprintf': (0, 1), 'fwrite': (0, 3), 'fread': (0, 3), 'fclose': (0,),
           'EVP_DigestInit_ex': (0,), 'EVP_DigestUpdate': (0,), 'EVP_DigestFinal_ex': (0, 1), 'EVP_DigestVerifyInit': (0,), 'memcmp': (0, 1), 'memcpy': (0, 1), 'memmove': (0, 1), 'memset': (0,)}

class Oom(Monitor):
    """at most one allocation fails per run; what follows is analysed apart from the runs without failure"""
    alloc_fail = False
    def __init__(self, root, sites): self.root = root; self.sites = sites; self.left = {}
    def key(self, st): return (st.mon.get('failed'),)
    def join_field(self, k, a, b):
        if k == 'failed': return a or b
        if k == 'nul': return {x: a[x] for x in (a or {}) if x in (b or {})}
        return Monitor.join_field(self, k, a, b)
    def on_null(self, I, st, ins, what):
        if st.mon.get('failed'): I.report('missing-memory-accessed', ins, '%s through a null pointer after %s failed' % (what, st.mon['failed']), st)
    def on_call(self, I, st, ins, name, args):
        if st.mon.get('failed') and name in NONNULL:
            for k in NONNULL[name]:
                if k < len(args) and I.resolve(st, args[k]) == 0 and not (name.startswith('mem') and I.resolve(st, args[2]) == 0):
                    I.report('missing-memory-accessed', ins, '%s() is given a null pointer after %s failed' % (name, st.mon['failed']), st)
        if name not in PTR and name not in ALLOC: return None
        self.sites.add((ins.fn.name, ins.where, name))
        out = []
        if not st.mon.get('failed'):
            t = st.clone(); t.mon['failed'] = '%s() at %s' % (name, ins.where); t.note(ins.where, '%s() fails' % name); out.append((0, t))
        for r, s in I.external(st, ins, name, args):
            if isinstance(r, Ptr): s.null[r.o] = False
            out.append((r, s))
        return out
    def on_store(self, I, st, ins, p, size, val):
        if size != 8 or p.o.kind != 'heap' or ins.ops[0][0] != 'ptr': return
        n = dict(st.mon.get('nul') or {})
        if I.resolve(st, val) == 0 and st.mon.get('failed') and ins.ops[0][1] != ('null',): n[(p.o, p.off)] = (fkey(I, p, ins), ins.where)
        else: n.pop((p.o, p.off), None)
        st.mon['nul'] = n
    def on_exit(self, I, st, fn, ret):
        r = I.resolve(st, ret) if ret is not None else None
        if fn.name == self.root and isinstance(r, Ptr) and r.o.kind == 'heap' and st.mon.get('failed'):
            for (o, off), (k, w) in (st.mon.get('nul') or {}).items():
                if o is r.o and k: self.left.setdefault(k, w)

class Missing(Monitor):
    """a member whose allocation is allowed to fail is found missing"""
    def __init__(self, flds, sites): self.flds = flds; self.sites = sites
    def key(self, st): return (st.mon.get('n'),)
    def join_field(self, k, a, b):
        if k == 'n': return a or b
        return Monitor.join_field(self, k, a, b)
    def on_null(self, I, st, ins, what):
        if st.mon.get('n'): I.report('missing-memory-accessed', ins, '%s through the null pointer %s, whose allocation may have failed' % (what, st.mon['n']), st)
    def loaded(self, I, st, ins, p, v):
        v = I.resolve(st, v)
        if ins.ty != 'ptr' or not isinstance(v, Ptr) or v.off != 0: return [(st, v)]
        k = fkey(I, p, ins)
        if not k or (k[0], k[2]) not in self.flds: return [(st, v)]
        self.sites.add((ins.fn.name, ins.where))
        if v.o.kind not in ('lazy', 'param') or I.nullness(st, v) is not None or st.mon.get('n'): return [(st, v)]
        t = st.clone(); t.mon['n'] = k[1]; t.note(ins.where, '%s is null' % k[1]); t.null[v.o] = True
        return [(st, v), (t, v)]

def run_oom(res):
    done = set()
    for cfg in ('default', 'threaded'):
        P = Prog(build(cfg)); m = P.m
        lib = PTR | ALLOC
        nf = {f.name for f in m.funcs.values() if f.ret == 'ptr' and P.reach(f.name) & lib}
        dd = {f.name for f in m.funcs.values() if P.callees.get(f.name, set()) & lib and not (P.callees.get(f.name, set()) & set(m.funcs))}
        todo = sorted(f for f in m.funcs if P.callees.get(f, set()) & (nf | dd | lib) and (m.funcs[f].file, f) not in done)
        done |= {(m.funcs[f].file, f) for f in todo}
        def work(f):
            sites = set(); mon = Oom(f, sites)
            I = NInterp(P, mon, inline=None, cap=16, steps=1500000)
            I.inline = lambda n, d: I.force or n in nf or n in dd or P.small(n)
            I.cpu_limit = time.process_time() + 100
            try: I.run(f)
            except Budget as e: return f, [], {}, sites, I.covered, str(e)
            return f, list(I.reports.values()), mon.left, sites, I.covered, None
        left = {}
        for f, reps, l, sites, cov, err in pmap(work, todo):
            if err: res.errors.append('%s: %s' % (f, err))
            for r in reps: res.add(r.rule, r.where, r.fname, r.msg, r.path)
            left.update(l); res.functions |= set(cov)
            for s in sites: res.seen.setdefault('alloc', set()).add(s)
        res.count('functions with an allocation that may fail (%s)' % cfg, len(todo))
        flds = {(k[0], k[2]) for k in left}
        res.count('members whose allocation may fail without failing the operation (%s)' % cfg, len(flds))
        if not flds: continue
        def use(f):
            sites = set(); mon = Missing(flds, sites)
            I = NInterp(P, mon, inline=None, cap=16, steps=1500000)
            I.inline = lambda n, d: I.force or P.small(n)
            I.cpu_limit = time.process_time() + 100
            try: I.run(f)
            except Budget as e: return f, [], sites, I.covered, str(e)
            return f, list(I.reports.values()), sites, I.covered, None
        for f, reps, sites, cov, err in pmap(use, sorted(f for f in pubroots(P) if cfg == 'default')):
            if err: res.errors.append('%s: %s' % (f, err))
            for r in reps: res.add(r.rule, r.where, r.fname, r.msg, r.path)
            res.functions |= set(cov)
            for s in sites: res.seen.setdefault('use', set()).add(s)
    res.count('allocation sites failed in turn', len(res.seen.get('alloc', ()))); res.need('allocation sites failed in turn', 20)
    res.count('uses of members that may be missing', len(res.seen.get('use', ())))
    return res

def pubroots(P): return [f.name for f in P.m.funcs.values()]
