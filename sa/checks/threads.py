"""D01: the data shared with a signing thread."""
from core import *
from nulls import public_functions
import os, re

LOCK = {'g_mutex_lock': 0}; UNLOCK = {'g_mutex_unlock': 0}
WAIT = {'g_cond_wait': False, 'g_cond_wait_until': True}       # timed?
SIGNAL = ('g_cond_signal', 'g_cond_broadcast')
START = {'g_thread_try_new': (1, 2), 'g_thread_new': (1, 2)}
JOIN = ('g_thread_join',)
SIGN = ('EVP_PKEY_sign', 'EVP_DigestSign', 'EVP_DigestSignFinal')

class Shape:
    """the structures with a lock, and what of them may be used without it"""
    def __init__(self, P):
        m = P.m; self.P = P; self.structs = {}
        for k, mm in list(m.md.items()):
            if mm.get('_') != 'DICompositeType' or mm.get('tag') != 'DW_TAG_structure_type' or not mm.get('elements'): continue
            mem = m.di_members(k); d = {}
            if not any(self.tn(t) in ('GMutex', '_GMutex') for o, n, t, s in mem): continue
            for o, n, t, s in mem:
                x = self.tn(t); p = m.di_pointee(t); pn = self.tn(p) if p else ''
                kind = 'mutex' if x in ('GMutex', '_GMutex') else 'cond' if x in ('GCond', '_GCond') else 'thread' if pn in ('GThread', '_GThread') else \
                       'data' if pn in ('sign_or_verify_data_t', '_sign_or_verify_data') else 'shared'
                d[n] = (o, s, kind)
            self.structs[m.di_strip(k)] = d
    def tn(self, t):
        m = self.P.m; n = m.di_typedef_name(t) if t else None
        if n: return n
        x = m.md.get(m.di_strip(t)) if t else None
        return (x or {}).get('name') or ''
    def of(self, di): return self.structs.get(self.P.m.di_strip(di)) if di else None
    def member(self, o, off, st):
        d = self.of(o.di)
        if d is None: return None
        if isinstance(off, Lin): off = iv(st, off)[0]
        for n, (b, s, k) in d.items():
            if b <= off < b + s: return n, k
        return None
    def offset(self, o, kind):
        for n, (b, s, k) in (self.of(o.di) or {}).items():
            if k == kind: return b, s
        return None

class Locks(Monitor):
    alloc_fail = True; thread_root = False
    def __init__(self, P, S, root, sites, entries): self.P = P; self.S = S; self.root = root; self.sites = sites; self.entries = entries
    def key(self, st): return (st.mon.get('held'), st.mon.get('dirty'), st.mon.get('joined'), st.mon.get('started'), tuple(sorted((k.name, self.I.nullness(st, v)) for k, v in (st.mon.get('thr') or ()))) if getattr(self, 'I', None) else ())
    def join_field(self, k, a, b):
        if k in ('held', 'joined', 'recent'): return (a or frozenset()) & (b or frozenset())
        if k in ('dirty', 'started'): return (a or frozenset()) | (b or frozenset())
        if k == 'thr': return frozenset(a or ()) & frozenset(b or ())
        return Monitor.join_field(self, k, a, b)
    def on_enter(self, I, st, fn, args): self.I = I
    def get(self, st, k): return st.mon.get(k) or frozenset()
    def put(self, st, k, o): st.mon[k] = self.get(st, k) | {o}
    def drop(self, st, k, o): st.mon[k] = self.get(st, k) - {o}
    def guard(self, o):
        """the object whose lock protects o"""
        if self.S.of(o.di) is not None: return o
        if o.kind == 'global':
            g = self.P.m.globals.get(o.name)
            if g and not g['const'] and g.get('init') is not None and o.name in self.mine: return self.central
        return None
    def quiet(self, I, st, o):
        if o in self.get(st, 'joined'): return True
        if o in self.get(st, 'started'): return False
        if o.kind == 'heap': return True
        return any(k is o and (v == 0 or I.nullness(st, v) is True) for k, v in (st.mon.get('thr') or ()))
    def access(self, I, st, ins, p, write):
        if not isinstance(p, Ptr): return
        o = p.o; g = self.guard(o)
        if g is None: return
        if o is g:
            mk = self.S.member(o, p.off, st)
            if mk is None: what = '?'
            else:
                what = mk[0]
                if mk[1] in ('mutex', 'cond', 'thread') or (mk[1] == 'data' and not write): return
        else: what = o.name
        self.sites.add(('access', ins.fn.name, ins.where, what))
        # what the thread uses without the lock is left alone by the others as long as it runs
        own = o is g and mk is not None and mk[1] == 'data' and not self.thread_root
        if (g in self.get(st, 'held') and not own) or self.quiet(I, st, g): return
        if own: I.report('in-use-by-thread', ins, '%s is replaced although the thread may be using it' % what, st); return
        if not write and only_assert(ins): return
        I.report('unlocked-access', ins, '%s is %s without holding the lock that protects it' % (what, 'written' if write else 'read'), st)
    def on_load(self, I, st, ins, p, size):
        self.access(I, st, ins, p, False)
        mk = self.S.member(p.o, p.off, st)
        if mk and mk[1] == 'shared': st.mon['recent'] = self.get(st, 'recent') | {mk[0]}
    def on_store(self, I, st, ins, p, size, val):
        self.access(I, st, ins, p, True)
        if p.o.kind != 'stack': st.mon['recent'] = frozenset()
        mk = self.S.member(p.o, p.off, st)
        if mk and mk[1] == 'shared' and p.o in self.get(st, 'held') | self.get(st, 'started'):
            v = I.resolve(st, val)
            if mk[0] in self.waited:
                c = (st.mem.get(p.o) or {}).get(p.off)
                old = I.resolve(st, c[0]) if c else None
                # a counter of work: only an increase is of interest to a waiting thread
                if size > 1 and is_num(v) and is_num(old) and prove_le0(st, ladd(v, old, -1)): return
                if size > 1 and v == 0: return
                self.sites.add(('wakes', ins.fn.name, ins.where))
                if mk[0] in self.waited: st.note(ins.where, '%s is changed' % mk[0]); self.put(st, 'dirty', p.o)
    def on_mem(self, I, st, ins, p, n, write, what): self.access(I, st, ins, p, write)
    def loaded(self, I, st, ins, p, v):
        mk = self.S.member(p.o, p.off, st)
        if mk and mk[1] == 'thread' and not any(k is p.o for k, _ in (st.mon.get('thr') or ())) and p.o.kind != 'heap':
            x = I.resolve(st, v)
            if isinstance(x, (Ptr, int)): st.mon['thr'] = frozenset(st.mon.get('thr') or ()) | {(p.o, x)}
        return [(st, v)]
    def forget(self, I, st, o):
        """another thread may have changed what the lock protects"""
        keep = []
        for n, (b, s, k) in (self.S.of(o.di) or {}).items():
            if k in ('thread', 'data'): keep.append((b, (st.mem.get(o) or {}).get(b)))
        I.havoc(st, o)
        for b, c in keep:
            if c is not None: st.mem.setdefault(o, {}); st.mem[o] = dict(st.mem[o]); st.mem[o][b] = c
        if o is self.central:
            for n in self.mine:
                for q in list(st.mem):
                    if q.kind == 'global' and q.name == n and q is not o: I.havoc(st, q)
    def lockobj(self, I, st, v):
        v = I.resolve(st, v)
        return v.o if isinstance(v, Ptr) and self.S.of(v.o.di) is not None else None
    def on_call(self, I, st, ins, name, args):
        held = self.get(st, 'held')
        if name in LOCK or name == 'g_mutex_trylock':
            o = self.lockobj(I, st, args[0]); self.sites.add(('lock', ins.fn.name, ins.where))
            if o is None: return None
            if o in held: I.report('locked-twice', ins, 'the lock may already be held', st)
            elif held: I.report('nested-locks', ins, 'a lock is taken while another one is held', st)
            out = []
            if name == 'g_mutex_trylock': out.append((0, st.clone()))
            self.put(st, 'held', o)
            if not self.quiet(I, st, o): self.forget(I, st, o)
            return out + [(1 if out else None, st)]
        if name in UNLOCK:
            o = self.lockobj(I, st, args[0]); self.sites.add(('unlock', ins.fn.name, ins.where))
            if o is None: return None
            if o not in held: I.report('not-locked', ins, 'a lock is released that may not be held', st)
            self.drop(st, 'held', o); return [(None, st)]
        if name in WAIT:
            c, o = self.lockobj(I, st, args[0]), self.lockobj(I, st, args[1]); self.sites.add(('wait', ins.fn.name, ins.where))
            if o is None or c is not o: I.report('wrong-condition', ins, 'a condition is waited for with the lock of something else', st); return None
            if o not in held: I.report('not-locked', ins, 'a condition is waited for without holding its lock', st)
            if not in_loop(ins.block) and not any(in_loop(self.P.m.funcs[f].blocks[c[1:].rsplit('.', 1)[0]]) for f, c in zip(I.stack[0::2], I.stack[1::2])): I.report('wait-without-loop', ins, 'what is waited for is not checked again after the wait', st)
            if not WAIT[name]:
                self.wout |= self.get(st, 'recent')
                if o in self.get(st, 'dirty'): I.report('lost-wakeup', ins, 'waits without having woken the thread that waits for an earlier change', st)
            self.forget(I, st, o)
            return [(I.ext_ret(st, ins, name, args), st)]
        if name in SIGNAL:
            o = self.lockobj(I, st, args[0])
            if o is not None: self.drop(st, 'dirty', o)
            return [(None, st)]
        if name in START:
            f, d = (I.resolve(st, args[k]) for k in START[name])
            o = d.o if isinstance(d, Ptr) and self.S.of(d.o.di) is not None else self.central
            if isinstance(f, Fn): self.entries.add((f.name, None if not isinstance(d, Ptr) else d.o.di))
            r = I.ext_ret(st, ins, name, args); t = st.clone(); st.null[r.o] = False
            if o is not None: self.put(st, 'started', o); self.drop(st, 'joined', o)
            return [(r, st)] + ([(0, t)] if name.endswith('try_new') else [])
        if name in JOIN:
            t = I.resolve(st, args[0]); self.sites.add(('join', ins.fn.name, ins.where))
            if held: I.report('join-under-lock', ins, 'the end of a thread is awaited while holding a lock', st)
            if self.get(st, 'dirty'): I.report('lost-wakeup', ins, 'the end of a thread is awaited without having woken it', st)
            for k, v in (st.mon.get('thr') or ()):
                if v == t: self.put(st, 'joined', k)
            return [(I.ext_ret(st, ins, name, args), st)]
        if name in ('memcpy', 'memmove', 'memset') and args:
            for k, w in ((0, True), (1, False)):
                if k == 1 and name == 'memset': continue
                a = I.resolve(st, args[k])
                if isinstance(a, Ptr): self.access(I, st, ins, a, w)
        if name in SIGN or (name in self.P.m.funcs and not I.inline(name, 0) and any(x in self.P.reach(name) for x in SIGN)):
            self.sites.add(('sign', ins.fn.name, ins.where))
            if held: I.report('signs-under-lock', ins, 'a hash is signed while holding the lock', st)
        return None
    def on_free(self, I, st, ins, p):
        if not isinstance(p, Ptr): return
        o = p.o; g = o if self.S.of(o.di) is not None else None
        if g is not None:
            self.sites.add(('free', ins.fn.name, ins.where))
            if g in self.get(st, 'held'): I.report('freed-while-locked', ins, 'memory is released while its lock is held', st)
            if not self.quiet(I, st, g): I.report('freed-while-running', ins, 'memory is released although a thread using it may still be running', st)
            return
        if o.parent is not None:
            par = o.parent[0]; g = self.guard(par)
            if g is None or (par is g and (self.S.member(par, o.parent[1], st) or ('', ''))[1] in ('mutex', 'cond')): return
            self.sites.add(('free', ins.fn.name, ins.where))
            own = par is g and (self.S.member(par, o.parent[1], st) or ('', ''))[1] == 'data' and not self.thread_root
            if (g not in self.get(st, 'held') or own) and not self.quiet(I, st, g): I.report('freed-while-running', ins, 'shared memory is released %s' % ('although the thread may be using it' if own else 'without holding the lock that protects it'), st)
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root: return
        at = [i for i in fn.instrs() if i.op == 'ret'][-1]
        if self.get(st, 'held'): I.report('lock-not-released', at, '%s() may end without releasing the lock' % fn.name, st)
        if self.get(st, 'dirty') - self.get(st, 'joined'): I.report('lost-wakeup', at, '%s() may end without waking a thread that waits for the change it made' % fn.name, st)

def in_loop(block):
    seen = set(); w = list(block.succ)
    while w:
        b = w.pop()
        if b is block: return True
        if b in seen: continue
        seen.add(b); w += b.succ
    return False

def only_assert(ins):
    """is the value read only to assert something?"""
    if ins.op != 'load': return False
    f = ins.fn; users = [i for i in f.instrs() if any(v == ('loc', ins.res) for t, v in i.ops)]
    for u in users:
        if u.op != 'icmp': return False
        for b in f.instrs():
            if any(v == ('loc', u.res) for t, v in b.ops) and not (b.op == 'br' and any(i.op == 'call' and i.x == ('glob', '__assert_fail') for n in b.block.succ for i in n.ins)): return False
    return bool(users)

def run_locks(res):
    P = Prog(build('threaded')); m = P.m; S = Shape(P)
    if not S.structs: raise AnalysisError('no structure with a lock found')
    pub = public_functions(P)
    files = {m.funcs[f].file for f in m.funcs if any(n in P.callees.get(f, ()) for n in list(LOCK) + list(START))}
    mine = {f.name for f in m.funcs.values() if f.file in files}
    roots = sorted(f for f in pub if f in mine)
    used = set()
    for f in mine:
        for i in m.funcs[f].instrs(): used |= set(re.findall(r"'glob', '([^']+)'", repr(i.ops)))
    vars_ = {g for g in used if g in m.globals and not m.globals[g]['const'] and m.globals[g].get('init') is not None}
    central = None
    def one(root, di, waited, entries, isthread):
        nonlocal central
        sites = set()
        mon = Locks(P, S, root, sites, entries)
        mon.thread_root = isthread; mon.waited = waited; mon.wout = set(); mon.mine = vars_; mon.central = None; mon.vars = vars_
        I = SInterp(P, mon, inline=lambda n, d: n in mine or n.startswith('g_'), maxinline=8, cap=24, steps=800000)
        I.cpu_limit = time.process_time() + 120
        for g in vars_:
            o = I.const('ptr', ('glob', g)).o
            if S.of(o.di) is not None: mon.central = o
        fn = m.funcs[root]; over = {}; st = State(); I.stack = [root]
        if isthread:
            nm = I.param_names(fn).get(fn.params[0][1], fn.params[0][1])
            if di is None: over[nm] = 0; mon_o = mon.central
            else:
                mon_o = mkobj('thread data', 'param', di=di); st.null[mon_o] = False; over[nm] = Ptr(mon_o, 0)
            st.mon['started'] = frozenset([mon_o])
        for t, n in fn.params:
            sn = P.ptype(fn, ('loc', n)) if t == 'ptr' else None
            nm = I.param_names(fn).get(n, n)
            if sn and P.distruct(sn) and nm not in over: over[nm] = Ptr(mkobj('argument ' + nm, 'param', di=P.distruct(sn)), 0)
        I.run(root, over=over, st=st)
        return I, mon, sites
    def work(j):
        ent = set()
        I, mon, sites = one(j[0], j[1], j[3], ent, j[2])
        return j, [(r.rule, r.where, r.fname, r.msg, r.path) for r in I.reports.values()], set(I.covered), sites, ent, mon.wout
    ents = set(); waited = set()
    for j, out, cov, sites, e, w in pmap(work, [(f, None, False, frozenset()) for f in roots]): ents |= e; waited |= w
    ents = sorted(ents, key=str)
    for j, out, cov, sites, e, w in pmap(work, [(f, d, True, frozenset()) for f, d in ents]): waited |= w
    res.count('members a thread waits for', len(waited)); res.seen['waited'] = {(w,) for w in waited}
    for j, out, cov, sites, e, w in pmap(work, [(f, None, False, frozenset(waited)) for f in roots] + [(f, d, True, frozenset(waited)) for f, d in ents]):
        res.functions |= cov
        for r in out: res.add(*r)
        for s in sites: res.seen.setdefault(s[0], set()).add(s[1:])
    res.count('public functions', len(roots)); res.count('thread functions', len(ents))
    for k, t in (('access', 'accesses to shared data'), ('lock', 'places that take a lock'), ('unlock', 'places that release a lock'), ('wait', 'waits'), ('wakes', 'changes a thread waits for'), ('free', 'releases of shared memory'), ('join', 'joins'), ('sign', 'places that sign')):
        res.count(t, len(res.seen.get(k, ())))
    res.need('public functions', 4); res.need('thread functions'); res.need('accesses to shared data', 20); res.need('waits'); res.need('places that sign')
    return res
