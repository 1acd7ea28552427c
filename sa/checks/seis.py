"""C02: every SEI produced is delivered once, in full and in order."""
import absint
from core import *
from vendor import fields
from nulls import public_functions
from handout import ret_at, HInterp

GET = 'signed_video_get_sei'
SIGNATURE = 'sv_signing_plugin_get_signature'
FREE = 'signed_video_free'
OLD = 'signed_video_get_nalu_to_prepend'
SHAPES = ((0, 0), (1, 0), (1, 1), (2, 1), (3, 1), (3, 2), (4, 3), (4, 4))       # SEIs held, of them completed

class Buf:
    """the buffer of SEIs of a session: an array of structures with a SEI and the size of the completed SEI"""
    def __init__(self, P, sd):
        m = P.m; self.ok = False
        for o, n, t, s in m.di_members(m.di_strip(sd)):
            a = m.md.get(m.di_strip(t))
            if not a or a.get('tag') != 'DW_TAG_array_type': continue
            et = m.di_strip(a.get('baseType')); em = {en: (eo, es) for eo, en, ety, es in m.di_members(et)} if m.md.get(et, {}).get('tag') == 'DW_TAG_structure_type' else {}
            if 'sei' in em and 'completed_sei_size' in em:
                self.et = et; self.base = o; self.es = m.di_size(et); self.n = s // self.es; self.mem = em; self.name = n; self.ok = True
        F = fields(m, sd)
        self.idx = next((F[k] for k in ('sei_data_buffer_idx',) if k in F), None); self.done = next((F[k] for k in ('num_of_completed_seis',) if k in F), None)
        self.both = sorted(set(self.mem) & set(F)) if self.ok else []        # what is kept for a SEI while another one is written
        self.ok = self.ok and self.idx is not None and self.done is not None
    def at(self, i, k): return self.base + self.es * i + self.mem[k][0]
    def inside(self, off): return self.base <= off < self.base + self.es * self.n or off in (self.idx[0], self.done[0])

class Deliver(Monitor):
    def __init__(self, root, B, seis, sess, nsig): self.root = root; self.B = B; self.seis = seis; self.sess = sess; self.nsig = nsig; self.exits = []; self.copies = set()
    def key(self, st): return tuple(sorted((k, repr(v)) for k, v in st.mon.items() if k in ('freed', 'got', 'nsig', 'empty', 'seen')))
    def join_field(self, k, a, b): return a if a == b else '?'
    def on_free(self, I, st, ins, p):
        if p.o in self.seis and p.off == 0:
            i = self.seis.index(p.o); f = st.mon.get('freed') or ()
            if f == '?': return
            if i in f: I.report('released-twice', ins, 'a SEI may be released twice', st)
            st.mon['freed'] = f + (i,)
    def on_copy(self, I, st, ins, p, q, n):
        if isinstance(q, Ptr) and q.o is self.sess and isinstance(q.off, int) and isinstance(n, int): self.seen(st, q.off, n)
        if isinstance(q, Ptr) and q.o in self.seis and isinstance(p, Ptr) and p.o is not self.sess and p.o.kind != 'stack':
            i = self.seis.index(q.o); g = st.mon.get('got') or ()
            n = I.resolve(st, n)
            if g != '?': st.mon['got'] = g + ((i, p.off == 0 and q.off == 0, n, p.o, ins.where),)
            if (i in (st.mon.get('freed') or ())): I.report('released-early', ins, 'a SEI may be copied after it has been released', st)
    def seen(self, st, off, n):
        for f in self.B.both:
            for i in range(len(self.seis)):
                a = self.B.at(i, f)
                if off <= a < off + n: st.mon['seen'] = frozenset(st.mon.get('seen') or ()) | {(f, i)}
    def on_load(self, I, st, ins, p, size):
        if isinstance(p, Ptr) and p.o is self.sess and isinstance(p.off, int) and self.B.inside(p.off): self.seen(st, p.off, size)
    def on_store(self, I, st, ins, p, size, val):
        if isinstance(p, Ptr) and p.o is self.sess and isinstance(p.off, int) and st.mon.get('nsig') and self.B.inside(p.off) and not (is_num(val) and iv(st, val) == (0, 0)):
            for i in range(len(self.seis)):
                if p.off != self.B.at(i, 'completed_sei_size') or is_num(val) and val in self.sizes: continue
                if st.mon.get('seen') == '?': continue
                for f in self.B.both:
                    if (f, i) not in (st.mon.get('seen') or ()): I.report('entry-mixed', ins, 'a SEI may be completed without %s kept for it' % f, st)
        if isinstance(p, Ptr) and p.o is not self.sess and size == 1 and p.o.name == 'memory for the SEI': st.mon['got'] = '?'
    def on_call(self, I, st, ins, name, args):
        if name != SIGNATURE: return None
        k = st.mon.get('nsig') or 0; out = []
        size, err = I.resolve(st, args[3]), I.resolve(st, args[4])
        sz = 8
        t = st.clone()
        if isinstance(err, Ptr): I.store(t, err, 0, 4)
        out.append((0, t))
        if k < self.nsig:
            for e in (False, True):
                t = st.clone(); t.mon['nsig'] = k + 1
                if isinstance(err, Ptr): I.store(t, err, 0, 4)
                if isinstance(size, Ptr): I.store(t, size, 0 if e else lin(mksym(('signature size', k), 64, 1, 4096, 'size of the signature')), sz)
                if e: t.mon['empty'] = (t.mon.get('empty') or 0) + 1
                t.note(ins.where, 'there is %s signature' % ('an empty' if e else 'a'))
                out.append((1, t))
        return out
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.exits.append((I.resolve(st, ret) if ret is not None else None, st))

def eq(s, x, y):
    if x is None or y is None: return True
    if isinstance(x, Ptr) or isinstance(y, Ptr): return isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o and x.off == y.off
    if not (is_num(x) and is_num(y)): return True
    return x == y or prove_le0(s, ladd(x, y, -1)) and prove_le0(s, ladd(y, x, -1))

def run_one(P, res, cfg, root, B, sd, n, c, mode):
    m = P.m; fn = m.funcs[root]; at = ret_at(fn)
    absint._objs.clear()
    h = mkobj('session', 'param', di=sd); seis = [mkobj('SEI %d' % i, 'lazy') for i in range(n)]; out = mkobj('memory for the SEI', 'param')
    mon = Deliver(root, B, seis, h, 1 if n < B.n and (c < n or root not in (GET, OLD)) else 0)
    W = P.__dict__.setdefault('_seiw', None)
    if W is None: W = P._seiw = writers(P, B, sd)
    I = HInterp(P, mon, inline=lambda f, d: f in W or bool(P.reach(f) & W) or P.small(f) and 'free' in P.reach(f), maxinline=6, cap=48, steps=400000, loop_unroll=6); I.cpu_limit = time.process_time() + 40
    st = State(); st.null[h] = False; st.null[out] = False
    I.store(st, Ptr(h, B.idx[0]), n, 4); I.store(st, Ptr(h, B.done[0]), c, 4)
    own = []
    for i in range(B.n):
        d = {}
        for k, (eo, es) in B.mem.items():
            if k == 'sei': v = Ptr(seis[i], 0) if i < n else 0
            elif k == 'completed_sei_size': v = lin(mksym(('size', i), 64, 1, 1 << 31, 'size of SEI %d' % i)) if i < c else 0
            elif m.di_pointee(m.field_at(sd, B.at(i, k))[1]) is not None if m.field_at(sd, B.at(i, k))[1] is not None else es == 8: v = Ptr(seis[i], 8) if i < n else 0
            else: v = lin(mksym((k, i), 8 * es, 0, (1 << min(8 * es, 62)) - 1, '%s of %s %d' % (k, 'SEI' if i < n else 'unused entry', i)))
            if v is not None: I.store(st, Ptr(h, B.at(i, k)), v, es)
            d[k] = v
        own.append(d)
    mon.sizes = [d['completed_sei_size'] for d in own[:c]]
    for o in seis: st.null[o] = False
    names = I.param_names(fn); nm = lambda k: names.get(fn.params[k][1], fn.params[k][1])
    over = {nm(0): Ptr(h, 0)}; size = pend = None
    if root == GET:
        size = mkobj('size of the SEI', 'param'); pend = mkobj('pending SEIs', 'param'); st.null[size] = st.null[pend] = False
        over[nm(1)] = Ptr(out, 0) if mode not in ('size', 'ask') else 0
        over[nm(2)] = Ptr(size, 0); over[nm(3)] = 0; over[nm(6)] = Ptr(pend, 0)
        if mode not in ('peek', 'ask'): over[nm(4)] = 0; over[nm(5)] = 0
    try: I.run(root, over=over, st=st)
    except Budget as e: res.notes.append('%s with %d SEIs: not decided (%s)' % (root, n, e)); return 0, 0
    res.functions |= set(I.covered)
    for r in I.reports.values(): res.add(r.rule, r.where, r.fname, r.msg, r.path, config=cfg)
    N = und = 0
    def bad(rule, what, s): res.add(rule, at.where, root, what, s.path(), config=cfg)
    for r, s in mon.exits:
        ld = lambda off, ty: I.resolve(s, I.load(s, Ptr(h, off), ty))
        n2, c2 = ld(B.idx[0], 'i32'), ld(B.done[0], 'i32')
        freed, got = s.mon.get('freed') or (), s.mon.get('got') or ()
        if not isinstance(n2, int) or not isinstance(c2, int) or freed == '?' or n2 > B.n or n2 < 0: 
            if isinstance(n2, int) and (n2 < 0 or n2 > B.n): bad('buffer-overrun', 'the number of SEIs held may leave the range of the buffer (%d)' % n2, s)
            und += 1; continue
        N += 1
        seq = []; cur = []
        for i in range(min(B.n, max(n, n2) + 1)):
            v = ld(B.at(i, 'sei'), 'ptr'); k = seis.index(v.o) if isinstance(v, Ptr) and v.o in seis and v.off == 0 else None
            null = v == 0 or isinstance(v, Ptr) and s.null.get(v.o) is True
            if i < n2: seq.append(k if k is not None else ('null' if null else 'new')); cur.append(i)
            elif k is not None:
                bad('stale-entry', 'a SEI may remain in the buffer behind the last one held', s)
        ks = [k for k in seq if isinstance(k, int)]
        if 'null' in (seq if root in (GET, OLD) else seq[:-1]): bad('sei-missing', 'an entry of the buffer that counts may have no SEI', s)
        if len(set(ks)) != len(ks): bad('delivered-twice', 'a SEI may be in the buffer twice, and so be delivered twice', s)
        elif ks != sorted(ks) or any(isinstance(k, int) for j, k in enumerate(seq) if any(x == 'new' for x in seq[:j])): bad('out-of-order', 'the SEIs may change their order in the buffer', s)
        empty = s.mon.get('empty') or 0; given = {g[0] for g in got} if got != '?' else set(range(n))
        gone = [k for k in range(n) if k not in ks]
        for k in set(freed) & set(ks): bad('released-early', 'a SEI that is still held may have been released', s)
        for k in gone:
            if k not in freed: bad('sei-lost', 'a SEI may be forgotten without having been released', s)
        lost = [k for k in gone if k not in given]
        if empty != '?' and len(lost) > empty or empty == 0 and lost: bad('sei-lost', 'a SEI may be removed without having been delivered', s)
        elif any(k < c for k in lost): bad('sei-lost', 'a completed SEI may be removed although another one got no signature', s)
        for p, k in zip(cur, seq):
            if k == 'new':
                for f in B.both:
                    v = ld(B.at(p, f), 'i%d' % (8 * B.mem[f][1]))
                    if any(is_num(v) and v == d[f] for d in own): bad('entry-mixed', '%s kept for a new SEI may be the one of another SEI' % f, s)
            if not isinstance(k, int): continue
            for f, (eo, es) in B.mem.items():
                if f == 'sei': continue
                v = ld(B.at(p, f), 'ptr' if isinstance(own[k][f], Ptr) else 'i%d' % (8 * es))
                if f == 'completed_sei_size':
                    if k < c and not eq(s, v, own[k][f]): bad('entry-mixed', 'the size kept for a SEI may be the one of another SEI', s)
                    z = is_num(v) and iv(s, v)
                    if p < c2 and z and z == (0, 0): bad('incomplete-sei', 'a SEI may count as completed without having been completed', s)
                    if p >= c2 and z and z[0] > 0: bad('sei-held-back', 'a completed SEI may not count as one', s)
                elif k >= c2 and not eq(s, v, own[k][f]): bad('entry-mixed', '%s kept for a SEI may be the one of another SEI' % f, s)
        fails = is_num(r) and iv(s, r)[0] > 0 or is_num(r) and iv(s, r)[1] < 0
        if got != '?':
            for k, whole, x, o, w in got:
                want = own[k]['completed_sei_size'] if k < c else None
                if not whole or not eq(s, x, want): bad('incomplete-sei', 'a SEI may be delivered only in part, or with more than it consists of', s)
                if k in ks: bad('delivered-twice', 'a SEI that has been delivered may still be held', s)
                if root == GET and k != min(set(range(n)) - set(lost), default=k): bad('out-of-order', 'a SEI may be delivered before an older one', s)
        if root == GET:
            z = I.resolve(s, I.load(s, Ptr(size, 0), 'i64'))
            first = own[0]['completed_sei_size'] if c else None
            if not fails:
                if mode == 'fetch' and c and not got: bad('sei-held-back', 'a completed SEI may not be delivered', s)
                if c and (mode not in ('peek', 'ask') or got) and is_num(z) and not eq(s, z, first): bad('incomplete-sei', 'the size told may not be the one of the SEI delivered', s)
                if c == 0 and n == 0 and is_num(z) and iv(s, z) != (0, 0): bad('incomplete-sei', 'a size may be told although there is no SEI', s)
                q = I.resolve(s, I.load(s, Ptr(pend, 0), 'i32'))
                if (got or mode == 'fetch' and n == 0) and isinstance(q, int) and q != n2: bad('pending-miscounted', 'the number of pending SEIs told may not be the number of SEIs held', s)
            if mode in ('size', 'ask') and (got and got != '?' or set(gone) - set(lost)): bad('sei-lost', 'asking for the size of a SEI may remove it', s)
    return N, und

def writers(P, B, sd):
    m = P.m; W = set(); key = m.di_strip(sd)
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != 'store' and not (i.op == 'call' and i.x[0] == 'glob' and 'memcpy' in i.x[1]): continue
            pl = P.place(f, i.ops[1][1] if i.op == 'store' else i.ops[0][1])
            if pl[0] != 'field' or not P.distruct(pl[1]): continue
            nm = (m.field_at(P.distruct(pl[1]), pl[2])[0] or '')
            d = m.di_strip(P.distruct(pl[1]))
            if d == key and nm.split('.')[0].split('[')[0] in (B.name, 'sei_data_buffer_idx', 'num_of_completed_seis') or d == B.et: W.add(f.name)
    return W

def job(a):
    cfg, jobs = a
    res = Result('C02', 'quick'); P = Prog(build(cfg)); n = und = 0
    for root, nn, c, mode in jobs:
        fn = P.m.funcs[root]; sd = P.distruct(P.ptype(fn, ('loc', fn.params[0][1]))); B = Buf(P, sd)
        x, u = run_one(P, res, cfg, root, B, sd, nn, c, mode); n += x; und += u
    return res, n, und

def run_seis(res):
    P = Prog(build('default')); m = P.m
    res.rules += ['whatever a signing operation does, the SEIs held stay in order, each with its own size and position, none is held twice, and one is removed only if it has been delivered in full or got no signature',
                  'the SEI delivered is the oldest one that is completed, with its own size; asking for the size removes nothing; a completed SEI is delivered when asked for']
    if GET not in m.funcs: raise AnalysisError('%s() not found' % GET)
    fn = m.funcs[GET]; sd = P.distruct(P.ptype(fn, ('loc', fn.params[0][1]))); B = Buf(P, sd)
    if not B.ok: res.notes.append('the buffer of SEIs was not recognised: not decided'); return res
    W = writers(P, B, sd)
    roots = [f for f in public_functions(P) if f in m.funcs and f != FREE and m.funcs[f].params and (f in W or P.reach(f) & W) and P.distruct(P.ptype(m.funcs[f], ('loc', m.funcs[f].params[0][1]))) and m.di_strip(P.distruct(P.ptype(m.funcs[f], ('loc', m.funcs[f].params[0][1])))) == m.di_strip(sd)]
    # (an operation that changes the SEIs only through another one is covered by that)
    sub = {f for f in roots if f not in W and all(g in roots for g in m.funcs if g != f and f in P.callers.get(g, {}) and (g in W or P.reach(g) & W))}
    jobs = []
    for f in sorted(set(roots) - sub):
        for n, c in SHAPES:
            for mode in (('fetch', 'size', 'peek', 'ask') if f == GET else ('-',)): jobs.append((f, n, c, mode))
        if f != GET: jobs.append((f, B.n, 0, '-'))
    res.count('operations that change the SEIs held', len(roots)); res.count('operations and shapes of the buffer', len(jobs))
    n = und = 0
    for r, a, b in pmap(job, [('default', jobs[k::8]) for k in range(8)]):
        n += a; und += b; res.functions |= r.functions; res.notes += r.notes
        for f in r.findings:
            res.add(f['rule'], f['where'], f['function'], f['message'], f['path'], f['config'])
    res.count('ends of operations decided', n); res.count('ends of operations left undecided', und)
    res.need('operations that change the SEIs held', 3); res.need('ends of operations decided', 100)
    return res
