"""E02: what is handed out is complete and belongs to the caller; what is handed in is not kept."""
from core import *
from vendor import fields
from nulls import public_functions, is_session

REPORT = 'signed_video_get_authenticity_report'
STRCOPY = ('strcpy', 'strncpy', 'stpcpy', 'strlcpy', 'snprintf', 'memcpy', 'memmove', '__strcpy_chk', '__memcpy_chk')

class HInterp(SInterp):
    heap_copies = 14

class Copy(Monitor):
    """where the content of each string of the new report comes from"""
    def __init__(self, root): self.root = root; self.exits = []
    def key(self, st): return ()
    def join_field(self, k, a, b):
        if k == 'src': return {o: (a or {}).get(o) if (a or {}).get(o) == (b or {}).get(o) else '?' for o in set(a or {}) | set(b or {})}
        return Monitor.join_field(self, k, a, b)
    def set(self, st, o, q): st.mon['src'] = dict(st.mon.get('src') or {}); st.mon['src'][o] = q
    def on_store(self, I, st, ins, p, size, val):
        if isinstance(p, Ptr) and p.o.kind == 'heap' and p.o.di is None and size == 1: self.set(st, p.o, '?')
    def on_copy(self, I, st, ins, p, q, n):
        if isinstance(p, Ptr) and p.o.kind == 'heap' and isinstance(q, Ptr): self.set(st, p.o, (q.o, ins.where))
    def on_call(self, I, st, ins, name, args):
        if name in ('strcpy', 'strncpy', 'stpcpy', 'strlcpy', '__strcpy_chk'):
            d, s = I.resolve(st, args[0]), I.resolve(st, args[1])
            if isinstance(d, Ptr): self.set(st, d.o, (s.o, ins.where) if isinstance(s, Ptr) else '?')
        elif name in ('snprintf', 'sprintf', '__snprintf_chk', 'strcat', 'strncat', 'vsnprintf'):
            d = I.resolve(st, args[0])
            if isinstance(d, Ptr): self.set(st, d.o, '?')
        elif name in ('strdup', 'strndup', 'g_strdup', 'CRYPTO_strdup'):
            s = I.resolve(st, args[0]); out = I.external(st, ins, 'strdup', args)
            for r, t in out:
                if isinstance(r, Ptr): self.set(t, r.o, (s.o, ins.where) if isinstance(s, Ptr) else '?')
            return out
        return None
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.exits.append((I.resolve(st, ret), st))

def leaves(m, di):
    F = fields(m, di)
    return {k: v for k, v in F.items() if not any(x.startswith(k + '.') for x in F)}

def is_ptr(m, di, off):
    t = m.field_at(di, off)[1]
    return t is not None and m.di_pointee(t) is not None

def feasible_zero(t, y):
    t = t.clone()
    return assume_le0(t, y) and assume_le0(t, ladd(0, y, -1))

def ret_at(fn): return [i for i in fn.instrs() if i.op == 'ret'][-1]

def run_report(P, res, cfg):
    m = P.m
    if REPORT not in m.funcs: raise AnalysisError('%s() not found' % REPORT)
    fn = m.funcs[REPORT]
    sd = P.distruct(P.ptype(fn, ('loc', fn.params[0][1])))
    SF = fields(m, sd)
    ad = m.di_pointee(m.field_at(sd, SF['authenticity'][0])[1]); A = leaves(m, ad)
    seen = 0; nret = 0
    for mode in ('strings', 'no strings'):
        mon = Copy(REPORT)
        I = HInterp(P, mon, inline=lambda n, d: True, maxinline=8, cap=24, steps=800000); I.cpu_limit = time.process_time() + 60
        h = mkobj('session', 'param', di=sd); a = mkobj('kept report', 'lazy', di=ad, parent=(h, SF['authenticity'][0]))
        st = State(); I.stack = [REPORT]; st.null[h] = False; st.null[a] = False
        I.store(st, Ptr(h, SF['authenticity'][0]), Ptr(a, 0), 8)
        for k in ('latest_validation', 'accumulated_validation'):
            I.store(st, Ptr(h, SF[k][0]), Ptr(a, fields(m, ad)[k][0]), 8)
        strs = {}
        for k, (off, sz) in A.items():
            if not is_ptr(m, ad, off):
                lo, hi = I.range_of(m.field_at(ad, off)[1], 8 * sz)
                I.store(st, Ptr(a, off), lin(mksym(('kept', k), 8 * sz, lo, hi, 'kept ' + k)), sz); continue
            if mode == 'strings' or 'version' in k.split('.')[-1] and '.' not in k:
                o = mkobj('kept.' + k, 'lazy'); st.null[o] = False; strs[k] = o
                I.store(st, Ptr(a, off), Ptr(o, 0), 8)
            else: I.store(st, Ptr(a, off), 0, 8)
        nm = I.param_names(fn).get(fn.params[0][1], fn.params[0][1])
        I.run(REPORT, over={nm: Ptr(h, 0)}, st=st)
        res.functions |= set(I.covered)
        at = ret_at(fn)
        for r, s in mon.exits:
            if not isinstance(r, Ptr) or I.nullness(s, r) is True: continue
            nret += 1
            if r.o is a or r.o.kind != 'heap':
                res.add('report-shared', at.where, REPORT, 'the report handed out may be the one the session goes on writing to', s.path(), config=cfg); continue
            src = s.mon.get('src') or {}
            for k, (off, sz) in sorted(A.items()):
                x = I.resolve(s, I.load(s, Ptr(r.o, off), 'ptr' if is_ptr(m, ad, off) else 'i%d' % (8 * sz)))
                y = I.resolve(s, I.load(s, Ptr(a, off), 'ptr' if is_ptr(m, ad, off) else 'i%d' % (8 * sz)))
                if is_ptr(m, ad, off):
                    seen += 1
                    if isinstance(x, Ptr) and not isinstance(y, int) and x.o is getattr(y, 'o', None):
                        res.add('report-shares-memory', at.where, REPORT, 'the member %s of the report handed out refers to memory of the session' % k, s.path(), config=cfg); continue
                    if isinstance(x, Ptr) and x.o.kind == 'lazy':
                        res.add('report-shares-memory', at.where, REPORT, 'the member %s of the report handed out refers to memory of the session (%s)' % (k, x.o.name), s.path(), config=cfg); continue
                    if k not in strs: continue
                    if isinstance(x, int) and x == 0:
                        res.add('report-incomplete', at.where, REPORT, 'the member %s is missing from the report handed out' % k, s.path(), config=cfg); continue
                    if not isinstance(x, Ptr) or x.o.kind != 'heap': continue
                    c = src.get(x.o)
                    if c is None:
                        res.add('report-incomplete', at.where, REPORT, 'nothing is copied to the member %s of the report handed out' % k, s.path(), config=cfg)
                    elif c != '?' and c[0] is not strs[k] and c[0].kind == 'lazy':
                        res.add('report-differs', c[1], REPORT, 'the member %s of the report handed out gets the content of %s' % (k, c[0].name.replace('kept.', '')), s.path(), config=cfg)
                    elif c != '?' and c[0].kind == 'global' and k != 'this_version':
                        res.add('report-differs', c[1], REPORT, 'the member %s of the report handed out gets a constant' % k, s.path(), config=cfg)
                else:
                    seen += 1
                    if isinstance(x, Cond) and is_num(y) and all((iv(t, y) == (0, 0)) if not truth else not feasible_zero(t, y) for truth in (True, False) for t in I.assume(s.clone(), x, truth)): continue
                    if is_num(x) and is_num(y) and (x == y or prove_le0(s, ladd(x, y, -1)) and prove_le0(s, ladd(y, x, -1))): continue
                    res.add('report-differs', at.where, REPORT, 'the member %s of the report handed out may differ from the result of the validation (%r, %r)' % (k, x, y), s.path(), config=cfg)
    res.count('members of the report compared (%s)' % cfg, seen); res.need('members of the report compared (%s)' % cfg, 20)

SET_INFO = 'signed_video_set_product_info'
INFO = ('hardware_id', 'firmware_version', 'serial_number', 'manufacturer', 'address')      # in the order of the arguments

def run_info(P, res, cfg):
    """each product string set by the user ends up in the member of its name"""
    m = P.m
    if SET_INFO not in m.funcs: raise AnalysisError('%s() not found' % SET_INFO)
    fn = m.funcs[SET_INFO]; sd = P.distruct(P.ptype(fn, ('loc', fn.params[0][1]))); SF = fields(m, sd)
    pd = m.di_pointee(m.field_at(sd, SF['product_info'][0])[1]); PF = fields(m, pd)
    mon = Copy(SET_INFO)
    I = HInterp(P, mon, inline=lambda n, d: True, maxinline=8, cap=24, steps=400000); I.cpu_limit = time.process_time() + 30
    h = mkobj('session', 'param', di=sd); st = State(); st.null[h] = False
    pi = mkobj('product info', 'lazy', di=pd, parent=(h, SF['product_info'][0])); st.null[pi] = False
    I.store(st, Ptr(h, SF['product_info'][0]), Ptr(pi, 0), 8)
    names = I.param_names(fn); nm = lambda k: names.get(fn.params[k][1], fn.params[k][1])
    over = {nm(0): Ptr(h, 0)}; arg = {}
    for k, f in enumerate(INFO):
        if f not in PF: raise AnalysisError('member %s of the product information not found' % f)
        I.store(st, Ptr(pi, PF[f][0]), 0, 8)
        o = mkobj('kept.argument ' + f, 'lazy'); st.null[o] = False; arg[f] = o; over[nm(k + 1)] = Ptr(o, 0)
    I.run(SET_INFO, over=over, st=st)
    res.functions |= set(I.covered); n = 0
    for r, s in mon.exits:
        if r != 0: continue
        src = s.mon.get('src') or {}
        for f in INFO:
            x = I.resolve(s, I.load(s, Ptr(pi, PF[f][0]), 'ptr')); n += 1
            c = src.get(x.o) if isinstance(x, Ptr) else None
            if isinstance(x, Ptr) and x.o.kind != 'heap':
                if x.o in arg.values(): res.add('caller-memory-kept', ret_at(fn).where, SET_INFO, 'the session refers to the string %s of the caller' % f, s.path(), config=cfg)
            elif c is None: res.add('setting-lost', ret_at(fn).where, SET_INFO, 'the product string %s is not taken over' % f, s.path(), config=cfg)
            elif c != '?' and c[0] is not arg[f]: res.add('setting-lost', c[1], SET_INFO, 'the product string %s gets the content of another one (%s)' % (f, c[0].name.replace('kept.', '')), s.path(), config=cfg)
    res.count('product strings set (%s)' % cfg, n); res.need('product strings set (%s)' % cfg, 5)

# ---------------------------------------------------------------------------------------------------------------------
class Esc(Monitor):
    def __init__(self, P, root, mine, theirs): self.P = P; self.root = root; self.mine = mine; self.theirs = theirs; self.checked = 0
    def key(self, st): return ()
    def owner(self, o):
        """root object from which a lazily discovered object was reached"""
        n = 0
        while o.parent is not None and n < 20: o = o.parent[0]; n += 1
        return o
    def reachable(self, I, st, roots):
        seen = {}; work = list(roots)
        for r in roots: seen[r] = None
        while work:
            o = work.pop()
            for off, (v, sz) in st.mem.get(o, {}).items():
                v = I.resolve(st, v)
                vs = [v] if isinstance(v, Ptr) else []
                for x in vs:
                    for y in st.alts.get(x.o, (x,)):
                        y = I.resolve(st, y)
                        if isinstance(y, Ptr) and y.o not in seen: seen[y.o] = (o, off); work.append(y.o)
        return seen
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root: return
        ret = I.resolve(st, ret)
        roots = set(self.mine) | {o for o in st.mem if o.kind == 'global'} | {o for o in st.mem if o.kind == 'lazy' and self.owner(o) in self.mine}
        # members the operation has not touched keep what they referred to: nothing of the caller's
        own = self.reachable(I, st, roots)
        rr = self.reachable(I, st, [ret.o]) if isinstance(ret, Ptr) and ret.o.kind == 'heap' else {}
        for o, at in list(own.items()) + list(rr.items()):
            self.checked += 1
            if at is None: continue
            if self.owner(o) in self.theirs and o not in self.mine:
                f = I.fieldname(Ptr(at[0], at[1])) if isinstance(at[1], int) else None
                I.report('caller-memory-kept', ret_at(fn), 'memory of the caller (%s) is still referred to by %s when the operation ends' % (self.owner(o).name, (f[1] if isinstance(f, tuple) else f) or at[0].name), st)
        ours = {o for o in own if o.kind in ('lazy', 'heap') and (o.kind == 'heap' or self.owner(o) in self.mine)}
        for t in self.theirs:
            for o, at in self.reachable(I, st, [t]).items():
                if at is not None and o in ours and o.kind != 'global':
                    I.report('own-memory-handed-out', ret_at(fn), 'the caller gets a reference (%s) to memory the library goes on using' % t.name, st)
        if isinstance(ret, Ptr) and ret.o in ours and ret.o.kind == 'heap' and self.mine: I.report('own-memory-handed-out', ret_at(fn), 'the caller gets a reference to memory the library goes on using', st)
        elif isinstance(ret, Ptr) and ret.o.kind == 'lazy' and self.owner(ret.o) in self.mine: I.report('own-memory-handed-out', ret_at(fn), 'the caller gets a reference to memory the library goes on using', st)

def params(P, I, f):
    """(objects of the library, objects of the caller, arguments)"""
    m = P.m; fn = m.funcs[f]; st = State()
    args = I.make_args(f, st); mine = set(); theirs = set(); over = {}
    names = I.param_names(fn)
    for k, a in enumerate(args):
        if not isinstance(a, Ptr): continue
        di = a.o.di; mem = m.di_members(m.di_strip(di)) if di else None
        nm = names.get(fn.params[k][1], fn.params[k][1])
        if k == 0 and (is_session(P, f, 0) or di is None or mem): o = mkobj('library:' + nm, 'param', di=di); mine.add(o)
        else: o = mkobj('caller:' + nm, 'param', di=di); theirs.add(o)
        over[nm] = Ptr(o, 0)
    return mine, theirs, over

def escape(P, f):
    I0 = SInterp(P, Monitor())
    mine, theirs, over = params(P, I0, f)
    last = None
    for ml, cap, t, size in ((5, 12, 15, 400), (3, 8, 8, 120)):
        mon = Esc(P, f, mine, theirs)
        I = HInterp(P, mon, maxinline=ml, cap=cap, steps=1500000)
        I.inline = lambda n, d: P.small(n) or sum(1 for _ in P.m.funcs[n].instrs()) <= size
        I.cpu_limit = time.process_time() + t
        st = State()
        for o in mine | theirs: st.null[o] = False
        try: I.run(f, over=over, st=st)
        except Budget as e: last = str(e); continue
        return f, list(I.reports.values()), mon.checked, set(I.covered), None
    return f, [], 0, set(), last

# ---------------------------------------------------------------------------------------------------------------------
def keepers(P):
    """functions that replace the NALU an item of a list refers to by new memory"""
    m = P.m; out = []
    for f in m.funcs.values():
        al = any(i.op == 'call' and i.x[0] == 'glob' and i.x[1] in ('malloc', 'calloc') for i in f.instrs())
        for i in f.instrs():
            if i.op != 'store': continue
            pl = P.place(f, i.ops[1][1])
            if pl[0] != 'field': continue
            d = P.distruct(pl[1])
            if d and (m.field_at(d, pl[2])[0] or '') == 'nalu' and al: out.append(f.name)
    return sorted(set(out))

class Keep(Esc):
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root: return
        r = I.resolve(st, ret)
        self.checked += 1
        own = self.reachable(I, st, {o for o in st.mem if self.owner(o) in self.mine and o not in self.theirs})
        for o, at in own.items():
            if at is not None and o in self.theirs:
                I.report('caller-memory-kept', ret_at(fn), '%s of the caller is still referred to by the list when the NALU has been taken over' % o.name, st)

def keep(P, f):
    m = P.m; fn = m.funcs[f]
    I0 = SInterp(P, Monitor()); args = I0.make_args(f, State())
    names = I0.param_names(fn); theirs = set(); mine = set(); over = {}
    st = State()
    I = HInterp(P, None, inline=lambda n, d: P.small(n), maxinline=4, cap=16, steps=400000); I.cpu_limit = time.process_time() + 15
    for k, a in enumerate(args):
        if not isinstance(a, Ptr) or a.o.di is None: continue
        F = fields(m, a.o.di)
        if 'last_item' not in F: continue
        nm = names.get(fn.params[k][1], fn.params[k][1])
        l = mkobj('list', 'param', di=a.o.di); mine.add(l); st.null[l] = False
        idi = m.di_pointee(m.field_at(a.o.di, F['last_item'][0])[1]); IF = fields(m, idi)
        it = mkobj('last item', 'lazy', di=idi, parent=(l, F['last_item'][0])); st.null[it] = False
        I.store(st, Ptr(l, F['last_item'][0]), Ptr(it, 0), 8)
        ndi = m.di_pointee(m.field_at(idi, IF['nalu'][0])[1])
        n = mkobj('NALU under test', 'lazy', di=ndi); st.null[n] = False; theirs.add(n)
        I.store(st, Ptr(it, IF['nalu'][0]), Ptr(n, 0), 8)
        # several members refer to one and the same data
        d = mkobj('data', 'lazy'); st.null[d] = False; theirs.add(d)
        for q, (off, sz) in leaves(m, ndi).items():
            if is_ptr(m, ndi, off): I.store(st, Ptr(n, off), Ptr(d, 0), 8)
        if 'taken_ownership_of_nalu' in IF: I.store(st, Ptr(it, IF['taken_ownership_of_nalu'][0]), 0, 1)
        over[nm] = Ptr(l, 0)
    if not over: return f, [], 0, set(), 'no list'
    mon = Keep(P, f, mine, theirs); I.mon = mon
    try: I.run(f, over=over, st=st)
    except Budget as e: return f, [], 0, set(), str(e)
    return f, list(I.reports.values()), mon.checked, set(I.covered), None

def run_handout(res):
    res.rules += ['every member of a report handed out equals the one of the session at that time, and its strings are copies in memory of their own',
                  'when a public operation ends, nothing that is reachable from the session refers to memory of the caller, and nothing handed to the caller refers to memory of the session',
                  'a NAL unit kept in the list of a session refers to no memory of the caller']
    cfgs = ['default', 'threaded'] + (['novendors', 'debugprints'] if res.tier == 'thorough' else [])
    for cfg in cfgs:
        absint._objs.clear()
        P = Prog(build(cfg)); pub = public_functions(P)
        if cfg != 'threaded': run_report(P, res, cfg); run_info(P, res, cfg)
        jobs = [('esc', f) for f in sorted(pub) if cfg != 'threaded' or 'plugin' in pub[f]]
        if cfg != 'threaded': jobs += [('keep', f) for f in keepers(P)]
        n = 0; k2 = 0
        for j, (f, reps, chk, cov, err) in zip(jobs, pmap(lambda j: escape(P, j[1]) if j[0] == 'esc' else keep(P, j[1]), jobs)):
            if err: res.notes.append('%s (%s): not decided (%s)' % (f, cfg, err)); continue
            res.functions |= cov; n += j[0] == 'esc'; k2 += j[0] == 'keep'
            res.count('references at the end of operations (%s)' % cfg, chk)
            for r in reps: res.add(r.rule, r.where, r.fname, r.msg, r.path, config=cfg)
        res.count('public operations (%s)' % cfg, n)
        if cfg != 'threaded': res.count('functions that take over a NALU (%s)' % cfg, k2); res.need('functions that take over a NALU (%s)' % cfg, 1)
    res.need('public operations (default)', 20)
    return res
