"""E03: versions are ordered by major, minor, patch, and a newer signing side is never validated as OK."""
from core import *
from verdict import fld
from report import latest
from handout import Copy, HInterp

COMPARE = 'signed_video_compare_versions'
WRITES = ('strcpy', 'strncpy', 'stpcpy', 'strlcpy', 'snprintf', 'sprintf', 'memcpy', 'memmove', '__strcpy_chk', '__memcpy_chk', '__snprintf_chk')

class VInterp(SInterp):
    opaque = False
    def opq(self, op, ty, a, b, lo=None, hi=None):
        if re.search(r'v[12]\.(major|minor|patch)', repr(a) + repr(b)): self.opaque = True
        return SInterp.opq(self, op, ty, a, b, lo, hi)

class Parse(Monitor):
    """a version string is read as the three numbers it consists of, or not at all"""
    def __init__(self, P, strs): self.P = P; self.strs = strs; self.exits = []; self.sites = set()
    def key(self, st): return (tuple(sorted(st.mon.get('read', {}).items())),)
    def join_field(self, k, a, b):
        if k == 'read': return a if a == b else {}
        return Monitor.join_field(self, k, a, b)
    def on_call(self, I, st, ins, name, args):
        if name not in ('sscanf', '__isoc99_sscanf', '__isoc23_sscanf'): return None
        s = I.resolve(st, args[0]); f = I.cstr(I.resolve(st, args[1])) if isinstance(I.resolve(st, args[1]), Ptr) else None
        w = next((k for k, o in enumerate(self.strs) if isinstance(s, Ptr) and s.o is o and s.off == 0), None)
        if w is None or f is None: return None
        self.sites.add(ins.where)
        conv = re.findall(rb'%(?!%)(\*?)[0-9]*(?:hh|h|l|ll|z|j)?([a-zA-Z])', f)
        n = sum(1 for a, c in conv if not a)
        out = []
        t = st.clone(); rd = dict(t.mon.get('read', {})); rd[w] = False; t.mon['read'] = rd
        for a in args[2:]: self.havoc1(I, t, a)
        r = lin(mksym(('sscanf', w, ins.where), 32, -1, max(n - 1, 0), 'items read'))
        t.note(ins.where, 'not all numbers are read'); out.append((r, t))
        rd = dict(st.mon.get('read', {})); rd[w] = True; st.mon['read'] = rd
        if n != len(args) - 2: return None
        for k, a in enumerate(args[2:]):
            a = I.resolve(st, a)
            if not isinstance(a, Ptr): return None
            I.store(st, a, lin(I.V[w][k]) if k < 3 else 0, 4)
        out.append((n, st))
        return out
    def havoc1(self, I, st, a):
        a = I.resolve(st, a)
        if isinstance(a, Ptr): I.havoc_range(st, a.o, a.off, 4)
    def on_exit(self, I, st, fn, ret):
        if fn.name == COMPARE: self.exits.append((I.resolve(st, ret), st))

def possible(st):
    """no value known to differ from zero is zero"""
    return not any(isinstance(k, tuple) and len(k) == 2 and k[0] == 'ne' and v and is_num(k[1]) and prove_le0(st, k[1]) and prove_le0(st, lscale(k[1], -1) if isinstance(k[1], Lin) else -k[1]) for k, v in st.cf.items())

def lex(st, a, b, strict):
    """may a < b (or a <= b) in the order of versions?"""
    for k in range(3):
        t = st.clone()
        if not all(assume_le0(t, ladd(a[j], b[j], -1)) and assume_le0(t, ladd(b[j], a[j], -1)) for j in range(k)): continue
        d = ladd(a[k], b[k], -1)
        if assume_le0(t, ladd(d, 0 if (not strict and k == 2) else 1)) and possible(t): return t
    return None

def differ(st, a, b):
    for k in range(3):
        for x, y in ((a, b), (b, a)):
            t = st.clone()
            if assume_le0(t, ladd(ladd(x[k], y[k], -1), 1)) and possible(t): return t
    return None

def run_compare(P, res):
    m = P.m
    if COMPARE not in m.funcs: raise AnalysisError('%s() not found' % COMPARE)
    fn = m.funcs[COMPARE]; at = [i for i in fn.instrs() if i.op == 'ret'][-1]
    o = [mkobj('version %d' % (k + 1), 'param') for k in range(2)]
    mon = Parse(P, o)
    I = VInterp(P, mon, inline=lambda n, d: True, maxinline=6, cap=200, steps=400000, loop_unroll=6); I.cpu_limit = time.process_time() + 60
    I.V = [[mksym(('version', w, k), 32, 0, 65535, 'v%d.%s' % (w + 1, ('major', 'minor', 'patch')[k])) for k in range(3)] for w in range(2)]
    names = I.param_names(fn); st = State()
    for x in o: st.null[x] = False
    I.run(COMPARE, over={names.get(fn.params[k][1], fn.params[k][1]): Ptr(o[k], 0) for k in range(2)}, st=st)
    res.functions |= set(I.covered); n = 0
    A, B = [[lin(s) for s in v] for v in I.V]
    if I.opaque or len(mon.sites) == 0:
        res.notes.append('%s(): the way versions are compared is not decided' % COMPARE); return
    for r, s in mon.exits:
        rd = s.mon.get('read', {}); n += 1
        if not possible(s): continue
        if rd.get(0) is not True or rd.get(1) is not True:
            if False in rd.values() and is_num(r) and not (iv(s, r)[1] < 0):
                res.add('unreadable-version-compared', at.where, COMPARE, 'a string that is no version may be found to be equal, newer or older (%r)' % (r,), s.path())
            continue
        for v, bad, what in ((0, lambda t: differ(t, A, B), 'versions that differ may be found to be equal'),
                             (1, lambda t: lex(t, A, B, False), 'a version may be found to be newer although it is not'),
                             (2, lambda t: lex(t, B, A, False), 'a version may be found to be older although it is not')):
            t = s.clone()
            if not is_num(r): continue
            if assume_le0(t, ladd(r, -v)) and assume_le0(t, ladd(v, r, -1)) and bad(t) is not None:
                res.add('versions-misordered', at.where, COMPARE, what, s.path())
    res.count('paths of the comparison of versions', n); res.need('paths of the comparison of versions', 3)

# ---------------------------------------------------------------------------------------------------------------------
class Mismatch(Monitor):
    def __init__(self, P, root, value): self.P = P; self.root = root; self.value = value; self.exits = 0; self.sites = set(); self.kept = set()
    def key(self, st): return (st.mon.get('newer'), st.mon.get('acc'))
    def which(self, I, st, v):
        v = I.resolve(st, v)
        if isinstance(v, Ptr) and v.o.kind == 'global': return 'this'
        if isinstance(v, Ptr) and v.o.parent is not None:
            s, f = fld(I, Ptr(*v.o.parent)); f = f.split('.')[-1]
            if f == 'this_version' and v.o not in (st.mon.get('filled') or ()): self.kept.add(f)
            return {'this_version': 'this', 'version_on_signing_side': 'other'}.get(f)
        return None
    def on_store(self, I, st, ins, p, size, val):
        s, f = fld(I, p)
        if 'accumulated' in s or 'accumulated' in f: st.mon['acc'] = True
    def join_field(self, k, a, b):
        if k == 'newer': return a if a == b else '?'
        if k == 'acc': return bool(a) and bool(b)
        if k == 'filled': return frozenset(a or ()) & frozenset(b or ())
        return Monitor.join_field(self, k, a, b)
    def on_call(self, I, st, ins, name, args):
        if name in WRITES and args:
            d = I.resolve(st, args[0])
            if isinstance(d, Ptr): st.mon['filled'] = frozenset(st.mon.get('filled') or ()) | {d.o}
        if name != COMPARE: return None
        w = [self.which(I, st, a) for a in args[:2]]; self.sites.add(ins.where)
        out = []
        for r in (-1, 0, 1, 2):
            t = st.clone(); t.note(ins.where, '%s() returns %d' % (name, r))
            t.mon['newer'] = '?' if None in w else (w == ['this', 'other'] and r == 2) or (w == ['other', 'this'] and r == 1)
            out.append((r, t))
        return out
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root: return
        self.exits += 1; n = st.mon.get('newer'); at = [i for i in fn.instrs() if i.op == 'ret'][-1]
        if n is None and st.mon.get('acc'): I.report('newer-version-not-flagged', at, 'a validation may be accumulated without the version of the signing side having been looked at', st)
        if n is not True: return
        at = [i for i in fn.instrs() if i.op == 'ret'][-1]
        vals = []
        for o, c in st.mem.items():
            for off, (v, sz) in c.items():
                if not isinstance(off, int): continue
                s, f = fld(I, Ptr(o, off))
                if f.split('.')[-1] == 'authenticity' and sz == 4 and (latest(s) or 'latest' in f): vals.append(I.resolve(st, v))
        if not any(is_num(v) and iv(st, v) == (self.value, self.value) for v in vals):
            I.report('newer-version-not-flagged', at, 'a validation of a stream signed by a newer version may end without the verdict of a version mismatch', st)

class Keep(Copy):
    """the report a session starts to keep knows the version of this library"""
    def __init__(self, root, sd, off, tv): Copy.__init__(self, root); self.sd = sd; self.off = off; self.tv = tv; self.kept = 0; self.up = False
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root: return
        for o, c in st.mem.items():
            x = c.get(self.off)
            if x is None or x[1] != 8 or fld(I, Ptr(o, self.off))[1].split('.')[-1] != 'authenticity': continue
            v = I.resolve(st, x[0])
            if not isinstance(v, Ptr) or st.null.get(v.o) is True: continue
            if v.o.kind == 'param' or v.o.kind == 'lazy' and v.o.parent is not None and v.o.parent[0].kind != 'lazy' and v.o.parent != (o, self.off) and v.o.parent[0].di is None: self.up = True
            if v.o.kind != 'heap': continue
            self.kept += 1
            w = I.resolve(st, I.load(st, Ptr(v.o, v.off + self.tv), 'ptr'))
            if not isinstance(w, Ptr): continue
            if w.o.kind == 'heap' and (st.mon.get('src') or {}).get(w.o) is None:
                at = [i for i in fn.instrs() if i.op == 'ret'][-1]
                I.report('this-version-missing', at, 'the report that a session keeps may be set up without the version of this library, so that it is never found to be older than the signing side', st)

def run_kept(P, res):
    m = P.m; n = 0; done = set(); todo = []
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != 'store': continue
            pl = P.place(f, i.ops[1][1])
            if pl[0] != 'field' or not P.distruct(pl[1]): continue
            name, ty = m.field_at(P.distruct(pl[1]), pl[2])[:2]
            if (name or '').split('.')[-1] != 'authenticity' or ty is None or m.di_pointee(ty) is None: continue
            if i.ops[0][1][0] in ('null', 'int'): continue
            todo.append((f.name, P.distruct(pl[1]), pl[2], 0))
    while todo:
        f, sd, off, d = todo.pop()
        if (f, off) in done or d > 3: continue
        done.add((f, off))
        ad = m.di_pointee(m.field_at(sd, off)[1]); F = {m.field_at(ad, k)[0]: k for k in range(0, 64, 8)}
        if 'this_version' not in F: continue
        mon = Keep(f, sd, off, F['this_version'])
        I = HInterp(P, mon, inline=lambda n, d: True, maxinline=6, cap=16, steps=300000); I.cpu_limit = time.process_time() + 60
        try: I.run(f)
        except Budget as e: res.notes.append('%s: not decided (%s)' % (f, e)); continue
        res.functions |= set(I.covered); n += mon.kept
        for r in I.reports.values(): res.add(r.rule, r.where, r.fname, r.msg, r.path)
        if mon.up: todo += [(c, sd, off, d + 1) for c in P.callers.get(f, {})]
    res.count('ends of functions that give a session its report', n)
    if n == 0: res.notes.append('no function gives a session a new report')

def enum(m, name):
    for d in m.md.values():
        if isinstance(d, dict) and d.get('_') == 'DIEnumerator' and str(d.get('name')).strip('"') == name: return int(str(d.get('value')))
    raise AnalysisError('%s not found' % name)

def run_versions(res):
    res.rules += ['the comparison of two versions returns 0, 1 or 2 only if they are equal, the first or the second is newer in the order of major, minor and patch, and a failure if one cannot be read',
                  'the report that a session keeps has the version of this library before it is compared',
                  'where the version of the signing side is found to be newer, the verdict of that validation is a version mismatch when the function ends']
    P = Prog(build('default')); m = P.m
    run_compare(P, res)
    val = enum(m, 'SV_AUTH_RESULT_VERSION_MISMATCH')
    # the functions that write the verdict and reach the comparison
    W = set()
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op == 'store' and i.ops[0][1] == ('int', val) or i.op == 'store' and str(i.ops[0][1]).find("%d" % val) >= 0:
                pl = P.place(f, i.ops[1][1])
                if pl[0] == 'field' and P.distruct(pl[1]) and (m.field_at(P.distruct(pl[1]), pl[2])[0] or '').split('.')[-1] == 'authenticity': W.add(f.name)
    C = {f for f in m.funcs if COMPARE in m.funcs and any(i.op == 'call' and i.x[0] == 'glob' and i.x[1] == COMPARE for i in m.funcs[f].instrs())}
    roots = set()
    for f in sorted(C):
        lev = {f}; n = 0
        while lev and n < 4:
            hit = {g for g in lev if g in W or P.reach(g) & W}
            if hit: roots |= hit; break
            lev = {c for g in lev for c in P.callers.get(g, {})}; n += 1
        else: res.add('newer-version-not-flagged', m.funcs[f].instrs().__iter__().__next__().where, f, 'the result of the comparison of versions leads to no verdict of a version mismatch')
    res.count('functions that judge the version', len(roots))
    # every validation that accumulates a verdict judges the version before
    kept = set()
    for f in sorted(roots):
        mon = Mismatch(P, f, val)
        I = SInterp(P, mon, inline=lambda n, d: n == COMPARE or P.small(n) or COMPARE in P.reach(n), maxinline=5, cap=24, steps=600000); I.cpu_limit = time.process_time() + 60
        try: I.run(f)
        except Budget as e: res.notes.append('%s: not decided (%s)' % (f, e)); continue
        res.functions |= set(I.covered)
        res.count('ends of functions that judge the version', mon.exits); res.count('comparisons of versions', len(mon.sites))
        kept |= mon.kept
        for r in I.reports.values(): res.add(r.rule, r.where, r.fname, r.msg, r.path)
    if kept: run_kept(P, res)
    res.need('functions that judge the version', 2); res.need('ends of functions that judge the version', 4)
    return res
