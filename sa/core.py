"""Shared machinery of the checks: building the intermediate representation of /repo's current working tree, call
graph, may-write summaries, demand-driven discharge of obligations, evidence and verdict output."""
import os, sys, subprocess, tempfile, shutil, json, time, glob, re, hashlib, multiprocessing
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import ir
from ir import Named, INT
import absint
from absint import *

REPO = os.environ.get('SV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get('SV_EVIDENCE', os.path.join(VERIF, 'evidence'))
GLIB = ['-I/usr/include/glib-2.0', '-I/usr/lib/x86_64-linux-gnu/glib-2.0/include', '-pthread']
AXIS = '-DSV_VENDOR_AXIS_COMMUNICATIONS'
CONFIGS = {
    # name: (plugin directory, with vendor, extra defines)
    'default': ('unthreaded-signing', True, []),
    'novendors': ('unthreaded-signing', False, []),
    'threaded': ('threaded-signing', True, GLIB),
    'debugprints': ('unthreaded-signing', True, ['-DSIGNED_VIDEO_DEBUG']),
    'parsesei': ('unthreaded-signing', True, ['-DPRINT_DECODED_SEI']),
}

class AnalysisError(Exception): pass

def sources(config):
    plug, vendor, _ = CONFIGS[config]
    dirs = ['lib/src', 'lib/src/legacy', 'lib/plugins/' + plug] + (['lib/vendors/axis-communications'] if vendor else [])
    out = []
    for d in dirs: out += sorted(glob.glob(os.path.join(REPO, d, '*.c')))
    if len(out) < 5: raise AnalysisError('source layout changed: only %d files found' % len(out))
    return out

def build(config='default'):
    """compile the current working tree to one SSA module; nothing is written outside a temporary directory"""
    tmp = tempfile.mkdtemp(prefix='svsa.')
    try:
        plug, vendor, extra = CONFIGS[config]
        procs = []; objs = []
        for k, f in enumerate(sources(config)):
            o = os.path.join(tmp, '%02d_%s.bc' % (k, os.path.basename(f)[:-2]))
            objs.append(o)
            cmd = ['clang', '-std=gnu17', '-w', '-O0', '-g', '-Xclang', '-disable-O0-optnone', '-I' + REPO + '/lib/src',
                   '-I' + REPO + '/lib/vendors', '-D_FILE_OFFSET_BITS=64', '-DSV_UNIT_TEST'] + ([AXIS] if vendor else []) + extra + \
                  ['-emit-llvm', '-c', f, '-o', o]
            procs.append((f, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, cwd=tmp)))
        for f, p in procs:
            out, _ = p.communicate()
            if p.returncode: raise AnalysisError('clang failed on %s:\n%s' % (f, out.decode()[-2000:]))
        allbc = os.path.join(tmp, 'all.bc')
        subprocess.run(['llvm-link'] + objs + ['-o', allbc], check=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        r = subprocess.run(['opt', '-passes=function(mem2reg)', '-S', allbc, '-o', '-'], check=True, stdout=subprocess.PIPE)
        m = ir.load_text(r.stdout.decode('utf-8', 'replace'))
        m.config = config
        return m
    except subprocess.CalledProcessError as e:
        raise AnalysisError('IR generation failed: %s %s' % (e, (e.stderr or b'').decode()[-500:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

# ------------------------------------------------------------------------------------------------ program facts
def sname(n):
    """%struct._x.12 -> _x"""
    n = n.lstrip('%').strip('"')
    for p in ('struct.', 'union.'):
        if n.startswith(p): n = n[len(p):]
    return re.sub(r'\.\d+$', '', n)

class Prog:
    def __init__(self, mod):
        self.m = mod
        self.callers = {}      # name -> {caller fn name: [ins]}
        self.callees = {}
        self.addr_taken = set()
        self.indirect = {}     # fn -> [ins]
        m = mod
        for f in m.funcs.values():
            cs = self.callees.setdefault(f.name, set())
            for i in f.instrs():
                if i.op == 'call':
                    if i.x[0] == 'glob':
                        if i.x[1] in m.funcs or i.x[1] in m.decls:
                            self.callers.setdefault(i.x[1], {}).setdefault(f.name, []).append(i)
                            cs.add(i.x[1])
                    elif i.x[0] == 'loc': self.indirect.setdefault(f.name, []).append(i)
                for t, v in i.ops:
                    if v[0] == 'glob' and v[1] in m.funcs and not (i.op == 'call' and False): self.addr_taken.add(v[1])
        self.table_fns = {}    # global -> set(functions)
        def walk(v, acc):
            if v[0] == 'glob' and v[1] in m.funcs: acc.add(v[1])
            elif v[0] == 'agg':
                for t, x in v[1]: walk(x, acc)
        for g, d in m.globals.items():
            if d['init'] is not None:
                acc = set(); walk(d['init'], acc)
                if acc: self.table_fns[g] = acc
        # variables that are only ever read are constants
        used = set(); read = set()
        def globs(v, acc):
            if v[0] == 'glob': acc.add(v[1])
            elif isinstance(v, tuple):
                for x in v[1:]:
                    if isinstance(x, tuple) and x: globs(x, acc) if isinstance(x[0], str) else [globs(y, acc) for y in x if isinstance(y, tuple) and y and isinstance(y[0], str)]
                    elif isinstance(x, list):
                        for y in x:
                            if isinstance(y, tuple): globs(y, acc)
        for f in m.funcs.values():
            for i in f.instrs():
                for k, (t, v) in enumerate(i.ops):
                    if v[0] == 'glob' and i.op == 'load': continue
                    globs(v, used)
                    if v[0] not in ('loc', 'int', 'null', 'undef', 'glob', 'zero', 'poison', 'md'): used |= set(re.findall(r"'glob', '([^']+)'", repr(v)))
        for g, d in m.globals.items():
            if d['init'] is not None and not d['const']: used |= set(re.findall(r"'glob', '([^']+)'", repr(d['init'])))
        for g, d in m.globals.items():
            if d['init'] is not None and not d['const'] and g not in used: d['const'] = True; self.promoted = getattr(self, 'promoted', ()) + (g,)
        tf = set().union(*self.table_fns.values()) if self.table_fns else set()
        # indirect call sites: every table function with the same number of arguments
        for f, sites in self.indirect.items():
            for i in sites:
                for c in tf:
                    if len(m.funcs[c].params) == len(i.ops) and (m.funcs[c].ret == i.ty or True):
                        self.callees[f].add(c)
                        self.callers.setdefault(c, {}).setdefault(f, []).append(i)
        self._reach = {}
        self._mod = None

    def by_src(self, name):
        return [f for f in self.m.funcs.values() if f.src == name]
    def fn(self, name):
        fs = self.by_src(name)
        return fs[0] if fs else None
    def reach(self, name):
        """functions and externals reachable from name"""
        if name in self._reach: return self._reach[name]
        seen = {name}; w = [name]
        while w:
            for c in self.callees.get(w.pop(), ()):
                if c not in seen: seen.add(c); w.append(c)
        self._reach[name] = seen
        return seen
    def small(self, name, n=80):
        """leaf function small enough to be always analysed in context"""
        c = getattr(self, '_small', None)
        if c is None: c = self._small = {}
        if name not in c:
            f = self.m.funcs.get(name)
            c[name] = f is not None and self.is_small(f, n)
        return c[name]
    def is_small(self, f, n):
        k = sum(1 for _ in f.instrs())
        if k <= n and not any(x in self.m.funcs for x in self.callees.get(f.name, ())): return True
        return k <= 150 and not self.modset(f.name) and not any(x in self.m.decls and x not in absint.PURE_EXT and not x.startswith('llvm.') for x in self.reach(f.name))
    def rootset(self):
        """externally visible functions"""
        return [f for f in self.m.funcs.values() if not f.internal]

    # ---------------------------------------------------------------- may-write summaries
    def defs(self, f):
        d = getattr(f, '_defs', None)
        if d is None:
            d = {i.res: i for i in f.instrs() if i.res is not None}
            f._defs = d
        return d

    def place(self, f, v, depth=0):
        """abstract place of a pointer operand: ('field', struct, off, size) | ('param', k) | ('local',) | ('glob', n) |
        ('struct', name) pointer to a whole struct | ('bytes',)"""
        m = self.m
        if depth > 12: return ('bytes',)
        if v[0] == 'glob': return ('glob', v[1])
        if v[0] == 'cexpr': return self.place(f, v[3][0][1], depth + 1)
        if v[0] != 'loc': return ('none',)
        for k, (t, n) in enumerate(f.params):
            if n == v[1]:
                s = self.ptype(f, v)
                return ('param', k, s)
        i = self.defs(f).get(v[1])
        if i is None: return ('bytes',)
        if i.op == 'alloca': return ('local', v[1])
        if i.op == 'getelementptr':
            t = i.x
            if isinstance(t, Named) and len(i.ops) >= 3:
                off = 0; cur = t; sz = None
                ok = True
                for (ty, iv_) in i.ops[2:]:
                    while isinstance(cur, Named): cur = m.types[cur.name]
                    if cur[0] in ('struct', 'packed'):
                        o, cur = m.field_off(cur, iv_[1]); off += o
                    else:
                        # array element: the whole array
                        sz = m.sizeof(cur); ok = False; break
                sz = sz or m.sizeof(cur)
                # the linker merges structurally equal types, so the source type of the base is preferred
                b = self.place(f, i.ops[0][1], depth + 1) if i.ops[1][1] == ('int', 0) else ('bytes',)
                if b[0] == 'field' and b[3] >= m.sizeof(t): return ('field', b[1], b[2] + off, sz)
                if b[0] in ('param', 'struct') and b[-1] and self.distruct(b[-1]) and self.m.di_size(self.distruct(b[-1])) == m.sizeof(t): return ('field', b[-1], off, sz)
                return ('field', sname(t.name), off, sz)
            b = self.place(f, i.ops[0][1], depth + 1)
            if b[0] == 'field' or b[0] == 'local' or b[0] == 'glob': return b
            if b[0] == 'param': return b
            return b if b[0] in ('struct',) else ('bytes',)
        if i.op in ('bitcast', 'freeze'): return self.place(f, i.ops[0][1], depth + 1)
        if i.op == 'phi' or i.op == 'select':
            vs = [x for x, l in i.x] if i.op == 'phi' else [i.ops[1][1], i.ops[2][1]]
            for x in vs:
                if x != v:
                    p = self.place(f, x, depth + 4)
                    if p[0] not in ('none', 'bytes'): return p
            return ('bytes',)
        if i.op in ('load', 'call'):
            s = self.ptype(f, v)
            return ('struct', s) if s else ('bytes',)
        return ('bytes',)

    def ptype(self, f, v):
        """struct name pointed to by value v according to debug info"""
        m = self.m
        if v[0] != 'loc': return None
        for dv in getattr(f, 'dbgvars', {}).get(v[1], []):
            t = (m.md.get(dv) or {}).get('type')
            pt = m.di_pointee(t) if t else None
            s = self.dstruct(pt)
            if s: return s
        i = self.defs(f).get(v[1])
        if i is None: return None
        if i.op == 'load':
            b = self.defs(f).get(i.ops[0][1][1]) if i.ops[0][1][0] == 'loc' else None
            if b is not None and b.op == 'getelementptr' and isinstance(b.x, Named):
                pl = self.place(f, ('loc', b.res))
                if pl[0] == 'field':
                    di = self.distruct(pl[1])
                    if di:
                        path, t, r = m.field_at(di, pl[2])
                        pt = m.di_pointee(t) if t else None
                        return self.dstruct(pt)
        if i.op == 'call' and i.x[0] == 'glob' and i.x[1] in m.funcs:
            g = m.funcs[i.x[1]]
            sub = m.md.get(g.dbg) or {}
            lst = Interp.raw_list(self, (m.md.get(sub.get('type')) or {}).get('types')) if sub else []
            if lst and lst[0]: return self.dstruct(m.di_pointee(lst[0]))
        return None
    @property
    def mod(self): return self.m

    def dstruct(self, t):
        if not t or t == 'void': return None
        mm = self.m.md.get(self.m.di_strip(t))
        if mm and mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type':
            return mm.get('name') or self.m.di_typedef_name(t)
        return None
    def distruct(self, name):
        d = getattr(self, '_dis', None)
        if d is None:
            d = {}
            for k, mm in self.m.md.items():
                if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type' and mm.get('name') and mm.get('elements'):
                    d.setdefault(mm['name'], k)
            # typedef'd anonymous structs
            for k, mm in self.m.md.items():
                if mm.get('_') == 'DIDerivedType' and mm.get('tag') == 'DW_TAG_typedef' and mm.get('baseType'):
                    b = self.m.md.get(mm['baseType'])
                    if b and b.get('_') == 'DICompositeType' and not b.get('name') and b.get('elements'): d.setdefault(mm['name'], mm['baseType'])
            self._dis = d
        return d.get(name)

    def modset(self, name):
        """transitive may-write set of an internal function: set of ('field',s,off,size)|('struct',s)|('param',k,..)|('bytes',)|('glob',g)"""
        if self._mod is None: self._compute_mod()
        return self._mod.get(name, set())

    def _compute_mod(self):
        m = self.m
        loc = {}
        callsites = {}
        WR = {'memcpy': [0], 'memmove': [0], 'memset': [0], 'strcpy': [0], 'strncpy': [0], 'strcat': [0], 'strncat': [0], 'snprintf': [0], 'sprintf': [0]}
        for f in m.funcs.values():
            s = set(); cs = []
            for i in f.instrs():
                if i.op == 'store':
                    s.add(self.place(f, i.ops[1][1]))
                elif i.op == 'call':
                    nm = i.x[1] if i.x[0] == 'glob' else None
                    if nm and nm.startswith('llvm.mem'): s.add(self.whole(self.place(f, i.ops[0][1])))
                    elif nm and nm.startswith('llvm.'): pass
                    elif nm in WR: s.add(self.whole(self.place(f, i.ops[0][1])))
                    elif nm in m.funcs: cs.append((nm, i))
                    elif nm is None:
                        for c in self.callees.get(f.name, ()):
                            if c in m.funcs and len(m.funcs[c].params) == len(i.ops): cs.append((c, i))
                    elif nm not in absint.PURE_EXT:
                        for t, v in i.ops:
                            if t == 'ptr':
                                p = self.place(f, v)
                                if p[0] in ('field', 'param', 'local'): s.add(p)
            loc[f.name] = s; callsites[f.name] = cs
        ch = True
        res = {k: set(p for p in v if p[0] not in ('none', 'local')) for k, v in loc.items()}
        while ch:
            ch = False
            for f in m.funcs.values():
                cur = res[f.name]; n = len(cur)
                for c, i in callsites[f.name]:
                    for e in list(res[c]):
                        if e[0] == 'param':
                            if e[1] < len(i.ops):
                                p = self.place(f, i.ops[e[1]][1])
                                if p[0] in ('local', 'none'): continue
                                if p[0] == 'param': cur.add(('param', p[1], p[2]))
                                elif p[0] == 'struct' and e[2] is None: cur.add(('bytes',))
                                else: cur.add(p)
                        else: cur.add(e)
                if len(cur) != n: ch = True
        self._mod = res

    def whole(self, p):
        if p[0] == 'param' and p[2]: return ('struct', p[2])
        return p

    def size_of_struct(self, s):
        d = self.distruct(s)
        return self.m.di_size(d) if d else None


# ------------------------------------------------------------------------------------------------ interpreter with summaries
class SInterp(Interp):
    """Interp whose non-inlined internal callees are replaced by their may-write summary.  `inline` decides which internal
    functions are analysed in context."""
    def __init__(self, prog, mon=None, inline=None, maxinline=6, **kw):
        super().__init__(prog.m, mon, **kw)
        self.prog = prog; self.inline = inline; self.maxinline = maxinline
        self.summarised = set()

    def call_one(self, fn, ins, name, calls):
        if name in self.mod.funcs and name not in self.skip and name not in self.stack:
            d = len(self.stack) // 2
            if d >= self.maxinline or (self.inline is not None and not self.inline(name, d)):
                out = []
                rest = []
                for st, args in calls:
                    r = self.mon.on_call(self, st, ins, name, args)
                    if r is not None: out.extend(r)
                    else: rest.append((st, args))
                self.summarised.add(name)
                for st, args in rest: out.extend(self.summary_call(st, ins, name, args))
                return out
        elif name in self.mod.funcs and name in self.stack:
            out = []
            for st, args in calls:
                r = self.mon.on_call(self, st, ins, name, args)
                out.extend(r if r is not None else self.summary_call(st, ins, name, args))
            return out
        elif name in self.mod.funcs and name in self.skip:
            out = []
            for st, args in calls:
                r = self.mon.on_call(self, st, ins, name, args)
                out.extend(r if r is not None else self.summary_call(st, ins, name, args))
            return out
        return super().call_one(fn, ins, name, calls)

    def struct_of(self, o):
        s = getattr(self.prog, '_so', None)
        if s is None: s = self.prog._so = {}
        k = o.di
        if k not in s: s[k] = self.prog.dstruct(k) if k else None
        return s[k]

    def embeds(self, outer, inner):
        """offsets at which struct `inner` lies inside struct `outer`"""
        c = getattr(self.prog, '_emb', None)
        if c is None: c = self.prog._emb = {}
        k = (outer, inner)
        if k in c: return c[k]
        res = []
        def walk(t, base, depth):
            if depth > 6: return
            mm = self.mod.md.get(self.mod.di_strip(t)) or {}
            if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type':
                if self.prog.dstruct(t) == inner: res.append(base); return
                for o, n, bt, sz in self.mod.di_members(self.mod.di_strip(t)): walk(bt, base + o, depth + 1)
        d = self.prog.distruct(outer)
        if d: walk(d, 0, 0)
        c[k] = res
        return res

    def summary_effects(self, st, name, args):
        eff = self.prog.modset(name)
        fields = {}
        bytes_ = False
        for e in eff:
            if e[0] == 'field': fields.setdefault(e[1], []).append((e[2], e[3]))
            elif e[0] == 'struct' and e[1]: fields.setdefault(e[1], []).append((0, self.prog.size_of_struct(e[1]) or 1 << 30))
            elif e[0] == 'bytes': bytes_ = True
            elif e[0] == 'param':
                if e[1] < len(args):
                    a = self.resolve(st, args[e[1]])
                    for a in (st.alts.get(a.o, (a,)) if isinstance(a, Ptr) else ()):
                        if isinstance(a, Ptr):
                            if e[2]: 
                                fields.setdefault(e[2], []).append((0, self.prog.size_of_struct(e[2]) or 1 << 30))
                            else: self.havoc_arg(st, a)
            elif e[0] == 'glob':
                o = [o for o in st.mem if o.kind == 'global' and o.name == e[1]]
                for x in o: self.havoc(st, x)
        if fields or bytes_:
            for o in list(st.mem) + [o for o in st.dflt if o not in st.mem]:
                so = self.struct_of(o)
                if so is None:
                    if bytes_ and o.kind in ('heap', 'lazy', 'param'): self.havoc(st, o)
                    continue
                for s, rs in fields.items():
                    for base in ([0] if s == so else self.embeds(so, s)):
                        for off, sz in rs: self.havoc_range(st, o, base + off, sz)

    def summary_call(self, st, ins, name, args):
        self.summary_effects(st, name, args)
        if any(f in self.prog.reach(name) for f in ('free', 'CRYPTO_free')): st.mon['_freed_unknown'] = True
        r = self.ext_ret(st, ins, name, args)
        f = self.mod.funcs[name]
        if isinstance(r, Ptr):
            sub = self.mod.md.get(f.dbg) or {}
            lst = self.raw_list((self.mod.md.get(sub.get('type')) or {}).get('types'))
            if lst and lst[0]:
                pt = self.mod.di_pointee(lst[0])
                if pt and pt != 'void':
                    r = Ptr(mkobj(r.o.name + ':t', 'lazy', di=pt), 0)
                    st.mem.pop(r.o, None); st.null.pop(r.o, None); st.dflt.pop(r.o, None)
        elif isinstance(r, Lin):
            # enumeration / boolean results have a known range
            sub = self.mod.md.get(f.dbg) or {}
            lst = self.raw_list((self.mod.md.get(sub.get('type')) or {}).get('types'))
            if lst and lst[0] and isinstance(ins.ty, str) and INT.match(ins.ty):
                w = int(ins.ty[1:])
                if w > 1:
                    lo, hi = self.range_of(lst[0], w)
                    n = one_sym(r)[0].n
                    st.iv[n] = (lo, hi)
        return [(r, st)]


# ------------------------------------------------------------------------------------------------ output
class Result:
    def __init__(self, prop, tier):
        self.prop = prop; self.tier = tier; self.t0 = time.time()
        self.findings = []     # dicts: rule, where, fn, msg, path, config
        self.counts = {}; self.rules = []; self.assumptions = []; self.notes = []
        self.functions = set(); self.errors = []; self.seen = {}
    def add(self, rule, where, fn, msg, path=(), config='default'):
        rel = lambda s: s.replace(REPO + '/', '')
        where = rel(where)
        for f in self.findings:
            if (f['rule'], f['where'], f['function']) == (rule, where, fn): return
        self.findings.append(dict(rule=rule, where=where, function=fn, message=rel(msg), path=[rel(str(x)) for x in path][-25:], config=config))
    def count(self, k, n=1): self.counts[k] = self.counts.get(k, 0) + n
    def need(self, k, n=1):
        """vanished anchor: an obligation class with no instance is an analysis error, not a pass"""
        if self.counts.get(k, 0) < n: self.errors.append('no instance of "%s" found (expected at least %d)' % (k, n))

def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            if ln.startswith('known:'): out.append(dict(json.loads(ln[6:]), status='known'))
    return out

def finish(res, level='other', explanation=''):
    wall = time.time() - res.t0
    known = [k for k in load_known() if k.get('property') == res.prop and k.get('status') == 'known']
    viol = []; kn = []
    for f in res.findings:
        m = None
        for k in known:
            if k['rule'] == f['rule'] and k['function'] == f['function'] and (not k.get('contains') or k['contains'] in f['message'] or k['contains'] in f['where']):
                m = k; break
        if m: kn.append((f, m))
        else: viol.append(f)
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    cov = dict(res.counts)
    cov['explanation'] = explanation
    cov['rules'] = res.rules
    cov['functions_analysed'] = len(res.functions)
    cov['functions'] = sorted(res.functions)
    ev = dict(property=res.prop, tier=res.tier, seed=int(os.environ.get('VERIF_SEED', '1')), level=level, coverage=cov,
              wall_s=round(wall, 2), assumptions=res.assumptions,
              violations=[dict(rule=f['rule'], where=f['where'], function=f['function'], message=f['message']) for f in viol])
    if res.notes: ev['coverage']['notes'] = res.notes
    with open(os.path.join(EVID, res.prop + '.json'), 'w') as fh: json.dump(ev, fh, indent=1, default=str)
    for k in sorted(res.counts): print('  %-60s %s' % (k, res.counts[k]))
    print('  functions analysed: %d, wall %.1f s' % (len(res.functions), wall))
    if res.errors:
        for e in res.errors: print('ANALYSIS-ERROR property=%s %s' % (res.prop, e))
    for f, k in kn: print('KNOWN-FINDING: property=%s %s' % (res.prop, k['what']))
    for n, f in enumerate(viol):
        rp = os.path.join(EVID, 'replay', '%s.%d.json' % (res.prop, n))
        with open(rp, 'w') as fh: json.dump(f, fh, indent=1, default=str)
        print('%s: %s in %s: %s [%s]' % (f['where'], f['rule'], f['function'], f['message'], f['config']))
        for p in f['path'][-8:]: print('      via %s' % p)
        print('VIOLATION property=%s replay=%s' % (res.prop, rp))
    if viol: return 1
    if res.errors: return 2
    print('OK property=%s' % res.prop)
    return 0

def pmap(fn, items, procs=8):
    """map in forked workers; fn must be a module-level closure inherited through fork"""
    items = list(items)
    if len(items) <= 1: return [fn(x) for x in items]
    global _PM_FN
    _PM_FN = fn
    ctx = multiprocessing.get_context('fork')
    with ctx.Pool(min(procs, len(items))) as pool:
        return pool.map(_pm_call, items, chunksize=1)
def _pm_call(x): return _PM_FN(x)
