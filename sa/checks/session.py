"""D04: sessions share nothing.  D05: a reset leaves nothing of the former stream behind."""
from core import *
from vendor import fields
from handout import leaves, is_ptr, ret_at, HInterp
from versions import enum

# library functions that keep state for the whole process between calls, or change it
NONREENTRANT = re.compile(r'^(strtok|localtime|gmtime|ctime|asctime|rand|srand|random|srandom|drand48|lrand48|setlocale|setenv|putenv|unsetenv|strsignal|basename|dirname|getopt|readdir|'
    r'inet_ntoa|gethostbyname|getpwnam|getpwuid|tmpnam|crypt|ecvt|fcvt|signal|sigaction|atexit|exit|_exit|abort_handler|chdir|umask|'
    r'EVP_set_default_properties|EVP_default_properties_enable_fips|OPENSSL_cleanup|OPENSSL_config|CRYPTO_set_mem_functions|OSSL_LIB_CTX_set0_default|RAND_seed|RAND_add|RAND_set_rand_method|'
    r'ENGINE_set_default\w*|OSSL_PROVIDER_load|OSSL_PROVIDER_unload|OBJ_create|OBJ_cleanup|EVP_cleanup|CONF_modules_load\w*)$')
LOCKED = ('threaded',)
# pointer arguments of library functions that are only read
READS = {'memcpy': (1,), 'memmove': (1,), 'memcmp': (0, 1), 'strcmp': (0, 1), 'strlen': (0,), 'strcpy': (1,), 'printf': (0,), 'sscanf': (0, 1)}

def glob_of(P, f, v, depth=0):
    """the global variable an address is derived from"""
    if v[0] == 'glob': return v[1]
    if depth > 12: return None
    if isinstance(v, tuple) and v[0] not in ('loc',):
        # constant expression on a global
        for x in v[1:]:
            for y in (x if isinstance(x, (list, tuple)) else ()):
                if isinstance(y, tuple) and len(y) == 2 and y[0] == 'glob': return y[1]
                if isinstance(y, tuple) and len(y) == 2 and isinstance(y[1], tuple):
                    g = glob_of(P, f, y[1], depth + 1)
                    if g: return g
        return None
    d = P.defs(f).get(v[1])
    if d is None or d.op not in ('getelementptr', 'bitcast', 'phi', 'select', 'addrspacecast', 'freeze'): return None
    for t, x in d.ops:
        if t == 'ptr':
            g = glob_of(P, f, x, depth + 1)
            if g: return g
    return None

def run_shared(res):
    res.rules += ['no function changes a variable that is not part of a session, a plugin handle or an argument; the data of the central signing thread, which all sessions share, is only changed in the plugin that locks it (D01)',
                  'no library function is called that keeps or changes state of the whole process']
    cfgs = ['default', 'threaded', 'debugprints', 'novendors']
    for cfg in cfgs:
        P = Prog(build(cfg)); m = P.m; n = 0
        mutable = {g for g, d in m.globals.items() if not d['const']}
        for f in m.funcs.values():
            if not list(f.instrs())[:1]: continue
            res.functions.add(f.name)
            for i in f.instrs():
                hits = []
                if i.op == 'store': hits = [(glob_of(P, f, i.ops[1][1]), 'is changed')]
                elif i.op in ('atomicrmw', 'cmpxchg'): hits = [(glob_of(P, f, i.ops[0][1]), 'is changed')]
                elif i.op == 'call' and i.x[0] == 'glob':
                    nm = i.x[1]; n += 1
                    if NONREENTRANT.match(nm) and not (m.funcs.get(nm) and list(m.funcs[nm].instrs())[:1]):
                        res.add('process-wide-state', i.where, f.name, '%s() keeps or changes state that all sessions of the process share' % nm, config=cfg)
                    if nm.startswith('llvm.dbg') or nm.startswith('llvm.lifetime'): continue
                    for k, (t, v) in enumerate(i.ops):
                        if t != 'ptr': continue
                        if nm.startswith('llvm.mem') and k != 0: continue
                        if k in READS.get(nm, ()): continue
                        g = glob_of(P, f, v)
                        if g in mutable: hits.append((g, 'is handed to %s(), which may change it,' % nm))
                for g, what in hits:
                    if g is None or g not in m.globals: continue
                    res.count('accesses to variables outside of sessions (%s)' % cfg)
                    if cfg in LOCKED and 'plugin' in (i.where or ''): continue
                    if m.globals[g]['const']: continue
                    res.add('shared-variable', i.where, f.name, 'the variable %s, which all sessions share, %s without a lock' % (g, what), config=cfg)
        res.count('calls (%s)' % cfg, n); res.need('calls (%s)' % cfg, 300)
        res.count('variables (%s)' % cfg, len(m.globals))
    return res

# ---------------------------------------------------------------------------------------------------------------------
def whole(P, di):
    """the definition of a struct that is only declared where it is used"""
    m = P.m; d = m.di_strip(di)
    if m.di_members(d): return di
    n = str((m.md.get(d) or {}).get('name')).strip('"')
    for k, x in m.md.items():
        if x.get('_') == 'DICompositeType' and str(x.get('name')).strip('"') == n and m.di_members(k): return k
    return di

RESET = 'signed_video_reset'; CREATE = 'signed_video_create'

class Exits(Monitor):
    def __init__(self, root): self.root = root; self.exits = []; self.lists = []
    def key(self, st):
        """states in which the former first item is still in the list are kept apart"""
        f = []
        for o, off in self.lists:
            x = st.mem.get(o, {}).get(off)
            f.append(x is not None and isinstance(x[0], Ptr) and x[0].o.name == 'former first item')
        return (tuple(f), st.mon.get('init') or 0)
    def join_field(self, k, a, b): return min(a or 0, b or 0)
    def on_call(self, I, st, ins, name, args):
        if name in INIT: st.mon['init'] = min((st.mon.get('init') or 0) + 1, 3)
        return None
    def on_exit(self, I, st, fn, ret):
        if fn.name == self.root: self.exits.append((I.resolve(st, ret), st))

# members that describe the stream, not the configuration of the session: None stands for all members
STATE = {'': ('signing_started', 'sei_generation_enabled'), 'validation_flags': None, 'gop_state': None}
BEHIND = {'latest_validation': None, 'accumulated_validation': None, 'gop_info': ('verified_signature_hash', 'list_idx', 'has_reference_hash', 'global_gop_counter_is_synced', 'num_nalus_in_gop_hash', 'linked_hashes'),
          'last_nalu': ('is_last_nalu_part',), 'nalu_list': ('first_item',)}
LEGACY = {'validation_flags': None, 'gop_state': None}
LEGACY_BEHIND = {'latest_validation': None, 'accumulated_validation': None, 'gop_info': ('verified_signature_hash', 'list_idx', 'has_reference_hash', 'global_gop_counter_is_synced', 'num_nalus_in_gop_hash'), 'nalu_list': ('first_item',)}

INIT = ('EVP_DigestInit_ex', 'EVP_DigestInit', 'EVP_DigestInit_ex2', 'EVP_MD_CTX_reset')

def former(o, q): return lin(mksym(('former', o.name, q), 8, 0, 255, 'former byte'))

def expected(m, k, f):
    """the value of a member in a new session"""
    f = f.split('.')[-1]
    if k == 'latest_validation' and f in ('number_of_expected_picture_nalus', 'number_of_received_picture_nalus'): return -1
    if f == 'public_key_validation': return enum(m, 'SV_PUBKEY_VALIDATION_NOT_FEASIBLE')
    if f == 'verified_signature_hash': return -1
    if f == 'is_first_validation': return 1
    if f == 'is_last_nalu_part': return 1
    return 0

def run_reset(res):
    res.rules += ['whenever a reset succeeds, the verdicts, the state of the GOP, the flags of the validation, the mark of a started signing and the list of NAL units are those of a new session']
    P = Prog(build('default')); m = P.m
    if RESET not in m.funcs: raise AnalysisError('%s() not found' % RESET)
    fn = m.funcs[RESET]; at = ret_at(fn)
    sd = P.distruct(P.ptype(fn, ('loc', fn.params[0][1])))
    SF = fields(m, sd); lists = {f for f in m.funcs if 'list' in f and f not in (RESET,) }
    n = 0
    for mode in ('current', 'legacy'):
        absint._objs.clear()
        mon = Exits(RESET)
        I = HInterp(P, mon, inline=lambda n, d: True, maxinline=8, cap=24, steps=800000); I.cpu_limit = time.process_time() + 90
        st = State(); objs = []
        h = mkobj('session', 'param', di=sd); st.null[h] = False
        def part(o, di, F, k):
            d = whole(P, m.di_pointee(m.field_at(di, F[k][0])[1])); x = mkobj(o.name + '.' + k, 'lazy', di=d, parent=(o, F[k][0])); st.null[x] = False
            I.store(st, Ptr(o, F[k][0]), Ptr(x, 0), 8)
            return x, d
        def collect(o, di, S, B):
            F = fields(m, di); L = leaves(m, di)
            for k, names in S.items():
                for f in L:
                    if (k == '' and f in names) or (k and f.startswith(k + '.')): objs.append((o, di, L[f], k, f))
            for k, names in B.items():
                if k not in F: continue
                x, d = part(o, di, F, k); D = leaves(m, d)
                for f in D:
                    if names is None or f in names: objs.append((x, d, D[f], k, k + '.' + f))
        if mode == 'current':
            if 'legacy_sv' in SF: I.store(st, Ptr(h, SF['legacy_sv'][0]), 0, 8)
            collect(h, sd, STATE, BEHIND)
        else:
            if 'legacy_sv' not in SF: continue
            for k in BEHIND:
                if k in SF: part(h, sd, SF, k)
            l, ld = part(h, sd, SF, 'legacy_sv')
            if not m.di_members(m.di_strip(ld)): res.notes.append('the legacy session was not found'); continue
            collect(l, ld, LEGACY, LEGACY_BEHIND)
        for o, di, (off, sz), k, f in objs:
            if k == 'nalu_list':
                x = mkobj('former first item', 'lazy', di=m.di_pointee(m.field_at(di, off)[1]), parent=(o, off)); st.null[x] = False
                I.store(st, Ptr(o, off), Ptr(x, 0), 8); mon.lists.append((o, off))
            if sz > 8:
                for q in (off, off + sz // 2, off + sz - 1): I.store(st, Ptr(o, q), former(o, q), 1)
        names = I.param_names(fn)
        try: I.run(RESET, over={names.get(fn.params[0][1], fn.params[0][1]): Ptr(h, 0)}, st=st)
        except Budget as e: res.notes.append('%s session: not decided (%s)' % (mode, e)); continue
        res.functions |= set(I.covered); ok = 0; left = {}; need = 1 if mode == 'current' else 2
        for r, s in mon.exits:
            if is_num(r) and (iv(s, r)[0] > 0 or iv(s, r)[1] < 0): continue
            ok += 1
            if (s.mon.get('init') or 0) < need: res.add('not-reset', at.where, RESET, 'after a successful reset the hash of a NAL unit may still be the one begun in the former stream%s' % (' (legacy)' if mode == 'legacy' else ''), s.path())
            for o, di, (off, sz), k, f in objs:
                p = is_ptr(m, di, off); n += 1
                if sz > 8:
                    bad = [q for q in (off, off + sz // 2, off + sz - 1) if I.resolve(s, I.load(s, Ptr(o, q), 'i8')) == former(o, q)]
                    # (a loop is left by states that are not final yet: what counts is whether the member is ever cleared)
                    left.setdefault(f, []).append((bool(bad), s.path()))
                    continue
                v = I.resolve(s, I.load(s, Ptr(o, off), 'ptr' if p else 'i%d' % (8 * sz)))
                want = expected(m, k, f)
                if k == 'nalu_list':
                    if isinstance(v, Ptr) and v.o.name == 'former first item': res.add('not-reset', at.where, RESET, 'after a successful reset the NAL units of the former stream may still be in the list', s.path())
                    continue
                if p:
                    if v == 0 or isinstance(v, Ptr) and I.nullness(s, v) is True: continue
                elif is_num(v) and (iv(s, v) == (want, want) or want == -1 and isinstance(v, int) and v in (2 ** (8 * sz) - 1,)): continue
                res.add('not-reset', at.where, RESET, 'after a successful reset %s%s may not be what it is in a new session (%r)' % ('of the legacy validation ' if mode == 'legacy' else '', f, v), s.path())
        for f, l in left.items():
            if all(b for b, _ in l): res.add('not-reset', at.where, RESET, 'after a successful reset %s may still hold what the former stream left' % f, l[0][1])
        res.count('successful ends of a reset (%s session)' % mode, ok); res.need('successful ends of a reset (%s session)' % mode, 1)
    res.count('members compared with a new session', n); res.need('members compared with a new session', 30)
    return res
