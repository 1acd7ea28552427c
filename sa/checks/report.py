"""How the reported verdict is derived (A03) and how verdicts accumulate (A04)."""
from core import *
from drive import Discharge
from verdict import Base, fld, may_be, gate_value, field_uses, is_status

OK_MISSING, OK, PRESENT, NOT_OK = 3, 4, 1, 2
BAD = (78, 69)      # 'N', 'E'

def latest(s): return 'latest_validation' in s
def accum(s): return 'accumulated_validation' in s

class Verdict(Base):
    """A03"""
    def __init__(self, P, sites, cur): self.P = P; self.sites = sites; self.cur = cur
    def key(self, st): return (st.mon.get('bad', False), st.mon.get('now', False), st.mon.get('fine', False), st.mon.get('pk'), any(x == (1, 1) for x in gate_value(self.I, st)))
    def on_enter(self, I, st, fn, args): self.I = I
    def join_field(self, k, a, b):
        if k in ('bad', 'now'): return a or b
        if k == 'pk': return a if a == b else None
        if k == 'fine': return bool(a) and bool(b)
        return Base.join_field(self, k, a, b)
    def loaded(self, I, st, ins, p, v):
        s, f = fld(I, p)
        if f.split('.')[-1] == 'public_key_has_changed' and (latest(s) or 'latest' in f) and isinstance(v, Lin):
            t = st.clone(); out = []
            if assume_le0(t, v): t.mon['pk'] = 0; out.append((t, v))
            if assume_le0(st, ladd(1, v, -1)): st.mon['pk'] = 1; out.append((st, v))
            return out
        if f in ('next', 'first_item') and st.mon.get('now'): st.mon['now'] = False; st.mon['bad'] = True
        if f in ('next', 'first_item') and st.mon.get('fine'): st.mon['fine'] = False
        if is_status(f) and 'item' in s and self.counts(ins.fn):
            v = I.resolve(st, v)
            out = []
            # the status of one item does not change between two looks at it
            if st.mon.get('now') and not (isinstance(v, Lin) and not all(iv(st, v)[0] <= k <= iv(st, v)[1] for k in BAD)): return [(st, st.mon['now'][1])]
            if st.mon.get('fine'):
                if isinstance(v, Lin):
                    for k in BAD:
                        if not assume_ne(st, ladd(v, -k)): return []
                return [(st, v)]
            x = v if isinstance(v, Lin) else None
            o = one_sym(x) if x is not None else None
            if o is None or o[1] != 0:
                if isinstance(v, int) and v in BAD: self.saw(I, st, p, v)
                return [(st, v)]
            for k in BAD:
                t = st.clone()
                if assume_le0(t, ladd(v, -k)) and assume_le0(t, ladd(k, v, -1)):
                    I.store(t, p, k, 1); self.saw(I, t, p, k); out.append((t, k))
            if all(assume_ne(st, ladd(v, -k)) for k in BAD): st.mon['fine'] = True; out.append((st, v))
            return out
        return Base.loaded(self, I, st, ins, p, v)
    def saw(self, I, st, p, k):
        # a status that was read although the item does not take part is of no consequence
        for off, (v, sz) in st.mem.get(p.o, {}).items():
            if isinstance(off, int) and fld(I, Ptr(p.o, off))[1] == 'used_in_gop_hash':
                x = I.resolve(st, v)
                if is_num(x) and iv(st, x) == (0, 0): return
        st.mon['now'] = (p.o.name, k)
    def counts(self, fn):
        """statistics functions: read item statuses, change no item"""
        c = getattr(self.P, '_cnt', None)
        if c is None: c = self.P._cnt = {}
        if fn.name not in c:
            ms = self.P.modset(fn.name)
            c[fn.name] = not any('item' in str(e[1]) or 'nalu_list' in str(e[1]) for e in ms if e[0] in ('field', 'struct')) and fn.ret != 'ptr' and \
                         any(i.op == 'load' and self.is_status_place(fn, i) for i in fn.instrs()) and bool(fn.loops())
        return c[fn.name]
    def is_status_place(self, fn, i):
        pl = self.P.place(fn, i.ops[0][1])
        if pl[0] != 'field': return False
        d = self.P.distruct(pl[1])
        return bool(d) and (self.P.m.field_at(d, pl[2])[0] or '').split('.')[-1] == 'validation_status'
    def on_store(self, I, st, ins, p, size, val):
        s, f = fld(I, p)
        if f.split('.')[-1] != 'authenticity' or not (latest(s) or 'latest_validation' in f): return
        v = I.resolve(st, val)
        if not (may_be(I, st, val, OK) or may_be(I, st, val, OK_MISSING)): return
        if p.o.kind == 'heap' : return
        self.sites.add(('verdict', ins.fn.name, ins.where))
        if self.copy(I, st, v): return
        if st.mon.get('bad') or st.mon.get('now'):
            I.report('ok-with-invalid-nalu', ins, 'the verdict may be OK although a NALU of the validated part is marked not authentic or in error', st)
        if 'legacy' not in ins.fn.name and not any(x == (1, 1) for x in gate_value(I, st)):
            I.report('ok-without-verified-signature', ins, 'the verdict may be OK although the signature verification result is not known to be 1 (known: %s)' % (gate_value(I, st) or 'nothing'), st)
        c = self.cell(I, st, p.o, 'public_key_has_changed')
        if c is not None and c != (0, 0):
            I.report('ok-with-changed-key', ins, 'the verdict may be OK although the public key has changed', st)
        if c is None:
            I.report('ok-with-changed-key', ins, 'the verdict may be OK without regard to a changed public key', st)
    def copy(self, I, st, v):
        """value loaded from the same field (a report handed out)"""
        from verdict import FIELD_OF_SYM
        o = one_sym(v) if isinstance(v, Lin) else None
        return bool(o and o[1] == 0 and FIELD_OF_SYM.get(o[0].n, ('', ''))[1].split('.')[-1] == 'authenticity')
    def cell(self, I, st, o, name):
        for off, (v, sz) in st.mem.get(o, {}).items():
            if isinstance(off, int) and fld(I, Ptr(o, off))[1].split('.')[-1] == name:
                x = I.resolve(st, v)
                return iv(st, x) if is_num(x) else (0, 1)
        return None

def early_exits(P, fn):
    """edges that leave the item loop of a statistics function other than at the end of the list"""
    defs = P.defs(fn)
    out = []; n = 0
    for h, body in fn.loops().items():
        if not any(i.op == 'load' and (lambda pl: pl[0] == 'field' and (P.m.field_at(P.distruct(pl[1]), pl[2])[0] if P.distruct(pl[1]) else '') == 'next')(P.place(fn, i.ops[0][1])) for b in body for i in b.ins): continue
        n += 1
        for b in body:
            if all(s in body for s in b.succ): continue
            t = b.ins[-1]
            c = defs.get(t.ops[0][1][1]) if t.op == 'br' and t.ops and t.ops[0][1][0] == 'loc' else None
            if c is not None and c.op == 'icmp' and any(v[0] == 'null' for ty, v in c.ops): continue
            out.append(t)
    return n, out

class Traversal(Base):
    """a statistics function looks at the status of every item that takes part"""
    def __init__(self, sites): self.sites = sites
    def key(self, st): return (st.mon.get('seen'), st.mon.get('pend'))
    def loaded(self, I, st, ins, p, v):
        s, f = fld(I, p); f = f.split('.')[-1]
        if f in ('first_item', 'next'):
            if f == 'next':
                self.sites.add(('visit', ins.fn.name, ins.where))
                if st.mon.get('seen'): st.mon['seen'] = False
                elif st.mon.get('pend'): I.report('item-not-counted', ins, 'an item is passed over without its validation status being looked at', st)
                else: st.mon['pend'] = True; st.mon['at'] = ins
            st.mon['cur'] = v
        elif f == 'used_in_gop_hash' and 'item' in s and isinstance(v, Lin):
            t = st.clone(); out = []
            if assume_le0(t, v): self.look(t); out.append((t, v))
            if assume_le0(st, ladd(1, v, -1)): out.append((st, v))
            return out
        elif is_status(f) and 'item' in s:
            # the first look at this item's status
            if st.mon.get('o') is not ins or True: self.look(st)
        return Base.loaded(self, I, st, ins, p, v)
    def look(self, st):
        if st.mon.get('pend'): st.mon['pend'] = False
        else: st.mon['seen'] = True
    def on_exit(self, I, st, fn, ret):
        if len(I.stack) > 1: return
        cur = st.mon.get('cur')
        if cur is None: return
        if st.mon.get('pend'): I.report('item-not-counted', st.mon['at'], 'an item is passed over without its validation status being looked at', st)
    def join_field(self, k, a, b):
        if k == 'cur': return a if a == b else b
        if k == 'at': return a or b
        return Base.join_field(self, k, a, b)


PKV_OK, PKV_NOT_OK = None, None
def enum_value(m, name):
    for k, mm in m.md.items():
        if mm.get('_') == 'DIEnumerator' and mm.get('name') == name: return int(mm.get('value'))
    return None

FLAGS = ('authenticity', 'public_key_has_changed', 'public_key_validation')
class Accumulate(Base):
    """A04: a stored accumulated verdict is never better than the one it replaces, sticky flags stay, and at the end of the
    update the accumulated verdict reflects the latest one"""
    def __init__(self, sites, target, notok): self.sites = sites; self.target = target; self.notok = notok
    def key(self, st): return (st.mon.get('split'), st.mon.get('wrote'))
    def side(self, I, p):
        s, f = fld(I, p); g = f.split('.')[-1]
        if g not in FLAGS: return None, None
        if accum(s) or 'accumulated_validation' in f: return 'acc', g
        if latest(s) or 'latest_validation' in f: return 'latest', g
        return None, None
    def loaded(self, I, st, ins, p, v):
        w, g = self.side(I, p)
        if w and g != 'authenticity' and isinstance(v, Lin):
            out = []
            for k in range(0, 2 if g == 'public_key_has_changed' else 3):
                t = st.clone()
                if assume_le0(t, ladd(v, -k)) and assume_le0(t, ladd(k, v, -1)):
                    if w == 'acc': t.mon['from:' + g] = (p.o, k)
                    t.mon['split'] = tuple(sorted(set(t.mon.get('split') or ()) | {(w, g, k)}))
                    out.append((t, k))
            return out
        return Base.loaded(self, I, st, ins, p, v)
    def initial(self, v, g): return isinstance(v, int) and ((v == 0) if g != 'public_key_validation' else v == self.notok + 1)
    def copied(self, I, st, v, g, p):
        from verdict import FIELD_OF_SYM
        fr = st.mon.get('from:' + g)
        if fr and isinstance(v, int): return fr[0] is not p.o and fr[1] == v
        o = one_sym(v) if isinstance(v, Lin) else None
        return bool(o and o[1] == 0 and accum(FIELD_OF_SYM.get(o[0].n, ('', ''))[0]))
    def on_store(self, I, st, ins, p, size, val):
        w, g = self.side(I, p)
        if w != 'acc' or p.o.kind == 'heap': return
        v = I.resolve(st, val)
        c = st.mem.get(p.o, {}).get(p.off)
        old = I.resolve(st, c[0]) if c is not None else I.load(st, p, 'i8' if size == 1 else 'i32')
        if isinstance(old, list): old = old[0] if old else None
        num = lambda x: is_num(x) and not isinstance(x, Cond)
        self.sites.add((g, ins.fn.name, ins.where))
        lo, hi = iv(st, v) if is_num(v) else (-BIG, BIG)
        olo, ohi = iv(st, old) if num(old) else (-BIG, BIG)
        if g == 'authenticity':
            if isinstance(v, int) and v == 0: return                  # a new start
            st.mon['wrote'] = True
            ok = ohi <= PRESENT or (num(v) and num(old) and prove_le0(st, ladd(v, old, -1))) or self.copied(I, st, v, g, p)
            if not ok: I.report('accumulated-verdict-improves', ins, 'the accumulated verdict may be replaced by a better one (old %r, new %r)' % (old, v), st)
        elif g == 'public_key_has_changed':
            if v == 0 and 'split' not in st.mon: return               # a new start
            ok = lo >= 1 or ohi <= 0 or self.copied(I, st, v, g, p)
            if not ok: I.report('key-change-forgotten', ins, 'an earlier change of the public key may be forgotten', st)
        else:
            if isinstance(v, int) and v != self.notok and 'split' not in st.mon: return
            ok = lo == hi == self.notok or not (olo <= self.notok <= ohi) or self.copied(I, st, v, g, p)
            if not ok: I.report('key-validation-forgotten', ins, 'a failed validation of the public key may be forgotten', st)
    def final(self, I, st, o, off, size):
        v = I.load(st, Ptr(o, off), 'i8' if size == 1 else 'i32')
        if isinstance(v, list): v = v[0]
        return I.resolve(st, v)
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.target or not st.mon.get('split'): return
        acc = []; lat = []
        for o in list(st.mem):
            sn = I.struct_of(o) or ''
            for off, n, t, sz in (I.mod.di_members(I.mod.di_strip(o.di)) if o.di else ()) or ():
                if accum(sn) and n in FLAGS: acc.append((n, o, off, sz))
                if latest(sn) and n in FLAGS: lat.append((n, o, off, sz))
        ins = [i for i in fn.instrs() if i.op == 'ret'][-1]
        for n in FLAGS:
            A = [x for x in acc if x[0] == n]; L = [x for x in lat if x[0] == n]
            if len(A) != 1 or len(L) != 1: continue
            a = self.final(I, st, *A[0][1:]); l = self.final(I, st, *L[0][1:])
            self.sites.add(('adopt', fn.name, n))
            if n == 'public_key_validation':
                if may_be(I, st, l, self.notok) and not (is_num(a) and iv(st, a) == (self.notok, self.notok)):
                    if is_num(l) and is_num(a) and a == l: continue
                    I.report('latest-not-adopted', ins, 'a failed validation of the public key may not be accumulated', st)
            elif n == 'public_key_has_changed':
                if not (is_num(a) and is_num(l) and (iv(st, a)[0] >= 1 or iv(st, l)[1] <= 0 or prove_le0(st, ladd(l, a, -1)))):
                    I.report('latest-not-adopted', ins, 'a change of the public key may not be accumulated (%r, %r)' % (a, l), st)
            else:
                if not (is_num(a) and is_num(l) and prove_le0(st, ladd(a, l, -1))):
                    I.report('latest-not-adopted', ins, 'the accumulated verdict may be better than the latest one (accumulated %r, latest %r)' % (a, l), st)


class Updated(Base):
    """every delivered validation result has been accumulated before the call returns successfully"""
    def __init__(self, P, upd, sites): self.P = P; self.upd = upd; self.sites = sites
    def key(self, st): return (st.mon.get('res'), st.mon.get('upd'), st.mon.get('ex'))
    def join_field(self, k, a, b):
        if k == 'res': return bool(a) or bool(b)
        if k in ('upd', 'ex'): return bool(a) and bool(b)
        return Base.join_field(self, k, a, b)
    def loaded(self, I, st, ins, p, v):
        s, f = fld(I, p); f = f.split('.')[-1]
        if f == 'has_auth_result' and isinstance(v, Lin) and ins.fn.name == self.root:
            t = st.clone(); out = []
            if assume_le0(t, v): out.append((t, 0))
            if assume_le0(st, ladd(1, v, -1)):
                st.mon['res'] = True; self.sites.add(('delivered', ins.fn.name, ins.where)); out.append((st, 1))
            return out
        if f == 'legacy_sv' and isinstance(v, Ptr) and I.nullness(st, v) is None:
            out = []
            for isnull in (True, False):
                for t in I.assume(st.clone(), Cond(('pnull', v.o)), isnull):
                    if not isnull: t.mon['ex'] = True         # the legacy session accumulates
                    out.append((t, v))
            return out
        return Base.loaded(self, I, st, ins, p, v)
    def on_call(self, I, st, ins, name, args):
        if name in self.upd: st.mon['upd'] = True
        return Base.on_call(self, I, st, ins, name, args)
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root: return
        if st.mon.get('res') and not st.mon.get('upd'):
            if st.mon.get('ex'): return
            ins = [i for i in fn.instrs() if i.op == 'ret'][-1]
            I.report('result-not-accumulated', ins, 'a validation result may be delivered without having been accumulated', st)


def flag_users(P, field, op='load'):
    m = P.m; out = set()
    for f in m.funcs.values():
        for i in f.instrs():
            if i.op != op: continue
            pl = P.place(f, i.ops[0 if op == 'load' else 1][1])
            if pl[0] != 'field': continue
            d = P.distruct(pl[1])
            if d and (m.field_at(d, pl[2])[0] or '').split('.')[-1] == field: out.add(f.name)
    return out

def run_verdict(res):
    m = build('default'); P = Prog(m)
    res.rules += ['a latest verdict of OK (with or without missing information) is stored only on paths where no NALU that takes part has been seen with a failed or erroneous status, '
                  'the signature verification result is 1 (current validation), and the public key is known not to have changed',
                  'the statistics the verdict is based on look at every item of the list up to its end']
    st = set()
    for f in field_uses(P, 'authenticity')['store']: st.add(f)
    probe = Verdict(P, set(), None)
    counters = sorted(f.name for f in m.funcs.values() if probe.counts(f) and any(t == 'ptr' for t, n in f.params[1:]))
    jobs = [('verdict', f) for f in sorted(st)] + [('trav', f) for f in counters]
    def work(j):
        kind, f = j
        sites = set()
        if kind == 'verdict':
            D = Discharge(P, lambda: Verdict(P, sites, f), inline=lambda n: n in m.funcs and probe.counts(m.funcs[n]), cap=16)
            return sites, D.site(f), D.analysed | D.covered, D.runs
        mon = Traversal(sites)
        I = SInterp(P, mon, inline=lambda n, d: True, cap=8, steps=500000)
        I.run(f)
        n, ee = early_exits(P, m.funcs[f])
        for t in ee: I.report('list-not-exhausted', t, 'the statistics may end before the last item of the list', None)
        return sites, list(I.reports.values()), set(I.covered), 1
    for sites, rep, an, runs in pmap(work, jobs):
        res.functions |= an; res.count('analysis runs', runs)
        for s in sites: res.seen.setdefault(s[0], set()).add(s)
        for r in rep: res.add(r.rule, r.where, r.fname, r.msg, r.path)
    res.count('stores that can make the verdict OK', len(res.seen.get('verdict', ()))); res.need('stores that can make the verdict OK')
    res.count('statistics functions', len(counters))
    res.notes += ['statistics functions: ' + ', '.join(counters)]
    return res

def run_accumulate(res):
    m = build('default'); P = Prog(m)
    res.rules += ['a store to the accumulated verdict either starts anew, or replaces a verdict that is at most "signature present", or is at most the replaced one',
                  'a recorded change of the public key or failed validation of it is never cleared by an update',
                  'at the end of the update the accumulated verdict is at most the latest one and holds its key change and failed key validation',
                  'every delivered result has been accumulated']
    notok = enum_value(m, 'SV_PUBKEY_VALIDATION_NOT_OK')
    if notok is None: raise AnalysisError('SV_PUBKEY_VALIDATION_NOT_OK not found')
    st = set()
    for g in FLAGS:
        for f in field_uses(P, g)['store']: st.add(f)
    # only functions that store to the accumulated part
    def acc_store(fn, g=FLAGS):
        f = m.funcs[fn]
        for i in f.instrs():
            if i.op == 'store':
                pl = P.place(f, i.ops[1][1])
                if pl[0] == 'field':
                    d = P.distruct(pl[1]); n = (m.field_at(d, pl[2])[0] or '') if d else ''
                    if n.split('.')[-1] in g and (accum(pl[1]) or 'accumulated_validation' in n): yield i
    tgt = sorted(f for f in st if any(acc_store(f)))
    # updates: at least one stored value is not a constant, and the function reads a latest verdict
    def latest_read(fn):
        f = m.funcs[fn]
        return any(i.op == 'load' and (lambda pl: pl[0] == 'field' and (latest(pl[1]) or 'latest_validation' in (m.field_at(P.distruct(pl[1]), pl[2])[0] or '' if P.distruct(pl[1]) else '')))(P.place(f, i.ops[0][1])) for i in f.instrs())
    upd = {f for f in tgt if any(i.ops[0][1][0] != 'int' for i in acc_store(f)) and latest_read(f)}
    roots = sorted(f for f in flag_users(P, 'has_auth_result') if any(P.reach(c) & upd for c in P.callees.get(f, ())))
    roots = [f for f in roots if f not in upd]
    def work(j):
        kind, f = j
        sites = set()
        if kind == 'acc':
            D = Discharge(P, lambda: Accumulate(sites, f, notok), inline=lambda n: False, cap=240)
            return sites, D.site(f), D.analysed | D.covered, D.runs
        mon = Updated(P, upd, sites); mon.root = f
        I = SInterp(P, mon, inline=lambda n, d: n not in upd and bool(P.reach(n) & upd) , cap=16, steps=1500000)
        I.run(f)
        return sites, [r for r in I.reports.values()], set(I.covered), 1
    for sites, rep, an, runs in pmap(work, [('acc', f) for f in tgt] + [('upd', f) for f in roots]):
        res.functions |= an; res.count('analysis runs', runs)
        for s in sites: res.seen.setdefault(s[0], set()).add(s)
        for r in rep: res.add(r.rule, r.where, r.fname, r.msg, r.path)
    res.count('stores to the accumulated verdict and flags', sum(len(res.seen.get(g, ())) for g in FLAGS)); res.need('stores to the accumulated verdict and flags')
    res.count('adopted values checked at the end of an update', len(res.seen.get('adopt', ()))); res.need('adopted values checked at the end of an update')
    res.count('deliveries of a validation result', len(res.seen.get('delivered', ()))); res.need('deliveries of a validation result')
    return res
