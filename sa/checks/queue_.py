"""D02: a signature is delivered to the session whose hash it signs, in order, in full, and never instead of an error."""
from core import *
from threads import Locks, Shape, SIGN
from nulls import public_functions
import os, re

RULES = ('other-data-signed', 'other-session', 'incomplete-signature', 'error-as-signature', 'no-signature', 'delivered-twice', 'lost-signature', 'order', 'outside-buffer', 'entry-kept', 'hash-not-queued', 'wrong-result')

class Queue:
    def __init__(s, m, di, name, base, es, n, mem, cnt): s.di = di; s.name = name; s.base = base; s.es = es; s.n = n; s.mem = mem; s.cnt = cnt
    def last(s): return s.base + s.es * (s.n - 1)

class QShape(Shape):
    """the buffers of hashes to sign and of signatures: arrays of structures with a hash or a signature"""
    def __init__(self, P):
        Shape.__init__(self, P); m = P.m; self.q = {}
        for k, mm in list(m.md.items()):
            if mm.get('_') != 'DICompositeType' or mm.get('tag') != 'DW_TAG_structure_type' or not mm.get('elements'): continue
            mem = m.di_members(k); qs = []
            for o, n, t, s in mem:
                a = m.md.get(m.di_strip(t))
                if not a or a.get('tag') != 'DW_TAG_array_type': continue
                et = a.get('baseType'); e = m.md.get(m.di_strip(et)) if et else None
                if not e or e.get('tag') != 'DW_TAG_structure_type': continue
                em = {}
                for eo, en, ety, esz in m.di_members(m.di_strip(et)): em[en] = (eo, esz)
                kind = 'signature' if 'signature' in em else 'hash' if 'hash' in em else None
                if kind is None or (kind == 'signature' and 'hash' in em): continue
                size = next((x for x in ('size', kind + '_size') if x in em), None)
                cnt = next(((co, cn) for co, cn, ct, cs in mem if cn.startswith(n) and cn != n and cs == 4), None)
                if size is None or cnt is None: continue
                es = m.di_size(m.di_strip(et)); d = {'data': em[kind], 'size': em[size]}
                if 'id' in em: d['id'] = em['id']
                err = next((x for x in em if 'err' in x or 'fail' in x), None)
                if err: d['err'] = em[err]
                q = Queue(m, k, n, o, es, s // es, d, cnt[0]); q.kind = kind; qs.append(q)
            if qs: self.q[m.di_strip(k)] = qs
        self.nodes = set()
        for k, mm in list(m.md.items()):
            if mm.get('_') == 'DICompositeType' and mm.get('tag') == 'DW_TAG_structure_type' and mm.get('elements'):
                ns = {n for o, n, t, s in m.di_members(k)}
                if 'id' in ns and 'next' in ns: self.nodes.add(m.di_strip(k))
    def queues(self, o): return self.q.get(self.P.m.di_strip(o.di), ()) if o.di else ()
    def elem(self, st, o, off):
        """-> (queue, offset of the element, member) for an offset inside a buffer"""
        for q in self.queues(o):
            lo, hi = iv(st, off) if isinstance(off, Lin) else (off, off)
            if lo == hi: off = lo
            if isinstance(off, int):
                if q.base <= off < q.base + q.es * q.n:
                    r = (off - q.base) % q.es; return q, off - r, r
                continue
            if any(k % q.es for _, k in off.t): continue
            if lo < q.base - 2 * q.es or lo >= q.base + q.es * q.n: continue
            r = (off.c - q.base) % q.es
            e = ladd(off, -r)
            return q, e, r
        return None
    def counter(self, o, off):
        return next((q for q in self.queues(o) if off == q.cnt), None)

def same_obj(v, o): return isinstance(v, Ptr) and v.o is o and v.off == 0

def leafname(I, p):
    f = I.fieldname(p)
    return f[1].replace(']', '').split('.')[-1].split('[')[0] if f and f[1] else None

def eq(st, a, b):
    if a == b: return True
    return is_num(a) and is_num(b) and prove_le0(st, ladd(a, b, -1)) and prove_le0(st, ladd(b, a, -1))
def ne(st, a, b):
    if not (is_num(a) and is_num(b)): return False
    d = ladd(a, b, -1); t = st.clone()
    try:
        r = assume_le0(t, d)
        if r is False: return True
        return assume_le0(t, lscale(d, -1)) is False
    except Exception: return False

GHOST = mkobj('ghost of the signing buffers', 'ghost')
IDENT, FILL, FSIZE, AIDX, HID, DSIZE = 0, 8, 16, 24, 32, 40

class QMon(Locks):
    def key(self, st):
        g = st.mon
        return (Locks.key(self, st), g.get('job'), g.get('filled'), g.get('app'), g.get('done'), g.get('deliv'), bool(g.get('hit')), bool(g.get('found')), g.get('rem') is not None, g.get('shift'), g.get('dec'), g.get('looked'), g.get('freed'), g.get('stop'), g.get('hid'), g.get('full'))
    def join_field(self, k, a, b):
        if k in ('found', 'rem', 'hobj'): return a if a == b else None
        if k in ('looked', 'hit', 'shift', 'removed', 'full', 'stop'): return bool(a) and bool(b)
        if k == 'freed': return bool(a) or bool(b)
        if k == 'dec': return 3
        if k in ('job', 'filled', 'app', 'hid'): return None
        if k == 'done': return max(a or 0, b or 0)
        if k == 'deliv': return 'twice' if 'twice' in (a, b) else a or b
        return Locks.join_field(self, k, a, b)
    def keep(self, st): return (GHOST,)
    def gput(self, st, k, v):
        st.mem[GHOST] = dict(st.mem.get(GHOST, {})); st.mem[GHOST][k] = (v, 8)
    def gget(self, st, k):
        c = st.mem.get(GHOST, {}).get(k)
        return self.I.resolve(st, c[0]) if c else None
    def hid(self, st): return self.gget(st, HID) if st.mon.get('hid') else None
    # ---------------------------------------------------------------- element accesses
    def cell(self, I, st, o, q, e, mem):
        off, size = q.mem[mem]
        v = I.resolve(st, I.load(st, Ptr(o, ladd(e, off)), 'i%d' % (size * 8)))
        return I.simplify(st, v) if isinstance(v, Cond) else v
    def count(self, I, st, o, q):
        v = I.resolve(st, I.load(st, Ptr(o, q.cnt), 'i32'))
        if isinstance(v, Lin): assume_le0(st, lscale(v, -1)); assume_le0(st, ladd(v, -q.n))
        return v
    def bounds(self, I, st, ins, p):
        x = self.S.elem(st, p.o, p.off)
        if not x: return None
        q, e, r = x
        self.sites.add(('element', ins.fn.name, ins.where))
        if is_num(e) and not (prove_le0(st, ladd(q.base, e, -1)) and prove_le0(st, ladd(e, -q.last()))):
            I.report('outside-buffer', ins, 'an element outside of %s is used' % q.name, st)
        return x
    def on_load(self, I, st, ins, p, size):
        Locks.on_load(self, I, st, ins, p, size); self.bounds(I, st, ins, p)
    def fork(self, st, v, ref):
        """the states in which a number is, and is not, the given one"""
        a = st.clone(); d = ladd(v, ref, -1); b = st
        ra = assume_le0(a, d) and assume_le0(a, lscale(d, -1)) and self.I._not_known_ne(a, d)
        return (a if ra else None), (b if assume_ne(b, d) else None)
    def loaded(self, I, st, ins, p, v):
        out = []
        for st, v in Locks.loaded(self, I, st, ins, p, v):
            v = I.resolve(st, v)
            q = self.S.counter(p.o, p.off)
            if q and isinstance(v, Lin): assume_le0(st, lscale(v, -1)); assume_le0(st, ladd(v, -q.n))
            if q and q.kind == 'signature' and self.isthread and isinstance(v, Lin) and st.mon.get('job') in ('ok', 'failed'):
                a, b = self.fork(st, v, q.n)
                if a: a.mon['full'] = True; out.append((a, v))
                if b: out.append((b, v))
                continue
            node = p.o.di and self.P.m.di_strip(p.o.di) in self.S.nodes
            if isinstance(v, Ptr) and v.o.di and self.P.m.di_strip(v.o.di) in self.S.nodes: st.mon['looked'] = True
            x = self.S.elem(st, p.o, p.off)
            if (x and 'id' in x[0].mem and x[2] == x[0].mem['id'][0]) or (not x and leafname(I, p) == 'id'):
                if node:
                    ref = self.gget(st, IDENT) if self.isthread else self.hid(st)
                    if is_num(ref) and is_num(v) and not (self.isthread and not st.mon.get('job')):
                        self.sites.add(('look', ins.fn.name, ins.where)); st.mon['looked'] = True
                        a, b = self.fork(st, v, ref)
                        if a: a.mon['hit'] = True; a.mon['hobj'] = p.o; out.append((a, v))
                        if b: out.append((b, v))
                        continue
                elif x and self.cleaning and is_num(self.hid(st)) and is_num(v):
                    q, e, r = x; lo, hi = iv(st, e); n, xx = self.swept.get((p.o, q.name), (lo, hi)); self.swept[(p.o, q.name)] = (min(lo, n), max(hi, xx))
                    rem = st.mon.get('rem')
                    if rem is not None and rem[0] is p.o and rem[1] is q and eq(st, e, ladd(rem[2], q.es)): I.report('entry-kept', ins, 'an element of %s is skipped after one has been removed' % q.name, st)
                    st.mon['rem'] = None
                    a, b = self.fork(st, v, self.hid(st))
                    if a: a.mon['found'] = (p.o, q, e); out.append((a, v))
                    if b: out.append((b, v))
                    continue
                elif not x and p.o.di and not self.S.queues(p.o) and not self.isthread and p.o.kind != 'stack':
                    st.mon['hid'] = True; self.gput(st, HID, v)
            out.append((st, v))
        return out
    def on_backedge(self, I, st, fn, head):
        f = st.mon.get('found')
        if f is not None: I.report('entry-kept', head.ins[-1] if not isinstance(head, str) else fn.blocks[head].ins[-1], 'an element of %s that belongs to the ended session is kept' % f[1].name, st); st.mon['found'] = None
    def on_store(self, I, st, ins, p, size, val):
        Locks.on_store(self, I, st, ins, p, size, val)
        x = self.bounds(I, st, ins, p)
        q = self.S.counter(p.o, p.off)
        if q is not None: self.counted(I, st, ins, p.o, q, I.resolve(st, val))
        if x and self.cleaning and 'id' in x[0].mem and x[2] == x[0].mem['id'][0]: self.gone(st, p.o, x[0], x[1], False)
        if leafname(I, p) == 'is_running' and I.resolve(st, val) == 0: st.mon['stop'] = True
    def gone(self, st, o, q, e, moved):
        f = st.mon.get('found')
        if f is not None and f[0] is o and f[1] is q and eq(st, f[2], e):
            st.mon['found'] = None
            if moved: st.mon['rem'] = f
    def counted(self, I, st, ins, o, q, v):
        old = self.count(I, st, o, q)
        if not is_num(v) or not (prove_le0(st, lscale(v, -1)) and prove_le0(st, ladd(v, -q.n))):
            I.report('outside-buffer', ins, 'the number of elements of %s may become invalid' % q.name, st); return
        d = ladd(v, old, -1)
        if d == 1:
            self.sites.add(('append', ins.fn.name, ins.where))
            if st.mon.get('app'): self.settle(I, st, ins)
            st.mon['app'] = (q, o, ins); self.gput(st, AIDX, old)
            # complete already? otherwise it has to be at the end of the critical section
            if not self.complete(I, st): self.accept(st)
        elif d == -1:
            self.sites.add(('removal', ins.fn.name, ins.where)); st.mon['dec'] = 0 if self.cleaning else min(3, (st.mon.get('dec') or 0) + 1)
        elif v == 0 and is_num(v): st.mon['stop'] = True        # everything is dropped
        elif d != 0: I.report('order', ins, 'the number of elements of %s is changed by other than one' % q.name, st)
    def complete(self, I, st):
        """what is missing in the element that has been added: [(rule, message)]"""
        q, o, at = st.mon['app']; idx = self.gget(st, AIDX); bad = []
        e = ladd(q.base, lscale(idx, q.es)) if is_num(idx) else None; central = o.kind == 'global'
        fe = self.gget(st, FILL) if st.mon.get('filled') == q.kind else None
        full = e is not None and is_num(fe) and eq(st, fe, e)
        if e is None: return [('order', 'the place of a new element of %s is not known' % q.name)]
        if q.kind == 'hash':
            if not full: bad.append(('hash-not-queued', 'an element is added to %s without the whole hash to sign' % q.name))
            if central and 'id' in q.mem and not (self.hid(st) is not None and eq(st, self.cell(I, st, o, q, e, 'id'), self.hid(st))): bad.append(('other-session', 'the hash to sign is not marked with the session it belongs to'))
            sd = self.signdata(I, st, o)
            if sd is not None and not eq(st, self.member(I, st, sd, 'hash_size'), self.hsize): bad.append(('outside-buffer', 'the hash may have another size than the memory it is signed from'))
            if not eq(st, self.cell(I, st, o, q, e, 'size'), self.hsize): bad.append(('hash-not-queued', 'the size of the hash to sign may be another one'))
            return bad
        job = st.mon.get('job')
        if job not in ('ok', 'failed'): return [('no-signature', 'an element is added to %s without a signing' % q.name)]
        err = self.cell(I, st, o, q, e, 'err') if 'err' in q.mem else 0
        if job == 'failed':
            if not ('err' in q.mem and is_num(err) and ne(st, err, 0)): bad.append(('error-as-signature', 'a failed signing is not marked as such'))
        else:
            if not full: bad.append(('incomplete-signature', 'an element is added to %s without the whole signature' % q.name))
            elif not eq(st, self.cell(I, st, o, q, e, 'size'), self.gget(st, FSIZE)): bad.append(('incomplete-signature', 'the size of the signature in %s is another one' % q.name))
            if 'err' in q.mem and not eq(st, err, 0): bad.append(('error-as-signature', 'a signature may be marked as failed'))
        if central and 'id' in q.mem:
            if not eq(st, self.cell(I, st, o, q, e, 'id'), self.gget(st, IDENT)): bad.append(('other-session', 'the signature is not marked with the session whose hash was signed'))
            if not st.mon.get('hit'): bad.append(('other-session', 'the signature is kept although its session may have ended'))
        return bad
    def signdata(self, I, st, o):
        for off, n, t, s in self.P.m.di_members(self.P.m.di_strip(o.di)):
            pt = self.P.m.di_pointee(t)
            if pt and self.P.m.di_strip(pt) == self.sd:
                v = I.resolve(st, I.load(st, Ptr(o, off), 'ptr'))
                return v if isinstance(v, Ptr) else None
        return None
    def accept(self, st):
        q = st.mon['app'][0]; st.mon['app'] = None; st.mon['filled'] = None
        st.mon['done'] = 0 if self.isthread else min(2, (st.mon.get('done') or 0) + 1)
        if q.kind == 'signature': st.mon['job'] = None; st.mon['hit'] = None
    def settle(self, I, st, ins):
        """at the end of a critical section: what was added is complete, and no signature is forgotten"""
        app = st.mon.get('app')
        if app:
            for r, msg in self.complete(I, st): I.report(r, app[2], msg, st)
            self.accept(st)
        job = st.mon.get('job')
        if job in ('ok', 'failed') and self.isthread:
            q = [q for q in self.S.queues(self.tobj) if q.kind == 'signature'][0]
            if not (st.mon.get('full') or st.mon.get('stop') or (st.mon.get('looked') and not st.mon.get('hit'))): I.report('lost-signature', ins, 'a signature is dropped although its session may wait for it', st)
            st.mon['job'] = None; st.mon['filled'] = None; st.mon['hit'] = None; st.mon['full'] = None
    def removed(self, I, st, o, q):
        """has the oldest element been taken away?"""
        if st.mon.get('dec') != 1: return False
        if st.mon.get('shift') or eq(st, self.count(I, st, o, q), 0): return True
        nx = I.resolve(st, I.load(st, Ptr(o, q.base + q.es + q.mem['data'][0]), 'ptr'))
        return nx == 0 or I.nullness(st, nx) is True
    # ---------------------------------------------------------------- copies
    def origin(self, st, p, prefer):
        """what is the memory p points to: (kind, owner, ...)"""
        o = p.o
        for n, v in (self.args or {}).items():
            if v is o: return ('arg', n)
        if o.parent is not None: return self.classify(st, *o.parent)
        got = [x for x in (self.classify(st, po, off) for po, cells in st.mem.items() if po.kind not in ('stack', 'ghost') for off, (v, s) in cells.items() if isinstance(v, Ptr) and (v.o is o or same_obj(self.I.resolve(st, v), o)) and v.off == 0) if x]
        got.sort(key=lambda x: (x[0] != prefer))
        return got[0] if got else None
    def classify(self, st, po, off):
        x = self.S.elem(st, po, off)
        if x: return ('elem', po, x[0], x[1]) if x[2] == x[0].mem['data'][0] else None
        n = leafname(self.I, Ptr(po, off))
        return ('member', po, n) if n else None
    def on_copy(self, I, st, ins, p, q, n):
        sx, dx = self.S.elem(st, q.o, q.off), self.S.elem(st, p.o, p.off)
        if dx: self.bounds(I, st, ins, p)
        if sx: self.bounds(I, st, ins, q)
        if dx and dx[2] == 0 and isinstance(n, int) and n >= dx[0].es or (dx and dx[2] == 0 and not isinstance(n, int)):
            if sx and q.o is p.o and sx[0] is dx[0]:
                if ladd(sx[1], dx[1], -1) != dx[0].es: I.report('order', ins, 'the elements of %s are not moved by one' % dx[0].name, st)
                else:
                    if dx[1] == dx[0].base: st.mon['shift'] = not self.cleaning
                    elif not isinstance(dx[1], int) and iv(st, dx[1])[0] == dx[0].base: st.mon['shift'] = not self.cleaning
                    self.gone(st, p.o, dx[0], dx[1], True); self.sites.add(('shift', ins.fn.name, ins.where))
            return
        so, do = self.origin(st, q, 'member'), self.origin(st, p, 'elem')
        if do and do[0] == 'member' and do[2] == 'hash' and self.isthread:
            # the hash is fetched
            self.settle(I, st, ins)
            ok = so and so[0] == 'elem' and so[2].kind == 'hash' and so[3] == so[2].base
            if not ok: I.report('other-data-signed', ins, 'the hash copied to be signed may not be the oldest one', st); return
            o, qq = so[1], so[2]
            if not prove_le0(st, ladd(1, self.count(I, st, o, qq), -1)): I.report('other-data-signed', ins, 'a hash is fetched although there may be none', st)
            if not (eq(st, n, self.cell(I, st, o, qq, qq.base, 'size'))): I.report('other-data-signed', ins, 'not the whole hash is copied to be signed', st)
            st.mon['job'] = 'hash'; self.gput(st, IDENT, self.cell(I, st, o, qq, qq.base, 'id') if 'id' in qq.mem else 0); st.mon['hit'] = None; st.mon['filled'] = None; st.mon['dec'] = 0; st.mon['shift'] = None
        elif do and do[0] == 'elem' and do[2].kind == 'hash':
            if so and so == ('arg', 'hash') and q.off == 0 and eq(st, n, self.hsize): st.mon['filled'] = 'hash'; self.gput(st, FILL, do[3])
        elif do and do[0] == 'elem' and do[2].kind == 'signature':
            if so and so[0] == 'member' and so[2] == 'signature':
                sz = self.sigsize(I, st, so[1])
                if sz is not None and eq(st, n, sz): st.mon['filled'] = 'signature'; self.gput(st, FILL, do[3]); self.gput(st, FSIZE, sz)
        elif do == ('arg', 'signature'):
            self.sites.add(('deliver', ins.fn.name, ins.where))
            if not (so and so[0] == 'elem' and so[2].kind == 'signature' and so[3] == so[2].base): I.report('order', ins, 'what is delivered is not the oldest signature', st); return
            o, qq = so[1], so[2]; b = qq.base
            if not prove_le0(st, ladd(1, self.count(I, st, o, qq), -1)): I.report('no-signature', ins, 'a signature is delivered although there may be none', st)
            sz = self.cell(I, st, o, qq, b, 'size')
            if not eq(st, n, sz): I.report('incomplete-signature', ins, 'not the whole signature is delivered', st)
            if not prove_le0(st, ladd(n, self.amax, -1)): I.report('outside-buffer', ins, 'a signature is delivered that may not fit', st)
            if 'err' in qq.mem and not eq(st, self.cell(I, st, o, qq, b, 'err'), 0): I.report('error-as-signature', ins, 'a failed signing is delivered as a signature', st)
            if o.kind == 'global' and 'id' in qq.mem and not (self.hid(st) is not None and eq(st, self.cell(I, st, o, qq, b, 'id'), self.hid(st))): I.report('other-session', ins, 'a signature is delivered that may belong to another session', st)
            st.mon['deliv'] = 'twice' if st.mon.get('deliv') else 'once'; self.gput(st, DSIZE, n); self.dq = (o, qq)
    def sigsize(self, I, st, o):
        for off, n, t, s in self.P.m.di_members(self.P.m.di_strip(o.di)) if o.di else ():
            if n == 'signature_size': return I.resolve(st, I.load(st, Ptr(o, off), 'i%d' % (s * 8)))
            sub = self.P.m.md.get(self.P.m.di_strip(t))
            if sub and sub.get('tag') == 'DW_TAG_structure_type':
                for o2, n2, t2, s2 in self.P.m.di_members(self.P.m.di_strip(t)):
                    if n2 == 'signature_size': return I.resolve(st, I.load(st, Ptr(o, off + o2), 'i%d' % (s2 * 8)))
        return None
    # ---------------------------------------------------------------- calls
    def on_call(self, I, st, ins, name, args):
        if name in self.m.funcs and not I.inline(name, 0) and any(x in self.P.reach(name) for x in SIGN) and len(args) == 1:
            self.sites.add(('sign', ins.fn.name, ins.where)); a = I.resolve(st, args[0])
            job = st.mon.get('job')
            if self.isthread:
                q = [q for q in self.S.queues(self.tobj) if q.kind == 'hash'][0]
                if job != 'hash': I.report('other-data-signed', ins, 'signs without having fetched a hash to sign', st)
                elif not st.mon.get('removed'): I.report('delivered-twice', ins, 'the hash to sign is not removed from the buffer', st)
            elif isinstance(a, Ptr) and self.args:
                h = self.member(I, st, a, 'hash'); s = self.member(I, st, a, 'hash_size')
                if not (isinstance(h, Ptr) and h.o is self.args.get('hash') and h.off == 0 and is_num(s) and eq(st, s, self.hsize)): I.report('other-data-signed', ins, 'what is signed is not the given hash', st)
            if isinstance(a, Ptr): self.setmember(I, st, a, 'signature_size')
            st.mon['filled'] = None
            bad = st.clone(); r = mksym(('signres', ins.fn.name, ins.where), 32, -(1 << 31), (1 << 31) - 1); v = lin(r)
            st.mon['job'] = 'ok'; bad.mon['job'] = 'failed'
            st.mon['looked'] = False; bad.mon['looked'] = False
            return [(0, st)] + ([(v, bad)] if assume_ne(bad, v) else [])
        if name in ('g_cond_wait', 'g_cond_wait_until') or name == 'g_mutex_unlock':
            if name == 'g_mutex_unlock' and self.isthread and st.mon.get('job') == 'hash':
                q = [q for q in self.S.queues(self.tobj) if q.kind == 'hash'][0]
                st.mon['removed'] = self.removed(I, st, self.tobj, q)
            self.settle(I, st, ins)
        return Locks.on_call(self, I, st, ins, name, args)
    def member(self, I, st, a, n):
        for off, mn, t, s in self.P.m.di_members(self.sd):
            if mn == n: return I.resolve(st, I.load(st, Ptr(a.o, ladd(a.off, off)), 'ptr' if self.P.m.di_pointee(t) else 'i%d' % (s * 8)))
    def setmember(self, I, st, a, n):
        if isinstance(a, Ptr):
            for off, mn, t, s in self.P.m.di_members(self.sd):
                if mn == n: I.havoc_range(st, a.o, ladd(a.off, off), s)
    def forget(self, I, st, o):
        keep = []
        for n in self.threadonly:
            for q in list(st.mem):
                if q.kind == 'global' and q.name == n: keep.append((q, st.mem[q]))
        Locks.forget(self, I, st, o)
        if self.isthread:
            for q, c in keep: st.mem[q] = c
    def on_free(self, I, st, ins, p):
        if isinstance(p, Ptr) and st.mon.get('hit') and p.o.di and self.P.m.di_strip(p.o.di) in self.S.nodes and st.mon.get('hobj') in (None, p.o): st.mon['freed'] = True
    def on_exit(self, I, st, fn, ret):
        if fn.name != self.root: return
        at = [i for i in fn.instrs() if i.op == 'ret'][-1]; r = I.resolve(st, ret) if ret is not None else None
        if isinstance(r, Cond): r = I.simplify(st, r)
        self.settle(I, st, at)
        d = st.mon.get('deliv')
        if self.role == 'get':
            if d == 'twice': I.report('delivered-twice', at, 'the signature is delivered twice', st)
            if d:
                if is_num(r) and eq(st, r, 0): I.report('wrong-result', at, 'a delivered signature is not announced', st)
                if not self.removed(I, st, *self.dq): I.report('delivered-twice', at, 'a delivered signature stays in the buffer', st)
                w = I.resolve(st, I.load(st, Ptr(self.args['written_signature_size'], 0), 'i64'))
                if not eq(st, w, self.gget(st, DSIZE)): I.report('wrong-result', at, 'the size of the delivered signature is not the one written', st)
            elif not (is_num(r) and eq(st, r, 0)): I.report('wrong-result', at, 'a signature may be announced without being delivered', st)
        elif self.role == 'sign':
            a = st.mon.get('done') or 0
            if is_num(r) and not ne(st, r, 0) and a != 1: I.report('hash-not-queued', at, 'the request is accepted although %s was queued' % ('nothing' if not a else 'more than one element'), st)
            if a and not (is_num(r) and eq(st, r, 0)): I.report('hash-not-queued', at, 'the request is rejected although it was queued', st)
        elif self.role == 'teardown':
            if st.mon.get('hit') and not st.mon.get('freed'): I.report('entry-kept', at, 'the ended session stays active', st)

def run_queue(res):
    def do(config):
        P = Prog(build(config)); m = P.m; S = QShape(P)
        if not S.q: raise AnalysisError('no buffer of signatures found in ' + config)
        pub = public_functions(P)
        sd = next(m.di_strip(k) for k, mm in m.md.items() if mm.get('tag') == 'DW_TAG_structure_type' and {'hash', 'signature', 'key'} <= {x[1] for x in (m.di_members(k) if mm.get('elements') else ())})
        roles = {'sv_signing_plugin_sign': 'sign', 'sv_signing_plugin_get_signature': 'get', 'sv_signing_plugin_session_teardown': 'teardown'}
        for f in roles:
            if f not in m.funcs: raise AnalysisError('%s() not found in %s' % (f, config))
        file = m.funcs['sv_signing_plugin_sign'].file
        mine = {f.name for f in m.funcs.values() if f.file == file}
        used = set()
        for f in mine:
            for i in m.funcs[f].instrs(): used |= set(re.findall(r"'glob', '([^']+)'", repr(i.ops)))
        vars_ = {g for g in used if g in m.globals and not m.globals[g]['const'] and m.globals[g].get('init') is not None}
        return P, m, S, pub, sd, roles, mine, vars_
    for config in ('threaded', 'default'):
        P, m, S, pub, sd, roles, mine, vars_ = do(config)
        entries = set()
        def one(root, di, isthread, threadonly, ent):
            sites = set(); mon = QMon(P, S, root, sites, ent); mon.m = m; mon.sd = sd
            mon.isthread = mon.thread_root = isthread; mon.waited = set(); mon.wout = set(); mon.mine = vars_; mon.central = None; mon.vars = vars_
            mon.role = roles.get(root); mon.threadonly = threadonly; mon.plain = config == 'default'; mon.cleaning = mon.role == 'teardown'; mon.swept = {}; mon.args = {}; mon.hsize = None; mon.tobj = None
            I = SInterp(P, mon, inline=lambda n, d: n in mine or n.startswith('g_'), maxinline=8, cap=32, steps=800000)
            I.cpu_limit = time.process_time() + 150; mon.I = I; I.joineq = True
            I.widths = tuple(sorted({x for qs in S.q.values() for q in qs for x in (q.n - 1, q.n)}))
            for g in vars_:
                o = I.const('ptr', ('glob', g)).o
                if S.of(o.di) is not None: mon.central = o
            fn = m.funcs[root]; over = {}; st = State(); I.stack = [root]
            pn = I.param_names(fn)
            if isthread:
                nm = pn.get(fn.params[0][1], fn.params[0][1])
                if di is None: over[nm] = 0; mon.tobj = mon.central
                else: mon.tobj = mkobj('thread data', 'param', di=di); st.null[mon.tobj] = False; over[nm] = Ptr(mon.tobj, 0)
                st.mon['started'] = frozenset([mon.tobj])
            elif mon.role:
                # by position: the interface of a signing plugin is fixed
                names = {'sign': ('handle', 'hash', 'hash_size'), 'get': ('handle', 'signature', 'max_signature_size', 'written_signature_size', 'error'), 'teardown': ('handle',)}[mon.role]
                for (t, n), a in zip(fn.params, names):
                    nm = pn.get(n, n)
                    sn = P.ptype(fn, ('loc', n)) if a == 'handle' else None
                    if sn and P.distruct(sn): over[nm] = Ptr(mkobj('session handle', 'param', di=P.distruct(sn)), 0)
                    if a in ('hash', 'signature', 'written_signature_size'):
                        o = mkobj('argument ' + a, 'param'); st.null[o] = False; mon.args[a] = o; over[nm] = Ptr(o, 0)
                    if a in ('hash_size', 'max_signature_size'):
                        v = lin(mksym(('qarg', a), 64, 1, 1 << 40, a)); over[nm] = v
                        if a == 'hash_size': mon.hsize = v
                        else: mon.amax = v
            I.run(root, over=over, st=st)
            return I, mon, sites
        def work(j):
            t0 = time.time(); ent = set(); I, mon, sites = one(j[0], j[1], j[2], j[3], ent)
            if os.environ.get('SV_DEBUG'): print(j[0], '%.1f s' % (time.time() - t0), flush=True)
            return j, [(r.rule, r.where, r.fname, r.msg, r.path) for r in I.reports.values() if r.rule in RULES], set(I.covered), sites, ent, {(o.name, n): v for (o, n), v in mon.swept.items()}
        ents = set()
        for j, out, cov, sites, e, w in pmap(work, [(f, None, False, frozenset()) for f in sorted(pub & mine if isinstance(pub, set) else set(pub) & mine)]): ents |= e
        ents = sorted(ents, key=str)
        if config == 'threaded' and not ents: raise AnalysisError('no thread function found')
        # variables only the threads write
        w = set()
        for f in mine - {x for e, d in ents for x in [e]}:
            if f in {e for e, d in ents}: continue
            for i in m.funcs[f].instrs():
                if i.op == 'store': w |= set(re.findall(r"'glob', '([^']+)'", repr(i.ops[1:])))
        tonly = frozenset(v for v in vars_ if v not in w)
        for j, out, cov, sites, e, sw in pmap(work, [(f, None, False, tonly) for f in sorted(roles)] + [(f, d, True, tonly) for f, d in ents]):
            res.functions |= cov
            for r in out: res.add(*(r[:3] + ('%s [%s]' % (r[3], config),) + r[4:]))
            for s in sites: res.seen.setdefault(s[0], set()).add(s[1:])
            if roles.get(j[0]) == 'teardown' and config == 'threaded':
                fn = m.funcs[j[0]]; at = [i for i in fn.instrs() if i.op == 'ret'][-1]
                if S.nodes and not any(x[0] == 'look' for x in sites): res.add('entry-kept', at.where, j[0], 'the end of a session does not remove it from the active ones [%s]' % config, [])
                for di, qs in S.q.items():
                    for q in qs:
                        if 'id' not in q.mem: continue
                        got = [v for (on, n), v in sw.items() if n == q.name]
                        if not got or min(a for a, b in got) > q.base or max(b for a, b in got) < q.last():
                            res.add('entry-kept', at.where, j[0], 'not every element of %s is considered when a session ends [%s]' % (q.name, config), [])
                        res.count('buffers cleared when a session ends')
        res.count('entry points', len(roles)); res.count('thread functions', len(ents))
    for k, t in (('element', 'accesses to the buffers'), ('append', 'places that add an element'), ('removal', 'places that remove one'), ('deliver', 'places that deliver a signature'), ('sign', 'places that sign'), ('shift', 'places that move the elements'), ('look', 'look-ups of active sessions')):
        res.count(t, len(res.seen.get(k, ())))
    res.need('places that deliver a signature', 2); res.need('places that add an element', 3); res.need('places that sign', 2); res.need('thread functions')
    return res
