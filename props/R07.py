from ops import *

K = {}
x = z3.BitVec('x', 64)
CLS = {'IndexScan': (3, '_ZN9IndexScan6createER7DBLayerNS0_9DataOrderEP8RegisterbS4_bS4_bd', 0),
       'AggregatedIndexScan': (2, '_ZN19AggregatedIndexScan6createER7DBLayerNS0_9DataOrderEP8RegisterbS4_bS4_bd', 1),
       'FullyAggregatedIndexScan': (1, '_ZN24FullyAggregatedIndexScan6createER7DBLayerNS0_9DataOrderEP8RegisterbS4_bS4_bd', 2)}
HINT = {'IndexScan': '_ZN9IndexScan13IndexScanHint4nextERmS1_S1_', 'AggregatedIndexScan': '_ZN19AggregatedIndexScan14AggregatedHint4nextERmS1_', 'FullyAggregatedIndexScan': '_ZN24FullyAggregatedIndexScan19FullyAggregatedHint4nextERm'}
ORDERS = ['SPO', 'SOP', 'OPS', 'OSP', 'PSO', 'POS', 'SPO', 'SOP', 'OPS', 'OSP', 'POS', 'PSO']      # DBLayer::DataOrder


class ScanChild:
    """contract of DBLayer::Scan: after first(c1..ck) the scan enumerates some stored tuples that include every stored tuple
    matching the constants, and once it has left the tuples matching the constants it never comes back (sorted scans: they
    are followed by larger tuples only; unsorted scans deliver matching tuples only)."""

    def __init__(self, E, st, k):
        self.E, self.k = E, k
        self.r = Region('scan', fields={0: Ptr(E.globptr('_ZTV9ChildScan').r, 16)})
        self.p = Ptr(self.r, 0)
        self.n = z3.BitVec('scan.n', 64)
        self.v = [None] + [z3.Function('scan.value%d' % j, B64, B64) for j in range(1, k + 1)]
        self.c = z3.Function('scan.count', B64, B64)
        st.setg('pos', BV(0)); st.setg('live', z3.BoolVal(False)); st.setg('started', z3.BoolVal(False))
        self.consts = None
        E.models['vp_scan_first'] = self.m_first
        E.models['vp_scan_next'] = self.m_next
        E.models['vp_scan_value'] = self.m_value
        E.models['vp_scan_count'] = self.m_count
        E.models['vp_scan_delete'] = lambda *a: None

    def pre(self, i):
        return z3.And(*[self.v[j](i) == c for j, c in self.consts.items()]) if self.consts else z3.BoolVal(True)

    def facts(self, i, j=None):
        """of the enumeration: non-matching tuples lie after the matching ones"""
        out = [z3.Implies(z3.ULT(i, self.n), self.c(i) != 0), z3.ULT(self.n, BV(1 << 40))]
        if self.consts:
            lex = z3.BoolVal(False)
            for k in sorted(self.consts, reverse=True):
                lex = z3.Or(z3.UGT(self.v[k](i), self.consts[k]), z3.And(self.v[k](i) == self.consts[k], lex))
            out.append(z3.Implies(z3.And(z3.ULT(i, self.n), z3.Not(self.pre(i))), lex))
            if j is not None:
                out.append(z3.Implies(z3.And(z3.ULE(i, j), z3.ULT(j, self.n), z3.Not(self.pre(i))), z3.Not(self.pre(j))))
        return out

    def step(self, st):
        p = st.g('pos')
        ok = z3.ULT(p, self.n)
        st.assume(*self.facts(p, x), *self.facts(x))
        st.setg('pos', z3.If(ok, p + 1, p))
        st.setg('live', ok)
        return ok

    def m_first(self, E, st, a, dem):
        mask = conc(a[1]) & ((1 << self.k) - 1)
        if conc(a[1]) is None or conc(a[1]) >> self.k:
            raise Unsupported('first() with %r constants' % (a[1],))
        cs = {j: a[1 + j] for j in range(1, self.k + 1) if mask >> (j - 1) & 1}
        E.oblige(st, z3.BoolVal(sorted(cs) == list(range(1, len(cs) + 1))), 'storage protocol: constants are given for a prefix of the order', 'pre')
        self.consts = cs
        st.setg('pos', BV(0))
        return self.step(st)

    def m_next(self, E, st, a, dem):
        E.oblige(st, st.g('live'), 'storage protocol: next() only while the scan stands on a tuple', 'pre')
        return self.step(st)

    def m_value(self, E, st, a, dem):
        E.oblige(st, st.g('live'), 'storage protocol: values are read only while the scan stands on a tuple', 'pre')
        j = conc(a[1])
        if j > self.k:
            E.oblige(st, z3.BoolVal(False), 'storage protocol: value %d of a scan that aggregates it away' % j, 'pre')
            return fresh('v', B64)
        return self.v[j](st.g('pos') - 1)

    def m_count(self, E, st, a, dem):
        E.oblige(st, st.g('live'), 'storage protocol: the count is read only while the scan stands on a tuple', 'pre')
        return self.c(st.g('pos') - 1)


def build(E, cls, order, bound):
    """run the real create(); returns (state, object pointer, child scan, registers by slot)"""
    k, fn, aggr = CLS[cls]
    st = State()
    sc = ScanChild(E, st, k)
    db = Region('db', fields={0: Ptr(E.globptr('_ZTV7ChildDB').r, 16)})
    regs = {c: Region('register ' + c, size=16, fields={0: z3.BitVec('value_' + c, 64), K['reg_domain']: NULL}) for c in 'SPO'}
    ask = []

    def m_db(E, st, a, dem):
        ask.append(a)
        return sc.p
    E.models['vp_db_scan'] = m_db
    slots = ORDERS[order][:k]
    args = [Ptr(db, 0), BV(order, 32)]
    for c in 'SPO':
        used = c in slots
        args += [Ptr(regs[c], 0) if used else NULL, z3.BoolVal(used and bound[slots.index(c)])]
    args.append(FP(fresh('expected', z3.BitVecSort(64))))
    outs = [o for o in E.run(E.m.funcs[fn], args, st)]
    return sc, regs, slots, ask, outs


def u_create(E, cls):
    E.auto_linear = False
    k, fn, aggr = CLS[cls]
    for order in range(12):
        for mask in range(1 << k):
            bound = [bool(mask >> j & 1) for j in range(k)]
            sc, regs, slots, ask, outs = build(E, cls, order, bound)
            what = '%s order %d bound %s: ' % (cls, order, ''.join('01'[b] for b in bound))
            for o in outs:
                s, ob = o.st, o.val
                if not E.cover(s, what + 'created'):
                    continue
                g = lambda n, ty=PTR: rd(E, s, ob.add(K['%s_%s' % (cls, n)]), ty)
                same = lambda p, q: isinstance(p, Ptr) and p.r is q.r and conc(p.o.bv()) == conc(q.o.bv())
                for j in range(k):
                    E.oblige(s, z3.BoolVal(same(g('value%d' % (j + 1)), Ptr(regs[slots[j]], 0))), what + 'register of position %d' % (j + 1))
                    E.oblige(s, g('bound%d' % (j + 1), I8) == BV(int(bound[j]), 8), what + 'boundness of position %d' % (j + 1))
                hint = ob.add(K[cls + '_hint'])
                E.oblige(s, z3.BoolVal(len(ask) == 1 and same(g('scan'), sc.p) and conc(ask[0][1]) == order and conc(ask[0][2]) == aggr and same(ask[0][3], hint)), what + 'the storage is asked for this order, this aggregation and given the hint of the operator')
                E.oblige(s, z3.BoolVal(same(rd(E, s, hint.add(K[cls + '_hscan']), PTR), ob)), what + 'the hint refers to the operator')


def snapshot(E, st, ob, skip):
    m = E.rmem(st, ob.r)
    return {o[1]: v[1] for o, v in m.items() if o[0] != 'c' or o[1] not in skip}


def eqv(a, b):
    if z3.is_expr(a) and z3.is_expr(b):
        return a == b if a.sort() == b.sort() else z3.BoolVal(False)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return z3.BoolVal(a.r is b.r and repr(a.o) == repr(b.o))
    return z3.BoolVal(a is b or repr(a) == repr(b))


def u_scan(E, cls, mask):
    E.auto_linear = False
    k = CLS[cls][0]
    bound = [bool(mask >> j & 1) for j in range(k)]
    sc, regs, slots, ask, outs = build(E, cls, 0, bound)
    R = [regs[c] for c in slots]
    key = [rd(E, outs[0].st, Ptr(r, 0)) for r in R]

    def match(i):
        return z3.And(*[sc.v[j + 1](i) == key[j] for j in range(k) if bound[j]])
    wanted = lambda lo, hi: z3.And(z3.ULE(lo, x), z3.ULT(x, hi), match(x))      # x stands for any tuple in [lo,hi) that matches
    skip = set(range(K[cls + '_observedOutputCardinality'], K[cls + '_observedOutputCardinality'] + 8))

    def spec_from(p0):
        def spec(lv):
            p = lv.st.g('pos')
            return [('position', z3.And(z3.UGE(p, p0), z3.ULE(p, sc.n))), ('live', lv.st.g('live')), ('nothing skipped', z3.Not(wanted(p0, p)))]
        return spec

    def post(s, val, p0, what):
        p = s.g('pos')
        s.assume(*sc.facts(p, x), *sc.facts(p - 1, x))
        if E.entails(s, val == 0)[0] == z3.unsat:
            E.oblige(s, z3.Not(wanted(p0, sc.n)), what + 'the end is reported only when no matching tuple is left')
            return False
        E.oblige(s, z3.And(z3.UGT(p, p0), z3.ULE(p, sc.n), s.g('live')), what + 'a tuple is delivered only when there is one')
        E.oblige(s, match(p - 1), what + 'the delivered tuple matches the bound positions')
        E.oblige(s, z3.Not(wanted(p0, p - 1)), what + 'no matching tuple is skipped')
        E.oblige(s, z3.And(*[rd(E, s, Ptr(r, 0)) == sc.v[j + 1](p - 1) for j, r in enumerate(R)]), what + 'the registers hold the delivered tuple')
        E.oblige(s, val == (BV(1) if k == 3 else sc.c(p - 1)), what + 'multiplicity of the delivered tuple')
        return True

    def frame(s, what):
        E.oblige(s, z3.And(*[rd(E, s, Ptr(r, 0)) == key[j] for j, r in enumerate(R) if bound[j]]), what + 'bound registers are left alone')
    for o in outs:
        ob = o.val
        n0 = len(E.loop_specs)
        E.loop_specs.append(spec_from(BV(0)))
        for o1 in E.run('vp_first', [ob], o.st.copy()):
            s = o1.st
            if not E.cover(s, 'first'):
                continue
            if not post(s, o1.val, BV(0), 'first: '):
                continue
            frame(s, 'first: ')
            # next() from any later position: same object, arbitrary position on a matching tuple
            s2 = o1.st.copy()
            p0 = fresh('p', B64)
            s2.setg('pos', p0)
            s2.setg('live', z3.BoolVal(True))
            s2.assume(z3.UGE(p0, 1), z3.ULE(p0, sc.n), match(p0 - 1), *sc.facts(p0 - 1, x))
            for j, r in enumerate(R):
                if not bound[j]:
                    E.mute += 1
                    E.store(s2, Ptr(r, 0), sc.v[j + 1](p0 - 1), I64)
                    E.mute -= 1
            E.mute += 1
            E.store(s2, ob.add(K[cls + '_observedOutputCardinality']), fresh('observed', B64), I64)
            E.mute -= 1
            before = snapshot(E, s2, ob, skip)
            E.loop_specs[n0:] = [spec_from(p0)]
            for o2 in E.run('vp_next', [ob], s2):
                s3 = o2.st
                if not E.cover(s3, 'next'):
                    continue
                if post(s3, o2.val, p0, 'next: '):
                    frame(s3, 'next: ')
                    after = snapshot(E, s3, ob, skip)
                    E.oblige(s3, z3.And(z3.BoolVal(set(before) == set(after)), *[eqv(v, after.get(a)) for a, v in before.items()]), 'next: the state of the operator other than the scan position is unchanged')
            E.loop_specs[n0:] = [spec_from(BV(0))]
        del E.loop_specs[n0:]


def u_hint(E, cls, mask, dom, uses):
    """the skipping hint: never before the current position, never past a tuple that can still match"""
    E.auto_linear = False
    k = CLS[cls][0]
    st = State()
    t = z3.BitVecs(' '.join('t%d' % (j + 1) for j in range(k)), 64)
    f = {}
    regs = []
    UNSET = BV(-1)
    for j in range(k):
        bound, hasdom = bool(mask >> j & 1), bool(dom >> j & 1)
        d = Region('domain%d' % (j + 1), size=1040)
        r = Region('register%d' % (j + 1), size=16, fields={0: z3.BitVec('value%d' % (j + 1), 64), K['reg_domain']: Ptr(d, 0) if hasdom else NULL})
        regs.append((r, d))
        f[K['%s_value%d' % (cls, j + 1)]] = Ptr(r, 0)
        f[K['%s_bound%d' % (cls, j + 1)]] = BV(int(bound), 8)
        other = Region('merge registers %d' % (j + 1), arrays=[Arr(0, 16)])
        content = z3.Function('merge%d' % (j + 1), B64, B64)      # value of the i-th merge register

        def at(E, s, i, j=j, content=content):
            v = content(i)
            if uses:
                s.assume(z3.Or(v == UNSET, z3.UGE(t[j], v)))
            return Ptr(Region('merge register', size=16, fields={0: v}), 0)
        vec = Region('merge%d[]' % (j + 1), arrays=[Arr(0, 8, kind=('ptr', at))])
        n = z3.BitVec('nmerge%d' % (j + 1), 64)
        st.assume(z3.ULT(n, BV(1 << 40)))
        vec.uf = {0: lambda i: i}
        o = K['%s_merge%d' % (cls, j + 1)]
        f[o], f[o + 8], f[o + 16] = Ptr(vec, 0), Ptr(vec, Off(0, ((8, n),))), Ptr(vec, Off(0, ((8, n),)))
        if bound:
            st.assume(z3.Or(t[j] == f_value(r), f_value(r) == UNSET))

    def m_cand(E, s, a, dem):
        """contract proved in R01: the result is not before the argument and no member of the domain is skipped"""
        res = fresh('candidate', B64)
        j = [i for i, (r, d) in enumerate(regs) if a[0].r is d][0]
        s.assume(z3.UGE(res, a[1]), z3.Implies(z3.UGE(t[j], a[1]), z3.UGE(t[j], res)))      # t stands for a tuple whose components are in the domains
        return res
    E.models['DomainDescription::nextCandidate'] = m_cand
    f[K[cls + '_hint'] + K[cls + '_hscan']] = None
    this = Region('this', size=K[cls + '_size'], fields=f)
    hp = Ptr(this, K[cls + '_hint'])
    f[K[cls + '_hint'] + K[cls + '_hscan']] = Ptr(this, 0)
    cur = [Region('current%d' % (j + 1), size=8, fields={0: z3.BitVec('current%d' % (j + 1), 64)}) for j in range(k)]
    c0 = [rd(E, st, Ptr(c, 0)) for c in cur]

    def geq(a, b):
        r = z3.BoolVal(True)
        for p, q in reversed(list(zip(a, b))):
            r = z3.Or(z3.UGT(p, q), z3.And(p == q, r))
        return r
    st.assume(geq(t, c0))

    def spec(lv):
        v = [rd(E, lv.st, Ptr(c, 0)) for c in cur]
        return [('tuple still ahead', geq(t, v)), ('not backwards', geq(v, c0))]
    E.loop_specs.append(spec)
    for o in E.run(E.m.funcs[HINT[cls]], [hp] + [Ptr(c, 0) for c in cur], st):
        E.cover(o.st, 'hint')
        v = [rd(E, o.st, Ptr(c, 0)) for c in cur]
        E.oblige(o.st, geq(v, c0), 'hint: never goes backwards')
        E.oblige(o.st, geq(t, v), 'hint: no tuple that can still match is skipped')


def f_value(r):
    return r.fields[0]


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R07.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(m, g)
    out = []
    for cls in CLS:
        k = CLS[cls][0]
        out.append(('create ' + cls, m, u_create, dict(cls=cls)))
        for mask in range(1 << k):
            out.append(('%s bound %s' % (cls, ''.join('01'[mask >> j & 1] for j in range(k))), m, u_scan, dict(cls=cls, mask=mask)))
            for dom in ([(1 << k) - 1] + ([0] if mask in (0, (1 << k) - 1) else []) if tier == 'quick' else range(1 << k)):
                out.append(('hint %s bound %s domains %s' % (cls, ''.join('01'[mask >> j & 1] for j in range(k)), ''.join('01'[dom >> j & 1] for j in range(k))), m, u_hint, dict(cls=cls, mask=mask, dom=dom, uses=True)))
    return out


NATIVE = [{'src': 'R07.cpp', 'extra': ['$REPO/rdf3x/src/rts/%s.cpp' % f for f in ('IndexScan', 'AggregatedIndexScan', 'FullyAggregatedIndexScan', 'Operator', 'DomainDescription')] + ['$REPO/rdf3x/src/infra/Mutex.cpp'], 'quick': 60000, 'thorough': 1000000}]
FUNCS = ['%s::create' % c for c in CLS] + ['%s::%s::first/next' % (c, v) for c, v in (('IndexScan', 'Scan, ScanFilter2, ScanFilter3, ScanFilter23, ScanPrefix1, ScanPrefix1Filter3, ScanPrefix12, ScanPrefix123'), ('AggregatedIndexScan', 'Scan, ScanFilter2, ScanPrefix1, ScanPrefix12'), ('FullyAggregatedIndexScan', 'Scan, ScanPrefix1'))] + ['IndexScan::IndexScanHint::next', 'AggregatedIndexScan::AggregatedHint::next', 'FullyAggregatedIndexScan::FullyAggregatedHint::next']
TRUSTED = ['DBLayer::Scan contract (arbitrary enumeration that includes every stored tuple matching the given constants)', 'DomainDescription::nextCandidate (its contract is proved in R01)']
ASSUMPTIONS = ['the registers of the three positions are distinct objects']
BOUNDED = ['handleHints (which registers become merge hints) is exercised only natively']
