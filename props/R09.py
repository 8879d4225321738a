from ops import *

K = {}
NUL = BV(2**64 - 1)          # the engine's marker for an unbound value
LIM, CNT = BV(1 << 40), BV(1 << 31)
y = z3.BitVec('y', 64)       # an arbitrary right tuple
UL = z3.Bool('no_right_tuple_has_this_key')
slot, ent, other, cp = z3.BitVecs('slot entry other chainpos', 64)
AB = z3.ArraySort(B64, B64)


def h1(k, H):
    return k & (H - 1)


def h2(k, H):
    return H + ((k ^ z3.LShR(k, 3)) & (H - 1))


def sel(A, i):
    return z3.Select(A, i)


def ite(c, a, b):
    return z3.If(c, a, b)


def model(E, parts, f):
    for n in list(E.m.dem.values()):
        if all(p in n for p in parts):
            E.models[n] = f


class HJ:
    """the hash join object. Row = (key, tail values); R* = an arbitrary left row, k* its key. Ghost state: the chain of
    k* as a sequence of entries (chain, pos, len), the entry W that holds R* (0: none)"""

    def __init__(self, E, st, w, wr=1, lo=False, ro=False, dom=False):
        self.E, self.w, self.wr, self.lo, self.ro, self.dom = E, w, wr, lo, ro, dom
        E.concrete_loops = 'fork'
        E.auto_linear = False
        E.abstract_mul = True
        self.row = z3.BitVecs(' '.join('row%d' % k for k in range(1 + w)), 64)
        self.k = self.row[0]
        # entries
        self.ent = Region('entry', family=True)
        self.ent.ptrfields = {K['e_next']: lambda E, st, v: Ptr(self.ent, 0, v)}
        self.ent.on_read = self.entry_read
        res = lambda E, st, v: Ptr(self.ent, 0, v)
        self.kind = ('ptr', res)
        self.tab = Region('table[]', arrays=[Arr(0, 8, kind=self.kind)])
        self.tab.on_read = self.table_read
        self.H = z3.BitVec('H', 64)
        # registers and inputs
        self.vreg = {'L': reg('leftValue'), 'R': reg('rightValue')}
        self.treg = {'L': [reg('leftTail%d' % i) for i in range(w)], 'R': [reg('rightTail%d' % i) for i in range(wr)]}
        self.doms = []
        for i, r in enumerate([self.vreg['L']] + self.treg['L']):
            d = Region('domain%d' % i)
            self.doms.append(d)
            r.fields[K['r_domain']] = Ptr(d, 0) if dom else NULL
        self.c = {}
        for s, nm in (('L', 'left'), ('R', 'right')):
            self.c[s] = Child(E, st, nm, dict([('v', (self.vreg[s], 0))] + [('t%d' % i, (r, 0)) for i, r in enumerate(self.treg[s])]), multi=s == 'R')
            self.c[s].extra = lambda st, i, c=self.c[s]: [z3.Implies(z3.ULT(i, c.n(st)), z3.ULT(c.C(st, i), CNT))] + ([z3.Implies(z3.ULT(i, c.n(st)), z3.ULT(c.V(st, i, 'v'), NUL))] if lo or ro else [])
        f = {0: Ptr(E.globptr('_ZTV8HashJoin').r, 16), K['left']: self.c['L'].p, K['right']: self.c['R'].p, K['leftValue']: Ptr(self.vreg['L'], 0), K['rightValue']: Ptr(self.vreg['R'], 0),
             K['leftOptional']: BV(int(lo), 8), K['rightOptional']: BV(int(ro), 8)}
        for s, nm in (('L', 'leftTail'), ('R', 'rightTail')):
            n = 8 * len(self.treg[s])
            tv = Region(nm + '[]', size=n, fields={8 * i: Ptr(r, 0) for i, r in enumerate(self.treg[s])})
            f[K[nm]], f[K[nm] + 8], f[K[nm] + 16] = Ptr(tv, 0), Ptr(tv, n), Ptr(tv, n)
        t = K['hashTable']
        end = Ptr(self.tab, Off(0, ((16, self.H),)))
        f[t], f[t + 8], f[t + 16] = Ptr(self.tab, 0), end, end
        self.it0 = z3.BitVec('iter0', 64)
        f[K['hashTableIter']] = Ptr(self.ent, 0, self.it0)
        self.t = Region('this', size=K['size'], fields=f)
        self.t.nullable = {K['hashTableIter']: self.ent}
        b = K['buildHashTableTask']
        f[b + K['b_join']] = Ptr(self.t, 0)
        f[K['probePeekTask'] + K['p_join']] = Ptr(self.t, 0)
        # ghost state
        for g in ('N', 'Nprev', 'len', 'W', 'tot'):
            st.setg(g, z3.BitVec(g, 64))
        for g in ('anykey', 'inkeys'):
            st.setg(g, z3.Bool(g))
        st.setg('chain', z3.Array('chain', B64, B64))
        st.setg('pos', z3.Array('pos', B64, B64))
        st.setg('SET', z3.Array('collected', B64, z3.BoolSort()))
        for i in range(1 + w):
            st.setg('seen%d' % i, z3.Bool('seen%d' % i))
        self.hold = lambda st: []
        V = 'std::vector<HashJoin::Entry*, std::allocator<HashJoin::Entry*> >::'
        E.models[V + 'resize'] = self.m_resize
        E.models[V + 'push_back'] = self.m_unknown
        E.models['VarPool<HashJoin::Entry>::alloc'] = self.m_alloc
        E.models['HashJoin::insert'] = self.m_insert
        model(E, ['system_clock::now'], lambda E, st, a, d: fresh('now', B64))
        E.models['std::chrono::duration<double, std::ratio<1l, 1l> >::count'] = lambda E, st, a, d: FP(fresh('sec', B64))
        model(E, ['std::chrono::duration<double', '::duration<long'], lambda E, st, a, d: None)
        S = 'std::set<unsigned long, std::less<unsigned long>, std::allocator<unsigned long> >::'
        E.models[S + 'count'] = lambda E, st, a, d: ite(sel(st.g('SET'), rd(E, st, a[1])), BV(1), BV(0))
        E.models[S + 'insert'] = self.m_sinsert
        E.models[S + 'clear'] = lambda E, st, a, d: st.setg('SET', z3.K(B64, z3.BoolVal(False)))
        E.on_first = {}
        E.models['vp_op_next'] = self.m_next
        E.models['vp_hash_keys'] = self.m_keys

    # ---- contracts of what the join uses
    def m_unknown(self, E, st, a, dem):
        raise Unsupported('unexpected use of the table vector')

    def m_sinsert(self, E, st, a, dem):
        st.setg('SET', z3.Store(st.g('SET'), rd(E, st, a[1]), z3.BoolVal(True)))
        return Agg([NULL, BV(1, 8)])

    def m_keys(self, E, st, a, dem):
        """setHashKeys announces the keys of the left side: none may be missing"""
        E.oblige(st, z3.Implies(st.g('len') != 0, st.g('inkeys')), 'build: every key of the left side is announced to the right input')

    def m_resize(self, E, st, a, dem):
        """vector<Entry*>::resize on an empty vector: n null pointers"""
        b, e = rd(E, st, a[0], PTR), rd(E, st, a[0].add(8), PTR)
        same = b.r.isnull and e.r.isnull or (b.r is e.r and conc(E.ptrcmp(st, 'eq', b, e)) is not None and z3.is_true(z3.simplify(E.ptrcmp(st, 'eq', b, e))))
        if not same:
            raise Unsupported('resize of a non-empty table')
        n = a[1]
        r = Region('grown table[]', arrays=[Arr(0, 8, kind=self.kind, init=z3.K(B64, BV(0)))])
        r.on_read = self.table_read
        E.mute += 1
        for off, v in ((0, Ptr(r, 0)), (8, Ptr(r, Off(0, ((8, n),)))), (16, Ptr(r, Off(0, ((8, n),))))):
            E.store(st, a[0].add(off), v, PTR)
        E.mute -= 1
        self.snap(st)

    def m_alloc(self, E, st, a, dem):
        """a fresh entry"""
        n = st.g('N') + 1
        st.assume(z3.ULT(n, LIM))
        st.setg('N', n)
        return Ptr(self.ent, 0, n)

    # ---- views of the state
    def F(self, st, off):
        return self.E.fam_arr(st, self.ent, off, 64)

    def KEY(self, st):
        return self.F(st, K['e_key'])

    def NEXT(self, st):
        return self.F(st, K['e_next'])

    def COUNT(self, st):
        return self.F(st, K['e_count'])

    def VAL(self, st, i):
        return self.F(st, K['e_values'] + 8 * i)

    def rowis(self, st, e):
        return z3.And(sel(self.KEY(st), e) == self.k, *[sel(self.VAL(st, i), e) == self.row[1 + i] for i in range(self.w)])

    def table(self, st):
        b, e = rd(self.E, st, Ptr(self.t, K['hashTable']), PTR), rd(self.E, st, Ptr(self.t, K['hashTable'] + 8), PTR)
        if b.r.isnull or e.r is not b.r or b.o.c or b.o.t:
            return None
        n = Off(e.o.c // 8, tuple((k // 8, t) for k, t in e.o.t)).bv()
        return self.E.arr_get(st, b.r, b.r.arrays[0]), n, b.r

    def alive(self, st, e):
        return z3.And(e != 0, z3.ULE(e, st.g('N')))

    def cntT(self, T, H, KEY, x):
        k = sel(KEY, x)
        return ite(sel(T, h1(k, H)) == x, BV(1), BV(0)) + ite(sel(T, h2(k, H)) == x, BV(1), BV(0))

    def wfslot(self, T, H, KEY, s):
        k = sel(KEY, sel(T, s))
        return z3.Implies(z3.And(z3.ULT(s, H + H), sel(T, s) != 0), ite(z3.ULT(s, H), h1(k, H) == s, h2(k, H) == s))

    # ---- snapshots: the state in which the universally quantified facts are known to hold
    def snap(self, st):
        T = self.table(st)
        st.notes['snap'] = dict(T=T[0] if T else None, n=T[1] if T else None, reg=T[2] if T else None, KEY=self.KEY(st), NEXT=self.NEXT(st), COUNT=self.COUNT(st), VAL=[self.VAL(st, i) for i in range(self.w)], N=st.g('N'),
                                len=st.g('len'), chain=st.g('chain'), pos=st.g('pos'), W=st.g('W'))

    # a small state-like view of a snapshot
    class View:
        def __init__(self, J, d):
            self.J, self.d = J, d

    def P(self, S, s):
        """table slot s: well placed, alive, and the slot of key k* holds the newest entry of its chain"""
        T, H = S['T'], z3.LShR(S['n'], 1)
        v = sel(T, s)
        return z3.And(self.wfslot(T, H, S['KEY'], s), z3.Implies(z3.And(z3.ULT(s, H + H), v != 0), z3.And(z3.ULE(v, S['N']), z3.Implies(sel(S['KEY'], v) == self.k, z3.And(S['len'] != 0, v == sel(S['chain'], S['len'] - 1))))))

    def Q(self, S, e):
        """entry e: links stay within the entries of the same key; entries of k* are exactly the chain; only W holds R*"""
        nx, k = sel(S['NEXT'], e), sel(S['KEY'], e)
        p = sel(S['pos'], e)
        row = z3.And(k == self.k, *[sel(S['VAL'][i], e) == self.row[1 + i] for i in range(self.w)])
        return z3.Implies(z3.And(e != 0, z3.ULE(e, S['N'])), z3.And(z3.Implies(nx != 0, z3.And(z3.ULE(nx, S['N']), sel(S['KEY'], nx) == k)), sel(S['COUNT'], e) != 0, z3.ULT(sel(S['COUNT'], e), CNT),
                          z3.Implies(k == self.k, z3.And(z3.ULT(p, S['len']), sel(S['chain'], p) == e, nx == ite(p == 0, BV(0), sel(S['chain'], p - 1)))), row == z3.And(S['W'] != 0, e == S['W'])))

    def A(self, S, j):
        """position j of the chain of k*"""
        e = sel(S['chain'], j)
        return z3.Implies(z3.ULT(j, S['len']), z3.And(e != 0, z3.ULE(e, S['N']), sel(S['KEY'], e) == self.k, sel(S['pos'], e) == j))

    def G(self, S):
        """the facts that are not quantified"""
        H = z3.LShR(S['n'], 1)
        head = sel(S['chain'], S['len'] - 1)
        W = S['W']
        return [('table size', z3.And(S['n'] == H + H, H != 0, z3.ULT(H, LIM))), ('number of entries', z3.And(z3.ULT(S['N'], LIM), z3.ULE(S['len'], S['N']))),
                ('the newest entry of k* is in exactly one slot', z3.Implies(S['len'] != 0, self.cntT(S['T'], H, S['KEY'], head) == 1)),
                ('the entry of R*', z3.Implies(W != 0, z3.And(z3.ULE(W, S['N']), sel(S['KEY'], W) == self.k, *[sel(S['VAL'][i], W) == self.row[1 + i] for i in range(self.w)]))),
                ('the entry of R* is in the chain', z3.Implies(W != 0, z3.And(sel(S['chain'], sel(S['pos'], W)) == W, z3.ULT(sel(S['pos'], W), S['len']))))]

    def cur(self, st):
        old = st.notes.get('snap')
        self.snap(st)
        d = st.notes['snap']
        st.notes['snap'] = old
        return d

    def table_read(self, E, st, a, idx):
        S = st.notes.get('snap')
        T = self.table(st)
        if T is None or S is None or S['T'] is None:
            return
        for nm, fn in self.facts_at:
            st.assume(fn(S, idx))

    def entry_read(self, E, st, off, e):
        S = st.notes.get('snap')
        if S is not None and self.with_entries:
            st.assume(self.Q(S, e), self.A(S, sel(S['pos'], e)), self.A(S, sel(S['pos'], e) - 1))

    facts_at = ()
    with_entries = False

    def table_facts(self, st, *slots):
        """instances of the quantified facts at the places the argument needs"""
        S = st.notes['snap']
        H = z3.LShR(S['n'], 1)
        st.assume(*[f for _, f in self.G(S)])
        head = sel(S['chain'], S['len'] - 1)
        for s in list(slots) + [h1(self.k, H), h2(self.k, H)]:
            st.assume(self.P(S, s))
        for e in (S['W'], head):
            st.assume(self.Q(S, e))
        for j in (S['len'] - 1, sel(S['pos'], S['W'])):
            st.assume(self.A(S, j))

    # ---- insert as a callee
    def m_insert(self, E, st, a, dem):
        e = a[1]
        T, n, r = self.table(st)
        H = z3.LShR(n, 1)
        KEY = self.KEY(st)
        E.oblige(st, z3.And(e.id != 0, n == H + H, H != 0), 'insert precondition: an entry and a table', 'pre')
        E.oblige(st, self.wfslot(T, H, KEY, slot), 'insert precondition: every entry of the table is in one of its two slots', 'pre')
        H2 = fresh('H', B64)
        T2 = fresh('table', AB)
        st.assume(H2 != 0, z3.ULT(H2, LIM))
        E.arr_set(st, r, r.arrays[0], T2)
        E.mute += 1
        E.store(st, Ptr(self.t, K['hashTable'] + 8), Ptr(r, Off(0, ((16, H2),))), PTR)
        E.mute -= 1
        moved = lambda x: self.cntT(T2, H2, KEY, x) == self.cntT(T, H, KEY, x) + ite(x == e.id, BV(1), BV(0))
        st.assume(self.wfslot(T2, H2, KEY, slot))
        for x in self.insert_at(st, T2):
            st.assume(z3.Implies(x != 0, moved(x)))
        S = st.notes.get('snap')
        if S is not None and self.with_entries:
            v = sel(T2, slot)
            Ho = z3.LShR(S['n'], 1)
            for q in (h1(sel(KEY, v), Ho), h2(sel(KEY, v), Ho)):
                st.assume(self.P(S, q))
        if not self.with_entries:
            self.snap(st)

    def insert_at(self, st, T2):
        return [ent, sel(T2, slot), sel(st.g('chain'), st.g('len') - 1), st.g('N')]

    # ---- ghost updates when the next left tuple is requested
    def m_next(self, E, st, args, dem):
        c = child_of(E, args[0])
        if c is self.c['L'] and getattr(self, 'building', False):
            p = c.pos(st) - 1
            N, Np = st.g('N'), st.g('Nprev')
            E.oblige(st, z3.Or(N == Np, N == Np + 1), 'build: at most one entry is created per left tuple')
            new = N != Np
            mine = z3.And(new, sel(self.KEY(st), N) == self.k)
            ln = st.g('len')
            st.setg('chain', ite(mine, z3.Store(st.g('chain'), ln, N), st.g('chain')))
            st.setg('pos', ite(mine, z3.Store(st.g('pos'), N, ln), st.g('pos')))
            st.setg('len', ite(mine, ln + 1, ln))
            st.setg('W', ite(z3.And(new, self.rowis(st, N)), N, st.g('W')))
            st.setg('Nprev', N)
            ok = self.qualifies(st, p)
            is_row = z3.And(ok, c.V(st, p, 'v') == self.k, *[c.V(st, p, 't%d' % i) == self.row[1 + i] for i in range(self.w)])
            st.setg('tot', st.g('tot') + ite(is_row, c.C(st, p), BV(0)))
            st.setg('some', z3.Or(st.g('some'), is_row))
            st.setg('anykey', z3.Or(st.g('anykey'), z3.And(ok, c.V(st, p, 'v') == self.k)))
        return m_next(E, st, args, dem)

    def qual(self, i):
        return z3.Function('qualifies%d' % i, B64, z3.BoolSort())

    def qualifies(self, st, p):
        if not self.dom:
            return z3.BoolVal(True)
        c = self.c['L']
        return z3.And(*[self.qual(i)(c.V(st, p, 'v' if i == 0 else 't%d' % (i - 1))) for i in range(1 + self.w)])


def u_insert(E):
    """insert(e) adds exactly e to the table: every entry stays in exactly as many slots as before (the slots of its own key)"""
    st = State()
    J = HJ(E, st, 0)
    T, n, r = J.table(st)
    H0, KEY = J.H, J.KEY(st)
    e0 = z3.BitVec('e', 64)
    J.facts_at = (('placement', lambda S, i: J.wfslot(S['T'], z3.LShR(S['n'], 1), S['KEY'], i)),)
    J.insert_at = lambda st, T2: [ent]
    E.concrete_loops = False
    st.assume(e0 != 0, ent != 0, H0 != 0, z3.ULT(H0, BV(1 << 36)), J.wfslot(T, H0, KEY, slot))
    J.snap(st)
    c0 = J.cntT(T, H0, KEY, ent)
    hand = lambda lv: [v for n_, v, _ in lv.ints if n_.endswith('.id')]

    def spec(lv):
        s = lv.st
        tt = J.table(s)
        if tt is None:
            return []
        T1, n1, r1 = tt
        H1 = z3.LShR(n1, 1)
        J.snap(s)
        out = [('!!placement', J.wfslot(T1, H1, KEY, slot)), ('size', z3.And(n1 == H1 + H1, H1 != 0, z3.ULT(H1, LIM)))]
        if r1 is r:
            out += [('old table size', n1 == H0 + H0)]
            for k, h in enumerate(hand(lv)):
                out += [('entry in hand %d' % k, h != 0), ('every entry in its slots or in hand %d' % k, J.cntT(T1, H1, KEY, ent) + ite(h == ent, BV(1), BV(0)) == c0 + ite(e0 == ent, BV(1), BV(0)))]
        else:
            S0 = s.notes.get('old') or lv.entry.notes.get('old')
            for k, (l, i, i0, rr) in enumerate(lv.pidx):
                if rr is r:
                    To = E.arr_get(s, r, r.arrays[0])
                    k_ = sel(KEY, ent)
                    part = sum([ite(z3.And(z3.ULT(p, i), sel(To, p) == ent), BV(1), BV(0)) for p in (h1(k_, H0), h2(k_, H0))], BV(0))
                    out += [('moved so far %d' % k, J.cntT(T1, H1, KEY, ent) == part), ('position %d' % k, z3.ULE(i, H0 + H0))]
        return out
    E.loop_specs.append(spec)

    def tread(E, s, a, idx):
        # the table being read may be the old one (while rehashing): its placement facts are those of its last cut
        S = s.notes.get('snap')
        reg = s.notes.get('tabs', {})
        T1 = E.arr_get(s, r, r.arrays[0])
        base = T1
        while z3.is_store(base):
            base = base.arg(0)
        s.assume(J.wfslot(base, H0, KEY, idx))
    r.on_read = tread
    for o in E.run('HashJoin::insert', [Ptr(J.t, 0), Ptr(J.ent, 0, e0)], st):
        s = o.st
        if not E.cover(s, 'insert returns'):
            continue
        T1, n1, r1 = J.table(s)
        H1 = z3.LShR(n1, 1)
        E.oblige(s, z3.And(n1 == H1 + H1, H1 != 0), 'insert: table of two halves')
        E.oblige(s, J.wfslot(T1, H1, KEY, slot), 'insert: every entry of the table is in one of the two slots of its key')
        E.oblige(s, J.cntT(T1, H1, KEY, ent) == c0 + ite(ent == e0, BV(1), BV(0)), 'insert: no entry is lost or duplicated and the new one is in the table')
        E.oblige(s, z3.And(J.KEY(s) == KEY), 'insert frame: entries are not modified')



def chain_of(J, S, e):
    """entry e (0: end) is at or before the entry of R* in the chain of k*"""
    return z3.And(e != 0, sel(S['KEY'], e) == J.k, z3.ULE(sel(S['pos'], S['W']), sel(S['pos'], e)))


def u_build(E, w, dom, bitset):
    st = State()
    J = HJ(E, st, w, dom=dom)
    L = J.c['L']
    J.building, J.with_entries = True, True
    E.cand_timeout, E.use_cvc5 = 1000, True
    J.facts_at = (('slot', J.P),)
    b = K['buildHashTableTask']
    t = K['hashTable']
    for o in (t, t + 8, t + 16):
        J.t.fields[o] = NULL
    J.t.fields[b + K['b_done']] = BV(0, 8)
    J.t.fields[K['bitset']] = BV(bitset, 32)
    E.models['HashJoin::insert'] = J.m_insert
    zero = ('N', 'Nprev', 'len', 'W', 'tot')
    for g in zero:
        st.setg(g, BV(0))
    for g in ('anykey', 'inkeys', 'some'):
        st.setg(g, z3.BoolVal(False))
    for i in range(1 + w):
        st.setg('seen%d' % i, z3.BoolVal(False))
    # vectors local to the function
    drb = Region('domain registers[]', size=8 * (2 + w), fields={})
    obs = Region('observed[]', size=K['obs_size'] * (2 + w))

    def m_rpush(E, st, a, dem):
        e = rd(E, st, a[0].add(8), PTR)
        if e.r.isnull:
            e = Ptr(drb, 0)
            E.store(st, a[0], e, PTR)
        v = rd(E, st, a[1], PTR)
        E.store(st, e, v, PTR)
        E.store(st, a[0].add(8), e.add(8), PTR)
        E.store(st, a[0].add(16), e.add(8), PTR)
    model(E, ['std::vector<Register*', '::push_back'], m_rpush)

    def m_oresize(E, st, a, dem):
        n = conc(a[1])
        if n is None or n > 1 + w:
            raise Unsupported('number of observed domains')
        for o, v in ((0, Ptr(obs, 0)), (8, Ptr(obs, K['obs_size'] * n)), (16, Ptr(obs, K['obs_size'] * n))):
            E.store(st, a[0].add(o), v, PTR)
    E.models['std::vector<ObservedDomainDescription, std::allocator<ObservedDomainDescription> >::resize'] = m_oresize
    for nm in ('std::vector<ObservedDomainDescription, std::allocator<ObservedDomainDescription> >::~vector', 'std::vector<Register*, std::allocator<Register*> >::~vector'):
        E.models[nm] = lambda E, st, a, d: None

    def which(p, size=1):
        for i, d in enumerate(J.doms):
            if p.r is d:
                return i
        raise Unsupported('unknown domain')

    E.models['DomainDescription::couldQualify'] = lambda E, st, a, d: J.qual(which(a[0]))(a[1])

    def m_add(E, st, a, dem):
        if a[0].r is not obs or not a[0].o.isconst():
            raise Unsupported('unknown observed domain')
        i = a[0].o.c // K['obs_size']
        st.setg('seen%d' % i, z3.Or(st.g('seen%d' % i), a[1] == J.row[i]))
    E.models['ObservedDomainDescription::add'] = m_add

    def m_restrict(E, st, a, dem):
        i = which(a[0])
        j = a[1].o.c // K['obs_size'] if a[1].r is obs else None
        E.oblige(st, z3.Implies(st.g('some'), st.g('seen%d' % j)) if i == j else z3.BoolVal(False), 'build: a domain is restricted only to a set with the values of all left tuples')
    E.models['PotentialDomainDescription::restrictTo'] = m_restrict

    def m_kpush(E, st, a, dem):
        if not (a[0].r is J.t and a[0].o.isconst() and a[0].o.c == K['keys']):
            raise Unsupported('push_back on an unknown vector')
        st.setg('inkeys', z3.Or(st.g('inkeys'), rd(E, st, a[1]) == J.k))
    model(E, ['std::vector<unsigned long', '::push_back'], m_kpush)

    def sumfacts(E, s, off, e):
        """assumption: the total multiplicity of equal left tuples stays below 2^31"""
        J.entry_read(E, s, off, e)
        p = L.pos(s) - 1
        same = z3.And(sel(J.KEY(s), e) == L.V(s, p, 'v'), *[sel(J.VAL(s, i), e) == L.V(s, p, 't%d' % i) for i in range(w)])
        s.assume(z3.Implies(z3.And(e != 0, same), z3.ULT(sel(J.COUNT(s), e) + L.C(s, p), CNT)))
    J.ent.on_read = sumfacts
    main = lambda lv: any('left.pos' in n for n, _, _ in lv.ints)

    def spec(lv):
        s = lv.st
        if J.table(s) is None:
            return []
        S = J.cur(s)
        p, n = L.pos(s), L.n(s)
        if not main(lv):
            # the scan of one chain
            out = []
            for k, (nm, i, _) in enumerate([x_ for x_ in lv.ints if x_[0].endswith('.id')]):
                is_row = z3.And(L.V(s, p - 1, 'v') == J.k, *[L.V(s, p - 1, 't%d' % j) == J.row[1 + j] for j in range(w)])
                out += [('scanned entry %d exists' % k, z3.Implies(i != 0, z3.And(z3.ULE(i, S['N']), sel(S['KEY'], i) == L.V(s, p - 1, 'v')))),
                        ('the entry of R* is not skipped %d' % k, z3.Implies(z3.And(is_row, S['W'] != 0), chain_of(J, S, i)))]
            ms = [(n_, v) for n_, v, _ in lv.ints if n_.startswith('phi%') and v.size() in (8, 32)] + [(n_, z3.If(v, BV(1, 8), BV(0, 8))) for n_, v, _ in lv.bools if n_.startswith('phi%')]
            for k, (nm, v) in enumerate(ms):
                out += [('flag %s off' % nm, v == 0), ('flag %s on' % nm, v == 1)]
            return out
        s.assume(L.okc(s, p), L.okc(s, p - 1))
        S1 = dict(S)
        s.notes['snap'] = S1
        # instances at the places that matter (the universally quantified facts below, at their own arguments)
        out = [('!!' + nm, f) for nm, f in J.G(S)] + [('!!table slots', J.P(S, slot)), ('!!entries', J.Q(S, ent)), ('!!chain of k*', J.A(S, cp))]
        out += [('!!left position', z3.And(L.wf(s), z3.ULT(n, LIM))), ('!!no pending entry', s.g('N') == s.g('Nprev')),
                ('!!R* has an entry once it was seen', (S['W'] != 0) == s.g('some')), ('!!k* has a chain once it was seen', (S['len'] != 0) == s.g('anykey')),
                ('!!the entry of R* has the total multiplicity', z3.Implies(S['W'] != 0, sel(S['COUNT'], S['W']) == s.g('tot'))), ('!!nothing before the first', z3.Implies(z3.Not(s.g('some')), s.g('tot') == 0)),
                ('!!keys complete', z3.Implies(S['len'] != 0, s.g('inkeys')))]
        for i in range(1 + w if dom else 0):
            out.append(('!!observed domain %d' % i, z3.Implies(s.g('some'), s.g('seen%d' % i))))
        regs = [rd(E, s, Ptr(J.vreg['L'], 0)) == L.V(s, p - 1, 'v')] + [rd(E, s, Ptr(r, 0)) == L.V(s, p - 1, 't%d' % i) for i, r in enumerate(J.treg['L'])]
        out.append(('!!registers hold the current tuple', z3.Implies(L.live(s), z3.And(*regs))))
        for nm, v, _ in lv.ints:
            if nm.startswith('phi%') and v.size() == 64 and not nm.endswith('.id'):
                out += [('count %s' % nm, v == ite(L.live(s), L.C(s, p - 1), BV(0))), ('half %s' % nm, z3.And(v + v == S['n'], z3.ULT(v, LIM))), ('whole %s' % nm, v == S['n'])]
        J2 = s
        Hn = z3.LShR(S['n'], 1)
        return out

    E.loop_specs.append(spec)
    orig = E.loopview

    def hdr(lv_fn):
        return lv_fn
    # instances of the header facts used by the argument: assumed where the body starts reading
    def tread(E, s, a, idx):
        S = s.notes.get('snap')
        T = J.table(s)
        if S is None or S['T'] is None or T is None:
            return
        J.table_facts(s, idx, slot)
        s.assume(J.Q(S, ent), J.A(S, cp))
    J.table_read = tread
    J.tab.on_read = tread
    st0 = st.copy()
    for o in E.run('HashJoin::BuildHashTable::run', [Ptr(J.t, b)], st):
        s = o.st
        if not E.cover(s, 'build returns'):
            continue
        S = J.cur(s)
        E.oblige(s, rd(E, s, Ptr(J.t, b + K['b_done']), I8) == 1, 'build: the table is built once')
        E.oblige(s, z3.And(L.pos(s) == L.n(s), z3.Not(L.live(s))), 'build: all left tuples are consumed')
        for nm, f in J.G(S) + [('table slots', J.P(S, slot)), ('entries', J.Q(S, ent)), ('chain of k*', J.A(S, cp))]:
            E.oblige(s, f, 'build post: ' + nm)
        E.oblige(s, z3.And((S['W'] != 0) == s.g('some'), z3.Implies(S['W'] != 0, sel(S['COUNT'], S['W']) == s.g('tot')), (S['len'] != 0) == s.g('anykey')), 'build post: R* is in the table exactly when it was read, with its total multiplicity')


# ---- probing: first() and next()
MINUS1 = BV(2**64 - 1)
PH = ('pair', 'right tuple without partner', 'left row without partner')


class Probe:
    """invariant of the probe side between two calls, and what is still to be delivered (for an arbitrary right tuple y
    and an arbitrary left row R*)"""

    def __init__(self, E, st, w, wr, lo, ro):
        self.J = J = HJ(E, st, w, wr, lo, ro)
        self.E, self.lo, self.ro, self.w, self.wr = E, lo, ro, w, wr
        J.with_entries, J.facts_at = True, ()
        R = J.c['R']
        ext = R.extra
        R.extra = lambda st, i: ext(st, i) + [z3.Implies(z3.And(UL, z3.ULT(i, R.n(st))), R.V(st, i, 'v') != J.k)]
        if lo or ro:
            st.assume(z3.ULT(J.k, NUL))
        self.cur = Ptr(J.t, K['currentIdx'])
        self.it = Ptr(J.t, K['hashTableIter'])
        self.js = Ptr(J.t, K['joinSuccedeed'])
        self.rc = Ptr(J.t, K['rightCount'])
        J.tab.on_read = self.tread
        J.snap(st)
        self.S = st.notes['snap']
        self.T, self.n, self.H = self.S['T'], self.S['n'], z3.LShR(self.S['n'], 1)
        self.head = sel(self.S['chain'], self.S['len'] - 1)
        self.sstar = ite(sel(self.T, h1(J.k, self.H)) == self.head, h1(J.k, self.H), h2(J.k, self.H))
        st.setg('built', z3.BoolVal(True))
        st.setg('delegated', z3.BoolVal(False))

    def tread(self, E, s, a, idx):
        if z3.is_true(s.g('built')):
            s.assume(self.J.P(self.S, idx))
            s.assume(*self.static())

    def static(self):
        J, S = self.J, self.S
        out = [f for _, f in J.G(S)] + [J.P(S, h1(J.k, self.H)), J.P(S, h2(J.k, self.H)), J.A(S, S['len'] - 1), J.Q(S, S['W']), J.Q(S, self.head)]
        return out

    def facts(self, s):
        """the contract of the right input and the table facts at the places the invariant talks about"""
        it = self.iter(s)
        R = self.J.c['R']
        return self.static() + [R.facts(s), R.okc(s, y), self.J.Q(self.S, it), self.J.A(self.S, sel(self.S['pos'], it)), self.J.A(self.S, sel(self.S['pos'], it) - 1)]

    def iter(self, s):
        v = rd(self.E, s, self.it, PTR)
        return v.id if v.r is self.J.ent else BV(0) if v.r.isnull else BV(1, 1) / 0

    def probe(self, s):
        return rd(self.E, s, self.cur) == MINUS1

    def rregs(self, s, i):
        R, J, E = self.J.c['R'], self.J, self.E
        return z3.And(rd(E, s, Ptr(J.vreg['R'], 0)) == R.V(s, i, 'v'), *[rd(E, s, Ptr(r, 0)) == R.V(s, i, 't%d' % k) for k, r in enumerate(J.treg['R'])])

    def unbound(self, s, side):
        J, E = self.J, self.E
        return z3.And(*[rd(E, s, Ptr(r, 0)) == NUL for r in [J.vreg[side]] + J.treg[side]])

    def inv(self, s):
        J, E, S = self.J, self.E, self.S
        R = J.c['R']
        q, n = R.pos(s), R.n(s)
        it, idx, js = self.iter(s), rd(E, s, self.cur), rd(E, s, self.js, I8)
        v = R.V(s, q - 1, 'v')
        KEY, SET = S['KEY'], s.g('SET')
        pr = self.probe(s)
        I = z3.Implies
        out = [('the chain scanned exists', I(it != 0, J.alive(s, it))), ('input position', z3.ULE(q, n)), ('flag', z3.ULE(js, 1)),
               ('a right tuple is current', I(pr, z3.And(R.live(s), q != 0, rd(E, s, self.rc) == R.C(s, q - 1), self.rregs(s, q - 1)))),
               ('the chain scanned has the key of the current right tuple', I(z3.And(pr, it != 0), sel(KEY, it) == v)),
               ('no chain without a partner', I(z3.And(pr, js == 0), it == 0)),
               ('the current right tuple has no partner only when there is none', I(z3.And(pr, v == J.k, S['len'] != 0), js != 0))]
        if not self.ro:
            return out + [('no left rows without partner are returned', pr)]
        lf = z3.Not(pr)
        out += [('left rows: right side unbound', I(lf, self.unbound(s, 'R'))), ('left rows: right input consumed', I(lf, q == n)), ('left rows: position', I(lf, z3.ULE(idx, self.n))),
                ('left rows: the chain scanned has no partner', I(z3.And(lf, it != 0), z3.Not(sel(SET, sel(KEY, it))))), ('left rows: the chain of k* is scanned once', I(z3.And(lf, it != 0, sel(KEY, it) == J.k), z3.ULT(self.sstar, idx))),
                ('keys that have a partner are recorded', I(z3.And(z3.ULT(y, q), R.V(s, y, 'v') == J.k, S['len'] != 0), sel(SET, J.k))),
                ('keys without partner are not recorded', I(UL, z3.Not(sel(SET, J.k))))]
        return out

    def chain(self, s):
        return z3.And(self.S['W'] != 0, chain_of(self.J, self.S, self.iter(s)))

    def hyp(self, s, k):
        """to which (y, R*) the obligation of kind k applies"""
        J, R = self.J, self.J.c['R']
        yk = z3.And(z3.ULT(y, R.n(s)), R.V(s, y, 'v') == J.k)
        if k == 0:
            return z3.And(yk, self.S['W'] != 0)
        if k == 1:
            return z3.And(yk, self.S['len'] == 0, z3.BoolVal(self.lo))
        return z3.And(UL, self.S['W'] != 0, z3.BoolVal(self.ro))

    def rem(self, s, k):
        J, E, R = self.J, self.E, self.J.c['R']
        q, pr = R.pos(s), self.probe(s)
        if k == 0:
            return z3.And(pr, z3.Or(z3.UGE(y, q), z3.And(y == q - 1, self.chain(s))))
        if k == 1:
            return z3.And(pr, z3.Or(z3.UGE(y, q), z3.And(y == q - 1, rd(E, s, self.js, I8) == 0)))
        return z3.Or(pr, z3.And(z3.Not(pr), z3.Or(self.chain(s), z3.UGE(self.sstar, rd(E, s, self.cur)))))

    def lrow(self, s):
        J, E = self.J, self.E
        return z3.And(rd(E, s, Ptr(J.vreg['L'], 0)) == J.row[0], *[rd(E, s, Ptr(r, 0)) == J.row[1 + i] for i, r in enumerate(J.treg['L'])])

    def post(self, s, ret, rem0, what):
        J, E, S, R = self.J, self.E, self.S, self.J.c['R']
        s.assume(*self.facts(s))
        c = ret
        E.oblige(s, z3.And(*[(self.E.fam_arr(s, J.ent, o, 64) == A) for o, A in [(K['e_key'], S['KEY']), (K['e_next'], S['NEXT']), (K['e_count'], S['COUNT'])] + [(K['e_values'] + 8 * i, S['VAL'][i]) for i in range(self.w)]],
                           J.table(s)[0] == S['T'], J.table(s)[1] == S['n'] if J.table(s)[2] is S['reg'] else z3.BoolVal(False)), '%s frame: the table is not modified' % what)
        some = c != 0
        for nm, f in self.inv(s):
            E.oblige(s, z3.Implies(some, f), '%s: invariant: %s' % (what, nm))
        pr, q = self.probe(s), R.pos(s)
        lv = rd(E, s, Ptr(J.vreg['L'], 0))
        nullrow = z3.And(z3.BoolVal(self.lo), lv == NUL)
        mine = self.lrow(s)
        ev = [z3.And(some, pr, q - 1 == y, z3.Not(nullrow), mine), z3.And(some, pr, q - 1 == y, nullrow), z3.And(some, z3.Not(pr), mine)]
        yk = R.V(s, y, 'v') == J.k
        cw = sel(S['COUNT'], S['W'])
        E.oblige(s, z3.Implies(ev[0], z3.And(S['W'] != 0, yk, self.rregs(s, y))), '%s: a returned pair is a left row and a right tuple with the same join value' % what)
        E.oblige(s, z3.Implies(ev[0], c == E.mul(s, cw, R.C(s, y))), '%s: multiplicity of a returned pair' % what)
        if self.lo:
            E.oblige(s, z3.Implies(ev[1], z3.And(z3.Implies(yk, S['len'] == 0), self.unbound(s, 'L'), self.rregs(s, y), c == R.C(s, y))), '%s: a right tuple is returned without left row only if no left row has its join value' % what)
        if self.ro:
            E.oblige(s, z3.Implies(ev[2], z3.And(S['W'] != 0, z3.Implies(z3.ULT(y, R.n(s)), z3.Not(yk)), self.unbound(s, 'R'), c == cw)), '%s: a left row is returned without right tuple only if no right tuple has its join value' % what)
        else:
            E.oblige(s, z3.Not(ev[2]), '%s: every result has a right tuple' % what)
        for k in range(3):
            if k == 1 and not self.lo or k == 2 and not self.ro:
                continue
            r1 = z3.And(some, self.rem(s, k))
            E.oblige(s, z3.Implies(z3.And(self.hyp(s, k), rem0[k]), z3.Or(ev[k], r1)), '%s: nothing is lost (%s)' % (what, PH[k]))
            E.oblige(s, z3.Implies(self.hyp(s, k), z3.Not(z3.And(ev[k], z3.Or(r1, z3.Not(rem0[k]))))), '%s: nothing is returned twice (%s)' % (what, PH[k]))
            E.oblige(s, z3.Implies(z3.And(self.hyp(s, k), r1), rem0[k]), '%s: what was returned does not come back (%s)' % (what, PH[k]))

    def delegate(self, rem0, what):
        def f(E, s, args, dem):
            """next() called on itself: its contract, proved by the units 'next' for every state of the invariant"""
            s.assume(*self.facts(s))
            E.oblige_all(s, self.inv(s), what + ': invariant before delegating to next(): ')
            for k in range(3):
                if k == 1 and not self.lo or k == 2 and not self.ro:
                    continue
                E.oblige(s, z3.Implies(self.hyp(s, k), self.rem(s, k) == rem0[k]), what + ': what is still to deliver before delegating to next() (%s)' % PH[k])
            s.setg('delegated', z3.BoolVal(True))
            return fresh('next', B64)
        return f


def u_next(E, w, wr, lo, ro, left):
    st = State()
    P_ = Probe(E, st, w, wr, lo, ro)
    J = P_.J
    E.use_cvc5, E.cand_timeout = True, 1000
    if not left:
        J.t.fields[K['currentIdx']] = MINUS1
    inv0 = P_.inv(st)
    st.assume(*[f for _, f in inv0], z3.Not(P_.probe(st)) if left else P_.probe(st))
    st.assume(J.c['R'].wf(st), *P_.facts(st))
    what = 'next, left rows' if left else 'next'
    rem0 = [P_.rem(st, k) for k in range(3)]
    hyp0 = [P_.hyp(st, k) for k in range(3)]

    def spec(lv):
        s = lv.st
        s.assume(*P_.facts(s))
        out = [('!!' + n_, f) for n_, f in P_.inv(s)] + [('!!phase', z3.Not(P_.probe(s)) if left else P_.probe(s)), ('!!right input', J.c['R'].wf(s))]
        for k in range(3):
            out.append(('!!still to deliver: ' + PH[k], z3.Implies(hyp0[k], P_.rem(s, k) == rem0[k])))
        return out
    E.loop_specs.append(spec)
    E.models['HashJoin::next'] = P_.delegate(rem0, what)
    for o in E.run('HashJoin::next', [Ptr(J.t, 0)], st):
        s = o.st
        if z3.is_true(s.g('delegated')):
            if E.feasible(s):
                E.cover(s, 'delegated')
            continue
        if E.cover(s, what):
            P_.post(s, o.val, rem0, what)


def u_first(E, w, wr, lo, ro):
    st = State()
    P_ = Probe(E, st, w, wr, lo, ro)
    J = P_.J
    E.use_cvc5, E.cand_timeout = True, 1000
    st.setg('built', z3.BoolVal(False))
    R = J.c['R']

    def m_run(E, s, a, dem):
        """the table is built (or was built by an earlier evaluation): contract proved by the units 'build'"""
        s.setg('built', z3.BoolVal(True))
        for i, r in enumerate([J.vreg['L']] + J.treg['L']):
            E.mute += 1
            E.store(s, Ptr(r, 0), fresh('left%d' % i, B64), I64)
            E.mute -= 1
    E.models['HashJoin::BuildHashTable::run'] = m_run
    rem0 = [z3.BoolVal(True)] * 3
    started = []
    E.on_first = {'right': lambda E, s, c: s.setg('built', s.g('built'))}
    E.models['HashJoin::next'] = P_.delegate(rem0, 'first')
    J.t.fields[K['currentIdx']] = z3.BitVec('oldIdx', 64)
    for o in E.run('HashJoin::first', [Ptr(J.t, 0)], st):
        s = o.st
        if z3.is_true(s.g('delegated')):
            if E.feasible(s):
                E.cover(s, 'delegated')
            continue
        if E.cover(s, 'first'):
            P_.post(s, o.val, rem0, 'first')


def u_again(E):
    """a second evaluation keeps the table"""
    st = State()
    J = HJ(E, st, 1)
    b = K['buildHashTableTask']
    J.t.fields[b + K['b_done']] = BV(1, 8)
    J.snap(st)
    S = st.notes['snap']
    c0 = st.copy()
    for o in E.run('HashJoin::BuildHashTable::run', [Ptr(J.t, b)], st):
        s = o.st
        if E.cover(s, 'build again'):
            E.oblige(s, z3.And(J.KEY(s) == S['KEY'], J.NEXT(s) == S['NEXT'], J.COUNT(s) == S['COUNT'], J.table(s)[0] == S['T'], J.table(s)[1] == S['n'], J.c['L'].pos(s) == J.c['L'].pos(c0)), 'build again: the table is kept and the left input is not read')



def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R09.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(m, g)
    out = [('insert', m, u_insert, {})]
    for w in ((1,) if tier == 'quick' else (0, 1, 2)):
        out.append(('build [%d]' % w, m, u_build, dict(w=w, dom=False, bitset=0)))
    out.append(('build with domains [1]', m, u_build, dict(w=1, dom=True, bitset=1)))
    out.append(('build again', m, u_again, {}))
    for w, wr in [(1, 1)] if tier == 'quick' else [(1, 1), (0, 0), (2, 2)]:
        for lo, ro in ((False, False), (True, False), (False, True), (True, True)):
            md = 'left optional ' * lo + 'right optional ' * ro + '[%d+%d]' % (w, wr)
            kw = dict(w=w, wr=wr, lo=lo, ro=ro)
            out.append(('first ' + md, m, u_first, kw))
            out.append(('next ' + md, m, u_next, dict(kw, left=False)))
            if ro:
                out.append(('next left rows ' + md, m, u_next, dict(kw, left=True)))
    return out


NATIVE = [{'src': 'R09.cpp', 'extra': ['$REPO/rdf3x/src/rts/%s.cpp' % s for s in ('HashJoin', 'Operator', 'DomainDescription', 'Scheduler', 'PlanPrinter')] + ['$REPO/rdf3x/src/infra/%s.cpp' % s for s in ('Mutex', 'Event', 'Thread')], 'quick': 60000, 'thorough': 1000000}]
FUNCS = ['HashJoin::first', 'HashJoin::next', 'HashJoin::insert', 'HashJoin::lookup', 'HashJoin::startLeftovers', 'HashJoin::BuildHashTable::run', 'HashJoin::ProbePeek::run', 'hash1', 'hash2']
TRUSTED = ['Operator interface contract of the two inputs (arbitrary finite sequences, the right one possibly different on every evaluation)', 'VarPool::alloc returns a fresh entry, std::vector::resize/push_back, std::set::insert/count/clear, std::chrono clocks',
           'DomainDescription::couldQualify is a fixed predicate while the table is built (its own contract is property R01)', 'Operator::setHashKeys only uses the announced keys to skip right tuples with other keys (obliged: all keys are announced)']
ASSUMPTIONS = ['multiplicities of the inputs and the total multiplicity of equal left tuples below 2^31, input lengths and table sizes below 2^40', 'in optional mode join values are below 2^64-1 (the engine marks unbound values with that number)',
               'the recursion of insert (table growth) terminates: its contract is applied to its own calls (partial correctness)', 'the two table-side tasks are run by first(), not ahead of it by the asynchronous scheduler (which no query plan of this engine uses)']
BOUNDED = ['number of further registers per side: proved for one per side in the quick tier, 0..2 in the thorough tier; 0..2 in the native oracle']
