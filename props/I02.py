from pairs import *

K = {}
B0, B1 = BV(0, 8), BV(1, 8)
I8N = ('rmitrvalid', 'noseccol', 'hnc', 'hn')


def fld(E, s, t, n):
    return rd(E, s, Ptr(t, K[n]), I8 if n in I8N else I64)


class W:
    """main sequence, sequence to remove, rank(i) = number of removed elements before main element i, gone(i) = element i is removed"""
    def __init__(self, E, st, ign, onekey=False, **kw):
        self.E, self.ign = E, ign
        self.M = PChild(E, st, 'main', K, ign, onekey)
        self.R = PChild(E, st, 'rm', K, ign, onekey)
        self.rank, self.gone = z3.Function('rank', B64, B64), z3.Function('gone', B64, z3.BoolSort())
        if onekey:
            st.assume(self.M.key(BV(0)) == self.R.key(BV(0)))
        f = {0: Ptr(E.globptr('_ZTV5RmItr').r, 16), K['itr']: self.M.p, K['rmitr']: self.R.p}
        for n in ('delnfirstterms', 'v1', 'v2', 'curCount', 'nextCount', 'key') + I8N:
            f[K[n]] = z3.BitVec('this.' + n, 8 if n in I8N else 64)
        f[K['noseccol']] = BV(int(ign), 8)
        for n, v in kw.items():
            f[K[n]] = v
        for n in I8N:
            st.assume(z3.ULE(f[K[n]], 1))
        self.t = Region('this', size=K['size'], fields=f)
        self.M.hooks.append(lambda E, st, c, i: st.assume(self.facts(i), self.link(i, self.R.g(st, 'c'))))
        self.R.hooks.append(lambda E, st, c, j: st.assume(self.link(self.M.g(st, 'c'), j)))
        st.assume(self.rank(self.M.n) == self.R.n)

    def facts(self, i):
        M, R, k = self.M, self.R, self.rank(i)
        match = z3.And(z3.ULT(k, R.n), eq(R.T(k), M.T(i)))
        g = match
        f = [z3.ULE(k, R.n), z3.Implies(i != 0, z3.ULE(self.rank(i - 1), k)), z3.Implies(z3.ULT(i, M.n), z3.ULE(k, self.rank(i + 1)))]
        if self.ign:
            g = z3.And(match, M.fc(i) == R.fc(k))
            f.append(z3.Implies(match, R.fc(k) <= M.fc(i)))
        f.append(self.gone(i) == g)
        return z3.And(M.facts(i), R.facts(k), z3.Implies(z3.ULT(i, M.n), z3.And(*f)))

    def link(self, i, j):
        M, R = self.M, self.R
        return z3.And(M.facts(i), R.facts(j), z3.Implies(z3.And(z3.ULT(i, M.n), z3.ULT(j, R.n)), z3.And(z3.ULT(j, self.rank(i)) == lex(R.T(j), M.T(i)), z3.ULE(self.rank(i), R.n))))

    def count(self, i):
        k = self.rank(i)
        return self.M.fc(i) - z3.If(z3.And(z3.ULT(k, self.R.n), eq(self.R.T(k), self.M.T(i))), self.R.fc(k), BV(0))

    def bound(self, s, i):
        """the removal cursor has not passed anything that can remove element i or a later one"""
        R = self.R
        j = R.g(s, 'c')
        return z3.If(fld(self.E, s, self.t, 'rmitrvalid') == 1, z3.And(R.g(s, 'started'), z3.ULT(j, R.n), R.g(s, 'p') == j + 1, z3.ULE(j, self.rank(i))), self.rank(i) == R.n)

    def inv(self, s, hnc):
        M, R, E, t = self.M, self.R, self.E, self.t
        p, c = M.g(s, 'p'), M.g(s, 'c')
        i = [M.wf(s), R.wf(s), fld(E, s, t, 'hnc') == hnc]
        if hnc == 0:
            i += [self.bound(s, p)]
        else:
            hn = fld(E, s, t, 'hn') == 1
            i += [z3.Implies(hn, z3.And(p == c + 1, M.g(s, 'started'), z3.Not(self.gone(c)), self.bound(s, c))), z3.Implies(z3.Not(hn), p == M.n)]
            if self.ign:
                i.append(z3.Implies(hn, fld(E, s, t, 'nextCount') == self.count(c)))
        return z3.And(*i)


    def near(self, s):
        """also holds unless moveto skipped elements: the removal cursor has not passed the current element either"""
        c = self.M.g(s, 'c')
        return z3.Implies(self.M.g(s, 'started'), z3.And(self.M.g(s, 'p') == c + 1, self.bound(s, c)))


def same(E, s, st0, t, names, what):
    for n in names:
        E.oblige(s, fld(E, s, t, n) == fld(E, st0, t, n), '%s: %s is not modified' % (what, n), 'frame')
    for o in ('itr', 'rmitr'):
        p, q = rd(E, s, Ptr(t, K[o]), PTR), rd(E, st0, Ptr(t, K[o]), PTR)
        E.oblige(s, z3.BoolVal(isinstance(p, Ptr) and p.r is q.r), '%s: the inputs are not replaced' % what, 'frame')


def known(w, s, *more):
    s.assume(*[w.facts(i) for i in (w.M.g(s, 'p'), w.M.g(s, 'c')) + more])
    s.assume(*[w.link(i, w.R.g(s, 'c')) for i in (w.M.g(s, 'p'), w.M.g(s, 'c')) + more])


def spec(w, p0, x):
    def sp(lv):
        E, s, M, R, t = w.E, lv.st, w.M, w.R, w.t
        p, c, j = M.g(s, 'p'), M.g(s, 'c'), R.g(s, 'c')
        known(w, s)
        out = [('inputs well-formed (main)', M.wf(s)), ('inputs well-formed (rm)', R.wf(s)), ('position grows', z3.UGE(p, p0)), ('cursor behind p', w.bound(s, p)), ('near', z3.Implies(w.near(lv.entry), w.near(s))),
               ('removal element current', z3.And(R.g(s, 'started'), z3.ULT(j, R.n), R.g(s, 'p') == j + 1)), ('removal cursor not past c', z3.ULE(j, w.rank(c))), ('rm valid', fld(E, s, t, 'rmitrvalid') == 1),
               ('c before p', p == c + 1), ('main current', M.g(s, 'started')), ('skipped elements are removed', z3.Implies(z3.And(z3.UGE(x, p0), z3.ULT(x, M.n), z3.Not(w.gone(x))), z3.UGE(x, p)))]
        out.append(('skipped elements before the current one are removed', z3.Implies(z3.And(z3.UGE(x, p0), z3.ULT(x, M.n), z3.Not(w.gone(x))), z3.UGE(x, c))))
        out += [('%s false' % l, z3.Not(v)) for l, v, v0 in lv.bools]
        for l, v, v0 in lv.ints:
            if v.size() == 8:
                out.append(('%s zero' % l, v == 0))
            if v.size() == 32:
                out += [('%s < 0 iff removal element before' % l, (v < 0) == lex(R.T(j), M.T(c))), ('%s = 0 iff equal' % l, (v == 0) == eq(R.T(j), M.T(c)))]
        return out
    return sp


def cmp_contract(E, w):
    """contract of RmItr::cmp on the current elements (proved in unit cmp)"""
    def f(E, st, a, dem):
        c, d = child(E, a[1]), child(E, a[2])
        E.oblige(st, z3.And(c.g(st, 'started'), d.g(st, 'started')), 'cmp: both inputs have a current element', 'pre')
        r = fresh('cmp', z3.BitVecSort(32))
        x, y = c.T(c.g(st, 'c')), d.T(d.g(st, 'c'))
        st.assume((r < 0) == lex(x, y), (r == 0) == eq(x, y))
        return r
    E.models['RmItr::cmp'] = f


def u_cmp(E, ign):
    st = State()
    w = W(E, st, ign)
    st.assume(w.M.wf(st), w.R.wf(st), w.M.g(st, 'started'), w.R.g(st, 'started'))
    known(w, st)
    for a, b in ((w.R, w.M), (w.M, w.R)):
        for o in E.run('RmItr::cmp', [Ptr(w.t, 0), a.p, b.p], st.copy()):
            if E.cover(o.st, 'cmp'):
                x, y = a.T(a.g(st, 'c')), b.T(b.g(st, 'c'))
                E.oblige(o.st, (o.val < 0) == lex(x, y), 'cmp: negative exactly when the first element comes before the second')
                E.oblige(o.st, (o.val == 0) == eq(x, y), 'cmp: zero exactly when the elements are equal')


def u_hasnext(E, ign):
    E.auto_linear = False
    st = State()
    w = W(E, st, ign)
    M, t = w.M, w.t
    w.M.abstract = w.R.abstract = True
    known(w, st)
    st.assume(w.inv(st, 0))
    # a started main input has its current element before the position (or is about to deliver it again)
    st.assume(z3.Implies(M.g(st, 'started'), z3.ULE(M.g(st, 'c'), M.g(st, 'p'))))
    near0 = w.near(st)
    cmp_contract(E, w)
    p0, x = M.g(st, 'p'), z3.BitVec('x', 64)
    st.assume(w.facts(x))
    E.loop_specs.append(spec(w, p0, x))
    st0 = st.copy()
    for o in E.run('RmItr::hasNext', [Ptr(t, 0)], st):
        s = o.st
        if not E.cover(s, 'hasNext'):
            continue
        known(w, s, x)
        c = M.g(s, 'c')
        r = o.val if z3.is_bool(o.val) else o.val == 1
        E.oblige(s, z3.Implies(r, z3.And(z3.UGE(c, p0), z3.ULT(c, M.n), z3.Not(w.gone(c)))), 'hasNext: the element found is not removed and not before the position')
        E.oblige(s, z3.Implies(z3.And(z3.UGE(x, p0), z3.ULT(x, M.n), z3.Not(w.gone(x))), z3.And(r, z3.UGE(x, c))), 'hasNext: no remaining element is missed')
        E.oblige(s, (fld(E, s, t, 'hn') == 1) == r, 'hasNext: the answer is cached')
        E.oblige(s, w.inv(s, 1), 'hasNext: invariant')
        E.oblige(s, z3.Implies(near0, w.near(s)), 'hasNext: invariant')
        same(E, s, st0, t, ('delnfirstterms', 'v1', 'v2', 'curCount', 'key', 'noseccol'), 'hasNext')


def u_again(E):
    """asking again"""
    E.auto_linear = False
    st = State()
    w = W(E, st, False, hnc=B1)
    st0 = st.copy()
    for o in E.run('RmItr::hasNext', [Ptr(w.t, 0)], st):
        E.cover(o.st, 'hasNext again')
        r = o.val if z3.is_bool(o.val) else o.val == 1
        E.oblige(o.st, r == (fld(E, st0, w.t, 'hn') == 1), 'hasNext: asking again gives the same answer')
        same(E, o.st, st0, w.t, I8N + ('v1', 'v2', 'curCount', 'nextCount', 'key'), 'hasNext again')
        E.oblige(o.st, z3.And(*[ch.g(o.st, g) == ch.g(st0, g) for ch in (w.M, w.R) for g in ('p', 'c')]), 'hasNext again: the inputs do not move', 'frame')


def u_next(E, ign):
    st = State()
    w = W(E, st, ign)
    M, t = w.M, w.t
    known(w, st)
    st.assume(w.inv(st, 1), fld(E, st, t, 'hn') == 1)
    st0 = st.copy()
    c = M.g(st, 'c')
    for o in E.run('RmItr::next()', [Ptr(t, 0)], st):
        s = o.st
        if not E.cover(s, 'next'):
            continue
        known(w, s)
        E.oblige(s, z3.And(fld(E, s, t, 'key') == M.key(c), fld(E, s, t, 'v1') == M.fa(c)), 'next: the element found by hasNext is delivered')
        if ign:
            E.oblige(s, fld(E, s, t, 'curCount') == w.count(c), 'next: the count is the number of remaining elements of the group')
        else:
            E.oblige(s, fld(E, s, t, 'v2') == M.fb(c), 'next: the element found by hasNext is delivered')
        E.oblige(s, z3.And(M.g(s, 'p') == c + 1, M.g(s, 'c') == c, w.inv(s, 0)), 'next: invariant')
        E.oblige(s, w.near(s), 'next: invariant')
        same(E, s, st0, t, ('delnfirstterms', 'noseccol'), 'next')
        for f, g in (('getValue1', 'v1'), ('getValue2', 'v2'), ('getCount', 'curCount')):
            for o2 in E.run('RmItr::' + f, [Ptr(t, 0)], s.copy()):
                E.oblige(o2.st, o2.val == fld(E, s, t, g), f + ': the current element')


def u_moveto(E, ign, hnc):
    st = State()
    w = W(E, st, ign, onekey=True)
    M, R, t = w.M, w.R, w.t
    v, x = z3.BitVecs('v x', 64)
    t1, t2 = z3.BitVec('t1', 64), BV(0) if ign else z3.BitVec('t2', 64)
    c = M.g(st, 'c')
    known(w, st, v, x)
    # element v is current, the inputs may have been looked ahead by hasNext
    st.assume(M.g(st, 'started'), z3.ULT(v, M.n), z3.ULE(v, c), fld(E, st, t, 'v1') == M.fa(v), t1 >= 0, t2 >= 0, z3.Not(w.gone(v)), w.near(st))
    tg = [t1] if ign else [t1, t2]
    st.assume(lex(M.T(v), tg))
    if hnc:
        st.assume(w.inv(st, 1), z3.Implies(z3.And(z3.UGT(x, v), z3.ULT(x, M.n), z3.Not(w.gone(x))), z3.And(fld(E, st, t, 'hn') == 1, z3.UGE(x, c))))
    else:
        st.assume(w.inv(st, 0), c == v, M.g(st, 'p') == v + 1)
    L, LR = M.lb(t1, t2), R.lb(t1, t2)
    for i in (v, x):
        st.assume(z3.Implies(z3.ULT(i, M.n), z3.ULT(i, L) == lex(M.T(i), tg)))
    st.assume(z3.ULE(LR, R.n), z3.ULE(LR, w.rank(L)), w.facts(L))
    st.assume(*[z3.Implies(z3.ULE(a, b), z3.ULE(w.rank(a), w.rank(b))) for a in (v, c, L) for b in (v, c, L, M.n)])
    st0 = st.copy()
    for o in E.run('RmItr::moveto', [Ptr(t, 0), t1, t2], st):
        s = o.st
        if not E.cover(s, 'moveto'):
            continue
        known(w, s, x)
        p = M.g(s, 'p')
        E.oblige(s, z3.Implies(z3.And(z3.UGT(x, v), z3.ULT(x, M.n), z3.Not(w.gone(x)), z3.Not(lex(M.T(x), tg))), z3.UGE(x, p)), 'moveto: no remaining element at or after the target is skipped')
        E.oblige(s, z3.And(z3.UGT(p, v), z3.Or(p == M.n, z3.Not(lex(M.T(p), tg)))), 'moveto: nothing before the target is delivered any more')
        E.oblige(s, w.inv(s, 0), 'moveto: invariant (hasNext is re-evaluated)')
        E.oblige(s, z3.ULE(M.g(s, 'c'), p), 'moveto: invariant')
        same(E, s, st0, t, ('delnfirstterms', 'noseccol', 'v1', 'v2', 'curCount', 'key'), 'moveto')


def u_init(E):
    st = State()
    w = W(E, st, False)
    M, R, t = w.M, w.R, w.t
    st.assume(z3.Not(M.g(st, 'started')), z3.Not(R.g(st, 'started')), M.g(st, 'p') == 0, R.g(st, 'p') == 0, M.wf(st), R.wf(st), w.facts(BV(0)))
    t.fields[K['itr']] = t.fields[K['rmitr']] = NULL
    nf = z3.BitVec('nfirst', 64)
    for o in E.run('RmItr::init', [Ptr(t, 0), M.p, R.p, nf], st):
        s = o.st
        E.cover(s, 'init')
        known(w, s)
        E.oblige(s, z3.And(w.inv(s, 0), z3.Not(M.g(s, 'started')), M.g(s, 'p') == 0), 'init: invariant, nothing delivered yet')
        E.oblige(s, z3.And(fld(E, s, t, 'v1') == -1, fld(E, s, t, 'noseccol') == 0, fld(E, s, t, 'delnfirstterms') == nf), 'init: no current element, both columns visible')
        for n, c in (('itr', M), ('rmitr', R)):
            p = rd(E, s, Ptr(t, K[n]), PTR)
            E.oblige(s, z3.BoolVal(isinstance(p, Ptr) and p.r is c.r), 'init: the inputs are recorded')


def u_ignore(E):
    """right after init: both inputs switch to groups; the current removal element stands for its group"""
    st = State()
    w = W(E, st, True, noseccol=B0, hnc=B0, v1=BV(2**64 - 1))
    M, R, t = w.M, w.R, w.t
    for c in (M, R):
        c.set(st, ignoring=z3.BoolVal(False), asked=z3.BoolVal(False))
    st.assume(z3.Not(M.g(st, 'started')), M.g(st, 'p') == 0, w.facts(BV(0)))
    rv = fld(E, st, t, 'rmitrvalid') == 1
    st.assume(z3.If(rv, z3.And(R.g(st, 'started'), R.g(st, 'c') == 0, R.g(st, 'p') == 1, z3.UGT(R.n, 0)), z3.And(R.n == 0, R.g(st, 'p') == 0)))
    st.assume(z3.Implies(R.g(st, 'started'), rd(E, st, Ptr(R.r, K['pi_key'])) == R.key(R.g(st, 'c'))), R.g(st, 'started') == rv)
    st0 = st.copy()
    for o in E.run('RmItr::ignoreSecondColumn', [Ptr(t, 0)], st):
        s = o.st
        E.cover(s, 'ignoreSecondColumn')
        known(w, s)
        E.oblige(s, z3.And(w.inv(s, 0), fld(E, s, t, 'noseccol') == 1, z3.Not(M.g(s, 'started')), M.g(s, 'p') == 0), 'ignoreSecondColumn: both inputs deliver groups from the start')
        same(E, s, st0, t, ('delnfirstterms', 'v1', 'v2', 'key', 'rmitrvalid'), 'ignoreSecondColumn')


def u_card(E):
    for ign in (False, True):
        st = State()
        w = W(E, st, ign)
        M, R, t = w.M, w.R, w.t
        st0 = st.copy()
        for o in E.run('RmItr::getCardinality', [Ptr(t, 0)], st.copy()):
            E.cover(o.st, 'getCardinality')
            E.oblige(o.st, o.val == M.card - (fld(E, st0, t, 'delnfirstterms') if ign else R.card), 'getCardinality: what the main input has less what is removed')
            same(E, o.st, st0, t, I8N + ('v1', 'v2', 'curCount', 'nextCount', 'key', 'delnfirstterms'), 'getCardinality')
        for o in E.run('RmItr::estCardinality', [Ptr(t, 0)], st.copy()):
            E.cover(o.st, 'estCardinality')
            d = z3.If(fld(E, st0, t, 'rmitrvalid') == 1, R.est, BV(0))
            E.oblige(o.st, o.val == z3.If(z3.ULE(d, M.est), M.est - d, BV(0)), 'estCardinality: never below zero or above the main input')
            same(E, o.st, st0, t, I8N + ('v1', 'v2', 'curCount', 'nextCount', 'key', 'delnfirstterms'), 'estCardinality')


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/I02.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = m.globals[g][1][1]
    u = [('init', m, u_init, {}), ('ignoreSecondColumn', m, u_ignore, {}), ('cardinality', m, u_card, {}), ('hasNext again', m, u_again, {})]
    for ign in (False, True):
        n = ', groups' if ign else ''
        u.append(('hasNext' + n, m, u_hasnext, dict(ign=ign)))
        u.append(('cmp' + n, m, u_cmp, dict(ign=ign)))
        u.append(('next' + n, m, u_next, dict(ign=ign)))
        for h in (0, 1):
            u.append(('moveto%s%s' % (' after hasNext' if h else '', n), m, u_moveto, dict(ign=ign, hnc=h)))
    return u


NATIVE = [{'src': 'I02.cpp', 'extra': ['$REPO/src/trident/iterators/rmitr.cpp', '$REPO/src/trident/iterators/arrayitr.cpp'], 'quick': 60000, 'thorough': 1000000}]
FUNCS = ['RmItr::init', 'RmItr::hasNext', 'RmItr::next', 'RmItr::cmp', 'RmItr::moveto', 'RmItr::ignoreSecondColumn', 'RmItr::getCount', 'RmItr::getValue1', 'RmItr::getValue2', 'RmItr::getCardinality', 'RmItr::estCardinality']
TRUSTED = ['PairItr interface contract of the two inputs (arbitrary strictly sorted sequences); T01, T02 and I01 prove it for the row tables, clustered tables and in-memory iterators']
ASSUMPTIONS = ['every removed element is an element of the main input', 'ignoreSecondColumn is called right after init', 'moveto: inputs over one key, target after the current element', 'getCount of an input may be called at any time (its value is arbitrary unless groups are read)', 'fewer than 2^40 elements']
