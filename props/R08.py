from ops import *

K = {}
x, y = z3.BitVecs('x y', 64)
LIM = BV(1 << 40)


def f(E, st, t, n, ty=I64):
    return rd(E, st, Ptr(t, K[n]), ty)


# ------------------------------------------------------------------ NestedLoopJoin
def u_nlj(E, first):
    st = State()
    lr, rr = reg('left'), reg('right')
    L = Child(E, st, 'left', {'v': (lr, 0)})
    R = Child(E, st, 'right', {'v': (rr, 0)}, multi=True)
    E.abstract_mul = True
    t = Region('this', size=K['NestedLoopJoin_size'], fields={K['NestedLoopJoin_left']: L.p, K['NestedLoopJoin_right']: R.p})
    r0 = R.run(st)
    if first:
        lo, runof = BV(0), lambda i: r0 + 1 + i
    else:   # the object stands on tuple i0 of the left input and tuple j0 of its right sequence
        i0, j0 = z3.BitVecs('i0 j0', 64)
        st.assume(L.wf(st), L.live(st), R.wf(st), R.live(st), L.pos(st) == i0 + 1, R.pos(st) == j0 + 1, z3.ULT(i0, L.n(st)), z3.ULT(j0, R.n(st)), f(E, st, t, 'NestedLoopJoin_leftCount') == L.C(st, i0), rd(E, st, Ptr(lr, 0)) == L.V(st, i0, 'v'), L.facts(st), R.facts(st))
        lo, runof = i0 + 1, lambda i: r0 + (i - i0)
    E.on_first = {'right': lambda E, st, c: E.oblige(st, z3.And(L.live(st), R.run(st) == runof(L.pos(st) - 1), rd(E, st, Ptr(lr, 0)) == L.V(st, L.pos(st) - 1, 'v')), 'the right side is evaluated once per left tuple, while the left registers hold that tuple', 'pre')}

    def none(st, hi):
        return z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, hi)), R.n(st, run=runof(x)) == 0)

    def spec(lv):
        s = lv.st
        s.assume(L.facts(s), R.facts(s))
        p = L.pos(s)
        return [('left position', z3.And(L.wf(s), L.live(s), z3.UGE(p, lo + 1))), ('right run: of the current left tuple', R.run(s) == runof(p - 1)), ('right run: of the previous left tuple', R.run(s) == runof(p - 2)),
                ('left registers', rd(E, s, Ptr(lr, 0)) == L.V(s, p - 1, 'v')), ('left count', f(E, s, t, 'NestedLoopJoin_leftCount') == L.C(s, p - 1)),
                ('earlier left tuples have no partner', none(s, p - 1)), ('left tuples so far have no partner', none(s, p))]
    E.loop_specs.append(spec)
    for o in E.run('NestedLoopJoin::' + ('first' if first else 'next'), [Ptr(t, 0)], st):
        s, w = o.st, 'first' if first else 'next'
        s.assume(L.facts(s), R.facts(s))
        if not E.cover(s, w):
            continue
        c, i, j = o.val, L.pos(s) - 1, R.pos(s) - 1
        m = E.mul(s, L.C(s, i), R.C(s, j))
        s.assume(z3.Implies(z3.And(L.C(s, i) != 0, R.C(s, j) != 0), m != 0))   # products of multiplicities do not wrap
        stay = z3.BoolVal(False) if first else z3.And(i == i0, j == j0 + 1, R.run(s) == r0)
        if not first:
            E.oblige(s, z3.Implies(z3.ULT(j0 + 1, R.n(s, run=r0)), z3.And(c != 0, stay)), w + ': the remaining right tuples of the current left tuple come first')
        E.oblige(s, z3.Implies(c == 0, z3.And(none(s, L.n(s)), *([] if first else [j0 + 1 == R.n(s, run=r0)]))), w + ': the end is reported only when no left tuple with a partner is left')
        E.oblige(s, z3.Implies(c != 0, z3.Or(stay, z3.And(j == 0, z3.UGE(i, lo), R.run(s) == runof(i), none(s, i)))), w + ': otherwise the next left tuple with a partner is used, from its first right tuple on')
        E.oblige(s, z3.Implies(c != 0, z3.And(L.live(s), R.live(s), z3.ULT(i, L.n(s)), z3.ULT(j, R.n(s)), rd(E, s, Ptr(lr, 0)) == L.V(s, i, 'v'), rd(E, s, Ptr(rr, 0)) == R.V(s, j, 'v'), f(E, s, t, 'NestedLoopJoin_leftCount') == L.C(s, i), c == m)),
                 w + ': registers of both sides and the product of the multiplicities')


# ------------------------------------------------------------------ MergeUnion
MU = ['done', 'stepLeft', 'stepRight', 'stepBoth', 'leftEmpty', 'rightEmpty']


class MUObj:
    def __init__(self, E, st, alias):
        self.E = E
        self.lr, self.rr = reg('left'), reg('right')
        self.res = self.lr if alias else reg('result')
        self.L = Child(E, st, 'left', {'v': (self.lr, 0)})
        self.R = Child(E, st, 'right', {'v': (self.rr, 0)})
        n = 'MergeUnion_'
        self.t = Region('this', size=K[n + 'size'], fields={K[n + 'left']: self.L.p, K[n + 'right']: self.R.p, K[n + 'leftReg']: Ptr(self.lr, 0), K[n + 'rightReg']: Ptr(self.rr, 0), K[n + 'result']: Ptr(self.res, 0)})
        for c in (self.L, self.R):
            c.extra = lambda st, i, c=c: [z3.ULT(c.C(st, i), BV(1 << 63))]

    def f(self, st, n, ty=I64):
        return f(self.E, st, self.t, 'MergeUnion_' + n, ty)

    def inv(self, st, i, j):
        """i left and j right tuples were delivered"""
        L, R, nL, nR = self.L, self.R, self.L.n(st), self.R.n(st)
        s = self.f(st, 'state', I32)
        used = lambda c, k: z3.And(c.pos(st) == k, c.live(st), k != 0, z3.ULE(k, c.n(st)))
        cur = lambda c, k, side: z3.And(c.pos(st) == k + 1, c.live(st), z3.ULT(k, c.n(st)), self.f(st, side + 'Value') == c.V(st, k), self.f(st, side + 'Count') == c.C(st, k))
        return z3.And(z3.ULE(i, nL), z3.ULE(j, nR), *[z3.Implies(s == K['MergeUnion_' + k], v) for k, v in dict(
            done=z3.And(i == nL, j == nR), stepLeft=z3.And(used(L, i), cur(R, j, 'right')), stepRight=z3.And(cur(L, i, 'left'), used(R, j)), stepBoth=z3.And(used(L, i), used(R, j)),
            leftEmpty=z3.And(i == nL, used(R, j)), rightEmpty=z3.And(j == nR, used(L, i))).items()], z3.Or(*[s == K['MergeUnion_' + k] for k in MU]))


def u_mu(E, first, alias, state=None):
    st = State()
    M = MUObj(E, st, alias)
    L, R = M.L, M.R
    i, j = (BV(0), BV(0)) if first else z3.BitVecs('i j', 64)
    st.assume(L.okc(st, i), R.okc(st, j), L.okc(st, i - 1), R.okc(st, j - 1))
    if not first:
        st.assume(M.f(st, 'state', I32) == K['MergeUnion_' + state], M.inv(st, i, j))
    w = 'first' if first else 'next'
    for o in E.run('MergeUnion::' + w, [Ptr(M.t, 0)], st):
        s, c = o.st, o.val
        if not E.cover(s, w):
            continue
        hasL, hasR = z3.ULT(i, L.n(s)), z3.ULT(j, R.n(s))
        tl = z3.And(hasL, z3.Or(z3.Not(hasR), z3.ULE(L.V(s, i), R.V(s, j))))
        tr = z3.And(hasR, z3.Or(z3.Not(hasL), z3.ULE(R.V(s, j), L.V(s, i))))
        E.oblige(s, c == z3.If(tl, L.C(s, i), BV(0)) + z3.If(tr, R.C(s, j), BV(0)), w + ': the multiplicity is that of the smaller front value, added up when both fronts have it, 0 at the end')
        E.oblige(s, z3.Implies(z3.Or(tl, tr), rd(E, s, Ptr(M.res, 0)) == z3.If(tl, L.V(s, i), R.V(s, j))), w + ': the result register holds the smaller front value')
        E.oblige(s, M.inv(s, i + z3.If(tl, BV(1), BV(0)), j + z3.If(tr, BV(1), BV(0))), w + ': exactly the delivered fronts are consumed')


# ------------------------------------------------------------------ DuplLimit
class DLObj:
    def __init__(self, E, st, dup):
        self.E, self.dup = E, dup
        self.r = reg('out')
        self.I = Child(E, st, 'input', {'v': (self.r, 0)})
        n = 'DuplLimit_'
        self.t = Region('this', size=K[n + 'size'], fields={0: Ptr(E.globptr('_ZTV9DuplLimit').r, 16), K[n + 'input']: self.I.p, K[n + 'duplicateHandling']: BV(K[n + ('Duplicates' if dup else 'NoDuplicates')], 32)})
        self.pre = z3.Function('rows before tuple', B64, B64)
        st.assume(self.pre(BV(0)) == 0)
        I = self.I
        I.extra = lambda st, i: [z3.Implies(z3.ULT(i, I.n(st)), z3.And(self.pre(i + 1) == self.pre(i) + self.w(st, i), z3.ULT(self.pre(i), self.pre(i + 1)), z3.ULE(self.pre(i + 1), self.total(st)))), z3.ULT(self.total(st), BV(1 << 60))]

    def f(self, st, n):
        return f(self.E, st, self.t, 'DuplLimit_' + n)

    def w(self, st, i):
        return self.I.C(st, i) if self.dup else BV(1)

    def total(self, st):
        return self.pre(self.I.n(st))

    def at(self, st, d):
        """the object stands on row d of the input (every tuple counted with its multiplicity)"""
        I, c = self.I, self.f(st, 'currentCount')
        i = I.pos(st) - 1
        return z3.And(I.wf(st), I.live(st), I.facts(st), z3.UGE(c, 1), z3.ULE(c, self.w(st, i)), d == self.pre(i) + c - 1, self.f(st, 'entryCount') == I.C(st, i), rd(self.E, st, Ptr(self.r, 0)) == I.V(st, i))


def u_dl(E, first, dup):
    st = State()
    D = DLObj(E, st, dup)
    I = D.I
    E.auto_linear = 'lite'
    lim, off = D.f(st, 'limit'), D.f(st, 'offset')
    st.assume(I.okc(st, BV(0)), I.okc(st, I.n(st) - 1))
    w = 'first' if first else 'next'
    if first:
        def spec(lv):
            s = lv.st
            s.assume(I.facts(s))
            return [('offset: rows skipped so far (%s)' % lab, z3.And(z3.ULE(v, off), D.at(s, off - v), z3.ULT(off - v, D.total(s)))) for lab, v, v0 in lv.ints if v.size() == 64] + \
                   [('no row delivered yet', z3.And(D.f(s, 'observedOutputCardinality') == 0, lim != 0))]
        E.loop_specs.append(spec)
        d1, k = off, BV(0)
        st.assume(z3.ULT(off, BV(1 << 60)))
    else:
        d, k = z3.BitVecs('d delivered', 64)
        st.assume(D.at(st, d), D.f(st, 'observedOutputCardinality') == k, z3.UGE(k, 1), z3.ULE(k, lim), d == off + k - 1, z3.ULT(d, D.total(st)))
        d1 = d + 1
    for o in E.run('DuplLimit::' + w, [Ptr(D.t, 0)], st):
        s, c = o.st, o.val
        s.assume(I.facts(s))
        if not E.cover(s, w):
            continue
        more = z3.And(z3.ULT(k, lim), z3.ULT(d1, D.total(s)))
        E.oblige(s, z3.Implies(z3.Not(more), c == 0), w + ': the end is reported at the limit or after the last row')
        E.oblige(s, z3.Implies(more, c == 1), w + ': rows are delivered one by one')
        E.oblige(s, z3.Implies(more, z3.And(D.at(s, d1), D.f(s, 'observedOutputCardinality') == k + 1)), w + ': the next row after the offset is delivered')


def u_ctor(E, which):
    st = State()
    l, r, a, b = Region('l'), Region('r'), Region('a'), Region('b')
    if which == 'NestedLoopJoin':
        args, fn, want = [Ptr(l, 0), Ptr(r, 0)], 'vp_nlj', dict(left=l, right=r)
    elif which == 'MergeUnion':
        args, fn, want = [Ptr(a, 0), Ptr(l, 0), Ptr(a, 0), Ptr(r, 0), Ptr(b, 0)], 'vp_mu', dict(left=l, right=r, result=a, leftReg=a, rightReg=b)
    else:
        lim, off, dh = z3.BitVec('limit', 64), z3.BitVec('offset', 64), z3.BitVec('dh', 32)
        v = Region('outputs', size=24, fields={0: NULL, 8: NULL, 16: NULL})
        for n in set(E.m.dem.values()):
            if 'std::vector<Register*' in n and '::vector(std::vector<Register*' in n and ' const&)' in n:
                E.models[n] = lambda E, st, a, d: [E.store(st, a[0].add(o), NULL, PTR) for o in (0, 8, 16)] and None
        args, fn, want = [Ptr(l, 0), Ptr(v, 0), dh, lim, off], 'vp_dl', dict(input=l)
    t = Region('this', size=K[which + '_size'])
    for o in E.run(fn, [Ptr(t, 0)] + args, st):
        if E.cover(o.st, 'ctor'):
            E.oblige(o.st, z3.BoolVal(all(f(E, o.st, t, which + '_' + k, PTR).r is v for k, v in want.items())), 'constructor: keeps inputs and registers')
            if which == 'DuplLimit':
                E.oblige(o.st, z3.And(f(E, o.st, t, 'DuplLimit_limit') == lim, f(E, o.st, t, 'DuplLimit_offset') == off, f(E, o.st, t, 'DuplLimit_duplicateHandling', I32) == dh), 'constructor: keeps limit, offset and the duplicate handling')


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R08.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(m, g)
    u = [('NestedLoopJoin::first', m, u_nlj, dict(first=True)), ('NestedLoopJoin::next', m, u_nlj, dict(first=False))]
    for al in (False, True):
        nm = ', result shared with left' if al else ''
        u.append(('MergeUnion::first' + nm, m, u_mu, dict(first=True, alias=al)))
        u += [('MergeUnion::next in %s%s' % (s, nm), m, u_mu, dict(first=False, alias=al, state=s)) for s in MU]
    for dup in (True, False):
        u += [('DuplLimit::%s, duplicates %s' % (k, 'kept' if dup else 'dropped'), m, u_dl, dict(first=k == 'first', dup=dup)) for k in ('first', 'next')]
    u += [(c + ' constructor', m, u_ctor, dict(which=c)) for c in ('NestedLoopJoin', 'MergeUnion', 'DuplLimit')]
    return u


SRC = ['NestedLoopJoin', 'MergeUnion', 'DuplLimit', 'Operator']
NATIVE = [{'src': 'R08.cpp', 'extra': ['$REPO/rdf3x/src/rts/%s.cpp' % s for s in SRC], 'quick': 100000, 'thorough': 2000000}]
FUNCS = ['NestedLoopJoin::NestedLoopJoin', 'NestedLoopJoin::first', 'NestedLoopJoin::next', 'MergeUnion::MergeUnion', 'MergeUnion::first', 'MergeUnion::next', 'DuplLimit::DuplLimit', 'DuplLimit::first', 'DuplLimit::next']
TRUSTED = ['Operator interface contract of the inputs (arbitrary finite sequences; the right side of a nested loop may yield a different sequence on every evaluation)', 'copy constructor of std::vector']
ASSUMPTIONS = ['input lengths below 2^40, rows of a limited query (with multiplicity) and offset below 2^60', 'products of multiplicities do not wrap; multiplicities of a union below 2^63', 'prefix sums of the multiplicities are monotone (arithmetic fact used by instances)']
BOUNDED = []
