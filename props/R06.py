from ops import *

K = {}
x, y = z3.BitVecs('x y', 64)
UL, UR = z3.Bool('x_has_no_partner'), z3.Bool('y_has_no_partner')
NUL = BV(2**64 - 1)          # the engine's marker for an unbound value
LIM = BV(1 << 40)


class MJ:
    """the merge join object over two arbitrary sorted inputs; wl/wr = number of further registers of each side"""

    def __init__(self, E, st, wl, wr, lo, ro):
        self.E, self.lo, self.ro, self.w = E, lo, ro, {'L': wl, 'R': wr}
        E.concrete_loops = True
        E.abstract_mul = True
        self.vreg = {'L': reg('leftValue'), 'R': reg('rightValue')}
        self.treg = {s: [reg('%sTail%d' % (s, k)) for k in range(self.w[s])] for s in 'LR'}
        self.c = {}
        for s, nm in (('L', 'left'), ('R', 'right')):
            self.c[s] = Child(E, st, nm, dict([('v', (self.vreg[s], 0))] + [('t%d' % k, (r, 0)) for k, r in enumerate(self.treg[s])]), sorted_by='v')
            if lo or ro:
                self.c[s].extra = lambda st, i, c=self.c[s]: [z3.Implies(z3.ULT(i, c.n(st)), z3.ULT(c.V(st, i, 'v'), NUL))]
                self.c[s].end = lambda k, g: [g != NUL] if k == 'v' else []
        f = {0: Ptr(E.globptr('_ZTV9MergeJoin').r, 16), K['left']: self.c['L'].p, K['right']: self.c['R'].p, K['leftValue']: Ptr(self.vreg['L'], 0), K['rightValue']: Ptr(self.vreg['R'], 0),
             K['leftOptional']: BV(int(lo), 8), K['rightOptional']: BV(int(ro), 8)}
        self.sh = {}
        for s, nm in (('L', 'left'), ('R', 'right')):
            tv = Region(nm + 'Tail[]', size=8 * self.w[s], fields={8 * k: Ptr(r, 0) for k, r in enumerate(self.treg[s])})
            self.vec(f, nm + 'Tail', tv, 8 * self.w[s])
            self.sh[s] = Region(nm + 'Shadow[]', size=8 * (2 + self.w[s]), fields={8 * k: z3.BitVec('%sShadow%d' % (nm, k), 64) for k in range(2 + self.w[s])})
            self.vec(f, nm + 'Shadow', self.sh[s], 8 * (2 + self.w[s]))
        self.W = 2 + wr
        self.buf = Region('buffer[]', arrays=[Arr(0, 8)])
        self.buf.stride = [8 * self.W, 8]
        self.bufend, self.b0 = z3.BitVecs('buflen bufpos', 64)
        b = K['buffer']
        f[b], f[b + 8], f[b + 16] = Ptr(self.buf, 0), Ptr(self.buf, Off(0, ((8 * self.W, self.bufend),))), Ptr(self.buf, Off(0, ((8 * self.W, self.bufend),)))
        f[K['bufferIter']] = Ptr(self.buf, Off(0, ((8 * self.W, self.b0),)))
        self.t = Region('this', size=K['size'], fields=f)
        st.setg('jb', z3.BitVec('jb', 64))
        st.setg('m', z3.BitVec('m', 64))
        self.BUF = z3.Function('buffered', B64, z3.ArraySort(B64, B64))
        E.models['vector<unsigned long, std::allocator<unsigned long> >::push_back'] = self.m_push
        for n in list(E.m.dem.values()):
            if 'vector<unsigned long' in n and '::push_back' in n:
                E.models[n] = self.m_push
        g = E.globptr('_ZN8Operator15disableSkippingE')
        E.store(st, g, BV(0, 8), I8)

    def vec(self, f, nm, r, n):
        k = K[nm]
        f[k], f[k + 8], f[k + 16] = Ptr(r, 0), Ptr(r, n), Ptr(r, n)

    # ---- buffer
    def m_push(self, E, st, a, dem):
        off = a[0].o.c - K['buffer']
        if a[0].r is not self.t or off != 0 or not a[0].o.isconst():
            raise Unsupported('push_back on an unknown vector')
        endc = Ptr(self.t, K['buffer'] + 8)
        end = rd(E, st, endc, PTR)
        v = rd(E, st, a[1])
        A = E.arr_get(st, self.buf, self.buf.arrays[0])
        idx = Off(end.o.c // 8, tuple((k // 8, t) for k, t in end.o.t)).bv()
        E.arr_set(st, self.buf, self.buf.arrays[0], z3.Store(A, idx, v))
        E.mute += 1
        E.store(st, endc, end.add(8), PTR)
        E.mute -= 1

    def bufarr(self, st):
        return self.E.arr_get(st, self.buf, self.buf.arrays[0])

    def tuples(self, o):
        """pointer offset into the buffer as (number of whole tuples)"""
        W = 8 * self.W
        if o.c % W or any(k % W for k, _ in o.t):
            return None
        return Off(o.c // W, tuple((k // W, t) for k, t in o.t)).bv()

    def blen(self, st):
        return self.tuples(rd(self.E, st, Ptr(self.t, K['buffer'] + 8), PTR).o)

    def bpos(self, st):
        return self.tuples(rd(self.E, st, Ptr(self.t, K['bufferIter']), PTR).o)

    def buf_def(self, st, jb, t):
        """definition of the ghost array buffered(jb): tuple t of it is right tuple jb+t"""
        R, B = self.c['R'], self.BUF(jb)
        return z3.And(z3.Select(B, t * self.W) == R.C(st, jb + t), z3.Select(B, t * self.W + 1) == R.V(st, jb + t, 'v'),
                      *[z3.Select(B, t * self.W + 2 + k) == R.V(st, jb + t, 't%d' % k) for k in range(self.w['R'])])

    # ---- state predicates
    def f(self, st, n, ty=I64):
        return rd(self.E, st, Ptr(self.t, K[n]), ty)

    def state(self, st):
        return self.f(st, 'scanState', I32)

    def tup(self, st, s, i, what='cur'):
        """the current registers (or the shadow) of side s hold tuple i of its input"""
        E, c, w = self.E, self.c[s], self.w[s]
        if what == 'cur':
            got = [self.f(st, {'L': 'leftCount', 'R': 'rightCount'}[s]), rd(E, st, Ptr(self.vreg[s], 0))] + [rd(E, st, Ptr(r, 0)) for r in self.treg[s]]
        else:
            got = [rd(E, st, Ptr(self.sh[s], 8 * k)) for k in range(2 + w)]
        return [got[0] == c.C(st, i), got[1] == c.V(st, i, 'v')] + [got[2 + k] == c.V(st, i, 't%d' % k) for k in range(w)]

    def unbound(self, st, s):
        return [rd(self.E, st, Ptr(r, 0)) == NUL for r in [self.vreg[s]] + self.treg[s]]

    def val(self, st, s):
        return rd(self.E, st, Ptr(self.vreg[s], 0))

    def shv(self, st, s):
        return rd(self.E, st, Ptr(self.sh[s], 8))

    def cases(self, st):
        """[(states, guard, facts, cur, pairs left, lefts left, rights left)]"""
        L, R = self.c['L'], self.c['R']
        p, q, nL, nR = L.pos(st), R.pos(st), L.n(st), R.n(st)
        Ll, Rl = L.live(st), R.live(st)
        T, F = z3.BoolVal(True), z3.BoolVal(False)
        vl = lambda i: L.V(st, i, 'v')
        vr = lambda j: R.V(st, j, 'v')
        ge, gt, ult = z3.UGE, z3.UGT, z3.ULT
        out = []

        def add(n, guard, facts, cur, pairs, lefts, rights):
            out.append((n, guard, facts, cur, pairs, lefts, rights))
        cl, sl, cr, sr = [(lambda i, s=s, w=w: self.tup(st, s, i, w)) for s in 'LR' for w in ('cur', 'sh')]
        # frontier comparisons: everything read before the frontier of one side is smaller than the frontier of the other
        sepR = z3.Implies(ge(q, 2), ult(vr(q - 2), vl(p - 1)))
        sepL = z3.Implies(ge(p, 2), ult(vl(p - 2), vr(q - 1)))
        endR = z3.Implies(nR != 0, ult(vr(nR - 1), vl(p - 1)))
        endL = z3.Implies(nL != 0, ult(vl(nL - 1), vr(q - 1)))
        both = [ge(p, 1), ge(q, 1), Ll, Rl]
        two = [ge(p, 2), ge(q, 2), Ll, Rl]
        add('scanHasBoth', z3.And(Ll, Rl), both + cl(p - 1) + cr(q - 1) + [sepR, sepL], None, z3.And(ge(x, p - 1), ge(y, q - 1)), ge(x, p - 1), ge(y, q - 1))
        ndR, ndL = z3.And(Ll, z3.Not(Rl)), z3.And(Rl, z3.Not(Ll))
        if self.ro:
            add('scanHasBoth', ndR, [ge(p, 1), q == nR] + cl(p - 1) + self.unbound(st, 'R') + [endR], None, F, ge(x, p - 1), F)
        if self.lo:
            add('scanHasBoth', ndL, [ge(q, 1), p == nL] + cr(q - 1) + self.unbound(st, 'L') + [endL], None, F, F, ge(y, q - 1))
        add('scanStepLeft', z3.And(Ll, Rl), both + cr(q - 1) + [ult(vl(p - 1), vr(q - 1)), sepR], ('L', p - 1), z3.And(ge(x, p), ge(y, q - 1)), ge(x, p), ge(y, q - 1))
        add('scanStepRight', z3.And(Ll, Rl), both + cl(p - 1) + [ult(vr(q - 1), vl(p - 1)), sepL], ('R', q - 1), z3.And(ge(x, p - 1), ge(y, q)), ge(x, p - 1), ge(y, q))
        if self.ro:
            add('scanStepLeft', ndR, [ge(p, 1), q == nR, endR] + self.unbound(st, 'R'), ('L', p - 1), F, ge(x, p), F)
            add('scanStepLeftCopyRight', T, both + sr(q - 1) + [ult(vl(p - 1), vr(q - 1)), sepR], ('L', p - 1), z3.And(ge(x, p), ge(y, q - 1)), ge(x, p), ge(y, q - 1))
        if self.lo:
            add('scanStepRight', ndL, [ge(q, 1), p == nL, endL] + self.unbound(st, 'L'), ('R', q - 1), F, F, ge(y, q))
            add('scanStepRightCopyLeft', T, both + sl(p - 1) + [ult(vr(q - 1), vl(p - 1)), sepL], ('R', q - 1), z3.And(ge(x, p - 1), ge(y, q)), ge(x, p - 1), ge(y, q))
        mt = vl(p - 2) == vr(q - 2)
        add('scanHasBothSwapped', T, two + sl(p - 1) + sr(q - 1) + [mt, ult(vl(p - 2), vl(p - 1)), ult(vr(q - 2), vr(q - 1))], ('P', p - 2, q - 2), z3.And(ge(x, p - 1), ge(y, q - 1)), ge(x, p - 1), ge(y, q - 1))
        # (guards of the two loopEmpty variants: a real tuple or the unbound marker in the registers)
        lu, ru = self.val(st, 'L') == NUL, self.val(st, 'R') == NUL
        add('loopEmptyLeft', z3.Not(lu) if self.lo else T, [p == nL, z3.Not(Ll), Rl, ge(nL, 1), ge(q, 1), vr(q - 1) == vl(nL - 1)] + cl(nL - 1), ('P', nL - 1, q - 1), z3.And(x == nL - 1, ge(y, q)), F, ge(y, q))
        if self.lo:
            add('loopEmptyLeft', lu, [p == nL, z3.Not(Ll), Rl, ge(q, 1), endL] + self.unbound(st, 'L'), ('R', q - 1), F, F, ge(y, q))
        add('loopEmptyRightHasData', T, [q == nR, z3.Not(Rl), Ll, ge(p, 2), ge(nR, 1), vl(p - 2) == vr(nR - 1)] + sl(p - 1) + cr(nR - 1), ('P', p - 2, nR - 1), z3.And(ge(x, p - 1), y == nR - 1), ge(x, p - 1), F)
        add('loopEmptyRight', z3.Not(ru) if self.ro else T, [q == nR, z3.Not(Rl), Ll, ge(p, 1), ge(nR, 1), vl(p - 1) == vr(nR - 1)] + cr(nR - 1), ('P', p - 1, nR - 1), z3.And(ge(x, p), y == nR - 1), ge(x, p), F)
        if self.ro:
            add('loopEmptyRight', ru, [q == nR, z3.Not(Rl), Ll, ge(p, 1), endR] + self.unbound(st, 'R'), ('L', p - 1), F, ge(x, p), F)
        add('loopEqualLeftHasData', T, two + [self.val(st, 'L') == vl(p - 2)] + cr(q - 2) + sl(p - 1) + sr(q - 1) + [mt, vl(p - 1) == vl(p - 2), ult(vr(q - 2), vr(q - 1))], ('P', p - 2, q - 2), z3.And(ge(x, p - 1), ge(y, q - 2)), ge(x, p - 1), ge(y, q - 1))
        add('loopEqualLeft', T, [ge(p, 1), ge(q, 2), Ll, Rl] + cr(q - 2) + sr(q - 1) + [self.shv(st, 'L') == vl(p - 1), vl(p - 1) == vr(q - 2), ult(vr(q - 2), vr(q - 1))], ('P', p - 1, q - 2), z3.And(ge(x, p), ge(y, q - 2)), ge(x, p), ge(y, q - 1))
        add('loopEqualRightHasData', T, two + [self.val(st, 'R') == vr(q - 2)] + cl(p - 2) + sl(p - 1) + sr(q - 1) + [mt, vr(q - 1) == vr(q - 2), ult(vl(p - 2), vl(p - 1))], ('P', p - 2, q - 2), z3.And(ge(x, p - 2), ge(y, q - 1)), ge(x, p - 1), ge(y, q - 1))
        add('loopEqualRight', T, [ge(p, 2), ge(q, 1), Ll, Rl] + cl(p - 2) + sl(p - 1) + [self.shv(st, 'R') == vr(q - 1), vl(p - 2) == vr(q - 1), ult(vl(p - 2), vl(p - 1))], ('P', p - 2, q - 1), z3.And(ge(x, p - 2), ge(y, q)), ge(x, p - 1), ge(y, q))
        jb, m, b, e = st.g('jb'), st.g('m'), self.bpos(st), self.blen(st)
        if b is not None and e is not None:
            inc = self.f(st, 'leftInCopy', I8)
            for nm in ('loopSpooledRightEmpty', 'loopSpooledRightHasData'):
                for g, i, fl in ((inc == 1, p - 2, [ge(p, 2), vl(p - 1) == vl(p - 2)] + sl(p - 1)), (inc == 0, p - 1, [ge(p, 1), self.shv(st, 'L') == vl(p - 1)])):
                    if nm.endswith('Empty'):
                        fr = [z3.Not(Rl), q == nR, q == jb + m]
                    else:
                        fr = [Rl, q - 1 == jb + m, ult(vr(jb + m - 1), vr(q - 1))] + sr(q - 1)
                    add(nm, g, [Ll, ge(m, 1), ult(m, LIM), ult(jb, LIM), z3.ULE(b, m), e == m, vr(jb) == vl(i), vr(jb + m - 1) == vl(i), self.bufarr(st) == self.BUF(jb), z3.Implies(b != 0, self.val(st, 'R') == vr(jb + b - 1))] + cl(i) + fl + fr,
                        ('P', i, jb + b - 1), z3.Or(z3.And(x == i, ge(y, jb + b)), z3.And(gt(x, i), ge(y, jb))), gt(x, i), ge(y, jb + m))
        add('empty', T, [], None, F, F, F)
        k = conc(self.state(st))
        return out if k is None else [o for o in out if K[o[0]] == k]

    def wf(self, st):
        L, R = self.c['L'], self.c['R']
        return [L.wf(st), R.wf(st)]

    def facts(self, st):
        """instances of the contract of the inputs: sorted, non-zero counts, and of 'x (y) has no partner'"""
        L, R = self.c['L'], self.c['R']
        p, q = L.pos(st), R.pos(st)
        jb, m, b = st.g('jb'), st.g('m'), self.bpos(st)
        il = [x, p - 2, p - 1, p, L.n(st) - 1]
        ir = [y, q - 2, q - 1, q, R.n(st) - 1]
        k = conc(self.state(st))
        spool = k is None or k in (K['loopSpooledRightEmpty'], K['loopSpooledRightHasData'])
        if not spool:
            b = None
        else:
            ir += [jb, jb + m - 1] + ([jb + b, jb + b - 1] if b is not None else [])
        out = []
        for c, ix in ((L, il), (R, ir)):
            n = c.n(st)
            for k, i in enumerate(ix):
                out.append(z3.Implies(z3.ULT(i, n), z3.And(c.C(st, i) != 0, z3.ULT(c.C(st, i), BV(1 << 31)))))
                if self.lo or self.ro:
                    out.append(z3.Implies(z3.ULT(i, n), z3.ULT(c.V(st, i, 'v'), NUL)))
                for j in ix[k + 1:]:
                    for a, d in ((i, j), (j, i)):
                        out.append(z3.Implies(z3.And(z3.ULE(a, d), z3.ULT(d, n)), z3.ULE(c.V(st, a, 'v'), c.V(st, d, 'v'))))
        for j in ir:
            out.append(z3.Implies(z3.And(UL, z3.ULT(j, R.n(st))), L.V(st, x, 'v') != R.V(st, j, 'v')))
        for i in il:
            out.append(z3.Implies(z3.And(UR, z3.ULT(i, L.n(st))), R.V(st, y, 'v') != L.V(st, i, 'v')))
        if b is not None:
            out.append(self.buf_def(st, jb, b))
            out.append(self.buf_def(st, jb, BV(0)))
        return out

    def rem(self, st):
        """remaining work in this state: three formulas"""
        s = self.state(st)
        pairs, lefts, rights = [], [], []
        for nm, g, f, cur, a, b, c in self.cases(st):
            h = z3.And(s == BV(K[nm], 32), g)
            pairs.append(z3.And(h, a)); lefts.append(z3.And(h, b)); rights.append(z3.And(h, c))
        return z3.Or(*pairs), z3.Or(*lefts), z3.Or(*rights)

    def hyp(self, st, k):
        L, R = self.c['L'], self.c['R']
        return [z3.And(z3.ULT(x, L.n(st)), z3.ULT(y, R.n(st)), L.V(st, x, 'v') == R.V(st, y, 'v')), z3.And(self.ro, z3.ULT(x, L.n(st)), UL), z3.And(self.lo, z3.ULT(y, R.n(st)), UR)][k]

    def inv(self, st):
        """representation invariant as a list of named conjuncts"""
        s = self.state(st)
        cs = self.cases(st)
        out = [('left position', self.c['L'].wf(st)), ('right position', self.c['R'].wf(st))]
        out.append(('known state', z3.Or(*[z3.And(s == BV(K[nm], 32), g) for nm, g, *_ in cs])))
        for nm, g, f, *_ in cs:
            for j, fa in enumerate(f):
                out.append(('%s: %d' % (nm, j), z3.Implies(z3.And(s == BV(K[nm], 32), g), fa)))
        return out


def remname(k):
    return ['matching pairs still to deliver', 'left tuples without partner still to deliver', 'right tuples without partner still to deliver'][k]


def continued(J, rem0, what):
    """'continue' in next() is next() again: the state must satisfy the invariant and leave the same work to do"""
    def cb(E, s):
        s.assume(*J.facts(s))
        if not E.cover(s, what + ' continues'):
            return
        st = J.state(s)
        E.oblige_all(s, J.inv(s), '%s continues: invariant ' % what)
        for nm, g, f, cur, *r in J.cases(s):
            h = z3.And(st == BV(K[nm], 32), g)
            E.oblige_all(s, [('%s unchanged' % remname(k), z3.Implies(z3.And(h, J.hyp(s, k)), rem0[k] == r[k])) for k in range(3)], '%s -> %s continues: ' % (what, nm))
    return cb


def post(J, o, rem0, what):
    E, s = J.E, o.st
    L, R = J.c['L'], J.c['R']
    if not E.cover(s, what):
        return
    s.assume(*J.facts(s))
    c = o.val
    if E.entails(s, c == 0)[0] == z3.unsat:
        E.oblige_all(s, [('the end is reported only when nothing is left (%s)' % remname(k), z3.Implies(J.hyp(s, k), z3.Not(rem0[k]))) for k in range(3)], what + ': ')
        return
    E.oblige(s, c != 0, what + ': a delivered tuple has a count')
    E.oblige_all(s, J.inv(s), what + ': invariant ')
    st = J.state(s)
    rem1 = J.rem(s)
    for i, (nm, g, f, cur, *r) in enumerate(J.cases(s)):
        h = z3.And(st == BV(K[nm], 32), g)
        if not E.feasible(s, h):
            continue
        lab = '%s -> %s/%d: ' % (what, nm, i)
        if cur is None:
            E.oblige(s, z3.Not(h), lab + 'not a state to return a tuple in')
            continue
        sub = lambda fm, a, b: z3.substitute(fm, (x, a), (y, b))
        kind = cur[0]
        i0 = cur[1] if kind in 'PL' else None
        j0 = cur[2] if kind == 'P' else cur[1] if kind == 'R' else None
        regs, cnt = [], None
        for sd, ix in (('L', i0), ('R', j0)):
            regs += J.unbound(s, sd) if ix is None else J.tup(s, sd, ix)[1:]
            regs += [] if ix is None else [z3.ULT(ix, J.c[sd].n(s))]
        cnt = E.mul(s, L.C(s, i0), R.C(s, j0)) if kind == 'P' else L.C(s, i0) if kind == 'L' else R.C(s, j0)
        ob = [('the registers hold the tuples of this combination', z3.Implies(h, z3.And(*regs))), ('the multiplicity is the product', z3.Implies(h, c == cnt))]
        k0 = {'P': 0, 'L': 1, 'R': 2}[kind]
        if kind == 'P':
            ob.append(('the combination agrees on the join value', z3.Implies(h, L.V(s, i0, 'v') == R.V(s, j0, 'v'))))
        else:
            ob.append(('only an optional side may be left unbound', z3.Or(z3.Not(h), z3.BoolVal(J.ro if kind == 'L' else J.lo))))
            ob.append(('a tuple with the other side unbound has no partner', z3.Implies(z3.And(h, z3.ULT(y, R.n(s)) if kind == 'L' else z3.ULT(x, L.n(s))), L.V(s, i0 if kind == 'L' else x, 'v') != R.V(s, y if kind == 'L' else j0, 'v'))))
        eq = z3.And(x == i0, y == j0) if kind == 'P' else x == i0 if kind == 'L' else y == j0
        for k in range(3):
            d = rem0[k] == (z3.Or(eq, r[k]) if k == k0 else r[k])
            ob.append(('%s: exactly the delivered one is gone' % remname(k), z3.Implies(z3.And(h, J.hyp(s, k)), d)))
        ob.append(('the delivered combination is not delivered again', z3.Implies(z3.And(h, eq), z3.Not(r[k0]))))
        if kind == 'P' and not (J.lo or J.ro):
            ob.append(('join values do not decrease', z3.Implies(z3.And(h, J.hyp(s, 0), r[0]), z3.ULE(L.V(s, i0, 'v'), L.V(s, x, 'v')))))
        E.oblige_all(s, ob, lab)


def m_nm(J):
    def m(E, st, args, dem):
        L, R = J.c['L'], J.c['R']
        p, q = L.pos(st), R.pos(st)
        E.oblige_all(st, nm_pre(J, st), 'handleNM precondition: ', 'pre')
        outs = []
        for nm in ('loopSpooledRightEmpty', 'loopSpooledRightHasData'):
            s = st.copy()
            m, q2 = fresh('m', B64), fresh('q', B64)
            s.setg('jb', q - 2)
            s.setg('m', m)
            s.setg('right.pos', q2)
            s.setg('right.live', z3.BoolVal(nm.endswith('HasData')))
            E.mute += 1
            for r in [J.vreg['R']] + J.treg['R']:
                E.store(s, Ptr(r, 0), fresh('r', B64), I64)
            E.store(s, Ptr(J.t, K['rightCount']), fresh('rc', B64), I64)
            for k in range(2 + J.w['R']):
                E.store(s, Ptr(J.sh['R'], 8 * k), fresh('rs', B64), I64)
            E.store(s, Ptr(J.t, K['leftInCopy']), BV(1, 8), I8)
            E.store(s, Ptr(J.t, K['scanState']), BV(K[nm], 32), I32)
            E.store(s, Ptr(J.t, K['bufferIter']), Ptr(J.buf, Off(0, ((8 * J.W, BV(0)),))), PTR)
            E.store(s, Ptr(J.t, K['buffer'] + 8), Ptr(J.buf, Off(0, ((8 * J.W, m),))), PTR)
            E.mute -= 1
            E.arr_set(s, J.buf, J.buf.arrays[0], J.BUF(q - 2))
            for n, f in nm_post(J, s, nm, p, q):
                s.assume(f)
            outs.append(Outcome(s, 'ret', None))
        return outs
    return m


def nm_pre(J, st):
    L, R = J.c['L'], J.c['R']
    p, q = L.pos(st), R.pos(st)
    v = [L.V(st, p - 2, 'v') == L.V(st, p - 1, 'v'), R.V(st, q - 2, 'v') == R.V(st, q - 1, 'v'), L.V(st, p - 2, 'v') == R.V(st, q - 2, 'v')]
    out = [('positions', z3.And(L.wf(st), R.wf(st), z3.UGE(p, 2), z3.UGE(q, 2), L.live(st), R.live(st))), ('two equal tuples on both sides', z3.And(*v))]
    for n, s, i, w in (('left', 'L', p - 2, 'cur'), ('left shadow', 'L', p - 1, 'sh'), ('right', 'R', q - 2, 'cur'), ('right shadow', 'R', q - 1, 'sh')):
        out.append((n, z3.And(*J.tup(st, s, i, w))))
    return out


def nm_post(J, s, nm, p, q):
    L, R = J.c['L'], J.c['R']
    m, q2 = s.g('m'), R.pos(s)
    out = [('positions', z3.And(R.wf(s), z3.ULE(q2, R.n(s)), z3.UGE(m, 2), z3.ULT(m, LIM))), ('block value', z3.And(R.V(s, q - 2 + m - 1, 'v') == R.V(s, q - 2, 'v')))]
    if nm.endswith('Empty'):
        out += [('right exhausted', z3.And(z3.Not(R.live(s)), q2 == R.n(s), q2 == q - 2 + m))]
    else:
        out += [('right has data', z3.And(R.live(s), q2 - 1 == q - 2 + m, z3.ULT(R.V(s, q - 2, 'v'), R.V(s, q2 - 1, 'v')))), ('right shadow', z3.And(*J.tup(s, 'R', q2 - 1, 'sh')))]
    return out


def u_nm(E, w):
    E.auto_linear = False
    st = State()
    J = MJ(E, st, 1, w, False, False)
    L, R = J.c['L'], J.c['R']
    p, q = L.pos(st), R.pos(st)
    t = z3.BitVec('t', 64)
    st.assume(*[f for _, f in nm_pre(J, st)])
    st.assume(*J.facts(st))
    E.cand_timeout = 9000
    left0 = [rd(E, st, Ptr(r, 0)) for r in [J.vreg['L']] + J.treg['L']]
    sh0 = [rd(E, st, Ptr(J.sh['L'], 8 * k)) for k in range(3)]
    E.find_free = None

    def content(s, tt):
        B = J.bufarr(s)
        W = J.W
        return z3.And(z3.Select(B, tt * W) == R.C(s, q - 2 + tt), z3.Select(B, tt * W + 1) == R.V(s, q - 2 + tt, 'v'), *[z3.Select(B, tt * W + 2 + k) == R.V(s, q - 2 + tt, 't%d' % k) for k in range(w)])

    W = J.W
    la, lb = z3.BitVecs('la lb', 64)
    lemma = lambda a, b: z3.Implies(z3.And(z3.ULT(a, b), z3.ULT(b, LIM)), z3.And(z3.ULE(a * W + W, b * W), z3.ULT(b * W, BV(1 << 48))))
    E.oblige(st, lemma(la, lb), 'lemma: tuple offsets in the buffer are ordered and do not overlap')

    def spec(lv):
        s = lv.st
        if J.blen(s) is not None:
            s.assume(lemma(t, J.blen(s)), lemma(J.blen(s), t))
        q1 = R.pos(s)
        s.assume(R.okc(s, q1), R.okc(s, q1 - 1))
        hc = [b for n, b, _ in lv.bools] + [z3.Extract(0, 0, v) == 1 for n, v, _ in lv.ints if v.size() == 8]
        e = J.blen(s)
        if e is None:
            return []
        out = [('right position', z3.And(R.wf(s), R.live(s), z3.UGE(q1, q), z3.ULT(q1, LIM))), ('the shadow keeps the first tuple', z3.And(*J.tup(s, 'R', q - 2, 'sh'))), ('current right tuple', z3.And(*J.tup(s, 'R', q1 - 1, 'cur'))),
               ('same join value', R.V(s, q1 - 1, 'v') == R.V(s, q - 2, 'v')), ('e bound', z3.ULT(e, LIM)), *[('!buffered tuple t, component %d' % k, z3.Implies(z3.ULT(t, e), cc)) for k, cc in enumerate(content(s, t).children())]]
        for k, h in enumerate(hc):
            out.append(('first round %d' % k, z3.Implies(h, z3.And(e == 0, q1 == q))))
            out.append(('later rounds %d' % k, z3.Implies(z3.Not(h), e == q1 - 1 - (q - 2))))
        return out
    E.loop_specs.append(spec)
    for o in E.run('MergeJoin::handleNM', [Ptr(J.t, 0)], st):
        s = o.st
        m = J.blen(s)
        s.setg('m', m)
        s.setg('jb', q - 2)
        s.assume(R.okc(s, R.pos(s)), R.okc(s, R.pos(s) - 1), R.okc(s, R.pos(s) - 2))
        if not E.cover(s, 'return'):
            continue
        sc = J.state(s)
        nm = next((n for n in ('loopSpooledRightEmpty', 'loopSpooledRightHasData') if conc(sc) == K[n]), None)
        if nm is None:
            E.oblige(s, z3.BoolVal(False), 'handleNM: unexpected scan state')
            continue
        for n, f in nm_post(J, s, nm, p, q):
            E.oblige(s, f, 'handleNM post (%s): %s' % (nm, n))
        for k, cc in enumerate(content(s, t).children()):
            E.oblige(s, z3.Implies(z3.ULT(t, m), cc), 'handleNM post (%s): the buffer holds exactly the right block, component %d' % (nm, k))
        E.oblige(s, z3.And(J.f(s, 'leftInCopy', I8) == 1, J.bpos(s) == 0), 'handleNM post (%s): iteration starts at the first tuple, second left tuple in the copy' % nm)
        E.oblige(s, z3.And(L.pos(s) == p, L.live(s) == L.live(st), *[a == rd(E, s, Ptr(r, 0)) for a, r in zip(left0, [J.vreg['L']] + J.treg['L'])]), 'handleNM frame: left side untouched')
        E.oblige(s, z3.And(*[a == rd(E, s, Ptr(J.sh['L'], 8 * k)) for k, a in enumerate(sh0)]), 'handleNM frame: left shadow untouched')


def u_next(E, wl, wr, lo, ro, part):
    E.auto_linear = False
    st = State()
    J = MJ(E, st, wl, wr, lo, ro)
    names = []
    for c in J.cases(st):
        if c[0] not in names:
            names.append(c[0])
    for nm in names:
        if part is not None and not part(nm):
            continue
        st = State()
        J = MJ(E, st, wl, wr, lo, ro)
        E.models['MergeJoin::handleNM'] = m_nm(J)
        E.mute += 1
        E.store(st, Ptr(J.t, K['scanState']), BV(K[nm], 32), I32)
        E.mute -= 1
        for i, (n2, g, f, cur, *r) in enumerate(J.cases(st)):
            if n2 != nm:
                continue
            s = st.copy()
            s.assume(*J.facts(s))
            s.assume(J.c['L'].wf(s), J.c['R'].wf(s), g, *f)
            what = '%s/%d' % (nm, i)
            if not E.cover(s, what):
                continue
            E.tail_loops = {'MergeJoin::next': continued(J, r, what)}
            for o in E.run('MergeJoin::next', [Ptr(J.t, 0)], s):
                post(J, o, r, what)


def u_first(E, wl, wr, lo, ro):
    E.auto_linear = False
    st = State()
    J = MJ(E, st, wl, wr, lo, ro)
    L, R = J.c['L'], J.c['R']
    st.assume(z3.ULT(L.n(st), LIM), z3.ULT(R.n(st), LIM))
    st.assume(*J.facts(st))
    rem0 = (z3.BoolVal(True),) * 3

    def m_next(E, s, args, dem):
        """next() on the initial state: contract proved by the unit 'next' for every state of the invariant"""
        s.assume(*J.facts(s))
        E.oblige_all(s, J.inv(s), 'first: invariant before the first step: ')
        r = J.rem(s)
        for k in range(3):
            E.oblige(s, z3.Implies(J.hyp(s, k), r[k]), 'first: everything is still to deliver before the first step (%s)' % remname(k))
        s.setg('delegated', z3.BoolVal(True))
        return fresh('next', B64)
    E.models['MergeJoin::next'] = m_next
    st.setg('delegated', z3.BoolVal(False))
    for o in E.run('MergeJoin::first', [Ptr(J.t, 0)], st):
        if z3.is_true(o.st.g('delegated')):
            E.cover(o.st, 'delegated')
            continue
        post(J, o, rem0, 'first')


STATES = ['scanHasBoth', 'scanStepLeft', 'scanStepRight', 'scanStepLeftCopyRight', 'scanStepRightCopyLeft', 'scanHasBothSwapped', 'loopEmptyLeft', 'loopEmptyRightHasData', 'loopEmptyRight',
          'loopEqualLeftHasData', 'loopEqualLeft', 'loopEqualRightHasData', 'loopEqualRight', 'loopSpooledRightEmpty', 'loopSpooledRightHasData', 'empty']
MODES = [(False, False), (True, False), (False, True), (True, True)]


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R06.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(m, g)
    out = []
    ws = [(1, 1)] if tier == 'quick' else [(1, 1), (0, 0), (2, 1), (1, 2), (0, 1), (1, 0), (2, 2)]
    for wr in sorted({w[1] for w in ws}):
        out.append(('handleNM [%d]' % wr, m, u_nm, dict(w=wr)))
    for wl, wr in ws:
        for lo, ro in MODES:
            md = {(False, False): 'inner', (True, False): 'left optional', (False, True): 'right optional', (True, True): 'both optional'}[(lo, ro)]
            kw = dict(wl=wl, wr=wr, lo=lo, ro=ro)
            for nm in STATES:
                if nm.endswith('CopyRight') and not ro or nm.endswith('CopyLeft') and not lo:
                    continue
                out.append(('next from %s, %s [%d,%d]' % (nm, md, wl, wr), m, u_next, dict(kw, part=lambda n, nm=nm: n == nm)))
            out.append(('first %s [%d,%d]' % (md, wl, wr), m, u_first, kw))
    return out


NATIVE = [{'src': 'R06.cpp', 'extra': ['$REPO/rdf3x/src/rts/MergeJoin.cpp', '$REPO/rdf3x/src/rts/Operator.cpp'], 'quick': 60000, 'thorough': 1000000}]
FUNCS = ['MergeJoin::first', 'MergeJoin::next', 'MergeJoin::handleNM', 'MergeJoin::copyLeft', 'MergeJoin::swapLeft', 'MergeJoin::copyRight', 'MergeJoin::swapRight']
TRUSTED = ['Operator interface contract of the two inputs (arbitrary finite sequences sorted by the join value)', 'std::vector<uint64_t>::push_back appends without other effect']
ASSUMPTIONS = ['multiplicities of the inputs below 2^31, input lengths below 2^40', 'Operator::disableSkipping (a benchmarking switch) is off', 'in optional mode join values are below 2^64-1 (the engine marks unbound values with that number)']
BOUNDED = ['number of further registers per side: proved for one per side in the quick tier, 0..2 in the thorough tier; 0..2 in the native oracle']
