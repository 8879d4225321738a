from common import *

K = {}
B64 = z3.BitVecSort(64)
NONE = BV(2**64 - 1)
B0, B1 = BV(0, 8), BV(1, 8)


class A:
    """the pair array of n rows, sorted; ghost bounds of the values of interest"""
    def __init__(self, E, st):
        self.E = E
        self.n = z3.BitVec('n', 64)
        st.assume(z3.ULT(self.n, BV(1 << 30)))
        self.r = Region('rows', arrays=[Arr(0, 8, self.n, stride=16), Arr(8, 8, self.n, stride=16)], const=True)
        self.r.stride = 16
        self.r.on_read = lambda E, st, a, i: st.assume(self.facts(i), *([self.facts(i - 1)] if self.groups else []))
        e = Ptr(self.r, Off(0, ((16, self.n),)))
        self.vec = Region('vector', size=24, fields={0: Ptr(self.r, 0), 8: e, 16: e})
        self.f1, self.f2 = z3.Function('first', B64, B64), z3.Function('second', B64, B64)
        self.r.uf = {0: self.f1, 8: self.f2}
        self.L, self.U, self.D = z3.Function('L', B64, B64), z3.Function('U', B64, B64), z3.Function('D', B64, B64)
        self.P, self.Q = z3.Function('P', B64, B64, B64), z3.Function('Q', B64, B64, B64)
        self.firsts, self.pairs, self.groups = [], [], False

    def interest(self, st, c1, c2=None):
        self.firsts.append(c1)
        st.assume(z3.ULE(self.L(c1), self.U(c1)), z3.ULE(self.U(c1), self.n))
        if c2 is not None:
            self.pairs.append((c1, c2))
            st.assume(z3.ULE(self.L(c1), self.P(c1, c2)), z3.ULE(self.P(c1, c2), self.Q(c1, c2)), z3.ULE(self.Q(c1, c2), self.U(c1)))

    def facts(self, i):
        a, b = self.f1(i), self.f2(i)
        f = [a >= 0, b >= 0]
        for c in self.firsts:
            f += [z3.ULT(i, self.L(c)) == z3.ULT(a, c), z3.ULT(i, self.U(c)) == z3.ULE(a, c)]
        for c1, c2 in self.pairs:
            f += [z3.ULT(i, self.P(c1, c2)) == z3.Or(z3.ULT(a, c1), z3.And(a == c1, z3.ULT(b, c2))), z3.ULT(i, self.Q(c1, c2)) == z3.Or(z3.ULT(a, c1), z3.And(a == c1, z3.ULE(b, c2)))]
        if self.groups:
            D = self.D
            f += [D(BV(0)) == 0, D(i + 1) == D(i) + z3.If(z3.Or(i == 0, self.f1(i - 1) != a), BV(1), BV(0)), z3.ULE(D(i), i)]
            f.append(z3.Implies(i != 0, z3.ULE(self.f1(i - 1), a)))
        return z3.Implies(z3.ULT(i, self.n), z3.And(*f))


I32N = ('nElements', 'pos', 'markPos')
I8N = ('hasNextChecked', 'n', 'ignSecondColumn')
ALL = ('constraint1', 'constraint2', 'nElements', 'pos', 'v1', 'v2', 'markPos', 'hasNextChecked', 'n', 'ignSecondColumn', 'countElems')


def fld(E, s, t, f):
    v = rd(E, s, Ptr(t, K[f]), I32 if f in I32N else I8 if f in I8N else I64)
    return z3.SignExt(32, v) if f in I32N else v


def mk(E, st, a, **kw):
    f = {0: Ptr(E.globptr('_ZTV8ArrayItr').r, 16), K['array']: Ptr(a.vec, 0), K['array'] + 8: NULL}
    for k in ALL:
        f[K[k]] = z3.BitVec('this.' + k, 32 if k in I32N else 8 if k in I8N else 64)
    f[K['nElements']] = z3.Extract(31, 0, a.n)
    for k, v in kw.items():
        f[K[k]] = v
    for k in I8N:
        st.assume(z3.ULE(f[K[k]], 1))
    return Region('this', size=K['size'], fields=f)


def base(E, ign=None, c=0, **kw):
    """c: 0 unconstrained, 1 first column, 2 both, 3 any of these"""
    E.auto_linear = False
    E.models['std::__throw_out_of_range_fmt'] = lambda E, st, args, dem: (E.oblige(st, z3.BoolVal(False), 'safety: no element outside the array is requested', 'safety'), [])[1]
    st = State()
    a = A(E, st)
    a.c1 = NONE if c == 0 else z3.BitVec('c1', 64)
    a.c2 = NONE if c < 2 else z3.BitVec('c2', 64)
    a.c = c
    if c == 3:
        st.assume(a.c1 >= -1, a.c2 >= -1, z3.Implies(a.c1 == -1, a.c2 == -1))
    elif c:
        st.assume(a.c1 >= 0)
    if c == 2:
        st.assume(a.c2 >= 0)
    if c in (1, 2):
        a.interest(st, a.c1, a.c2 if c == 2 else None)
    if ign is not None:
        kw['ignSecondColumn'] = BV(ign, 8)
    t = mk(E, st, a, constraint1=a.c1, constraint2=a.c2, **kw)
    a.t = t
    return st, a, t


def match(a, i):
    m = z3.BoolVal(True)
    if a.c == 3:
        return z3.And(z3.Or(a.c1 == NONE, a.f1(i) == a.c1), z3.Or(a.c2 == NONE, a.f2(i) == a.c2))
    if a.c:
        m = a.f1(i) == a.c1
    if a.c == 2:
        m = z3.And(m, a.f2(i) == a.c2)
    return m


def has(a, p):
    return z3.And(z3.ULT(p, a.n), match(a, p))


def same(E, s, st0, t, names, what):
    for n in names:
        E.oblige(s, fld(E, s, t, n) == fld(E, st0, t, n), '%s: %s is not modified' % (what, n), 'frame')
    for o in (0, 8):
        p, q = rd(E, s, Ptr(t, K['array'] + o), PTR), rd(E, st0, Ptr(t, K['array'] + o), PTR)
        E.oblige(s, z3.BoolVal(isinstance(p, Ptr) and p.r is q.r and conc(p.o.bv()) == conc(q.o.bv())), '%s: the array is not replaced' % what, 'frame')


def spec(E, a, anchors):
    """loop variables that range over rows stay between the ghost bounds"""
    def sp(lv):
        s = lv.st
        out = []
        vs = []
        for l, v, v0 in lv.ints:
            if v.size() in (32, 64):
                sx = z3.SignExt(32, v) if v.size() == 32 else v
                sx0 = None if v0 is None else z3.SignExt(32, v0) if v0.size() == 32 else v0
                vs.append((l, sx, sx0))
        for l, v, v0 in vs:
            s.assume(a.facts(v))
            for an, t in anchors(s) + [('n', a.n)]:
                if l.startswith('phi'):
                    out += [('%s <= %s' % (l, an), v <= t), ('%s+1 >= %s' % (l, an), v + 1 >= t)]
                else:
                    out += [('%s <= %s' % (l, an), v <= t), ('%s >= %s' % (l, an), v >= t), ('%s < %s' % (l, an), v < t)]
            out += [('%s < n' % l, v < a.n), ('%s >= -1' % l, v >= -1), ('%s >= 0' % l, v >= 0), ('%s > 0' % l, v > 0)]
            if v0 is not None:
                out += [('%s >= entry' % l, v >= v0)]
            for l2, w, w0 in vs:
                if l2 > l and v0 is not None and w0 is not None:
                    out.append(('%s lockstep %s' % (l, l2), v - v0 == w - w0))
                    out.append(('%s antistep %s' % (l, l2), v - v0 == w0 - w))
            if a.groups:
                for l2, w, w0 in vs:
                    if l2 != l:
                        out += [('%s = groups before %s' % (l, l2), v == a.D(w)), ('%s = groups, one less' % l, v + 1 == a.D(w)),
                                ('%s = first column of the row before %s' % (l, l2), z3.If(w == 0, v == NONE, v == a.f1(w - 1)))]
            for l2, w, w0 in vs:
                if l2 != l and a.c in (1, 2):
                    lo, hi = (a.L(a.c1), a.U(a.c1)) if a.c == 1 else (a.P(a.c1, a.c2), a.Q(a.c1, a.c2))
                    out.append(('%s = matching rows before %s' % (l, l2), v == z3.If(w <= lo, BV(0), z3.If(w <= hi, w - lo, hi - lo))))
                    out.append(('%s = matching groups before %s' % (l, l2), v == z3.If(z3.And(w > lo, lo < hi), BV(1), BV(0))))
                    out.append(('%s = first column seen before %s' % (l, l2), v == z3.If(z3.And(w > lo, lo < hi), a.c1, NONE)))
        return out
    return sp


def u_init(E, c):
    st, a, t = base(E, c=c)
    c1, c2 = a.c1, a.c2
    sp = Region('arg', size=16, fields={0: Ptr(a.vec, 0), 8: NULL})
    old = fresh('old', B64)
    t.fields[K['array']] = NULL

    def assign(E, st, args, dem):
        E.mute += 1
        for o in (0, 8):
            E.store(st, args[0].add(o), E.load(st, args[1].add(o), PTR), PTR)
        E.mute -= 1
        return args[0]
    for k, f in E.m.funcs.items():
        d = E.m.dem.get(f.name, '')
        if d.startswith('std::shared_ptr<') and '::operator=(std::shared_ptr<' in d:
            E.models[f.name] = assign
    for k in ('constraint1', 'constraint2', 'nElements'):
        t.fields[K[k]] = fresh(k, z3.BitVecSort(32 if k in I32N else 64))
    E.loop_specs.append(spec(E, a, lambda s: [] if c == 0 else [('L', a.L(c1)), ('U', a.U(c1))] + ([('P', a.P(c1, c2)), ('Q', a.Q(c1, c2))] if c == 2 else [])))
    if c:
        E.loop_specs.append(lambda lv: [('%s reaches the group' % l, z3.Or(a.L(c1) == a.U(c1), z3.SignExt(32, v) >= a.L(c1))) for l, v, v0 in lv.ints if v.size() == 32])
    x = z3.BitVec('x', 64)
    w = 'init'
    for o in E.run('ArrayItr::init', [Ptr(t, 0), Ptr(sp, 0), c1, c2], st):
        s = o.st
        if not E.cover(s, 'init'):
            continue
        pos = fld(E, s, t, 'pos')
        s.assume(a.facts(x), a.facts(pos), a.facts(pos - 1))
        nx = fld(E, s, t, 'n') == 1
        E.oblige(s, z3.And(fld(E, s, t, 'hasNextChecked') == 1, nx == has(a, pos), pos >= 0, pos <= a.n), w + ': hasNext is true exactly when the next row matches')
        E.oblige(s, z3.Implies(has(a, x), nx), w + ': no matching row is missed')
        E.oblige(s, z3.Implies(z3.And(has(a, x), nx), z3.ULE(pos, x)), w + ': the iterator starts at the first matching row')
        E.oblige(s, z3.And(fld(E, s, t, 'v1') == NONE, fld(E, s, t, 'v2') == NONE, fld(E, s, t, 'countElems') == 0, fld(E, s, t, 'ignSecondColumn') == 0), w + ': no tuple read yet, both columns visible')
        E.oblige(s, z3.And(fld(E, s, t, 'nElements') == a.n, fld(E, s, t, 'constraint1') == c1, fld(E, s, t, 'constraint2') == c2), w + ': array and constraints are recorded')
        p = rd(E, s, Ptr(t, K['array']), PTR)
        E.oblige(s, z3.BoolVal(isinstance(p, Ptr) and p.r is a.vec), w + ': array and constraints are recorded')


def inv(E, s, a, t):
    """between calls, both columns visible"""
    pos = fld(E, s, t, 'pos')
    return z3.And(pos >= 0, pos <= a.n, z3.Implies(fld(E, s, t, 'hasNextChecked') == 1, (fld(E, s, t, 'n') == 1) == has(a, pos)))


def u_hasnext(E, c):
    st, a, t = base(E, ign=0, c=c)
    st.assume(inv(E, st, a, t))
    p0 = fld(E, st, t, 'pos')
    st0 = st.copy()
    for o in E.run('ArrayItr::hasNext', [Ptr(t, 0)], st):
        s = o.st
        if E.cover(s, 'hasNext'):
            E.oblige(s, o.val == has(a, p0), 'hasNext: true exactly when another matching row follows')
            E.oblige(s, z3.And(inv(E, s, a, t), fld(E, s, t, 'hasNextChecked') == 1), 'hasNext: invariant')
            same(E, s, st0, t, ['constraint1', 'constraint2', 'nElements', 'pos', 'v1', 'v2', 'markPos', 'ignSecondColumn'], 'hasNext')


def u_next(E, c, ign):
    st, a, t = base(E, ign=ign, c=c)
    p0 = fld(E, st, t, 'pos')
    st.assume(p0 >= 0, has(a, p0))
    st0 = st.copy()
    for o in E.run('ArrayItr::next()', [Ptr(t, 0)], st):
        s = o.st
        if E.cover(s, 'next'):
            E.oblige(s, z3.And(fld(E, s, t, 'v1') == a.f1(p0), fld(E, s, t, 'v2') == a.f2(p0)), 'next: the tuple is the row at the current position')
            E.oblige(s, z3.And(fld(E, s, t, 'pos') == p0 + 1, fld(E, s, t, 'hasNextChecked') == 0, fld(E, s, t, 'countElems') == 0), 'next: the position advances by one row, nothing cached')
            same(E, s, st0, t, ['constraint1', 'constraint2', 'nElements', 'markPos', 'ignSecondColumn'], 'next')


def ign_state(E, st, a, t, k):
    """states with the second column ignored: 0 before the first tuple, 1 after next/getCount, 2 after hasNext, 3 moveto backwards, 4 moveto forwards"""
    pos, v1, hc, n = (fld(E, st, t, f) for f in ('pos', 'v1', 'hasNextChecked', 'n'))
    chk = z3.Implies(hc == 1, (n == 1) == has(a, pos))
    r = z3.And(pos >= 0, pos <= a.n)
    if k == 0:
        return z3.And(r, v1 == NONE, chk)
    cur = z3.And(v1 >= 0, a.L(v1) < a.U(v1))
    if a.c:
        cur = z3.And(cur, z3.Or(a.c1 == NONE, v1 == a.c1))
    if k == 1:
        return z3.And(r, cur, pos > a.L(v1), pos <= a.U(v1), hc == 0)
    if k == 2:
        return z3.And(r, cur, pos == a.U(v1), hc == 1, chk)
    if k == 3:
        return z3.And(r, cur, pos == a.L(v1), hc == 1, n == 1)
    return z3.And(r, cur, pos >= a.U(v1), hc == 0)


def u_hasnext_ign(E, c, k):
    v1 = z3.BitVec('cur1', 64)
    st, a, t = base(E, ign=1, c=c, v1=NONE if k == 0 else v1)
    if k:
        a.interest(st, v1)
    st.assume(ign_state(E, st, a, t, k))
    p0 = fld(E, st, t, 'pos')
    E.loop_specs.append(spec(E, a, lambda s: [('U', a.U(v1)), ('p0', p0)] if k else [('p0', p0)]))
    st0 = st.copy()
    for o in E.run('ArrayItr::hasNext', [Ptr(t, 0)], st):
        s = o.st
        if E.cover(s, 'hasNext'):
            nx = p0 if k in (0, 2, 3, 4) else a.U(v1)
            s.assume(a.facts(nx), a.facts(p0))
            E.oblige(s, o.val == has(a, nx), 'hasNext (second column ignored): true exactly when another first value follows')
            E.oblige(s, fld(E, s, t, 'pos') == nx, 'hasNext (second column ignored): the position is the first row of the next first value')
            E.oblige(s, z3.And(fld(E, s, t, 'hasNextChecked') == 1, (fld(E, s, t, 'n') == 1) == has(a, nx)), 'hasNext (second column ignored): result cached')
            same(E, s, st0, t, ['constraint1', 'constraint2', 'nElements', 'v1', 'markPos', 'ignSecondColumn'], 'hasNext')


def u_count(E, c):
    v1 = z3.BitVec('cur1', 64)
    st, a, t = base(E, ign=1, c=c, v1=v1)
    a.interest(st, v1)
    pos, ce = fld(E, st, t, 'pos'), fld(E, st, t, 'countElems')
    size = a.U(v1) - a.L(v1)
    st.assume(ign_state(E, st, a, t, 1), z3.Or(z3.And(ce == 0, pos == a.L(v1) + 1), z3.And(ce == size, pos == a.U(v1))))
    st.assume(a.facts(a.L(v1)), a.facts(pos))
    E.loop_specs.append(spec(E, a, lambda s: [('U', a.U(v1)), ('L', a.L(v1))]))
    st0 = st.copy()
    for o in E.run('ArrayItr::getCount', [Ptr(t, 0)], st):
        s = o.st
        if o.kind != 'ret':
            E.oblige(s, z3.BoolVal(False), 'getCount does not throw when the second column is ignored')
        elif E.cover(s, 'getCount'):
            E.oblige(s, o.val == size, 'getCount: the number of rows with the current first value')
            E.oblige(s, z3.And(fld(E, s, t, 'pos') == a.U(v1), fld(E, s, t, 'countElems') == size, fld(E, s, t, 'hasNextChecked') == 0), 'getCount: asking again gives the same answer')
            same(E, s, st0, t, ['constraint1', 'constraint2', 'nElements', 'v1', 'markPos', 'ignSecondColumn'], 'getCount')


def u_moveto(E, c, back, group=None):
    st, a, t = base(E, ign=0, c=c)
    c1, c2 = z3.BitVecs('t1 t2', 64)
    st.assume(c1 >= 0, c2 >= 0)
    a.interest(st, c1, c2)
    st.assume(inv(E, st, a, t))
    p0, v1, v2 = (fld(E, st, t, f) for f in ('pos', 'v1', 'v2'))
    cur = p0 - 1
    st.assume(p0 > 0, v1 == a.f1(cur), v2 == a.f2(cur), match(a, cur), a.facts(cur), a.facts(p0))
    st.assume(z3.ULE(a.P(c1, c2), cur) if back else z3.UGT(a.P(c1, c2), cur))
    low = z3.If(z3.UGE(a.L(c1), p0), a.L(c1), p0)
    if group is not None:
        st.assume((c1 == v1) if group else (c1 != v1))
        low = p0 if group else a.L(c1)
    E.loop_specs.append(spec(E, a, lambda s: [('first row', low), ('P', a.P(c1, c2)), ('p0', p0), ('U', a.U(c1))]))
    E.loop_specs.append(lambda lv: [('%s reaches the group' % l, z3.Or(z3.UGE(low, a.U(c1)), z3.SignExt(32, v) >= low)) for l, v, v0 in lv.ints if v.size() == 32])
    st0 = st.copy()
    for o in E.run('ArrayItr::moveto', [Ptr(t, 0), c1, c2], st):
        s = o.st
        if not E.cover(s, 'moveto'):
            continue
        pos = fld(E, s, t, 'pos')
        s.assume(a.facts(pos), a.facts(pos - 1))
        E.oblige(s, pos == z3.If(z3.ULE(a.P(c1, c2), cur), cur, a.P(c1, c2)), 'moveto: the next row is the smallest one before neither the current tuple nor the target')
        E.oblige(s, inv(E, s, a, t), 'moveto: invariant')
        same(E, s, st0, t, ['constraint1', 'constraint2', 'nElements', 'markPos', 'ignSecondColumn'], 'moveto')


def u_moveto_ign(E, k, back):
    v1 = z3.BitVec('cur1', 64)
    st, a, t = base(E, ign=1, c=3, v1=v1)
    c1 = z3.BitVec('t1', 64)
    st.assume(c1 >= 0, (c1 <= v1) if back else (c1 > v1), a.c2 == NONE)
    a.interest(st, v1)
    a.interest(st, c1, BV(0))
    st.assume(ign_state(E, st, a, t, k))
    p0 = fld(E, st, t, 'pos')
    st.assume(a.facts(p0), a.facts(p0 - 1), a.facts(a.L(v1)), a.facts(a.U(v1) - 1), a.facts(a.U(v1)))
    st.assume(a.P(c1, BV(0)) == a.L(c1))
    E.loop_specs.append(spec(E, a, lambda s: [('first row', a.L(c1)), ('p0', p0), ('L', a.L(v1)), ('U', a.U(v1))]))
    E.loop_specs.append(lambda lv: [('%s reaches the group' % l, z3.Or(a.L(c1) == a.U(c1), z3.SignExt(32, v) >= a.L(c1))) for l, v, v0 in lv.ints if v.size() == 32])
    st0 = st.copy()
    for o in E.run('ArrayItr::moveto', [Ptr(t, 0), c1, BV(0)], st):
        s = o.st
        if not E.cover(s, 'moveto'):
            continue
        pos = fld(E, s, t, 'pos')
        s.assume(a.facts(pos), a.facts(pos - 1))
        E.oblige(s, pos == z3.If(c1 <= v1, a.L(v1), a.L(c1)), 'moveto (second column ignored): the next first value is the smallest one below neither the current one nor the target, at its first row')
        E.oblige(s, z3.Implies(c1 <= v1, ign_state(E, s, a, t, 3)), 'moveto (second column ignored): invariant')
        E.oblige(s, z3.Implies(c1 > v1, ign_state(E, s, a, t, 4)), 'moveto (second column ignored): invariant')
        same(E, s, st0, t, ['constraint1', 'constraint2', 'nElements', 'v1', 'markPos', 'ignSecondColumn'], 'moveto')


def u_mark(E):
    st, a, t = base(E, ign=0, c=0)
    st.assume(inv(E, st, a, t))
    st0 = st.copy()
    for o in E.run('ArrayItr::mark', [Ptr(t, 0)], st):
        s = o.st
        if E.cover(s, 'mark'):
            E.oblige(s, fld(E, s, t, 'markPos') == fld(E, st0, t, 'pos'), 'mark: the position is recorded')
            same(E, s, st0, t, [n for n in ALL if n != 'markPos'], 'mark')


def u_reset(E, c):
    st, a, t = base(E, ign=0, c=c)
    mp = fld(E, st, t, 'markPos')
    st.assume(inv(E, st, a, t), mp >= 0, mp <= a.n)
    st0 = st.copy()
    for o in E.run('ArrayItr::reset', [Ptr(t, 0), z3.BitVec('which', 8)], st):
        s = o.st
        if E.cover(s, 'reset'):
            E.oblige(s, fld(E, s, t, 'pos') == mp, 'reset: the next row is the marked one')
            E.oblige(s, inv(E, s, a, t), 'reset: invariant (hasNext is re-evaluated)')
            same(E, s, st0, t, ['constraint1', 'constraint2', 'nElements', 'markPos', 'ignSecondColumn'], 'reset')


def u_card(E, c, ign):
    st, a, t = base(E, ign=ign, c=c)
    if ign and not c:
        a.groups = True
        st.assume(a.D(BV(0)) == 0)
    c1, c2 = a.c1, a.c2
    E.loop_specs.append(spec(E, a, lambda s: [('L', a.L(c1)), ('U', a.U(c1))] if c else []))
    st0 = st.copy()
    want = {(0, 0): a.n, (0, 1): a.D(a.n), (1, 0): a.U(c1) - a.L(c1), (2, 0): a.Q(c1, c2) - a.P(c1, c2), (1, 1): z3.If(a.L(c1) < a.U(c1), BV(1), BV(0)), (2, 1): z3.If(a.P(c1, c2) < a.Q(c1, c2), BV(1), BV(0))}[c, ign]
    for o in E.run('ArrayItr::getCardinality', [Ptr(t, 0)], st):
        s = o.st
        if E.cover(s, 'getCardinality'):
            E.oblige(s, o.val == want, 'getCardinality: the number of matching rows (distinct first values when the second column is ignored)')
            same(E, s, st0, t, ALL, 'getCardinality')


def u_simple(E):
    st, a, t = base(E)
    st0 = st.copy()
    for o in E.run('ArrayItr::ignoreSecondColumn', [Ptr(t, 0)], st.copy()):
        E.cover(o.st, 'ignoreSecondColumn')
        E.oblige(o.st, fld(E, o.st, t, 'ignSecondColumn') == 1, 'ignoreSecondColumn: recorded')
        same(E, o.st, st0, t, [n for n in ALL if n != 'ignSecondColumn'], 'ignoreSecondColumn')
    for f, g in (('getValue1', 'v1'), ('getValue2', 'v2')):
        for o in E.run('ArrayItr::' + f, [Ptr(t, 0)], st.copy()):
            E.oblige(o.st, o.val == fld(E, st0, t, g), f + ': the column of the current tuple')
            same(E, o.st, st0, t, ALL, f)


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/I01.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = m.globals[g][1][1]
    N = ['no constraint', 'first column given', 'both columns given']
    u = []
    for c in (0, 1, 2):
        u.append(('init, ' + N[c], m, u_init, dict(c=c)))
        u.append(('hasNext, ' + N[c], m, u_hasnext, dict(c=c)))
        u.append(('moveto backwards, ' + N[c], m, u_moveto, dict(c=c, back=True)))
        u.append(('reset, ' + N[c], m, u_reset, dict(c=c)))
        for ign in (0, 1):
            u.append(('getCardinality%s, %s' % (' ignoring column 2' if ign else '', N[c]), m, u_card, dict(c=c, ign=ign)))
        for ign in (0, 1)[:2 if c < 2 else 1]:
            u.append(('next%s, %s' % (' ignoring column 2' if ign else '', N[c]), m, u_next, dict(c=c, ign=ign)))
    for c in (0, 1):
        for k in range(5):
            u.append(('hasNext ignoring column 2 (state %d), %s' % (k, N[c]), m, u_hasnext_ign, dict(c=c, k=k)))
        u.append(('getCount, ' + N[c], m, u_count, dict(c=c)))
    for k in (1, 2):
        for b in (True, False):
            u.insert(0, ('moveto %signoring column 2 (state %d)' % ('backwards ' if b else '', k), m, u_moveto_ign, dict(k=k, back=b)))
    for g in (True, False):
        u.insert(0, ('moveto %s group' % ('inside the' if g else 'another'), m, u_moveto, dict(c=3, back=False, group=g)))
    u += [('mark', m, u_mark, {}), ('accessors', m, u_simple, {})]
    return u


NATIVE = [{'src': 'I01.cpp', 'extra': ['$REPO/src/trident/iterators/arrayitr.cpp'], 'quick': 60000, 'thorough': 1500000}]
FUNCS = ['ArrayItr::init', 'ArrayItr::binarySearch', 'ArrayItr::hasNext', 'ArrayItr::next', 'ArrayItr::getCount', 'ArrayItr::getCardinality', 'ArrayItr::moveto', 'ArrayItr::mark', 'ArrayItr::reset', 'ArrayItr::ignoreSecondColumn', 'ArrayItr::getValue1', 'ArrayItr::getValue2']
TRUSTED = ['std::shared_ptr assignment copies the pointer']
ASSUMPTIONS = ['the array is sorted by (first, second), has fewer than 2^30 rows and values below 2^63', 'moveto is called after next() (hasNext/getCount may come in between, another moveto not), with non-negative targets and c2 = 0 when the second column is ignored',
               'with the second column ignored: getCount is called after next() and before hasNext(); mark/reset are not used']
