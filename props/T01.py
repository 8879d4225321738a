from common import *

K = {}
RN = {1: 'ByteReader', 2: 'ShortReader', 4: 'IntReader', 5: 'LongIntReader', 8: 'LongReader'}
B64 = z3.BitVecSort(64)
LIM = BV(1 << 40)


# ------------------------------------------------------------------ readers
def u_reader(E, b):
    st = State()
    n = z3.BitVec('n', 64)
    buf = Region('buf', bytes_n=BV(b), const=True)
    A = E.arr_get(st, buf, buf.arrays[0])
    for o in E.run('vp_read%d' % b, [Ptr(buf, 0)], st):
        E.cover(o.st, 'read')
        want = z3.Concat(*[z3.Select(A, BV(i)) for i in range(b)]) if b > 1 else z3.Select(A, BV(0))
        E.oblige(o.st, o.val == zx(want), 'reader of %d bytes: the value is the unsigned big-endian number stored' % b)
    for o in E.run('vp_size%d' % b, [], State()):
        E.oblige(o.st, o.val == BV(b, 8), 'reader of %d bytes: size() is %d' % (b, b))


# ------------------------------------------------------------------ a sorted table of n rows
def rowof(E, p, bs, b1):
    """(row, column) of a pointer into the table, structurally"""
    if not isinstance(p, Ptr) or any(k % bs for k, _ in p.o.t):
        raise Unsupported('pointer not at a row boundary: %r' % (p,))
    r = p.o.c % bs
    if r not in (0, b1):
        raise Unsupported('pointer not at a column: %r' % (p,))
    return Off((p.o.c - r) // bs, tuple((k // bs, x) for k, x in p.o.t)).bv(), 1 if r == 0 else 2


class Table:
    def __init__(self, E, st, b1, b2):
        self.E, self.b1, self.b2, self.bs = E, b1, b2, b1 + b2
        self.n = z3.BitVec('nrows', 64)
        self.r = Region('table', const=True)
        self.r.stride = self.bs
        self.v1, self.v2 = z3.Function('V1', B64, B64), z3.Function('V2', B64, B64)
        self.L, self.U, self.D = z3.Function('L', B64, B64), z3.Function('U', B64, B64), z3.Function('D', B64, B64)
        self.P, self.Q = z3.Function('P', B64, B64, B64), z3.Function('Q', B64, B64, B64)
        self.firsts, self.pairs, self.groups = [], [], False
        st.assume(z3.ULT(self.n, LIM))
        for b in (b1, b2):
            E.models[RN[b] + '::read'] = self.m_read

    def ptr(self, row):
        return Ptr(self.r, linear(row).scale(self.bs))

    def row(self, p):
        return rowof(self.E, p, self.bs, self.b1)[0]

    def interest(self, st, c1=None, pair=None, upper=True):
        """ghost bounds of the values of interest: the table is sorted, so they exist"""
        n = self.n
        if c1 is not None:
            self.firsts.append(c1)
            st.assume(z3.ULE(self.L(c1), self.U(c1)), z3.ULE(self.U(c1), n))
        if pair is not None:
            c1, c2 = pair
            self.pairs.append(pair)
            self.upper = upper
            self.interest(st, c1)
            st.assume(z3.ULE(self.L(c1), self.P(c1, c2)), z3.ULE(self.P(c1, c2), self.Q(c1, c2)), z3.ULE(self.Q(c1, c2), self.U(c1)), z3.ULE(self.Q(c1, c2) - self.P(c1, c2), BV(1)))

    def facts(self, r):
        """what sortedness (and distinctness of the pairs) says about row r"""
        a, b = self.v1(r), self.v2(r)
        f = [z3.ULT(a, BV(1 << (8 * self.b1))), z3.ULT(b, BV(1 << (8 * self.b2)))]
        for c in self.firsts:
            f += [z3.ULT(r, self.L(c)) == (a < c), z3.ULT(r, self.U(c)) == (a <= c)]
        for c1, c2 in self.pairs:
            f.append(z3.ULT(r, self.P(c1, c2)) == z3.Or(a < c1, z3.And(a == c1, b < c2)))
            if self.upper:
                f.append(z3.ULT(r, self.Q(c1, c2)) == z3.Or(a < c1, z3.And(a == c1, b <= c2)))
        if self.groups:
            D = self.D
            f += [D(BV(0)) == 0, D(r + 1) == D(r) + z3.If(z3.Or(r == 0, self.v1(r - 1) != a), BV(1), BV(0)), z3.ULE(D(r), r), z3.Implies(r != 0, z3.And(z3.UGE(D(r), 1), z3.ULE(self.v1(r - 1), a)))]
        return z3.Implies(z3.ULT(r, self.n), z3.And(*f))

    def m_read(self, E, st, args, dem):
        r, col = rowof(E, args[0], self.bs, self.b1)
        if dem.split('::')[0] != RN[self.b1 if col == 1 else self.b2]:
            raise Unsupported('column %d read with %s' % (col, dem))
        E.oblige(st, z3.ULT(r, self.n), 'safety: rows are read only inside the table', 'safety')
        st.assume(self.facts(r))
        return (self.v1 if col == 1 else self.v2)(r)


def cname(b1, b2):
    return 'NewRowTable<%s, %s>' % (RN[b1], RN[b2])


def mk(E, st, T, started=True, **kw):
    vt = '_ZTV11NewRowTableI%d%s%d%sE' % (len(RN[T.b1]), RN[T.b1], len(RN[T.b2]), RN[T.b2])
    if T.b1 == T.b2:
        vt = '_ZTV11NewRowTableI%d%sS0_E' % (len(RN[T.b1]), RN[T.b1])
    f = {0: Ptr(E.globptr(vt).r, 16)}
    for k, v in kw.items():
        f[K[k]] = v
    return Region('this', size=K['size'], fields=f)


def m(E, T, sig):
    return E.m.find(cname(T.b1, T.b2) + '::' + sig)


def row(E, st, T, t, f):
    return T.row(rd(E, st, Ptr(t, K[f]), PTR))


def fld(E, st, t, f, ty=I64):
    return rd(E, st, Ptr(t, K[f]), ty)


def same(E, s, st0, T, t, names, what):
    for n in names:
        if n in ('start', 'current', 'end', 'currentMark'):
            E.oblige(s, row(E, s, T, t, n) == row(E, st0, T, t, n), '%s: %s is not modified' % (what, n), 'frame')
        else:
            ty = I8 if n == 'isSecondColumnIgnored' else I64
            E.oblige(s, fld(E, s, t, n, ty) == fld(E, st0, t, n, ty), '%s: %s is not modified' % (what, n), 'frame')


def fresh_post(E, s, T, t, a, b, what):
    E.oblige(s, z3.And(row(E, s, T, t, 'start') == a, row(E, s, T, t, 'current') == a, row(E, s, T, t, 'end') == b), what + ': the iterator covers exactly the requested rows and stands before the first')
    E.oblige(s, z3.And(fld(E, s, t, 'isSecondColumnIgnored', I8) == 0, fld(E, s, t, 'currentValue1') == -1, fld(E, s, t, 'currentValue2') == -1, fld(E, s, t, 'count') == 1), what + ': no tuple read yet, both columns visible')


def u_setup0(E, b1, b2):
    st = State()
    T = Table(E, st, b1, b2)
    t = mk(E, st, T)
    for o in E.run(m(E, T, 'setup(char const*, char const*)'), [Ptr(t, 0), T.ptr(BV(0)), T.ptr(T.n)], st):
        E.cover(o.st, 'setup')
        fresh_post(E, o.st, T, t, BV(0), T.n, 'setup(all)')


def bs_spec(E, T, c1, upper):
    """binary search: everything before the lower end is below c1, the row after the upper end is not"""
    def spec(lv):
        out = []
        idx = [(l, i) for l, i, i0, r in lv.pidx if r is T.r]
        for l, i in idx:
            lv.st.assume(T.facts(i))
            out += [('%s <= first row not below the key' % l, z3.ULE(i, upper)), ('%s <= n' % l, z3.ULE(i, T.n)), ('%s < n' % l, z3.ULT(i, T.n)), ('%s + 1 >= first row' % l, z3.UGE(i + 1, T.L(c1))), ('%s >= first row' % l, z3.UGE(i, T.L(c1)))]
            out += [('%s in group' % l, z3.And(z3.UGE(i, T.L(c1) + 1), z3.ULE(i, T.U(c1))))]
            out.append(('%s is 0 or before the first row' % l, z3.Or(i == 0, z3.ULT(i, T.L(c1)))))
            for q, v, v0 in lv.ints:
                if v.size() == 64:
                    out.append(('%s holds the first column of row %s' % (q, l), v == T.v1(i)))
                    out.append(('%s holds the second column of row %s' % (q, l), v == T.v2(i)))
            for l2, j in idx:
                if l2 != l:
                    out.append(('%s before %s' % (l, l2), z3.ULE(i, j)))
                    for q, v, v0 in lv.ints:
                        if v.size() == 64:
                            out.append(('%s = rows between %s and %s' % (q, l, l2), v == j - i))
        return out
    return spec


def u_setup1(E, b1, b2):
    E.auto_linear = 'lite'
    st = State()
    T = Table(E, st, b1, b2)
    t = mk(E, st, T)
    c1, x = z3.BitVecs('c1 x', 64)
    st.assume(T.n != 0)
    T.interest(st, c1)
    E.loop_specs.append(bs_spec(E, T, c1, T.L(c1)))
    E.anchors.append(lambda s: [('n', T.n)])
    for o in E.run(m(E, T, 'setup(long, char const*, char const*)'), [Ptr(t, 0), c1, T.ptr(BV(0)), T.ptr(T.n)], st):
        s = o.st
        if not E.cover(s, 'setup'):
            continue
        s.assume(T.facts(x))
        a, b = row(E, s, T, t, 'current'), row(E, s, T, t, 'end')
        E.oblige(s, z3.And(z3.ULE(a, b), z3.ULE(b, T.n)), 'setup(c1): the rows lie inside the table')
        E.oblige(s, z3.Implies(z3.ULT(x, T.n), z3.And(z3.ULE(a, x), z3.ULT(x, b)) == (T.v1(x) == c1)), 'setup(c1): exactly the rows whose first column is c1 are covered')
        fresh_post(E, s, T, t, a, b, 'setup(c1)')


def u_setup2(E, b1, b2):
    E.auto_linear = 'lite'
    st = State()
    T = Table(E, st, b1, b2)
    t = mk(E, st, T)
    c1, c2, x = z3.BitVecs('c1 c2 x', 64)
    st.assume(T.n != 0)
    T.interest(st, pair=(c1, c2))
    E.loop_specs.append(bs_spec(E, T, c1, T.P(c1, c2)))
    E.anchors.append(lambda s: [('n', T.n)])
    for o in E.run(m(E, T, 'setup(long, long, char const*, char const*)'), [Ptr(t, 0), c1, c2, T.ptr(BV(0)), T.ptr(T.n)], st):
        s = o.st
        if not E.cover(s, 'setup'):
            continue
        s.assume(T.facts(x))
        a, b = row(E, s, T, t, 'current'), row(E, s, T, t, 'end')
        E.oblige(s, z3.And(z3.ULE(a, b), z3.ULE(b, T.n)), 'setup(c1,c2): the rows lie inside the table')
        E.oblige(s, z3.Implies(z3.ULT(x, T.n), z3.And(z3.ULE(a, x), z3.ULT(x, b)) == z3.And(T.v1(x) == c1, T.v2(x) == c2)), 'setup(c1,c2): exactly the row holding the pair is covered')
        fresh_post(E, s, T, t, a, b, 'setup(c1,c2)')


def iter_state(E, st, T, ign, started=False):
    """an iterator over rows [lo,hi) standing before row cur"""
    lo, cur, hi, key, mark = z3.BitVecs('lo cur hi key mark', 64)
    st.assume(z3.ULE(lo, cur), z3.ULE(cur, hi), z3.ULE(hi, T.n))
    t = mk(E, st, T, start=T.ptr(lo), current=T.ptr(cur), end=T.ptr(hi), isSecondColumnIgnored=BV(1 if ign else 0, 8), key=key, currentMark=T.ptr(mark))
    return t, lo, cur, hi, key


def grp_spec(E, T, t, cur, v, hi):
    """skipping the rows of a group: rows [cur, i) hold the value v"""
    def spec(lv):
        s = lv.st
        out = []
        i = row(E, s, T, t, 'current')
        idx = [('current', i)] + [(l, j) for l, j, j0, r in lv.pidx if r is T.r]
        for l, j in idx:
            out += [('%s within group' % l, z3.And(z3.ULE(j, T.U(v)), z3.UGE(j, cur), z3.ULE(j, hi))), ('%s > cur' % l, z3.UGT(j, cur))]
            for q, w in [('count', fld(E, s, t, 'count'))] + [(q, w) for q, w, _ in lv.ints if w.size() == 64]:
                out.append(('%s counts the rows up to %s' % (q, l), w == j - cur))
                out.append(('%s is one more than the rows up to %s' % (q, l), w == j - cur + 1))
        for q, w in [('currentValue1', fld(E, s, t, 'currentValue1'))] + [(q, w) for q, w, _ in lv.ints if w.size() == 64]:
            out.append(('%s = group value' % q, w == v))
        return out
    return spec


def u_next(E, b1, b2, ign, three):
    E.auto_linear = 'lite'
    st = State()
    T = Table(E, st, b1, b2)
    t, lo, cur, hi, key = iter_state(E, st, T, ign)
    st.assume(z3.ULT(cur, hi))
    v, v2 = T.v1(cur), T.v2(cur)
    T.interest(st, v)
    st.assume(T.facts(cur))
    if ign:
        # the iterator covers whole groups
        st.assume(z3.Or(hi == T.n, z3.And(T.v1(hi) != v, z3.UGE(hi, T.U(v)))), z3.UGE(hi, T.U(v)))
        E.loop_specs.append(grp_spec(E, T, t, cur, v, hi))
    what = 'next%s%s' % ('(v1,v2,v3)' if three else '()', ' with the second column ignored' if ign else '')
    args = [Ptr(t, 0)]
    outs = []
    if three:
        outs = [Region('out%d' % i, size=8, fields={0: z3.BitVec('old%d' % i, 64)}) for i in range(3)]
        args += [Ptr(r, 0) for r in outs]
    st0 = st.copy()
    for o in E.run(m(E, T, 'next(%s)' % ('long&, long&, long&' if three else '')), args, st):
        s = o.st
        if not E.cover(s, 'next'):
            continue
        E.oblige(s, fld(E, s, t, 'currentValue1') == v, what + ': the first column of the next row is delivered')
        if ign:
            E.oblige(s, row(E, s, T, t, 'current') == T.U(v), what + ': every row of the group is consumed')
            E.oblige(s, fld(E, s, t, 'count') == T.U(v) - cur, what + ': getCount is the number of rows of the group')
        else:
            E.oblige(s, row(E, s, T, t, 'current') == cur + 1, what + ': the iterator advances by one row')
            E.oblige(s, fld(E, s, t, 'currentValue2') == v2, what + ': the second column of the next row is delivered')
        if three:
            nx = T.U(v) if ign else cur + 1
            E.oblige(s, z3.And(rd(E, s, Ptr(outs[0], 0)) == key, rd(E, s, Ptr(outs[1], 0)) == v), what + ': key and first column are returned')
            if not ign:
                E.oblige(s, rd(E, s, Ptr(outs[2], 0)) == v2, what + ': second column is returned')
            E.oblige(s, o.val == z3.ULT(nx, hi), what + ': tells whether more rows follow')
        same(E, s, st0, T, t, ('start', 'end', 'isSecondColumnIgnored', 'key', 'currentMark'), what)


def u_small(E, b1, b2, ign):
    st = State()
    T = Table(E, st, b1, b2)
    t, lo, cur, hi, key = iter_state(E, st, T, ign)
    c = fld(E, st, t, 'count')
    ALL = ('start', 'current', 'end', 'isSecondColumnIgnored', 'key', 'currentValue1', 'currentValue2', 'count')
    st0 = st.copy()
    for o in E.run(m(E, T, 'hasNext()'), [Ptr(t, 0)], st.copy()):
        E.cover(o.st, 'hasNext')
        E.oblige(o.st, o.val == z3.ULT(cur, hi), 'hasNext: true exactly while rows are left')
        same(E, o.st, st0, T, t, ALL, 'hasNext')
    for g, f in (('getValue1()', 'currentValue1'), ('getValue2()', 'currentValue2'), ('getCount()', 'count')):
        for o in E.run(m(E, T, g), [Ptr(t, 0)], st.copy()):
            E.oblige(o.st, o.val == fld(E, st0, t, f), g + ' returns the current tuple')
            same(E, o.st, st0, T, t, ALL, g)
    for o in E.run(m(E, T, 'mark()'), [Ptr(t, 0)], st.copy()):
        same(E, o.st, st0, T, t, ALL, 'mark')
        E.oblige(o.st, row(E, o.st, T, t, 'currentMark') == cur, 'mark: remembers the position')
    for o in E.run(m(E, T, 'reset(char)'), [Ptr(t, 0), z3.BitVec('i', 8)], st.copy()):
        E.oblige(o.st, row(E, o.st, T, t, 'current') == row(E, st0, T, t, 'currentMark'), 'reset: returns to the marked position')
        same(E, o.st, st0, T, t, ('start', 'end', 'isSecondColumnIgnored'), 'reset')
    r = z3.BitVec('rowid', 64)
    s = st.copy()
    s.assume(z3.ULT(r, T.n))
    for o in E.run(m(E, T, 's_getValue1AtRow(char const*, long)'), [T.ptr(BV(0)), r], s.copy()):
        E.oblige(o.st, o.val == T.v1(r), 's_getValue1AtRow: first column of the row')
    a, b = Region('o1', size=8), Region('o2', size=8)
    for o in E.run(m(E, T, 's_getValue12AtRow(unsigned long, unsigned char, char const*, unsigned long, unsigned long&, unsigned long&)'), [z3.BitVec('sz', 64), z3.BitVec('of', 8), T.ptr(BV(0)), r, Ptr(a, 0), Ptr(b, 0)], s.copy()):
        E.oblige(o.st, z3.And(rd(E, o.st, Ptr(a, 0)) == T.v1(r), rd(E, o.st, Ptr(b, 0)) == T.v2(r)), 's_getValue12AtRow: both columns of the row')


def u_card(E, b1, b2, ign):
    E.auto_linear = 'lite'
    st = State()
    T = Table(E, st, b1, b2)
    T.groups = True
    t, lo, cur, hi, key = iter_state(E, st, T, ign)
    lo0 = lo
    if ign:
        st.assume(lo == 0, hi == T.n)      # positions relative to the iterated range
        cv = fld(E, st, t, 'currentValue1')
        st.assume(T.facts(cur), T.facts(cur - 1))
        st.assume(z3.Or(z3.And(cv == -1, cur == 0), z3.And(z3.UGT(cur, 0), cv == T.v1(cur - 1), z3.Implies(z3.ULT(cur, hi), T.v1(cur) != cv))))

        def spec(lv):
            out = []
            for l, i, i0, r in lv.pidx:
                if r is not T.r:
                    continue
                out += [('%s in range' % l, z3.And(z3.UGE(i, cur), z3.ULE(i, hi)))]
                for q, w, _ in lv.ints:
                    if w.size() == 64:
                        lv.st.assume(T.facts(i), T.facts(i - 1))
                        out.append(('%s = distinct values up to %s' % (q, l), w == z3.If(cv == -1, BV(0), BV(1)) + T.D(i) - T.D(cur)))
                        out.append(('%s = value before %s' % (q, l), z3.If(i == 0, w == -1, w == T.v1(i - 1))))
            return out
        E.loop_specs.append(spec)
    st0 = st.copy()
    for o in E.run(m(E, T, 'getCardinality()'), [Ptr(t, 0)], st):
        s = o.st
        if not E.cover(s, 'getCardinality'):
            continue
        if ign:
            E.oblige(s, o.val == z3.If(cv == -1, BV(0), BV(1)) + T.D(hi) - T.D(cur), 'getCardinality: number of distinct first-column values from the current one on')
        else:
            E.oblige(s, o.val == hi - lo, 'getCardinality: number of rows')
        same(E, s, st0, T, t, ('start', 'current', 'end', 'isSecondColumnIgnored', 'key', 'currentValue1', 'currentValue2', 'count', 'currentMark'), 'getCardinality does not disturb the iteration')


def u_moveto(E, b1, b2, ign):
    E.auto_linear = 'lite'
    st = State()
    T = Table(E, st, b1, b2)
    t, lo, cur, hi, key = iter_state(E, st, T, ign)
    c1, c2 = z3.BitVecs('c1 c2', 64)
    T.interest(st, pair=(c1, c2), upper=False)
    cv, cv2, cnt = fld(E, st, t, 'currentValue1'), fld(E, st, t, 'currentValue2'), fld(E, st, t, 'count')
    st.assume(z3.UGT(cur, lo), lo == 0, hi == T.n, cv == T.v1(cur - 1))
    if ign:
        T.interest(st, cv)
        st.assume(cur == T.U(cv), cnt == cur - T.L(cv), c2 <= 0, T.facts(T.L(cv)))
    else:
        st.assume(cv2 == T.v2(cur - 1))
    st.assume(T.facts(cur - 1), T.facts(cur))
    goal = T.P(c1, c2)

    def spec(lv):
        i = row(E, lv.st, T, t, 'current')
        lv.st.assume(T.facts(i))
        out = [('current >= cur', z3.UGE(i, cur)), ('current <= end', z3.ULE(i, hi)), ('current does not pass the target', z3.ULE(i, T.L(c1))), ('current does not pass the target pair', z3.ULE(i, goal)), ('current is past the smaller first values', z3.UGE(i, T.L(c1))),
               ('current is in the group of c1', z3.ULE(i, T.U(c1)))]
        for q, w, _ in lv.ints:
            if w.size() == 64:
                out += [('%s = c1' % q, w == c1), ('%s is the last value read' % q, z3.Or(w == -1, w < c1))]
        return out
    E.loop_specs.append(spec)
    st0 = st.copy()
    what = 'moveto' + (' with the second column ignored' if ign else '')
    for o in E.run(m(E, T, 'moveto(long, long)'), [Ptr(t, 0), c1, c2], st):
        s = o.st
        if not E.cover(s, 'moveto'):
            continue
        k = T.L(cv) if ign else cur - 1
        E.oblige(s, row(E, s, T, t, 'current') == z3.If(z3.UGT(goal, k), goal, k), what + ': the next tuple is the smallest one at or after both the current tuple and the target')
        same(E, s, st0, T, t, ('start', 'end', 'isSecondColumnIgnored', 'key'), what)


def u_ignore(E, b1, b2):
    """ignoreSecondColumn before iterating, or after the first tuple of a group"""
    E.auto_linear = 'lite'
    st = State()
    T = Table(E, st, b1, b2)
    t, lo, cur, hi, key = iter_state(E, st, T, False)
    cv = fld(E, st, t, 'currentValue1')
    st.assume(lo == 0, hi == T.n, fld(E, st, t, 'count') == 1)
    T.interest(st, cv)
    st.assume(z3.Or(cv == -1, z3.And(z3.UGT(cur, 0), cv == T.v1(cur - 1), cur - 1 == T.L(cv))), T.facts(cur - 1))
    E.loop_specs.append(grp_spec(E, T, t, cur - 1, cv, hi))
    st0 = st.copy()
    for o in E.run(m(E, T, 'ignoreSecondColumn()'), [Ptr(t, 0)], st):
        s = o.st
        if not E.cover(s, 'ignore'):
            continue
        E.oblige(s, fld(E, s, t, 'isSecondColumnIgnored', I8) == 1, 'ignoreSecondColumn: recorded')
        E.oblige(s, z3.If(cv == -1, row(E, s, T, t, 'current') == cur, z3.And(row(E, s, T, t, 'current') == T.U(cv), fld(E, s, t, 'count') == T.U(cv) - T.L(cv))), 'ignoreSecondColumn: a group already begun is consumed and counted')
        same(E, s, st0, T, t, ('start', 'end', 'key', 'currentValue1'), 'ignoreSecondColumn')


def units(wd, tier):
    mod = compile_ir(VERIF + '/harness/T01.cpp', wd)
    for g in mod.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(mod, g)
    u = [('reader of %d bytes' % b, mod, u_reader, dict(b=b)) for b in (1, 2, 4, 5, 8)]
    combos = [(1, 1), (2, 4), (5, 5)] if tier != 'thorough' else [(a, b) for a in (1, 2, 4, 5) for b in (1, 2, 4, 5)]
    for a, b in combos:
        c = dict(b1=a, b2=b)
        n = cname(a, b)
        u += [(n + '::setup', mod, u_setup0, c), (n + '::setup(c1)', mod, u_setup1, c), (n + '::setup(c1,c2)', mod, u_setup2, c), (n + '::ignoreSecondColumn', mod, u_ignore, c)]
        for ign in (False, True):
            x = ', second column ignored' if ign else ''
            u += [(n + '::next' + x, mod, u_next, dict(c, ign=ign, three=False)), (n + '::next3' + x, mod, u_next, dict(c, ign=ign, three=True)), (n + '::accessors' + x, mod, u_small, dict(c, ign=ign)),
                  (n + '::getCardinality' + x, mod, u_card, dict(c, ign=ign)), (n + '::moveto' + x, mod, u_moveto, dict(c, ign=ign))]
    return u


def konst(m, n):
    return m.globals[n][1][1]


NATIVE = [{'src': 'T01.cpp', 'extra': [], 'quick': 15000, 'thorough': 300000}]
FUNCS = ['ByteReader::read', 'ShortReader::read', 'IntReader::read', 'LongIntReader::read', 'LongReader::read'] + ['NewRowTable<R1,R2>::' + f for f in ('setup(all)', 'setup(c1)', 'setup(c1,c2)', 'next()', 'next(v1,v2,v3)', 'hasNext', 'first', 'getValue1', 'getValue2', 'getCount', 'getCardinality', 'moveto', 'mark', 'reset', 'ignoreSecondColumn', 's_getValue1AtRow', 's_getValue12AtRow')]
TRUSTED = []
ASSUMPTIONS = ['tables are non-empty, sorted and free of repeated pairs, below 2^40 rows (existence of the lower/upper bound positions of a sorted table)', 'readers are used through their contract, proved in the reader units; table bytes are addressed only through readers']
