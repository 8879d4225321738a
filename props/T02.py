from common import *
from T01 import RN, konst

K = {}
B64 = z3.BitVecSort(64)
LIM = BV(1 << 40)
STATE = ('start', 'current', 'end', 'isSecondColumnIgnored', 'key', 'currentValue1', 'currentValue2', 'count', 'countgroup')
PTRS = ('start', 'current', 'end', 'm_current')


# ------------------------------------------------------------------ a sorted clustered table occupying bytes [0,E)
class Table:
    """Layout: groups back to back, each  v1 (b1 bytes) | n (bc bytes) | n second values (b2 bytes each).
    H(o): a group (or the end) is at offset o.  M[b](o): the b-byte number at offset o, as the readers return it."""

    def __init__(self, E, st, b1, b2, bc, c1=None, c2=None, end=None):
        self.E_, self.b1, self.b2, self.bc, self.hd = E, b1, b2, bc, b1 + bc
        self.E = z3.BitVec('tablesize', 64) if end is None else end
        self.r = Region('table', const=True)
        self.r.stride = [b2, 1] if b2 > 1 else 1
        self.H = z3.Function('H', B64, z3.BoolSort())
        self.M = {b: z3.Function('M%d' % b, B64, B64) for b in (1, 2, 4, 5)}
        self.P, self.Q = z3.Function('P', B64, B64, B64), z3.Function('Q', B64, B64, B64)
        self.S, self.N = z3.Function('S', B64, B64), z3.Function('N', B64, B64)
        self.c1, self.c2, self.sums = c1, c2, False
        self.G = z3.BitVec('first_group_not_below_c1', 64)
        self.headers = []
        self.r.base_hook = self.base
        st.assume(z3.ULT(self.E, LIM), self.H(BV(0)), self.H(self.E), z3.ULE(self.G, self.E), self.H(self.G))
        for b in {b1, b2, bc}:
            E.models[RN[b] + '::read'] = self.m_read
        if c1 is not None:
            self.hdr(st, linear(self.G))

    def base(self, E, v, stride):
        """loops over the second values of a group: count positions from the first of them"""
        if stride != self.b2 or self.over_groups(E, E.cur_loop):
            return None
        h = self.group_of(v.o)
        return None if h is None else h + self.hd

    def over_groups(self, E, loop):
        """does the loop read group headers?"""
        f, blocks = loop
        for b in blocks:
            for ins in f.blocks[b].insts:
                if ins.op in ('call', 'invoke') and ins.d.get('callee', ('',))[0] == 'glob':
                    d = E.m.dem.get(ins.d['callee'][1], '')
                    if d.endswith('::read(char const*)') and d.split('::')[0] in {RN[self.b1], RN[self.bc]} - {RN[self.b2]}:
                        return True
        return False

    def group_of(self, o):
        """the group whose second values the offset is counted from"""
        for h in self.headers:
            if not h.c and len(h.t) == 1 and not h.bv().eq(self.E) and any(k == 1 and y.eq(h.t[0][1]) for k, y in o.t) and self.index(o, h) is not None and not o.bv().eq(h.bv()):
                return h
        return None

    def know(self, st, f):
        f = z3.simplify(f)
        if z3.is_true(f):
            return
        i = f.get_id()
        if not any(c.get_id() == i for c in st.pc):
            st.assume(f)

    def v1(self, h):
        return self.M[self.b1](lin(h).bv())

    def cnt(self, h):
        return self.M[self.bc]((lin(h) + self.b1).bv())

    def elem(self, h, j):
        return lin(h) + self.hd + linear(j).scale(self.b2)

    def v2(self, h, j):
        return self.M[self.b2](self.elem(h, j).bv())

    def nxt(self, h):
        return self.elem(h, self.cnt(h))

    def isgroup(self, h):
        return z3.And(self.H(lin(h).bv()), z3.ULT(lin(h).bv(), self.E))

    def hdr(self, st, o):
        """what the layout and sortedness say if a group starts at o"""
        o = lin(o)
        h, v, n, nx = o.bv(), self.v1(o), self.cnt(o), self.nxt(o).bv()
        f = [z3.ULT(v, BV(1 << (8 * self.b1))), z3.ULT(n, BV(1 << (8 * self.bc))), z3.UGE(n, BV(1)), z3.ULE(nx, self.E), z3.ULT(h, nx), self.H(nx), z3.ULT(n, LIM)]
        if self.c1 is not None:
            f.append(z3.ULT(h, self.G) == (v < self.c1))
        if self.c2 is not None:
            f += [z3.ULE(self.P(h, self.c2), self.Q(h, self.c2)), z3.ULE(self.Q(h, self.c2), n), z3.ULE(self.Q(h, self.c2) - self.P(h, self.c2), BV(1))]
        if self.sums:
            f += [self.S(nx) == self.S(h) + n, self.N(nx) == self.N(h) + 1]
        self.know(st, z3.Implies(self.isgroup(o), z3.And(*f)))
        known = any(o2.bv().eq(h) for o2 in self.headers)
        for o2 in self.headers:
            g = o2.bv()
            if not g.eq(h):
                for a, b in ((o, o2), (o2, o)):
                    self.know(st, z3.Implies(z3.And(self.isgroup(a), self.H(b.bv()), z3.ULT(a.bv(), b.bv())), z3.And(z3.ULE(self.nxt(a).bv(), b.bv()), z3.Implies(z3.ULT(b.bv(), self.E), self.v1(a) < self.v1(b)))))
        if not known:
            self.headers.append(o)

    def index(self, off, h):
        d = off + lin(h).neg() + (-self.hd)
        if d.c % self.b2 or any(k % self.b2 for k, _ in d.t):
            return None
        return Off(d.c // self.b2, tuple((k // self.b2, x) for k, x in d.t)).bv()

    def elt(self, st, off, lemma=False):
        """what sortedness inside the group says about the second value at off"""
        v = self.M[self.b2](off.bv())
        for h in self.headers:
            if h.t and not any(k == 1 and y.eq(h.t[0][1]) for k, y in off.t):
                continue
            j = self.index(off, h)
            if j is None:
                continue
            f = [z3.ULT(v, BV(1 << (8 * self.b2))), z3.ULE(off.bv() + self.b2, self.E)]
            if self.c2 is not None:
                f += [z3.ULT(j, self.P(h.bv(), self.c2)) == (v < self.c2), z3.ULT(j, self.Q(h.bv(), self.c2)) == (v <= self.c2)]
            inb = z3.And(self.isgroup(h), z3.ULT(j, self.cnt(h)))
            if lemma and self.E_.entails(st, inb, 3000)[0] == z3.unsat:     # intermediate fact, proved here
                st.assume(inb, z3.ULT(off.bv(), self.E), *f)
            else:
                self.know(st, z3.Implies(inb, z3.And(*f)))

    def m_read(self, E, st, args, dem):
        p, name = args[0], dem.split('::')[0]
        if not isinstance(p, Ptr) or p.r is not self.r:
            raise Unsupported('read outside the table')
        b = {v: k for k, v in RN.items()}[name]
        o = p.o.bv()
        if name == RN[self.b1]:
            self.hdr(st, p.o)
        if name == RN[self.bc]:
            self.hdr(st, p.o + (-self.b1))
        if name == RN[self.b2]:
            self.elt(st, p.o, True)
        E.oblige(st, z3.And(z3.ULT(o, self.E), z3.ULE(o + BV(b), self.E)), 'safety: bytes are read only inside the table', 'safety')
        return self.M[b](o)

    def ptr(self, o):
        return Ptr(self.r, lin(o))


def lin(x):
    return x if isinstance(x, Off) else linear(x)


def cname(c):
    return 'NewClusterTable<%s>' % ', '.join(RN[b] for b in c)


def mangled(c):
    subs, s = [], ''
    for b in c:
        n = RN[b]
        if n in subs:
            s += 'S%d_' % subs.index(n)
        else:
            s += '%d%s' % (len(n), n)
            subs.append(n)
    return '_ZTV15NewClusterTableI%sE' % s


def mk(E, st, c, **kw):
    f = {0: Ptr(E.globptr(mangled(c)).r, 16)}
    for k, v in kw.items():
        f[K[k]] = v
    return Region('this', size=K['size'], fields=f)


def fn(E, c, sig):
    return E.m.find(cname(c) + '::' + sig)


def pos(E, st, t, f):
    return rd(E, st, Ptr(t, K[f]), PTR).o.bv()


def fld(E, st, t, f):
    return rd(E, st, Ptr(t, K[f]), I8 if f == 'isSecondColumnIgnored' else I64)


def same(E, s, st0, t, names, what):
    for n in names:
        g = pos if n in PTRS else fld
        E.oblige(s, g(E, s, t, n) == g(E, st0, t, n), '%s: %s is not modified' % (what, n), 'frame')


def fresh(E, s, t, a, b, what):
    E.oblige(s, z3.And(pos(E, s, t, 'start') == a, pos(E, s, t, 'current') == a, pos(E, s, t, 'end') == b), what + ': the iterator covers exactly the requested groups and stands before the first')
    E.oblige(s, z3.And(fld(E, s, t, 'isSecondColumnIgnored') == 0, fld(E, s, t, 'currentValue1') == -1, fld(E, s, t, 'currentValue2') == -1, fld(E, s, t, 'count') == 0), what + ': no tuple read yet, both columns visible')


def u_setup0(E, c):
    st = State()
    T = Table(E, st, *c)
    t = mk(E, st, c)
    for o in E.run(fn(E, c, 'setup(char const*, char const*)'), [Ptr(t, 0), T.ptr(0), T.ptr(T.E)], st):
        E.cover(o.st, 'setup')
        fresh(E, o.st, t, BV(0), T.E, 'setup(all)')


def spec_of(T, extra=None):
    """positions in loops: at a group not past the target, or inside a group bracketing the target's second value"""
    def spec(lv):
        out = []
        for l, p, p0 in lv.ptrs:
            if p.r is not T.r:
                continue
            o = p.o.bv()
            inside = None if T.over_groups(lv.E, lv.loop) else T.group_of(p.o)
            if inside is None:
                T.hdr(lv.st, p.o)
                out += [('%s is at a group' % l, T.H(o)), ('%s <= end' % l, z3.ULE(o, T.E))]
            if isinstance(p0, Ptr) and p0.r is p.r:
                out.append(('%s unchanged' % l, o == p0.o.bv()))
            if T.c1 is not None and inside is None:
                out.append(('%s not past the first group with v1 >= c1' % l, z3.ULE(o, T.G)))
            for q, v, v0 in lv.ints:
                if v.size() == 64:
                    out.append(('%s holds the first value at %s' % (q, l), v == T.M[T.b1](o)))
                    if T.c1 is not None:
                        out.append(('%s < c1 before %s' % (q, l), v < T.c1))
                    if T.sums:
                        out += [('%s = pairs up to %s' % (q, l), v == T.S(o)), ('%s = groups up to %s' % (q, l), v == T.N(o))]
            if T.c2 is not None and inside is not None:
                for h in [inside]:
                    j = T.index(p.o, h)
                    if j is None:
                        continue
                    hb = h.bv()
                    P, Q = T.P(hb, T.c2), T.Q(hb, T.c2)
                    out += [('%s index <= n of %s' % (l, h), z3.ULE(j, T.cnt(h))), ('%s index <= P of %s' % (l, h), z3.ULE(j, P)), ('%s index >= P of %s' % (l, h), z3.UGE(j, P)), ('%s index >= Q of %s' % (l, h), z3.UGE(j, Q))]
                    for l2, p2, _ in lv.ptrs:
                        if l2 != l and p2.r is T.r:
                            j2 = T.index(p2.o, h)
                            if j2 is not None:
                                out.append(('%s <= %s in %s' % (l, l2, h), z3.ULE(j, j2)))
        if extra:
            out += extra(lv)
        return out
    return spec


def u_setup1(E, c):
    st = State()
    c1, x = z3.BitVecs('c1 x', 64)
    T = Table(E, st, *c, c1=c1)
    t = mk(E, st, c)
    E.auto_linear = False
    E.loop_specs.append(spec_of(T))
    for o in E.run(fn(E, c, 'setup(long, char const*, char const*)'), [Ptr(t, 0), c1, T.ptr(0), T.ptr(T.E)], st):
        s = o.st
        if not E.cover(s, 'setup'):
            continue
        s.assume(T.isgroup(x))
        T.hdr(s, x)
        a, b = pos(E, s, t, 'current'), pos(E, s, t, 'end')
        E.oblige(s, z3.And(z3.ULE(a, b), z3.ULE(b, T.E), T.H(a), T.H(b)), 'setup(c1): whole groups inside the table')
        E.oblige(s, z3.And(z3.ULE(a, x), z3.ULT(x, b)) == (T.v1(x) == c1), 'setup(c1): exactly the group whose first value is c1 is covered')
        fresh(E, s, t, a, b, 'setup(c1)')


def u_setup2(E, c):
    st = State()
    c1, c2, x, jx = z3.BitVecs('c1 c2 x jx', 64)
    T = Table(E, st, *c, c1=c1, c2=c2)
    t = mk(E, st, c)
    E.auto_linear = False
    E.loop_specs.append(spec_of(T))
    for o in E.run(fn(E, c, 'setup(long, long, char const*, char const*)'), [Ptr(t, 0), c1, c2, T.ptr(0), T.ptr(T.E)], st):
        s = o.st
        if not E.cover(s, 'setup'):
            continue
        s.assume(T.isgroup(x), z3.ULT(jx, T.cnt(x)))
        T.hdr(s, x)
        T.elt(s, T.elem(x, jx))
        a, b, cur, n = pos(E, s, t, 'start'), pos(E, s, t, 'end'), pos(E, s, t, 'current'), fld(E, s, t, 'count')
        G = linear(T.G)
        p = T.P(T.G, c2)
        s2 = s.copy()
        s2.assume(T.v1(x) == c1, T.v2(x, jx) == c2)
        for f in (x == T.G, z3.ULT(jx, T.cnt(G)), p == jx, T.v1(G) == c1):       # intermediate facts, proved here
            if E.entails(s2, f, 5000)[0] == z3.unsat:
                s2.assume(f)
        for f in (cur == T.elem(x, jx).bv(), cur < b, a == cur, b == cur + T.b2, n == 1, fld(E, s, t, 'countgroup') == 1, fld(E, s, t, 'currentValue1') == c1):
            E.oblige(s2, f, 'setup(c1,c2): a stored pair is found, alone')
        T.elt(s, T.elem(G, p))
        E.oblige(s, z3.Implies(cur < b, z3.And(T.isgroup(G), T.v1(G) == c1, z3.ULT(p, T.cnt(G)), T.v2(G, p) == c2, cur == T.elem(G, p).bv())), 'setup(c1,c2): what is found is the pair asked for')
        E.oblige(s, z3.Implies(z3.Not(cur < b), a == b), 'setup(c1,c2): nothing is covered when the pair is not stored')
        E.oblige(s, z3.And(fld(E, s, t, 'isSecondColumnIgnored') == 0, fld(E, s, t, 'currentValue2') == -1), 'setup(c1,c2): no tuple read yet, both columns visible')


def u_next(E, c, kind, three):
    """kind: header (at the next group), elem (inside a group), ign (second column ignored)"""
    st = State()
    T = Table(E, st, *c)
    h, j, n, hi, key = z3.BitVecs('h j left hi key', 64)
    T.hdr(st, h)
    st.assume(T.isgroup(h), z3.ULE(hi, T.E))
    kw = dict(start=T.ptr(0), end=T.ptr(hi), key=key, isSecondColumnIgnored=BV(1 if kind == 'ign' else 0, 8))
    if kind == 'elem':
        st.assume(z3.ULT(j, T.cnt(h)), z3.UGE(n, 1), z3.ULE(n, T.cnt(h) - j))
        t = mk(E, st, c, current=T.ptr(T.elem(h, j)), count=n, **kw)
    else:
        t = mk(E, st, c, current=T.ptr(h), **kw)
        if kind == 'header':
            st.assume(fld(E, st, t, 'count') == 0)
    what = 'next%s, %s' % ('(v1,v2,v3)' if three else '()', dict(header='at a new group', elem='inside a group', ign='second column ignored')[kind])
    args, outs = [Ptr(t, 0)], []
    if three:
        outs = [Region('out%d' % i, size=8, fields={0: z3.BitVec('old%d' % i, 64)}) for i in range(3)]
        args += [Ptr(r, 0) for r in outs]
    st0 = st.copy()
    for o in E.run(fn(E, c, 'next(%s)' % ('long&, long&, long&' if three else '')), args, st):
        s = o.st
        if not E.cover(s, 'next'):
            continue
        cur, cnt, cg, a, b = pos(E, s, t, 'current'), fld(E, s, t, 'count'), fld(E, s, t, 'countgroup'), fld(E, s, t, 'currentValue1'), fld(E, s, t, 'currentValue2')
        if kind == 'elem':
            w1, w2, nc = fld(E, st0, t, 'currentValue1'), T.v2(h, j), T.elem(h, Off(1) .__add__(linear(j)).bv()).bv()
            E.oblige(s, z3.And(cnt == n - 1, cg == fld(E, st0, t, 'countgroup')), what + ': one pair less remains in the group')
        elif kind == 'header':
            w1, w2, nc = T.v1(h), T.v2(h, BV(0)), T.elem(h, BV(1)).bv()
            E.oblige(s, z3.And(cnt == T.cnt(h) - 1, cg == T.cnt(h)), what + ': the rest of the group remains')
        else:
            w1, w2, nc = T.v1(h), None, T.nxt(h).bv()
            E.oblige(s, cg == T.cnt(h), what + ': getCount is the number of pairs of the group')
        E.oblige(s, a == w1, what + ': the first value of the next pair is delivered')
        if w2 is not None:
            E.oblige(s, b == w2, what + ': the second value of the next pair is delivered')
        E.oblige(s, cur == nc, what + ': the iterator advances past what it delivered')
        if three:
            E.oblige(s, z3.And(rd(E, s, Ptr(outs[0], 0)) == key, rd(E, s, Ptr(outs[1], 0)) == w1), what + ': key and first value are returned')
            if w2 is not None:
                E.oblige(s, rd(E, s, Ptr(outs[2], 0)) == w2, what + ': the second value is returned')
            E.oblige(s, o.val == z3.ULT(nc, hi), what + ': tells whether more pairs follow')
        same(E, s, st0, t, ('start', 'end', 'isSecondColumnIgnored', 'key', 'm_current', 'm_count', 'm_countgroup', 'm_currentValue1', 'm_currentValue2'), what)


def u_small(E, c, ign):
    st = State()
    T = Table(E, st, *c)
    lo, cur, hi, mk_ = z3.BitVecs('lo cur hi mark', 64)
    st.assume(*[z3.ULE(x, T.E) for x in (lo, cur, hi, mk_)])
    t = mk(E, st, c, start=T.ptr(lo), current=T.ptr(cur), end=T.ptr(hi), m_current=T.ptr(mk_), isSecondColumnIgnored=BV(1 if ign else 0, 8), key=z3.BitVec('key', 64))
    M = [('current', 'm_current'), ('currentValue1', 'm_currentValue1'), ('currentValue2', 'm_currentValue2'), ('count', 'm_count'), ('countgroup', 'm_countgroup')]
    st0 = st.copy()
    for o in E.run(fn(E, c, 'hasNext()'), [Ptr(t, 0)], st.copy()):
        E.cover(o.st, 'hasNext')
        E.oblige(o.st, o.val == z3.ULT(cur, hi), 'hasNext: true exactly while pairs are left')
        same(E, o.st, st0, t, STATE, 'hasNext')
    for g, f in (('getValue1()', fld(E, st0, t, 'currentValue1')), ('getValue2()', fld(E, st0, t, 'currentValue2')), ('getCount()', fld(E, st0, t, 'countgroup') if ign else BV(1))):
        for o in E.run(fn(E, c, g), [Ptr(t, 0)], st.copy()):
            E.oblige(o.st, o.val == f, g + ' returns the current tuple')
            same(E, o.st, st0, t, STATE, g)
    for o in E.run(fn(E, c, 'mark()'), [Ptr(t, 0)], st.copy()):
        same(E, o.st, st0, t, STATE, 'mark')
        for a, b in M:
            g = pos if b == 'm_current' else fld
            E.oblige(o.st, g(E, o.st, t, b) == g(E, st0, t, a), 'mark: remembers ' + a)
    for o in E.run(fn(E, c, 'reset(char)'), [Ptr(t, 0), z3.BitVec('i', 8)], st.copy()):
        for a, b in M:
            g = pos if b == 'm_current' else fld
            E.oblige(o.st, g(E, o.st, t, a) == g(E, st0, t, b), 'reset: restores ' + a)
        same(E, o.st, st0, t, ('start', 'end', 'isSecondColumnIgnored', 'key'), 'reset')


def u_card(E, c, ign):
    st = State()
    T = Table(E, st, *c)
    T.sums = True
    st.assume(T.S(BV(0)) == 0, T.N(BV(0)) == 0)
    T.hdr(st, Off(0))
    cur = z3.BitVec('cur', 64)
    t = mk(E, st, c, start=T.ptr(0), current=T.ptr(cur), end=T.ptr(T.E), m_current=T.ptr(BV(0)), isSecondColumnIgnored=BV(1 if ign else 0, 8), key=z3.BitVec('key', 64))
    E.auto_linear = False
    E.loop_specs.append(spec_of(T))
    st0 = st.copy()
    for o in E.run(fn(E, c, 'getCardinality()'), [Ptr(t, 0)], st):
        s = o.st
        if not E.cover(s, 'getCardinality'):
            continue
        E.oblige(s, o.val == (T.N if ign else T.S)(T.E), 'getCardinality: number of ' + ('groups' if ign else 'pairs'))
        same(E, s, st0, t, STATE + ('m_current', 'm_count'), 'getCardinality does not disturb the iteration')


def u_card1(E, c):
    """after a lookup of one pair"""
    st = State()
    T = Table(E, st, *c)
    h, j = z3.BitVecs('h j', 64)
    found = z3.Bool('found')
    T.hdr(st, h)
    st.assume(T.isgroup(h), z3.ULT(j, T.cnt(h)))
    for f in (True, False):
        t = mk(E, st, c, start=T.ptr(T.elem(h, j)), current=T.ptr(z3.BitVec('cur', 64)), end=T.ptr(T.elem(h, j) + (T.b2 if f else 0)), isSecondColumnIgnored=BV(0, 8), key=z3.BitVec('key', 64))
        st0 = st.copy()
        for o in E.run(fn(E, c, 'getCardinality()'), [Ptr(t, 0)], st.copy()):
            if E.cover(o.st, 'getCardinality'):
                E.oblige(o.st, o.val == (1 if f else 0), 'getCardinality: after a lookup of one pair, 1 if it is stored and 0 otherwise')
                same(E, o.st, st0, t, STATE, 'getCardinality does not disturb the iteration')


def u_moveto(E, c, single=False, case=None, last=None):
    st = State()
    c1, c2, g, j, key = z3.BitVecs('c1 c2 g j key', 64)
    T = Table(E, st, *c, c1=c1, c2=c2)
    T.hdr(st, g)
    st.assume(T.isgroup(g))
    T.elt(st, T.elem(g, j) + (-T.b2))
    if single:
        st.assume(z3.UGE(j, 1), z3.ULE(j, T.cnt(g)))
        t = mk(E, st, c, start=T.ptr(T.elem(g, j) + (-T.b2)), end=T.ptr(T.elem(g, j)), current=T.ptr(T.elem(g, j)), key=key, isSecondColumnIgnored=BV(0, 8), count=BV(0), countgroup=BV(1))
    else:
        st.assume(z3.UGE(j, 1), z3.ULE(j, T.cnt(g)))
        t = mk(E, st, c, start=T.ptr(0), end=T.ptr(T.E), current=T.ptr(T.elem(g, j)), key=key, isSecondColumnIgnored=BV(0, 8), count=T.cnt(g) - j, countgroup=T.cnt(g))
    a, b = fld(E, st, t, 'currentValue1'), fld(E, st, t, 'currentValue2')
    prev = T.elem(g, j) + (-T.b2)
    st.assume(a == T.v1(g), b == T.M[T.b2](prev.bv()))
    stay = z3.Or(c1 < a, z3.And(c1 == a, c2 <= b))
    at_c1 = z3.And(T.isgroup(linear(T.G)), T.v1(linear(T.G)) == c1)
    st.assume(dict(stay=stay, inside=z3.And(c1 == a, c2 > b), group=z3.And(c1 > a, at_c1), nogroup=z3.And(c1 > a, z3.Not(at_c1))).get(case, z3.BoolVal(True)))
    if last is not None:
        st.assume((j == T.cnt(g)) == last)
    E.auto_linear = False
    E.loop_specs.append(spec_of(T))
    st0 = st.copy()
    what = 'moveto' + (' after a lookup of one pair' if single else '')
    for o in E.run(fn(E, c, 'moveto(long, long)'), [Ptr(t, 0), c1, c2], st):
        s = o.st
        if not E.cover(s, 'moveto'):
            continue
        G = linear(T.G)
        cur, n, v = pos(E, s, t, 'current'), fld(E, s, t, 'count'), fld(E, s, t, 'currentValue1')
        if single:
            E.oblige(s, z3.Implies(stay, z3.And(cur == prev.bv(), n == 1, v == a)), what + ': to a target not after the current pair, the current pair comes next')
            E.oblige(s, z3.Implies(z3.Not(stay), cur == T.elem(g, j).bv()), what + ': nothing follows a target after the pair')
        else:
            def at(h, p):    # the next pair is number p of group h
                hb, n1 = h.bv(), T.cnt(h)
                return z3.Or(z3.And(z3.ULT(p, n1), cur == T.elem(h, p).bv(), n == n1 - p, v == T.v1(h)), z3.And(p == n1, cur == T.nxt(h).bv(), n == 0), z3.And(p == 0, cur == hb, n == 0))
            gl = linear(g)
            if case == 'stay':
                E.oblige(s, at(gl, j - 1), what + ': to a target not after the current pair, the current pair comes next')
            if case == 'inside':
                E.oblige(s, at(gl, T.P(g, c2)), what + ': inside the group, the first pair not before the target comes next')
            if case == 'group':
                E.oblige(s, at(G, T.P(T.G, c2)), what + ': in the group of c1, the first pair not before the target comes next')
            if case == 'nogroup':
                E.oblige(s, z3.And(cur == T.G, n == 0), what + ': without a group for c1, the next larger group (or the end) comes next')
        same(E, s, st0, t, ('start', 'end', 'isSecondColumnIgnored', 'key'), what)


def u_moveto_ign(E, c):
    st = State()
    c1, c2, g, key = z3.BitVecs('c1 c2 g key', 64)
    T = Table(E, st, *c, c1=c1)
    T.hdr(st, g)
    st.assume(T.isgroup(g))
    t = mk(E, st, c, start=T.ptr(0), end=T.ptr(T.E), current=T.ptr(T.nxt(g)), key=key, isSecondColumnIgnored=BV(1, 8), countgroup=T.cnt(g))
    a = fld(E, st, t, 'currentValue1')
    st.assume(a == T.v1(g))
    E.auto_linear = False
    E.loop_specs.append(spec_of(T))
    st0 = st.copy()
    for o in E.run(fn(E, c, 'moveto(long, long)'), [Ptr(t, 0), c1, c2], st):
        s = o.st
        if not E.cover(s, 'moveto'):
            continue
        what = 'moveto with the second column ignored'
        E.oblige(s, pos(E, s, t, 'current') == z3.If(c1 <= a, g, T.G), what + ': the next group is the first one at or after both the current one and the target')
        same(E, s, st0, t, ('start', 'end', 'isSecondColumnIgnored', 'key'), what)


def u_ignore(E, c):
    for started in (False, True):
        st = State()
        g, j, key = z3.BitVecs('g j key', 64)
        T = Table(E, st, *c)
        T.hdr(st, g)
        kw = dict(start=T.ptr(0), end=T.ptr(T.E), key=key)
        if started:
            st.assume(T.isgroup(g), z3.UGE(j, 1), z3.ULE(j, T.cnt(g)))
            t = mk(E, st, c, current=T.ptr(T.elem(g, j)), count=T.cnt(g) - j, countgroup=T.cnt(g), **kw)
            st.assume(fld(E, st, t, 'currentValue1') == T.v1(g))
        else:
            st.assume(z3.ULE(g, T.E))
            t = mk(E, st, c, current=T.ptr(g), count=BV(0), currentValue1=BV(-1), **kw)
        st0 = st.copy()
        for o in E.run(fn(E, c, 'ignoreSecondColumn()'), [Ptr(t, 0)], st):
            s = o.st
            if not E.cover(s, 'ignore'):
                continue
            E.oblige(s, fld(E, s, t, 'isSecondColumnIgnored') == 1, 'ignoreSecondColumn: recorded')
            E.oblige(s, pos(E, s, t, 'current') == (T.nxt(g).bv() if started else g), 'ignoreSecondColumn: a group already begun is consumed, otherwise nothing is')
            same(E, s, st0, t, ('start', 'end', 'key', 'currentValue1', 'countgroup'), 'ignoreSecondColumn')


def units(wd, tier):
    mod = compile_ir(VERIF + '/harness/T02.cpp', wd)
    for g in mod.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(mod, g)
    combos = ([(2, 4, 1), (5, 2, 4)] if not os.environ.get('COMBO') else [eval(os.environ['COMBO'])]) if tier != 'thorough' else [(a, b, k) for a in (1, 2, 4, 5) for b in (2, 4, 5) for k in (1, 4) if b != k]
    u = []
    for c in combos:
        d = dict(c=c)
        n = cname(c)
        u += [(n + '::' + a, mod, f, dict(d, **x)) for a, f, x in (
            ('setup', u_setup0, {}), ('setup(c1)', u_setup1, {}), ('setup(c1,c2)', u_setup2, {}), ('ignoreSecondColumn', u_ignore, {}), ('accessors', u_small, dict(ign=False)), ('accessors, second column ignored', u_small, dict(ign=True)),
            ('getCardinality', u_card, dict(ign=False)), ('getCardinality, second column ignored', u_card, dict(ign=True)), ('getCardinality of one pair', u_card1, {}),
            *[('moveto, %s%s' % (k, '' if l is None else ', at the end of a group' if l else ', inside a group'), u_moveto, dict(case=k, last=l)) for k in ('stay', 'inside', 'group', 'nogroup') for l in ((None,) if k in ('stay', 'inside') else (False, True))], ('moveto of one pair', u_moveto, dict(single=True)), ('moveto, second column ignored', u_moveto_ign, {}))]
        u += [('%s::next%s %s' % (n, '3' if th else '', k), mod, u_next, dict(d, kind=k, three=th)) for k in ('header', 'elem', 'ign') for th in (False, True)]
    return u


NATIVE = [{'src': 'T02.cpp', 'extra': [], 'quick': 15000, 'thorough': 300000}]
BUDGET = 3600 if os.environ.get('VERIF_TIER') == 'thorough' else 600
FUNCS = ['NewClusterTable<R1,R2,RC>::' + f for f in ('setup(all)', 'setup(c1)', 'setup(c1,c2)', 'next()', 'next(v1,v2,v3)', 'hasNext', 'getValue1', 'getValue2', 'getCount', 'getCardinality', 'moveto', 'mark', 'reset', 'ignoreSecondColumn')]
TRUSTED = ['number readers (contract proved in T01)']
ASSUMPTIONS = ['the table is a sequence of non-empty groups with strictly increasing first values and strictly increasing second values inside each group, below 2^40 bytes', 'table bytes are addressed only through readers']
