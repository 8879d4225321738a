from ops import *

K = {}
x, y = z3.BitVecs('x y', 64)
NUL = BV(2**64 - 1)
LIM = BV(1 << 40)


def vec(f, k, r, nbytes):
    f[k], f[k + 8], f[k + 16] = Ptr(r, 0), Ptr(r, nbytes), Ptr(r, nbytes)


def ptrvec(f, k, name, regs):
    vec(f, k, Region(name, size=8 * len(regs), fields={8 * i: Ptr(r, 0) for i, r in enumerate(regs)}), 8 * len(regs))


def byindex(r):
    """element i of a pointer array is determined by i"""
    r.uf = {a.lo: (lambda i: i) for a in r.arrays}
    return r


def m_veccopy(E, st, a, dem):
    """copy constructor of a vector: same contents (the copy is only read)"""
    for o in (0, 8, 16):
        E.store(st, a[0].add(o), rd(E, st, a[1].add(o), PTR), PTR)


def model(E, frag, fn, excl=()):
    for n in set(E.m.dem.values()):
        if all(p in n for p in frag) and not any(p in n for p in excl):
            E.models[n] = fn


def f(E, st, t, n, ty=I64):
    return rd(E, st, Ptr(t, K[n]), ty)


def regv(E, st, r):
    return rd(E, st, Ptr(r, 0))


# ------------------------------------------------------------------ VALUES
def values_obj(E, st, w):
    E.concrete_loops = True
    regs = [reg('col%d' % k) for k in range(w)]
    n = z3.BitVec('nvalues', 64)
    data = Region('values[]', arrays=[Arr(0, 8, n)])
    data.stride = 8
    vals = Region('values', size=24, fields={0: Ptr(data, 0), 8: Ptr(data, Off(0, ((8, n),))), 16: Ptr(data, Off(0, ((8, n),)))})
    st.assume(z3.ULT(n, BV(1 << 32)))
    V = E.arr_get(st, data, data.arrays[0])
    fl = {K['ValuesScan_values']: Ptr(vals, 0)}
    ptrvec(fl, K['ValuesScan_regs'], 'regs[]', regs)
    return regs, n, vals, V, fl


def rows(n, w):
    return z3.UDiv(n, BV(w)) if w else BV(0)


def values_inv(E, st, t, n, w, i):
    return z3.And(z3.ULE(i, rows(n, w)), zx(f(E, st, t, 'ValuesScan_processed', I32)) == i * w, zx(f(E, st, t, 'ValuesScan_toBeProcessed', I32)) == rows(n, w) * w)


def values_step(E, o, t, regs, n, V, w, i, what):
    s = o.st
    if not E.cover(s, what):
        return
    more = z3.ULT(i, rows(n, w))
    E.oblige(s, z3.Implies(more, z3.And(o.val == 1, values_inv(E, s, t, n, w, i + 1), *[regv(E, s, r) == z3.Select(V, i * w + k) for k, r in enumerate(regs)])), what + ': the next row of the list is produced once')
    E.oblige(s, z3.Implies(z3.Not(more), z3.And(o.val == 0, values_inv(E, s, t, n, w, i))), what + ': the end is reported only after the last row, and stays reported')


def u_values_next(E, w, first):
    st = State()
    regs, n, vals, V, fl = values_obj(E, st, w)
    t = Region('this', size=K['ValuesScan_size'], fields=fl)
    i = z3.BitVec('i', 64)
    st.assume(values_inv(E, st, t, n, w, i))
    for o in E.run('ValuesScan::' + ('first' if first else 'next'), [Ptr(t, 0)], st):
        values_step(E, o, t, regs, n, V, w, BV(0) if first else i, 'first' if first else 'next')


def u_values_ctor(E, w):
    st = State()
    regs, n, vals, V, fl = values_obj(E, st, w)
    model(E, ['std::vector<Register*', '::vector(std::vector<Register*', ' const&)'], m_veccopy)
    rv = {}
    ptrvec(rv, 0, 'list[]', regs)
    t = Region('this', size=K['ValuesScan_size'])
    for o in E.run('vp_values', [Ptr(t, 0), Ptr(Region('list', size=24, fields=rv), 0), Ptr(vals, 0)], st):
        if E.cover(o.st, 'ctor'):
            E.oblige(o.st, values_inv(E, o.st, t, n, w, BV(0)), 'constructor: all rows of the list are to be produced')
            E.oblige(o.st, z3.BoolVal(f(E, o.st, t, 'ValuesScan_values', PTR).r is vals), 'constructor: keeps the list')


# ------------------------------------------------------------------ Filter
class FilterObj:
    def __init__(self, E, st, exclude, domain):
        self.E = E
        self.fr = reg('filterReg')
        self.fr.fields[K['reg_domain']] = Ptr(Region('domain', size=4096), 0) if domain else NULL
        self.o = reg('other')
        self.I = Child(E, st, 'input', {'v': (self.fr, 0), 'o': (self.o, 0)})
        n = self.n = z3.BitVec('nvalid', 64)
        st.assume(z3.ULT(n, LIM))
        self.nodes = Region('set nodes', arrays=[Arr(32, 8, n, stride=40)])
        self.nodes.stride = 40
        self.S = E.arr_get(st, self.nodes, self.nodes.arrays[0])
        self.mem = z3.Function('listed', B64, z3.BoolSort())
        self.wit = z3.Function('position of', B64, B64)
        self.valid = None
        fl = {0: Ptr(E.globptr('_ZTV6Filter').r, 16), K['Filter_input']: self.I.p, K['Filter_filter']: Ptr(self.fr, 0), K['Filter_exclude']: exclude}
        self.t = Region('this', size=K['Filter_size'], fields=fl)
        self.ex = exclude
        E.models['std::set<unsigned long, std::less<unsigned long>, std::allocator<unsigned long> >::count'] = self.m_count
        E.models['std::set<unsigned long, std::less<unsigned long>, std::allocator<unsigned long> >::find'] = self.m_find
        E.models['std::set<unsigned long, std::less<unsigned long>, std::allocator<unsigned long> >::begin'] = lambda E, st, a, d: Ptr(self.nodes, 0)
        E.models['std::set<unsigned long, std::less<unsigned long>, std::allocator<unsigned long> >::end'] = lambda E, st, a, d: Ptr(self.nodes, Off(0, ((40, self.n),)))
        for nm in ('_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base', '_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'):
            E.models[nm] = lambda E, st, a, d: a[0].add(40)
            E.models['std::_Rb_tree_increment'] = E.models[nm]

    def facts(self, st, v):
        w = self.wit(v)
        st.assume(z3.Implies(self.mem(v), z3.And(z3.ULT(w, self.n), z3.Select(self.S, w) == v)))

    def has(self, E, st, a):
        if a[0].r is not self.t or not a[0].o.isconst() or a[0].o.c != K['Filter_valid']:
            raise Unsupported('lookup in an unknown set')
        v = rd(E, st, a[1])
        self.facts(st, v)
        return v

    def m_count(self, E, st, a, d):
        return z3.If(self.mem(self.has(E, st, a)), BV(1), BV(0))

    def m_find(self, E, st, a, d):
        v = self.has(E, st, a)
        return Ptr(self.nodes, Off(0, ((40, z3.If(self.mem(v), self.wit(v), self.n)),)))

    def qual(self, st, i):
        return self.mem(self.I.V(st, i, 'v')) != (self.ex != 0)


def filter_post(E, o, F, lo, what):
    s, I = o.st, F.I
    s.assume(I.facts(s))
    if not E.cover(s, what):
        return
    c, p = o.val, I.pos(s) - 1
    none = lambda hi: z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, hi)), z3.Not(F.qual(s, x)))
    E.oblige(s, z3.Implies(c == 0, none(I.n(s))), what + ': the end is reported only when no further input tuple qualifies')
    E.oblige(s, z3.Implies(c != 0, z3.And(I.live(s), z3.UGE(p, lo), z3.ULT(p, I.n(s)), F.qual(s, p), none(p))), what + ': the next qualifying tuple is produced')
    E.oblige(s, z3.Implies(c != 0, z3.And(c == I.C(s, p), regv(E, s, F.fr) == I.V(s, p, 'v'), regv(E, s, F.o) == I.V(s, p, 'o'))), what + ': with its multiplicity and registers')


def filter_loop(E, F, lo):
    def spec(lv):
        s, I = lv.st, F.I
        s.assume(I.facts(s))
        return [('input position', z3.And(I.wf(s), I.live(s), z3.UGE(I.pos(s), lo))), ('skipped tuples do not qualify', z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, I.pos(s))), z3.Not(F.qual(s, x))))]
    E.loop_specs.append(spec)


def u_filter(E, first, domain=False):
    st = State()
    F = FilterObj(E, st, z3.ZeroExt(7, z3.BitVec('exclude', 1)), domain)
    I, k = F.I, z3.BitVec('k', 64)
    if first:
        lo = BV(0)
        if domain:
            st.setg('added', z3.Bool('added0'))
            E.models['ObservedDomainDescription::ObservedDomainDescription'] = lambda E, st, a, d: st.setg('added', z3.BoolVal(False))
            E.models['ObservedDomainDescription::~ObservedDomainDescription'] = lambda E, st, a, d: None
            E.models['DomainDescription::~DomainDescription'] = lambda E, st, a, d: None
            E.models['ObservedDomainDescription::add'] = lambda E, st, a, d: st.setg('added', z3.Or(st.g('added'), a[1] == x))
            st.assume(z3.Implies(F.mem(x), z3.And(z3.ULT(F.wit(x), F.n), z3.Select(F.S, F.wit(x)) == x)))

            def restrict(E, st, a, d):
                E.oblige(st, z3.Implies(F.mem(x), st.g('added')), 'first: the domain of the register is restricted to a set that contains every listed value', 'pre')
                E.oblige(st, F.ex == 0, 'first: an excluding filter does not restrict the domain', 'pre')
            E.models['PotentialDomainDescription::restrictTo'] = restrict

            E.loop_specs.append(lambda lv: dom_spec(E, F, lv))
    else:
        p0 = I.pos(st)
        st.assume(I.wf(st), I.live(st))
        lo = p0
    filter_loop(E, F, lo)
    for o in E.run('Filter::' + ('first' if first else 'next'), [Ptr(F.t, 0)], st):
        filter_post(E, o, F, lo, 'first' if first else 'next')


def dom_spec(E, F, lv):
    s = lv.st
    return [('listed values before %s were added' % lab, z3.And(z3.ULE(j, F.n), z3.Implies(z3.And(F.mem(x), z3.ULT(F.wit(x), j)), s.g('added')))) for lab, j, j0, r in lv.pidx if r is F.nodes]


def u_filter_ctor(E):
    st = State()
    F = FilterObj(E, st, BV(0, 8), False)
    n = z3.BitVec('n', 64)
    data = Region('list[]', arrays=[Arr(0, 8, n)])
    data.stride = 8
    vals = Region('list', size=24, fields={0: Ptr(data, 0), 8: Ptr(data, Off(0, ((8, n),))), 16: Ptr(data, Off(0, ((8, n),)))})
    st.assume(z3.ULT(n, LIM))
    got = []

    def mk(E, st, a, d):
        E.oblige(st, z3.BoolVal(a[0].r is t and a[0].o.c == K['Filter_valid'] and a[1].r is data and a[2].r is data), 'constructor: the set is built from the list', 'pre')
        E.oblige(st, z3.And(a[1].o.bv() == 0, a[2].o.bv() == n * 8), 'constructor: the set is built from the whole list', 'pre')
        st.setg('built', st.g('built') + 1)
    st.setg('built', BV(0))
    model(E, ['std::set<unsigned long', '::set<'], mk)
    t = Region('this', size=K['Filter_size'])
    ex = z3.ZeroExt(7, z3.BitVec('exclude', 1))
    for o in E.run('vp_filter', [Ptr(t, 0), F.I.p, Ptr(F.fr, 0), Ptr(vals, 0), ex == 1], st):
        if E.cover(o.st, 'ctor'):
            E.oblige(o.st, z3.And(o.st.g('built') == 1, f(E, o.st, t, 'Filter_exclude', I8) == ex), 'constructor: one set from the list, the direction is kept')
            E.oblige(o.st, z3.BoolVal(f(E, o.st, t, 'Filter_input', PTR).r is F.I.r and f(E, o.st, t, 'Filter_filter', PTR).r is F.fr), 'constructor: keeps input and register')


# ------------------------------------------------------------------ Union
class UnionObj:
    """np parts (any number); every part fills two registers, `nm` of them are mapped to output registers, the remaining
    output registers are initialised"""

    def __init__(self, E, st, nm):
        self.E, self.nm = E, nm
        E.concrete_loops = True
        self.np, self.cur = z3.BitVecs('nparts current', 64)
        st.assume(z3.ULT(self.np, LIM))
        self.out = [reg('out%d' % k) for k in range(2)]
        n = self.np
        self.objs = Region('parts', arrays=[Arr(0, 8, n, kind=('ptr', lambda E, st, i: Ptr(E.globptr('_ZTV7ChildOp').r, 16)))])
        self.objs.stride = 8
        byindex(self.objs)
        pv = Region('parts[]', arrays=[Arr(0, 8, n, kind=('ptr', lambda E, st, i: Ptr(self.objs, Off(0, ((8, i),)))))])
        pv.stride = 8
        byindex(pv)
        self.src = Region('part registers', arrays=[Arr(0, 8, stride=32), Arr(16, 8, stride=32)])
        self.src.stride = 32
        mp = Region('map[]', arrays=[Arr(8 * j, 8, n, kind=('ptr', self.mapel(j)), stride=32) for j in range(4)])
        mp.stride = 32
        byindex(mp)
        ini = Region('init[]', size=16, fields={8 * k: Ptr(r, 0) for k, r in enumerate(self.out[nm:])})
        maps = Region('mappings[]', arrays=[Arr(o, 8, n, kind=('ptr', lambda E, st, i, o=o: Ptr(mp, Off(0 if o == 0 else 16 * nm, ((32, i),)))), stride=24) for o in (0, 8, 16)])
        maps.stride = 24
        byindex(maps)
        inis = Region('initializations[]', arrays=[Arr(o, 8, n, kind=('ptr', lambda E, st, i, o=o: Ptr(ini, 0 if o == 0 else 8 * (2 - nm))), stride=24) for o in (0, 8, 16)])
        inis.stride = 24
        byindex(inis)
        fl = {0: Ptr(E.globptr('_ZTV5Union').r, 16), K['Union_current']: self.cur}
        for k, r, s in (('Union_parts', pv, 8), ('Union_mappings', maps, 24), ('Union_initializations', inis, 24)):
            vec(fl, K[k], r, Off(0, ((s, n),)))
        self.t = Region('this', size=K['Union_size'], fields=fl)
        self.fn = z3.Function('n', B64, B64)
        self.fc = z3.Function('count', B64, B64, B64)
        self.fv = [z3.Function('v%d' % k, B64, B64, B64) for k in range(2)]
        st.setg('part', z3.BitVec('part0', 64))
        st.setg('pos', z3.BitVec('pos0', 64))
        st.setg('live', z3.Bool('live0'))
        E.models['vp_op_first'] = lambda E, st, a, d: self.step(E, st, self.idx(a[0]), True)
        E.models['vp_op_next'] = lambda E, st, a, d: self.step(E, st, self.idx(a[0]), False)

    def mapel(self, j):
        if j % 2 == 0:
            return lambda E, st, i: Ptr(self.src, Off(8 * j, ((32, i),)))
        return lambda E, st, i: Ptr(self.out[j // 2], 0)

    def idx(self, p):
        if p.r is not self.objs or p.o.c % 8 or any(k % 8 for k, _ in p.o.t):
            raise Unsupported('call on %r' % (p,))
        return Off(p.o.c // 8, tuple((k // 8, t) for k, t in p.o.t)).bv()

    def step(self, E, st, i, first):
        if first:
            pos = BV(0)
        else:
            E.oblige(st, z3.And(st.g('part') == i, st.g('live')), 'protocol: next() only on the part being read, after a call that produced a tuple', 'pre')
            pos = st.g('pos')
        n = self.fn(i)
        ok = z3.ULT(pos, n)
        st.assume(z3.ULT(n, LIM), z3.Implies(ok, self.fc(i, pos) != 0))
        for k, a in enumerate(self.src.arrays):
            A = E.arr_get(st, self.src, a)
            E.arr_set(st, self.src, a, z3.Store(A, i, z3.If(ok, self.fv[k](i, pos), fresh('garbage', B64))))
        st.setg('part', i)
        st.setg('pos', z3.If(ok, pos + 1, pos))
        st.setg('live', ok)
        return z3.If(ok, self.fc(i, pos), BV(0))

    def facts(self, st):
        i, p = st.g('part'), st.g('pos')
        return z3.And(z3.ULT(self.fn(i), LIM), z3.Implies(z3.And(z3.UGE(p, 1), z3.ULE(p, self.fn(i))), self.fc(i, p - 1) != 0))

    def at(self, E, st, i, j):
        """the object stands on tuple j of part i and the output registers show it"""
        return z3.And(z3.ULT(i, self.np), f(E, st, self.t, 'Union_current') == i, st.g('part') == i, st.g('pos') == j + 1, st.g('live'), z3.ULT(j, self.fn(i)),
                      z3.ULT(self.fn(i), LIM), *[regv(E, st, r) == (self.fv[k](i, j) if k < self.nm else NUL) for k, r in enumerate(self.out)])


def union_post(E, o, U, lo, i0, j0, what):
    s = o.st
    s.assume(U.facts(s))
    if not E.cover(s, what):
        return
    c = o.val
    i, j = s.g('part'), s.g('pos') - 1
    none = lambda hi: z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, hi)), U.fn(x) == 0)
    end = none(U.np)
    nxt = z3.And(j == 0, z3.UGE(i, lo), none(i))
    done = z3.UGE(f(E, s, U.t, 'Union_current'), U.np)
    if i0 is not None:
        end = z3.And(end, j0 + 1 == U.fn(i0))
        nxt = z3.Or(z3.And(i == i0, j == j0 + 1), z3.And(nxt, j0 + 1 == U.fn(i0)))
    E.oblige(s, z3.Implies(c == 0, z3.And(end, done)), what + ': the end is reported only when every part is exhausted')
    E.oblige(s, z3.Implies(c != 0, z3.And(nxt, c == U.fc(i, j))), what + ': the next tuple of the parts, in order, is produced with its multiplicity')
    E.oblige(s, z3.Implies(c != 0, U.at(E, s, i, j)), what + ': mapped registers hold its values, all others are unbound')


def u_union(E, which, nm):
    st = State()
    U = UnionObj(E, st, nm)
    E.auto_linear = 'lite'
    i0 = j0 = None
    lo = BV(0)
    if which == 'next':
        i0, j0 = z3.BitVecs('i0 j0', 64)
        st.assume(U.at(E, st, i0, j0), U.facts(st))
        lo = i0 + 1
    elif which == 'done':
        st.assume(z3.UGE(U.cur, U.np))

    def spec(lv):
        s = lv.st
        c = f(E, s, U.t, 'Union_current')
        return [('part in range', z3.And(z3.UGE(c, lo), z3.ULT(c, U.np))), ('parts passed are empty', z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, c)), U.fn(x) == 0))]
    E.loop_specs.append(spec)
    for o in E.run('Union::' + ('first' if which == 'first' else 'next'), [Ptr(U.t, 0)], st):
        if which == 'done':
            if E.cover(o.st, which):
                E.oblige(o.st, o.val == 0, 'next after the end reports the end and touches no part')
        else:
            union_post(E, o, U, lo, i0, j0, which)


# ------------------------------------------------------------------ Minus
class MinusObj:
    def __init__(self, E, st, w):
        self.E, self.w = E, w
        E.concrete_loops = True
        self.mr = [reg('main%d' % k) for k in range(max(w, 1))]
        self.nr = [reg('minus%d' % k) for k in range(max(w, 1))]
        self.M = Child(E, st, 'main', {'v%d' % k: (r, 0) for k, r in enumerate(self.mr)})
        self.N = Child(E, st, 'minus', {'v%d' % k: (r, 0) for k, r in enumerate(self.nr)})
        pairs = Region('regsToCheck[]', size=16 * w, fields=dict([(16 * k, Ptr(self.mr[k], 0)) for k in range(w)] + [(16 * k + 8, Ptr(self.nr[k], 0)) for k in range(w)]))
        self.row = Region('row[]', size=8 * w, fields={8 * k: z3.BitVec('row%d' % k, 64) for k in range(w)})
        self.vhm = Region('valuesHashMap[]', arrays=[Arr(0, 8)])
        self.vhm.stride = [8 * w, 8] if w else 8
        self.nrows = z3.BitVec('nstored', 64)
        st.assume(z3.ULT(self.nrows, LIM))
        fl = {K['Minus_mainTree']: self.M.p, K['Minus_minusTree']: self.N.p, K['Minus_loaded']: z3.ZeroExt(7, z3.BitVec('loaded', 1))}
        vec(fl, K['Minus_regsToCheck'], pairs, 16 * w)
        vec(fl, K['Minus_row'], self.row, 8 * w)
        vec(fl, K['Minus_valuesHashMap'], self.vhm, Off(0, ((8 * w, self.nrows),)) if w else 0)
        self.t = Region('this', size=K['Minus_size'], fields=fl)
        # the set of stored rows, as a function of the row; sk: an arbitrary row with a witness for its membership
        S = z3.BoolSort()
        for k in range(w):
            S = z3.ArraySort(B64, S)
        st.setg('set', z3.Const('set0', S))
        st.setg('wit', z3.BitVec('wit0', 64))
        self.sk = [z3.BitVec('row_%d' % k, 64) for k in range(w)]
        E.models['vector<unsigned long, std::allocator<unsigned long> >::push_back'] = self.m_push
        model(E, ['vector<unsigned long', '::push_back'], self.m_push)
        model(E, ['std::unordered_set<unsigned long, Minus::', '>::count'], self.m_count)
        model(E, ['std::unordered_set<unsigned long, Minus::', '>::insert'], self.m_insert)

    def sel(self, st, row):
        s = st.g('set')
        for v in row:
            s = z3.Select(s, v)
        return s

    def upd(self, s, row):
        return z3.BoolVal(True) if not row else z3.Store(s, row[0], self.upd(z3.Select(s, row[0]), row[1:]))

    def currow(self, st):
        return [rd(self.E, st, Ptr(self.row, 8 * k)) for k in range(self.w)]

    def nst(self, st):
        o = rd(self.E, st, Ptr(self.t, K['Minus_valuesHashMap'] + 8), PTR).o
        W = 8 * self.w
        if not W:
            return BV(0)
        if o.c % W or any(k % W for k, _ in o.t):
            return None
        return Off(o.c // W, tuple((k // W, t) for k, t in o.t)).bv()

    def m_push(self, E, st, a, dem):
        if a[0].r is not self.t or not a[0].o.isconst() or a[0].o.c != K['Minus_valuesHashMap']:
            raise Unsupported('push_back on an unknown vector')
        endc = Ptr(self.t, K['Minus_valuesHashMap'] + 8)
        end = rd(E, st, endc, PTR)
        v = rd(E, st, a[1])
        A = E.arr_get(st, self.vhm, self.vhm.arrays[0])
        E.arr_set(st, self.vhm, self.vhm.arrays[0], z3.Store(A, Off(end.o.c // 8, tuple((k // 8, t) for k, t in end.o.t)).bv(), v))
        E.mute += 1
        E.store(st, endc, end.add(8), PTR)
        E.mute -= 1

    def m_count(self, E, st, a, dem):
        E.oblige(st, rd(E, st, a[1]) == NUL, 'the set is asked for the row being looked up', 'pre')
        return z3.If(self.sel(st, self.currow(st)), BV(1), BV(0))

    def m_insert(self, E, st, a, dem):
        idx, row = rd(E, st, a[1]), self.currow(st)
        n = self.nst(st)
        if n is None:
            raise Unsupported('insert in the middle of a row')
        A = E.arr_get(st, self.vhm, self.vhm.arrays[0])
        E.oblige(st, z3.And(z3.ULT(idx, n), *[z3.Select(A, idx * self.w + k) == row[k] for k in range(self.w)]), 'the position added to the set is that of a stored copy of the row', 'pre')
        hit = z3.And(*[r == s for r, s in zip(row, self.sk)])
        st.setg('wit', z3.If(z3.And(hit, z3.Not(self.sel(st, self.sk))), self.N.pos(st) - 1, st.g('wit')))
        st.setg('set', self.upd(st.g('set'), row))
        return Agg([Ptr(Region('setnode'), 0), BV(1, 8)])

    def vals(self, c, st, i):
        return [c.V(st, i, 'v%d' % k) for k in range(self.w)]

    def set_is(self, st, upto):
        """the set holds exactly the rows of the first `upto` tuples of the minus input (instances for arbitrary tuple y and arbitrary row sk)"""
        if not self.w:   # no variables in common: no row removes anything
            return z3.Not(st.g('set'))
        w, N = st.g('wit'), self.N
        return z3.And(z3.Implies(z3.ULT(y, upto), self.sel(st, self.vals(N, st, y))),
                      z3.Implies(self.sel(st, self.sk), z3.And(z3.ULT(w, upto), *[a == b for a, b in zip(self.vals(N, st, w), self.sk)])))

    def inset(self, st, i):
        return self.sel(st, self.vals(self.M, st, i)) if self.w else z3.BoolVal(False)


def minus_loops(E, O, lo):
    def spec(lv):
        s, M, N = lv.st, O.M, O.N
        s.assume(M.facts(s), N.facts(s))
        return [('loading: positions', z3.And(N.wf(s), N.live(s))), ('loading: registers hold the current tuple', z3.And(*[regv(E, s, r) == v for r, v in zip(O.nr, O.vals(N, s, N.pos(s) - 1))])), ('loading: the set holds the rows before the current one', O.set_is(s, N.pos(s) - 1)),
                ('loading: main input waits', z3.And(M.wf(s), M.live(s), M.pos(s) == lo + 1)), ('loading: not done', f(E, s, O.t, 'Minus_loaded', I8) == 0),
                ('loading: main registers (all)', z3.And(*[regv(E, s, r) == M.V(s, M.pos(s) - 1, 'v%d' % k) for k, r in enumerate(O.mr)])), ('loading: rows stored so far', z3.BoolVal(True) if O.nst(s) is None else z3.ULE(O.nst(s), N.pos(s) - 1)),
                ('loading: main registers', z3.And(*[regv(E, s, r) == v for r, v in zip(O.mr, O.vals(M, s, M.pos(s) - 1))]))]

    def spec2(lv):
        s, M, N = lv.st, O.M, O.N
        return [('reading: %s is the multiplicity of the current tuple' % lab, v == M.C(s, M.pos(s) - 1)) for lab, v, v0 in lv.ints if v.size() == 64] + [('reading: main position', z3.And(M.wf(s), M.live(s), z3.UGE(M.pos(s), lo + 1))), ('reading: main registers hold the current tuple', z3.And(*[regv(E, s, r) == M.V(s, M.pos(s) - 1, 'v%d' % k) for k, r in enumerate(O.mr)])),
                ('reading: tuples passed are in the set', z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, M.pos(s) - 1)), O.inset(s, x))),
                ('reading: set complete', O.set_is(s, N.n(s))), ('reading: loaded', f(E, s, O.t, 'Minus_loaded', I8) == 1)]
    E.loop_specs += [spec, spec2]


def u_minus(E, which, w):
    st = State()
    O = MinusObj(E, st, w)
    M, N = O.M, O.N
    E.auto_linear = 'lite'
    st.assume(M.okc(st, BV(0)), N.okc(st, BV(0)))
    if which == 'next':
        st.assume(M.wf(st), M.live(st), f(E, st, O.t, 'Minus_loaded', I8) == 1, O.set_is(st, N.n(st)), M.facts(st))
        lo = M.pos(st)
    elif which == 'first again':
        st.assume(f(E, st, O.t, 'Minus_loaded', I8) == 1, O.set_is(st, N.n(st)))
        lo = BV(0)
    else:   # first evaluation: nothing stored yet
        st.assume(f(E, st, O.t, 'Minus_loaded', I8) == 0, O.set_is(st, BV(0)), O.nrows == 0)
        lo = BV(0)
    minus_loops(E, O, lo)
    for o in E.run('Minus::' + ('next' if which == 'next' else 'first'), [Ptr(O.t, 0)], st):
        s = o.st
        s.assume(M.facts(s), N.facts(s))
        if not E.cover(s, which):
            continue
        c, p = o.val, M.pos(s) - 1
        none = lambda hi: z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, hi)), O.inset(s, x))
        E.oblige(s, z3.Implies(c == 0, none(M.n(s))), which + ': the end is reported only when every remaining tuple is removed')
        E.oblige(s, z3.Implies(c != 0, z3.And(M.live(s), z3.UGE(p, lo), z3.ULT(p, M.n(s)), z3.Not(O.inset(s, p)), none(p))), which + ': the next tuple that is not removed is produced')
        E.oblige(s, z3.Implies(c != 0, z3.And(c == M.C(s, p), *[regv(E, s, r) == M.V(s, p, 'v%d' % k) for k, r in enumerate(O.mr)])), which + ': with its multiplicity and registers')
        E.oblige(s, z3.Implies(c != 0, z3.And(f(E, s, O.t, 'Minus_loaded', I8) == 1, O.set_is(s, N.n(s)))), which + ': the set of removed rows is exactly the rows of the minus input')


def u_minus_funcs(E, w):
    """hash and equality agree with the rows they stand for"""
    st = State()
    E.concrete_loops = 'fork'
    n = z3.BitVec('nstored', 64)
    st.assume(z3.ULT(n, LIM))
    row = Region('row[]', arrays=[Arr(0, 8, BV(w))])
    store = Region('stored[]', arrays=[Arr(0, 8, n * w)])
    R, S = E.arr_get(st, row, row.arrays[0]), E.arr_get(st, store, store.arrays[0])
    v1 = Region('v1', size=24, fields={0: Ptr(row, 0), 8: Ptr(row, 8 * w), 16: Ptr(row, 8 * w)})
    v2 = Region('v2', size=24, fields={0: Ptr(store, 0), 8: Ptr(store, Off(0, ((8 * w, n),))), 16: Ptr(store, Off(0, ((8 * w, n),)))})
    fn = Region('functor', size=24, fields={0: Ptr(v1, 0), 8: Ptr(v2, 0), 16: BV(w)})
    i, j = z3.BitVecs('i j', 64)
    same = z3.And(*[z3.Select(R, BV(k)) == z3.Select(S, i * w + k) for k in range(w)])
    a, b = Region('a', size=8, fields={0: BV(2**64 - 1)}), Region('b', size=8, fields={0: i})
    s0 = st.copy()
    s0.assume(z3.ULT(i, n))
    for args, wh in (([a, b], 'row against stored'), ([b, a], 'stored against row')):
        for o in E.run('Minus::EqualVectors::operator()', [Ptr(fn, 0), Ptr(args[0], 0), Ptr(args[1], 0)], s0.copy()):
            if E.cover(o.st, wh):
                E.oblige(o.st, E.boolv(o.val) == same, 'equality, %s: true exactly when all values agree' % wh)
    for o in E.run('Minus::HashVectors::operator()', [Ptr(fn, 0), Ptr(a, 0)], s0.copy()):
        for o2 in E.run('Minus::HashVectors::operator()', [Ptr(fn, 0), Ptr(b, 0)], o.st):
            if E.cover(o2.st, 'hash'):
                E.oblige(o2.st, z3.Implies(same, o.val == o2.val), 'hash: equal rows have equal hashes')


# ------------------------------------------------------------------ CartProd
class CPObj:
    def __init__(self, E, st, wl, wr, lo, ro, strided):
        self.E, self.wl, self.wr, self.lo, self.ro = E, wl, wr, lo, ro
        E.concrete_loops = True
        E.abstract_mul = True
        self.lr = [reg('left%d' % k) for k in range(wl)]
        self.rr = [reg('right%d' % k) for k in range(wr)]
        self.L = Child(E, st, 'left', {'v%d' % k: (r, 0) for k, r in enumerate(self.lr)})
        self.R = Child(E, st, 'right', {'v%d' % k: (r, 0) for k, r in enumerate(self.rr)})
        self.W = 1 + wr
        self.buf = Region('buffer[]', arrays=[Arr(8 * k, 8, stride=8 * self.W) for k in range(self.W)] if strided else [Arr(0, 8)])
        self.buf.stride = 8 * self.W if strided else [8 * self.W, 8]
        self.strided = strided
        self.n0, self.i0 = z3.BitVecs('nbuffered idx0', 64)
        st.assume(z3.ULT(self.n0, LIM))
        fl = {K['CartProd_left']: self.L.p, K['CartProd_right']: self.R.p, K['CartProd_leftOptional']: BV(int(lo), 8), K['CartProd_rightOptional']: BV(int(ro), 8),
              K['CartProd_leftExhausted']: z3.ZeroExt(7, z3.BitVec('leftExhausted', 1)), K['CartProd_idxbuffer']: self.i0}
        ptrvec(fl, K['CartProd_leftTail'], 'leftTail[]', self.lr)
        ptrvec(fl, K['CartProd_rightTail'], 'rightTail[]', self.rr)
        vec(fl, K['CartProd_buffer'], self.buf, Off(0, ((8 * self.W, self.n0),)))
        self.t = Region('this', size=K['CartProd_size'], fields=fl)
        model(E, ['vector<unsigned long', '::push_back'], self.m_push)
        model(E, ['vector<unsigned long', '::clear'], self.m_clear)

    def m_push(self, E, st, a, dem):
        if a[0].r is not self.t or not a[0].o.isconst() or a[0].o.c != K['CartProd_buffer']:
            raise Unsupported('push_back on an unknown vector')
        endc = Ptr(self.t, K['CartProd_buffer'] + 8)
        end = rd(E, st, endc, PTR)
        v = rd(E, st, a[1])
        c, a, S = end.o.c, self.buf.arrays[0], 8
        if self.strided:
            S, a = 8 * self.W, self.buf.arrays[c // 8 % self.W]
        if any(k % S for k, _ in end.o.t):
            raise Unsupported('push_back in the middle of an entry')
        E.arr_set(st, self.buf, a, z3.Store(E.arr_get(st, self.buf, a), Off(c // S, tuple((k // S, t) for k, t in end.o.t)).bv(), v))
        E.mute += 1
        E.store(st, endc, end.add(8), PTR)
        E.mute -= 1

    def entry(self, st, i, k):
        """word k of buffer entry i"""
        if self.strided:
            return z3.Select(self.E.arr_get(st, self.buf, self.buf.arrays[k]), i)
        return z3.Select(self.E.arr_get(st, self.buf, self.buf.arrays[0]), i * self.W + k)

    def m_clear(self, E, st, a, dem):
        E.mute += 1
        E.store(st, a[0].add(8), rd(E, st, a[0], PTR), PTR)
        E.mute -= 1

    def blen(self, st):
        o = rd(self.E, st, Ptr(self.t, K['CartProd_buffer'] + 8), PTR).o
        W = 8 * self.W
        return None if o.c % W or any(k % W for k, _ in o.t) else Off(o.c // W, tuple((k // W, t) for k, t in o.t)).bv()

    # what the two sides stand for: the tuples of the input, or one unbound tuple if an optional side is empty
    def nn(self, st, s):
        c, opt = (self.L, self.lo) if s == 'L' else (self.R, self.ro)
        return z3.If(c.n(st) == 0, BV(1), c.n(st)) if opt else c.n(st)

    def cc(self, st, s, i):
        c, opt = (self.L, self.lo) if s == 'L' else (self.R, self.ro)
        return z3.If(c.n(st) == 0, BV(1), c.C(st, i)) if opt else c.C(st, i)

    def vv(self, st, s, i, k):
        c, opt = (self.L, self.lo) if s == 'L' else (self.R, self.ro)
        return z3.If(c.n(st) == 0, NUL, c.V(st, i, 'v%d' % k)) if opt else c.V(st, i, 'v%d' % k)

    def holds(self, st, upto):
        """buffer tuple y is right tuple y, for every y < upto"""
        return z3.Implies(z3.ULT(y, upto), z3.And(self.entry(st, y, 0) == self.cc(st, 'R', y), *[self.entry(st, y, 1 + k) == self.vv(st, 'R', y, k) for k in range(self.wr)]))

    def at(self, st, i, j, yy=None):
        E = self.E
        n = self.blen(st)
        if n is None:
            return z3.BoolVal(False)
        ex = f(E, st, self.t, 'CartProd_leftExhausted', I8)
        L = self.L
        left = z3.And(L.live(st), L.pos(st) == i + 1, L.wf(st), ex == 0)
        if self.lo:
            left = z3.If(L.n(st) == 0, z3.And(i == 0, ex == 1), left)
        return z3.And(left, n == self.nn(st, 'R'), z3.ULT(i, self.nn(st, 'L')), z3.ULT(j, n), self.holds(st, n), f(E, st, self.t, 'CartProd_idxbuffer') == (j + 1) * self.W,
                      f(E, st, self.t, 'CartProd_leftCount') == self.cc(st, 'L', i), *([regv(E, st, r) == self.vv(st, 'L', i, k) for k, r in enumerate(self.lr)] + [regv(E, st, r) == self.vv(st, 'R', j, k) for k, r in enumerate(self.rr)]))


def cp_spec(E, C):
    def spec(lv):
        s, R, L = lv.st, C.R, C.L
        s.assume(R.facts(s), L.facts(s))
        n = C.blen(s)
        if n is None:
            return []
        return [('buffering: one entry per tuple read', z3.And(R.wf(s), R.live(s), n == R.pos(s) - 1)), ('buffering: entries', C.holds(s, n)),
                ('buffering: current tuple', z3.And(f(E, s, C.t, 'CartProd_rightCount') == R.C(s, R.pos(s) - 1), *[regv(E, s, r) == R.V(s, R.pos(s) - 1, 'v%d' % k) for k, r in enumerate(C.rr)])),
                ('buffering: right not empty', R.n(s) != 0), ('buffering: first entry', z3.substitute(C.holds(s, n), (y, BV(0))))]
    E.loop_specs.append(spec)


def u_cp(E, which, wl, wr, lo, ro):
    st = State()
    C = CPObj(E, st, wl, wr, lo, ro, which == 'first')
    L, R = C.L, C.R
    E.auto_linear = 'lite'
    st.assume(L.okc(st, BV(0)), R.okc(st, BV(0)), z3.ULT(L.n(st), LIM), z3.ULT(R.n(st), LIM))
    if which == 'first':
        cp_spec(E, C)
        i0 = j0 = None
    else:
        i0, j0 = z3.BitVecs('i0 j0', 64)
        st.assume(L.facts(st), C.n0 == C.nn(st, 'R'), C.at(st, i0, j0), z3.substitute(C.holds(st, C.n0), (y, BV(0))), z3.substitute(C.holds(st, C.n0), (y, j0 + 1)))
    for o in E.run('CartProd::' + which, [Ptr(C.t, 0)], st):
        s = o.st
        s.assume(L.facts(s), R.facts(s), z3.substitute(C.holds(s, C.nn(s, 'R')), (y, BV(0))) if which == 'next' else z3.BoolVal(True))
        if not E.cover(s, which):
            continue
        c = o.val
        nL, nR = C.nn(s, 'L'), C.nn(s, 'R')
        if which == 'first':
            more, i, j = z3.And(nL != 0, nR != 0), BV(0), BV(0)
        else:
            more = z3.Or(z3.ULT(j0 + 1, nR), z3.ULT(i0 + 1, nL))
            i = z3.If(z3.ULT(j0 + 1, nR), i0, i0 + 1)
            j = z3.If(z3.ULT(j0 + 1, nR), j0 + 1, BV(0))
        E.oblige(s, z3.Implies(z3.Not(more), c == 0), which + ': the end is reported when no combination is left')
        E.oblige(s, z3.Implies(more, c == E.mul(s, C.cc(s, 'L', i), C.cc(s, 'R', j))), which + ': otherwise the product of the multiplicities of the next combination is returned')
        E.oblige(s, z3.Implies(more, C.at(s, i, j)), which + ': the registers hold the next combination, an empty optional side is unbound')


# ------------------------------------------------------------------ Assignment, EmptyScan, SingletonScan
def u_assign(E, which, pat):
    st = State()
    E.concrete_loops = True
    src = [reg('src%d' % k) for k in range(2)]
    out = [reg('out%d' % k) for k in range(len(pat))]
    I = Child(E, st, 'input', {'v%d' % k: (r, 0) for k, r in enumerate(src)})
    dv = [z3.BitVec('default%d' % k, 64) for k in range(len(pat))]
    fl = {K['Assignment_input']: I.p}
    sz = K['arg_size']
    args = Region('args[]', size=sz * len(pat), fields=dict([(sz * k + K['arg_reg'], Ptr(src[p], 0) if p is not None else NULL) for k, p in enumerate(pat)] + [(sz * k + K['arg_def'], dv[k]) for k in range(len(pat))]))
    vec(fl, K['Assignment_inputArgs'], args, sz * len(pat))
    ptrvec(fl, K['Assignment_outputVars'], 'outputVars[]', out)
    t = Region('this', size=K['Assignment_size'], fields=fl)
    if which == 'next':
        st.assume(I.wf(st), I.live(st), I.facts(st))
        i = I.pos(st)
    else:
        i = BV(0)
    for o in E.run('Assignment::' + which, [Ptr(t, 0)], st):
        s = o.st
        if not E.cover(s, which):
            continue
        c = o.val
        more = z3.ULT(i, I.n(s))
        E.oblige(s, z3.Implies(z3.Not(more), c == 0), which + ': the end is reported with the input')
        E.oblige(s, z3.Implies(more, z3.And(I.pos(s) == i + 1, c == I.C(s, i), *[regv(E, s, r) == I.V(s, i, 'v%d' % k) for k, r in enumerate(src)])), which + ': every input tuple is delivered once with its multiplicity')
        E.oblige(s, z3.Implies(more, z3.And(*[regv(E, s, r) == (I.V(s, i, 'v%d' % p) if p is not None else d) for r, p, d in zip(out, pat, dv)])), which + ': the assigned registers hold the value of their expression')


def u_trivial(E, cls, which, want):
    st = State()
    for o in E.run('%s::%s' % (cls, which), [Ptr(Region('this', size=K[cls + '_size']), 0)], st):
        if E.cover(o.st, which):
            E.oblige(o.st, o.val == want, '%s::%s returns %d' % (cls, which, want))


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R05.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(m, g)
    th = tier == 'thorough'
    u = []
    for w in ((0, 1, 2, 3) if th else (0, 1, 2)):
        u += [('ValuesScan constructor, %d columns' % w, m, u_values_ctor, dict(w=w)), ('ValuesScan::first, %d columns' % w, m, u_values_next, dict(w=w, first=True)), ('ValuesScan::next, %d columns' % w, m, u_values_next, dict(w=w, first=False))]
    u += [('Filter constructor', m, u_filter_ctor, {}), ('Filter::first', m, u_filter, dict(first=True)), ('Filter::first with a domain', m, u_filter, dict(first=True, domain=True)), ('Filter::next', m, u_filter, dict(first=False))]
    for nm in (0, 1, 2):
        u += [('Union::%s, %d mapped' % (w, nm), m, u_union, dict(which=w, nm=nm)) for w in ('first', 'next', 'done')]
    for w in ((0, 1, 2, 3) if th else (0, 1, 2)):
        u += [('Minus::%s, %d variables' % (k, w), m, u_minus, dict(which=k, w=w)) for k in ('first', 'first again', 'next')]
        if w:
            u.append(('Minus hash and equality, %d variables' % w, m, u_minus_funcs, dict(w=w)))
    for lo in (False, True):
        for ro in (False, True):
            for wl, wr in (((1, 1), (0, 0), (2, 1), (1, 2), (0, 2)) if th else ((1, 1), (1, 0), (0, 2))):
                u += [('CartProd::%s, optional %d%d, %d/%d registers' % (k, lo, ro, wl, wr), m, u_cp, dict(which=k, wl=wl, wr=wr, lo=lo, ro=ro)) for k in ('first', 'next')]
    for pat in ((), (0,), (None, 1), (1, None, 0)):
        u += [('Assignment::%s %s' % (k, pat), m, u_assign, dict(which=k, pat=pat)) for k in ('first', 'next')]
    u += [('EmptyScan::first', m, u_trivial, dict(cls='EmptyScan', which='first', want=0)), ('EmptyScan::next', m, u_trivial, dict(cls='EmptyScan', which='next', want=0)),
          ('SingletonScan::first', m, u_trivial, dict(cls='SingletonScan', which='first', want=1)), ('SingletonScan::next', m, u_trivial, dict(cls='SingletonScan', which='next', want=0))]
    return u


SRC = ['ValuesScan', 'Filter', 'Union', 'Minus', 'CartProd', 'Assignment', 'EmptyScan', 'SingletonScan', 'Operator', 'DomainDescription']
NATIVE = [{'src': 'R05.cpp', 'extra': ['$REPO/rdf3x/src/rts/%s.cpp' % s for s in SRC] + ['$REPO/rdf3x/src/infra/Mutex.cpp'], 'quick': 60000, 'thorough': 1000000}]
FUNCS = ['ValuesScan::ValuesScan', 'ValuesScan::first', 'ValuesScan::next', 'Filter::Filter', 'Filter::first', 'Filter::next', 'Union::first', 'Union::firstFromPart', 'Union::next', 'Minus::first', 'Minus::next', 'Minus::HashVectors::operator()',
         'Minus::EqualVectors::operator()', 'CartProd::first', 'CartProd::next', 'Assignment::first', 'Assignment::next', 'EmptyScan::first', 'EmptyScan::next', 'SingletonScan::first', 'SingletonScan::next']
TRUSTED = ['Operator interface contract of the inputs (arbitrary finite sequences)', 'std::set (construction from a range, count, find, iteration), std::unordered_set::count/insert for the proved hash and equality, std::vector copy/push_back/clear',
           'ObservedDomainDescription::add / PotentialDomainDescription::restrictTo: contracts proved in R01']
ASSUMPTIONS = ['numbers of registers per operator are enumerated (0..2 quick, 0..3 thorough), each proved for all values and sequence lengths', 'input lengths below 2^40, VALUES lists below 2^32 values', 'the minus input yields the same tuples when Minus is restarted (the set is built once)', 'products of multiplicities do not wrap']
BOUNDED = ['constructors of Union, Minus, CartProd, Assignment (member copies): native oracle only']
