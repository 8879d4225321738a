from common import *

K = {}
B64 = z3.BitVecSort(64)
S = z3.Function('times_step', B64, B64)        # i |-> i * step (recursive definition below)
j = z3.BitVec('j', 64)                          # an arbitrary position
MAXN = 1 << 20


def sx(v):
    return z3.SignExt(32, v)


def ite(c, a, b):
    return z3.If(c, a, b)


def sel(A, i):
    if z3.is_quantifier(A):                       # a lambda term (memmove)
        return z3.substitute_vars(A.body(), i)
    if z3.is_app_of(A, z3.Z3_OP_STORE):
        return z3.If(i == A.arg(1), A.arg(2), sel(A.arg(0), i))
    return z3.Select(A, i)


class TN:
    """a tree node. view: K(i) = i-th key, 0 <= i < size. consecutive: firstKey + i*step, otherwise firstKey + keys[i-1]"""

    def __init__(self, E, st, name, cx, mode, keys, step=None):
        self.E, self.cx, self.name, self.mode = E, cx, name, mode
        self.step = z3.BitVec(name + '.step', 32) if step is None else step
        self.karr = Region(name + '.keys[]', arrays=[Arr(0, 8, n=cx.max64)])
        self.sz = z3.BitVec(name + '.size', 32)
        f = {0: NULL, K['context']: Ptr(cx.r, 0), K['currentSize']: self.sz, K['firstKey']: z3.BitVec(name + '.firstKey', 64), K['keys']: Ptr(self.karr, 0) if keys else NULL,
             K['consecutive']: BV(1 if mode == 'seq' else 0, 8) if mode != 'any' else z3.BitVec(name + '.consecutive', 8), K['consecutiveStep']: self.step, K['state']: z3.BitVec(name + '.state', 8)}
        self.t = Region(name, size=K['size'], fields=f)
        self.p = Ptr(self.t, 0)
        st.assume(self.sz >= 0, self.sz <= cx.max, self.step >= 1, self.step <= 255, z3.ULE(f[K['consecutive']], 1))

    def f(self, s, n, ty=I64):
        return rd(self.E, s, Ptr(self.t, K[n]), ty)

    def size(self, s):
        return sx(self.f(s, 'currentSize', I32))

    def keys(self, s):
        p = self.f(s, 'keys', PTR)
        if p.r.isnull:
            return None
        if not p.o.isconst() or p.o.c or not p.r.arrays:
            raise Unsupported('keys array')
        return self.E.arr_get(s, p.r, p.r.arrays[0])

    def key(self, s, i, mul=None):
        """K(i)"""
        first, ks = self.f(s, 'firstKey'), self.keys(s)
        A = ite(i == 0, first, first + sel(ks, i - 1)) if ks is not None else first
        return ite(self.f(s, 'consecutive', I8) != 0, first + self.cx.times(s, i, self.f(s, 'consecutiveStep', I32)), A)

    def wf(self, s):
        c = self.f(s, 'consecutive', I8)
        st, sz = self.f(s, 'consecutiveStep', I32), self.f(s, 'currentSize', I32)
        return z3.And(z3.ULE(c, 1), st >= 1, st <= 255, sz >= 0, sz <= self.cx.max, z3.BoolVal(True) if self.keys(s) is not None else c == 1)


class CX:
    def __init__(self, E, st, text):
        self.E = E
        self.max, self.min = z3.BitVecs('max min', 32)
        self.max64 = sx(self.max)
        self.text = text
        fac, buf = Region('keyFactory'), Region('stringBuffer')
        self.r = Region('context', size=K['c_size'], fields={K['c_buffer']: Ptr(buf, 0), K['c_maxNElementsPerNode']: self.max, K['c_minNElementsPerNode']: self.min, K['c_textualKeys']: BV(int(text), 8), K['c_nodeKeyFactory']: Ptr(fac, 0)})
        # the tree is created with an even number of elements per node
        st.assume(self.max >= 2, self.max <= MAXN, self.min >= 1, self.min <= self.max, self.min + self.min == self.max)
        E.abstract_mul = True
        E.use_cvc5 = True
        E.cand_timeout = 5000
        E.mul = self.mul
        E.div_hook = self.div
        self.steps = []
        self.cells = []
        self.plus = []
        self.mono = []
        self.q = {}
        E.models['vp_array_get'] = self.m_get
        E.models['vp_array_release'] = lambda E, st, a, d: None

    # i * step through its recursive definition
    def defs(self, st, i, step):
        s = z3.ZeroExt(32, step) if step.size() == 32 else step
        st.assume(S(BV(0)) == 0, S(BV(1)) == s, S(i + 1) == S(i) + s, S(i) == S(i - 1) + s, z3.Implies(s == 1, S(i) == i))
        for k in [i]:
            st.assume(z3.Implies(z3.ULT(k, BV(1 << 40)), z3.ULT(S(k), BV(1 << 48))), z3.Implies(z3.ULT(k, BV(1 << 21)), z3.ULT(S(k), BV(1 << 29))))
        for k in self.plus:
            st.assume(S(i + k) == S(i) + S(k), S(i) == S(i - k) + S(k))
        for k in self.mono:
            for a, b in ((k, i), (i, k)):
                st.assume(z3.Implies(z3.And(z3.ULT(a, b), z3.ULT(b, BV(1 << 40))), z3.ULE(S(a) + s, S(b))))

    def known(self, step):
        return any(z3.eq(z3.simplify(step), z3.simplify(x)) for x in self.steps)

    def times(self, st, i, step):
        if not self.known(step):
            v = conc(step)
            if v is not None:
                return i * BV(v) if step.size() == 32 else i * step
            raise Unsupported('product by %s' % step)
        self.defs(st, i, step)
        return S(i)

    def split32(self, v):
        """sign extension of a known step"""
        for x in self.steps:
            if z3.eq(z3.simplify(v), z3.simplify(x)) or v.size() == 64 and z3.eq(z3.simplify(v), z3.simplify(sx(x))):
                return x
        return None

    def mul(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            s = self.split32(y)
            if s is not None:
                i = x if x.size() == 64 else sx(x)
                r = self.times(st, i, s)
                if x.size() == 64:
                    return r
                self.E.oblige(st, z3.And(x >= 0, x <= MAXN), 'safety: product in range')
                return z3.Extract(31, 0, r)
        raise Unsupported('product of two variables')

    def div(self, st, op, a, b):
        s = self.split32(b)
        if s is None or op not in ('sdiv', 'srem', 'udiv', 'urem') or a.size() != 64:
            return None
        k = z3.simplify(a).get_id(), s.get_id()
        if k not in self.q:
            self.q[k] = fresh('quot', B64), a
        q = self.q[k][0]
        self.defs(st, q, s)
        s64 = z3.ZeroExt(32, s)
        if op[0] == 's':
            self.E.oblige(st, a >= 0, 'division of a non-negative number')
        st.assume(z3.ULE(q, a), z3.Implies(z3.ULT(a, BV(1 << 40)), z3.And(z3.ULE(S(q), a), z3.ULT(a, S(q) + s64))))
        self.E.oblige(st, z3.ULT(a, BV(1 << 40)), 'division: range')
        return q if 'div' in op else a - S(q)

    def m_get(self, E, st, a, dem):
        r = Region('new keys[]', arrays=[Arr(0, 8, n=self.max64)])
        return Ptr(r, 0)


def start(E, mode, keys, text=False, cells=None):
    st = State()
    cx = CX(E, st, text)
    n = TN(E, st, 'node', cx, mode, keys)
    cx.steps = [n.step]
    cx.cells = cells if cells is not None else [j - 2, j - 1, j]
    st.assume(z3.ULT(j, BV(1 << 30)))
    return st, cx, n


def snapshot(n, s):
    return s.copy()


def cases():
    return (('sequence', 'seq', False), ('sequence, spare key array', 'seq', True), ('key array', 'arr', True))


def fillspec(cx, n, targets):
    """array loops: each watched cell has its old value, or a value given by one of the formulas, from the loop index on"""
    def spec(lv):
        s = lv.st
        out = []
        idx = [(nm, sx(v) if v.size() == 32 else v, None if v0 is None else (sx(v0) if v0.size() == 32 else v0)) for nm, v, v0 in lv.ints if nm.startswith('phi%') and v.size() in (32, 64)]
        for nm, v, v0 in idx:
            if v0 is not None:
                out += [('start %s' % nm, v0 <= v), ('bound %s' % nm, v <= cx.max64)]
            for b, x in (('size', n.size(s)), ('size-1', n.size(s) - 1), ('size-2', n.size(s) - 2)):
                out.append(('%s at most %s' % (nm, b), v <= x))
        for lab, cv, ev, r, key in lv.arrs:
            if r is GHOST or cv.sort() != z3.ArraySort(B64, B64):
                continue
            for nm, i, i0 in idx:
                if i0 is None:
                    continue
                for ci, c in enumerate(cx.cells):
                    for tn, t in targets(lv, s, c, ev):
                        out.append(('%s[%d] by %s: %s' % (lab, ci, nm, tn), z3.Implies(z3.And(c >= i0, c < i), sel(cv, c) == t)))
                    out.append(('%s[%d] by %s: rest' % (lab, ci, nm), z3.Implies(z3.Or(c < i0, c >= i), sel(cv, c) == sel(ev, c))))
        return out
    return spec


def u_keyat(E, mode, keys):
    st, cx, n = start(E, mode, keys)
    p = z3.BitVec('p', 32)
    st.assume(p >= 0, sx(p) < n.size(st))
    for o in E.run('vp_keyAt', [n.p, p], st):
        if E.cover(o.st, 'keyAt'):
            E.oblige(o.st, o.val == n.key(o.st, sx(p)), 'keyAt: the key at that position')
    for fn, i in (('vp_smallest', BV(0)), ('vp_largest', n.size(st) - 1)):
        s0 = st.copy()
        for o in E.run(fn, [n.p], s0):
            if E.cover(o.st, fn):
                E.oblige(o.st, o.val == n.key(o.st, i), '%s: the %s key' % (fn[3:], 'first' if fn == 'vp_smallest' else 'last'))
    for o in E.run('vp_should', [n.p], st.copy()):
        E.oblige(o.st, bool_of(o.val) == (n.sz == cx.max), 'shouldSplit: exactly when the node is full')


def bool_of(v):
    return v if z3.is_bool(v) else v != 0


def u_put(E, mode, keys, entry='vp_put'):
    st, cx, n = start(E, mode, keys)
    key, p = z3.BitVec('key', 64), z3.BitVec('p', 32)
    st.assume(p >= 0, p <= n.sz, n.sz < cx.max)
    s0 = st.copy()
    diff = n.f(s0, 'firstKey') - key

    def targets(lv, s, c, ev):
        if mode != 'seq':
            return [('moved', sel(ev, c) + diff)]
        cx.defs(s, c + 1, n.step)
        return [('times', S(c + 1)), ('shifted times', diff + S(c))]
    E.loop_specs.append(fillspec(cx, n, targets))
    args = [n.p, key, p]
    if entry == 'vp_puttext':
        G = z3.BitVec('bufferSize', 64)
        key0, key = key, G
        diff = n.f(s0, 'firstKey') - G
        txt = Region('text', size=None)
        st.setg('appended', z3.BoolVal(False))
        E.models['vp_sb_size'] = lambda E, st, a, d: ite(st.g('appended'), fresh('bufferSizeAfter', B64), z3.simplify(G))

        def m_append(E, st, a, d):
            E.oblige(st, z3.And(z3.BoolVal(a[1].r is txt), a[2] == z3.BitVec('len', 32), z3.Not(st.g('appended'))), 'the new text is appended to the string buffer once')
            st.setg('appended', z3.BoolVal(True))
        E.models['vp_sb_append'] = m_append
        args = [n.p, Ptr(txt, 0), z3.BitVec('len', 32), p]
    for o in E.run(entry, args, st):
        s = o.st
        if not E.cover(s, 'putkeyAt'):
            continue
        P = sx(p)
        want = ite(j < P, n.key(s0, j), ite(j == P, key, n.key(s0, j - 1)))
        s.assume(*[c for c in s0.pc])
        E.oblige(s, n.size(s) == n.size(s0) + 1, 'putkeyAt: one key more')
        E.oblige(s, z3.Implies(z3.ULT(j, n.size(s)), n.key(s, j) == want), 'putkeyAt: the new key is at its position, all others keep their order and value')
        E.oblige(s, n.wf(s), 'putkeyAt: representation')
        if entry == 'vp_puttext':
            E.oblige(s, s.g('appended'), 'putkeyAt: the text is stored')


def u_remove(E, mode, keys, entry):
    st, cx, n = start(E, mode, keys)
    p = z3.BitVec('p', 32)
    st.assume(p >= 0, p < n.sz)
    args = [n.p, p]
    P = sx(p)
    if entry != 'vp_remove':
        args = [n.p]
        P = BV(0) if entry == 'vp_removefirst' else n.size(st) - 1
    s0 = st.copy()
    ks0 = n.keys(s0)

    def targets(lv, s, c, ev):
        if mode != 'seq':
            return [('moved', sel(ev, c + 1) - sel(ev, BV(0))), ('old moved', sel(ks0, c + 1) - sel(ks0, BV(0)))]
        cx.defs(s, c + 1, n.step)
        return [('times', S(c + 1)), ('times+1', S(c + 2))]
    E.loop_specs.append(fillspec(cx, n, targets))
    for o in E.run(entry, args, st):
        s = o.st
        if not E.cover(s, entry[3:]):
            continue
        want = ite(j < P, n.key(s0, j), n.key(s0, j + 1))
        s.assume(*[c for c in s0.pc])
        E.oblige(s, n.size(s) == n.size(s0) - 1, 'removeKeyAtPos: one key less')
        E.oblige(s, z3.Implies(z3.ULT(j, n.size(s)), n.key(s, j) == want), 'removeKeyAtPos: exactly the key at that position is removed')
        E.oblige(s, n.wf(s), 'removeKeyAtPos: representation')


def u_split(E, mode, keys, okeys):
    st, cx, n = start(E, mode, keys)
    h = sx(cx.min)
    cx.cells = [j - 1, j, h + j, h + j - 1]
    cx.plus = [h]
    m = TN(E, st, 'new node', cx, 'seq', okeys, step=BV(1, 32))
    cx.steps = [n.step]
    st.assume(n.sz == cx.max)
    s0 = st.copy()
    ks = n.keys(s0)

    def targets(lv, s, c, ev):
        return [('second half', sel(ks, h + c) - sel(ks, h - 1))] if ks is not None else []
    fs = fillspec(cx, n, targets)

    def spec(lv):
        out = fs(lv)
        s = lv.st
        if ks is None:
            return out
        flags = [(nm, b) for nm, b, _ in lv.bools] + [(nm, v != 0) for nm, v, _ in lv.ints if v.size() == 8]
        ix = [(nm, sx(v)) for nm, v, _ in lv.ints if nm.startswith('phi%') and v.size() == 32]
        for fn_, b in flags:
            for nm, i in ix:
                out.append(('%s %s' % (fn_, nm), z3.Implies(z3.And(b, j - 1 >= 0, j - 1 < i), sel(ks, h + j - 1) - sel(ks, h - 1) == j)))
        return out
    E.loop_specs.append(spec)
    for o in E.run('vp_split', [n.p, m.p], st):
        s = o.st
        if not E.cover(s, 'split'):
            continue
        s.assume(*[c for c in s0.pc])
        E.oblige(s, z3.And(n.size(s) == h, m.size(s) == h), 'split: two halves')
        E.oblige(s, z3.Implies(z3.ULT(j, h), n.key(s, j) == n.key(s0, j)), 'split: the first half stays')
        E.oblige(s, z3.Implies(z3.ULT(j, h), m.key(s, j) == n.key(s0, h + j)), 'split: the second half moves to the new node')
        E.oblige(s, z3.And(n.wf(s), m.wf(s)), 'split: representation')


def sorted_facts(cx, n, s0, mode, keys_needed=True):
    """precondition instances: the keys are strictly increasing (and differ from the first one by less than 2^61)"""
    ks = n.keys(s0)
    seen = [j - 1, n.size(s0) - 2]

    def rel(a, b):
        m = n.size(s0) - 1
        return z3.Implies(z3.And(a >= 0, a < b, b < m), sel(ks, a) < sel(ks, b))

    def rng(a):
        return z3.Implies(z3.And(a >= 0, a < n.size(s0) - 1), z3.And(sel(ks, a) > 0, sel(ks, a) < BV(1 << 61)))

    def on_read(E, st, a, i):
        st.assume(rng(i), *[f for k in seen for f in (rel(i, k), rel(k, i))])
    n.karr.on_read = on_read
    return [rng(k) for k in seen] + [rel(seen[0], seen[1])]


def search_spec(cx, n, below, above):
    """binary search: everything left of low is smaller than the searched key, everything right of high is larger"""
    def spec(lv):
        out = []
        idx = [(nm, sx(v)) for nm, v, _ in lv.ints if nm.startswith('phi%') and v.size() == 32]
        for na, a in idx:
            out += [('%s range' % na, z3.And(a >= -1, a <= n.size(lv.st))), ('%s nonneg' % na, a >= 0), ('low %s' % na, z3.Implies(below[0] < a, below[1])), ('high %s' % na, z3.Implies(above[0] > a, above[1]))]
            for x in (1, 2, 3):
                out.append(('%s <= size-%d' % (na, x), a <= n.size(lv.st) - x))
            for nb, b in idx:
                if na != nb:
                    out.append(('%s <= %s+1' % (na, nb), a <= b + 1))
        return out
    return spec


def u_pos(E, mode, keys):
    st, cx, n = start(E, mode, keys)
    key = z3.BitVec('key', 64)
    first = n.f(st, 'firstKey')
    st.assume(key >= 0, key < BV(1 << 61), first >= 0, first < BV(1 << 61))
    s0 = st.copy()
    Kj = None
    if mode == 'seq':
        cx.mono = [j, n.size(st)]
        cx.defs(st, j, n.step)
        cx.defs(st, n.size(st), n.step)
    else:
        st.assume(*sorted_facts(cx, n, s0, mode))
        ks, d = n.keys(s0), key - first
        ok = z3.And(j >= 1, j < n.size(s0))
        E.loop_specs.append(search_spec(cx, n, (j - 1, z3.Implies(ok, sel(ks, j - 1) < d)), (j - 1, z3.Implies(ok, sel(ks, j - 1) > d))))
    for o in E.run('vp_pos', [n.p, key], st):
        s = o.st
        if not E.cover(s, 'pos'):
            continue
        r = sx(o.val)
        Kj = n.key(s, j)
        if mode == 'seq':
            E.oblige(s, z3.Implies(r >= 0, z3.And(r < n.size(s0), n.key(s, r) == key)), 'pos: a position found holds the key')
        else:
            E.oblige(s, z3.Implies(r >= 0, z3.And(r < n.size(s0), ite(r == 0, first, first + sel(ks, r - 1)) == key)), 'pos: a position found holds the key')
        E.oblige(s, z3.Implies(r < 0, -r - 1 <= n.size(s0)), 'pos: an insertion point is within the node')
        E.oblige(s, z3.Implies(z3.And(r < 0, ULT_(j, n.size(s0))), z3.And(z3.Implies(j < -r - 1, Kj < key), z3.Implies(j >= -r - 1, Kj > key))), 'pos: a missing key belongs exactly at the insertion point')


def ULT_(a, b):
    return z3.ULT(a, b)


def u_postext(E, mode, keys):
    st, cx, n = start(E, mode, keys, text=True)
    sz = z3.BitVec('len', 32)
    txt = Region('text', size=None)
    CMP = z3.Function('compare', B64, z3.BitVecSort(32))     # i |-> sign of (i-th text ? searched text)
    s0 = st.copy()

    def facts(i):
        return [z3.Implies(z3.And(a >= 0, a < b, b < n.size(s0)), z3.And(z3.Implies(CMP(a) >= 0, CMP(b) > 0), z3.Implies(CMP(b) <= 0, CMP(a) < 0))) for a, b in ((i, j), (j, i))]

    def m_keyat(E, st, a, d):
        i = sx(a[1])
        E.oblige(st, z3.And(i >= 0, i < n.size(s0)), 'keyAt: an existing position', 'pre')
        v = fresh('coordinates', B64)
        st.setg('at', i)
        st.setg('coord', v)
        st.assume(*facts(i))
        return v

    def m_cmp(E, st, a, d):
        E.oblige(st, z3.And(a[1] == st.g('coord'), z3.BoolVal(a[2].r is txt), a[3] == sz), 'the stored text is compared with the searched one')
        return CMP(st.g('at'))
    E.models['_ZN4Node5keyAtEi'] = m_keyat
    E.models['vp_sb_cmp'] = m_cmp
    ok = z3.And(j >= 0, j < n.size(s0))
    E.loop_specs.append(search_spec(cx, n, (j, z3.Implies(ok, CMP(j) < 0)), (j, z3.Implies(ok, CMP(j) > 0))))
    st.setg('at', BV(0))
    st.setg('coord', BV(0))
    for o in E.run('vp_postext', [n.p, Ptr(txt, 0), sz], st):
        s = o.st
        if not E.cover(s, 'pos text'):
            continue
        r = sx(o.val)
        E.oblige(s, z3.Implies(r >= 0, z3.And(r < n.size(s0), CMP(r) == 0)), 'pos text: a position found holds the text')
        E.oblige(s, z3.Implies(r < 0, -r - 1 <= n.size(s0)), 'pos text: an insertion point is within the node')
        E.oblige(s, z3.Implies(z3.And(r < 0, ok), z3.And(z3.Implies(j < -r - 1, CMP(j) < 0), z3.Implies(j >= -r - 1, CMP(j) > 0))), 'pos text: a missing text belongs exactly at the insertion point')


def u_ends(E, mode, keys):
    st, cx, n = start(E, mode, keys, text=True)
    st.assume(n.sz >= 1)
    out = Region('size out', size=4, fields={0: BV(0, 32)})
    for fn, i in (('vp_smallesttext', BV(0)), ('vp_largesttext', n.size(st) - 1)):
        res = Region('stored text', size=None)

        def m_get(E, st, a, d):
            E.oblige(st, a[1] == n.key(st, i), '%s: the text at the %s key is read' % (fn[3:], 'first' if fn == 'vp_smallesttext' else 'last'))
            E.oblige(st, z3.BoolVal(a[2].r is out), 'size out')
            return Ptr(res, 0)
        E.models['vp_sb_get'] = m_get
        for o in E.run(fn, [n.p, Ptr(out, 0)], st.copy()):
            if E.cover(o.st, fn):
                E.oblige(o.st, z3.BoolVal(isinstance(o.val, Ptr) and o.val.r is res), '%s: that text is returned' % fn[3:])


def u_roundtrip(E, mode, keys, text, small, bmode, bkeys):
    """serialize followed by unserialize gives a node with the same keys"""
    st, cx, n = start(E, mode, keys, text=text)
    sref = z3.BitVec('stride', 32)
    ks0 = n.keys(st)
    m = TN(E, st, 'loaded node', cx, bmode, bkeys, step=z3.BitVec('oldstep', 32))
    if mode == 'seq':
        sref = n.step
    cx.steps = [sref]
    st.assume(sref >= 1, sref <= 255)
    st.assume(n.sz <= 1 if small else n.sz >= 2)
    PE = z3.Function('token_at', B64, z3.BitVecSort(32))
    p0, NB = z3.BitVec('p0', 32), 1 << 31
    st.assume(p0 >= 0, p0 < BV(1 << 28, 32), PE(BV(0)) == p0 + 13)
    first = n.f(st, 'firstKey')
    st.assume(first >= 0, first < BV(1 << 61))
    s0 = st.copy()
    size = n.size(s0)
    if mode == 'arr':
        def fact(i):
            if text:
                return z3.Implies(z3.And(i >= 0, i < size - 1), z3.And(first + sel(ks0, i) >= 0, first + sel(ks0, i) < BV(1 << 61)))
            return z3.Implies(z3.And(i >= 0, i < size - 1), z3.And(sel(ks0, i) > 0, sel(ks0, i) < BV(1 << 61)))
        n.karr.on_read = lambda E, st, a, i: st.assume(fact(i))
        st.assume(fact(j - 1), fact(BV(0)), z3.Implies(z3.And(sel(ks0, BV(0)) > 0, sel(ks0, BV(0)) < 256), z3.ZeroExt(32, sref) == sel(ks0, BV(0))))
        E.div_hook = lambda st, op, a, b: (E.oblige(st, b != 0, 'safety: division by zero'), fresh('division', a.sort()))[1]
    by = Region('bytes', arrays=[Arr(0, 1, n=BV(NB))])
    for g, v in (('int', BV(0, 32)), ('intat', BV(-1, 32)), ('long', BV(0)), ('longat', BV(-1, 32)), ('wk', BV(0)), ('rk', BV(0)), ('tok', z3.Array('tok0', B64, B64))):
        st.setg(g, v)
    buf = lambda E, st, p: E.oblige(st, z3.BoolVal(p.r is by and p.o.isconst() and p.o.c == 0) if isinstance(p, Ptr) and hasattr(p.o, 'isconst') else z3.BoolVal(p.r is by), 'the given buffer is used')

    def enc_int(E, st, a, d):
        buf(E, st, a[0])
        st.setg('int', a[2])
        st.setg('intat', a[1])

    def dec_int(E, st, a, d):
        buf(E, st, a[0])
        E.oblige(st, a[1] == st.g('intat'), 'a number is read where it was written')
        return st.g('int')

    def enc_long(E, st, a, d):
        buf(E, st, a[0])
        st.setg('long', a[2])
        st.setg('longat', a[1])

    def dec_long(E, st, a, d):
        buf(E, st, a[0])
        E.oblige(st, a[1] == st.g('longat'), 'a number is read where it was written')
        return st.g('long')

    def enc_v(E, st, a, d):
        buf(E, st, a[0])
        k = st.g('wk')
        E.oblige(st, a[2] >= 0, 'variable-length numbers are not negative', 'pre')
        E.oblige(st, z3.Implies(k == 0, a[1] == p0 + 13), 'the list starts after the header')
        E.oblige(st, a[1] == PE(k), 'numbers are written one after the other')
        st.setg('tok', z3.Store(st.g('tok'), k, a[2]))
        st.setg('wk', k + 1)
        return PE(k + 1)

    def dec_v(E, st, a, d):
        buf(E, st, a[0])
        k = st.g('rk')
        at = rd(E, st, a[1], I32)
        E.oblige(st, z3.And(at == PE(k), z3.ULT(k, st.g('wk'))), 'numbers are read where they were written')
        E.store(st, a[1], PE(k + 1), I32)
        st.setg('rk', k + 1)
        return sel(st.g('tok'), k)
    E.models.update(vp_enc_int=enc_int, vp_dec_int=dec_int, vp_enc_long=enc_long, vp_dec_long=dec_long, vp_enc_vlong=enc_v, vp_dec_vlong=dec_v)

    def spec(lv):
        s = lv.st
        out = []
        wk, rk, tok = s.g('wk'), s.g('rk'), s.g('tok')
        for nm, v, v0 in lv.ints:
            if v.size() == 32:
                i = sx(v)
                if nm.startswith('phi%'):
                    out += [('i %s wk' % nm, i == wk), ('i %s rk' % nm, i == rk), ('%s range' % nm, z3.And(i >= 0, i <= size - 1)), ('%s range1' % nm, z3.And(i >= 1, i <= size - 1))]
                    if mode == 'arr':
                        out += [('stride at %s' % nm, sel(ks0, i - 1) == S(i)), ('stride up to %s' % nm, z3.Implies(z3.And(j >= 1, j - 1 < i), sel(ks0, j - 1) == S(j)))]
                        cx.defs(s, i, sref)
                    mk = m.keys(s)
                    if mk is not None:
                        for tn, t in (('', sel(tok, j - 1)), (' - first', sel(tok, j - 1) - m.f(s, 'firstKey'))):
                            out.append(('loaded%s %s' % (tn, nm), z3.Implies(z3.And(j >= 1, j - 1 < i), sel(mk, j - 1) == t)))
                out += [('%s at wk' % nm, v == PE(wk)), ('%s at rk' % nm, v == PE(rk)), ('%s start' % nm, z3.Implies(wk == 0, v == p0 + 13)), ('%s start r' % nm, z3.Implies(rk == 0, v == p0 + 13))]
        if mode == 'arr':
            out.append(('written', z3.Implies(z3.And(j >= 1, j - 1 < wk), sel(tok, j - 1) == sel(ks0, j - 1) + (first if text else 0))))
        return out
    E.loop_specs.append(spec)
    if mode == 'arr':
        cx.defs(st, j, sref)
    for o in E.run('vp_roundtrip', [n.p, m.p, Ptr(by, 0), p0], st):
        s = o.st
        if not E.cover(s, 'roundtrip'):
            continue
        E.oblige(s, bool_of(o.val), 'unserialize ends where serialize ended')
        E.oblige(s, m.size(s) == size, 'the loaded node has as many keys')
        if small:
            E.oblige(s, z3.Implies(size == 1, m.f(s, 'firstKey') == first), 'the loaded node has the same keys')
        else:
            cons = m.f(s, 'consecutive', I8)
            E.oblige(s, z3.And(m.f(s, 'firstKey') == first, z3.Implies(cons != 0, m.f(s, 'consecutiveStep', I32) == sref)), 'the loaded sequence has the same stride')
            mk = m.keys(s)
            Kj = ite(j == 0, first, first + sel(mk, j - 1)) if mk is not None else first
            cx.defs(s, j, sref)
            E.oblige(s, z3.Implies(z3.ULT(j, size), ite(cons != 0, first + S(j), Kj) == n.key(s0, j)) if mode == 'seq' else z3.Implies(z3.ULT(j, size), ite(cons != 0, first + S(j), Kj) == ite(j == 0, first, first + sel(ks0, j - 1))), 'the loaded node has the same keys')
        E.oblige(s, m.wf(s), 'the loaded node is well formed')
        E.oblige(s, z3.And(n.size(s) == size, n.f(s, 'firstKey') == first), 'serialize leaves the node as it is', 'frame')


def u_lemmas(E):
    """the facts about i * step that are used above, for the real product of 64-bit numbers"""
    st = State()
    a, b, s = z3.BitVecs('a b s', 64)
    st.assume(s >= 1, s <= 255)
    E.use_cvc5 = True
    E.cover(st, 'lemmas')
    E.oblige(st, z3.And(BV(0) * s == 0, BV(1) * s == s, (a + 1) * s == a * s + s, a * s == (a - 1) * s + s, z3.Implies(s == 1, a * s == a)), 'lemma: definition')
    E.oblige(st, z3.And((a + b) * s == a * s + b * s, a * s == (a - b) * s + b * s), 'lemma: sums')
    E.oblige(st, z3.Implies(z3.ULT(a, BV(1 << 40)), z3.ULT(a * s, BV(1 << 48))), 'lemma: range')
    E.oblige(st, z3.Implies(z3.ULT(a, BV(1 << 21)), z3.ULT(a * s, BV(1 << 29))), 'lemma: small range')
    # a < b: b * s = (a + 1 + d) * s = a * s + s + d * s, and the sum of two numbers below 2^48 does not wrap
    d = b - a - 1
    E.oblige(st, b * s == a * s + s + d * s, 'lemma: difference')
    x, y = z3.BitVecs('x y', 64)
    E.oblige(st, z3.Implies(z3.And(z3.ULT(x, BV(1 << 48)), z3.ULT(y, BV(1 << 48))), z3.ULE(x + s, x + s + y)), 'lemma: order')
    q = z3.UDiv(a, s)
    E.oblige(st, z3.Implies(z3.ULT(a, BV(1 << 40)), z3.And(z3.ULE(q, a), z3.ULT(q, BV(1 << 40)))), 'lemma: quotient range')
    r = z3.URem(a, s)
    E.oblige(st, z3.And(z3.ULT(r, s), z3.ULE(r, a)), 'lemma: remainder range')


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/B01.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(m, g)
    out = [('facts about products', m, u_lemmas, {})]
    for nm, mode, keys in cases():
        kw = dict(mode=mode, keys=keys)
        out.append(('keyAt, %s' % nm, m, u_keyat, kw))
        out.append(('putkeyAt, %s' % nm, m, u_put, kw))
        out.append(('putkeyAt text, %s' % nm, m, u_put, dict(kw, entry='vp_puttext')))
        for e in ('vp_remove', 'vp_removefirst', 'vp_removelast'):
            out.append(('%s, %s' % (e[3:], nm), m, u_remove, dict(kw, entry=e)))
        out.append(('pos, %s' % nm, m, u_pos, kw))
        out.append(('pos text, %s' % nm, m, u_postext, kw))
        out.append(('smallest and largest text, %s' % nm, m, u_ends, kw))
        for tx in (False, True):
            for small in (False, True):
                for bn, bmode, bkeys in (('a fresh', 'seq', False), ('a reused', 'any', True)):
                    out.append(('serialize then unserialize into %s node: %s of %s%s' % (bn, nm, 'texts' if tx else 'numbers', ', at most one key' * small), m, u_roundtrip, dict(kw, text=tx, small=small, bmode=bmode, bkeys=bkeys)))
        for ok in (False, True):
            out.append(('split, %s%s' % (nm, ', reused node' * ok), m, u_split, dict(kw, okeys=ok)))
    return out


def konst(m, n):
    return m.globals[n][1][1]


NATIVE = [{'src': 'B01.cpp', 'quick': 60000, 'thorough': 1500000}]
FUNCS = ['Node::' + f for f in ('pos(int64_t)', 'pos(tTerm*, int)', 'keyAt', 'localSmallestNumericKey', 'localLargestNumericKey', 'localSmallestTextualKey', 'localLargestTextualKey', 'putkeyAt(nTerm, int)', 'putkeyAt(tTerm*, int, int)',
                                'removeKeyAtPos', 'removeFirstKey', 'removeLastKey', 'split', 'shouldSplit', 'serialize', 'unserialize')]
TRUSTED = ['number codecs of KOGNAC (Utils::encode_/decode_int, long, vlong): a number written at a position is read back from it, list entries lie one after the other, vlong takes non-negative numbers (obliged)',
           'StringBuffer: getSize gives the position at which append stores, cmp is a fixed strict order of the stored texts, get returns the text at a position', 'pool factories: get returns a fresh array with room for the maximal number of keys']
ASSUMPTIONS = ['nodes hold an even number of at most 2^20 keys, numeric keys and text positions are below 2^61', 'numeric keys are strictly increasing, texts are stored in strictly increasing order (for search and for the list of numbers in serialize)', 'the byte buffer is large enough for the node']
BOUNDED = []
