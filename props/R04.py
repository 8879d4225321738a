from ops import *

K = {}
x = z3.BitVec('x', 64)


def setup_nlj(E, st):
    lr, rr = reg('leftReg'), reg('rightReg')
    L = Child(E, st, 'left', {'v': (lr, 0)})
    R = Child(E, st, 'right', {'v': (rr, 0)}, multi=True)
    t = Region('this', size=K['NestedLoopJoin_size'], fields={K['NestedLoopJoin_left']: L.p, K['NestedLoopJoin_right']: R.p})
    return L, R, t, lr, rr


def nlj_inv(E, st, t, L, R, lr, rr, base, i, j):
    return z3.And(L.wf(st), L.live(st), L.pos(st) - 1 == i, R.run(st) == base + i, R.live(st), R.wf(st), R.pos(st) - 1 == j,
                  rd(E, st, Ptr(t, K['NestedLoopJoin_leftCount'])) == L.C(st, i), rd(E, st, Ptr(lr, 0)) == L.V(st, i), rd(E, st, Ptr(rr, 0)) == R.V(st, j))


def empty_run(R, st, base, k):
    return R.fn(base + k) == 0


def nlj_spec(E, L, R, base, lo, t, lr):
    def spec(lv):
        s = lv.st
        s.assume(L.facts(s), R.facts(s))
        p = L.pos(s)
        out = [('left position', z3.And(L.wf(s), L.live(s))), ('right not live or live', z3.BoolVal(True)),
               ('left register holds the current tuple', rd(E, s, Ptr(lr, 0)) == L.V(s, p - 1)),
               ('left count', rd(E, s, Ptr(t, K['NestedLoopJoin_leftCount'])) == L.C(s, p - 1)),
               ('pos >= lo+1', z3.UGE(p, lo + 1)),
               ('one inner run per outer tuple', R.run(s) == base + p - 2), ('one inner run per outer tuple (current)', R.run(s) == base + p - 1),
               ('skipped outer tuples have no partner', z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, p - 1)), empty_run(R, s, base, x))),
               ('skipped outer tuples have no partner (incl.)', z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, p)), empty_run(R, s, base, x)))]
        return out
    return spec


def nlj_post(E, o, L, R, t, lr, rr, base, i0, j0, what):
    s = o.st
    s.assume(L.facts(s), R.facts(s))
    if not E.cover(s, what):
        return
    c = o.val
    i, j = L.pos(s) - 1, R.pos(s) - 1
    lo = BV(0) if i0 is None else i0 + 1
    ended = z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, L.n(s))), empty_run(R, s, base, x))
    if i0 is not None:
        ended = z3.And(ended, j0 + 1 == R.fn(base + i0))
    nxt = z3.And(j == 0, z3.UGE(i, lo), z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, i)), empty_run(R, s, base, x)))
    if i0 is not None:
        nxt = z3.Or(z3.And(i == i0, j == j0 + 1), z3.And(nxt, j0 + 1 == R.fn(base + i0)))
    # the end is reported when an input count was zero; a product of counts is not an end marker unless it wraps
    live = z3.And(L.live(s), R.live(s))
    E.oblige(s, z3.Implies(z3.Not(live), z3.And(c == 0, ended)), what + ': the end is reported only when no further pair exists')
    E.oblige(s, z3.Implies(live, z3.And(nlj_inv(E, s, t, L, R, lr, rr, base, i, j), nxt)), what + ': exactly the next (outer, inner) pair is produced, inner run started once per outer tuple')
    E.oblige(s, z3.Implies(live, c == L.C(s, i) * R.C(s, j)), what + ': the multiplicity is the product')


def u_nlj_first(E):
    E.auto_linear = 'lite'
    st = State()
    L, R, t, lr, rr = setup_nlj(E, st)
    base = R.run(st) + 1
    st.assume(L.okc(st, BV(0)))
    E.loop_specs.append(nlj_spec(E, L, R, base, BV(0), t, lr))
    for o in E.run('NestedLoopJoin::first', [Ptr(t, 0)], st):
        nlj_post(E, o, L, R, t, lr, rr, base, None, None, 'first')


def u_nlj_next(E):
    E.auto_linear = 'lite'
    st = State()
    L, R, t, lr, rr = setup_nlj(E, st)
    base, i0, j0 = z3.BitVecs('base i0 j0', 64)
    st.assume(nlj_inv(E, st, t, L, R, lr, rr, base, i0, j0), L.facts(st), R.facts(st))
    E.loop_specs.append(nlj_spec(E, L, R, base, i0 + 1, t, lr))
    for o in E.run('NestedLoopJoin::next', [Ptr(t, 0)], st):
        nlj_post(E, o, L, R, t, lr, rr, base, i0, j0, 'next')


def setup_f(E, st):
    fr, r = reg('filterReg'), reg('out')
    I = Child(E, st, 'input', {'v': (r, 0)}, multi=True)
    n = z3.BitVec('n', 64)
    st.assume(z3.ULT(n, BV(1 << 40)))
    vals = Region('values', arrays=[Arr(0, 8, n)])
    vals.stride = 8
    k = K['NestedLoopFilter_values']
    t = Region('this', size=K['NestedLoopFilter_size'], fields={K['NestedLoopFilter_input']: I.p, K['NestedLoopFilter_filter']: Ptr(fr, 0),
               k: Ptr(vals, 0), k + 8: Ptr(vals, Off(0, ((8, n),))), k + 16: Ptr(vals, Off(0, ((8, n),)))})
    return I, t, fr, r, n, vals


def f_common(E, st, I, t, fr, r, n, vals, base, lo):
    E.auto_linear = 'lite'
    V = z3.Array('values.0', z3.BitVecSort(64), z3.BitVecSort(64)) if False else E.arr_get(st, vals, vals.arrays[0])

    def hook(E, s, c):
        i = c.run(s) - base
        E.oblige(s, z3.And(z3.ULT(i, n), rd(E, s, Ptr(fr, 0)) == z3.Select(V, i)), 'the input is restarted with the filter register set to the next listed value', 'pre')
    E.on_first = {'input': hook}

    def spec(lv):
        s = lv.st
        p = rd(E, s, Ptr(t, K['NestedLoopFilter_pos']))
        return [('pos in range', z3.And(z3.UGE(p, lo), z3.ULE(p, n))), ('runs match the position', I.run(s) == base + p - 1), ('runs match the position (current)', I.run(s) == base + p),
                ('values already tried yield nothing', z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, p)), I.fn(base + x) == 0))]
    E.loop_specs.append(spec)
    return V


def f_inv(E, s, I, t, fr, r, V, n, base, i, j):
    return z3.And(rd(E, s, Ptr(t, K['NestedLoopFilter_pos'])) == i, z3.ULT(i, n), I.run(s) == base + i, I.wf(s), I.live(s), I.pos(s) - 1 == j,
                  rd(E, s, Ptr(fr, 0)) == z3.Select(V, i), rd(E, s, Ptr(r, 0)) == I.V(s, j))


def f_post(E, o, I, t, fr, r, V, n, base, i0, j0, what):
    s = o.st
    s.assume(I.facts(s))
    if not E.cover(s, what):
        return
    c = o.val
    lo = BV(0) if i0 is None else i0 + 1
    i, j = rd(E, s, Ptr(t, K['NestedLoopFilter_pos'])), I.pos(s) - 1
    ended = z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, n)), I.fn(base + x) == 0)
    nxt = z3.And(j == 0, z3.UGE(i, lo), z3.Implies(z3.And(z3.UGE(x, lo), z3.ULT(x, i)), I.fn(base + x) == 0))
    if i0 is not None:
        ended = z3.And(ended, j0 + 1 == I.fn(base + i0))
        nxt = z3.Or(z3.And(i == i0, j == j0 + 1), z3.And(nxt, j0 + 1 == I.fn(base + i0)))
    E.oblige(s, z3.Implies(c == 0, z3.And(ended, i == n)), what + ': the end is reported only when no listed value has another tuple')
    E.oblige(s, z3.Implies(c != 0, z3.And(nxt, c == I.C(s, j), f_inv(E, s, I, t, fr, r, V, n, base, i, j))), what + ': the next tuple of the listed values, in order, is produced')


def u_f_first(E):
    st = State()
    I, t, fr, r, n, vals = setup_f(E, st)
    base = I.run(st) + 1
    V = f_common(E, st, I, t, fr, r, n, vals, base, BV(0))
    for o in E.run('NestedLoopFilter::first', [Ptr(t, 0)], st):
        f_post(E, o, I, t, fr, r, V, n, base, None, None, 'first')


def u_f_next(E):
    st = State()
    I, t, fr, r, n, vals = setup_f(E, st)
    base, i0, j0 = z3.BitVecs('base i0 j0', 64)
    V = f_common(E, st, I, t, fr, r, n, vals, base, i0 + 1)
    st.assume(f_inv(E, st, I, t, fr, r, V, n, base, i0, j0), I.facts(st))
    for o in E.run('NestedLoopFilter::next', [Ptr(t, 0)], st):
        f_post(E, o, I, t, fr, r, V, n, base, i0, j0, 'next')


def u_f_done(E):
    st = State()
    I, t, fr, r, n, vals = setup_f(E, st)
    p = rd(E, st, Ptr(t, K['NestedLoopFilter_pos']))
    st.assume(z3.UGE(p, n))
    for o in E.run('NestedLoopFilter::next', [Ptr(t, 0)], st):
        if E.cover(o.st, 'next after the end'):
            E.oblige(o.st, o.val == 0, 'next after the end reports the end and does not touch the input')


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R04.cpp', wd)
    for g in m.globals:
        if g.startswith('K_'):
            K[g[2:]] = konst(m, g)
    return [('NestedLoopJoin::first', m, u_nlj_first, {}), ('NestedLoopJoin::next', m, u_nlj_next, {}), ('NestedLoopFilter::first', m, u_f_first, {}), ('NestedLoopFilter::next', m, u_f_next, {}), ('NestedLoopFilter::next at the end', m, u_f_done, {})]


NATIVE = [{'src': 'R04.cpp', 'extra': ['$REPO/rdf3x/src/rts/NestedLoopJoin.cpp', '$REPO/rdf3x/src/rts/NestedLoopFilter.cpp', '$REPO/rdf3x/src/rts/Operator.cpp'], 'quick': 40000, 'thorough': 600000}]
FUNCS = ['NestedLoopJoin::first', 'NestedLoopJoin::next', 'NestedLoopFilter::first', 'NestedLoopFilter::next']
TRUSTED = ['Operator interface contract of the inputs (arbitrary finite sequences, a different one on every restart)']
ASSUMPTIONS = ['products of multiplicities do not wrap to 0 modulo 2^64', 'input lengths below 2^40']
BOUNDED = ['NestedLoopFilter constructor (copies and sorts the value list): native oracle only']
