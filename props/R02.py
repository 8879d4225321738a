from ops import *

K = {}


def setup(E, st):
    lr, rr, res = reg('leftReg'), reg('rightReg'), reg('result')
    L = Child(E, st, 'left', {'v': (lr, 0)}, sorted_by='v')
    R = Child(E, st, 'right', {'v': (rr, 0)}, sorted_by='v')
    t = Region('this', size=K['size'], fields={K['left']: L.p, K['right']: R.p, K['leftReg']: Ptr(lr, 0), K['rightReg']: Ptr(rr, 0), K['result']: Ptr(res, 0)})
    return L, R, t, res


def fld(E, st, t, n, ty=I64):
    return rd(E, st, Ptr(t, K[n]), ty)


def inv(E, st, t, L, R, el, er, prev):
    """representation invariant: el/er tuples of the inputs have been emitted, the last value emitted is prev"""
    s = fld(E, st, t, 'state', I32)
    lv, rv, lc, rc = [fld(E, st, t, n) for n in ('leftValue', 'rightValue', 'leftCount', 'rightCount')]
    pl, pr, nl, nr = L.pos(st), R.pos(st), L.n(st), R.n(st)

    def at(n, *c):
        return z3.Implies(s == BV(K[n], 32), z3.And(*c))
    pendR = [er == pr - 1, rv == R.V(st, er), rc == R.C(st, er), z3.ULT(er, nr), R.live(st), z3.ULE(prev, R.V(st, er))]
    pendL = [el == pl - 1, lv == L.V(st, el), lc == L.C(st, el), z3.ULT(el, nl), L.live(st), z3.ULE(prev, L.V(st, el))]
    lastL = [el == pl, L.live(st), prev == L.V(st, pl - 1)]
    lastR = [er == pr, R.live(st), prev == R.V(st, pr - 1)]
    return z3.And(z3.Or(*[s == BV(K[n], 32) for n in ('done', 'stepLeft', 'stepRight', 'stepBoth', 'leftEmpty', 'rightEmpty')]),
                  L.wf(st), R.wf(st), z3.ULE(el, nl), z3.ULE(er, nr),
                  at('done', el == nl, er == nr),
                  at('stepLeft', *(lastL + pendR)), at('stepRight', *(lastR + pendL)), at('stepBoth', *(lastL + lastR)),
                  at('leftEmpty', el == nl, *lastR), at('rightEmpty', er == nr, *lastL))


def step_post(E, o, t, L, R, res, el, er, prev, what):
    """the outcome is one step of the sorted merge and the invariant holds for the new ghost position"""
    st = o.st
    nl, nr = L.n(st), R.n(st)
    cnt, val = o.val, rd(E, st, Ptr(res, 0))
    st.assume(L.okc(st, el), R.okc(st, er), L.facts(st), R.facts(st))
    al, ar = z3.ULT(el, nl), z3.ULT(er, nr)
    VL, VR, CL, CR = L.V(st, el), R.V(st, er), L.C(st, el), R.C(st, er)
    E.oblige(st, z3.Implies(cnt == 0, z3.And(el == nl, er == nr)), what + ': the end is reported only when both inputs are exhausted')
    E.oblige(st, z3.Implies(cnt != 0, z3.Or(z3.And(al, val == VL, cnt == CL), z3.And(ar, val == VR, cnt == CR), z3.And(al, ar, VL == VR, val == VL, cnt == CL + CR))), what + ': the tuple produced is the next unread tuple of an input (or the sum of two equal ones)')
    ch = []
    for dl, dr in ((1, 0), (0, 1), (1, 1)):
        c = [inv(E, st, t, L, R, el + dl, er + dr, val)]
        if dl:
            c += [al, val == VL]
        if dr:
            c += [ar, val == VR]
        c.append(cnt == (CL if dl else BV(0)) + (CR if dr else BV(0)))
        ch.append(z3.And(*c))
    E.oblige(st, z3.Implies(cnt != 0, z3.Or(*ch)), what + ': every input tuple is accounted for exactly once and the output stays sorted')
    if prev is not None:
        E.oblige(st, z3.Implies(cnt != 0, z3.ULE(prev, val)), what + ': output values do not decrease')
    E.oblige(st, z3.Implies(cnt == 0, inv(E, st, t, L, R, el, er, BV(0) if prev is None else prev)), what + ': the exhausted state is stable')


def no_overflow(L, R, st):
    # the sum of two counts is a count, i.e. not zero modulo 2^64
    return None


def u_first(E):
    st = State()
    L, R, t, res = setup(E, st)
    st.assume(z3.ULT(L.n(st), BV(1 << 40)), z3.ULT(R.n(st), BV(1 << 40)))
    st.assume(small(L), small(R))
    for o in E.run('MergeUnion::first', [Ptr(t, 0)], st):
        E.cover(o.st, 'first')
        step_post(E, o, t, L, R, res, BV(0), BV(0), None, 'first')


def small(c):
    """counts stay below 2^63, so a sum of two is a count"""
    i, r = z3.BitVecs('i r', 64)
    return z3.ForAll([r, i], z3.ULT(c.fc(r, i), BV(1 << 63)))


def u_next(E):
    st = State()
    L, R, t, res = setup(E, st)
    el, er, prev = z3.BitVecs('el er prev', 64)
    st.assume(inv(E, st, t, L, R, el, er, prev), small(L), small(R), L.facts(st), R.facts(st))
    for o in E.run('MergeUnion::next', [Ptr(t, 0)], st):
        if not E.cover(o.st, 'next'):
            continue
        step_post(E, o, t, L, R, res, el, er, prev, 'next')


def u_ctor(E):
    st = State()
    L, R, _, res = setup(E, st)
    lr, rr = L.regs['v'][0], R.regs['v'][0]
    t = Region('this', size=K['size'])
    for o in E.run('vp_make', [Ptr(t, 0), Ptr(res, 0), L.p, Ptr(lr, 0), R.p, Ptr(rr, 0)], st):
        E.cover(o.st, 'ctor')
        for n, r in (('left', L.r), ('right', R.r), ('leftReg', lr), ('rightReg', rr), ('result', res)):
            E.oblige(o.st, fld(E, o.st, t, n, PTR).r is r, 'constructor stores ' + n)


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R02.cpp', wd)
    for n in ('left', 'right', 'leftReg', 'rightReg', 'result', 'leftValue', 'rightValue', 'leftCount', 'rightCount', 'state', 'done', 'stepLeft', 'stepRight', 'stepBoth', 'leftEmpty', 'rightEmpty', 'size'):
        K[n] = konst(m, 'K_' + n)
    return [('first', m, u_first, {}), ('next', m, u_next, {}), ('constructor', m, u_ctor, {})]


NATIVE = [{'src': 'R02.cpp', 'extra': ['$REPO/rdf3x/src/rts/MergeUnion.cpp', '$REPO/rdf3x/src/rts/Operator.cpp'] , 'quick': 60000, 'thorough': 1000000}]
FUNCS = ['MergeUnion::MergeUnion', 'MergeUnion::first', 'MergeUnion::next']
TRUSTED = ['Operator interface contract of the two inputs (arbitrary finite sorted sequences); each operator class is checked against it where it is under contract']
ASSUMPTIONS = ['tuple counts of the inputs are below 2^63, input lengths below 2^40', 'inputs are sorted on the union register (the class contract)']
