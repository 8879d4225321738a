from ops import *

K = {}


def setup(E, st, fresh_op):
    r = reg('out')
    L = Child(E, st, 'input', {'v': (r, 0)})
    limit, offset = z3.BitVecs('limit offset', 64)
    dup = z3.BitVec('dup', 32)
    st.assume(z3.Or(dup == K['Duplicates'], dup == K['NoDuplicates']))
    isdup = dup == K['Duplicates']
    # prefix sums of the expanded input: PS(i) = number of result rows contributed by the first i input tuples
    PS = z3.Function('PS', B64, B64)
    L.extra = lambda st, i: [PS(BV(0)) == 0, z3.Implies(z3.ULT(i, L.n(st)), z3.And(PS(i + 1) == PS(i) + z3.If(isdup, L.C(st, i), BV(1)), z3.ULE(PS(i + 1), PS(L.n(st))), z3.ULT(PS(i), PS(i + 1)))),
                             z3.ULT(PS(L.n(st)), BV(1 << 62)), z3.ULE(PS(i), BV(1 << 62))]
    f = {0: Ptr(E.globptr('_ZTV9DuplLimit').r, 16), K['input']: L.p, K['duplicateHandling']: dup, K['limit']: limit, K['offset']: offset}
    if fresh_op:
        f[K['observedOutputCardinality']] = BV(0)
        f[K['currentCount']] = BV(0)
    t = Region('this', size=K['size'], fields=f)
    return L, r, t, limit, offset, isdup, PS


def fld(E, st, t, n):
    return rd(E, st, Ptr(t, K[n]))


def unit_of(E, st, t, L, PS):
    return PS(L.pos(st) - 1) + fld(E, st, t, 'currentCount') - 1


def inv(E, st, t, L, PS, isdup, u, r):
    cc, ec = fld(E, st, t, 'currentCount'), fld(E, st, t, 'entryCount')
    return z3.And(L.wf(st), L.live(st), ec == L.C(st, L.pos(st) - 1), z3.UGE(cc, 1), z3.ULE(cc, ec), z3.Implies(z3.Not(isdup), cc == 1), u == unit_of(E, st, t, L, PS),
                  rd(E, st, Ptr(r, 0)) == L.V(st, L.pos(st) - 1))


def unchanged(E, st, t, st0, names, what):
    for n in names:
        E.oblige(st, fld(E, st, t, n) == fld(E, st0, t, n), what + ': %s is not modified' % n, 'frame')


def u_first(E):
    E.auto_linear = 'lite'
    st = State()
    L, r, t, limit, offset, isdup, PS = setup(E, st, True)
    st.assume(L.facts(st), L.okc(st, BV(0)))
    st0 = st.copy()

    def spec(lv):
        s = lv.st
        s.assume(L.facts(s))
        out = [('position well-formed %d' % i, c) for i, c in enumerate(inv(E, s, t, L, PS, isdup, unit_of(E, s, t, L, PS), r).children())] + [('nothing emitted yet', fld(E, s, t, 'observedOutputCardinality') == 0)]
        for l, v, _ in lv.ints:
            if v.size() == 64:
                out.append(('remaining offset is %s' % l, v + unit_of(E, s, t, L, PS) == offset))
                out.append(('%s <= offset' % l, z3.ULE(v, offset)))
        return out
    E.loop_specs.append(spec)
    E.anchors.append(lambda s: [('offset', offset)])
    for o in E.run('DuplLimit::first', [Ptr(t, 0)], st):
        s = o.st
        s.assume(L.facts(s))
        if not E.cover(s, 'first'):
            continue
        c = o.val
        E.oblige(s, z3.Implies(c == 0, z3.Or(limit == 0, z3.UGE(offset, PS(L.n(s))))), 'first: no result only if the limit is zero or the offset is past the end')
        E.oblige(s, z3.Implies(c != 0, z3.And(c == 1, limit != 0, z3.ULT(offset, PS(L.n(s))), inv(E, s, t, L, PS, isdup, offset, r), fld(E, s, t, 'observedOutputCardinality') == 1)), 'first: the first row produced is row number `offset` of the expanded input')
        unchanged(E, s, t, st0, ('limit', 'offset'), 'first')


def u_next(E):
    st = State()
    L, r, t, limit, offset, isdup, PS = setup(E, st, False)
    u = z3.BitVec('u', 64)
    obs = fld(E, st, t, 'observedOutputCardinality')
    st.assume(L.facts(st), inv(E, st, t, L, PS, isdup, u, r), obs == u - offset + 1, z3.ULE(obs, limit), z3.UGE(obs, 1))
    st0 = st.copy()
    for o in E.run('DuplLimit::next', [Ptr(t, 0)], st):
        s = o.st
        s.assume(L.facts(s))
        if not E.cover(s, 'next'):
            continue
        c = o.val
        E.oblige(s, z3.Implies(c == 0, z3.Or(obs == limit, u + 1 == PS(L.n(s)))), 'next: the end is reported only at the limit or after the last row')
        E.oblige(s, z3.Implies(c != 0, z3.And(c == 1, z3.ULT(obs, limit), inv(E, s, t, L, PS, isdup, u + 1, r), fld(E, s, t, 'observedOutputCardinality') == obs + 1)), 'next: the next row of the expanded input is produced, within the limit')
        unchanged(E, s, t, st0, ('limit', 'offset'), 'next')


def u_ctor(E):
    st = State()
    vec = Region('outputArgs', size=24, fields={0: NULL, 8: NULL, 16: NULL})
    L, r, t0, limit, offset, isdup, PS = setup(E, st, False)
    t = Region('this', size=K['size'])
    d = z3.BitVec('dupArg', 32)
    E.models['std::vector<Register*, std::allocator<Register*> >::vector'] = lambda E, st, a, dem: None
    for o in E.run(ctor(E, 'DuplLimit'), [Ptr(t, 0), L.p, Ptr(vec, 0), d, limit, offset], st):
        s = o.st
        E.cover(s, 'ctor')
        if o.kind != 'ret':
            continue
        E.oblige(s, rd(E, s, Ptr(t, K['input']), PTR).r is L.r, 'constructor keeps the input')
        E.oblige(s, z3.And(fld(E, s, t, 'limit') == limit, fld(E, s, t, 'offset') == offset, rd(E, s, Ptr(t, K['duplicateHandling']), I32) == d, fld(E, s, t, 'currentCount') == 0, fld(E, s, t, 'observedOutputCardinality') == 0), 'constructor: limit, offset, mode stored; counters start at zero')


def ctor(E, cls):
    fs = [n for n in E.m.funcs if E.m.dem[n].startswith('%s::%s(' % (cls, cls)) and not E.m.funcs[n].decl]
    if not fs:
        raise Unsupported('no constructor of ' + cls)
    return E.m.funcs[sorted(fs)[0]]


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R03.cpp', wd)
    cls_consts(m, K, 'input', 'duplicateHandling', 'limit', 'offset', 'entryCount', 'currentCount', 'observedOutputCardinality', 'Duplicates', 'NoDuplicates', 'size')
    return [('first', m, u_first, {}), ('next', m, u_next, {}), ('constructor', m, u_ctor, {})]


NATIVE = [{'src': 'R03.cpp', 'extra': ['$REPO/rdf3x/src/rts/DuplLimit.cpp', '$REPO/rdf3x/src/rts/Operator.cpp'], 'quick': 60000, 'thorough': 1000000}]
FUNCS = ['DuplLimit::DuplLimit', 'DuplLimit::first', 'DuplLimit::next']
TRUSTED = ['Operator interface contract of the input (arbitrary finite sequence of tuples with positive counts)', 'copy constructor of std::vector (output list, not used by first/next)']
ASSUMPTIONS = ['the expanded input has fewer than 2^62 rows', 'the operator is evaluated once (first() on a fresh operator), as the result printers do']
