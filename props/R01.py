from common import *

N, W = 128, 64


def dd_region(name, fl):
    r = Region(name, size=1040, arrays=[Arr(fl['filter'], 8, BV(N), init=z3.Array(name + '.filter', z3.BitVecSort(64), z3.BitVecSort(64)))],
               fields={fl['min']: z3.BitVec(name + '.min', 64), fl['max']: z3.BitVec(name + '.max', 64)})
    return r


FL = {'min': 0, 'max': 8, 'filter': 16}


def view(E, st, r):
    mn = rd(E, st, Ptr(r, FL['min'])); mx = rd(E, st, Ptr(r, FL['max']))
    F = E.arr_get(st, r, r.arrays[0])
    return mn, mx, F


def word(x):
    return z3.LShR(x & BV(8191), BV(6))


def bitset(F, x):
    return (z3.Select(F, word(x)) & (BV(1) << (x & BV(63)))) != 0


def member(v, x):
    mn, mx, F = v
    return z3.And(z3.ULE(mn, x), z3.ULE(x, mx), bitset(F, x))


def u_could(E):
    st = State(); r = dd_region('this', FL)
    x = z3.BitVec('value', 64)
    v0 = view(E, st, r)
    for o in E.run('DomainDescription::couldQualify', [Ptr(r, 0), x], st):
        E.cover(o.st, 'couldQualify')
        E.oblige(o.st, E.boolv(o.val) == member(v0, x), 'couldQualify(v) <=> v in range and its filter bit is set')


def u_next(E):
    st = State(); r = dd_region('this', FL)
    val = z3.BitVec('value', 64)
    x = z3.BitVec('x', 64)
    v0 = view(E, st, r)
    mn, mx, F = v0
    start = z3.If(z3.ULT(val, mn), mn, val)

    def spec(lv):
        out = []
        vs = [(l, v) for l, v, _ in lv.ints if v.size() == 64]
        for l, v in vs:
            out.append(('no qualifying x in [value,%s)' % l, z3.Implies(z3.And(z3.ULE(val, x), z3.ULT(x, v)), z3.Not(member(v0, x)))))
            out.append(('words before %s empty' % l, z3.Implies(z3.ULT(word(x), v), z3.Select(F, word(x)) == 0)))
            out.append(('words in (slot,%s) empty' % l, z3.Implies(z3.And(z3.UGT(word(x), word(start)), z3.ULT(word(x), v)), z3.Select(F, word(x)) == 0)))
            for l2, m in vs:
                if l2 != l:
                    out.append(('%s == 1<<(%s&63)' % (l2, l), m == BV(1) << (v & BV(63))))
                    out.append(('bits of filter below %s empty' % l, (z3.Select(F, word(v)) >> 0) == z3.Select(F, word(v))))
                    out.append(('%s in word %s' % (l, l2), word(v) == m))
            out.append(('word(%s) unchanged' % l, word(v) == word(lv_entry(lv, l)) if lv_entry(lv, l) is not None else z3.BoolVal(True)))
            out.append(('word(%s) nonzero above' % l, (z3.Select(F, word(v)) & (BV(-1) << (v & BV(63)))) != 0))
        return out
    E.loop_specs.append(spec)
    E.anchors.append(lambda s: [('128', BV(128)), ('slot', word(start))])
    for o in E.run('DomainDescription::nextCandidate', [Ptr(r, 0), val], st):
        E.cover(o.st, 'nextCandidate')
        res = o.val
        E.oblige(o.st, z3.Implies(z3.And(z3.ULE(val, x), z3.ULT(x, res)), z3.Not(member(v0, x))), 'nextCandidate: no qualifying value is skipped')
        E.oblige(o.st, z3.Or(res == BV(-1), z3.And(z3.ULE(val, res), member(v0, res))), 'nextCandidate: result qualifies and is >= value')


def lv_entry(lv, l):
    for a, v, v0 in lv.ints:
        if a == l:
            return v0




def lockmodel(E, st, args, dem):
    return None


def konst(m, n):
    return m.globals[n][1][1]


def x0():
    return z3.BitVec('x', 64)


def same_frame(E, st, r, v0, name):
    v = view(E, st, r)
    E.oblige(st, z3.And(v[0] == v0[0], v[1] == v0[1]), name + ': bounds unchanged', 'frame')
    E.oblige(st, member(v, x0()) == member(v0, x0()), name + ': members unchanged', 'frame')


def u_sync(E):
    E.models['Mutex::lock'] = E.models['Mutex::unlock'] = lockmodel
    st = State(); a, b = dd_region('this', FL), dd_region('other', FL)
    x = x0()
    va, vb = view(E, st, a), view(E, st, b)
    # abstract loop invariant: words before the scan position are intersected, words from it on are untouched (at the word of the arbitrary x)

    def spec(lv):
        out = []
        A, B = E.arr_get(lv.st, a, a.arrays[0]), E.arr_get(lv.st, b, b.arrays[0])
        w = word(x)
        meet = va[2][w] & vb[2][w]
        for l, v, _ in lv.ints:
            if v.size() != 64:
                v = zx(v) if v.size() < 64 else None
            for nm, M, old in (('this', A, va[2][w]), ('other', B, vb[2][w])):
                out.append(('%s word intersected below %s' % (nm, l), z3.Implies(z3.ULT(w, v), M[w] == meet)))
                out.append(('%s word untouched from %s' % (nm, l), z3.Implies(z3.UGE(w, v), M[w] == old)))
                out.append(('%s word intersected above %s' % (nm, l), z3.Implies(z3.UGE(w, v), M[w] == meet)))
                out.append(('%s word untouched below %s' % (nm, l), z3.Implies(z3.ULT(w, v), M[w] == old)))
        return out
    E.loop_specs.append(spec)
    E.anchors.append(lambda s: [('128', BV(128))])
    for o in E.run('PotentialDomainDescription::sync', [Ptr(a, 0), Ptr(b, 0)], st):
        E.cover(o.st, 'sync')
        E.oblige(o.st, member(view(E, o.st, a), x) == z3.And(member(va, x), member(vb, x)), 'sync: this becomes the intersection')
        E.oblige(o.st, member(view(E, o.st, b), x) == z3.And(member(va, x), member(vb, x)), 'sync: other becomes the intersection')


def u_restrict(E):
    E.models['Mutex::lock'] = E.models['Mutex::unlock'] = lockmodel
    st = State(); a, b = dd_region('this', FL), dd_region('other', FL)
    x = x0()
    va, vb = view(E, st, a), view(E, st, b)

    def spec(lv):
        out = []
        A = E.arr_get(lv.st, a, a.arrays[0])
        w = word(x)
        meet = va[2][w] & vb[2][w]
        for l, v, _ in lv.ints:
            v = zx(v)
            out.append(('word intersected below %s' % l, z3.Implies(z3.ULT(w, v), A[w] == meet)))
            out.append(('word untouched from %s' % l, z3.Implies(z3.UGE(w, v), A[w] == va[2][w])))
            out.append(('word intersected above %s' % l, z3.Implies(z3.UGE(w, v), A[w] == meet)))
            out.append(('word untouched below %s' % l, z3.Implies(z3.ULT(w, v), A[w] == va[2][w])))
        return out
    E.loop_specs.append(spec)
    E.anchors.append(lambda s: [('128', BV(128))])
    for o in E.run('PotentialDomainDescription::restrictTo', [Ptr(a, 0), Ptr(b, 0)], st):
        E.cover(o.st, 'restrictTo')
        E.oblige(o.st, member(view(E, o.st, a), x) == z3.And(member(va, x), member(vb, x)), 'restrictTo: becomes the intersection')
        same_frame(E, o.st, b, vb, 'restrictTo leaves the observed domain alone')


def u_add(E):
    st = State(); a = dd_region('this', FL)
    x, v = x0(), z3.BitVec('value', 64)
    va = view(E, st, a)
    for o in E.run('ObservedDomainDescription::add', [Ptr(a, 0), v], st):
        E.cover(o.st, 'add')
        n = view(E, o.st, a)
        E.oblige(o.st, member(n, v), 'add: the added value qualifies')
        E.oblige(o.st, z3.Implies(member(va, x), member(n, x)), 'add: nothing that qualified is lost')
        E.oblige(o.st, z3.And(n[0] == z3.If(z3.ULT(v, va[0]), v, va[0]), n[1] == z3.If(z3.UGT(v, va[1]), v, va[1])), 'add: the bounds are the tightest')
        E.oblige(o.st, bitset(n[2], x) == z3.Or(bitset(va[2], x), (x & BV(8191)) == (v & BV(8191))), 'add: exactly the bit of the value is set')


def u_ctor(E, which):
    st = State(); a = dd_region('this', FL)
    x = x0()
    f = [n for n in E.m.funcs if E.m.dem[n] == '%s::%s()' % (which, which) and not E.m.funcs[n].decl][0]
    for o in E.run(E.m.funcs[f], [Ptr(a, 0)], st):
        E.cover(o.st, which)
        n = view(E, o.st, a)
        if which.startswith('Pot'):
            E.oblige(o.st, member(n, x), 'a fresh potential domain admits every value')
        else:
            E.oblige(o.st, z3.Not(member(n, x)), 'a fresh observed domain is empty')
            E.oblige(o.st, z3.And(n[0] == BV(-1), n[1] == 0), 'a fresh observed domain has empty bounds')


def u_copy(E, fn):
    st = State(); a, b = dd_region('this', FL), dd_region('src', FL)
    x = x0()
    vb = view(E, st, b)
    for o in E.run(fn, [Ptr(a, 0), Ptr(b, 0)], st):
        E.cover(o.st, fn)
        E.oblige(o.st, member(view(E, o.st, a), x) == member(vb, x), fn + ': same members')
        same_frame(E, o.st, b, vb, fn + ': source')


def units(wd, tier):
    m = compile_ir(VERIF + '/harness/R01.cpp', wd)
    FL.update(min=konst(m, 'K_min'), max=konst(m, 'K_max'), filter=konst(m, 'K_filter'))
    return [('nextCandidate', m, u_next, {}), ('couldQualify', m, u_could, {}), ('sync', m, u_sync, {}), ('restrictTo', m, u_restrict, {}), ('add', m, u_add, {}),
            ('ctor potential', m, u_ctor, {'which': 'PotentialDomainDescription'}), ('ctor observed', m, u_ctor, {'which': 'ObservedDomainDescription'}),
            ('copy', m, u_copy, {'fn': 'vp_copy'}), ('assign', m, u_copy, {'fn': 'vp_assign'})]


NATIVE = [{'src': 'R01.cpp', 'extra': ['$REPO/rdf3x/src/rts/DomainDescription.cpp', '$REPO/rdf3x/src/infra/Mutex.cpp'], 'quick': 6000, 'thorough': 60000}]
FUNCS = ['DomainDescription::couldQualify', 'DomainDescription::nextCandidate', 'DomainDescription copy/assign', 'PotentialDomainDescription::PotentialDomainDescription', 'PotentialDomainDescription::sync', 'PotentialDomainDescription::restrictTo',
         'ObservedDomainDescription::ObservedDomainDescription', 'ObservedDomainDescription::add']
TRUSTED = ['Mutex::lock/unlock (mutual exclusion; modelled as no effect on the data)']
ASSUMPTIONS = ['sync: the two domains are distinct objects', 'the contracts are single-threaded; the striped lock is not analysed']
BOUNDED = ['termination of the scans is only exercised natively']
