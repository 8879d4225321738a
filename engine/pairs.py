"""Interface contract of a pair iterator: a finite strictly sorted sequence of (key, first, second); with the second column
ignored a sequence of groups (key, first) with a count. Children of the iterator under proof are arbitrary instances."""
from common import *

B64 = z3.BitVecSort(64)


def lex(a, b):
    """a < b for tuples of non-negative numbers"""
    r = z3.BoolVal(False)
    for x, y in reversed(list(zip(a, b))):
        r = z3.Or(x < y, z3.And(x == y, r))
    return r


def eq(a, b):
    return z3.And(*[x == y for x, y in zip(a, b)])


class PChild:
    """ghosts: p (index of the next element), c (current element), started, asked (hasNext answered since the last step)"""

    def __init__(self, E, st, name, K, ign, onekey=False):
        self.E, self.name, self.ign, self.onekey = E, name, ign, onekey
        self.r = Region(name, fields={0: Ptr(E.globptr('_ZTV8ChildItr').r, 16), K['pi_key']: z3.BitVec(name + '.key0', 64)})
        self.p = Ptr(self.r, 0)
        self.K = K
        E.pchildren = getattr(E, 'pchildren', {})
        E.pchildren[name] = self
        self.n = z3.BitVec(name + '.n', 64)
        st.assume(z3.ULT(self.n, BV(1 << 40)))
        self.fk, self.fa, self.fb, self.fc = (z3.Function('%s.%s' % (name, x), B64, B64) for x in ('key', 'first', 'second', 'count'))
        self.card, self.est = z3.BitVec(name + '.card', 64), z3.BitVec(name + '.est', 64)
        self.lb = z3.Function(name + '.lb', B64, B64, B64)
        self.hooks = []
        self.abstract, self.fo = False, z3.Function(name + '.rank', B64, B64)
        for g in ('p', 'c'):
            st.setg(name + '.' + g, z3.BitVec('%s.%s0' % (name, g), 64))
        for g in ('started', 'asked', 'ignoring'):
            st.setg(name + '.' + g, z3.Bool('%s.%s0' % (name, g)))
        for f, h in MODELS.items():
            E.models['vp_pi_' + f] = h

    def g(self, st, x):
        return st.g(self.name + '.' + x)

    def set(self, st, **kw):
        for k, v in kw.items():
            st.setg(self.name + '.' + k, v)

    def key(self, i):
        return self.fk(BV(0)) if self.onekey else self.fk(i)

    def T(self, i):
        """element i in the order of the sequence. abstract: its rank among the elements of all sequences (these are
        finite, so ranks exist), tied to the tuples of two current elements when one of them is read"""
        return [self.fo(i)] if self.abstract else self.tup(i)

    def tup(self, i):
        t = [] if self.onekey else [self.fk(i)]
        return t + [self.fa(i)] + ([] if self.ign else [self.fb(i)])

    def facts(self, i):
        f = [x >= 0 for x in [self.key(i), self.fa(i), self.fb(i)] + ([self.fo(i)] if self.abstract else [])]
        if self.ign:
            f += [self.fc(i) > 0, self.fc(i) < BV(1 << 40)]
        f.append(z3.Implies(i != 0, lex(self.T(i - 1), self.T(i))))
        return z3.Implies(z3.ULT(i, self.n), z3.And(*f))

    def wf(self, st):
        p, c, s, a = (self.g(st, x) for x in ('p', 'c', 'started', 'asked'))
        k = rd(self.E, st, Ptr(self.r, self.K['pi_key']))
        return z3.And(z3.ULE(p, self.n), z3.Implies(s, z3.And(z3.ULT(c, self.n), k == self.key(c))), self.g(st, 'ignoring') == z3.BoolVal(bool(self.ign)))

    def touch(self, st, i):
        st.assume(self.facts(i))
        for h in self.hooks:
            h(self.E, st, self, i)


def child(E, p):
    if not isinstance(p, Ptr) or p.r.name not in getattr(E, 'pchildren', {}):
        raise Unsupported('iterator call on %r' % (p,))
    return E.pchildren[p.r.name]


def m_has(E, st, a, dem):
    c = child(E, a[0])
    r = z3.ULT(c.g(st, 'p'), c.n)
    c.set(st, asked=r)
    return r


def m_next(E, st, a, dem):
    c = child(E, a[0])
    E.oblige(st, c.g(st, 'asked'), 'protocol: next() on %s only after hasNext() returned true' % c.name, 'pre')
    p = c.g(st, 'p')
    st.assume(z3.ULT(p, c.n))
    c.set(st, c=p, p=p + 1, started=z3.BoolVal(True), asked=z3.BoolVal(False))
    E.mute += 1
    E.store(st, Ptr(c.r, c.K['pi_key']), c.key(p), I64)
    E.mute -= 1
    c.touch(st, p)


def m_val(which):
    def f(E, st, a, dem):
        c = child(E, a[0])
        f = c.fa if which == 1 else c.fb
        for d in E.pchildren.values():
            if c.abstract and d is not c:
                i, j = c.g(st, 'c'), d.g(st, 'c')
                st.assume(z3.Implies(z3.And(z3.ULT(i, c.n), z3.ULT(j, d.n)), z3.And(lex(c.tup(i), d.tup(j)) == lex(c.T(i), d.T(j)), eq(c.tup(i), d.tup(j)) == eq(c.T(i), d.T(j)))))
        if which == 2 and c.ign:
            return fresh(c.name + '.second', B64)
        return z3.If(c.g(st, 'started'), f(c.g(st, 'c')), z3.BitVec('%s.unread%d' % (c.name, which), 64))
    return f


def m_count(E, st, a, dem):
    c = child(E, a[0])
    g = fresh(c.name + '.count', B64)
    return z3.If(z3.And(c.g(st, 'ignoring'), c.g(st, 'started')), c.fc(c.g(st, 'c')), g)


def m_ignore(E, st, a, dem):
    child(E, a[0]).set(st, ignoring=z3.BoolVal(True))


def m_moveto(E, st, a, dem):
    c = child(E, a[0])
    E.oblige(st, c.g(st, 'started'), 'protocol: moveto() on %s only after next()' % c.name, 'pre')
    if not c.onekey:
        raise Unsupported('moveto over several keys')
    t2 = BV(0) if c.ign else a[2]
    if c.ign:
        E.oblige(st, a[2] <= 0, 'protocol: moveto() with the second column ignored has no second target', 'pre')
    t = [a[1]] + ([] if c.ign else [a[2]])
    L = c.lb(a[1], t2)
    cur = c.g(st, 'c')
    st.assume(z3.ULE(L, c.n), z3.Implies(z3.ULT(cur, c.n), z3.ULT(cur, L) == lex(c.T(cur), t)))
    st.assume(z3.Implies(z3.ULT(L, c.n), z3.Not(lex(c.T(L), t))))
    p = z3.If(z3.ULE(L, cur), cur, L)
    c.set(st, p=p, asked=z3.BoolVal(False))
    c.touch(st, p)


MODELS = dict(hasNext=m_has, next=m_next, value1=m_val(1), value2=m_val(2), count=m_count, ignore=m_ignore, moveto=m_moveto,
              card=lambda E, st, a, dem: child(E, a[0]).card, est=lambda E, st, a, dem: child(E, a[0]).est)
