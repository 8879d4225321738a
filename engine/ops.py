"""Interface contract of a query operator: first()/next() enumerate a finite sequence of tuples (count > 0, register
values), 0 marks the end, and next() may only be called after a call that returned a tuple. Children of the operator
under proof are arbitrary instances of this contract; `run` counts first() calls, and every run may yield a different
sequence (n, counts and values are indexed by run)."""
from common import *

B64 = z3.BitVecSort(64)


class Child:
    """regs: {name: (Region, offset)} registers this operator fills in; None -> sequence independent of the run"""

    def __init__(self, E, st, name, regs, multi=False, sorted_by=None, strict=False):
        self.E, self.name, self.regs, self.multi, self.sorted_by, self.extra, self.end = E, name, regs, multi, sorted_by, None, None
        self.r = Region(name, fields={0: Ptr(E.globptr('_ZTV7ChildOp').r, 16)})
        self.p = Ptr(self.r, 0)
        E.children = getattr(E, 'children', {})
        E.children[name] = self
        E.models['vp_op_first'] = m_first
        E.models['vp_op_next'] = m_next
        E.models['vp_op_delete'] = lambda E, st, a, d: None
        s = z3.ArraySort(B64, B64)
        self.fn = z3.Function(name + '.n', B64, B64)
        self.fc = z3.Function(name + '.count', B64, B64, B64)
        self.fv = {k: z3.Function('%s.%s' % (name, k), B64, B64, B64) for k in regs}
        st.setg(name + '.run', z3.BitVec(name + '.run0', 64))
        st.setg(name + '.pos', z3.BitVec(name + '.pos0', 64))
        st.setg(name + '.live', z3.Bool(name + '.live0'))

    def run(self, st):
        return st.g(self.name + '.run') if self.multi else BV(0)

    def pos(self, st):
        return st.g(self.name + '.pos')

    def live(self, st):
        return st.g(self.name + '.live')

    def n(self, st, run=None):
        return self.fn(self.run(st) if run is None else run)

    def C(self, st, i, run=None):
        return self.fc(self.run(st) if run is None else run, i)

    def V(self, st, i, k=None, run=None):
        k = k or list(self.regs)[0]
        return self.fv[k](self.run(st) if run is None else run, i)

    def wf(self, st):
        """well-formedness of the ghost position: after >=1 first()"""
        p, n = self.pos(st), self.n(st)
        return z3.And(z3.ULE(p, n), z3.ULT(n, BV(1 << 40)), z3.Implies(self.live(st), z3.UGE(p, 1)), z3.Implies(z3.Not(self.live(st)), p == n))

    def facts(self, st):
        p = self.pos(st)
        return z3.And(*[self.okc(st, p + k) for k in (-2, -1, 0, 1)])

    def okc(self, st, i):
        """facts about tuple i of the arbitrary sequence (contract of the child)"""
        f = [z3.Implies(z3.ULT(i, self.n(st)), self.C(st, i) != 0), z3.ULT(self.n(st), BV(1 << 40))]
        if self.sorted_by:
            k = self.sorted_by
            f.append(z3.Implies(z3.And(z3.ULT(i, self.n(st)), i != 0), z3.ULE(self.V(st, i - 1, k), self.V(st, i, k))))
            f.append(z3.Implies(z3.ULT(i + 1, self.n(st)), z3.ULE(self.V(st, i, k), self.V(st, i + 1, k))))
        if self.extra:
            f += self.extra(st, i)
        return z3.And(*f)

    def step(self, st):
        E = self.E
        p, n = self.pos(st), self.n(st)
        st.assume(self.okc(st, p))
        ok = z3.ULT(p, n)
        for k, (r, off) in self.regs.items():
            old = rd(E, st, Ptr(r, off))
            left = fresh('garbage', B64)      # what an exhausted input leaves in its registers
            if self.end:
                st.assume(*self.end(k, left))
            E.mute += 1
            E.store(st, Ptr(r, off), z3.If(ok, self.V(st, p, k), left), I64)
            E.mute -= 1
        c = z3.If(ok, self.C(st, p), BV(0))
        st.setg(self.name + '.pos', z3.If(ok, p + 1, p))
        st.setg(self.name + '.live', ok)
        return c


def child_of(E, p):
    if not isinstance(p, Ptr) or p.r.name not in getattr(E, 'children', {}):
        raise Unsupported('operator call on %r' % (p,))
    return E.children[p.r.name]


def m_first(E, st, args, dem):
    c = child_of(E, args[0])
    if c.multi:
        st.setg(c.name + '.run', st.g(c.name + '.run') + 1)
    hook = getattr(E, 'on_first', {}).get(c.name)
    if hook:
        hook(E, st, c)
    st.setg(c.name + '.pos', BV(0))
    return c.step(st)


def m_next(E, st, args, dem):
    c = child_of(E, args[0])
    E.oblige(st, c.live(st), 'protocol: next() on %s only after a call that produced a tuple' % c.name, 'pre')
    return c.step(st)


def reg(name, val=None):
    return Region(name, size=16, fields={0: val if val is not None else z3.BitVec(name + '.value', 64)})


def cls_consts(m, K, *names):
    for n in names:
        K[n] = konst(m, 'K_' + n)


def konst(m, n):
    return m.globals[n][1][1]


def enums(m, *names):
    return {n: konst(m, 'K_' + n) for n in names}
