"""Symbolic execution / verification-condition generation over LLVM IR with contracts.

A function body is executed path by path over z3 terms.  Three things make the result a deductive
proof over all inputs and all iterations rather than a bounded exploration:
  * a call to a function under contract is replaced by the contract (require / havoc frame / assume ensures);
  * a loop is cut at its header: candidate invariants (contract templates instantiated for whatever
    variables the loop has, plus linear templates) are pruned to an inductive subset (Houdini), the
    loop state is havocked, and the body and the continuation are checked from an arbitrary state
    satisfying the invariants;
  * every dereference produces an in-bounds / non-null obligation, shifts and divisions produce UB obligations.
Calls to functions with a body and no contract are inlined (so an extracted helper is still analysed).
"""
import sys, time, itertools
import z3
from ir import Module, Ty, Unsupported, PTR, strip_params

_ctr = itertools.count()


def fresh(name, sort):
    if name[:1].isdigit():
        name = 'b' + name
    return z3.Const('%s!%d' % (name, next(_ctr)), sort)


def BV(n, w=64):
    return z3.BitVecVal(n, w)


def conc(t):
    """concrete value of a term, or None"""
    if isinstance(t, int):
        return t
    t = z3.simplify(t)
    if z3.is_bv_value(t):
        return t.as_long()
    if z3.is_true(t):
        return 1
    if z3.is_false(t):
        return 0
    return None


# ---------------------------------------------------------------- offsets (linear forms)
class Off:
    __slots__ = ('c', 't')

    def __init__(self, c=0, t=()):
        self.c, self.t = c, t  # t: tuple of (coeff, term)

    def __add__(self, o):
        if isinstance(o, int):
            return Off(self.c + o, self.t)
        d = {x.get_id(): [k, x] for k, x in self.t}
        for k, x in o.t:
            if x.get_id() in d:
                d[x.get_id()][0] += k
            else:
                d[x.get_id()] = [k, x]
        return Off(self.c + o.c, tuple((k, x) for k, x in d.values() if k))

    def scale(self, k):
        return Off(self.c * k, tuple((a * k, x) for a, x in self.t))

    def neg(self):
        return self.scale(-1)

    def bv(self):
        r = BV(self.c & (2**64 - 1))
        first = True
        for k, x in self.t:
            y = x if k == 1 else x * BV(k & (2**64 - 1))
            r = y if (first and self.c == 0) else r + y
            first = False
        return r

    def isconst(self):
        return not self.t

    def __repr__(self):
        return '%d%s' % (self.c, ''.join(' + %d*%s' % (k, x) for k, x in self.t))


def linear(t, depth=0):
    """decompose a 64-bit term into an Off"""
    if isinstance(t, int):
        return Off(t)
    if z3.is_bv_value(t):
        v = t.as_long()
        return Off(v - 2**64 if v >= 2**63 else v)
    if depth < 12:
        k = t.decl().kind()
        if k == z3.Z3_OP_BADD:
            r = Off()
            for c in t.children():
                r = r + linear(c, depth + 1)
            return r
        if k == z3.Z3_OP_BSUB:
            a, b = t.children()
            return linear(a, depth + 1) + linear(b, depth + 1).neg()
        if k == z3.Z3_OP_BNEG:
            return linear(t.arg(0), depth + 1).neg()
        if k == z3.Z3_OP_BMUL and t.num_args() == 2:
            a, b = t.children()
            if z3.is_bv_value(b):
                a, b = b, a
            if z3.is_bv_value(a):
                v = a.as_long()
                v = v - 2**64 if v >= 2**63 else v
                return linear(b, depth + 1).scale(v)
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(t.arg(1)) and t.arg(1).as_long() < 32:
            return linear(t.arg(0), depth + 1).scale(1 << t.arg(1).as_long())
    return Off(0, ((1, t),))


# ---------------------------------------------------------------- values
class Ptr:
    __slots__ = ('r', 'o', 'id')

    def __init__(self, r, o=None, id=None):
        self.r, self.o, self.id = r, (Off(o) if isinstance(o, int) else (o or Off())), id

    def add(self, o):
        return Ptr(self.r, self.o + o, self.id)

    def __repr__(self):
        return '&%s%s+%r' % (self.r.name, '' if self.id is None else '[%s]' % self.id, self.o)


class PtrInt:  # result of ptrtoint
    def __init__(self, p):
        self.p = p


class CondPtr:
    """pointer that is one of several alternatives: list of (cond, Ptr)"""
    def __init__(self, alts):
        self.alts = alts


class Fn:
    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'fn ' + self.name


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Agg:
    def __init__(self, els):
        self.els = list(els)


class FP:
    """opaque floating point value"""
    def __init__(self, t):
        self.t = t


# ---------------------------------------------------------------- regions
class Arr:
    """array part of a region: elements of `es` bytes from byte offset lo; `n` = number of elements (term) or None.
    kind 'int', or ('ptr', resolver) where resolver(engine,state,id_term)->Ptr ; or 'cell' struct arrays (see fields)"""
    def __init__(self, lo, es, n=None, kind='int', init=None, stride=None):
        self.lo, self.es, self.n, self.kind, self.init = lo, es, n, kind, init
        self.stride = stride or es   # distance between consecutive elements (struct-of fields arrays)


class Region:
    def __init__(self, name, size=None, arrays=(), fields=None, family=False, bytes_n=None, const=False, extern=False):
        self.name, self.size, self.arrays, self.family = name, size, list(arrays), family
        self.fields = fields or {}     # const offset -> initial value (z3 term / Ptr / callable)
        self.ptrfields = {}            # family: offset -> resolver(engine,state,id)->Ptr
        self.bytes_n = bytes_n
        if bytes_n is not None:
            self.arrays = [Arr(0, 1, bytes_n)]
        self.const = const
        self.birth = next(_ctr)
        self.extern = extern
        self.stride = None
        self.isnull = False
        self.uf = None
        self.nullable = {}             # const offset -> family: a null pointer stored there is kept as id 0 of the family
        self.on_read = None            # hook(engine, state, arr, idx): definitional facts about the element read

    def __repr__(self):
        return self.name


NULLR = Region('null', size=0)
NULLR.isnull = True
NULL = Ptr(NULLR, 0)
GHOST = Region('ghost')


class State:
    __slots__ = ('mem', 'pc', 'env', 'writes', 'freed', 'unroll', 'trace', 'notes')

    def __init__(self):
        self.mem, self.pc, self.env, self.writes, self.freed, self.unroll, self.trace = {}, [], {}, set(), frozenset(), {}, ()
        self.notes = {}

    def copy(self):
        s = State()
        s.mem = {r: dict(m) for r, m in self.mem.items()}
        s.pc = list(self.pc)
        s.env = dict(self.env)
        s.writes = set(self.writes)
        s.freed = self.freed
        s.unroll = dict(self.unroll)
        s.trace = self.trace
        s.notes = dict(self.notes)
        return s

    # ghost variables
    def g(self, name):
        return self.mem[GHOST][('g', name)]

    def setg(self, name, v):
        self.mem.setdefault(GHOST, {})[('g', name)] = v
        self.writes.add((GHOST, ('g', name)))

    def assume(self, *cs):
        have = None
        for c in cs:
            if c is True:
                continue
            if have is None:
                have = {f.get_id() for f in self.pc}
            if c.get_id() not in have:
                have.add(c.get_id())
                self.pc.append(c)


class Outcome:
    def __init__(self, st, kind, val=None):
        self.st, self.kind, self.val = st, kind, val


class Obligation:
    def __init__(self, name, status, backend, t, detail=None, where=None):
        self.name, self.status, self.backend, self.t, self.detail, self.where = name, status, backend, t, detail, where


def has_quant(e, cache={}):
    st = [e]
    seen = set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


_fs_cache = {}


def free_syms(e):
    k = e.get_id()
    if k in _fs_cache:
        return _fs_cache[k][1]
    out, st, seen = set(), [e], set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.add(x.decl().name())
        elif z3.is_quantifier(x):
            st.append(x.body())
        st.extend(x.children())
    _fs_cache[k] = (e, frozenset(out))
    return _fs_cache[k][1]


class LoopView:
    pass


class Cut:
    def __init__(self, header, blocks):
        self.header, self.blocks, self.backs, self.exits = header, blocks, [], []


class Ctx:
    def __init__(self, f, outcomes, cut=None, up=None):
        self.f, self.outcomes, self.cut, self.up = f, outcomes, cut, up


class Engine:
    def __init__(self, module, unit='unit', timeout=15000, budget=600):
        self.m = module
        self.unit = unit
        self.models = {}          # demangled name (with or without params) -> callable
        self.obs = []
        self.mute = 0
        self.timeout = timeout
        self.cand_timeout = 3000
        self.use_cvc5 = False          # ask cvc5 too when z3 gives up on a loop invariant candidate
        self.loop_specs = []      # list of fn(lv) -> list of (name, formula)
        self.anchors = []         # list of fn(state) -> list of (name, bv)
        self.unroll = {}          # function demangled prefix -> bound
        self.default_unroll = None
        self.concrete_loops = False
        self.tail_loops = {}
        self.abstract_mul = False
        self.div_hook = None           # fn(st, op, a, b): quotient or remainder by a symbolic divisor through a specification function
        self.inlined = set()
        self.called_contracts = set()
        self.loops_info = []
        self.path_count = 0
        self.t_solver = 0.0
        self.nq = 0
        self.maxdepth = 60
        self.deadline = time.time() + budget
        self.globals_cache = {}
        self.assumptions = set()
        self.check_shift = True
        self.maxpaths = 20000
        self.auto_linear = True
        self.throw_ok = False
        self.cand_log = []
        self.slowest = 0.0
        self.wall_hit = False

    # ------------------------------------------------------------ solver
    def _check(self, fs, timeout):
        if time.time() > self.deadline:
            raise Unsupported('verification time budget exhausted in unit ' + self.unit)
        s = self.solver(timeout)
        t = time.time()
        s.add(*fs)
        r = s.check()
        self.note(r, time.time() - t, timeout)
        return r, s

    RL = 2500     # z3 resource units per 'millisecond' of nominal budget: verdicts do not depend on machine speed

    def solver(self, ms, logic=None):
        s = z3.Solver() if logic is None else z3.SolverFor(logic)
        s.set('rlimit', ms * self.RL)
        s.set('timeout', ms * 10)
        return s

    def note(self, r, dt, ms):
        self.t_solver += dt
        self.nq += 1
        self.slowest = max(self.slowest, dt)
        if r == z3.unknown and dt >= ms * 10 / 1000.0 * 0.98:
            self.wall_hit = True

    def feasible(self, st, extra=None):
        fs = [c for c in st.pc if not has_quant(c)]
        if extra is not None:
            e = z3.simplify(extra)
            if z3.is_false(e):
                return False
            if z3.is_true(e):
                return True
            fs = fs + [e]
        r, _ = self._check(fs, 2000)
        return r != z3.unsat

    def entails(self, st, goal, timeout=None):
        g = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            return z3.unsat, None
        r, s = self._check(st.pc + [z3.Not(g)], timeout or self.timeout)
        return r, s

    def discharge(self, st, goal):
        """returns (ok, status, backend, secs, model-text)"""
        t0 = time.time()
        g = z3.simplify(goal) if not has_quant(goal) else goal
        if z3.is_true(g):
            return True, 'proved', 'simplifier', time.time() - t0, None
        fs = st.pc + [z3.Not(g)]
        quant = any(has_quant(f) for f in fs)
        if self.use_cvc5 and not quant:
            r, s = self._check(fs, self.cand_timeout)
            if r == z3.unknown and self._cvc5(s, 20000) == 'unsat':
                return True, 'proved', 'cvc5', time.time() - t0, None
        else:
            r = z3.unknown
        if r == z3.unknown:
            r, s = self._check(fs, self.timeout if quant else self.timeout * 2)
        if r == z3.unsat:
            return True, 'proved', 'z3', time.time() - t0, None
        if r == z3.sat:
            return False, 'refuted', 'z3', time.time() - t0, self.model_text(s)
        if not quant:
            s2 = self.solver(self.timeout * 2, 'QF_ABV')
            s2.add(*fs)
            t = time.time()
            r = s2.check()
            self.note(r, time.time() - t, self.timeout * 2)
            if r == z3.unsat:
                return True, 'proved', 'z3-qfabv', time.time() - t0, None
            if r == z3.sat:
                return False, 'refuted', 'z3-qfabv', time.time() - t0, self.model_text(s2)
        else:
            for opts in ({'smt.mbqi': False}, {'smt.random_seed': 7, 'smt.relevancy': 0}):
                s2 = self.solver(self.timeout)
                for k, v in opts.items():
                    s2.set(k, v)
                s2.add(*fs)
                t = time.time()
                r = s2.check()
                self.note(r, time.time() - t, self.timeout)
                if r == z3.unsat:
                    return True, 'proved', 'z3(%s)' % ','.join(opts), time.time() - t0, None
                if r == z3.sat:
                    return False, 'refuted', 'z3', time.time() - t0, self.model_text(s2)
            r = self._cvc5(s2)
            if r == 'unsat':
                return True, 'proved', 'cvc5', time.time() - t0, None
        return False, 'unknown', 'z3', time.time() - t0, None

    def _cvc5(self, s, ms=None):
        ms = ms or self.timeout
        import subprocess, tempfile, os
        try:
            txt = '(set-logic ALL)\n' + s.to_smt2()
            if '(lambda' in txt:
                return 'unknown'
            with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
                f.write(txt)
            p = subprocess.run(['cvc5', '--tlimit=%d' % ms, f.name], capture_output=True, text=True, timeout=ms / 1000 + 10)
            os.unlink(f.name)
            return p.stdout.strip().split('\n')[0]
        except Exception:
            return 'unknown'

    def model_text(self, s):
        try:
            m = s.model()
            out = []
            for d in m.decls()[:60]:
                out.append('%s = %s' % (d.name(), str(m[d])[:200].replace('\n', ' ')))
            return out
        except Exception as e:
            return ['<no model: %s>' % e]

    def oblige(self, st, goal, name, kind='post'):
        """record and discharge an obligation; the goal is then assumed on this path"""
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        if not self.mute:
            ok, status, be, t, det = self.discharge(st, goal)
            self.obs.append(Obligation(name, status, be, t, det, kind))
        st.assume(goal)

    def oblige_all(self, st, named, prefix='', kind='post', timeout=6000):
        """obligations of one state, tried as one query first (all of them hold iff the conjunction does)"""
        named = list(named)
        if not self.mute:
            rest = []
            for n, g in named:
                s = z3.simplify(g)
                if z3.is_true(s):
                    self.obs.append(Obligation(prefix + n, 'proved', 'simplifier', 0, None, kind))
                else:
                    rest.append((n, g, s))
            if len(rest) > 1:
                t0 = time.time()
                r, _ = self._check(st.pc + [z3.Or(*[z3.Not(s) for _, _, s in rest])], timeout)
                if r == z3.unsat:
                    for n, g, s in rest:
                        self.obs.append(Obligation(prefix + n, 'proved', 'z3', (time.time() - t0) / len(rest), None, kind))
                    rest = []
            for n, g, s in rest:
                self.oblige(st, g, prefix + n, kind)
        st.assume(*[g for _, g in named])

    def cover(self, st, name):
        """vacuity guard: the path must not be contradictory"""
        r, s = self._check(st.pc, 5000)
        self.obs.append(Obligation('cover:' + name, 'refuted' if r == z3.unsat else 'reachable', 'z3', 0, None, 'cover'))
        return r != z3.unsat

    # ------------------------------------------------------------ memory
    def rmem(self, st, r):
        m = st.mem.get(r)
        if m is None:
            m = st.mem[r] = {}
        return m

    def find_arr(self, r, off, esz):
        if off.isconst():
            for a in r.arrays:
                if off.c >= a.lo and a.n is not None and (conc(a.n) is not None) and off.c < a.lo + conc(a.n) * a.stride:
                    if (off.c - a.lo) % a.stride + esz <= a.es or a.es == 1 or a.stride == a.es:
                        return a
                elif off.c >= a.lo and (a.n is None or conc(a.n) is None):
                    if a.stride == a.es or (off.c - a.lo) % a.stride == 0:
                        return a
            return None
        # symbolic: arrays whose stride divides every coefficient and residue matches
        c = [a for a in r.arrays if all(k % a.stride == 0 for k, _ in off.t) and ((off.c - a.lo) % a.stride == 0 or a.es == a.stride)]
        if len(c) > 1:
            c2 = [a for a in c if (off.c - a.lo) % a.stride == 0 and off.c >= a.lo]
            if len(c2) >= 1:
                # nearest below
                c = [max(c2, key=lambda a: a.lo)] if len({a.lo for a in c2}) == len(c2) else c2
        if not c and len(r.arrays) == 1 and r.arrays[0].es == 1:
            c = r.arrays
        if len(c) == 1:
            return c[0]
        if not c:
            return None
        raise Unsupported('ambiguous symbolic offset %r into %s' % (off, r))

    def idx_of(self, a, off):
        o = off + (-a.lo)
        if any(k % a.stride for k, _ in o.t) or o.c % a.stride:
            return None
        return Off(o.c // a.stride, tuple((k // a.stride, x) for k, x in o.t)).bv()

    def arr_get(self, st, r, a):
        m = self.rmem(st, r)
        k = ('a', a.lo)
        if k not in m:
            if a.init is not None:
                m[k] = a.init
            else:
                w = 64 if isinstance(a.kind, tuple) else a.es * 8
                m[k] = z3.Array('%s.arr%d' % (r.name, a.lo), z3.BitVecSort(64), z3.BitVecSort(w))
        return m[k]

    def arr_set(self, st, r, a, v):
        self.rmem(st, r)[('a', a.lo)] = v
        st.writes.add((r, ('a', a.lo)))

    def access_check(self, st, p, size, what):
        r = p.r
        if r.isnull:
            self.oblige(st, z3.BoolVal(False), 'safety: null dereference (%s)' % what, 'safety')
            return False
        if r in st.freed:
            self.oblige(st, z3.BoolVal(False), 'safety: use after free of %s (%s)' % (r, what), 'safety')
        if r.family:
            self.oblige(st, p.id != 0, 'safety: non-null %s (%s)' % (r, what), 'safety')
        if r.size is not None and p.o.isconst():
            if p.o.c < 0 or p.o.c + size > r.size:
                self.oblige(st, z3.BoolVal(False), 'safety: in-bounds %s+%d size %d (%s)' % (r, p.o.c, size, what), 'safety')
        return True

    def load(self, st, p, ty, what='load'):
        m = self.m
        t = m.resolve(ty)
        if t.k == 'struct':
            offs, _ = m.layout(t)
            return Agg([self.load(st, p.add(o), e, what) for o, e in zip(offs, t.elems)])
        if t.k in ('array', 'vector'):
            es = m.size(t.elems)
            return Agg([self.load(st, p.add(es * i), t.elems, what) for i in range(t.n)])
        size = m.size(t)
        isptr = t.k == 'ptr'
        w = 64 if isptr else t.w
        v = self.load_raw(st, p, size, isptr, what)
        if isinstance(v, (Ptr, CondPtr, Fn)):
            if isptr:
                return v
            if isinstance(v, Ptr) and v.r.isnull and v.o.isconst():
                return BV(v.o.c, 64)
            return PtrInt(v)
        if isptr:
            if isinstance(v, PtrInt):
                return v.p
            if isinstance(v, Undef):
                return v
            if z3.is_bv(v):
                c = conc(v)
                if c == 0:
                    return NULL
                if p.r.extern or isinstance(v, z3.BitVecRef):
                    # opaque pointer: give it a family so that it can be compared / passed on
                    return Ptr(OPAQUE, Off(), v)
            raise Unsupported('pointer load of %r at %r' % (v, p))
        if t.k == 'fp':
            return v if isinstance(v, FP) else FP(v)
        if isinstance(v, FP):
            v = v.t
        if isinstance(v, PtrInt):
            return v
        if isinstance(v, Undef):
            return v
        if w == 1:
            return z3.Extract(0, 0, v) == 1 if v.size() > 1 else v == 1
        if v.size() > w:
            return z3.Extract(w - 1, 0, v)
        return v

    def load_raw(self, st, p, size, isptr, what):
        if isinstance(p, CondPtr):
            raise Unsupported('load through conditional pointer')
        if not isinstance(p, Ptr):
            raise Unsupported('load through non-pointer %r' % (p,))
        r = p.r
        if not self.access_check(st, p, size, what):
            return fresh('nullread', z3.BitVecSort(size * 8))
        mem = self.rmem(st, r)
        if r.family:
            return self.fam_load(st, p, size, isptr)
        a = self.find_arr(r, p.o, size)
        if a is not None:
            idx = self.idx_of(a, p.o)
            A = self.arr_get(st, r, a)
            if r.on_read is not None and idx is not None:
                r.on_read(self, st, a, idx)
            if idx is not None and (size == a.es or (isptr and isinstance(a.kind, tuple))):
                if a.n is not None:
                    self.oblige(st, z3.ULT(idx, a.n), 'safety: %s index in bounds (%s)' % (r, what), 'safety')
                v = r.uf[a.lo](idx) if r.uf else z3.Select(A, idx)   # read-only content may be an uninterpreted function
                if isinstance(a.kind, tuple) and a.kind[0] == 'ptr':
                    return a.kind[1](self, st, v)
                return v
            if a.es == 1 and size > 1:
                idx = self.idx_of(a, p.o)
                if a.n is not None:
                    self.oblige(st, z3.And(z3.ULT(idx, a.n), z3.ULE(BV(size), a.n - idx)), 'safety: %s bytes in bounds (%s)' % (r, what), 'safety')
                return z3.Concat(*[z3.Select(A, idx + BV(i)) for i in reversed(range(size))])
            if idx is not None and a.es > size and not isinstance(a.kind, tuple):
                if a.n is not None:
                    self.oblige(st, z3.ULT(idx, a.n), 'safety: %s index in bounds (%s)' % (r, what), 'safety')
                return z3.Extract(size * 8 - 1, 0, z3.Select(A, idx))
            if p.o.isconst() and a.es > size:
                q, rem = divmod(p.o.c - a.lo, a.es)
                return z3.Extract((rem + size) * 8 - 1, rem * 8, z3.Select(A, BV(q)))
            raise Unsupported('array access mismatch %r size %d in %s' % (p, size, r))
        if not p.o.isconst():
            if r.size is not None and not r.arrays and not r.fields:
                # symbolic access into a plain buffer (alloca): turn it into a byte array
                self.to_bytes(st, r)
                return self.load_raw(st, p, size, isptr, what)
            raise Unsupported('symbolic offset %r into %s' % (p.o, r))
        return self.cell_load(st, r, p.o.c, size, isptr)

    def to_bytes(self, st, r):
        mem = self.rmem(st, r)
        a = Arr(0, 1, BV(r.size))
        A = z3.Array('%s.bytes' % r.name, z3.BitVecSort(64), z3.BitVecSort(8))
        for k in sorted([k for k in mem if k[0] == 'c'], key=lambda k: k[1]):
            sz, v = mem[k]
            if not z3.is_bv(v):
                raise Unsupported('pointer cell in byte buffer %s' % r)
            for i in range(sz):
                A = z3.Store(A, BV(k[1] + i), z3.Extract(i * 8 + 7, i * 8, v))
            del mem[k]
        r.arrays = [a]
        a.init = None
        mem[('a', 0)] = A

    def cell_load(self, st, r, off, size, isptr):
        mem = self.rmem(st, r)
        k = ('c', off)
        if k in mem and mem[k][0] == size:
            v = mem[k][1]
            return v
        if k in mem and mem[k][0] > size and z3.is_bv(mem[k][1]):
            return z3.Extract(size * 8 - 1, 0, mem[k][1])
        # overlapping cells?
        over = [(kk[1], mem[kk]) for kk in mem if kk[0] == 'c' and kk[1] < off + size and kk[1] + mem[kk][0] > off]
        if not over:
            v = self.default(st, r, off, size, isptr)
            mem[k] = (size, v)
            return v
        bs = []
        for i in range(size):
            o = off + i
            b = None
            for co, (cs, cv) in over:
                if co <= o < co + cs:
                    if isinstance(cv, FP):
                        cv = cv.t
                    if isinstance(cv, Undef):
                        cv = fresh('undef', z3.BitVecSort(cs * 8))
                    if not z3.is_bv(cv):
                        raise Unsupported('partial read of pointer cell %s+%d' % (r, off))
                    j = o - co
                    b = z3.Extract(j * 8 + 7, j * 8, cv)
            if b is None:
                b = self.default(st, r, o, 1, False)
                mem[('c', o)] = (1, b)
            bs.append(b)
        return z3.Concat(*reversed(bs)) if len(bs) > 1 else bs[0]

    def default(self, st, r, off, size, isptr):
        if off in r.fields:
            v = r.fields[off]
            if callable(v):
                v = v(self, st)
            if isinstance(v, (Ptr, CondPtr, Fn, PtrInt)):
                return v
            if isinstance(v, int):
                v = BV(v, size * 8)
            if z3.is_bv(v) and v.size() == size * 8:
                return v
            if z3.is_bv(v) and v.size() > size * 8:
                return z3.Extract(size * 8 - 1, 0, v)
            raise Unsupported('field default size mismatch %s+%d' % (r, off))
        # inside a declared wider field?
        for o, v in r.fields.items():
            if z3.is_bv(v) and o < off and off + size <= o + v.size() // 8:
                return z3.Extract((off - o + size) * 8 - 1, (off - o) * 8, v)
        return z3.BitVec('%s.%d.%d' % (r.name, off, size), size * 8)

    def fam_load(self, st, p, size, isptr):
        if not p.o.isconst():
            raise Unsupported('symbolic offset in family ' + p.r.name)
        off = p.o.c
        if p.r.on_read is not None:
            p.r.on_read(self, st, off, p.id)
        if off in p.r.ptrfields:
            res = p.r.ptrfields[off]
            if callable(res):
                A = self.fam_arr(st, p.r, off, 64)
                return res(self, st, z3.Select(A, p.id))
        return z3.Select(self.fam_arr(st, p.r, off, size * 8), p.id)

    def fam_arr(self, st, r, off, w):
        mem = self.rmem(st, r)
        k = ('a', off)
        if k not in mem:
            mem[k] = r.fields[off] if off in r.fields else z3.Array('%s.f%d' % (r.name, off), z3.BitVecSort(64), z3.BitVecSort(w))
        A = mem[k]
        if A.range().size() != w:
            raise Unsupported('family field width %s+%d' % (r, off))
        return A

    def store(self, st, p, v, ty, what='store'):
        m = self.m
        t = m.resolve(ty)
        if isinstance(v, Agg):
            if t.k == 'struct':
                offs, _ = m.layout(t)
                for o, e, x in zip(offs, t.elems, v.els):
                    self.store(st, p.add(o), x, e, what)
            else:
                es = m.size(t.elems)
                for i, x in enumerate(v.els):
                    self.store(st, p.add(es * i), x, t.elems, what)
            return
        size = m.size(t)
        if t.k == 'int' and t.w == 1 and z3.is_bool(v):
            v = z3.If(v, BV(1, 8), BV(0, 8))
        elif t.k == 'int' and t.w < size * 8 and z3.is_bv(v):
            v = z3.ZeroExt(size * 8 - t.w, v)
        if t.k == 'fp' and isinstance(v, FP) and v.t.size() != size * 8:
            v = FP(fresh('fp', z3.BitVecSort(size * 8)))
        if isinstance(v, Undef):
            v = fresh('undef', z3.BitVecSort(size * 8)) if t.k != 'ptr' else v
        if isinstance(v, PtrInt):
            v = v.p
        self.store_raw(st, p, v, size, what)

    def store_raw(self, st, p, v, size, what):
        if isinstance(p, CondPtr) or not isinstance(p, Ptr):
            raise Unsupported('store through %r' % (p,))
        r = p.r
        if not self.access_check(st, p, size, what):
            return
        if r.const:
            self.oblige(st, z3.BoolVal(False), 'frame: write to read-only %s (%s)' % (r, what), 'frame')
        if r.family:
            if not p.o.isconst():
                raise Unsupported('symbolic family store')
            if isinstance(v, Ptr):
                v = v.id if v.id is not None else (BV(0) if v.r.isnull else None)
                if v is None:
                    raise Unsupported('storing region pointer in family field')
            if isinstance(v, FP):
                v = v.t
            A = self.fam_arr(st, r, p.o.c, size * 8)
            self.rmem(st, r)[('a', p.o.c)] = z3.Store(A, p.id, v)
            st.writes.add((r, ('a', p.o.c)))
            return
        a = self.find_arr(r, p.o, size)
        if a is not None:
            idx = self.idx_of(a, p.o)
            A = self.arr_get(st, r, a)
            if idx is not None and (size == a.es or isinstance(a.kind, tuple)):
                if a.n is not None:
                    self.oblige(st, z3.ULT(idx, a.n), 'safety: %s index in bounds (%s)' % (r, what), 'safety')
                if isinstance(a.kind, tuple):
                    if isinstance(v, Ptr):
                        if v.r.isnull:
                            v = BV(0)
                        elif v.id is not None:
                            v = v.id
                        elif len(a.kind) > 2:
                            v = a.kind[2](self, st, v)
                        else:
                            raise Unsupported('storing pointer %r in id array' % v)
                if isinstance(v, FP):
                    v = v.t
                if not z3.is_bv(v):
                    raise Unsupported('storing %r in int array %s' % (v, r))
                self.arr_set(st, r, a, z3.Store(A, idx, v))
                return
            if a.es == 1 and size > 1:
                if isinstance(v, FP):
                    v = v.t
                if not z3.is_bv(v):
                    raise Unsupported('pointer store in byte array')
                if a.n is not None:
                    self.oblige(st, z3.And(z3.ULT(idx, a.n), z3.ULE(BV(size), a.n - idx)), 'safety: %s bytes in bounds (%s)' % (r, what), 'safety')
                for i in range(size):
                    A = z3.Store(A, idx + BV(i), z3.Extract(i * 8 + 7, i * 8, v))
                self.arr_set(st, r, a, A)
                return
            raise Unsupported('array store mismatch %r size %d in %s (elem %d)' % (p, size, r, a.es))
        if not p.o.isconst():
            if r.size is not None and not r.arrays and not r.fields:
                self.to_bytes(st, r)
                return self.store_raw(st, p, v, size, what)
            raise Unsupported('symbolic offset store %r into %s' % (p.o, r))
        self.cell_store(st, r, p.o.c, size, v)

    def cell_store(self, st, r, off, size, v):
        mem = self.rmem(st, r)
        for kk in [kk for kk in mem if kk[0] == 'c' and kk[1] < off + size and kk[1] + mem[kk][0] > off]:
            co, (cs, cv) = kk[1], mem[kk]
            if co >= off and co + cs <= off + size:
                del mem[kk]
                if co != off:
                    st.writes.add((r, kk))
                continue
            if isinstance(cv, FP):
                cv = cv.t
            if isinstance(cv, Undef):
                del mem[kk]
                continue
            if not z3.is_bv(cv):
                raise Unsupported('partial overwrite of pointer cell')
            del mem[kk]
            for i in range(cs):
                o = co + i
                if not (off <= o < off + size):
                    mem[('c', o)] = (1, z3.Extract(i * 8 + 7, i * 8, cv))
                    st.writes.add((r, ('c', o)))
        if off in r.nullable and isinstance(v, Ptr) and v.r.isnull:
            v = Ptr(r.nullable[off], 0, BV(0))
        mem[('c', off)] = (size, v)
        st.writes.add((r, ('c', off)))

    def memcpy(self, st, d, s, n, what='memcpy'):
        n_c = conc(n)
        if n_c == 0:
            return
        if isinstance(d, Ptr) and isinstance(s, Ptr):
            da = None if d.r.family else self.find_arr(d.r, d.o, 1) if (d.r.arrays) else None
            sa = None if s.r.family else self.find_arr(s.r, s.o, 1) if (s.r.arrays) else None
            if sa is None and not s.o.isconst() and not s.r.arrays and s.r.size is not None:
                self.to_bytes(st, s.r); sa = s.r.arrays[0]
            if da is None and not d.o.isconst() and not d.r.arrays and d.r.size is not None:
                self.to_bytes(st, d.r); da = d.r.arrays[0]
            if n_c is None:
                if da is None and not d.r.arrays and d.r.size is not None:
                    self.to_bytes(st, d.r); da = d.r.arrays[0]
                if sa is None and not s.r.arrays and s.r.size is not None:
                    self.to_bytes(st, s.r); sa = s.r.arrays[0]
            if da is not None and sa is not None and da.es == sa.es:
                es = da.es
                di, si = self.idx_of(da, d.o), self.idx_of(sa, s.o)
                if di is None or si is None:
                    raise Unsupported('memcpy misaligned')
                nb = linear(n)
                if all(k % es == 0 for k, _ in nb.t) and nb.c % es == 0:
                    cnt = Off(nb.c // es, tuple((k // es, x) for k, x in nb.t)).bv()
                elif es == 1:
                    cnt = n
                else:
                    raise Unsupported('memcpy length not a multiple of the element size')
                self.access_check(st, d, 0, what); self.access_check(st, s, 0, what)
                for a, i, rr in ((da, di, d.r), (sa, si, s.r)):
                    if a.n is not None:
                        self.oblige(st, z3.Or(cnt == 0, z3.And(z3.ULE(i, a.n), z3.ULE(cnt, a.n - i))), 'safety: %s range in bounds (%s)' % (rr, what), 'safety')
                S, D = self.arr_get(st, s.r, sa), self.arr_get(st, d.r, da)
                if conc(cnt) is not None and conc(cnt) <= 16:
                    for i in range(conc(cnt)):
                        D = z3.Store(D, di + BV(i), z3.Select(S, si + BV(i)))
                else:
                    if conc(cnt) is not None and da.n is not None and conc(da.n) == conc(cnt) and conc(di) == 0 and conc(si) == 0 and sa.n is not None and conc(sa.n) == conc(cnt):
                        D = S
                    else:
                        k = z3.BitVec('mk', 64)
                        D = z3.Lambda([k], z3.If(z3.ULT(k - di, cnt), z3.Select(S, k - di + si), z3.Select(D, k)))
                self.arr_set(st, d.r, da, D)
                return
        if n_c is None:
            raise Unsupported('memcpy of symbolic length %r -> %r' % (s, d))
        # copy cell by cell where source cells exist; byte-wise otherwise
        i = 0
        vals = []
        while i < n_c:
            step = None
            if isinstance(s, Ptr) and not s.r.family and s.o.isconst() and not (s.r.arrays and self.find_arr(s.r, s.o + i, 1)):
                cell = self.rmem(st, s.r).get(('c', s.o.c + i))
                if cell is not None and cell[0] <= n_c - i:
                    step = cell[0]
                elif (s.o.c + i) in s.r.fields and n_c - i >= 8 and isinstance(s.r.fields[s.o.c + i], (Ptr, CondPtr, Fn)):
                    step = 8
                elif (s.o.c + i) in s.r.fields and z3.is_bv(s.r.fields[s.o.c + i]) and s.r.fields[s.o.c + i].size() // 8 <= n_c - i:
                    step = s.r.fields[s.o.c + i].size() // 8
            if step is None:
                step = 1
                if s.r.arrays:
                    aa = self.find_arr(s.r, s.o + i, 1)
                    if aa is not None and n_c - i >= aa.es:
                        step = aa.es
                        if isinstance(aa.kind, tuple):
                            step = 8
                elif n_c - i >= 8 and (s.o.c + i) % 8 == 0:
                    # keep natural width for untouched cells
                    nxt = [k[1] for k in self.rmem(st, s.r) if k[0] == 'c' and s.o.c + i < k[1] < s.o.c + i + 8]
                    nxt += [o for o in s.r.fields if s.o.c + i < o < s.o.c + i + 8]
                    if not nxt and s.r.size is not None:
                        step = 8
            vals.append((i, step, self.load_raw(st, s.add(i), step, False, what)))
            i += step
        for i, step, v in vals:
            self.store_raw(st, d.add(i), v, step, what)

    def memset(self, st, d, b, n, what='memset'):
        n_c = conc(n)
        if n_c == 0:
            return
        a = self.find_arr(d.r, d.o, 1) if d.r.arrays else None
        if a is None and n_c is None and d.r.size is not None and not d.r.arrays:
            self.to_bytes(st, d.r); a = d.r.arrays[0]
        if a is not None:
            di = self.idx_of(a, d.o)
            nb = linear(n)
            if di is None or not (all(k % a.es == 0 for k, _ in nb.t) and nb.c % a.es == 0):
                raise Unsupported('memset misaligned')
            cnt = Off(nb.c // a.es, tuple((k // a.es, x) for k, x in nb.t)).bv()
            if a.n is not None:
                self.oblige(st, z3.Or(cnt == 0, z3.And(z3.ULE(di, a.n), z3.ULE(cnt, a.n - di))), 'safety: %s range in bounds (%s)' % (d.r, what), 'safety')
            v = z3.Concat(*([b] * a.es)) if a.es > 1 else b
            D = self.arr_get(st, d.r, a)
            k = z3.BitVec('mk', 64)
            if a.n is not None and conc(a.n) is not None and conc(a.n) == conc(cnt) and conc(di) == 0:
                D = z3.K(z3.BitVecSort(64), v)
            else:
                D = z3.Lambda([k], z3.If(z3.ULT(k - di, cnt), v, z3.Select(D, k)))
            self.arr_set(st, d.r, a, D)
            return
        if n_c is None or n_c > 4096:
            raise Unsupported('memset symbolic length')
        i = 0
        while i < n_c:
            step = 8 if n_c - i >= 8 and (d.o.c + i) % 8 == 0 else 1
            cell = self.rmem(st, d.r).get(('c', d.o.c + i))
            if cell is not None and cell[0] <= n_c - i:
                step = cell[0]
            inner = [k[1] for k in self.rmem(st, d.r) if k[0] == 'c' and d.o.c + i < k[1] < d.o.c + i + step]
            if inner:
                step = min(inner) - d.o.c - i
            bb = z3.Concat(*([b] * step)) if step > 1 else b
            self.store_raw(st, d.add(i), bb, step, what)
            i += step

    # ------------------------------------------------------------ operands
    def val(self, st, op, ty):
        k = op[0]
        if k == 'reg':
            if op[1] not in st.env:
                raise Unsupported('undefined register %' + op[1])
            return st.env[op[1]]
        if k == 'int':
            t = self.m.resolve(ty)
            if t.k == 'int':
                return z3.BoolVal(op[1] != 0) if t.w == 1 else BV(op[1], t.w)
            if t.k == 'fp':
                return FP(z3.BitVec('fpc_%s' % op[1], t.w))
            return BV(op[1], 64)
        if k == 'null':
            return NULL
        if k == 'undef':
            t = self.m.resolve(ty)
            if t.k == 'struct':
                return Agg([UNDEF] * len(t.elems))
            return UNDEF
        if k == 'zero':
            return self.zero(ty)
        if k == 'glob':
            return self.globptr(op[1])
        if k == 'fp':
            t = self.m.resolve(ty)
            return FP(z3.BitVec('fpc_%s' % op[1], t.w))
        if k == 'agg':
            return Agg([self.val(st, v, t) for t, v in op[1]])
        if k == 'str':
            return Agg([BV(b, 8) for b in op[1]])
        if k == 'cexpr':
            return self.cexpr(st, op)
        raise Unsupported('operand %r' % (op,))

    def zero(self, ty):
        t = self.m.resolve(ty)
        if t.k == 'int':
            return z3.BoolVal(False) if t.w == 1 else BV(0, t.w)
        if t.k == 'ptr':
            return NULL
        if t.k == 'fp':
            return FP(BV(0, t.w))
        if t.k == 'struct':
            return Agg([self.zero(e) for e in t.elems])
        if t.k in ('array', 'vector'):
            return Agg([self.zero(t.elems) for _ in range(t.n)])
        raise Unsupported('zero %r' % ty)

    def cexpr(self, st, op):
        if op[1] == 'gep':
            return self.gep(st, op[2], [(t, self.val(st, v, t)) for t, v in op[3]])
        if op[1] in ('ptrtoint',):
            return PtrInt(self.val(st, op[3], op[2]))
        if op[1] in ('inttoptr',):
            v = self.val(st, op[3], op[2])
            if isinstance(v, PtrInt):
                return v.p
            if conc(v) == 0:
                return NULL
        if op[1] == 'bitcast':
            return self.val(st, op[3], op[2])
        raise Unsupported('constant expr %r' % (op[1],))

    def globptr(self, name):
        if name in self.m.aliases:
            v = self.m.aliases[name]
            if v[0] == 'glob':
                return self.globptr(v[1])
            raise Unsupported('alias')
        if name in self.m.funcs:
            return Fn(name)
        if name not in self.globals_cache:
            g = self.m.globals.get(name)
            r = Region('@' + name)
            r.gname = name
            if g and g[0] is not None:
                try:
                    r.size = self.m.size(g[0])
                except Unsupported:
                    pass
                if g[1] is not None and g[1][0] != 'unsupported' and g[2]:
                    r.const = True
                    self._ginit(r, g[0], g[1], 0)
                elif g[1] is not None and g[1][0] != 'unsupported' and not g[2]:
                    r.fields = {}
            self.globals_cache[name] = r
        return Ptr(self.globals_cache[name], 0)

    def _ginit(self, r, ty, v, off):
        t = self.m.resolve(ty)
        if t.k == 'struct':
            offs, _ = self.m.layout(t)
            if v[0] == 'zero':
                for o, e in zip(offs, t.elems):
                    self._ginit(r, e, ('zero',), off + o)
            elif v[0] == 'agg':
                for o, (e, x) in zip(offs, v[1]):
                    self._ginit(r, e, x, off + o)
        elif t.k == 'array':
            es = self.m.size(t.elems)
            if t.n > 4096:
                return
            if self.m.resolve(t.elems).k == 'int' and t.n > 2 and v[0] in ('agg', 'str'):
                A = z3.K(z3.BitVecSort(64), BV(0, es * 8))
                vals = [x[1] for x in v[1]] if v[0] == 'agg' else list(v[1])
                for i, x in enumerate(vals):
                    A = z3.Store(A, BV(i), BV(x, es * 8))
                r.arrays.append(Arr(off, es, BV(t.n), init=A))
                return
            if v[0] == 'zero':
                for i in range(t.n):
                    self._ginit(r, t.elems, ('zero',), off + i * es)
            elif v[0] == 'agg':
                for i, (e, x) in enumerate(v[1]):
                    self._ginit(r, e, x, off + i * es)
        else:
            r.fields[off] = (lambda ty, v: (lambda E, st: self._conv(E.val(st, v, ty))))(ty, v)

    def _conv(self, v):
        if z3.is_bool(v):
            return z3.If(v, BV(1, 8), BV(0, 8))
        if isinstance(v, FP):
            return v.t
        return v

    def gep(self, st, base, args):
        p = args[0][1]
        if isinstance(p, Undef):
            raise Unsupported('gep of undef')
        if isinstance(p, Fn):
            return p
        ty = base
        off = Off()
        for i, (t, v) in enumerate(args[1:]):
            if i == 0:
                off = off + self.idx64(v).scale(self.m.size(ty)) if not (conc_int(v) == 0) else off
                continue
            ty = self.m.resolve(ty)
            if ty.k == 'struct':
                n = conc(v)
                off = off + self.m.layout(ty)[0][n]
                ty = ty.elems[n]
            elif ty.k in ('array', 'vector'):
                ty = ty.elems
                off = off + self.idx64(v).scale(self.m.size(ty))
            else:
                raise Unsupported('gep into %r' % ty)
        if isinstance(p, CondPtr):
            return CondPtr([(c, q.add(off)) for c, q in p.alts])
        if not isinstance(p, Ptr):
            raise Unsupported('gep on %r' % (p,))
        return p.add(off)

    def idx64(self, v):
        if isinstance(v, PtrInt):
            raise Unsupported('pointer used as index')
        if isinstance(v, Undef):
            raise Unsupported('undef index')
        if v.size() < 64:
            c = conc(v)
            if c is not None:
                return Off(c - 2**v.size() if c >= 2**(v.size() - 1) else c)
            v = z3.SignExt(64 - v.size(), v)
        return linear(v)

    # ------------------------------------------------------------ running
    def call_fn(self, f, args, st, depth=0):
        """inline execution; returns list of Outcome"""
        if depth > self.maxdepth:
            raise Unsupported('call depth (recursion without contract?) in ' + self.m.dem.get(f.name, f.name))
        if f.decl:
            raise Unsupported('no body and no contract for ' + self.m.dem.get(f.name, f.name))
        self.inlined.add(self.m.dem.get(f.name, f.name))
        saved = st.env
        st.env = {}
        for (pn, ty, at), v in zip(f.params, args):
            st.env[pn] = v
        outcomes = []
        ctx = Ctx(f, outcomes)
        ctx.depth = depth
        ctx.id = next(_ctr)
        self.transfer(ctx, None, f.entry, st)
        for o in outcomes:
            o.st.env = saved if len(outcomes) == 1 else dict(saved)
        return outcomes

    def run(self, name, args, st):
        f = self.m.find(name) if isinstance(name, str) else name
        for x in range(1):
            o = self.call_fn(f, args, st)
        return o

    def transfer(self, ctx, prev, b, st):
        if time.time() > self.deadline:
            raise Unsupported('time budget exhausted in unit ' + self.unit)
        cut = ctx.cut
        if cut is not None:
            if b == cut.header:
                cut.backs.append((st, prev))
                return
            if b not in cut.blocks:
                cut.exits.append((st, prev, b))
                return
        f = ctx.f
        if b in f.loops and prev is not None and prev not in f.loops[b]:
            tl = self.tail_loop(f, b, prev)
            if tl is not None:
                self.inductive_step(ctx, b, prev, st, tl)
                return
            lim = self.loop_limit(f)
            if lim is None:
                exits = self.concrete_loop(ctx, b, prev, st) if self.concrete_loops else None
                if exits is None:
                    exits = self.do_loop(ctx, b, prev, st)
                for (s, p, t) in exits:
                    self.transfer(ctx, p, t, s)
                return
            st.unroll[(ctx.id, b)] = 0
        elif b in f.loops:
            n = st.unroll.get((ctx.id, b), 0) + 1
            st.unroll[(ctx.id, b)] = n
            lim = self.loop_limit(f)
            if lim is not None and n > lim:
                self.oblige(st, z3.BoolVal(False), 'unwinding: %s loop %s needs more than %d iterations' % (self.m.dem.get(f.name), b, lim), 'unwind')
                return
        self.exec_block(ctx, prev, b, st)

    def tail_loop(self, f, h, prev):
        """contract for the main loop of a function whose body is nothing but that loop (so that 'continue' is the same
        as calling the function again): the unit starts in an arbitrary state satisfying the invariant, the body is
        checked once, and every back edge must re-establish the invariant (callback)"""
        d = self.m.dem.get(f.name, f.name)
        for k, cb in self.tail_loops.items():
            if k in d and len(f.loops[h]) == max(len(b) for b in f.loops.values()):
                blk = f.blocks[f.entry]
                if prev != f.entry or any(self.m.resolve(i.d['ty']).k != 'int' or any(v[0] != 'undef' for v, b in i.d['in'] if b == prev) for i in f.blocks[h].phis) or any(i.op not in ('alloca', 'getelementptr', 'br') and not (i.op == 'call' and i.d['callee'][1].startswith('llvm.lifetime')) for i in blk.body):
                    raise Unsupported('the main loop of %s does not start at function entry' % d)
                return cb
        return None

    def inductive_step(self, ctx, h, prev, st, cb):
        cut = Cut(h, ctx.f.loops[h])
        c2 = Ctx(ctx.f, ctx.outcomes, cut, ctx)
        c2.depth, c2.id = ctx.depth, ctx.id
        if not self.mute:
            self.loops_info.append({'function': self.m.dem.get(ctx.f.name, ctx.f.name), 'invariants': 1, 'candidates': 1, 'rounds': 1, 'kept': ['given invariant, re-established on every back edge']})
        for i in ctx.f.blocks[h].phis:      # carried, but indeterminate on entry: arbitrary
            w = self.m.resolve(i.d['ty']).w
            st.env[i.res] = fresh('carried', z3.BitVecSort(w) if w > 1 else z3.BoolSort())
        self.exec_block(c2, None, h, st, skip_phis=True)
        for s, _ in cut.backs:
            cb(self, s)
        for s, p, t in cut.exits:
            self.transfer(ctx, p, t, s)

    def concrete_loop(self, ctx, h, prev, st):
        """exact execution of an innermost loop whose every iteration is decided (trip count fixed by the path);
        None when some iteration is not decided (the loop is then cut with invariants)"""
        f = ctx.f
        blocks = f.loops[h]
        if any(o != h and o in blocks for o in f.loops):
            return None
        bad = getattr(self, 'not_concrete', None)
        if bad is None:
            bad = self.not_concrete = set()
        if (f.name, h) in bad:
            return None
        if self.concrete_loops == 'fork':
            for mute in (1, 0):
                work, exits, rets = [(st.copy(), prev)], [], []
                self.mute += mute
                try:
                    for _ in range(12):
                        nxt = []
                        for cur, p in work:
                            cut = Cut(h, blocks)
                            c2 = Ctx(f, rets, cut, ctx)
                            c2.depth, c2.id = ctx.depth, ctx.id
                            self.exec_block(c2, p, h, cur)
                            nxt += cut.backs
                            exits += cut.exits
                        work = nxt
                        if not work or len(work) > 40:
                            break
                finally:
                    self.mute -= mute
                if work:
                    bad.add((f.name, h))
                    return None
            ctx.outcomes += rets
            return exits
        for mute in (1, 0):
            cur, p = st.copy(), prev
            self.mute += mute
            try:
                for _ in range(20):
                    cut = Cut(h, blocks)
                    outs = []
                    c2 = Ctx(f, outs, cut, ctx)
                    c2.depth, c2.id = ctx.depth, ctx.id
                    self.exec_block(c2, p, h, cur)
                    if outs or len(cut.backs) + len(cut.exits) != 1:
                        if mute:
                            bad.add((f.name, h))
                            return None
                        raise Unsupported('loop no longer decided')
                    if cut.exits:
                        break
                    cur, p = cut.backs[0]
                else:
                    bad.add((f.name, h))
                    return None
            finally:
                self.mute -= mute
        return cut.exits

    def loop_limit(self, f):
        d = self.m.dem.get(f.name, f.name)
        for k, v in self.unroll.items():
            if k in d:
                return v
        return self.default_unroll

    def phis(self, st, blk, prev):
        new = {}
        for i in blk.phis:
            if i.op == 'unsupported':
                raise Unsupported(i.d['why'])
            for v, b in i.d['in']:
                if b == prev:
                    new[i.res] = self.val(st, v, i.d['ty'])
                    break
            else:
                raise Unsupported('phi without predecessor')
        st.env.update(new)

    def exec_block(self, ctx, prev, b, st, skip_phis=False):
        blk = ctx.f.blocks[b]
        if not skip_phis and blk.phis:
            self.phis(st, blk, prev)
        self.exec_insts(ctx, blk, 0, st)

    def exec_insts(self, ctx, blk, i, st):
        body = blk.body
        while i < len(body):
            ins = body[i]
            op = ins.op
            if op == 'br':
                d = ins.d
                if d['c'] is None:
                    return self.transfer(ctx, blk.name, d['t'][0], st)
                c = self.boolv(self.val(st, d['c'], Ty('int', 1)))
                return self.fork(ctx, blk.name, st, [(c, d['t'][0]), (z3.Not(c), d['t'][1])])
            if op == 'switch':
                v = self.val(st, ins.d['v'], ins.d['ty'])
                alts, neg = [], []
                if z3.is_bool(v):
                    v = z3.If(v, BV(1, 1), BV(0, 1))
                bytarget = {}
                for c, t in ins.d['cases']:
                    cc = v == BV(c[1], v.size())
                    bytarget.setdefault(t, []).append(cc)
                    neg.append(z3.Not(cc))
                for t, cs in bytarget.items():
                    alts.append((z3.Or(*cs) if len(cs) > 1 else cs[0], t))
                alts.append((z3.And(*neg) if neg else z3.BoolVal(True), ins.d['def']))
                return self.fork(ctx, blk.name, st, alts)
            if op == 'ret':
                v = None if ins.d['v'] is None else self.val(st, ins.d['v'], ins.d['ty'])
                ctx.outcomes.append(Outcome(st, 'ret', v))
                self.path_count += 1
                if self.path_count > self.maxpaths:
                    raise Unsupported('too many paths')
                return
            if op == 'unreachable':
                # after a noreturn call; the call itself produced the outcome
                self.oblige(st, z3.BoolVal(False), 'safety: unreachable code reached in ' + self.m.dem.get(ctx.f.name, '?'), 'safety')
                return
            if op == 'resume':
                ctx.outcomes.append(Outcome(st, 'throw'))
                return
            if op in ('call', 'invoke'):
                outs = self.do_call(ctx, ins, st)
                nxt = []
                for o in outs:
                    if o.kind == 'throw':
                        ctx.outcomes.append(Outcome(o.st, 'throw'))
                        continue
                    if o.kind == 'noreturn':
                        ctx.outcomes.append(Outcome(o.st, 'noreturn'))
                        continue
                    if ins.res is not None:
                        o.st.env[ins.res] = o.val
                    nxt.append(o.st)
                if op == 'invoke':
                    for s in nxt:
                        self.transfer(ctx, blk.name, ins.d['normal'], s)
                    return
                if len(nxt) == 1:
                    st = nxt[0]
                    i += 1
                    continue
                for s in nxt:
                    self.exec_insts(ctx, blk, i + 1, s)
                return
            if op == 'select':
                c = self.boolv(self.val(st, ins.d['c'], Ty('int', 1)))
                a = self.val(st, ins.d['a'], ins.d['ty']); b = self.val(st, ins.d['b'], ins.d['ty'])
                cc = conc(c)
                if cc is not None:
                    st.env[ins.res] = a if cc else b
                elif isinstance(a, (Ptr, Fn, PtrInt, CondPtr, Agg, Undef)) or isinstance(b, (Ptr, Fn, PtrInt, CondPtr, Agg, Undef)):
                    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r and a.r.family and a.o.isconst() and b.o.isconst() and a.o.c == b.o.c:
                        st.env[ins.res] = Ptr(a.r, a.o, z3.If(c, a.id, b.id))
                    elif isinstance(a, Undef):
                        st.env[ins.res] = b
                    elif isinstance(b, Undef):
                        st.env[ins.res] = a
                    else:
                        s2 = st.copy()
                        f1, f2 = self.feasible(st, c), self.feasible(s2, z3.Not(c))
                        st.assume(c); s2.assume(z3.Not(c))
                        st.env[ins.res] = a; s2.env[ins.res] = b
                        if f1 and f2:
                            self.exec_insts(ctx, blk, i + 1, s2)
                        elif f2:
                            st = s2
                        elif not f1:
                            return
                elif isinstance(a, FP) or isinstance(b, FP):
                    st.env[ins.res] = FP(fresh('fp', z3.BitVecSort(self.m.resolve(ins.d['ty']).w)))
                else:
                    st.env[ins.res] = z3.If(c, a, b)
                i += 1
                continue
            self.simple(ctx, ins, st)
            i += 1
        raise Unsupported('block without terminator')

    def fork(self, ctx, prev, st, alts):
        live = []
        rem = None
        for c, t in alts:
            cc = conc(c)
            if cc == 1:
                live.append((None, t))
            elif cc == 0:
                continue
            else:
                live.append((c, t))
        if len(live) == 1 and live[0][0] is None:
            return self.transfer(ctx, prev, live[0][1], st)
        ok = []
        for c, t in live:
            if c is None or self.feasible(st, c):
                ok.append((c, t))
        for n, (c, t) in enumerate(ok):
            s = st if n == len(ok) - 1 else st.copy()
            if c is not None:
                s.assume(z3.simplify(c) if not has_quant(c) else c)
            self.transfer(ctx, prev, t, s)

    def boolv(self, v):
        if isinstance(v, Undef):
            return fresh('undefb', z3.BoolSort())
        if z3.is_bv(v):
            return v != 0
        return v

    def bits(self, v, w):
        if isinstance(v, Undef):
            return fresh('undef', z3.BitVecSort(w))
        if z3.is_bool(v):
            return z3.If(v, BV(1, w), BV(0, w))
        return v

    # ------------------------------------------------------------ instructions
    def simple(self, ctx, ins, st):
        op, d = ins.op, ins.d
        if op in BIN:
            a, b = self.val(st, d['a'], d['ty']), self.val(st, d['b'], d['ty'])
            st.env[ins.res] = self.binop(st, op, a, b, d, ins)
        elif op == 'icmp':
            a, b = self.val(st, d['a'], d['ty']), self.val(st, d['b'], d['ty'])
            st.env[ins.res] = self.icmp(st, d['p'], a, b, d['ty'])
        elif op == 'load':
            p = self.val(st, d['p'], PTR)
            st.env[ins.res] = self.load(st, self.deref(st, p), d['ty'], self.where(ctx, ins))
        elif op == 'store':
            p = self.val(st, d['p'], PTR)
            self.store(st, self.deref(st, p), self.val(st, d['v'], d['ty']), d['ty'], self.where(ctx, ins))
        elif op == 'getelementptr':
            st.env[ins.res] = self.gep(st, d['base'], [(t, self.val(st, v, t)) for t, v in d['args']])
        elif op == 'alloca':
            n = conc(self.val(st, d['n'], d.get('nty', Ty('int', 32))))
            if n is None:
                raise Unsupported('alloca of symbolic size')
            r = Region('alloca_%s_%d' % (ins.res, next(_ctr)), size=self.m.size(d['ty']) * n)
            if self.alloca_nullable is not None:
                r.nullable = self.alloca_nullable
            r.local = True
            st.env[ins.res] = Ptr(r, 0)
        elif op in ('trunc', 'zext', 'sext'):
            v = self.val(st, d['a'], d['ty'])
            if isinstance(v, FP):
                raise Unsupported('cast of fp')
            w = self.m.resolve(d['to']).w
            sw = self.m.resolve(d['ty']).w
            if isinstance(v, PtrInt):
                if op == 'trunc':
                    st.env[ins.res] = self.ptr_bits(v.p, w)
                    return
                raise Unsupported('ext of pointer')
            if isinstance(v, Undef):
                v = fresh('undef', z3.BitVecSort(sw)) if sw > 1 else fresh('undef', z3.BoolSort())
            if op == 'trunc':
                r = z3.Extract(w - 1, 0, v)
                if z3.is_bv_value(v):
                    r = z3.simplify(r)
                st.env[ins.res] = (r == 1) if w == 1 else r
            elif z3.is_bool(v):
                st.env[ins.res] = z3.If(v, BV(1 if op == 'zext' else (1 << w) - 1, w), BV(0, w))
            else:
                r = z3.ZeroExt(w - sw, v) if op == 'zext' else z3.SignExt(w - sw, v)
                st.env[ins.res] = z3.simplify(r) if z3.is_bv_value(v) else r
        elif op == 'ptrtoint':
            v = self.val(st, d['a'], PTR)
            if isinstance(v, Ptr) and v.r.isnull and v.o.isconst():
                st.env[ins.res] = BV(v.o.c)
            else:
                st.env[ins.res] = PtrInt(v)
        elif op == 'inttoptr':
            v = self.val(st, d['a'], d['ty'])
            if isinstance(v, PtrInt):
                st.env[ins.res] = v.p
            elif conc(v) == 0:
                st.env[ins.res] = NULL
            else:
                raise Unsupported('inttoptr')
        elif op in ('bitcast', 'freeze'):
            v = self.val(st, d['a'], d['ty'])
            if op == 'bitcast':
                t = self.m.resolve(d['to'])
                if t.k == 'int' and isinstance(v, FP):
                    v = v.t
                elif t.k == 'fp' and z3.is_bv(v):
                    v = FP(v)
            st.env[ins.res] = v
        elif op == 'extractvalue':
            v = self.val(st, d['a'], d['ty'])
            for i in d['idx']:
                v = v.els[i]
            st.env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, d['a'], d['ty'])
            x = self.val(st, d['v'], d['ty2'])
            if len(d['idx']) != 1:
                raise Unsupported('nested insertvalue')
            if isinstance(v, Undef):
                v = Agg([UNDEF] * len(self.m.resolve(d['ty']).elems))
            e = list(v.els)
            e[d['idx'][0]] = x
            st.env[ins.res] = Agg(e)
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem', 'fneg', 'fptrunc', 'fpext', 'uitofp', 'sitofp'):
            t = self.m.resolve(d.get('to', d['ty']))
            self.assumptions.add('floating-point results are treated as arbitrary values')
            st.env[ins.res] = FP(fresh('fp', z3.BitVecSort(t.w)))
        elif op == 'fcmp':
            st.env[ins.res] = fresh('fcmp', z3.BoolSort())
        elif op in ('fptoui', 'fptosi'):
            st.env[ins.res] = fresh('fpi', z3.BitVecSort(self.m.resolve(d['to']).w))
        elif op == 'atomicrmw':
            p = self.deref(st, self.val(st, d['p'], PTR))
            old = self.load(st, p, d['ty'])
            v = self.val(st, d['v'], d['ty'])
            new = {'add': lambda: old + v, 'sub': lambda: old - v, 'xchg': lambda: v, 'and': lambda: old & v, 'or': lambda: old | v}[d['rop']]()
            self.store(st, p, new, d['ty'])
            st.env[ins.res] = old
            self.assumptions.add('atomic operations are executed sequentially (single-threaded contract)')
        elif op in ('fence', 'landingpad'):
            pass
        elif op == 'unsupported':
            raise Unsupported(d['why'])
        else:
            raise Unsupported('instruction ' + op)

    def where(self, ctx, ins):
        return self.m.dem.get(ctx.f.name, ctx.f.name).split('(')[0] + ': ' + ins.text[:70]

    def deref(self, st, p):
        if isinstance(p, CondPtr):
            live = [(c, q) for c, q in p.alts if self.feasible(st, c)]
            if len(live) == 1:
                return live[0][1]
            raise Unsupported('dereference of a conditional pointer')
        return p

    def ptr_bits(self, p, w=64):
        """an (uninterpreted) address for a pointer"""
        if p.r.isnull:
            b = p.o.bv()
        else:
            b = z3.BitVec('addr_' + p.r.name, 64) + p.o.bv()
            if p.id is not None:
                b = z3.Function('addr_' + p.r.name, z3.BitVecSort(64), z3.BitVecSort(64))(p.id) + p.o.bv()
        return z3.Extract(w - 1, 0, b) if w < 64 else b

    def binop(self, st, op, a, b, d, ins):
        w = self.m.resolve(d['ty']).w if self.m.resolve(d['ty']).k == 'int' else None
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF if not (w == 1) else fresh('undef', z3.BoolSort())
        if isinstance(a, Agg) or isinstance(b, Agg):
            raise Unsupported('vector op')
        if isinstance(a, PtrInt) or isinstance(b, PtrInt):
            if op == 'sub' and isinstance(a, PtrInt) and isinstance(b, PtrInt):
                x, y = a.p, b.p
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r is y.r and (x.id is None or x.id.eq(y.id)):
                    return (x.o + y.o.neg()).bv()
                if isinstance(x, Ptr) and isinstance(y, Ptr) and x.r.isnull and y.r.isnull:
                    return (x.o + y.o.neg()).bv()
                raise Unsupported('difference of pointers into different objects')
            if op == 'add' and isinstance(a, PtrInt) and z3.is_bv(b):
                return PtrInt(a.p.add(linear(b)))
            if op == 'add' and isinstance(b, PtrInt) and z3.is_bv(a):
                return PtrInt(b.p.add(linear(a)))
            if op == 'sub' and isinstance(a, PtrInt) and z3.is_bv(b):
                return PtrInt(a.p.add(linear(b).neg()))
            if isinstance(a, PtrInt):
                a = self.ptr_bits(a.p)
            if isinstance(b, PtrInt):
                b = self.ptr_bits(b.p)
        if isinstance(a, FP) or isinstance(b, FP):
            raise Unsupported('fp binop')
        if z3.is_bool(a):
            return {'and': lambda: z3.And(a, b), 'or': lambda: z3.Or(a, b), 'xor': lambda: z3.Xor(a, b), 'add': lambda: z3.Xor(a, b), 'sub': lambda: z3.Xor(a, b),
                    'mul': lambda: z3.And(a, b)}[op]()
        if op in ('udiv', 'sdiv', 'urem', 'srem'):
            if conc(b) is None or conc(b) == 0:
                self.oblige(st, b != 0, 'safety: divisor non-zero (%s)' % ins.text[:60], 'safety')
            # exact division of a linear form by a constant
            cb = conc(b)
            if cb is None and self.div_hook:
                r = self.div_hook(st, op, a, b)
                if r is not None:
                    return r
            if op in ('sdiv', 'udiv') and cb and a.size() == 64 and 'exact' in d['flags']:
                l = linear(a)
                if all(k % cb == 0 for k, _ in l.t) and l.c % cb == 0:
                    return Off(l.c // cb, tuple((k // cb, x) for k, x in l.t)).bv()
            if op in ('sdiv', 'udiv') and cb == 1:
                return a
            if op == 'udiv' and cb and 1 < cb < 2**20 and a.size() == 64 and not z3.is_bv_value(a):
                l = linear(a)
                if l.t and all(k % cb == 0 for k, _ in l.t) and l.c % cb == 0:
                    q = Off(l.c // cb, tuple((k // cb, x) for k, x in l.t)).bv()
                    if self.entails(st, z3.ULE(q, BV((2**64 - 1) // cb)), 2000)[0] == z3.unsat:
                        return q
            if op == 'sdiv' and cb and a.size() == 64:
                l = linear(a)
                if l.t and all(k % cb == 0 for k, _ in l.t) and l.c % cb == 0:
                    q = Off(l.c // cb, tuple((k // cb, x) for k, x in l.t)).bv()
                    # valid as mathematical division when the product does not wrap: obligation
                    lim = (2**63 - 1) // cb
                    if cb < 2**20:
                        rng = z3.And(q <= BV(lim), q >= BV(-lim))
                        r, _ = self.entails(st, rng, 2000)
                        if r == z3.unsat:
                            return q
        if op in ('udiv', 'urem'):
            cb = conc(b)
            if cb and cb & (cb - 1) == 0:
                k = cb.bit_length() - 1
                return z3.LShR(a, BV(k, a.size())) if op == 'udiv' else a & BV(cb - 1, a.size())
        if op in ('shl', 'lshr', 'ashr') and self.check_shift:
            cb = conc(b)
            if cb is None or cb >= a.size():
                self.oblige(st, z3.ULT(b, a.size()), 'safety: shift amount below %d (%s)' % (a.size(), ins.text[:60]), 'safety')
        if op == 'mul' and self.abstract_mul and conc(a) is None and conc(b) is None:
            return self.mul(st, a, b)
        r = BIN[op](a, b)
        if z3.is_bv_value(a) and z3.is_bv_value(b):
            r = z3.simplify(r)
        return r

    def mul(self, st, a, b):
        """product as an uninterpreted function with (valid) facts about machine multiplication"""
        w = a.size()
        f = z3.Function('mul%d' % w, a.sort(), a.sort(), a.sort())
        r = f(a, b)
        h = BV(1 << (w // 2 - 1), w)
        st.assume(r == f(b, a), z3.Implies(z3.Or(a == 0, b == 0), r == 0), z3.Implies(a == 1, r == b), z3.Implies(b == 1, r == a),
                  z3.Implies(z3.And(z3.ULT(a, h), z3.ULT(b, h), a != 0, b != 0), z3.And(z3.UGE(r, a), z3.UGE(r, b))))
        return r

    def icmp(self, st, p, a, b, ty):
        t = self.m.resolve(ty)
        if isinstance(a, Undef) or isinstance(b, Undef):
            return fresh('undefcmp', z3.BoolSort())
        if isinstance(a, PtrInt) and not isinstance(b, PtrInt):
            if conc(b) == 0:
                b = PtrInt(NULL)
            else:
                a = self.ptr_bits(a.p)
        elif isinstance(b, PtrInt) and not isinstance(a, PtrInt):
            if conc(a) == 0:
                a = PtrInt(NULL)
            else:
                b = self.ptr_bits(b.p)
        if isinstance(a, PtrInt) and isinstance(b, PtrInt):
            a, b = a.p, b.p
        if isinstance(a, CondPtr):
            return z3.Or(*[z3.And(c, self.icmp(st, p, q, b, ty)) for c, q in a.alts])
        if isinstance(b, CondPtr):
            return z3.Or(*[z3.And(c, self.icmp(st, p, a, q, ty)) for c, q in b.alts])
        if isinstance(a, Fn) or isinstance(b, Fn):
            eq = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            return z3.BoolVal(eq if p == 'eq' else not eq)
        if isinstance(a, Ptr):
            return self.ptrcmp(st, p, a, b)
        if z3.is_bool(a):
            if p == 'eq':
                return a == b
            if p == 'ne':
                return a != b
            a, b = self.bits(a, 8), self.bits(b, 8)
        if isinstance(a, FP) or isinstance(b, FP):
            raise Unsupported('icmp fp')
        return CMP[p](a, b)

    def ptrcmp(self, st, p, a, b):
        if a.r.family or b.r.family:
            if a.r.isnull or b.r.isnull:
                x = b if a.r.isnull else a
                if x.o.isconst() and x.o.c != 0:
                    e = z3.BoolVal(False)
                else:
                    e = x.id == 0
            elif a.r is b.r and a.o.isconst() and b.o.isconst():
                e = (a.id == b.id) if a.o.c == b.o.c else z3.BoolVal(False)
            elif a.r is not b.r:
                e = z3.BoolVal(False)
                if a.r is OPAQUE or b.r is OPAQUE:
                    e = fresh('opaque_eq', z3.BoolSort())
            else:
                raise Unsupported('family pointer comparison')
            if p == 'eq':
                return e
            if p == 'ne':
                return z3.Not(e)
            raise Unsupported('ordering family pointers')
        if a.r is b.r:
            x, y = (a.o + b.o.neg()), None
            if x.isconst():
                c = x.c
                return z3.BoolVal({'eq': c == 0, 'ne': c != 0, 'ult': c < 0, 'ule': c <= 0, 'ugt': c > 0, 'uge': c >= 0, 'slt': c < 0, 'sle': c <= 0, 'sgt': c > 0, 'sge': c >= 0}[p])
            # compare as signed difference of in-object offsets, dividing out the common stride
            g = 0
            import math
            for k, _ in x.t:
                g = math.gcd(g, abs(k))
            g = math.gcd(g, abs(x.c)) if x.c else g
            A, B = a.o, b.o
            if g > 1:
                # move to a common multiple
                ra = A.c % g
                if all(k % g == 0 for k, _ in A.t) and all(k % g == 0 for k, _ in B.t) and B.c % g == ra:
                    A = Off((A.c - ra) // g, tuple((k // g, t) for k, t in A.t))
                    B = Off((B.c - ra) // g, tuple((k // g, t) for k, t in B.t))
            A, B = A.bv(), B.bv()
            return {'eq': lambda: A == B, 'ne': lambda: A != B, 'ult': lambda: A < B, 'ule': lambda: A <= B, 'ugt': lambda: A > B, 'uge': lambda: A >= B,
                    'slt': lambda: A < B, 'sle': lambda: A <= B, 'sgt': lambda: A > B, 'sge': lambda: A >= B}[p]()
        if p == 'eq':
            return z3.BoolVal(False)
        if p == 'ne':
            return z3.BoolVal(True)
        if a.r.isnull or b.r.isnull:
            nonnull_gt = b.r.isnull
            return z3.BoolVal({'ult': not nonnull_gt, 'ule': not nonnull_gt, 'ugt': nonnull_gt, 'uge': nonnull_gt}[p])
        A, B = self.ptr_bits(a), self.ptr_bits(b)
        return CMP[p](A, B)

    # ------------------------------------------------------------ calls
    def do_call(self, ctx, ins, st):
        d = ins.d
        if ins.op == 'unsupported':
            raise Unsupported(d['why'])
        cal = d['callee']
        fn = None
        if cal[0] == 'glob':
            fn = self.globptr(cal[1])
        else:
            fn = self.val(st, cal, PTR)
        if isinstance(fn, Ptr):
            raise Unsupported('indirect call through %r' % fn)
        if not isinstance(fn, Fn):
            raise Unsupported('call of %r' % (fn,))
        name = fn.name
        args = []
        for t, v, at in d['args']:
            args.append(self.val(st, v, t) if t.k != 'metadata' else None)
        if name.startswith('llvm.'):
            return self.intrinsic(ctx, name, args, st, ins)
        dem = self.m.dem.get(name, name)
        mod = self.lookup_model(name, dem)
        if mod is not None:
            self.called_contracts.add(strip_params(dem))
            r = mod(self, st, args, dem)
            if r is None:
                r = [Outcome(st, 'ret', None)]
            elif not isinstance(r, list):
                r = [Outcome(st, 'ret', r)]
            return r
        f = self.m.funcs.get(name)
        if f is None or f.decl:
            b = BUILTINS.get(strip_params(dem)) or BUILTINS.get(name)
            if b is not None:
                r = b(self, st, args, dem)
                if not isinstance(r, list):
                    r = [Outcome(st, 'ret', r)]
                return r
            raise Unsupported('no body and no contract for ' + dem)
        # byval etc. ignored (none in the code under contract)
        return self.call_fn(f, args, st, ctx.depth + 1)

    def lookup_model(self, name, dem):
        if name in self.models:
            return self.models[name]
        if dem in self.models:
            return self.models[dem]
        sp = strip_params(dem)
        if sp in self.models:
            return self.models[sp]
        return None

    def intrinsic(self, ctx, name, args, st, ins):
        n = name.split('.')
        base = n[1]
        def ret(v=None):
            return [Outcome(st, 'ret', v)]
        if name.startswith('llvm.lifetime.end'):
            p = args[-1]
            if isinstance(p, Ptr) and p.r.name.startswith('alloca_') and p.o.isconst() and p.o.c == 0:
                st.mem.pop(p.r, None)      # the object is dead: its content is indeterminate from here on
                st.writes = {wk for wk in st.writes if wk[0] is not p.r}
            return ret()
        if base in ('lifetime', 'dbg', 'donothing', 'invariant', 'experimental', 'var', 'prefetch', 'assume', 'sideeffect'):
            return ret()
        if base in ('memcpy', 'memmove'):
            self.memcpy(st, self.deref(st, args[0]), self.deref(st, args[1]), args[2], base)
            return ret()
        if base == 'memset':
            self.memset(st, self.deref(st, args[0]), args[1], args[2])
            return ret()
        if base in ('umax', 'umin', 'smax', 'smin'):
            a, b = args[:2]
            c = {'umax': z3.UGT(a, b), 'umin': z3.ULT(a, b), 'smax': a > b, 'smin': a < b}[base]
            return ret(z3.If(c, a, b))
        if base == 'expect' or base == 'is' or base == 'launder' or base == 'strip':
            return ret(args[0] if base != 'is' else z3.BoolVal(False))
        if base == 'bswap':
            v = args[0]
            k = v.size() // 8
            return ret(z3.Concat(*[z3.Extract(i * 8 + 7, i * 8, v) for i in range(k)]))
        if base in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul') and len(n) > 3 and n[3] == 'overflow':
            a, b = args
            w = a.size()
            ext = z3.ZeroExt if base[0] == 'u' else z3.SignExt
            k = w if base.endswith('mul') else 1
            f = {'add': lambda x, y: x + y, 'sub': lambda x, y: x - y, 'mul': lambda x, y: x * y}[base[1:]]
            full = f(ext(k, a), ext(k, b))
            r = f(a, b)
            return ret(Agg([r, full != ext(k, r)]))
        if base in ('ctlz', 'cttz'):
            v = args[0]
            w = v.size()
            r = BV(w, w)
            rng = range(w) if base == 'ctlz' else range(w - 1, -1, -1)
            for i in rng:
                r = z3.If(z3.Extract(i, i, v) == 1, BV(w - 1 - i if base == 'ctlz' else i, w), r)
            return ret(r)
        if base in ('trap', 'ubsantrap'):
            return [Outcome(st, 'noreturn')]
        if base in ('abs',):
            return ret(z3.If(args[0] < 0, -args[0], args[0]))
        if base in ('fabs', 'floor', 'ceil', 'sqrt', 'fmuladd', 'pow', 'log', 'exp', 'round'):
            return ret(FP(fresh('fp', z3.BitVecSort(args[0].t.size()))))
        if base == 'objectsize':
            return ret(BV(-1, 64))
        if base == 'ctpop':
            v = args[0]; w = v.size()
            r = BV(0, w)
            for i in range(w):
                r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, v))
            return ret(r)
        if base in ('fshl', 'fshr'):
            a, b, c = args
            w = a.size()
            c = z3.URem(c, BV(w, w))
            cat = z3.Concat(a, b)
            sh = z3.ZeroExt(w, c)
            return ret(z3.Extract(2 * w - 1, w, cat << sh) if base == 'fshl' else z3.Extract(w - 1, 0, z3.LShR(cat, sh)))
        if base in ('eh', 'stacksave', 'stackrestore', 'va_start', 'va_end'):
            return ret(UNDEF)
        raise Unsupported('intrinsic ' + name)

    # ------------------------------------------------------------ loops
    def loopview(self, ctx, blk, entry, cur, phi0, phis, mods):
        lv = LoopView()
        lv.E, lv.entry, lv.st, lv.phi0, lv.phis = self, entry, cur, phi0, phis
        lv.fn = self.m.dem.get(ctx.f.name, ctx.f.name)
        lv.ints, lv.ptrs, lv.bools, lv.arrs = [], [], [], []
        lv.loop = (ctx.f, ctx.f.loops[blk.name])
        for k in phis:
            v, v0 = phis[k], phi0[k]
            if z3.is_bool(v):
                lv.bools.append(('phi%' + k, v, v0 if z3.is_bool(v0) else None))
            elif z3.is_bv(v):
                lv.ints.append(('phi%' + k, v, v0 if z3.is_bv(v0) else None))
            elif isinstance(v, Ptr) and v.id is None and not v.r.isnull:
                lv.ptrs.append(('phi%' + k, v, v0))
            elif isinstance(v, Ptr) and v.id is not None:
                lv.ints.append(('phi%' + k + '.id', v.id, v0.id if isinstance(v0, Ptr) and v0.id is not None else BV(0)))
        for (r, key) in sorted(mods, key=modkey):
            cv = self.rmem(cur, r).get(key)
            ev = self.rmem(entry, r).get(key)
            if cv is None:
                continue
            lab = '%s.%s' % (r.name, key[1])
            if key[0] == 'c':
                if z3.is_bv(cv[1]):
                    lv.ints.append((lab, cv[1], ev[1] if ev is not None and z3.is_bv(ev[1]) and ev[1].size() == cv[1].size() else None))
                elif isinstance(cv[1], Ptr) and cv[1].id is None and not cv[1].r.isnull and ev is not None:
                    lv.ptrs.append((lab, cv[1], ev[1]))
                elif isinstance(cv[1], Ptr) and cv[1].id is not None:
                    lv.ints.append((lab + '.id', cv[1].id, ev[1].id if ev is not None and isinstance(ev[1], Ptr) and ev[1].id is not None else None))
            elif key[0] == 'g':
                if z3.is_bv(cv):
                    lv.ints.append((lab, cv, ev))
                elif z3.is_bool(cv):
                    lv.bools.append((lab, cv, ev))
                elif z3.is_array(cv):
                    lv.arrs.append((lab, cv, ev, r, key))
            elif key[0] == 'a':
                lv.arrs.append((lab, cv, ev, r, key))
        # pointers as element indexes
        lv.pidx = []
        for lab, p, p0 in lv.ptrs:
            if not isinstance(p0, Ptr) or p0.r is not p.r:
                continue
            s = self.stride_of(p.r)
            o = p.o
            base = o.c % s
            if all(k % s == 0 for k, _ in o.t) and all(k % s == 0 for k, _ in p0.o.t) and (p0.o.c - o.c) % s == 0:
                i = Off((o.c - base) // s, tuple((k // s, t) for k, t in o.t)).bv()
                i0 = Off((p0.o.c - base) // s, tuple((k // s, t) for k, t in p0.o.t)).bv()
                lv.pidx.append((lab, i, i0, p.r))
        return lv

    def stride_of(self, r):
        if r.stride:
            return r.stride if not isinstance(r.stride, (list, tuple)) else r.stride[-1]
        if len(r.arrays) >= 1:
            return r.arrays[0].stride
        return 1

    def candidates(self, lv):
        out = []
        if self.auto_linear:
            vars_ = [(l, v, v0) for l, v, v0 in lv.ints if v.size() in (32, 64, 16, 8)] + [(l, v, v0) for l, v, v0, _ in lv.pidx]
            anch = []
            for fn in self.anchors:
                anch.extend(fn(lv.st))
            lite = self.auto_linear == 'lite'
            for l, v, v0 in vars_:
                if lite and not l.startswith('phi%'):
                    continue
                w = v.size()
                terms = [('0', BV(0, w))]
                if v0 is not None:
                    terms.append(('entry', v0))
                for an, at in anch:
                    if at.size() == w:
                        terms.append((an, at))
                    elif at.size() < w:
                        terms.append((an + 'z', z3.ZeroExt(w - at.size(), at)))
                for l2, x, x0 in vars_:
                    if l2 != l and x.size() == w and not lite:
                        terms.append((l2, x))
                        if x0 is not None:
                            terms.append((l2 + '@entry', x0))
                for tn, t in terms:
                    if z3.is_bv_value(t) and t.as_long() == 0:
                        out.append(('%s >=s %s' % (l, tn), v >= t))
                        continue
                    out.append(('%s <=u %s' % (l, tn), z3.ULE(v, t)))
                    out.append(('%s >=u %s' % (l, tn), z3.UGE(v, t)))
                    out.append(('%s <=s %s' % (l, tn), v <= t))
                    out.append(('%s >=s %s' % (l, tn), v >= t))
                    out.append(('%s !=  %s' % (l, tn), v != t))
                # lockstep
                if v0 is not None:
                    for l2, x, x0 in vars_:
                        if l2 > l and (not lite or l2.startswith('phi%')) and x.size() == w and x0 is not None:
                            out.append(('%s lockstep %s' % (l, l2), v - v0 == x - x0))
                            out.append(('%s antistep %s' % (l, l2), v - v0 == x0 - x))
            for l, b, b0 in lv.bools:
                out.append(('%s true' % l, b)); out.append(('%s false' % l, z3.Not(b)))
        for s in self.loop_specs:
            r = s(lv)
            if r:
                out.extend(r)
        # unique names
        seen, res = set(), []
        for n, f in out:
            if n in seen:
                continue
            seen.add(n)
            res.append((n, f))
        return res

    def havoc_value(self, name, v, stride=None):
        if z3.is_bool(v):
            return fresh(name, z3.BoolSort())
        if z3.is_bv(v) or z3.is_array(v):
            return fresh(name, v.sort())
        if isinstance(v, Ptr):
            if v.r.isnull:
                raise Unsupported('loop-carried pointer starting at null: ' + name)
            if v.id is not None:
                return Ptr(v.r, v.o, fresh(name + '_id', z3.BitVecSort(64)))
            s = stride or self.stride_of(v.r)
            k = fresh(name + '_k', z3.BitVecSort(64))
            hook = getattr(v.r, 'base_hook', None)
            base = hook(self, v, s) if hook else None
            if base is not None:
                return Ptr(v.r, base + Off(0, ((s, k),)))
            if all(a % s == 0 for a, _ in v.o.t):
                return Ptr(v.r, Off(v.o.c % s, ((s, k),)))     # absolute element index
            return Ptr(v.r, v.o + Off(0, ((s, k),)))
        if isinstance(v, Undef):
            return UNDEF
        if isinstance(v, FP):
            return FP(fresh(name, v.t.sort()))
        if isinstance(v, PtrInt):
            return PtrInt(self.havoc_value(name, v.p))
        raise Unsupported('cannot havoc %r (%s)' % (v, name))

    def pick_stride(self, strides, k, v):
        if not (isinstance(v, Ptr) and v.id is None and not v.r.isnull):
            return None
        opts = v.r.stride
        if not isinstance(opts, (list, tuple)):
            return None
        return opts[strides.setdefault(k, 0)]

    def check_stride(self, strides, k, v0, v):
        if not (isinstance(v, Ptr) and v.id is None and isinstance(v0, Ptr) and v0.r is v.r) or k not in strides:
            return False
        s = v.r.stride[strides[k]]
        d = v.o + v0.o.neg()
        if d.c % s == 0 and all(c % s == 0 for c, _ in d.t):
            return False
        if strides[k] + 1 >= len(v.r.stride):
            raise Unsupported('pointer stride')
        strides[k] += 1
        return True

    def do_loop(self, ctx, h, prev, st):
        blk = ctx.f.blocks[h]
        blocks = ctx.f.loops[h]
        entry = st
        self.phis(entry, blk, prev)
        phi0 = {i.res: entry.env[i.res] for i in blk.phis}
        kinds = {i.res: i.d['ty'] for i in blk.phis}
        for k, v in list(phi0.items()):
            if isinstance(v, Undef):
                t = self.m.resolve(kinds[k])
                if t.k == 'int':
                    phi0[k] = fresh('undef', z3.BitVecSort(t.w)) if t.w > 1 else fresh('undef', z3.BoolSort())
                    entry.env[k] = phi0[k]
        key = (ctx.f.name, h)
        mark = next(_ctr)
        warm = getattr(self, 'warm', None)
        if warm is None:
            warm = self.warm = {}
        mods = set(warm.get((key, 'mods'), ()))
        mods = {m for m in mods if m[0] in entry.mem and m[1] in entry.mem[m[0]]}
        alive = None
        nullphi = {}
        strides = {}
        self.cur_loop = (ctx.f, blocks)
        rounds = 0
        entry_writes = set(entry.writes)
        while True:
            rounds += 1
            if rounds > 400:
                raise Unsupported('invariant inference does not converge')
            self.cur_loop = (ctx.f, blocks)
            hst = entry.copy()
            hst.writes = set()
            phis = {}
            for k, v in phi0.items():
                if k in nullphi:
                    v = nullphi[k]
                phis[k] = self.havoc_value('%s_%s' % (h, k), v, self.pick_stride(strides, k, v))
                hst.env[k] = phis[k]
            for (r, kk) in sorted(mods, key=modkey):
                cell = hst.mem[r][kk]
                if kk[0] == 'c':
                    hst.mem[r][kk] = (cell[0], self.havoc_value('%s_%s' % (r.name, kk[1]), cell[1], self.pick_stride(strides, (r.name, kk), cell[1])))
                else:
                    hst.mem[r][kk] = self.havoc_value('%s_%s' % (r.name, kk[1]), cell)
            lv_h = self.loopview(ctx, blk, entry, hst, phi0, phis, mods)
            lv_e = self.loopview(ctx, blk, entry, entry, phi0, phi0, mods)
            ch = self.candidates(lv_h)
            if alive is None:
                ce = dict(self.candidates(lv_e))
                names = [n for n, _ in ch if n in ce]
                alive = self.filter_cands(entry, [(n, ce[n]) for n in names])
                init_ok = set(alive)
            chd = dict(ch)
            if sum(n.startswith('!!') for n, _ in ch) != sum(n.startswith('!!') for n in chd):
                raise RuntimeError('two mandatory loop invariants with the same name')
            hst.assume(*[chd[n] for n in alive if n in chd])
            cut = Cut(h, blocks)
            outs = []
            c2 = Ctx(ctx.f, outs, cut, ctx)
            c2.depth, c2.id = ctx.depth, ctx.id
            self.mute += 1
            try:
                self.exec_block(c2, None, h, hst.copy(), skip_phis=True)
            finally:
                self.mute -= 1
            newmods = set()
            for s, *_ in cut.backs:
                for (r, kk) in sorted(s.writes, key=modkey):
                    if (r, kk) not in mods and not getattr(r, 'local_dead', False):
                        if r in entry.mem and kk in entry.mem[r]:
                            newmods.add((r, kk))
                        elif r in hst.mem or r is GHOST or not getattr(r, 'fresh_in_loop', False):
                            # cell first touched inside the loop: materialise it at entry
                            if self.materialise(entry, r, kk, s, mark):
                                newmods.add((r, kk))
            # pointer phis that change region or start at null
            changed = False
            for s, p in cut.backs:
                s2env = {}
                for i in blk.phis:
                    for v, b in i.d['in']:
                        if b == p:
                            s2env[i.res] = self.val(s, v, i.d['ty'])
                s.notes['phi'] = s2env
                for k, v in s2env.items():
                    cur = phis[k]
                    if isinstance(cur, Ptr) and isinstance(v, Ptr):
                        if cur.r is not v.r and not (v.r.isnull and cur.r.family):
                            raise Unsupported('loop-carried pointer %s changes object' % k)
                for (r, kk) in sorted(mods, key=modkey):
                    if kk[0] == 'c':
                        a, b = hst.mem[r][kk][1], s.mem[r].get(kk, (0, None))[1]
                        if isinstance(a, Ptr) or isinstance(b, Ptr):
                            if not (isinstance(a, Ptr) and isinstance(b, Ptr) and a.r is b.r):
                                raise Unsupported('loop-carried pointer cell %s+%s changes object' % (r, kk[1]))
            restride = False
            for s, p in cut.backs:
                for k, v in s.notes['phi'].items():
                    restride |= self.check_stride(strides, k, phi0[k], v)
                for (r, kk) in sorted(mods, key=modkey):
                    if kk[0] == 'c' and kk in s.mem.get(r, {}):
                        restride |= self.check_stride(strides, (r.name, kk), entry.mem[r][kk][1], s.mem[r][kk][1])
            if restride and not newmods:
                alive = None
                continue
            if newmods:
                mods |= newmods
                alive = None
                warm[(key, 'mods')] = set(mods)
                continue
            # consecution
            dropped = set()
            for s, p in cut.backs:
                pv = s.notes['phi']
                for k, v in pv.items():
                    if isinstance(v, Undef) and z3.is_expr(phis[k]):
                        pv[k] = fresh('undef', phis[k].sort())
                s.env.update(pv)
                lv_b = self.loopview(ctx, blk, entry, s, phi0, pv, mods)
                cb = dict(self.candidates(lv_b))
                todo = [(n, cb.get(n, z3.BoolVal(False))) for n in alive if n not in dropped]
                good = self.filter_cands(s, todo)
                dropped |= set(n for n, _ in todo) - set(good)
            if dropped:
                alive = [n for n in alive if n not in dropped]
                continue
            break
        # final pass with obligations
        hst2 = entry.copy()
        hst2.writes = set()
        for k in phis:
            hst2.env[k] = phis[k]
        for (r, kk) in sorted(mods, key=modkey):
            hst2.mem[r][kk] = hst.mem[r][kk]
        hst2.notes = dict(hst.notes)
        hst2.pc = list(hst.pc)      # entry facts, axioms instantiated by the specs and the surviving invariants
        if not self.mute:
            for n in chd:
                if n.startswith('!!') and n not in alive:    # mandatory: other facts are instances of it
                    self.oblige(entry.copy(), z3.BoolVal(False), 'loop invariant of %s: %s' % (lv_h.fn, n[2:]), 'invariant')
            self.loops_info.append({'function': lv_h.fn, 'invariants': len(alive), 'candidates': len(chd), 'rounds': rounds,
                                    'kept': [n for n in alive][:60]})
            self.obs.append(Obligation('invariants of loop in %s: %d hold initially and are preserved' % (lv_h.fn, len(alive)), 'proved', 'z3', 0, None, 'invariant'))
        cut = Cut(h, blocks)
        c2 = Ctx(ctx.f, ctx.outcomes, cut, ctx)
        c2.depth, c2.id = ctx.depth, ctx.id
        self.exec_block(c2, None, h, hst2, skip_phis=True)
        for s, *_ in cut.exits:
            s.writes |= entry_writes | mods
        return cut.exits

    def materialise(self, entry, r, kk, s, mark):
        if r.birth > mark:
            # allocated inside the loop body: not loop-carried (an escaping pointer is rejected by the caller)
            return False
        cell = s.mem[r].get(kk)
        if cell is None:
            return False
        if kk[0] == 'c':
            if isinstance(cell[1], (Ptr, CondPtr)) and kk[1] not in r.fields:
                raise Unsupported('pointer cell %s+%s first written inside a loop' % (r, kk[1]))
            v = self.default(entry, r, kk[1], cell[0], isinstance(cell[1], Ptr))
            self.rmem(entry, r)[kk] = (cell[0], v)
        elif kk[0] == 'a':
            if r.family:
                w = cell.range().size()
                self.fam_arr(entry, r, kk[1], w)
            else:
                a = [a for a in r.arrays if a.lo == kk[1]][0]
                self.arr_get(entry, r, a)
        else:
            return False
        return True

    alloca_nullable = None           # mapping offset -> family for null pointers stored in local variables

    def filter_cands(self, st, cands):
        """largest subset of cands entailed by st.pc (individually)"""
        good = []
        qf, qt = [], []
        for n, f in cands:
            if has_quant(f):
                qt.append((n, f))
            else:
                g = z3.simplify(f)
                if z3.is_true(g):
                    good.append(n)
                elif z3.is_false(g):
                    r = None
                    qf.append((n, g))
                else:
                    qf.append((n, g))
        # quantifier-free: batch with model-guided dropping; a fresh solver per
        # query (z3's incremental mode skips the preprocessing these need)
        pcs = st.pc
        base = [c for c in pcs if not has_quant(c)]
        t0 = time.time()
        rest = qf
        unsure = []
        while rest:
            if time.time() > self.deadline:
                raise Unsupported('time budget exhausted in unit ' + self.unit)
            s = self.solver(self.cand_timeout)
            s.add(*base)
            s.add(z3.Or(*[z3.Not(f) for _, f in rest]))
            r = s.check()
            self.nq += 1
            if r == z3.unsat:
                good += [n for n, _ in rest]
                rest = []
            elif r == z3.sat:
                m = s.model()
                keep, drop = [], []
                for n, f in rest:
                    (drop if z3.is_false(m.eval(f, model_completion=True)) else keep).append((n, f))
                if not drop:
                    rest = self.one_by_one(base, rest, good)
                    unsure += rest
                    break
                unsure += drop
                rest = keep
            else:
                unsure += self.one_by_one(base, rest, good)
                rest = []
        self.t_solver += time.time() - t0
        # candidates refuted without the quantified facts may still follow with them
        if any(has_quant(c) for c in pcs) and unsure:
            for n, f in unsure:
                if n.startswith('!') or self.quant_retry(n):
                    r, _ = self.entails(st, f, self.cand_timeout)
                    if r == z3.unsat:
                        good.append(n)
        elif unsure:
            # individually (batch could be unknown)
            for n, f in unsure:
                if n.startswith('!'):
                    r, _ = self.entails(st, f, self.cand_timeout)
                    if r == z3.unsat:
                        good.append(n)
        for n, f in qt:
            r, _ = self.entails(st, f, self.cand_timeout * 2)
            if r == z3.unsat:
                good.append(n)
        order = {n: i for i, (n, _) in enumerate(cands)}
        good.sort(key=lambda n: order[n])
        return good

    def local_subset(self, base, g):
        """the constraints of base that talk only about the goal's symbols (and what equalities tie to them)"""
        syms = set(free_syms(g))
        for _ in range(2):
            for c in base:
                cs = free_syms(c)
                if z3.is_eq(c) and cs & syms and len(cs) <= 4:
                    syms |= cs
        return [c for c in base if free_syms(c) <= syms]

    def one_by_one(self, base, rest, good):
        bad = []
        for n, f in rest:
            s = self.solver(max(200, self.cand_timeout // 4))
            s.add(*self.local_subset(base, f))
            s.add(z3.Not(f))
            self.nq += 1
            if s.check() == z3.unsat:
                good.append(n)
                continue
            s = self.solver(self.cand_timeout)
            s.add(*base)
            s.add(z3.Not(f))
            r = s.check()
            self.nq += 1
            if r == z3.unsat or (r == z3.unknown and self.use_cvc5 and self._cvc5(s, 20000) == 'unsat'):
                good.append(n)
            else:
                bad.append((n, f))
        return bad

    def quant_retry(self, n):
        return False


def modkey(x):
    return (x[0].name, str(x[1]))


OPAQUE = Region('opaque', family=True)


def conc_int(v):
    return conc(v) if z3.is_expr(v) else None


BIN = {
    'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b,
    'udiv': lambda a, b: z3.UDiv(a, b), 'sdiv': lambda a, b: a / b, 'urem': lambda a, b: z3.URem(a, b), 'srem': lambda a, b: z3.SRem(a, b),
    'shl': lambda a, b: a << b, 'lshr': lambda a, b: z3.LShR(a, b), 'ashr': lambda a, b: a >> b,
    'and': lambda a, b: a & b, 'or': lambda a, b: a | b, 'xor': lambda a, b: a ^ b,
}
CMP = {
    'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
    'ult': z3.ULT, 'ule': z3.ULE, 'ugt': z3.UGT, 'uge': z3.UGE,
    'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b,
}


# ---------------------------------------------------------------- contracts on the language runtime
def _new(E, st, args, dem):
    E.assumptions.add('operator new returns fresh storage and does not fail')
    n = conc(args[0])
    r = Region('new_%d' % next(_ctr), size=n)
    if n is None:
        r.bytes_sym = args[0]
    r.alloc = True
    return Ptr(r, 0)


def _delete(E, st, args, dem):
    p = args[0]
    if isinstance(p, Ptr) and not p.r.isnull and p.r is not OPAQUE and not p.r.family:
        if p.r in st.freed:
            E.oblige(st, z3.BoolVal(False), 'safety: double free of %s' % p.r, 'safety')
        st.freed = st.freed | {p.r}
    return None


def _throw(E, st, args, dem):
    return [Outcome(st, 'throw')]


def _noreturn(E, st, args, dem):
    return [Outcome(st, 'noreturn')]


def _exc_alloc(E, st, args, dem):
    return Ptr(Region('exc_%d' % next(_ctr), size=conc(args[0])), 0)


def _memcpy(E, st, args, dem):
    E.memcpy(st, E.deref(st, args[0]), E.deref(st, args[1]), args[2], 'memcpy')
    return args[0]


def _memset(E, st, args, dem):
    E.memset(st, E.deref(st, args[0]), z3.Extract(7, 0, args[1]), args[2])
    return args[0]


def _nop(E, st, args, dem):
    return None


def _libc_single_threaded(E, st, args, dem):
    return BV(0, 32)


BUILTINS = {
    '_Znwm': _new, '_Znam': _new, '_ZdlPv': _delete, '_ZdlPvm': _delete, '_ZdaPv': _delete, '_ZdaPvm': _delete,
    '__cxa_allocate_exception': _exc_alloc, '__cxa_throw': _throw, '__cxa_free_exception': _nop, '__cxa_rethrow': _throw,
    '__cxa_begin_catch': _nop, '__cxa_end_catch': _nop,
    'abort': _noreturn, '__assert_fail': _noreturn, 'exit': _noreturn, '_ZSt9terminatev': _noreturn,
    'memcpy': _memcpy, 'memmove': _memcpy, 'memset': _memset,
    'std::__throw_out_of_range_fmt': _throw, 'std::__throw_length_error': _throw, 'std::__throw_bad_alloc': _throw, 'std::__throw_logic_error': _throw,
    'std::__throw_out_of_range': _throw, 'std::__throw_bad_array_new_length': _throw, 'std::__throw_bad_function_call': _throw,
}
