"""Parser for the textual LLVM 18 IR subset that clang/opt emit for the sources under contract.

Nothing here knows about trident: it turns `.ll` text into Module/Function/Block/Inst objects.
Anything it does not understand raises Unsupported *when executed*, not when parsed.
"""
import re, subprocess


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------ types
class Ty:
    __slots__ = ('k', 'w', 'elems', 'n', 'packed', 'name')

    def __init__(self, k, w=0, elems=None, n=0, packed=False, name=None):
        self.k, self.w, self.elems, self.n, self.packed, self.name = k, w, elems, n, packed, name

    def __repr__(self):
        if self.k == 'int':
            return 'i%d' % self.w
        if self.k == 'named':
            return '%' + self.name
        if self.k in ('array', 'vector'):
            return '[%d x %r]' % (self.n, self.elems)
        if self.k == 'struct':
            return '{%s}' % ','.join(map(repr, self.elems))
        return self.k


PTR = Ty('ptr'); VOID = Ty('void'); I64 = Ty('int', 64); I32 = Ty('int', 32); I8 = Ty('int', 8); I1 = Ty('int', 1)

TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[@%](?:"(?:[^"\\]|\\.)*"|[-\w$.]+)|[-+]?\d+\.\d+(?:e[-+]?\d+)?|0x[0-9A-FKLMHR]+|-?\d+|\.\.\.|[A-Za-z_][\w.]*|![\w.]*|\#\d+|[^\s])''')


def tokenize(s):
    out, i = [], 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            break
        out.append(m.group(1))
        i = m.end()
    return out


class Toks:
    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise Unsupported('parse: expected %s got %s in %s' % (x, y, ' '.join(self.t[:40])))


def parse_type(T):
    t = T.next()
    if t == 'ptr':
        if T.peek() == 'addrspace':
            T.next(); T.expect('('); T.next(); T.expect(')')
        r = PTR
    elif t == 'void':
        r = VOID
    elif re.fullmatch(r'i\d+', t):
        r = Ty('int', int(t[1:]))
    elif t in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
        r = Ty('fp', {'float': 32, 'double': 64, 'x86_fp80': 128, 'half': 16, 'fp128': 128}[t])
    elif t in ('metadata', 'label', 'token'):
        r = Ty(t)
    elif t == 'opaque':
        r = Ty('opaque')
    elif t == '[':
        n = int(T.next()); T.expect('x'); e = parse_type(T); T.expect(']')
        r = Ty('array', elems=e, n=n)
    elif t == '<':
        if T.peek() == '{':
            T.next()
            el = []
            while not T.accept('}'):
                el.append(parse_type(T)); T.accept(',')
            T.expect('>')
            r = Ty('struct', elems=el, packed=True)
        else:
            n = int(T.next()); T.expect('x'); e = parse_type(T); T.expect('>')
            r = Ty('vector', elems=e, n=n)
    elif t == '{':
        el = []
        while not T.accept('}'):
            el.append(parse_type(T)); T.accept(',')
        r = Ty('struct', elems=el)
    elif t[0] == '%':
        r = Ty('named', name=unq(t[1:]))
    else:
        raise Unsupported('type %r in %s' % (t, ' '.join(T.t[:30])))
    # function types: "T (args)"
    if T.peek() == '(' and T.peek(1) is not None and _looks_fn_type(T):
        T.next()
        while not T.accept(')'):
            if T.accept('...'):
                continue
            parse_type(T)
            T.accept(',')
        r = Ty('func', elems=r)
    return r


def _looks_fn_type(T):
    a = T.peek(1)
    return a in (')', '...', 'ptr', '{', '[', 'void') or re.fullmatch(r'i\d+|float|double', a or '') or (a and a[0] == '%' and T.peek(2) in (',', ')'))


def unq(s):
    return s[1:-1] if s and s[0] == '"' else s


ATTRS = set('''noundef dead_on_unwind writable nonnull zeroext signext inreg noalias nocapture readonly writeonly readnone returned nest immarg
 dso_local local_unnamed_addr unnamed_addr internal private linkonce_odr linkonce weak weak_odr external common appending
 available_externally hidden protected default tail musttail notail fastcc ccc coldcc nofree noinline swiftself inalloca
 nuw nsw exact inbounds fast nnan ninf nsz arcp contract afn reassoc volatile disjoint nneg thread_local allocptr allocalign'''.split())


def skip_attrs(T):
    while True:
        p = T.peek()
        if p in ATTRS:
            T.next()
            if p == 'thread_local' and T.peek() == '(':
                T.next(); T.next(); T.expect(')')
        elif p in ('align',):
            T.next()
            if T.accept('('):
                T.next(); T.expect(')')
            else:
                T.next()
        elif p in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'byref', 'elementtype', 'preallocated',
                   'range', 'memory', 'captures', 'allockind', 'allocsize', 'vscale_range', 'nofpclass', 'initializes'):
            T.next()
            if T.accept('('):
                d = 1
                while d:
                    x = T.next()
                    d += (x == '(') - (x == ')')
        else:
            return


# ------------------------------------------------------------------ operands (unresolved)
# ('reg',name) ('glob',name) ('int',n) ('null',) ('undef',) ('poison',) ('zero',) ('fp',txt)
# ('cexpr', op, ...)  ('agg',[ (ty,op) ])  ('str',bytes)
def parse_val(T, ty):
    t = T.next()
    if t[0] == '%':
        return ('reg', unq(t[1:]))
    if t[0] == '@':
        return ('glob', unq(t[1:]))
    if t == 'null':
        return ('null',)
    if t in ('undef', 'poison'):
        return ('undef',)
    if t == 'zeroinitializer':
        return ('zero',)
    if t == 'true':
        return ('int', 1)
    if t == 'false':
        return ('int', 0)
    if t == 'none':
        return ('null',)
    if ty is not None and ty.k == 'fp':
        return ('fp', t)
    if re.fullmatch(r'-?\d+', t):
        return ('int', int(t))
    if t.startswith('c"'):
        return ('str', unescape(t[2:-1]))
    if t in ('getelementptr', 'bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'sub', 'add', 'mul', 'icmp', 'select', 'dso_local_equivalent', 'no_cfi'):
        return parse_cexpr(T, t)
    if t == '[' or t == '{' or (t == '<'):
        close = {'[': ']', '{': '}', '<': '>'}[t]
        els = []
        if t == '<' and T.peek() == '{':
            T.next(); close = '}'
            els = _agg(T, close); T.expect('>')
            return ('agg', els)
        return ('agg', _agg(T, close))
    if t in ('asm', 'blockaddress'):
        return ('unsupported', t)
    return ('unsupported', t)


def _agg(T, close):
    els = []
    while not T.accept(close):
        ty = parse_type(T)
        els.append((ty, parse_val(T, ty)))
        T.accept(',')
    return els


def unescape(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92); i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16)); i += 3
        else:
            out.append(ord(s[i])); i += 1
    return bytes(out)


def parse_cexpr(T, op):
    skip_attrs(T)
    if T.peek() == 'inrange':
        T.next()
        if T.accept('('):
            while not T.accept(')'):
                T.next()
    T.expect('(')
    if op == 'getelementptr':
        base = parse_type(T); T.expect(',')
        args = []
        while not T.accept(')'):
            if T.peek() == 'inrange':
                T.next()
                if T.accept('('):
                    while not T.accept(')'):
                        T.next()
            ty = parse_type(T); args.append((ty, parse_val(T, ty))); T.accept(',')
        return ('cexpr', 'gep', base, args)
    if op in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
        ty = parse_type(T); v = parse_val(T, ty); T.expect('to'); t2 = parse_type(T); T.expect(')')
        return ('cexpr', op, ty, v, t2)
    if op == 'icmp':
        op = 'icmp_' + T.next()
    args = []
    while not T.accept(')'):
        ty = parse_type(T); args.append((ty, parse_val(T, ty))); T.accept(',')
    return ('cexpr', op, args)


# ------------------------------------------------------------------ module
class Inst:
    __slots__ = ('op', 'res', 'd', 'text')

    def __init__(self, op, res, d, text):
        self.op, self.res, self.d, self.text = op, res, d, text


class Block:
    def __init__(self, name):
        self.name, self.insts, self.succ, self.pred = name, [], [], []
        self.phis = []


class Function:
    def __init__(self, name, rty, params, varargs=False):
        self.name, self.rty, self.params = name, rty, params
        self.blocks, self.order, self.decl = {}, [], True
        self.attrs = ''


class Module:
    def __init__(self, path):
        self.types, self.globals, self.funcs, self.aliases = {}, {}, {}, {}
        self.path = path
        self._parse(open(path, errors='replace').read())
        self._demangle()

    # ---- sizes
    def resolve(self, ty):
        while ty.k == 'named':
            ty = self.types[ty.name]
        return ty

    def align(self, ty):
        ty = self.resolve(ty)
        if ty.k == 'int' or ty.k == 'fp':
            b = (ty.w + 7) // 8
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if ty.k == 'ptr':
            return 8
        if ty.k == 'array':
            return self.align(ty.elems)
        if ty.k == 'vector':
            return max(1, self.size(ty))
        if ty.k == 'struct':
            return 1 if ty.packed else max([1] + [self.align(e) for e in ty.elems])
        raise Unsupported('align %r' % ty)

    def size(self, ty):
        ty = self.resolve(ty)
        if ty.k in ('int', 'fp'):
            b = (ty.w + 7) // 8
            a = self.align(ty)
            return (b + a - 1) // a * a
        if ty.k == 'ptr':
            return 8
        if ty.k in ('array', 'vector'):
            return ty.n * self.size(ty.elems)
        if ty.k == 'struct':
            return self.layout(ty)[1]
        raise Unsupported('size %r' % ty)

    def layout(self, ty):
        ty = self.resolve(ty)
        off, offs = 0, []
        al = 1
        for e in ty.elems:
            a = 1 if ty.packed else self.align(e)
            al = max(al, a)
            off = (off + a - 1) // a * a
            offs.append(off)
            off += self.size(e)
        off = (off + al - 1) // al * al
        return offs, off

    # ---- parsing
    def _parse(self, txt):
        cur = None
        lines = txt.split('\n')
        i = 0
        blk = None
        while i < len(lines):
            ln = lines[i]; i += 1
            if not ln or ln[0] == ';' or ln[0] == '!':
                continue
            if cur is None:
                if ln[0] == '%':
                    m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = type (.*)$', ln)
                    T = Toks(tokenize(m.group(2)))
                    self.types[unq(m.group(1))] = parse_type(T)
                elif ln[0] == '@':
                    self._global(ln)
                elif ln.startswith('define') or ln.startswith('declare'):
                    f = self._fnhead(ln)
                    if f is None:
                        continue
                    self.funcs[f.name] = f
                    if ln.startswith('define'):
                        f.decl = False
                        cur = f
                        blk = None
                continue
            if ln[0] == '}':
                self._finish(cur)
                cur = None
                continue
            m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w$.]+):', ln)
            if m and ln[0] != ' ':
                blk = Block(unq(m.group(1)))
                cur.blocks[blk.name] = blk; cur.order.append(blk.name)
                continue
            if blk is None:
                nm = str(len(cur.params))
                # implicit entry label is the next unnamed number
                blk = Block('%entry')
                cur.blocks[blk.name] = blk; cur.order.append(blk.name)
                cur.entry_num = nm
            s = ln.strip()
            # multi-line constructs
            if re.match(r'(%[^ ]+ = )?switch ', s) and s.endswith('['):
                while not lines[i].strip().startswith(']'):
                    s += ' ' + lines[i].strip(); i += 1
                s += ' ]'; i += 1
            elif ' invoke ' in (' ' + s) and ' unwind label' not in s:
                s += ' ' + lines[i].strip(); i += 1
            elif 'landingpad' in s:
                while i < len(lines) and (lines[i].strip().startswith('catch') or lines[i].strip().startswith('cleanup') or lines[i].strip().startswith('filter')):
                    s += ' ' + lines[i].strip(); i += 1
            s = re.sub(r', ![\w.]+ ![\w.]+', '', s)
            s = re.sub(r', !noalias ![\d]+', '', s)
            blk.insts.append(self._inst(s))
        # done

    def _global(self, ln):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', ln)
        name = unq(m.group(1)); rest = m.group(2)
        T = Toks(tokenize(rest))
        while T.peek() is not None and T.peek() not in ('global', 'constant', 'alias', 'ifunc'):
            T.next()
        kind = T.next()
        try:
            if kind == 'alias':
                parse_type(T)
                T.expect(','); ty = parse_type(T); v = parse_val(T, ty)
                self.aliases[name] = v
                return
            ty = parse_type(T)
            init = None
            if T.peek() not in (None, ','):
                init = parse_val(T, ty)
            self.globals[name] = (ty, init, kind == 'constant')
        except (Unsupported, IndexError, TypeError):
            self.globals[name] = (None, ('unsupported', rest[:60]), kind == 'constant')

    def _fnhead(self, ln):
        T = Toks(tokenize(ln))
        T.next()
        while True:
            skip_attrs(T)
            p = T.peek()
            if p in ('noundef',):
                T.next(); continue
            break
        rty = parse_type(T)
        nm = T.next()
        if nm[0] != '@':
            return None
        name = unq(nm[1:])
        T.expect('(')
        params = []
        va = False
        n = 0
        while not T.accept(')'):
            if T.accept('...'):
                va = True
                continue
            ty = parse_type(T)
            extra = {}
            s = T.i
            skip_attrs(T)
            at = T.t[s:T.i]
            pn = None
            if T.peek() and T.peek()[0] == '%':
                pn = unq(T.next()[1:])
            else:
                pn = str(n)
            if re.fullmatch(r'\d+', pn):
                n = int(pn) + 1
            params.append((pn, ty, at))
            T.accept(',')
        f = Function(name, rty, params, va)
        f.attrs = ' '.join(T.t[T.i:])
        f.va = va
        return f

    def _inst(self, s):
        res = None
        m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w$.]+) = (.*)$', s)
        body = s
        if m:
            res, body = unq(m.group(1)), m.group(2)
        T = Toks(tokenize(body))
        op = T.next()
        try:
            return Inst(op, res, self._decode(op, T), s) if op not in ('tail', 'musttail', 'notail') else self._tailcall(res, T, s)
        except (Unsupported, IndexError, TypeError, KeyError, ValueError) as e:
            return Inst('unsupported', res, {'why': '%s: %s' % (e, s[:120])}, s)

    def _tailcall(self, res, T, s):
        op = T.next()
        return Inst(op, res, self._decode(op, T), s)

    def _decode(self, op, T):
        d = {}
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            fl = T.i
            skip_attrs(T)
            d['flags'] = set(T.t[fl:T.i])
            ty = parse_type(T)
            d['ty'] = ty; d['a'] = parse_val(T, ty); T.expect(','); d['b'] = parse_val(T, ty)
        elif op == 'fneg':
            skip_attrs(T); ty = parse_type(T); d['ty'] = ty; d['a'] = parse_val(T, ty)
        elif op in ('icmp', 'fcmp'):
            skip_attrs(T)
            d['p'] = T.next(); ty = parse_type(T)
            d['ty'] = ty; d['a'] = parse_val(T, ty); T.expect(','); d['b'] = parse_val(T, ty)
        elif op == 'select':
            skip_attrs(T)
            cty = parse_type(T); d['c'] = parse_val(T, cty); T.expect(',')
            ty = parse_type(T); d['ty'] = ty; d['a'] = parse_val(T, ty); T.expect(',')
            ty = parse_type(T); d['b'] = parse_val(T, ty)
        elif op == 'phi':
            skip_attrs(T)
            ty = parse_type(T); d['ty'] = ty; d['in'] = []
            while T.accept('['):
                v = parse_val(T, ty); T.expect(','); b = T.next(); T.expect(']'); T.accept(',')
                d['in'].append((v, unq(b[1:])))
        elif op == 'alloca':
            skip_attrs(T); d['ty'] = parse_type(T); d['n'] = ('int', 1)
            if T.accept(','):
                if T.peek() != 'align':
                    ty = parse_type(T); d['n'] = parse_val(T, ty); d['nty'] = ty
        elif op == 'load':
            if T.accept('atomic'):
                d['atomic'] = True
            skip_attrs(T); ty = parse_type(T); T.expect(','); d['ty'] = ty; pt = parse_type(T); d['p'] = parse_val(T, pt)
        elif op == 'store':
            if T.accept('atomic'):
                d['atomic'] = True
            skip_attrs(T); ty = parse_type(T); d['ty'] = ty; d['v'] = parse_val(T, ty); T.expect(','); pt = parse_type(T)
            d['p'] = parse_val(T, pt)
        elif op == 'getelementptr':
            skip_attrs(T)
            d['base'] = parse_type(T); T.expect(','); args = []
            while T.peek() is not None:
                ty = parse_type(T); args.append((ty, parse_val(T, ty)))
                if not T.accept(','):
                    break
            d['args'] = args
        elif op in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'addrspacecast'):
            skip_attrs(T)
            ty = parse_type(T); d['ty'] = ty; d['a'] = parse_val(T, ty); T.expect('to'); d['to'] = parse_type(T)
        elif op == 'freeze':
            ty = parse_type(T); d['ty'] = ty; d['a'] = parse_val(T, ty)
        elif op == 'ret':
            ty = parse_type(T); d['ty'] = ty
            d['v'] = None if ty.k == 'void' else parse_val(T, ty)
        elif op == 'br':
            if T.accept('label'):
                d['t'] = [unq(T.next()[1:])]; d['c'] = None
            else:
                ty = parse_type(T); d['c'] = parse_val(T, ty); T.expect(','); T.expect('label'); a = unq(T.next()[1:]); T.expect(','); T.expect('label')
                d['t'] = [a, unq(T.next()[1:])]
        elif op == 'switch':
            ty = parse_type(T); d['ty'] = ty; d['v'] = parse_val(T, ty); T.expect(','); T.expect('label'); d['def'] = unq(T.next()[1:]); T.expect('[')
            d['cases'] = []
            while not T.accept(']'):
                cty = parse_type(T); c = parse_val(T, cty); T.expect(','); T.expect('label'); d['cases'].append((c, unq(T.next()[1:])))
        elif op in ('call', 'invoke'):
            skip_attrs(T)
            rty = parse_type(T)
            if rty.k == 'func':
                d['fty'] = rty; rty = rty.elems
            d['rty'] = rty
            if T.peek() == 'asm':
                raise Unsupported('inline asm')
            d['callee'] = parse_val(T, PTR)
            T.expect('('); args = []
            while not T.accept(')'):
                ty = parse_type(T); s = T.i; skip_attrs(T); at = T.t[s:T.i]
                if ty.k == 'metadata':
                    dep = 0
                    while not (dep == 0 and T.peek() in (',', ')')):
                        x = T.next(); dep += (x == '(') - (x == ')')
                    args.append((ty, ('undef',), at))
                else:
                    args.append((ty, parse_val(T, ty), at))
                T.accept(',')
            d['args'] = args
            if op == 'invoke':
                while T.next() != 'label':
                    pass
                d['normal'] = unq(T.next()[1:])
                while T.next() != 'label':
                    pass
                d['unwind'] = unq(T.next()[1:])
        elif op in ('extractvalue', 'insertvalue'):
            ty = parse_type(T); d['ty'] = ty; d['a'] = parse_val(T, ty); T.expect(',')
            if op == 'insertvalue':
                t2 = parse_type(T); d['ty2'] = t2; d['v'] = parse_val(T, t2); T.expect(',')
            d['idx'] = []
            while T.peek() is not None and re.fullmatch(r'\d+', T.peek()):
                d['idx'].append(int(T.next())); T.accept(',')
        elif op in ('unreachable', 'resume', 'landingpad', 'fence'):
            pass
        elif op == 'atomicrmw':
            skip_attrs(T)
            d['rop'] = T.next(); pt = parse_type(T); d['p'] = parse_val(T, pt); T.expect(','); ty = parse_type(T); d['ty'] = ty; d['v'] = parse_val(T, ty)
        elif op == 'cmpxchg':
            T.accept('weak'); skip_attrs(T)
            pt = parse_type(T); d['p'] = parse_val(T, pt); T.expect(','); ty = parse_type(T); d['ty'] = ty; d['old'] = parse_val(T, ty); T.expect(','); t2 = parse_type(T); d['new'] = parse_val(T, t2)
        else:
            raise Unsupported('op ' + op)
        return d

    def _finish(self, f):
        # implicit entry label
        first = f.order[0]
        en = getattr(f, 'entry_num', None)
        for bn in f.order:
            b = f.blocks[bn]
            k = 0
            while k < len(b.insts) and b.insts[k].op == 'phi':
                k += 1
            b.phis = b.insts[:k]
            b.body = b.insts[k:]
            t = b.insts[-1]
            if t.op == 'br':
                b.succ = list(dict.fromkeys(t.d['t']))
            elif t.op == 'switch':
                b.succ = list(dict.fromkeys([t.d['def']] + [c[1] for c in t.d['cases']]))
            elif t.op == 'invoke':
                b.succ = [t.d['normal'], t.d['unwind']]
            else:
                b.succ = []
        if first == '%entry' and en is not None:
            # phi nodes may name the implicit entry label by number
            nums = {p[0] for p in f.params}
            lab = None
            n = 0
            for pn, _, _ in f.params:
                if re.fullmatch(r'\d+', pn):
                    n = max(n, int(pn) + 1)
            lab = str(n)
            b = f.blocks.pop('%entry'); b.name = lab
            f.blocks[lab] = b; f.order[0] = lab
        for bn in f.order:
            for s in f.blocks[bn].succ:
                f.blocks[s].pred.append(bn)
        f.entry = f.order[0]
        self._loops(f)

    def _loops(self, f):
        # dominators (simple iterative) and natural loops
        order = f.order
        idx = {b: i for i, b in enumerate(order)}
        # reachable rpo
        seen, post = set(), []
        st = [(f.entry, iter(f.blocks[f.entry].succ))]
        seen.add(f.entry)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s); st.append((s, iter(f.blocks[s].succ)))
                    break
            else:
                post.append(b); st.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {f.entry: f.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in f.blocks[b].pred:
                    if p in idom and p in num:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]:
                                    x = idom[x]
                                while num[y] > num[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new; ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == idom[b]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in f.blocks[b].succ:
                if s in num and dom(s, b):
                    body = loops.setdefault(s, {s})
                    stack = [b]
                    while stack:
                        x = stack.pop()
                        if x not in body:
                            body.add(x)
                            stack.extend(p for p in f.blocks[x].pred if p in num)
        f.loops = loops
        f.rpo = num

    def _demangle(self):
        names = list(self.funcs) + [a for a in self.aliases]
        p = subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True)
        dm = p.stdout.split('\n')
        self.dem = dict(zip(names, dm))
        self.bydem = {}
        for n, d in self.dem.items():
            self.bydem.setdefault(d, n)

    def find(self, dem):
        """Find a function by demangled name (exact, or exact up to the parameter list; must be unique)."""
        if dem in self.funcs:
            return self.funcs[dem]
        c = []
        for n, d in self.dem.items():
            if n in self.aliases:
                continue
            if d == dem or strip_params(d) == dem:
                c.append(n)
        if not c:
            raise Unsupported('function not found in IR: ' + dem)
        defs = [x for x in c if not self.funcs[x].decl]
        if len(defs) > 1:
            # prefer C1/C2 duplicates being aliases; several overloads are ambiguous
            base = [x for x in defs if 'C1E' not in x and 'D1E' not in x and 'D0E' not in x]
            if len(base) == 1:
                return self.funcs[base[0]]
            raise Unsupported('ambiguous function %s: %s' % (dem, [self.dem[x] for x in defs]))
        return self.funcs[(defs or c)[0]]


def strip_params(d):
    """foo<int>::bar(int) const -> foo<int>::bar"""
    d = re.sub(r' const$', '', d)
    d = re.sub(r'\[abi:\w+\]', '', d)
    if not d.endswith(')'):
        return d
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == ')':
            depth += 1
        elif d[i] == '(':
            depth -= 1
            if depth == 0:
                d = d[:i]
                break
    # drop template return type "void foo<..>"
    depth = 0
    for i in range(len(d) - 1, -1, -1):
        if d[i] == '>':
            depth += 1
        elif d[i] == '<':
            depth -= 1
        elif d[i] == ' ' and depth == 0 and not d[:i].endswith('operator'):
            return d[i + 1:]
    return d
