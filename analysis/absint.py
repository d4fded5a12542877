"""Disjunctive abstract interpretation (property simulation) over monomorphised MIR.

A forward dataflow analysis whose abstract states pair a *monitor* value (the property's finite
typestate) with a symbolic store: locations -> terms, where terms are value numbers (`sym`), field
projections of value numbers, constants, aggregates and references to locations.  Branches on a
known discriminant/boolean are pruned, branches on an unknown one refine the term on both sides;
there is no solver and nothing is executed.  Joins keep states apart while they are few, and merge
states with equal monitor value otherwise (differing components become T); loops are iterated to a
fixed point with widening to T.  Local calls are analysed in the caller's context with memoised
summaries over the slice of the store they can reach.
"""
import sys
sys.setrecursionlimit(20000)


# ------------------------------------------------------------------ terms
class N:
    __slots__ = ('op', 'a', 'syms', 'depth', 'refs', 'h')

    def __repr__(self):
        return show(self)


_intern = {}
EMPTY = frozenset()


def mk(op, *a):
    key = (op,) + a
    n = _intern.get(key)
    if n is not None:
        return n
    n = N()
    n.op = op
    n.a = a
    syms = set()
    d = 0
    refs = op == 'ref'
    for x in a:
        if type(x) is N:
            syms |= x.syms
            d = max(d, x.depth)
            refs = refs or x.refs
        elif type(x) is tuple:
            for y in _flat(x):
                syms |= y.syms
                d = max(d, y.depth)
                refs = refs or y.refs
    if op == 'sym':
        syms = {n}
    n.syms = frozenset(syms)
    n.depth = d + 1
    n.refs = refs
    _intern[key] = n
    return n


def _flat(t):
    for x in t:
        if type(x) is N:
            yield x
        elif type(x) is tuple:
            yield from _flat(x)


T = mk('T')
UNIT = mk('agg', '()', 0, ())
TRUE = mk('c', True)
FALSE = mk('c', False)


def cint(v):
    return mk('c', v)


def cstr(v):
    return mk('s', v)


def agg(kind, variant, fields):
    return mk('agg', kind, variant, tuple(fields))


def sym(name):
    return mk('sym', name)


def ref(root, path=(), mut=False):
    if root[0] == '*' and not path:
        return root[1]
    return mk('ref', root, path, mut)


def show(n, d=0):
    if type(n) is not N:
        if type(n) is tuple:
            return '(' + ','.join(show(x, d + 1) for x in n) + ')'
        return str(n)
    if d > 7:
        return '..'
    if n.op == 'c':
        return repr(n.a[0])
    if n.op == 's':
        return repr(n.a[0])
    if n.op == 'agg':
        k = n.a[0]
        k = k.split('::')[-1] if isinstance(k, str) else str(k)
        return f"{k}#{n.a[1]}{show(n.a[2], d + 1)}"
    if n.op == 'ref':
        return f"&{'mut ' if n.a[2] else ''}{show(n.a[0], d + 1)}{show(n.a[1], d + 1) if n.a[1] else ''}"
    if n.op == 'fld':
        return f"{show(n.a[0], d + 1)}.{n.a[1] if n.a[1] is not None else ''}.{n.a[2]}"
    return n.op + ('(' + ','.join(show(x, d + 1) for x in n.a) + ')' if n.a else '')


MAXDEPTH = 14


def bound(n):
    return T if n.depth > MAXDEPTH else n


def field(v, key):
    """key = (variant or None, index)"""
    var, i = key
    if var == 'idx':
        if v.op == 'agg' and isinstance(i, int) and v.a[0] == '[]':
            return v.a[2][i] if i < len(v.a[2]) else T
        if v is T:
            return T
        return bound(mk('fld', v, 'idx', i))
    if v.op == 'agg':
        if var is not None and var != v.a[1]:
            return T
        return v.a[2][i] if i < len(v.a[2]) else T
    if v.op == 'upd':
        for k, x in v.a[1]:
            if k[1] == i and (k[0] == var or k[0] is None or var is None):
                return x
        return field(v.a[0], key)
    if v.op == 'V':
        return field(v.a[0], (v.a[1] if var is None else var, i))
    if v.op == 'X':
        return field(v.a[0], key)
    if v is T:
        return T
    return bound(mk('fld', v, var, i))


def setfield(v, path, val):
    if not path:
        return val
    key = path[0]
    if key[0] == 'idx' and not (v.op == 'agg' and v.a[0] == '[]' and isinstance(key[1], int)):
        return T
    sub = setfield(field(v, key), path[1:], val)
    var, i = key
    if v.op == 'agg':
        if var is not None and var != 'idx' and var != v.a[1]:
            return T
        fs = list(v.a[2])
        if i >= len(fs):
            return T
        fs[i] = sub
        return mk('agg', v.a[0], v.a[1], tuple(fs))
    if v is T:
        return T
    base, ov = (v.a[0], dict(v.a[1])) if v.op == 'upd' else (v, {})
    if field(base, key) is sub:
        ov.pop(key, None)
        if not ov:
            return base
    else:
        ov[key] = sub
    return mk('upd', base, tuple(sorted(ov.items(), key=lambda kv: (str(kv[0]),))))


class Subst:
    def __init__(self, old, new):
        self.old, self.new, self.memo = old, new, {}
        self.oldsyms = old.syms

    def __call__(self, n):
        if n is self.old:
            return self.new
        if not (self.oldsyms <= n.syms) or (self.oldsyms and not n.syms):
            return n
        if n.depth <= self.old.depth:
            return n
        r = self.memo.get(n)
        if r is not None:
            return r
        a = tuple(self._arg(x) for x in n.a)
        r = rebuild(n.op, a) if a != n.a else n
        self.memo[n] = r
        return r

    def _arg(self, x):
        if type(x) is N:
            return self(x)
        if type(x) is tuple:
            return tuple(self._arg(y) for y in x)
        return x


class Rename:
    """replace symbols by a mapping function"""

    def __init__(self, m):
        self.m, self.memo = m, {}
        self.keys = frozenset(m)

    def __call__(self, n):
        if not (n.syms & self.keys):
            return n
        r = self.m.get(n)
        if r is not None:
            return r
        r = self.memo.get(n)
        if r is not None:
            return r
        a = tuple(self._arg(x) for x in n.a)
        r = rebuild(n.op, a)
        self.memo[n] = r
        return r

    _arg = Subst._arg


def rebuild(op, a):
    if op == 'fld':
        return field(a[0], (a[1], a[2])) if a[0] is not T else T
    if op == 'ref':
        return ref(a[0], a[1], a[2])
    if op == 'disc':
        return disc(a[0], a[1], None)
    if op == 'bin':
        return binop(a[0], a[1], a[2])
    if op == 'un':
        return unop(a[0], a[1])
    if op in ('V', 'X') and (a[0].op in ('agg', 'c', 'T', 'V')):
        return a[0]
    if op == 'upd' and a[0].op != 'sym':
        v = a[0]
        if v is T:
            return T
        if v.op == 'agg':
            for k, x in a[1]:
                v = setfield(v, (k,), x)
            return v
    if op == 'app' and any(x is T for x in a[1:]):
        return T
    return mk(op, *a)


_facts = [None]


def disc(v, adt, facts):
    facts = facts or _facts[0]
    if v.op == 'agg':
        a = facts.adts.get(v.a[0])
        if a and v.a[1] < len(a['variants']):
            return cint(a['variants'][v.a[1]]['discr'])
        return cint(v.a[1])
    if v.op == 'V':
        a = facts.adts.get(adt)
        if a and v.a[1] < len(a['variants']):
            return cint(a['variants'][v.a[1]]['discr'])
        return cint(v.a[1])
    if v.op == 'upd':
        return disc(v.a[0], adt, facts)
    if v is T:
        return T
    return mk('disc', v, adt)


def unop(op, x):
    if op == 'Not':
        if x.op == 'c' and isinstance(x.a[0], bool):
            return FALSE if x.a[0] else TRUE
        if x.op == 'un' and x.a[0] == 'Not':
            return x.a[1]
    if x is T:
        return T
    if op == 'Neg' and x.op == 'c':
        return cint(-x.a[0])
    return mk('un', op, x)


def norm(x):
    return x.a[0] if x.op == 'X' else x


def binop(op, l, r):
    if op.endswith('WithOverflow') or op in ('AddUnchecked', 'SubUnchecked', 'MulUnchecked'):
        b = binop(op.replace('WithOverflow', '').replace('Unchecked', ''), l, r)
        if op.endswith('Unchecked'):
            return b
        return agg('()', 0, (b, FALSE))
    if l.op == 'c' and r.op == 'c':
        a, b = l.a[0], r.a[0]
        try:
            if op == 'Eq':
                return mk('c', a == b)
            if op == 'Ne':
                return mk('c', a != b)
            if op == 'Lt':
                return mk('c', a < b)
            if op == 'Le':
                return mk('c', a <= b)
            if op == 'Gt':
                return mk('c', a > b)
            if op == 'Ge':
                return mk('c', a >= b)
            if op == 'Add':
                return cint(a + b)
            if op == 'Sub':
                return cint(a - b)
            if op == 'Mul':
                return cint(a * b)
            if op == 'BitAnd':
                return mk('c', a & b)
            if op == 'BitOr':
                return mk('c', a | b)
            if op == 'BitXor':
                return mk('c', a ^ b)
        except TypeError:
            return T
    if op in ('Eq', 'Ne') and (l.op == 'X' or r.op == 'X'):
        x, c = (l, r) if l.op == 'X' else (r, l)
        if c.op == 'c' and c.a[0] in x.a[1]:
            return mk('c', op == 'Ne')
    if l is T or r is T:
        return T
    if op in ('Gt', 'Ge', 'Lt', 'Le') and (l.op == 'X' and r.op == 'c' or r.op == 'X' and l.op == 'c'):
        # not zero (of an unsigned number): at least one
        x, c, o = (l, r.a[0], op) if l.op == 'X' else (r, l.a[0], {'Gt': 'Lt', 'Lt': 'Gt', 'Ge': 'Le', 'Le': 'Ge'}[op])
        if 0 in x.a[1] and (o, c) in (('Gt', 0), ('Ge', 1)):
            return TRUE
        if 0 in x.a[1] and (o, c) in (('Le', 0), ('Lt', 1)):
            return FALSE
    if op == 'Ne':
        return unop('Not', binop('Eq', l, r))
    if op == 'Eq':
        if l is r:
            return TRUE
        if l.op == 'c':
            l, r = r, l
    return bound(mk('bin', op, l, r))


# ------------------------------------------------------------------ states
def contradict(a, b):
    """two refinements of the same term that exclude one another"""
    if a.op == 'V' and b.op == 'V' or a.op == 'c' and b.op == 'c':
        return a.a[-1] != b.a[-1]
    if a.op == 'X' and b.op in ('V', 'c'):
        return b.a[-1] in a.a[1]
    if b.op == 'X' and a.op in ('V', 'c'):
        return a.a[-1] in b.a[1]
    return False


class State:
    __slots__ = ('mem', 'mon', 'subs', '_k')

    def __init__(self, mem, mon, subs=()):
        self.mem, self.mon, self.subs = mem, mon, subs
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (frozenset(self.mem.items()), self.mon)
        return self._k

    def copy(self):
        return State(dict(self.mem), self.mon, self.subs)


class Out:
    """outcome of analysing a callee"""
    __slots__ = ('kind', 'ret', 'mem', 'mon', 'subs')

    def __init__(self, kind, ret, mem, mon, subs):
        self.kind, self.ret, self.mem, self.mon, self.subs = kind, ret, mem, mon, subs

    def key(self):
        return (self.kind, self.ret, frozenset(self.mem.items()), self.mon, self.subs)


class Budget(Exception):
    pass


class Monitor:
    """property hooks; every method may be overridden"""
    unwind = False

    def inline(self, eng, fn):
        return True

    def call(self, eng, cx, st, fr, args, site):
        """return None (default handling) or list of (retval, mon) / Out-like tuples"""
        return None

    def write(self, eng, cx, st, root, path, val, site):
        return None

    def drop(self, eng, cx, st, val, ty, site):
        return None

    def opaque_local(self, eng, cx, st, fn, args, site):
        return None

    def facts(self, st):
        """what is known on the path that must not be forgotten where paths join"""
        return None

    def skel(self, mem):
        return skel(mem)


class Engine:
    def __init__(self, facts, mon, cap=40, loopcap=10, budget=400000, relevant=None, small=60):
        self.f = facts
        _facts[0] = facts
        self.m = mon
        self.cap, self.loopcap = cap, loopcap
        self.budget = budget
        self.steps = 0
        self.memo = {}
        self.stack = []
        self.cfg = {}
        self.fns_seen = set()
        self.sites = set()
        self.imprecise = set()
        self.relevant = relevant
        self.small = small
        self.inlined_calls = 0
        self.joins = 0
        self.phi = False       # name values that differ where paths join, instead of forgetting them

    # -------------------------------------------------------- cfg info
    def info(self, f):
        r = self.cfg.get(f['id'])
        if r:
            return r
        nb = len(f['blocks'])
        succ = [[] for _ in range(nb)]
        for i, b in enumerate(f['blocks']):
            t = b['t']
            k = t['k']
            if k in ('goto', 'drop', 'assert'):
                succ[i].append(t['t'])
            elif k == 'switch':
                succ[i] += [x[1] for x in t['ts']] + [t['o']]
            elif k == 'call' and t['t'] is not None:
                succ[i].append(t['t'])
            if self.m.unwind and isinstance(t.get('u'), int):
                succ[i].append(t['u'])
        # rpo + loop heads
        order, heads, state = [], set(), {}
        stack = [(0, iter(succ[0]))]
        state[0] = 1
        while stack:
            n, it = stack[-1]
            for s in it:
                if state.get(s, 0) == 0:
                    state[s] = 1
                    stack.append((s, iter(succ[s])))
                    break
                elif state[s] == 1:
                    heads.add(s)
            else:
                state[n] = 2
                order.append(n)
                stack.pop()
        rpo = {b: i for i, b in enumerate(reversed(order))}
        # borrowed locals / liveness
        borrowed = set()
        use, dfn = [set() for _ in range(nb)], [set() for _ in range(nb)]

        def u(bi, l):
            if l not in dfn[bi]:
                use[bi].add(l)

        def place_use(bi, p):
            u(bi, p[0])
            for e in p[1]:
                if e[0] == 'i':
                    u(bi, e[1])

        def op_use(bi, o):
            if o[0] in 'cm':
                place_use(bi, o[1])

        def place_def(bi, p):
            if p[1]:
                place_use(bi, p)
            else:
                dfn[bi].add(p[0])

        for bi, b in enumerate(f['blocks']):
            for s in b['s']:
                if s[0] == '=':
                    rv = s[2]
                    if rv[0] == 'ref':
                        place_use(bi, rv[1])
                        if not any(e[0] == 'd' for e in rv[1][1]):
                            borrowed.add(rv[1][0])
                    elif rv[0] == 'discr':
                        place_use(bi, rv[1])
                    elif rv[0] in ('use', 'repeat'):
                        op_use(bi, rv[1])
                    elif rv[0] == 'cast':
                        op_use(bi, rv[2])
                    elif rv[0] == 'bin':
                        op_use(bi, rv[2])
                        op_use(bi, rv[3])
                    elif rv[0] == 'un':
                        op_use(bi, rv[2])
                    elif rv[0] == 'agg':
                        for o in rv[2]:
                            op_use(bi, o)
                    place_def(bi, s[1])
            t = b['t']
            if t['k'] == 'switch' or t['k'] == 'assert':
                op_use(bi, t['op'])
            elif t['k'] == 'drop':
                place_use(bi, t['p'])
            elif t['k'] == 'call':
                op_use(bi, t['f'])
                for a in t['a']:
                    op_use(bi, a)
                place_def(bi, t['d'])
            elif t['k'] == 'return':
                u(bi, 0)
        live = [set() for _ in range(nb)]
        ch = True
        while ch:
            ch = False
            for i in reversed(range(nb)):
                o = set()
                for s in succ[i]:
                    o |= live[s]
                nl = use[i] | (o - dfn[i])
                if nl != live[i]:
                    live[i] = nl
                    ch = True
        r = dict(succ=succ, rpo=rpo, heads=heads, live=live, borrowed=borrowed)
        self.cfg[f['id']] = r
        return r

    # -------------------------------------------------------- memory
    @staticmethod
    def init(root):
        if root[0] == '*':
            v = root[1]
            if v.op in ('s', 'b', 'T', 'lit'):
                return v.a[0] if v.op == 'lit' else v
            return mk('deref', v)
        return T

    def read(self, mem, root, path):
        v = mem.get(root)
        if v is None:
            v = self.init(root)
        for k in path:
            v = field(v, k)
        return v

    def write(self, mem, root, path, val):
        v = mem.get(root)
        if v is None:
            v = self.init(root)
        mem[root] = setfield(v, path, val)

    def resolve(self, mem, depth, p):
        root, path = ('l', depth, p[0]), ()
        var = None
        for e in p[1]:
            k = e[0]
            if k == 'd':
                v = self.read(mem, root, path)
                if v.op == 'ref':
                    root, path = v.a[0], v.a[1]
                else:
                    root, path = ('*', v), ()
                var = None
            elif k == 'f':
                path = path + ((var, e[1]),)
                var = None
            elif k == 'v':
                var = e[1]
            elif k == 'i':
                path = path + (('idx', self.read(mem, ('l', depth, e[1]), ())),)
            elif k == 'ci':
                path = path + (('idx', e[1] if not e[2] else -e[1]),)
            else:
                path = path + (('idx', 'sub'),)
        return root, path

    def const(self, k):
        return self.cval(k.get('v'), k.get('ty'))

    def cval(self, v, ty=None):
        if v is None:
            return T
        if 'bool' in v:
            return TRUE if v['bool'] else FALSE
        if 'int' in v:
            return cint(int(v['int']))
        if 'char' in v:
            return mk('c', v['char'])
        if 'str' in v:
            return cstr(v['str'])
        if 'bytes' in v:
            return mk('b', tuple(v['bytes']))
        if 'arr' in v:
            return agg('[]', 0, [self.cval(x) for x in v['arr']])
        if 'tuple' in v:
            return agg('()', 0, [self.cval(x) for x in v['tuple']])
        if 'adt' in v:
            return agg(v['adt'], v['variant'], [self.cval(x) for x in v['fields']])
        if 'ref' in v:
            return mk('lit', self.cval(v['ref']))
        if 'static' in v:
            return mk('static', v['static'])
        if 'fn' in v:
            return mk('fn', self.fnkey(v))
        if 'closure' in v:
            t = self.f.types[v['closure']]
            return agg(('cl', t.get('fn')), 0, ())
        if 'zst' in v:
            return UNIT
        return T

    def fnkey(self, v):
        key = v['full']
        self._fns = getattr(self, '_fns', {})
        self._fns[key] = v
        return key

    def operand(self, mem, depth, o):
        if o[0] == 'k':
            return self.const(o[1])
        root, path = self.resolve(mem, depth, o[1])
        return self.read(mem, root, path)

    def rvalue(self, mem, depth, rv):
        k = rv[0]
        if k == 'use':
            return self.operand(mem, depth, rv[1])
        if k == 'ref':
            root, path = self.resolve(mem, depth, rv[1])
            if root[0] == '*' and not path:
                return root[1]
            return ref(root, path, rv[2])
        if k == 'discr':
            root, path = self.resolve(mem, depth, rv[1])
            v = self.read(mem, root, path)
            return disc(v, self.f.types[rv[2]].get('adt'), self.f)
        if k == 'bin':
            l, r = self.operand(mem, depth, rv[2]), self.operand(mem, depth, rv[3])
            if rv[1] in ('Eq', 'Ne') and (l.op == 'c') != (r.op == 'c'):
                # a flag compared to a constant (of whole numbers, 0 and 1 are no flags)
                x, c, o = (r, l, rv[2]) if l.op == 'c' else (l, r, rv[3])
                if o[0] == 'k' and self.f.tyname(o[1].get('ty')) == 'bool':
                    return x if bool(c.a[0]) == (rv[1] == 'Eq') else unop('Not', x)
            return binop(rv[1], l, r)
        if k == 'un':
            x = self.operand(mem, depth, rv[2])
            if rv[1] == 'PtrMetadata':
                return mk('len', x) if x is not T else T
            return unop(rv[1], x)
        if k == 'cast':
            v = self.operand(mem, depth, rv[2])
            if v.op == 'c' and isinstance(v.a[0], str) and rv[1] == 'IntToInt':
                return cint(ord(v.a[0]))
            return v
        if k == 'agg':
            fs = [self.operand(mem, depth, o) for o in rv[2]]
            kd = rv[1]
            if kd[0] == 'adt':
                return agg(kd[1], kd[2], fs)
            if kd[0] == 'tuple':
                return agg('()', 0, fs)
            if kd[0] == 'array':
                return agg('[]', 0, fs)
            if kd[0] == 'closure':
                return agg(('cl', kd[2]), 0, fs)
            return T
        if k == 'repeat':
            return T
        if k == 'tls':
            return mk('static', rv[1])
        return T

    # -------------------------------------------------------- reachability slices
    def roots_of(self, vals, mem):
        seen_roots, syms = set(), set()
        work = list(vals)
        for r in mem:
            if r[0] == 'ev':        # ghost variables of the monitor: visible everywhere
                seen_roots.add(r)
                work.append(mem[r])
        derefs = [r for r in mem if r[0] == '*']
        while work:
            v = work.pop()
            new = v.syms - syms
            syms |= v.syms
            for r in refs_in(v):
                if r.a[0] not in seen_roots:
                    seen_roots.add(r.a[0])
                    x = mem.get(r.a[0])
                    if x is not None:
                        work.append(x)
                    if r.a[0][0] == '*':
                        work.append(r.a[0][1])
            if new:
                for r in derefs:
                    if r not in seen_roots and r[1].syms <= syms:
                        seen_roots.add(r)
                        work.append(mem[r])
                        work.append(r[1])
        return seen_roots, syms

    def mut_targets(self, mem, v, seen=None, mut=True):
        """locations reachable through &mut inside v"""
        out = []
        seen = seen if seen is not None else set()

        def go(x):
            if type(x) is tuple:
                for y in x:
                    go(y)
                return
            if type(x) is not N or not x.refs:
                return
            if x.op == 'ref':
                k = (x.a[0], x.a[1], x.a[2])
                if k in seen:
                    return
                seen.add(k)
                if x.a[2]:
                    out.append((x.a[0], x.a[1]))
                else:
                    go(self.read(mem, x.a[0], x.a[1]))
                return
            for y in x.a:
                go(y)
        go(v)
        return out

    def havoc_args(self, st, args, site, argtys=None):
        k = 0
        for ai, a in enumerate(args):
            for root, path in self.mut_targets(st.mem, a):
                self.write(st.mem, root, path, self.fresh(st, ('h', site, ai, k)))
                k += 1
            # &mut through a symbolic pointer (a bare parameter)
            if argtys and ai < len(argtys) and a.op not in ('ref', 'agg', 'c', 's', 'fn', 'T', 'lit', 'b'):
                t = self.f.ty(argtys[ai])
                if t.get('k') == 'ref' and t.get('mut'):
                    st.mem[('*', a)] = self.fresh(st, ('h', site, ai, 'd'))

    def fresh(self, st, name):
        n = mk('sym', name)
        # a second visit of the same point: forget the old value's identity
        if any(n in v.syms for v in st.mem.values()) or any(r[0] == '*' and n in r[1].syms for r in st.mem):
            self.kill(st, n)
        return n

    def kill(self, st, n):
        s = Rename({n: T})
        mem = {}
        for r, v in st.mem.items():
            if r[0] == '*' and n in r[1].syms:
                continue
            mem[r] = s(v)
        st.mem = mem
        st._k = None

    def subst(self, st, old, new, record=True):
        s = Subst(old, new)
        mem = {}
        for r, v in st.mem.items():
            if r[0] == '*':
                r2 = ('*', s(r[1]))
                if r2[1] is T:
                    continue
                if r2[1].op == 'ref':
                    continue
                r = r2
            mem[r] = s(v)
        st.mem = mem
        st._k = None
        if record:
            st.subs = st.subs + ((old, new),)

    # -------------------------------------------------------- refinement
    def refine(self, st, t, val, excluded=None):
        """assume term t == val (python const) or t not in excluded; False if infeasible"""
        if t.op == 'c':
            if excluded is not None:
                return t.a[0] not in excluded
            return t.a[0] == val
        if t is T or t.op in ('agg', 's'):
            return True
        if t.op == 'un' and t.a[0] == 'Not':
            if excluded is not None:
                if len(excluded) == 1:
                    return self.refine(st, t.a[1], bool(list(excluded)[0]))
                return True
            return self.refine(st, t.a[1], not val)
        isbool = t.op == 'bin' and t.a[0] in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge') or t.op == 'app'
        if excluded is not None and isbool and len(excluded) == 1 and (type(list(excluded)[0]) is bool or t.op == 'bin'):
            return self.refine(st, t, not bool(list(excluded)[0]))
        if t.op == 'bin' and t.a[0] == 'Eq' and t.a[2].op == 'c':
            if excluded is None:
                if val:
                    return self.refine(st, t.a[1], t.a[2].a[0])
                x = t.a[2].a[0]
                return self.refine(st, t.a[1], None, {int(x) if type(x) is bool else x})
        if t.op == 'disc':
            base, adt = t.a
            a = self.f.adts.get(adt)
            vs = {v['discr']: i for i, v in enumerate(a['variants'])} if a and a['variants'] else {}
            inner = norm(base)
            if excluded is None:
                if vs and val not in vs:
                    return False
                if base.op == 'X' and vs.get(val) in base.a[1]:
                    return False
                self.subst(st, base, mk('V', inner, vs.get(val, val)))
                return True
            ex = {vs.get(e, e) for e in excluded}
            if base.op == 'X':
                ex |= base.a[1]
            rest = [i for i in vs.values() if i not in ex]
            if vs and not rest:
                return False
            if len(rest) == 1:
                self.subst(st, base, mk('V', inner, rest[0]))
            elif ex:
                self.subst(st, base, mk('X', inner, frozenset(ex)))
            return True
        inner = norm(t)
        if excluded is None:
            if t.op == 'X' and val in t.a[1]:
                return False
            if isbool or t.op in ('sym', 'fld', 'deref', 'X', 'un', 'bin', 'len', 'app'):
                self.subst(st, t, mk('c', val))
            return True
        ex = set(excluded) | (set(t.a[1]) if t.op == 'X' else set())
        if t.op in ('sym', 'fld', 'deref', 'X', 'app') and len(ex) < 40:
            self.subst(st, t, mk('X', inner, frozenset(ex)))
        return True

    # -------------------------------------------------------- function analysis
    def call_fn(self, f, args, st, site, argtys=None):
        """analyse a local callee in context; returns list of (retval, State)"""
        depth = len(self.stack) + 1
        roots, syms = self.roots_of(args, st.mem)
        sl = {r: st.mem[r] for r in roots if r in st.mem}
        insyms = set(syms)
        for v in sl.values():
            insyms |= v.syms
        key = (f['id'], tuple(args), frozenset(sl.items()), st.mon, depth)
        outs = self.memo.get(key)
        if outs is None:
            outs = self.run(f, list(args), dict(sl), st.mon, depth, frozenset(insyms))
            self.memo[key] = outs
        res = []
        known = {a: b for a, b in st.subs}
        for o in outs:
            if any(a in known and contradict(known[a], b) for a, b in o.subs):
                continue
            s2 = State(dict(st.mem), o.mon, st.subs)
            for old, new in o.subs:
                self.subst(s2, old, new)
            # rename callee-local symbols
            osyms = set(o.ret.syms) if o.ret is not None else set()
            for r, v in o.mem.items():
                osyms |= v.syms
                if r[0] == '*':
                    osyms |= r[1].syms
            for x in _flat((o.mon,)) if isinstance(o.mon, tuple) else ():
                osyms |= x.syms
            new = {n: mk('sym', (site, n.a[0])) for n in osyms if n not in insyms and not isinstance(n.a[0], str)}
            for old, nw in new.items():
                if any(nw in v.syms for v in s2.mem.values()):
                    self.kill(s2, nw)
                    # the slice the callee saw may also mention it
            rn = Rename(new) if new else (lambda x: x)
            ret = rn(o.ret) if o.ret is not None else None
            if new and isinstance(o.mon, tuple):
                s2.mon = rename_tuple(o.mon, rn)
            for r in roots:
                s2.mem.pop(r, None)
            for r, v in o.mem.items():
                if r[0] == '*':
                    r = ('*', rn(r[1]))
                s2.mem[r] = rn(v)
            res.append((o.kind, ret, s2))
        return res

    def run(self, f, args, mem, mon, depth, insyms):
        self.fns_seen.add(f['id'])
        info = self.info(f)
        heads, rpo = info['heads'], info['rpo']
        nlocal = len(f['locals'])
        for i, a in enumerate(args):
            mem[('l', depth, i + 1)] = a
        self.stack.append(f['id'])
        st0 = State(mem, mon)
        seen = {}      # block -> {key: state}
        gone = {}      # states that have been merged into others
        pend = {0: [st0]}
        outs = {}
        import heapq
        hq = [(rpo[0], 0)]
        inq = {0}
        while hq:
            _, bi = heapq.heappop(hq)
            inq.discard(bi)
            todo = pend.pop(bi, [])
            if not todo:
                continue
            sb = seen.setdefault(bi, {})
            limit = self.loopcap if bi in heads else self.cap
            fresh = []
            for s in todo:
                k = s.key(), self.m.facts(s)
                # what is known must hold on every path that reaches this state
                o = sb.get(k) or gone.get((bi, k))
                if o is not None:
                    both = tuple(x for x in o.subs if x in s.subs)
                    if len(both) == len(o.subs):
                        continue
                    s = State(s.mem, s.mon, both)
                    gone.pop((bi, k), None)
                sb[k] = s
                fresh.append(s)
            if len(sb) > limit:
                had = dict(sb)
                fresh = self.merge(sb, fresh, bi)
                for k, s in had.items():
                    if k not in sb:
                        gone[bi, k] = s
            for s in fresh:
                for nb, ns in self.step(f, bi, s, depth, insyms, outs):
                    self.prune(f, info, nb, ns, depth, insyms)
                    pend.setdefault(nb, []).append(ns)
                    if nb not in inq:
                        inq.add(nb)
                        heapq.heappush(hq, (rpo.get(nb, 1 << 30), nb))
        self.stack.pop()
        return list(outs.values())

    def merge(self, sb, fresh, bi):
        """collapse the states of a block: one per (monitor, reference skeleton)"""
        self.joins += 1
        groups = {}
        for s in sb.values():
            groups.setdefault((s.mon, (self.m.skel(s.mem), self.m.facts(s))), []).append(s)
        if len(groups) > self.cap * 3:
            groups2 = {}
            for (m, (_, known)), g in groups.items():
                groups2.setdefault((m, known), []).extend(g)
            groups = groups2
            self.imprecise.add((self.stack[-1], bi))
        old = set(sb)
        freshkeys = {(x.key(), self.m.facts(x)) for x in fresh}
        sb_new = {}
        res = []
        for (m, _), g in groups.items():
            if len(g) == 1:
                s = g[0]
            else:
                mem = dict(g[0].mem)
                subs = g[0].subs
                for o in g[1:]:
                    mem = joinmem(mem, o.mem)
                    subs = tuple(x for x in subs if x in o.subs)
                s = State(mem, m, subs)
                if self.phi:
                    for r, v in list(mem.items()):
                        if v is T and r[0] == 'l' and any(x.mem.get(r) is not T and r in x.mem for x in g):
                            n = mk('sym', ('phi', self.stack[-1], bi, r))
                            self.kill(s, n)
                            s.subs = tuple((a, b) for a, b in s.subs if n not in a.syms and n not in b.syms)
                            s.mem[r] = n
            k = s.key(), self.m.facts(s)
            sb_new[k] = s
            if k in freshkeys or k not in old:
                res.append(s)
        # states absorbed by a merged one stay 'seen' only through it
        sb.clear()
        sb.update(sb_new)
        return res

    def prune(self, f, info, nb, st, depth, insyms):
        live, bor = info['live'][nb], info['borrowed']
        dead = [r for r in st.mem if r[0] == 'l' and r[1] == depth and r[2] not in live and r[2] not in bor]
        for r in dead:
            del st.mem[r]
        drs = [r for r in st.mem if r[0] == '*' and not (r[1].syms <= insyms)]
        if drs:
            alive = set()
            for r, v in st.mem.items():
                if r[0] != '*':
                    alive |= v.syms
            for _ in range(3):
                n0 = len(alive)
                for r in drs:
                    if r[1].syms & alive:
                        alive |= st.mem[r].syms
                if len(alive) == n0:
                    break
            for r in drs:
                if not (r[1].syms & alive):
                    del st.mem[r]
        st._k = None

    def step(self, f, bi, st, depth, insyms, outs):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget(f"{f['path']} bb{bi}")
        st = st.copy()
        b = f['blocks'][bi]
        site0 = (f['id'], bi)
        for s in b['s']:
            k = s[0]
            if k == '=':
                v = self.rvalue(st.mem, depth, s[2])
                root, path = self.resolve(st.mem, depth, s[1])
                self.write(st.mem, root, path, v)
                if root[0] != 'l' or root[1] != depth:
                    r = self.m.write(self, (f, bi), st, root, path, v, site0)
                    if r is not None:
                        st.mon = r
            elif k == 'dead':
                st.mem.pop(('l', depth, s[1]), None)
        t = b['t']
        k = t['k']
        if k == 'goto':
            return [(t['t'], st)]
        if k == 'switch':
            v = self.operand(st.mem, depth, t['op'])
            tyname = self.f.tyname(t['ty'])
            if v.op == 'c':
                c = v.a[0]
                c = ord(c) if isinstance(c, str) else int(c)
                for x, tb in t['ts']:
                    if x == c:
                        return [(tb, st)]
                return [(t['o'], st)]
            res = []
            conv = (lambda x: bool(x)) if tyname == 'bool' else (lambda x: chr(x)) if tyname == 'char' else (lambda x: x)  # 0 is no False: what is not 0 need not be 1
            for x, tb in t['ts']:
                s2 = st.copy()
                if self.refine(s2, v, conv(x)):
                    res.append((tb, s2))
            s2 = st.copy()
            if tyname == 'bool' and len(t['ts']) == 1:
                ok = self.refine(s2, v, not bool(t['ts'][0][0]))
            else:
                ok = self.refine(s2, v, None, {conv(x) for x, _ in t['ts']})
            if ok:
                res.append((t['o'], s2))
            return res
        if k == 'assert':
            return [(t['t'], st)]
        if k in ('return', 'resume'):
            ret = self.read(st.mem, ('l', depth, 0), ()) if k == 'return' else None
            self.leave('ret' if k == 'return' else 'unwind', ret, st, depth, insyms, outs)
            return []
        if k in ('unreachable', 'abort', 'other'):
            return []
        if k == 'drop':
            root, path = self.resolve(st.mem, depth, t['p'])
            v = self.read(st.mem, root, path)
            r = self.m.drop(self, (f, bi), st, v, t['ty'], site0)
            if r is not None:
                st.mon = r
            if t['dropfn'] is not None:
                g = self.f.fns[t['dropfn']]
                a = ref(root, path, True)
                res = []
                for nb, s in self.after(self.call_fn(g, [a], st, site0), None, t, depth):
                    if nb is None:
                        self.leave('unwind', None, s, depth, insyms, outs)
                    else:
                        res.append((nb, s))
                return res
            return [(t['t'], st)]
        if k == 'call':
            self.sites.add(site0)
            return self.do_call(f, bi, st, depth, t, insyms, outs)
        return []

    def after(self, results, dest, t, depth):
        out = []
        for kind, ret, s in results:
            if kind == 'ret':
                if t['t'] is None:
                    continue
                if dest is not None and ret is not None:
                    root, path = self.resolve(s.mem, depth, dest)
                    self.write(s.mem, root, path, ret)
                s._k = None
                out.append((t['t'], s))
            elif kind == 'unwind' and self.m.unwind:
                if isinstance(t.get('u'), int):
                    out.append((t['u'], s))
                elif t.get('u') == 'continue':
                    out.append((None, s))
        return out

    def do_call(self, f, bi, st, depth, t, insyms, outs):
        site = (f['id'], bi)
        args = [self.operand(st.mem, depth, a) for a in t['a']]
        argtys = [self.opty(f, a) for a in t['a']]
        if t['f'][0] == 'k' and 'fn' in t['f'][1]['v']:
            fr = t['f'][1]['v']
        else:
            fv = self.operand(st.mem, depth, t['f'])
            fr = self._fns.get(fv.a[0]) if fv.op == 'fn' else None
            if fr is None:
                fr = {'fn': '<ptr>', 'full': '<ptr>', 'name': '<ptr>', 'krate': '?'}
        results = self.dispatch((f, bi), st, fr, args, site, argtys, t)
        out = []
        for nb, s in self.after(results, t['d'], t, depth):
            if nb is None:
                # unwinds out of this function
                self.leave('unwind', None, s, depth, insyms, outs)
            else:
                out.append((nb, s))
        return out

    def leave(self, kind, ret, st, depth, insyms, outs):
        mem = {r: v for r, v in st.mem.items() if not (r[0] == 'l' and r[1] >= depth)}
        # drop deref roots private to the callee unless reachable from ret
        keep = set(insyms) | (set(ret.syms) if ret is not None else set())
        mem = {r: v for r, v in mem.items() if r[0] != '*' or r[1].syms <= keep}
        subs = tuple((a, c) for a, c in st.subs if all(y in insyms or isinstance(y.a[0], str) for y in a.syms))
        o = Out(kind, ret, mem, st.mon, subs)
        outs.setdefault(o.key(), o)

    def opty(self, f, o):
        if o[0] == 'k':
            return o[1].get('ty')
        p = o[1]
        if not p[1]:
            return f['locals'][p[0]]['ty']
        return None

    def dispatch(self, cx, st, fr, args, site, argtys, t=None):
        r = self.m.call(self, cx, st, fr, args, site)
        if r is not None:
            return r
        r = self.model(cx, st, fr, args, site, argtys)
        if r is not None:
            return r
        if fr.get('ctor'):
            return [('ret', agg(fr['adt'], fr['variant'], args), st)]
        # trait call on closures
        tr = fr.get('trait', '')
        if tr in ('std::ops::FnOnce', 'std::ops::FnMut', 'std::ops::Fn', 'core::ops::Fn') and args:
            callee = self.closure_of(st, args[0])
            if callee is not None:
                fn, selfv = callee
                rest = list(args[1].a[2]) if len(args) > 1 and args[1].op == 'agg' else None
                if rest is None and len(args) > 1:
                    n = fn['argc'] - 1
                    rest = [field(args[1], (None, i)) for i in range(n)]
                g = fn
                a0 = self.closure_self(st, g, selfv, args[0], site)
                return self.call_local(cx, g, [a0] + (rest or []), st, site)
            if fr.get('id') is None and fr.get('rk') == 'fnptr' and args[0].op == 'fn':
                f2 = self._fns[args[0].a[0]]
                rest = list(args[1].a[2]) if args[1].op == 'agg' else [T]
                return self.dispatch(cx, st, f2, rest, site, None)
        fid = fr.get('id')
        targets = []
        if fid is not None and not self.f.fns[fid].get('foreign'):
            targets = [fid]
        elif fr.get('rk') == 'virtual':
            targets = [x for x in self.f.dyn_targets(fr) if not self.f.fns[x].get('foreign')]
            return self.virtual(cx, st, fr, targets, args, site, argtys)
        if targets:
            g = self.f.fns[targets[0]]
            if g['closure'] and len(args) == 2 and g['argc'] != 2 and args[1].op == 'agg':
                args = [self.closure_self(st, g, None, args[0], site)] + list(args[1].a[2])
            elif g['closure'] and len(args) == 2 and args[1].op == 'agg' and args[1].a[0] == '()':
                args = [self.closure_self(st, g, None, args[0], site)] + list(args[1].a[2])
            return self.call_local(cx, g, args, st, site, argtys)
        return self.foreign(cx, st, fr, args, site, argtys)

    def virtual(self, cx, st, fr, targets, args, site, argtys):
        """dynamic dispatch: the receiver's concrete type is not tracked, so every implementation
        whose type has a vtable in the program is a candidate, with an unknown receiver value"""
        res = []
        seen = set()
        for x in targets:
            g = self.f.fns[x]
            s2 = st.copy()
            for o in self.call_local(cx, g, args, s2, site, argtys):
                k = (o[0], o[1], o[2].key())
                if k not in seen:
                    seen.add(k)
                    res.append(o)
        if not res:
            return self.foreign(cx, st, fr, args, site, argtys)
        return res

    def closure_of(self, st, v):
        d = 0
        while v.op == 'ref' and d < 4:
            v = self.read(st.mem, v.a[0], v.a[1])
            d += 1
        if v.op == 'agg' and isinstance(v.a[0], tuple) and v.a[0][0] == 'cl' and v.a[0][1] is not None:
            return self.f.fns[v.a[0][1]], v
        return None

    def closure_self(self, st, g, selfv, arg, site):
        """adapt the first argument (closure value or reference) to what the body expects"""
        want_ref = self.f.ty(g['locals'][1]['ty']).get('k') == 'ref'
        is_ref = arg.op == 'ref'
        if want_ref and not is_ref and arg.op == 'agg':
            root = ('cl', len(self.stack), site)
            st.mem[root] = arg
            return ref(root, (), True)
        if not want_ref and is_ref:
            return self.read(st.mem, arg.a[0], arg.a[1])
        if want_ref and is_ref:
            # strip extra levels
            v = self.read(st.mem, arg.a[0], arg.a[1])
            while v.op == 'ref':
                arg = v
                v = self.read(st.mem, arg.a[0], arg.a[1])
        return arg

    def call_local(self, cx, g, args, st, site, argtys=None):
        gid = g['id']
        if gid in self.stack or len(self.stack) > 40:
            r = self.m.opaque_local(self, cx, st, g, args, site)
            if r is not None:
                return r
            self.havoc_args(st, args, site, argtys)
            return [('ret', self.fresh(st, ('r', site)), st)]
        inl = self.m.inline(self, g)
        if inl and self.relevant is not None and gid not in self.relevant:
            inl = len(g['blocks']) <= self.small and not self.info(g)['heads']
        if not inl:
            r = self.m.opaque_local(self, cx, st, g, args, site)
            if r is not None:
                return r
            self.havoc_args(st, args, site, argtys)
            return [('ret', self.fresh(st, ('r', site)), st)]
        self.inlined_calls += 1
        return self.call_fn(g, args, st, site)

    # -------------------------------------------------------- models of std
    def deref_loc(self, v):
        if v.op == 'ref':
            return v.a[0], v.a[1]
        return ('*', v), ()

    def content(self, st, v):
        root, path = self.deref_loc(v)
        return self.read(st.mem, root, path)

    def model(self, cx, st, fr, args, site, argtys):
        p = fr.get('res') or fr.get('fn')
        name = fr.get('name')
        fn = fr.get('fn', '')
        if fn in ('std::mem::replace', 'core::mem::replace') or fn in ('std::mem::take', 'core::mem::take'):
            root, path = self.deref_loc(args[0])
            old = self.read(st.mem, root, path)
            if name == 'replace':
                new = args[1]
            else:
                new = mk('app', 'default', fr['full'])
            self.write(st.mem, root, path, new)
            r = self.m.write(self, cx, st, root, path, new, site)
            if r is not None:
                st.mon = r
            return [('ret', old, st)]
        if fn in ('std::mem::swap', 'core::mem::swap'):
            a, b = self.deref_loc(args[0]), self.deref_loc(args[1])
            va, vb = self.read(st.mem, *a), self.read(st.mem, *b)
            self.write(st.mem, a[0], a[1], vb)
            self.write(st.mem, b[0], b[1], va)
            for loc, val in ((a, vb), (b, va)):
                r = self.m.write(self, cx, st, loc[0], loc[1], val, site)
                if r is not None:
                    st.mon = r
            return [('ret', UNIT, st)]
        if p.endswith('Option::<T>::take'):
            root, path = self.deref_loc(args[0])
            old = self.read(st.mem, root, path)
            new = agg('std::option::Option', 0, ())
            self.write(st.mem, root, path, new)
            r = self.m.write(self, cx, st, root, path, new, site)
            if r is not None:
                st.mon = r
            return [('ret', old, st)]
        if fn == 'std::intrinsics::discriminant_value' or fn == 'core::intrinsics::discriminant_value':
            v = self.content(st, args[0])
            adt = self.f.ty(fr['targs'][0]).get('adt') if fr.get('targs') else None
            return [('ret', disc(v, adt, self.f), st)]
        if p in ('std::cell::RefCell::<T>::borrow', 'std::cell::RefCell::<T>::borrow_mut'):
            root, path = self.deref_loc(args[0])
            return [('ret', agg('cell-guard', 0, (ref(root, path + ((None, 'cell'),), name == 'borrow_mut'), cstr(str(site)))), st)]
        if p in ('std::cell::RefCell::<T>::new', 'std::cell::Cell::<T>::new'):
            return [('ret', mk('upd', mk('cellbox'), (((None, 'cell'), args[0]),)), st)]
        if p in ('std::cell::RefCell::<T>::replace', 'std::cell::Cell::<T>::set', 'std::cell::Cell::<T>::replace',
                 'std::cell::Cell::<T>::get', 'std::cell::Cell::<T>::take', 'std::cell::RefCell::<T>::take'):
            root, path = self.deref_loc(args[0])
            path = path + ((None, 'cell'),)
            old = self.read(st.mem, root, path)
            if name != 'get':
                new = args[1] if len(args) > 1 else mk('app', 'default', fr['full'])
                self.write(st.mem, root, path, new)
                r = self.m.write(self, cx, st, root, path, new, site)
                if r is not None:
                    st.mon = r
            return [('ret', UNIT if name == 'set' else old, st)]
        if fn in ('std::ops::Deref::deref', 'std::ops::DerefMut::deref_mut') or name in ('deref', 'deref_mut'):
            v = self.content(st, args[0])
            if v.op == 'agg' and v.a[0] == 'cell-guard':
                return [('ret', v.a[2][0], st)]
            if v.op in ('s',):
                return [('ret', v, st)]
            root, path = self.deref_loc(args[0])
            if name == 'deref' and fr.get('krate') in ('core', 'alloc', 'std') and fr.get('rkrate') in ('core', 'alloc', 'std'):
                if args[0] is T:
                    return [('ret', T, st)]
                return [('ret', mk('app', 'deref', v), st)]
            if name == 'deref_mut' and fr.get('rkrate') in ('core', 'alloc', 'std'):
                return [('ret', ref(root, path + ((None, 'deref'),), True), st)]
        if name == 'clone' and fr.get('trait', '').endswith('Clone') and len(args) == 1:
            v = self.content(st, args[0])
            return [('ret', v, st)]
        if p == 'std::boxed::Box::<T>::new':
            return [('ret', agg('box', 0, (args[0],)), st)]
        return None

    def foreign(self, cx, st, fr, args, site, argtys):
        """a call into code without a body here: may invoke any closure it is given, any number of
        times, and may write through any &mut it is given"""
        cls = []
        for a in args:
            self._closures(st, a, cls, set())
        cg = self.f.callgraph()
        ext = []
        if fr.get('id') is not None:
            ext = [x for x in self._foreign_targets(fr['id'])]
        want = []
        for g, v in cls:
            if self.relevant is None or g['id'] in self.relevant:
                want.append((g, v))
        have = {g['id'] for g, _ in cls}
        for x in ext:
            if x not in have and (self.relevant is not None and x in self.relevant):
                want.append((self.f.fns[x], None))
        states = [st]
        if want:
            states = self.iterate(cx, st, want, site)
        res = []
        for s in states:
            self.havoc_args(s, args, site, argtys)
            if self.m.unwind and self.m.may_unwind(self, fr):
                res.append(('unwind', None, s.copy()))
            res.append(('ret', self.ret_term(s, fr, args, site), s))
        return res

    def ret_term(self, st, fr, args, site):
        return self.fresh(st, ('r', site))

    def _foreign_targets(self, fid, seen=None):
        seen = seen if seen is not None else set()
        if fid in seen:
            return
        seen.add(fid)
        for y in self.f.callgraph().get(fid, ()):
            if self.f.fns[y].get('foreign'):
                yield from self._foreign_targets(y, seen)
            else:
                yield y

    def _closures(self, st, v, out, seen):
        if v in seen:
            return
        seen.add(v)
        if v.op == 'agg' and isinstance(v.a[0], tuple) and v.a[0][0] == 'cl' and v.a[0][1] is not None:
            out.append((self.f.fns[v.a[0][1]], v))
        if v.op == 'ref':
            self._closures(st, self.read(st.mem, v.a[0], v.a[1]), out, seen)
        if v.op == 'agg':
            for x in v.a[2]:
                self._closures(st, x, out, seen)

    def iterate(self, cx, st, want, site):
        """0..n invocations of each candidate, to a fixed point on (store, monitor)"""
        done = {st.key(): st}
        work = [st]
        while work:
            s = work.pop()
            for g, v in want:
                if g['id'] in self.stack:
                    continue
                s2 = s.copy()
                if g['closure'] and v is not None:
                    a0 = self.closure_self(s2, g, v, v, site)
                    args = [a0] + [self.fresh(s2, ('ca', site, g['id'], i)) for i in range(g['argc'] - 1)]
                else:
                    args = [self.fresh(s2, ('ca', site, g['id'], i)) for i in range(g['argc'])]
                for kind, ret, s3 in self.call_local(cx, g, args, s2, (site, 'cl', g['id'])):
                    if kind != 'ret':
                        continue
                    k = s3.key()
                    if k not in done:
                        if len(done) > self.loopcap:
                            # widen
                            same = [x for x in done.values() if x.mon == s3.mon]
                            if same:
                                mem = joinmem(dict(same[0].mem), s3.mem)
                                s3 = State(mem, s3.mon, tuple(x for x in same[0].subs if x in s3.subs))
                                k = s3.key()
                                if k in done:
                                    continue
                        done[k] = s3
                        work.append(s3)
        return [x.copy() for x in done.values()]


def refs_in(v, seen=None):
    if not v.refs:
        return
    if v.op == 'ref':
        yield v
    for x in v.a:
        if type(x) is N:
            yield from refs_in(x)
        elif type(x) is tuple:
            for y in _flat(x):
                yield from refs_in(y)


SPLIT = ('std::result::Result', 'std::ops::ControlFlow')


def skel(mem):
    out = []
    for r, v in mem.items():
        if v.refs:
            out.append((r, reft(v)))
        if v.op == 'agg' and v.a[0] in SPLIT:
            out.append((r, v.a[1]))
        elif v.op == 'V':
            out.append((r, v.a[1]))
    return frozenset(out)


def reft(v):
    return tuple(sorted(str(x) for x in refs_in(v)))


def joinmem(a, b):
    out = {}
    for r, v in a.items():
        w = b.get(r)
        if w is None:
            out[r] = joinv(v, Engine.init(r)) if r[0] == '*' else T
            continue
        out[r] = joinv(v, w)
    for r, w in b.items():
        if r not in a:
            out[r] = joinv(Engine.init(r), w) if r[0] == '*' else T
    return out


def joinv(v, w):
    if v is w:
        return v
    if v.op == 'agg' and w.op == 'agg' and v.a[0] == w.a[0] and v.a[1] == w.a[1] and len(v.a[2]) == len(w.a[2]):
        return agg(v.a[0], v.a[1], [joinv(x, y) for x, y in zip(v.a[2], w.a[2])])
    if v.op in ('upd',) or w.op in ('upd',):
        bv, ov = (v.a[0], dict(v.a[1])) if v.op == 'upd' else (v, {})
        bw, ow = (w.a[0], dict(w.a[1])) if w.op == 'upd' else (w, {})
        if bv is bw:
            o = {}
            for k in set(ov) | set(ow):
                x = ov.get(k)
                y = ow.get(k)
                x = x if x is not None else field(bv, k)
                y = y if y is not None else field(bw, k)
                o[k] = joinv(x, y)
            return mk('upd', bv, tuple(sorted(o.items(), key=lambda kv: (str(kv[0]),))))
    if v.op in ('V', 'X') or w.op in ('V', 'X'):
        if norm2(v) is norm2(w):
            return norm2(v)
    return T


def norm2(v):
    return v.a[0] if v.op in ('V', 'X') else v


def rename_tuple(t, rn):
    out = []
    for x in t:
        if type(x) is N:
            out.append(rn(x))
        elif type(x) is tuple:
            out.append(rename_tuple(x, rn))
        else:
            out.append(x)
    return tuple(out)
