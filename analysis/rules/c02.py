"""Settings neutrality, by abstract interpretation with unwind edges.
The settings cells are the interior-mutable fields of the public formatter type.  Every function
that can write one (directly, through closures, drop glue or callees) is analysed bottom-up with
the cell's entry value as a symbol; every call it makes may also unwind.  A function is neutral when
on every exit, normal or unwinding, the cell holds its entry value; non-neutral helpers (setters,
guards) are analysed inside their callers.  The public formatting entry points must be neutral."""
from util import *
import re

RULE = __doc__
ASSUMES = ['calls into pulldown-cmark/std neither see nor touch the settings', 'the user callback cannot reach the settings except by formatting again, for which neutrality is the induction hypothesis']
CELL = re.compile(r'std::(cell|sync)::(RefCell|Cell|UnsafeCell|OnceCell|LazyCell|Mutex|RwLock|OnceLock|LazyLock|atomic|Atomic)')
WRITES = {'borrow_mut', 'try_borrow_mut', 'replace', 'replace_with', 'swap', 'take', 'set', 'get_mut', 'as_ptr', 'update', 'get', 'lock', 'write'}


def formatter_adt(F):
    r = [k for k, a in F.adts.items() if k.split('::')[-1] == 'MarkdownFormatter' and a.get('local')]
    if len(r) != 1:
        raise Missing('public formatter type')
    return r[0]


def cells(F, adt, seen=None):
    """interior-mutable field types inside a type"""
    seen = seen if seen is not None else set()
    out = []
    if adt in seen or adt not in F.adts:
        return out
    seen.add(adt)
    for v in F.adts[adt]['variants']:
        for n, t in zip(v['fields'], v.get('ftys', ())):
            if CELL.search(t):
                out.append((adt, n, t))
            for m in re.findall(r"[A-Za-z_][\w:]*", t):
                if m in F.adts and F.adts[m].get('local'):
                    out += cells(F, m, seen)
    return out


class Mon(Monitor):
    unwind = True

    def __init__(self, F, nn, readers, fadt):
        self.F, self.nn, self.readers, self.fadt = F, nn, readers, fadt
        self.unk = 0

    def inline(self, eng, g):
        return g['id'] in self.nn or g['id'] in self.readers

    def may_unwind(self, eng, fr):
        return True

    def call(self, eng, cx, st, fr, args, site):
        p, n = fr.get('res') or fr['fn'], fr.get('name', '')
        if n == 'drop' and p in ('std::mem::drop', 'core::mem::drop') and args[0].op == 'agg':
            a = self.F.adts.get(args[0].a[0])
            d = a and a.get('dtor')
            if d:
                fs = [f for f in self.F.local if f['path'] == d]
                if fs:
                    root = ('dr', len(eng.stack), site)
                    st.mem[root] = args[0]
                    return [(k, UNIT if k == 'ret' else None, s) for k, r, s in eng.call_local(cx, fs[0], [ref(root, (), True)], st, site)]
        if fr.get('rk') == 'virtual' or 'dyn ' in fr.get('full', '') and fr.get('trait', '').startswith('std::ops::Fn'):
            return [('ret', eng.fresh(st, ('cb', site)), st), ('unwind', None, st.copy())]
        if n == 'map' and 'Option' in p and len(args) == 2:
            # Option::map is total: fork on the variant, apply the closure
            c = eng.closure_of(st, args[1])
            if c and args[0].op == 'agg' and args[0].a[1] == 0:
                return [('ret', NONE, st)]
        if p.endswith('Option::<T>::saturating_sub'):
            return None
        if 'std::panic::catch_unwind' in p:
            c = eng.closure_of(st, args[0])
            v = args[0]
            if v.op == 'agg' and not c and v.a[2]:
                c = eng.closure_of(st, v.a[2][0])
            if c:
                g, cv = c
                a0 = eng.closure_self(st, g, cv, cv, site)
                res = []
                for k, r, s in eng.call_fn(g, [a0], st, site):
                    res.append(('ret', ok(r) if k == 'ret' else err(mk('app', 'panic')), s))
                return res
        return None

    def opaque_local(self, eng, cx, st, g, args, site):
        # induction: an already-proved neutral callee (or a recursive call) leaves the settings alone;
        # it may change anything else it can reach and may panic
        keep = []
        for a in args:
            v = st.mem.get(('*', a))
            if v is not None or a.op not in ('ref',):
                base = eng.read(st.mem, ('*', a), ()) if a.op != 'ref' else None
                if base is not None:
                    keep.append((a, base))
        snap = dict(st.mem)
        argtys = [g['locals'][i + 1]['ty'] for i in range(min(g['argc'], len(args)))]
        eng.havoc_args(st, args, site, argtys)
        # the reference to the formatter is never reassigned: keep it
        for r, v in list(st.mem.items()):
            if r[0] == '*' and r in snap or r[0] == '*' and v.op == 'sym':
                for i in self.fmt_fields:
                    old = field(snap.get(r, mk('deref', r[1])), (None, i))
                    st.mem[r] = setfield(st.mem[r], ((None, i),), old)
        return [('ret', eng.fresh(st, ('o', site)), st), ('unwind', None, st.copy())]


def norm_opt(v):
    """canonical form of a rebuilt option: Some(payload of x) is x"""
    v = bare(v)
    if v.op == 'agg' and v.a[0] == 'std::option::Option' and v.a[1] == 1:
        x = v.a[2][0]
        if x.op == 'fld' and x.a[1] == 1 and x.a[2] == 0:
            return x.a[0]
    return v


def changed(mem, init=None):
    """settings cells whose content differs from the entry value: [(location, entry, now)]"""
    out = []

    def go(v, where):
        if type(v) is not N:
            if type(v) is tuple:
                for x in v:
                    go(x, where)
            return
        if v.op == 'upd':
            for k, x in v.a[1]:
                if k == (None, 'cell'):
                    old = field(v.a[0], k)
                    cmp(old, x, where)
                else:
                    go(x, where)
            go(v.a[0], where)

    def cmp(old, new, where):
        if bare(new) is bare(old):
            return
        if new.op == 'upd' and bare(new.a[0]) is bare(old):
            for k, x in new.a[1]:
                o = field(old, k)
                if norm_opt(x) is bare(o):
                    continue
                if x is NONE and o.op == 'V' and o.a[1] == 0:
                    continue
                out.append((where, o, x))
            return
        out.append((where, old, new))
    for r, v in mem.items():
        if r[0] != 'l':
            go(v, show(r[1]) if r[0] == '*' else str(r))
    return out


def decide(cx, F, prefix=''):
    fadt = formatter_adt(F)
    cs = cells(F, fadt)
    cx.counts['settings_cells'] = len(cs)
    cx.notes.append('interior-mutable fields: ' + '; '.join(f'{a}.{n}: {t}' for a, n, t in cs))
    if not cs:
        cx.oblige(prefix + 'no-interior-mutability', True)
        cx.notes.append('the formatter has no interior-mutable state')
        return
    tys = {t for _, _, t in cs}

    def cell_call(fr, names):
        s = fr.get('full', '')
        return any(t in s or t.replace('std::cell::RefCell<', 'std::cell::RefCell::<') in s for t in tys) and fr.get('name') in names
    writers = set()
    readers = set()
    for f in F.local:
        for bi, t, fr in F.calls(f):
            if fr and cell_call(fr, WRITES):
                writers.add(f['id'])
            if fr and cell_call(fr, {'borrow', 'try_borrow', 'get', 'read'}):
                readers.add(f['id'])
    cx.counts['functions_writing_settings_directly'] = len(writers)
    if not writers:
        cx.oblige(prefix + 'never-written', True)
        return
    # small accessors: readers, and the closures they get
    reach = F.rreach(writers)
    local_ids = {f['id'] for f in F.local}
    roots = [f['id'] for f in F.local if f['path'].endswith('MarkdownFormatter::format')]
    if not roots:
        raise Missing('MarkdownFormatter::format')
    fmtroot = roots[0]
    order, seen = [], set()
    cg = F.callgraph()

    def topo(x):
        stack = [(x, iter(sorted(y for y in cg.get(x, ()) if y in reach)))]
        seen.add(x)
        while stack:
            n, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(sorted(z for z in cg.get(y, ()) if z in reach))))
                    break
            else:
                order.append(n)
                stack.pop()
    topo(fmtroot)
    nn = set()
    inner = {m for _, _, t in cs for m in re.findall(r"[A-Za-z_][\w:]*", t) if m in F.adts and F.adts[m].get('local')}
    for f in F.local:
        if any(F.tyname(f['locals'][i + 1]['ty']).lstrip('&').replace('mut ', '').strip() in inner for i in range(f['argc'])):
            readers.add(f['id'])
        # constructors and accessors that hand the formatter on
        if any(F.tyname(f['locals'][i + 1]['ty']).endswith(fadt) for i in range(f['argc'])) and len(f['blocks']) <= 30 \
                and f['id'] not in reach:
            readers.add(f['id'])
    fld_idx = fmt_field_indices(F, fadt)
    n_an = n_exit = n_unw = 0
    report = {}
    exits = {}
    for x in order:
        if x not in local_ids:
            continue
        f = F.fns[x]
        direct = x in writers or any(y in nn for y in callees_through_foreign(F, x, local_ids))
        if not direct:
            continue
        # closures run inside the function that creates them
        m = Mon(F, nn, readers | small_closures(F), fadt)
        m.fmt_fields = fld_idx
        e = Engine(F, m, cap=60, budget=120000)
        args = [sym(f'arg{i}') for i in range(f['argc'])]
        n_an += 1
        try:
            outs = e.run(f, list(args), {}, (), 1, frozenset(args))
        except Budget as b:
            nn.add(x)
            report[x] = [('?', T, T, 'analysis budget exceeded')]
            continue
        bad = []
        exits[x] = len(outs)
        for o in outs:
            n_exit += 1
            n_unw += o.kind == 'unwind'
            for w, old, new in changed(o.mem):
                bad.append((o.kind, old, new, w))
        if bad or f['closure'] and x in writers:
            nn.add(x)
            report[x] = bad
    cx.counts.update(functions_analysed=n_an, exits=n_exit, unwind_exits=n_unw, setter_helpers=len(nn - {fmtroot}))
    cx.notes.append('non-neutral helpers: ' + ', '.join(F.fns[x]['path'] for x in nn))
    for x in [fmtroot]:
        f = F.fns[x]
        bad = report.get(x, [])
        cause = blame(F, nn, report, exits, x)
        cx.oblige(prefix + 'neutral:' + f['path'].split('::')[-1], x not in nn,
                  f'formatting can end with changed settings: {cause}', where_of(F, cause, f))
    cx.oblige(prefix + 'analysed', n_an >= 1, 'no function writing the settings was reached from the formatting entry point')


def blame(F, nn, report, exits, x):
    """the innermost public-facing non-neutral function chain"""
    mixed = [y for y in report if y in nn and report[y] and exits[y] > len(report[y])]
    last = mixed[0] if mixed else ([y for y in report if report[y]] or [x])[-1]
    r = report.get(last) or []
    kinds = sorted({k for k, _, _, _ in r})
    return f"{F.fns[last]['path']} leaves them changed on {'/'.join(kinds)} exits, e.g. {show(r[0][1])} becomes {show(r[0][2])}" if r else F.fns[last]['path']


def where_of(F, cause, f):
    for g in F.local:
        if cause.startswith(g['path']):
            return g['sp']
    return f['sp']


def callees_through_foreign(F, x, local_ids):
    cg = F.callgraph()
    out, seen, work = set(), set(), list(cg.get(x, ()))
    while work:
        y = work.pop()
        if y in seen:
            continue
        seen.add(y)
        if y in local_ids:
            out.add(y)
        else:
            work.extend(cg.get(y, ()))
    return out


def small_closures(F):
    return {f['id'] for f in F.local if f['closure'] and len(f['blocks']) <= 12}


def fmt_field_indices(F, fadt):
    s = set()
    for k, a in F.adts.items():
        if a.get('local'):
            for v in a['variants']:
                for i, t in enumerate(v.get('ftys', ())):
                    if t.endswith(fadt) and t.startswith('&'):
                        s.add(i)
    return s


def run(cx):
    decide(cx, cx.facts('lib'))
