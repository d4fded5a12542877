"""Tables.

While a table is open its text is kept in a value of its own: the header cells, the rows, and the cell
being written.  One iteration of the event loop is analysed for every event that can occur in a table,
with that value's parts as unknowns, once for a table that has no rows yet and once for one that has:
only the start of a row may open a row (empty, after the rows there are), only the end of a cell may move
on, by one; an empty cell must be given an empty text.  The functions that write into the value are
analysed on their own: text goes to the header cell or to the cell of the last row that the column counter
says, behind what is there already, or opens that cell if there is none.  Then the text the value is turned
into at the end is taken apart: cells of the header in order, a line end, a marker for every column's
alignment (once for each of the parser's alignments), and each row on a line, its cells in order."""
import re
from steps import *
from emit import *
from rules import c09, c12
from rules.c09 import state_adt, state_fields, writers, changed, is_text, text, is_app
import absint

RULE = __doc__
ASSUMES = ['the parser reports as many header cells as alignments, rows with at most as many cells, and cells inside rows',
           'the innermost open construct at a table event is the table (construct nesting is a property of its own)',
           'a non-empty cell has text to write (every piece of content being written is a property of its own)',
           'std formatting pads as documented; std, itertools and pulldown-cmark behave as documented']
IDX = 'idx'
INLINE = ('Text', 'Code', 'InlineMath', 'DisplayMath', 'Html', 'InlineHtml', 'FootnoteReference', 'SoftBreak', 'HardBreak', 'TaskListMarker',
          'Start(Emphasis)', 'End(Emphasis)', 'Start(Strong)', 'End(Strong)', 'Start(Strikethrough)', 'End(Strikethrough)',
          'Start(Link)', 'End(Link)', 'Start(Image)', 'End(Image)')
MARKERS = {'None': 'D', 'Left': ':D', 'Right': 'D:', 'Center': ':D:'}
PADDED = 'padded'


class Table:
    """the type that keeps an open table, with what its fields are"""

    def __init__(self, F):
        self.F = F
        self.enum, self.vs = writers(F)
        k = [i for i, (n, _) in enumerate(self.vs) if n == 'Table']
        if not k:
            raise Missing('the buffer of tables')
        self.k = k[0]
        self.name = self.vs[self.k][1].split('<')[0]
        self.type = self.vs[self.k][1]
        if self.name not in F.adts:
            raise Missing(self.type)
        v = F.adts[self.name]['variants'][0]
        self.fields, self.ftys = v['fields'], v['ftys']

        def one(what, pred):
            r = [i for i, t in enumerate(self.ftys) if pred(t)]
            if len(r) != 1:
                raise Missing(f'the {what} of a table (fields of {self.name})')
            return r[0]
        self.alignment = one('alignments', lambda t: 'Alignment' in t)
        self.body = one('rows', lambda t: t.count('Vec<') == 2 and is_text(F, t))
        self.headers = one('header cells', lambda t: t.count('Vec<') == 1 and is_text(F, t))
        self.widths = [i for i, t in enumerate(self.ftys) if t.count('Vec<') == 1 and 'usize' in t]
        self.counters = [i for i, t in enumerate(self.ftys) if t == 'usize']

    def sym(self, i):
        return sym('W.' + self.fields[i])

    def columns(self, x):
        """is x something with one element per column, or their number?"""
        x = x.a[1] if is_app(x, 'len') else x
        return x in [self.sym(i) for i in (self.alignment, self.headers, *self.widths)]

    def value(self, vals):
        return agg(self.name, 0, [vals.get(i, self.sym(i)) for i in range(len(self.fields))])

    def parts(self, v):
        """the field values of a table value"""
        v = bare(v)
        if v.op == 'agg' and v.a[0] == self.name:
            return list(v.a[2])
        return [field(v, (None, i)) for i in range(len(self.fields))]


# ---- the steps
class CellMon(StepMon):
    """functions that write text into the table are kept as entries; mon: (phase, entries)"""
    T = None
    NEXT = None

    def call(self, eng, cx, st, fr, args, site):
        r = super().call(eng, cx, st, fr, args, site)
        if self.NEXT is not None and r and fr.get('name') == 'peek' and len(r) == 2 and r[0][1].op == 'agg' and r[0][1].a[2] and r[0][1].a[2][0] is ref(('ev', 'nx'), ()):
            r[0][2].mem[('ev', 'nx')] = agg('()', 0, (self.NEXT, mk('field', NX, None, 1)))
            r[0][2]._k = None
            return r[:1]
        return r

    def inline(self, eng, g):
        if g['local'] and not g['closure']:
            tys = [self.F.tyname(l['ty']) for l in g['locals'][:g['argc'] + 1]]
            if any(self.T.name in t or self.T.enum in t for t in tys):
                return True
        return super().inline(eng, g)

    def put(self, st, x):
        if x not in st.mon[1]:
            st.mon = (st.mon[0], st.mon[1] + (x,)) + st.mon[2:]

    def empty(self, eng, st, v):
        if v.op == 'app' and v.a[0] == 'fmtargs':
            p = pieces(st, v, eng)
            return p is not None and not any(p)
        v = noid(bare(flat(st, v, eng)))
        return v is cstr('')

    def on_sink(self, eng, cx, st, fr, args, site):
        if self.NEXT is not None:
            self.put(st, mk('app', 'cell', 'write', cstr('') if self.empty(eng, st, args[-1]) else T))

    def on_call(self, eng, cx, st, fr, args, site):
        fid = fr.get('id')
        n = fr.get('name', '')
        if (fr.get('res') or fr['fn']) in (STR + '::new', STR + '::with_capacity') or n in ('default', 'new') and (fr.get('full') or '').startswith(f'<{STR} as '):
            return [('ret', cstr(''), st)]
        if fid is not None and len(args) > 1:
            g = self.F.fns[fid]
            if not g.get('foreign') and g['impl'] and not g['closure'] and g['impl'][0].split('<')[0] == self.T.name and takes_text(self.F, g):
                self.put(st, mk('app', 'cell', g['path'], cstr('') if self.empty(eng, st, args[-1]) else T))
                return [('ret', ok() if 'Result' in self.F.tyname(g['locals'][0]['ty']) else UNIT, st)]
        return None


def takes_text(F, g):
    tys = [F.tyname(l['ty']) for l in g['locals'][1:g['argc'] + 1]]
    return len(tys) > 1 and tys[0].startswith('&mut') and (is_text(F, tys[-1]) or 'Arguments' in tys[-1])


def step(F, T, name, table, nxt=None):
    S = {s.name: s for s in scripts(F)}
    if name not in S:
        return None
    CellMon.T, CellMon.NEXT = T, nxt
    m = CellMon(F, S[name])
    link = [agg(T.enum, i, (sym('L'),)) for i, (n, _) in enumerate(T.vs) if n == 'Link'] if name in ('End(Link)', 'End(Image)') else []
    stacks = {'writers': vec(sym('S.writers'), (agg(T.enum, T.k, (table,)), *link))} if table is not None else None
    e, _ = run_step(F, S[name], m, cap=20, loopcap=4, budget=150000, init_mon=((),), stacks=stacks)
    return m, e


def top_table(T, w):
    """the table on top of the stack of open buffers, and how many buffers there are above the unknown ones"""
    if w.op != 'vec':
        return None, 0
    x = bare(w.a[1][-1])
    if x.op == 'agg' and x.a[0] == T.enum and x.a[1] == T.k:
        return x.a[2][0], len(w.a[1])
    return None, len(w.a[1])


def opened(F, T, cx):
    """a table starts with the alignments of its event and without cells; returns the new table's value"""
    m, e = step(F, T, 'Start(Table)', None)
    bad, vals = set(), set()
    for init, cur, mon, st in m.ends:
        t, n = top_table(T, flat(st, cur['writers'], e))
        if t is None:
            bad.add('no table is opened: ' + show(flat(st, cur['writers'], e), -6)[:200])
            continue
        p = [noid(bare(flat(st, x, e))) for x in T.parts(t)]
        if p[T.alignment] is not sym('t.Table.0'):
            bad.add(f'the alignments kept are not those of the table: {show(p[T.alignment])[:120]}')
        for i in (T.headers, T.body):
            if p[i] is not VEC0:
                bad.add(f'{T.fields[i]} is not empty: {show(p[i])[:120]}')
        vals.add(tuple(None if i in T.widths else x for i, x in enumerate(p)))
    cx.count('paths', len(m.ends))
    cx.count('steps', e.steps)
    cx.oblige('open', bool(vals) and not bad, 'Start(Table): ' + ('; '.join(sorted(bad))[:400] or 'never handled'), loop_fn(F)['sp'])
    return vals


def cells(F, T, cx, phase, start):
    """what every event does to the place text goes to; `start`: the parts that are known in this phase"""
    table = T.value(start)
    base = T.parts(table)
    where = loop_fn(F)['sp']
    rows = set()
    col = set()
    todo = ['Start(TableHead)', 'End(TableHead)', 'End(TableRow)', 'Start(TableCell)'] + list(INLINE)
    _CX.update(F=F, T=T, table=table, base=base)
    results = [one_event((n, 0)) for n in ('Start(TableRow)', 'End(TableCell)')]
    results += pool(one_event, [('Start(TableCell)', 1)] + [(n, 0) for n in todo])
    for name, bad, n, steps, found, moved in results:
        if n is None:
            continue
        rows |= found
        col |= moved
        cx.count('paths', n)
        cx.count('steps', steps)
        cx.oblige(f'{phase}:{name}', (n > 0 or name in INLINE) and not bad, f'{name} in a table {PHASES[phase]}: ' + ('; '.join(sorted(bad))[:500] or 'it is never handled'), where)
    return rows, col


PHASES = {'head': 'without rows', 'rows': 'with rows'}


def event(F, what, tag):
    i = [i for i, v in enumerate(F.adts[EV]['variants']) if v['name'] == what][0]
    j = [i for i, v in enumerate(F.adts[END]['variants']) if v['name'] == tag][0]
    return agg(EV, i, (agg(END, j, ()),))


_CX = {}


def one_event(task):
    name, empty = task
    F, T, table, base = (_CX[k] for k in ('F', 'T', 'table', 'base'))
    nxt = event(F, 'End', 'TableCell') if empty else None
    r = step(F, T, name, table, nxt)
    if r is None:
        return name, set(), None, 0, set(), set()
    m, e = r
    bad, n, rows, col = set(), 0, set(), set()
    for init, cur, mon, st in m.ends:
        w = flat(st, cur['writers'], e)
        if name in ('Start(Link)', 'Start(Image)'):
            w = vec(w.a[0], w.a[1][:-1]) if w.op == 'vec' and len(w.a[1]) > 1 else w
        t, k = top_table(T, w)
        if t is None or k != 1:
            bad.add('the table is closed' if t is None else 'something is opened in the table')
            continue
        n += 1
        p = [noid(bare(flat(st, x, e))) for x in T.parts(t)]
        ch = [i for i in range(len(p)) if p[i] is not noid(bare(base[i])) and i not in T.widths]
        blank = [x for x in mon[1] if is_app(x, 'cell')]
        if name == 'Start(TableRow)':
            b = base[T.body]
            want = vec(b, (VEC0,)) if b.op not in ('vec', 'vec0') else vec(b.a[0], b.a[1] + (VEC0,)) if b.op == 'vec' else vec(VEC0, (VEC0,))
            if p[T.body] is not want:
                bad.add(f'no empty row is added behind the rows there are: {show(p[T.body])[:200]}')
            for i in (T.alignment, T.headers):
                if i in ch:
                    bad.add(f'{T.fields[i]} is changed')
            rows.add(tuple(VEC0 if i == T.body else None if i in T.widths else x for i, x in enumerate(p)))
        elif name == 'End(TableCell)':
            if len(ch) != 1 or ch[0] not in T.counters or p[ch[0]] is not mk('bin', 'Add', base[ch[0]], cint(1)):
                bad.add('it does not move on by one cell: ' + ('; '.join(f'{T.fields[i]} becomes {show(p[i])[:100]}' for i in ch) or 'nothing is changed'))
            else:
                col.add(ch[0])
        elif ch:
            bad.add('; '.join(f'{T.fields[i]} becomes {show(p[i])[:100]}' for i in ch))
        if name == 'Start(TableCell)':
            if any(x.a[2] is not cstr('') for x in blank):
                bad.add('text is written that is not in the table')
            if nxt is not None and not blank:
                bad.add('a cell without text is not given an empty text')
        elif blank:
            bad.add('it writes to the cell behind the back of the buffers: ' + show(blank[0])[:100])
    return name + ('/empty' if nxt is not None else ''), bad, n, e.steps, rows, col


# ---- text that is written
def index_of(fr):
    """a call of `x[i]` for a vector or slice and a number"""
    p = fr.get('res') or fr['fn']
    return p.endswith(('::index', '::index_mut')) and 'Index' in p and ('Vec<' in p or 'Vec<' in fr.get('full', '')) and re.search(r'Index(Mut)?<usize>', fr.get('full', ''))


def inside(v):
    while v.op == 'agg' and str(v.a[0]).endswith('borrow::Cow') and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def length(eng, st, fr, args):
    """the length of a vector or slice"""
    p = fr.get('res') or fr['fn']
    if p in ('std::vec::Vec::<T, A>::len', 'core::slice::<impl [T]>::len') and args:
        v = noid(bare(flat(st, eng.content(st, args[0]) if args[0].op == 'ref' else args[0], eng)))
        if known(v) and v.op not in ('vec', 'vec0', 'ref'):
            return mk('app', 'len', v)
    return None


class PlaceMon(EmitMon):
    """remembers which cells there are"""
    T = None

    def texts(self, eng, st, v, fmt):
        x = noid(flat(st, v, eng))
        if is_app(x, 'deref') and len(x.a) == 2 and x.a[1] is TXT:
            return [TXT]
        return super().texts(eng, st, v, fmt)

    def on_call(self, eng, cx, st, fr, args, site):
        p = fr.get('res') or fr['fn']
        n = length(eng, st, fr, args)
        if n is not None:
            return [('ret', n, st)]
        if index_of(fr):
            loc = self.target(eng, st, args[0])
            return [('ret', ref(loc[0], loc[1] + (('elem', noid(flat(st, args[1], eng))),), p.endswith('_mut')), st)]
        if fr.get('name') == 'to_mut' and 'borrow::Cow' in p:
            loc = self.target(eng, st, args[0])
            return [('ret', ref(loc[0], loc[1], True), st)]
        if p == 'std::vec::Vec::<T, A>::push' and inside(noid(bare(flat(st, args[1], eng)))) is cstr(''):
            loc = self.target(eng, st, args[0])
            if loc[0] == W:
                gap = [a.a[1] for a, b in st.subs if a.op == 'app' and a.a[0] == 'absent' and b.a[1] == repr(loc[1])]
                gap += [y for a, b in st.subs for y in a.a[1:] if a.op == 'bin' and type(y) is N and absent(((a, b),), y, loc[1])]
                self.put(st, mk('app', 'newcell', repr(loc[1]), gap[0] if gap else T))
                self.touch(eng, st, loc)
                return [('ret', UNIT, st)]
        if p in ('core::slice::<impl [T]>::get_mut', 'core::slice::<impl [T]>::get') and 'usize' in fr.get('full', ''):
            loc = self.target(eng, st, args[0])
            k = noid(flat(st, args[1], eng))
            r = super().on_call(eng, cx, st, fr, args, site)
            for x in r:
                if x[1] is NONE:
                    x[2].subs += ((mk('app', 'absent', k), mk('app', 'at', repr(loc[1]))),)
            return r
        return super().on_call(eng, cx, st, fr, args, site)


def texts(F, T):
    """the functions text is written into a table with"""
    out = [g for g in F.local if g['impl'] and not g['closure'] and g['impl'][0].split('<')[0] == T.name and takes_text(F, g)]
    called = {c for g in out for c in callees(F, g)}
    return [g for g in out if g['impl'][1] or g['id'] not in called] or out


def callees(F, g):
    return {fr.get('id') for _, _, fr in F.calls(g) if fr}


def into(F, T, cx, phase, start, col, ops):
    table = T.value(start)
    cur = T.sym(col) if col not in start else start[col]
    row = (((None, T.headers),) if phase == 'head' else ((None, T.body), ('vl', 0)))
    for g in ops:
        m = PlaceMon(F)
        m.remember = lambda a, b: a.op in ('app', 'bin')
        args = [ref(W, (), True)] + [sym(f'A.{i}') for i in range(1, g['argc'] - 1)] + [TXT]
        bad, n, seen = set(), 0, set()
        try:
            m, e, outs = emit_run(F, g, args, {W: table}, m)
        except Budget as x:
            cx.oblige(f'{phase}:into:{g["name"]}', False, f'{g["path"]}: not analysable within budget ({x})', g['sp'])
            continue
        for o in outs:
            if o.kind != 'ret':
                continue
            n += 1
            tr = tidy(o.mon[1], m.bodies)
            at = o.mon[2][1] if o.mon[2] and o.mon[2][0] == W else None
            if len(tr) == 2 and is_app(tr[0], 'newcell') and tr[0].a[1] == repr(row) and tr[0].a[2] is cur and at == row + (('elem', cur),):
                tr = tr[1:]
                seen.add('new')
            if tr != (TXT,):
                bad.add(f'the text is not written once and unchanged: {show_trace(tr, m.bodies)[:200]}')
                continue
            if at == row:
                seen.add('new')
                if not absent(o.subs, cur, row):
                    bad.add('a cell is added although the cell may be there already')
            elif at == row + (('elem', cur),):
                seen.add('more')
            else:
                bad.add(f'text goes to {show_place(T, at)} instead of the cell being read')
            end = o.mem.get(W)
            for i, (x, y) in enumerate(zip(T.parts(end), T.parts(table))):
                if i not in T.widths and i != row[0][1] and noid(bare(x)) is not noid(bare(y)):
                    bad.add(f'{T.fields[i]} becomes {show(x)[:80]}')
        if not bad and n and seen != {'new', 'more'}:
            bad.add('text never ' + ('opens a cell' if 'new' not in seen else 'goes behind what the cell has already'))
        cx.count('paths', n)
        cx.count('steps', e.steps)
        cx.oblige(f'{phase}:into:{g["name"]}', n > 0 and not bad, f'{g["path"]}, {PHASES[phase]}: ' + ('; '.join(sorted(bad))[:500] or 'no path analysed'), g['sp'])


def absent(subs, cur, row):
    """do the facts say that the row has no cell `cur`?"""
    for a, b in subs:
        if a.op == 'app' and a.a[0] == 'absent' and a.a[1] is cur and b.a[1] == repr(row):
            return True
        if a.op == 'bin' and any(is_app(x, 'len') for x in a.a[1:]):
            x, y = a.a[1:]
            op = a.a[0] if b is TRUE else {'Lt': 'Ge', 'Ge': 'Lt', 'Le': 'Gt', 'Gt': 'Le', 'Eq': 'Ne', 'Ne': 'Eq'}.get(a.a[0])
            if x is cur and op in ('Ge', 'Eq') or y is cur and op in ('Le', 'Eq'):
                return True
    return False


def show_place(T, at):
    if not at:
        return 'an unknown place'
    s = T.fields[at[0][1]] if isinstance(at[0][1], int) and at[0][1] < len(T.fields) else str(at[0])
    return s + ''.join(f', cell {show(p[1])[:60]}' if p[0] == 'elem' else ', last' if p[0] == 'vl' else '' for p in at[1:])


# ---- the text of the whole table
class TextMon(EmitMon):
    """the alignment of the columns is a known one"""
    T = None
    VARIANT = None

    def kinds(self, v):
        if v.op == 'agg' and v.a[0].endswith('ops::Range') and len(v.a[2]) == 2 and v.a[2][0] is not cint(0):
            return 'times', mk('app', 'span', *[x if known(x) else sym('some') for x in v.a[2]])
        return super().kinds(v)

    def turned(self, st, first):
        """iterators that exist when an iteration starts may be advanced along with it"""
        super().turned(st, first)
        for r, v in list(st.mem.items()):
            w = noid(bare(v))
            if w.op == 'app' and (w.a[0].startswith('it:') or w.a[0] == 'elems'):
                k = iterated(w, self)
                if k is not None and k[1] is not self.now[1] and known(w) and not ongoing(st.mon[1], k[0], k[1]) and not any(q[0] == 'along' for q in k[2]):
                    st.mem[r] = mk('app', 'it:along', w, self.now[1])
                    st._k = None

    def along(self, eng, cx, st, it, k, full, site):
        """an iterator that is advanced by hand in every iteration of a loop over something else"""
        w = [q for q in k[2] if q[0] == 'along']
        tr, D = st.mon[1], None
        while tr and is_open(tr[-1]):
            D, tr = tr[-1][2], tr[-1][3]
        if len(w) != 1 or k[2][0] is not w[0] or D is not w[0][1]:
            return None
        asked = mk('app', 'asked', k[1])
        self.mark(st, mk('app', 'odd') if asked in tr else asked)
        y, no = st, st.copy()
        x = mk('app', 'zipped', mk('app', k[0] + 'of', k[1]))
        for q in reversed(k[2][1:]):
            if q[0] == 'ref':
                root = ('ev', 'along', site)
                y.mem[root] = x
                y._k = None
                x = ref(root, ())
            elif q[0] not in ('copied', 'cloned', 'peekable', 'fuse', 'by_ref', 'into_iter', 'seq'):
                return None
        self.mark(no, mk('app', 'absent', k[1], mk('app', 'along')))
        return [(x, y), (None, no)]

    def nexts(self, eng, cx, st, it, full, site, repeated):
        k = iterated(it, self)
        if k is None:
            return super().nexts(eng, cx, st, it, full, site, repeated)
        if any(q[0] == 'along' for q in k[2]):
            return self.along(eng, cx, st, it, k, full, site)
        self.now = k[:2]
        r = super().nexts(eng, cx, st, it, '', site, repeated)
        if r is not None and self.VARIANT is not None and k[1] is self.T.sym(self.T.alignment):
            e = mk('app', k[0] + 'of', k[1])
            for x, s in r:
                if x is not None:
                    for y in (e, mk('app', 'zipped', e)):
                        eng.subst(s, y, mk('V', y, self.VARIANT))
        return r

    def index(self, eng, st, name, first):
        return cint(0) if first else mk('X', mk('app', IDX, *self.now), frozenset({0}))

    def on_call(self, eng, cx, st, fr, args, site):
        p = fr.get('res') or fr['fn']
        if fr.get('name') == 'repeat' and len(args) == 2 and (fr.get('rkrate') or fr.get('krate')) in STD:
            c = noid(bare(flat(st, args[0], eng)))
            if c.op == 's' and len(c.a[0]) == 1:
                return [('ret', mk('app', 'repeat', c, sym('some')), st)]
        if (fr.get('rkrate') or fr.get('krate')) in STD and args:
            n = fr.get('name')
            c = noid(bare(flat(st, args[0], eng)))
            if n in ('repeat', 'repeat_n') and c.op in ('c', 's') and isinstance(c.a[0], str) and len(c.a[0]) == 1:
                return [('ret', mk('app', 'repeat', cstr(c.a[0]), sym('some')), st)]
            if n == 'take' and is_app(c, 'repeat') or n == 'collect' and is_app(c, 'repeat') and STR in fr.get('full', ''):
                return [('ret', c, st)]
            if n == 'extend' and len(args) == 2 and self.place(eng, st, args[0]) is not None:
                c = noid(bare(flat(st, args[1], eng)))
                if is_app(c, 'repeat') and STR in fr.get('full', ''):
                    eng.content(st, args[0])
                    loc = self.target(eng, st, args[0])
                    v = eng.read(st.mem, *loc)
                    if is_app(v, TEXT):
                        eng.write(st.mem, loc[0], loc[1], mk('app', TEXT, v.a[1], *enc(add(dec(v.a[2:]), c, self.coarse))))
                        st._k = None
                        return [('ret', UNIT, st)]
        n = length(eng, st, fr, args)
        if n is not None:
            return [('ret', n, st)]
        if index_of(fr) or p == 'core::slice::<impl [T]>::get_unchecked':
            v = noid(bare(flat(st, eng.content(st, args[0]) if args[0].op == 'ref' else args[0], eng)))
            k = noid(bare(flat(st, args[1], eng)))
            if k.op == 'X' and len(k.a) > 1 or known(v):
                loc = self.target(eng, st, args[0])
                if self.VARIANT is not None and v is self.T.sym(self.T.alignment):
                    y = eng.read(st.mem, loc[0], loc[1] + (('elem', k),))
                    root = ('ev', 'align', site)
                    st.mem[root] = mk('V', y, self.VARIANT)
                    st._k = None
                    return [('ret', ref(root, ()), st)]
                return [('ret', ref(loc[0], loc[1] + (('elem', k),)), st)]
        r = super().on_call(eng, cx, st, fr, args, site)
        if r and p in ('core::slice::<impl [T]>::get_mut', 'core::slice::<impl [T]>::get') and 'usize' in fr.get('full', ''):
            k = bare(noid(flat(st, args[1], eng)))
            v = bare(noid(flat(st, eng.content(st, args[0]) if args[0].op == 'ref' else args[0], eng)))
            for x in r:
                if x[1] is NONE:
                    self.mark(x[2], mk('app', 'absent', v, k))
        return r

    def wrapped(self, eng, st, w, x, site):
        r = super().wrapped(eng, st, w, x, site)
        if w[0] in ('zip', 'zip_longest'):
            k = iterated(w[1], self)
            if not self.T.columns(k[1]) and not self.T.columns(self.now[1]):
                for _, s in r:
                    self.mark(s, mk('app', 'odd'))
        return r


class Layout:
    """the parts of the text a table is turned into"""

    def __init__(self, T, bodies, align):
        self.T, self.bodies, self.align = T, bodies, align
        self.bad = set()

    def tokens(self, xs):
        """text and (' '/'-', ) runs of any length, values as terms; None: something unknown"""
        out = []
        for x in xs:
            if isinstance(x, str):
                out.append(x)
            elif isinstance(x, tuple) and x[0] == 'each' and x[3] is None:
                bs = {tuple(y for y in b if y not in (FIRST, LATER)) for b in self.bodies.get((x[1], x[2]), ())}
                if len(bs) != 1 or len(next(iter(bs))) != 1 or next(iter(bs))[0] not in (' ', '-'):
                    return None
                out.append((next(iter(bs))[0],))
            elif type(x) is not N:
                return None
            elif x.op == 's':
                out.append(x.a[0])
            elif is_app(x, TEXT):
                r = self.tokens(text(x, self.bodies))
                if r is None:
                    return None
                out += r
            elif is_app(x, 'padded'):
                r = self.tokens([x.a[3]])
                if r is None or x.a[1].a[0] not in (' ', '-'):
                    return None
                run = [(x.a[1].a[0],)]
                out += {'<': r + run, '>': run + r, '^': run + r + run, 'd': r + run}[x.a[2].a[0]]
            elif is_app(x, 'repeat') and x.a[1].op in ('s', 'c') and x.a[1].a[0] in (' ', '-'):
                out.append((x.a[1].a[0],))
            elif x.op == 'app' and x.a[0] in ('display', 'id') and len(x.a) == 2:
                r = self.tokens([x.a[1]])
                if r is None:
                    return None
                out += r
            else:
                out.append(x)
        return out

    def shape(self, ts):
        """the tokens as text: V a value, D dashes, without the blanks around"""
        out, vals = '', []
        for t in ts:
            if type(t) is N:
                out += 'V'
                vals.append(t)
            elif isinstance(t, tuple):
                out += 'D' if t[0] == '-' else ' '
            else:
                out += t.replace('-', 'D')
        while 'DD' in out:
            out = out.replace('DD', 'D')
        return out, vals

    def row(self, x, X, kind):
        """a loop writes the cells of X in order; returns what is wrong"""
        if not (isinstance(x, tuple) and x[0] == 'each' and x[3] is None):
            return f'something else is written than {kind}: {show_trace((x,), self.bodies)[:200]}'
        k, D = x[1].split('\u00a7')[0], x[2]
        if D is not X and not self.T.columns(D):
            return f'what is written for {kind} is not a loop over them: {show(D)[:100]}'
        bs = self.bodies.get((x[1], D), ())
        full = False
        for b in bs:
            first = FIRST in b
            pad = [y for y in b if type(y) is N and y.op == 'app' and y.a[0] in ('pad', 'absent', 'asked')]
            if any(type(y) is N and is_app(y, 'odd') for y in b):
                return f'{kind} are cut off where something else ends'
            ts = self.tokens(tidy(tuple(y for y in b if y not in (FIRST, LATER) and y not in pad), self.bodies))
            if ts is None:
                return f'{kind} are not written plainly: {show_trace(b, self.bodies)[:200]}'
            s, vals = self.shape(ts)
            missing = any(is_app(y, 'pad') and D is X or is_app(y, 'absent') and y.a[1] is X and (y.a[2] is mk('app', 'along') or self.same(y.a[2], k, D, first)) for y in pad)
            if s.count('|') != 1 or not s.endswith(' |') or s.startswith('|'):
                return f'a cell of {kind} is not closed by a blank and one bar: {s!r}'
            if X is self.T.sym(self.T.alignment):
                if ''.join(s.split()) != MARKERS[self.align] + '|':
                    return f'a column of alignment {self.align} is marked {s!r}'
                full = True
                continue
            if missing:
                if s.strip(' |') or vals:
                    return f'something is written for a cell that is not there: {s!r} {[show(v)[:80] for v in vals]}'
                continue
            if s.strip(' |') != 'V' or not s.startswith(' ') or not self.cell(vals[0], k, D, X, first):
                return f'{kind} are not written once each, in order: {s!r} {[show(v)[:100] for v in vals]}'
            full = True
        return None if full else f'no cell of {kind} is written'

    def same(self, i, k, D, first):
        """is i the number of the current iteration of the loop over D?"""
        i = bare(i)
        return i is mk('app', IDX, k, D) or first and i is cint(0) or k == 'times' and i is mk('app', 'timesof', D)

    def cell(self, v, k, D, X, first):
        e = mk('app', 'elemof', X)
        v = bare(v)
        if D is X and k == 'elem' and v is e:
            return True
        if is_app(v, 'zipped') and v.a[1] is e and self.T.columns(D):
            return True
        if v.op in ('fld', 'field') and v.a[0] is X:
            seg = (v.a[1], v.a[2])
            return seg[0] == 'elem' and self.same(seg[1], k, D, first)
        return False

    def table(self, tr):
        T = self.T
        xs = [x for x in tr]
        newline = lambda x: isinstance(x, tuple) and x[0] == WS and x[1] == 1 and not x[2]
        if len(xs) > 1 and newline(xs[-1]):
            xs.pop()
        if len(xs) < 3 or not newline(xs[1]):
            return f'the header row and the alignments are not written on a line each: {show_trace(tr, self.bodies)[:300]}'
        why = self.row(xs[0], T.sym(T.headers), 'the header cells') or self.row(xs[2], T.sym(T.alignment), 'the alignments')
        if why:
            return why
        rest = xs[3:]
        after = bool(rest) and newline(rest[0])
        rest = rest[1:] if after else rest
        B = T.sym(T.body)
        if len(rest) != 1 or not isinstance(rest[0], tuple) or rest[0][0] != 'each' or rest[0][2] is not B or rest[0][3] is not None or rest[0][1].split('\u00a7')[0] != 'elem':
            return f'the rows are not written one after the other: {show_trace(tuple(rest), self.bodies)[:300]}'
        for b in self.bodies.get((rest[0][1], B), ()):
            b = [y for y in b if y not in (FIRST, LATER)]
            if after and b and newline(b[-1]):
                b = b[:-1]
            elif not after and b and newline(b[0]):
                b = b[1:]
            else:
                return f'a row is not on a line of its own: {show_trace(tuple(b), self.bodies)[:200]}'
            if not b:
                continue                                            # a row without cells
            if len(b) != 1:
                return f'the cells of a row are not written one after the other: {show_trace(tuple(b), self.bodies)[:200]}'
            why = self.row(b[0], mk('app', 'elemof', B), 'the cells of a row')
            if why:
                return why
        return None


def layout(F, T, cx):
    outs = c09.ends(F, cx, {}, [('End(Table)', 'Table', True)])
    names = sorted(outs)
    cx.oblige('end:text', len(names) == 1, f'what a table is turned into is not the result of one function: {[n for n, _ in names]}', loop_fn(F)['sp'])
    al = next((t for t in F.adts if t.endswith('::Alignment')), None)
    for (name, t), paths in sorted(outs.items()):
        g = next((f for f in F.local if f['path'] == name and not f['closure']), None)
        if g is None:
            cx.oblige(f'layout:{name}', False, f'{name} is not a function of the library', None)
            continue
        for i, v in enumerate(F.adts[al]['variants']):
            TextMon.T, TextMon.VARIANT = T, i
            m = TextMon(F)
            args, mem = [], {W: T.value({})}
            for l in g['locals'][1:g['argc'] + 1]:
                ty = F.tyname(l['ty'])
                args.append(ref(W, (), True) if ty.startswith('&') and T.name in ty else T.value({}) if ty.split('<')[0] == T.name else sym('A'))
            m, e, outs2 = emit_run(F, g, args, mem, m, cap=60, budget=100000)
            bad, n = set(), 0
            for o in outs2:
                if o.kind != 'ret':
                    continue
                n += 1
                r = flat(State(o.mem, o.mon), o.ret, e)
                for p in paths:
                    x = r
                    for seg in p or ():
                        x = field(x, seg)
                    why = Layout(T, m.bodies, v['name']).table(text(x, m.bodies)) if is_app(x, TEXT) else f'what it returns is not a text: {show(x)[:100]}'
                    if why:
                        bad.add(why)
            cx.count('paths', n)
            cx.count('steps', e.steps)
            cx.oblige(f'layout:{v["name"]}', n > 0 and not bad, f'{name}, columns of alignment {v["name"]}: ' + ('; '.join(sorted(bad))[:600] or 'no path analysed'), g['sp'])


def run(cx):
    F = cx.facts('lib')
    absint.MAXDEPTH = 64
    T = Table(F)
    TextMon.T = PlaceMon.T = T
    new = opened(F, T, cx)
    if len(new) != 1:
        return
    v = new.pop()
    fixed = [i for i in range(len(v)) if i not in (T.alignment, T.headers, T.body) and i not in T.widths and i not in T.counters]
    head = {T.body: VEC0, **{i: v[i] for i in fixed}}
    for i in T.counters:
        if v[i] is not cint(0):
            cx.oblige('open:counter', False, f'Start(Table): {T.fields[i]} does not start at 0 but at {show(v[i])[:80]}', loop_fn(F)['sp'])
    rows, c1 = cells(F, T, cx, 'head', head)
    if len(rows) != 1 or len(c1) != 1:
        return
    r = rows.pop()
    last = vec(sym('W.' + T.fields[T.body]), (sym('ROW'),))
    body = {T.body: last, **{i: r[i] for i in fixed}}
    rows, c2 = cells(F, T, cx, 'rows', body)
    col = next(iter(c1))
    cx.oblige('counter', c2 == c1, f'the cell counter of the header row and of the rows is not the same', loop_fn(F)['sp'])
    cx.oblige('row', len(rows) == 1 and all(x is None or x is y for x, y in zip(next(iter(rows)), r)) and r[col] is cint(0),
              f'a row does not start at the first cell, or the second row starts differently from the first', loop_fn(F)['sp'])
    ops = texts(F, T)
    for phase, start in (('head', head), ('rows', body)):
        into(F, T, cx, phase, start, col, ops)
    layout(F, T, cx)
