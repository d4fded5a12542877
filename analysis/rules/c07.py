"""Pairing of opening and closing steps of the formatting loop.  For every kind of event the loop
body is analysed from an unknown formatting state (all paths, all local callees).  The stacks left by
each path of a construct's opening step are handed to its closing step, everything else unknown: every
path of the closing step must give back the stacks the opening step found (a quote marker's trailing
blank apart).  Every other event must leave the stacks alone."""
from util import *
from steps import *
from facts import place_steps
import re

RULE = __doc__
ASSUMES = ['the parser opens and closes constructs in a properly nested way',
           'text sinks write to the current buffer only (their own effect on the stacks is checked separately)']
QUOTE = ('> ', '>')
_CX = {}


def lits(v):
    v = plain(v)
    return v.a[0] if v.op == 's' else None


def clean(v):
    """generalise: forget variant knowledge, fold untouched materialised tops"""
    if v.op == 'vec':
        base, it = v.a
        base = clean(base)
        it = [clean_item(x) for x in it]
        while it and base.op == 'vrest' and it[0] is mk('vtop', base.a[0]):
            base = base.a[0]
            it = it[1:]
        return vec(base, it)
    return clean_item(v)


def clean_item(v):
    p = plain(v)
    if p.op == 's':
        return p
    return bare(v)


CARRIED = re.compile(r'Vec<std::borrow::Cow|CodeBlockKind')


def forget(F, elem, k):
    """the writer on top after arbitrary content: keep only what construction fixes (the prefix put
    aside, the kind of a code block), forget everything else"""
    def go(v, ty, path):
        if v.op == 'agg' and isinstance(v.a[0], str) and v.a[0] in F.adts and F.adts[v.a[0]].get('local'):
            a = F.adts[v.a[0]]['variants'][v.a[1]]
            tys = a.get('ftys') or [None] * len(v.a[2])
            return agg(v.a[0], v.a[1], [go(x, t, path + (i,)) for i, (x, t) in enumerate(zip(v.a[2], tys))])
        if v.op == 'agg' and v.a[0] == '()':
            return agg('()', v.a[1], [go(x, None, path + (i,)) for i, x in enumerate(v.a[2])])
        if ty is not None and CARRIED.search(ty):
            return v
        if v.op == 'agg' and v.a[0] == 'pulldown_cmark::CodeBlockKind':
            return v
        return sym(f'havoc.{k}.' + '.'.join(map(str, path)))
    return go(elem, None, ())


def same_top(a, b):
    """the same writer, whatever was written into it"""
    while a.op in ('upd', 'V', 'X'):
        a = a.a[0]
    while b.op in ('upd', 'V', 'X'):
        b = b.a[0]
    return bare(a) is bare(b) or (a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2])


def layers(v):
    n = 0
    while v.op == 'vrest':
        v = v.a[0]
        n += 1
    return v, n


def height(v):
    """entries above the unknown bottom (negative: some of the bottom was taken)"""
    b, it = items(v)
    r, n = layers(b)
    return r, len(it) - n


def align(a, b):
    """both stacks over the same bottom"""
    (ba, ia), (bb, ib) = items(a), items(b)
    (ra, na), (rb, nb) = layers(ba), layers(bb)
    if ra is rb:
        while na < nb:
            ia = [mk('vtop', ba)] + ia
            ba = mk('vrest', ba)
            na += 1
        while nb < na:
            ib = [mk('vtop', bb)] + ib
            bb = mk('vrest', bb)
            nb += 1
    return (ba, ia), (bb, ib)


def compare(init, cur, quote=None):
    """None if the stacks are the same; otherwise what differs.
    quote: literals that may stand for one another in the last prefix entry"""
    for k in ('nested_context', 'indentation', 'writers'):
        a, b = clean(init[k]), clean(cur[k])
        if a is b:
            continue
        if a is T or b is T:
            return f'{k} could not be followed'
        (ba, ia), (bb, ib) = align(a, b)
        if ba is not bb or len(ia) != len(ib):
            return f'{k}: {show(a)[:80]} became {show(b)[:80]}'
        for i, (x, y) in enumerate(zip(ia, ib)):
            if x is y:
                continue
            last = i == len(ia) - 1
            if k == 'writers' and last and same_top(x, y):
                continue
            if k == 'indentation' and last and quote and quote(x, y):
                continue
            return f'{k}: entry {show(x)[:60]} became {show(y)[:60]}'
    return None


def quote_blank(x, y):
    return lits(x) in QUOTE and lits(y) in QUOTE


def step(F, script, **kw):
    m = StepMon(F, script)
    e, outs = run_step(F, script, m, **kw)
    return m, e, outs


def opening(name):
    """one construct: its opening step, then its closing step from each distinct result"""
    F, S = _CX['F'], _CX['S']
    st, en = S['Start(' + name + ')'], S['End(' + name.split('/')[0] + ')']
    bad, n_open, n_close, steps = [], 0, 0, 0
    m, e, outs = step(F, st)
    steps += e.steps
    fns = set(e.seenfn) if hasattr(e, 'seenfn') else set()
    rets = [o for o in outs if o.kind != 'unwind']
    quoted = name.startswith('BlockQuote')
    done = set()
    for init, cur, mon, s in m.ends:
        n_open += 1
        k0 = tuple(clean(init[x]) for x in m.stacks) + tuple(clean(cur[x]) for x in m.stacks)
        if k0 in done:
            continue
        done.add(k0)
        before = {x: clean(init[x]) for x in m.stacks}
        after = {x: clean(cur[x]) for x in m.stacks}
        if any(v is T for v in list(before.values()) + list(after.values())):
            bad.append(('lost', f'the stacks could not be followed through the start of {name}'))
            continue
        wb, wi = items(after['writers'])
        if height(after['writers'])[1] > height(before['writers'])[1]:
            after['writers'] = vec(wb, wi[:-1] + [forget(F, wi[-1], 0)])
        else:
            d = compare({**before, 'nested_context': VEC0, 'indentation': VEC0}, {**after, 'nested_context': VEC0, 'indentation': VEC0})
            if d:
                bad.append(('writers', f'the start of {name} disturbs the open buffers: {d}'))
            after['writers'] = before['writers']
        variants = [after]
        if quoted:
            ib, ii = items(after['indentation'])
            b0, i0 = items(before['indentation'])
            if len(ii) != len(i0) + 1 or ib is not b0 and not (b0.op == 'vec0' and ib.op == 'vec0'):
                if not (ib is b0):
                    bad.append(('push', f'the start of a block quote does not add exactly one prefix entry: {show(before["indentation"])[:70]} became {show(after["indentation"])[:70]}'))
                    continue
                bad.append(('push', 'the start of a block quote does not add exactly one prefix entry'))
                continue
            if lits(ii[-1]) not in QUOTE:
                bad.append(('marker', f'the prefix added by a block quote is {show(ii[-1])[:60]}, not a quote marker'))
                continue
            for x, y in zip(i0, ii):
                if x is not y and not quote_blank(x, y):
                    bad.append(('outer', f'the start of a block quote turns the outer prefix entry {show(x)[:50]} into {show(y)[:50]}'))
            # inner quotes may add or remove the trailing blank of the marker, and of no other entry
            variants = [dict(after, indentation=vec(ib, ii[:-1] + [cstr(q)])) for q in QUOTE]
        elif name == 'CodeBlock/Indented':
            ib, ii = items(after['indentation'])
            b0, i0 = items(before['indentation'])
            if ib is not b0 or len(ii) != len(i0) + 1 or lits(ii[-1]) != '    ':
                bad.append(('push', 'an indented code block does not add one four-blank prefix entry'))
        elif name.startswith('CodeBlock/') or name in ('Paragraph', 'Link', 'Image', 'HtmlBlock', 'List', 'TableHead', 'TableRow', 'TableCell',
                                                     'Emphasis', 'Strong', 'Strikethrough', 'MetadataBlock'):
            if clean(before['indentation']) is not clean(after['indentation']):
                bad.append(('push', f'the start of {name} changes the line prefix: {show(before["indentation"])[:60]} became {show(after["indentation"])[:60]}'))
        for v in variants:
            m2, e2, outs2 = step(F, en, stacks=v, before=before)
            steps += e2.steps
            n_close += len(m2.ends)
            if not m2.ends:
                bad.append(('noreturn', f'the end of {name} is never handled after a start that left {", ".join(k + "=" + show(x)[:50] for k, x in v.items())}'))
            for i2, c2, mon2, s2 in m2.ends:
                d = compare(i2, c2, quote_blank if quoted else None)
                if d:
                    bad.append(('pair', f'after {name} ends the state is not what it was before it began: {d}'))
            bad += [('error', f'the end of {name} can stop formatting')] if any(o.kind == 'ret' for o in outs2) and False else []
    return name, n_open, n_close, steps, sorted(set(bad)), sorted(m.opaque), bool(m.ends)


def leaf(name):
    F, S = _CX['F'], _CX['S']
    m, e, outs = step(F, S[name])
    bad = []
    for init, cur, mon, s in m.ends:
        d = compare(init, cur)
        if d:
            bad.append(('leaf', f'{name} changes the nesting state: {d}'))
    return name, len(m.ends), 0, e.steps, sorted(set(bad)), sorted(m.opaque), bool(m.ends)


def job(t):
    try:
        return (opening if t[0] == 'o' else leaf)(t[1])
    except Budget as x:
        return t[1], 0, 0, 0, [('budget', f'{t[1]}: not analysable within budget ({x})')], [], True


# constructs of parser extensions; the parser yields them only when the extension is switched on
EXT = {'DefinitionList': 'definition lists', 'DefinitionListTitle': 'definition lists', 'DefinitionListDefinition': 'definition lists',
       'Superscript': 'super/subscript', 'Subscript': 'super/subscript', 'InlineMath': 'math', 'DisplayMath': 'math'}
BITS = {'definition lists': 1 << 12, 'super/subscript': (1 << 13) | (1 << 14), 'math': 1 << 10}


def carried_writes(F):
    """places where a prefix put aside in a writer is assigned or mutably borrowed after construction"""
    adt = state_adt(F)
    carriers = {}
    for k, a in F.adts.items():
        if a.get('local') and k != adt:
            for v in a['variants']:
                for i, t in enumerate(v.get('ftys', ())):
                    if t.startswith('std::vec::Vec<std::borrow::Cow<\'static'):
                        carriers.setdefault(k, set()).add(i)
    out = []

    def look(f, place, sp, what):
        for t, p, n in place_steps(F, f, place):
            if t is not None and p[0] == 'f' and p[1] in carriers.get(t.split('<')[0], ()):
                out.append((f['path'], sp, f'{what} the line prefix put aside in {t.split("<")[0]}'))
    for f in F.local:
        for b in f['blocks']:
            for s in b['s']:
                if s[0] != '=':
                    continue
                if s[1][1]:
                    look(f, s[1], s[3] if len(s) > 3 else b['sp'], 'assigns')
                if s[2][0] == 'ref' and s[2][2]:
                    look(f, s[2][1], s[3] if len(s) > 3 else b['sp'], 'mutably borrows')
            t = b['t']
            if t['k'] == 'call' and t['d'][1]:
                look(f, t['d'], b['sp'], 'assigns')
    return carriers, out


class SinkMon(StepMon):
    """a text sink of the formatting state, analysed itself; the writers' own sinks stay opaque"""

    def __init__(self, F, root):
        StepMon.__init__(self, F, None)
        self.root = root

    def call(self, eng, cx, st, fr, args, site):
        if sink(self.F, fr) and fr.get('id') is not None and 'FormatState' in self.F.fns[fr['id']]['path'] and fr['id'] not in eng.stack:
            return None        # one sink in terms of another
        if sink(self.F, fr) and fr.get('rk') == 'virtual':
            return [('ret', eng.fresh(st, ('r', site)), st)]
        return StepMon.call(self, eng, cx, st, fr, args, site)


def sinks_of(F):
    return [f for f in F.local if not f['closure'] and re.match(r'<[\w:]*FormatState<.*> as .*Write', f['path'])]


def sinkjob(fid):
    F = _CX['F']
    f = F.fns[fid]
    fi, v = state_fields(F)
    root = ('ev', 'state')
    m = SinkMon(F, root)
    e = Engine(F, m, cap=40, loopcap=12, budget=200000)
    val = agg(state_adt(F), 0, [sym('S.' + n) for n in v['fields']])
    init = agg('state', 0, [sym('S.' + n) for n in v['fields']])
    args = [ref(root, (), True)] + [sym(f'a{i}') for i in range(f['argc'] - 1)]
    ins = frozenset(x for t in val.a[2] for x in t.syms) | frozenset(x for t in args for x in t.syms)
    try:
        outs = e.run(f, args, {root: val, ('ev', 'init'): init}, ('sink',), 1, ins)
    except Budget as x:
        return f['path'], 0, [f'not analysable within budget ({x})']
    bad = []
    n = 0
    for o in outs:
        if o.kind != 'ret':
            continue
        n += 1
        i2 = {k: field(o.mem[('ev', 'init')], (None, i)) for k, i in fi.items()}
        c2 = {k: field(o.mem[root], (None, i)) for k, i in fi.items()}
        d = compare(i2, c2)
        if d:
            bad.append(d)
    return f['path'], n, sorted(set(bad))


def run(cx):
    F = cx.facts('lib')
    S = {s.name: s for s in scripts(F)}
    _CX.update(F=F, S=S)
    names = [s[6:-1] for s in S if s.startswith('Start(')]
    leaves = [s for s in S if not s.startswith(('Start(', 'End('))]
    heavy = ('BlockQuote', 'Item', 'FootnoteDefinition')
    tasks = sorted([('o', n) for n in names] + [('l', n) for n in leaves], key=lambda t: (not t[1].startswith(heavy), t[0] != 'o', t[1]))
    opq = set()
    unhandled = set()
    for name, n1, n2, steps, bad, opaque, handled in pool(job, tasks):
        opq |= set(opaque)
        cx.count('opening_or_leaf_paths', n1)
        cx.count('closing_paths', n2)
        cx.count('steps', steps)
        if not handled:
            unhandled.add(name)
        for k, msg in bad:
            cx.violation(f'{name}:{k}', msg, loop_fn(F)['sp'])
        cx.oblige(f'event:{name}', not bad, '; '.join(m for _, m in bad)[:400], loop_fn(F)['sp'])
        cx.samples.append(f'{name}: {n1} paths opening, {n2} closing')
    cx.counts['events'] = len(tasks)
    for n in sorted(unhandled):
        cx.oblige(f'handled:{n}', n in EXT, f'no path of the formatting loop handles {n}', loop_fn(F)['sp'])
    carriers, w = carried_writes(F)
    cx.counts['prefix_carriers'] = len(carriers)
    for path, sp, what in w:
        cx.violation(f'carried:{path}', f'{path} {what}', sp)
    cx.oblige('carried-prefix', not w, '; '.join(x[2] for x in w)[:300])
    sk = sinks_of(F)
    cx.counts['text_sinks'] = len(sk)
    for path, n, bad in pool(sinkjob, [f['id'] for f in sk]):
        cx.oblige(f'sink:{path}', n > 0 and not bad, f'writing text disturbs the nesting state: {"; ".join(bad) or "no path analysed"}')
    cx.oblige('sinks-found', len(sk) >= 2, 'the text sinks of the formatting state are gone')
    cx.oblige('analysed', len(tasks) >= 20 and cx.counts['closing_paths'] >= 15, 'too few steps')
    cx.notes.append('local code outside the steps (cannot see the stacks): ' + ', '.join(sorted(opq))[:1500])
