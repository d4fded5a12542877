"""Option fidelity, by abstract interpretation of three layers of MIR.
(1) The command line definition: the argument-construction chains are evaluated to terms; each of
the four arguments must have exactly its documented spelling, kind, default and parser, and the
struct built from the matches must take each field from its own argument.  (2) The driver: the
builder term handed to formatting must carry the max-width and reflow fields unchanged, on every
path.  (3) The library: each public setter writes exactly its own slot with exactly the value given
and never reads another, `build` and the convenience functions hand builder slots over unchanged,
defaults are (no width, no reflow, identity callback)."""
from util import *
import cli

RULE = __doc__
ASSUMES = ['clap interprets Arg::new/short/long/action/default_value as documented',
           'a max width of None makes the reflow option irrelevant (C10)']

NEUTRAL = {'value_name', 'help', 'long_help', 'help_heading', 'hide', 'alias', 'visible_alias', 'aliases', 'visible_aliases',
           'display_order', 'value_hint', 'next_line_help', 'hide_default_value', 'hide_possible_values'}


class ClapMon(Monitor):
    def call(self, eng, cx, st, fr, args, site):
        p, n = fr.get('res') or fr['fn'], fr.get('name', '')
        rk = fr.get('rkrate') or fr.get('krate') or ''
        F = lambda i: flat(st, args[i], eng)
        if n == 'takes_values' and 'ArgAction' in p:
            a = F(0)
            if a.op == 'agg':
                return [('ret', mk('c', a.a[1] in (0, 1)), st)]
        if 'OnceLock' in p and n == 'get_or_init':
            c = eng.closure_of(st, args[1])
            if c:
                g, v = c
                a0 = eng.closure_self(st, g, v, args[1], site)
                return eng.call_local(cx, g, [a0], st, site)
        if n == 'to_string' and args:
            return [('ret', mk('app', 'id', F(0)), st)]
        if rk.startswith('clap'):
            if n == 'arg' and 'Command' in p:
                st.mon = st.mon + (F(1),)
                return [('ret', F(0), st)]
            return [('ret', mk('app', n if n != 'new' else p, *[F(i) for i in range(len(args))]), st)]
        if rk in STD:
            r = fmt_model(eng, st, fr, args) or identity_model(eng, st, fr, args)
            if r:
                return r
            if n == 'branch' or n in ('ok_or_else', 'from_residual', 'map_err', 'ok_or'):
                return None
        return None


def chain(a):
    """Arg term -> (id, {method: args})"""
    ms = {}
    while a.op == 'app' and a.a[0] not in ('clap::Arg::new',):
        ms.setdefault(a.a[0], []).append([x for x in a.a[2:]])
        a = a.a[1]
    if a.op == 'app' and a.a[0] == 'clap::Arg::new' and a.a[1].op == 's':
        return a.a[1].a[0], ms
    raise Missing('command line argument chain starting at Arg::new("..")')


def auto_parser(t, ty):
    """clap's own parser for the type: via the _AutoValueParser factory"""
    return t.op == 'app' and t.a[0] == 'value_parser' and '_AutoValueParser' in show(t)


def run_clap(cx, F):
    ag = [f for f in F.local if f['path'].endswith('::augment_args') and ' as ' in f['path']]
    fm = [f for f in F.local if f['path'].endswith('::from_arg_matches_mut') and ' as ' in f['path']]
    if len(ag) != 1 or len(fm) != 1:
        raise Missing('derived command line definition')
    e = Engine(F, ClapMon())
    a0 = sym('command')
    outs = e.run(ag[0], [a0], {}, (), 1, frozenset({a0}))
    w = ag[0]['sp']
    for o in outs:
        if o.kind != 'ret':
            continue
        got = dict(chain(a) for a in o.mon)
        cx.oblige('cli:arguments', set(got) >= {'input', 'stdout', 'max_width', 'reflow_text'}, f'arguments are {sorted(got)}', w)
        for name, ms in got.items():
            def one(m):
                v = ms.get(m)
                return v[-1][0] if v else None

            def const(m):
                v = one(m)
                return v.a[0] if v is not None and v.op in ('c', 's') else None
            if name not in ('input', 'stdout', 'max_width', 'reflow_text'):
                cx.oblige(f'cli:{name}:optional', const('required') in (None, False), f'additional argument {name} is required', w)
                continue
            want = dict(input=(None, None, 0), stdout=(None, 'stdout', 2), max_width=('m', 'max-width', 0),
                        reflow_text=('r', 'reflow-text', 2))[name]
            cx.oblige(f'cli:{name}:short', const('short') == want[0], f'short name is {const("short")!r}, documented {want[0]!r}', w)
            cx.oblige(f'cli:{name}:long', const('long') == want[1], f'long name is {const("long")!r}, documented {want[1]!r}', w)
            act = one('action')
            cx.oblige(f'cli:{name}:action', act is not None and act.op == 'agg' and act.a[1] == want[2],
                      f'action is {act}: {"takes a value" if want[2] == 0 else "is a flag that turns the option on"} expected', w)
            cx.oblige(f'cli:{name}:required', const('required') == (name == 'input') or (one('required') is None and name != 'input'),
                      f'required is {one("required")}', w)
            if want[2] == 2:
                d = ms.get('default_value')
                d = bare(unwrap(None, d[-1][0])) if d else None
                cx.oblige(f'cli:{name}:default-off', d is None or d in (FALSE, cstr('false')), f'flag defaults to {d}', w)
                dv = ms.get('default_missing_value')
                cx.oblige(f'cli:{name}:no-missing-default', not dv, 'default_missing_value given', w)
            else:
                cx.oblige(f'cli:{name}:no-default', not any(k.startswith('default') for k in ms), f'has a default value: {sorted(ms)}', w)
                cx.oblige(f'cli:{name}:parser', auto_parser(one('value_parser'), None) if one('value_parser') is not None else True,
                          f'value parser is {one("value_parser")}', w)
            extra = set(ms) - NEUTRAL - {'short', 'long', 'action', 'required', 'value_parser', 'default_value'}
            extra -= {k for k in extra if k.startswith('default')}
            cx.oblige(f'cli:{name}:no-other-setting', not extra, f'settings that change how the argument parses: {sorted(extra)}', w)
    e2 = Engine(F, ClapMon())
    m0 = sym('matches')
    outs = e2.run(fm[0], [m0], {}, (), 1, frozenset({m0}))
    good = [o for o in outs if o.kind == 'ret' and o.ret.op == 'agg' and o.ret.a[1] == 0]
    cx.oblige('cli:parsed-struct-built', len(good) >= 1, 'no path builds the argument struct', fm[0]['sp'])
    for o in good:
        s = o.ret.a[2][0]
        if s.op != 'agg':
            cx.violation('cli:parsed-struct', f'parsed arguments are {s}', fm[0]['sp'])
            continue
        names = F.adt(s.a[0])['variants'][0]['fields']
        for n, v in zip(names, s.a[2]):
            src = {x.a[0] for x in strings(v)}
            cx.oblige(f'cli:field:{n}', src == {n}, f'field {n} is filled from {sorted(src)}', fm[0]['sp'])
    cx.counts['cli_arguments'] = 4
    return e, e2


def strings(v):
    if v.op == 's':
        yield v
    for x in v.a:
        if type(x) is N:
            yield from strings(x)
        elif type(x) is tuple:
            for y in x:
                if type(y) is N:
                    yield from strings(y)


def withs(b):
    out = {}
    order = []
    while b.op == 'app' and b.a[0] == 'with':
        n = b.a[2].a[0]
        if n not in out:
            out[n] = b.a[3]
        order.append(n)
        b = b.a[1]
    return b, out


def run_driver(cx, F):
    main, idx, m, e, outs = cli.analyse(F)
    n = 0
    seen = set()
    for o in outs:
        for x in o.mon:
            if x[0] != 'format' or x[2] in seen:
                continue
            seen.add(x[2])
            n += 1
            base, ws = withs(x[2])
            w = main['sp']
            cx.oblige('driver:starts-from-defaults', base.op == 'app' and base.a[0] == 'defaults', f'builder is {base}', w)
            mw = field(cli.CLI, (None, idx['max_width']))
            rt = field(cli.CLI, (None, idx['reflow_text']))
            got = ws.get('max_width')
            ok_mw = got is not None and (bare(got) is mw or same_opt(got, mw))
            cx.oblige('driver:max-width-forwarded', ok_mw, f'max width handed to the builder is {got}', w)
            g = ws.get('reflow_text')
            none = got is not None and got.op == 'V' and got.a[1] == 0
            cx.oblige('driver:reflow-forwarded', g is rt or none or bool_copy(g, x, rt), f'reflow flag handed to the builder is {g}', w)
            cx.oblige('driver:nothing-else', set(ws) <= {'max_width', 'reflow_text'}, f'builder also gets {sorted(ws)}', w)
    cx.oblige('driver:formatting-sites', n >= 1, 'the driver never formats', main['sp'])
    cx.counts['driver_builder_terms'] = n


def same_opt(v, w):
    """Some(payload of w) / None on a path where w is known"""
    if v.op == 'agg' and v.a[0] == 'std::option::Option' and v.a[1] == 1:
        x = bare(v.a[2][0])
        return x.op == 'fld' and x.a[0] is w and x.a[1] == 1
    return False


def bool_copy(g, ev, rt):
    return False


class LibMon(Monitor):
    def call(self, eng, cx, st, fr, args, site):
        p, n = fr.get('res') or fr['fn'], fr.get('name', '')
        if (fr.get('rkrate') or fr.get('krate')) in STD:
            if n == 'default' and fr.get('trait', '').endswith('Default') and (fr.get('id') is None or eng.f.fns[fr['id']].get('foreign')):
                t = fr.get('self') or fr['full']
                if 'Option' in t:
                    return [('ret', NONE, st)]
                if 'bool' in t:
                    return [('ret', FALSE, st)]
        if n == 'format' and p.endswith('MarkdownFormatter::format'):
            st.mon = st.mon + (('format', flat(st, args[0], eng), flat(st, args[1], eng)),)
            return [('ret', mk('app', 'formatted', flat(st, args[0], eng), flat(st, args[1], eng)), st)]
        return None


def strip_box(v):
    while v.op == 'agg' and v.a[0] == 'box' or v.op == 'app' and v.a[0] == 'id':
        v = v.a[2][0] if v.op == 'agg' else v.a[1]
    return v


def run_lib(cx, F):
    B, M = 'builder::FormatBuilder', 'formatter::MarkdownFormatter'
    pub = lambda suffix: F.fn_named(suffix)[0]
    bad = F.adt(B)['variants'][0]
    cfg_adt = None
    for i, t in enumerate(bad['ftys']):
        n = F.tyname(t) if isinstance(t, int) else t
        if F.adts.get(n, {}).get('variants') and n != B and 'CodeBlock' not in n:
            cfg_i, cfg_adt = i, n
    if cfg_adt is None:
        raise Missing('settings struct of the builder')
    cb_i = [i for i in range(len(bad['ftys'])) if i != cfg_i]
    cv = F.adt(cfg_adt)['variants'][0]
    slot = {}
    for i, t in enumerate(cv['ftys']):
        n = F.tyname(t) if isinstance(t, int) else t
        if n == 'std::option::Option<usize>' and 'max_width' not in slot:
            slot['max_width'] = i
        elif n == 'bool' and 'reflow_text' not in slot:
            slot['reflow_text'] = i
    if len(slot) != 2:
        raise Missing('max width and reflow settings')
    old = sym('old')
    eng = []
    fns = 0
    for name in ('max_width', 'reflow_text'):
        f = [x for x in F.local if x['path'].endswith('FormatBuilder::' + name)]
        if not f:
            raise Missing('FormatBuilder::' + name)
        f = f[0]
        e = Engine(F, LibMon())
        eng.append(e)
        v = sym('value')
        root = ('o', 'builder')
        outs = e.run(f, [ref(root, (), True), v], {root: old}, (), 1, frozenset({old, v}))
        n = 0
        for o in outs:
            if o.kind != 'ret':
                continue
            n += 1
            got = bare(o.mem[root])
            vv = v
            want = setfield(old, ((None, cfg_i), (None, slot[name])), vv)
            okv = got is want
            if not okv and name == 'max_width':
                x = field(field(o.mem[root], (None, cfg_i)), (None, slot[name]))
                okv = same_opt(x, v) and bare(setfield(old, ((None, cfg_i), (None, slot[name])), x)) is got
            cx.oblige(f'setter:{name}:stores-exactly-its-value', okv,
                      f'after the setter the builder is {o.mem[root]}, expected only that setting to change, to the value given', f['sp'])
            r = o.ret
            cx.oblige(f'setter:{name}:returns-the-builder', r.op == 'ref' and r.a[0] == root and not r.a[1], f'returns {r}', f['sp'])
        cx.oblige(f'setter:{name}:analysed', n >= 1, 'setter never returns', f['sp'])
        fns += len(e.fns_seen)
    # defaults
    f = [x for x in F.local if x['path'].endswith('Default>::default') and 'FormatBuilder' in x['path']]
    if not f:
        raise Missing('Default for FormatBuilder')
    e = Engine(F, LibMon())
    for o in e.run(f[0], [], {}, (), 1, frozenset()):
        b = o.ret
        c = field(b, (None, cfg_i))
        cx.oblige('default:no-max-width', field(c, (None, slot['max_width'])) is NONE, f'default max width is {field(c, (None, slot["max_width"]))}', f[0]['sp'])
        cx.oblige('default:no-reflow', field(c, (None, slot['reflow_text'])) is FALSE, f'default reflow is {field(c, (None, slot["reflow_text"]))}', f[0]['sp'])
        cl = strip_box(field(b, (None, cb_i[0])))
        idok = False
        if cl.op == 'agg' and isinstance(cl.a[0], tuple) and cl.a[0][0] == 'cl' and cl.a[0][1] is not None:
            g = F.fns[cl.a[0][1]]
            xs = [sym(f'x{i}') for i in range(g['argc'])]
            e3 = Engine(F, LibMon())
            r3 = e3.run(g, xs, {}, (), 1, frozenset(xs))
            idok = bool(r3) and all(x.kind == 'ret' and strip_box(bare(x.ret)) is xs[-1] for x in r3)
        cx.oblige('default:identity-code-block-formatter', idok, f'the default code block formatter {cl} does not return its text unchanged', f[0]['sp'])
    # build
    f = pub('FormatBuilder::build')
    e = Engine(F, LibMon())
    b = sym('b')
    n = 0
    for o in e.run(f, [b], {}, (), 1, frozenset({b})):
        n += 1
        mf = o.ret
        madt = F.adt(M)['variants'][0]
        okb = mf.op == 'agg'
        if okb:
            vals = []
            for i, x in enumerate(mf.a[2]):
                if x.op == 'upd' and x.a[0].op == 'cellbox':
                    x = dict(x.a[1])[(None, 'cell')]
                vals.append(bare(x))
            cfgv, cbv = field(b, (None, cfg_i)), field(b, (None, cb_i[0]))
            okb = cbv in vals and (cfgv in vals or all(field(cfgv, (None, k)) in vals for k in slot.values()))
        cx.oblige('build:hands-over-every-setting', okb, f'build produces {mf}', f['sp'])
    cx.oblige('build:analysed', n >= 1, 'build never returns', f['sp'])
    # convenience functions
    for name, nargs in (('rewrite_markdown', 1), ('rewrite_markdown_with_builder', 2)):
        f = pub(name)
        e = Engine(F, LibMon())
        a = [sym(f'arg{i}') for i in range(nargs)]
        outs = e.run(f, a, {}, (), 1, frozenset(a))
        n = 0
        for o in outs:
            n += 1
            r = o.ret
            good = r is not None and r.op == 'app' and r.a[0] == 'formatted' and r.a[2] is a[0]
            cx.oblige(f'{name}:formats-its-input-and-returns-the-result', good, f'returns {r}', f['sp'])
            if good:
                src = bare(r.a[1])
                if nargs == 2:
                    good = a[1] in src.syms and not (src.syms - {a[1]}) and field(a[1], (None, cb_i[0])) in subterms(src)
                    good = good and (field(a[1], (None, cfg_i)) in subterms(src))
                else:
                    good = not src.syms and NONE in subterms(src)
                cx.oblige(f'{name}:uses-exactly-the-given-settings', good, f'formats with {src}', f['sp'])
        cx.oblige(f'{name}:analysed', n >= 1, 'never returns', f['sp'])
    # who reads the settings: only through the settings type itself
    cx.counts['library_functions'] = fns
    # callback setters: the stored callback is exactly the one given, every other slot untouched/default
    for name in ('with_code_block_formatter', 'code_block_formatter'):
        f = [x for x in F.local if x['path'].endswith('FormatBuilder::' + name)]
        if not f:
            raise Missing('FormatBuilder::' + name)
        f, v, root = f[0], sym('callback'), ('o', 'builder')
        e = Engine(F, LibMon())
        setter = f['argc'] == 2
        args = [ref(root, (), True), v] if setter else [v]
        n = 0
        for o in e.run(f, args, {root: old} if setter else {}, (), 1, frozenset({old, v})):
            if o.kind != 'ret':
                continue
            n += 1
            b = o.mem[root] if setter else o.ret
            cx.oblige(f'setter:{name}:stores-exactly-its-callback', strip_box(field(b, (None, cb_i[0]))) is v,
                      f'stored callback is {field(b, (None, cb_i[0]))}', f['sp'])
            c = field(b, (None, cfg_i))
            okc = c is field(old, (None, cfg_i)) if setter else (
                field(c, (None, slot['max_width'])) is NONE and field(c, (None, slot['reflow_text'])) is FALSE)
            cx.oblige(f'setter:{name}:keeps-other-settings', okc, f'settings become {c}', f['sp'])
        cx.oblige(f'setter:{name}:analysed', n >= 1, 'never returns', f['sp'])


def subterms(v):
    out = set()
    work = [v]
    while work:
        x = work.pop()
        if type(x) is tuple:
            work.extend(x)
        elif type(x) is N and x not in out:
            out.add(x)
            work.extend(x.a)
    return out


def run(cx):
    run_clap(cx, cx.facts('bin'))
    run_driver(cx, cx.facts('bin'))
    run_lib(cx, cx.facts('lib'))
