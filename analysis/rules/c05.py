"""Error-origin analysis over resolved MIR.  Formatting can only report `fmt::Error`; an error value
must come into being somewhere.  In every library function reachable from formatting, no constant,
aggregate or conversion creates a `fmt::Error`, no external function other than the infallible
text-building ones returns one, and every text sink written to is a String or a local writer whose
own code is analysed the same way; so every `?` only ever forwards success."""
from util import *
from rules.c01 import reachable
import re

RULE = __doc__
ASSUMES = ['writing to a String and displaying std/pulldown-cmark text types never fails',
           'textwrap/regex calls do not return fmt::Error']
ERR = re.compile(r'(^|[^\w])(std|core)::fmt::Error\b')
FWD = {'branch', 'from_residual', 'from_output', 'map', 'and', 'and_then', 'or', 'or_else', 'as_ref', 'as_mut', 'unwrap', 'expect', 'ok', 'is_ok', 'is_err',
       'is_ok_and', 'is_err_and', 'unwrap_or', 'unwrap_or_else', 'unwrap_or_default', 'inspect', 'inspect_err', 'err', 'clone', 'map_or', 'map_or_else',
       'iter', 'collect', 'try_for_each', 'try_fold', 'for_each', 'fold', 'sum', 'copied', 'cloned', 'next', 'transpose', 'flatten', 'call', 'call_once',
       'call_mut', 'into', 'from', 'into_iter', 'find_map', 'find', 'reduce', 'try_reduce', 'last', 'catch_unwind', 'replace', 'take', 'insert', 'get_or_insert'}
SINKS = {'write_str', 'write_char', 'write_fmt'}


def run(cx):
    F = cx.facts('lib')
    fns = reachable(F)
    n_calls = n_ops = n_sinks = 0
    for f in fns:
        for bi, b in enumerate(f['blocks']):
            for s in b['s']:
                if s[0] != '=':
                    continue
                rv = s[2]
                if rv[0] == 'agg' and rv[1][0] == 'adt' and ERR.search(str(rv[1][1])):
                    cx.violation(f'makes-error:in:{f["path"]}', 'builds a formatting error', b['sp'])
                for o in operands(rv):
                    n_ops += 1
                    if o[0] == 'k' and o[1].get('ty') is not None and ERR.search(F.tyname(o[1]['ty'])) and 'fn' not in (o[1].get('v') or {}) \
                            and F.ty(o[1]['ty']).get('k') not in ('fndef', 'closure', 'fn', 'fnptr'):
                        cx.violation(f'makes-error:in:{f["path"]}', f'uses a constant of type {F.tyname(o[1]["ty"])[:80]}', b['sp'])
        for bi, t, fr in F.calls(f):
            n_calls += 1
            w = f['blocks'][bi]['sp']
            for o in t['a']:
                if o[0] == 'k' and o[1].get('ty') is not None and F.tyname(o[1]['ty']).replace('core::', 'std::') in ('std::fmt::Error', 'std::result::Result<(), std::fmt::Error>'):
                    cx.violation(f'makes-error:in:{f["path"]}', 'passes a formatting error constant', w)
                v = o[1].get('v') if o[0] == 'k' else None
                if v and 'fn' in v and v.get('ctor') and ERR.search(str(v.get('adt'))):
                    cx.violation(f'makes-error:in:{f["path"]}', 'passes the error constructor', w)
            if fr is None:
                continue
            d = t['d']
            ty = F.tyname(f['locals'][d[0]]['ty']) if not d[1] else ''
            krate = fr.get('rkrate') or fr.get('krate')
            name = fr.get('name', '')
            p = fr.get('res') or fr['fn']
            if not ERR.search(ty) or krate == 'markdown_fmt':
                continue
            if name in SINKS:
                n_sinks += 1
                rt = recv(F, f, t)
                ok = 'String' in rt or 'markdown_fmt' in rt or any(a.get('local') and k.split('::')[-1] in rt for k, a in F.adts.items()) \
                    or 'dyn ' in rt or fr.get('rk') == 'virtual'
                cx.oblige(f'sink:{p}:in:{f["path"]}', ok, f'writes to {rt}, which may refuse text', w) if not ok else cx.count('sinks_accepted')
            elif name not in FWD:
                cx.violation(f'fallible:{p}:in:{f["path"]}', f'{p} can report a formatting error', w)
    # every implementation reachable by dynamic dispatch is String's or local
    vts = 0
    for key, vt in F.vtables.items():
        if ' as ' in key and 'Write' in key.split(' as ')[-1] and vt:
            vts += 1
            self_ty = key.split(' as ')[0]
            ok = 'String' in self_ty or any(a.get('local') and k.split('::')[-1] in self_ty for k, a in F.adts.items())
            cx.oblige(f'dyn-sink:{self_ty[:60]}', ok, 'a writer type from elsewhere may refuse text')
    cx.counts.update(functions=len(fns), call_sites=n_calls, operands=n_ops, sink_calls=n_sinks, writer_vtables=vts)
    cx.oblige('no-error-is-ever-created', not cx.violations, 'see the individual reports')
    cx.oblige('analysed', len(fns) >= 60 and n_sinks >= 10, f'only {len(fns)} functions, {n_sinks} sink calls')


def recv(F, f, t):
    o = t['a'][0]
    if o[0] == 'k':
        return F.tyname(o[1].get('ty'))
    p = o[1]
    return F.tyname(f['locals'][p[0]]['ty']) if not p[1] else '?'


def operands(rv):
    if rv[0] in ('use', 'repeat'):
        yield rv[1]
    elif rv[0] in ('cast', 'un'):
        yield rv[2]
    elif rv[0] == 'bin':
        yield rv[2]
        yield rv[3]
    elif rv[0] == 'agg':
        yield from rv[2]
