"""Guard-liveness analysis over MIR.  Every call that yields a borrow guard of shared settings
(RefCell/Mutex/RwLock guards) opens a region that ends where the guard is dropped or given up, on
normal and unwinding edges alike.  No call or drop inside such a region may reach, through the call
graph with closures and dynamic calls resolved, the user's callback, another formatting call, or a
conflicting borrow of the settings."""
from util import *
from rules import c02
from rules.c01 import reachable
import re

RULE = __doc__
ASSUMES = ['std and dependency functions called in a region only call back into the closures they are given']
GUARD = re.compile(r'(std::cell::Ref<|std::cell::RefMut<|MutexGuard<|RwLockReadGuard<|RwLockWriteGuard<)')
MUTG = re.compile(r'(std::cell::RefMut<|MutexGuard<|RwLockWriteGuard<)')


def is_callback(fr):
    return fr is not None and (fr.get('trait') or '').split('::')[-1].split('<')[0] in ('Fn', 'FnMut', 'FnOnce') and 'dyn ' in fr.get('full', '')


def run(cx):
    F = cx.facts('lib')
    fns = reachable(F)
    fadt = c02.formatter_adt(F)
    mut_fns, shared_fns, cb_fns = set(), set(), set()
    for f in F.local:
        for bi, t, fr in F.calls(f):
            d = t['d']
            ty = F.tyname(f['locals'][d[0]]['ty']) if not d[1] else ''
            if GUARD.search(ty) and (fr is None or (fr.get('rkrate') or fr.get('krate')) != 'markdown_fmt') and fr.get('name') != 'map':
                (mut_fns if MUTG.search(ty) else shared_fns).add(f['id'])
            if is_callback(fr):
                cb_fns.add(f['id'])
    entry = {f['id'] for f in F.local if f['path'].endswith('MarkdownFormatter::format')}
    cb_reach = F.rreach(cb_fns | entry)
    mut_reach = F.rreach(mut_fns)
    any_reach = F.rreach(mut_fns | shared_fns)
    cx.oblige('callback-found', bool(cb_fns), 'no call of the user callback found')
    n_regions = n_calls = 0
    for f in fns:
        if not any(GUARD.search(F.tyname(l['ty'])) for l in f['locals']):
            continue
        # forward dataflow: block entry -> frozenset of guard locals that may be live
        nb = len(f['blocks'])
        entry_sets = {0: frozenset()}
        work = [0]
        bad = {}
        regions = set()
        while work:
            bi = work.pop()
            live = set(entry_sets[bi])
            b = f['blocks'][bi]
            for s in b['s']:
                if s[0] == '=' and s[2][0] in ('use', 'agg'):
                    ops = [s[2][1]] if s[2][0] == 'use' else s[2][2]
                    for o in ops:
                        if o[0] == 'm' and o[1][0] in live:
                            live.discard(o[1][0])
                            live.add(s[1][0])
                elif s[0] == 'dead':
                    live.discard(s[1])
            t = b['t']
            k = t['k']
            if k == 'call':
                fr = t['f'][1]['v'] if t['f'][0] == 'k' and 'fn' in t['f'][1]['v'] else None
                args = {o[1][0] for o in t['a'] if o[0] == 'm'}
                given = live & args
                inside = live - given if fr is not None and fr.get('name') in ('drop', 'map', 'leak', 'forget') else live
                if inside:
                    n_calls += 1
                    check(cx, F, f, bi, fr, t, inside, cb_reach, mut_reach, any_reach, bad)
                live -= given
                d = t['d']
                ty = F.tyname(f['locals'][d[0]]['ty'])
                after = set(live)
                if GUARD.search(ty) and not d[1]:
                    after.add(d[0])
                    regions.add(bi)
                succ = [(t['t'], after)] if t['t'] is not None else []
                if isinstance(t.get('u'), int):
                    succ.append((t['u'], set(live)))
            elif k == 'drop':
                p = t['p']
                if p[0] in live and not p[1]:
                    live.discard(p[0])
                elif live and t['dropfn'] is not None:
                    n_calls += 1
                    g = t['dropfn']
                    if g in cb_reach or g in mut_reach:
                        bad[(bi, 'drop')] = f'drops a value whose destructor borrows the settings while they are borrowed'
                succ = [(t['t'], live)]
                if isinstance(t.get('u'), int):
                    succ.append((t['u'], set(live)))
            elif k == 'switch':
                succ = [(x[1], live) for x in t['ts']] + [(t['o'], live)]
            elif k in ('goto', 'assert'):
                succ = [(t['t'], live)]
                if isinstance(t.get('u'), int):
                    succ.append((t['u'], live))
            else:
                succ = []
            for n, s in succ:
                old = entry_sets.get(n)
                new = frozenset(s) | (old or frozenset())
                if old is None or new != old:
                    entry_sets[n] = new
                    work.append(n)
        n_regions += len(regions)
        for (bi, _), msg in sorted(bad.items(), key=str):
            cx.violation(f'region:in:{f["path"]}', msg, f['blocks'][bi]['sp'])
        cx.oblige(f'regions:{f["path"]}', not bad, '; '.join(sorted(set(bad.values()))), f['sp'])
    cx.counts.update(functions=len(fns), borrow_regions=n_regions, calls_inside_regions=n_calls, callback_call_sites=len(cb_fns))
    cx.oblige('analysed', len(fns) >= 60 and (n_regions >= 1 or not c02.cells(F, fadt)), 'no settings borrow found')


def check(cx, F, f, bi, fr, t, inside, cb_reach, mut_reach, any_reach, bad):
    ismut = any(MUTG.search(F.tyname(f['locals'][l]['ty'])) for l in inside)
    if fr is None:
        bad[(bi, 'ptr')] = 'calls an unknown function while the settings are borrowed'
        return
    if is_callback(fr):
        bad[(bi, 'cb')] = 'runs the user callback while the settings are borrowed'
        return
    targets = set()
    if fr.get('id') is not None:
        targets.add(fr['id'])
    if fr.get('rk') == 'virtual':
        targets |= set(F.dyn_targets(fr))
    # closures handed to foreign code
    for o in t['a']:
        if o[0] in 'mc':
            ty = F.ty(f['locals'][o[1][0]]['ty'])
            if ty.get('k') == 'closure' and ty.get('fn') is not None:
                targets.add(ty['fn'])
        elif o[0] == 'k' and isinstance(o[1].get('v'), dict) and 'closure' in o[1]['v']:
            ty = F.types[o[1]['v']['closure']]
            if ty.get('fn') is not None:
                targets.add(ty['fn'])
    name = fr.get('name', '')
    d = t['d']
    dty = F.tyname(f['locals'][d[0]]['ty'])
    if GUARD.search(dty) and name != 'map':
        if ismut or MUTG.search(dty):
            bad[(bi, 'b')] = 'borrows the settings while they are already borrowed'
    for x in targets:
        g = F.fns[x]['path'] if x in F.fns else str(x)
        if x in cb_reach:
            bad[(bi, x)] = f'calls {g}, which can run the user callback or format again, while the settings are borrowed'
        elif x in mut_reach or (ismut and x in any_reach):
            bad[(bi, x)] = f'calls {g}, which borrows the settings again, while they are borrowed'
