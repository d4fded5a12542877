"""Abstract interpretation of the command line driver (main and everything local it calls) over the
domain of effect histories: every std::fs/io/process call is an event carrying value numbers of its
path and data, every fallible step forks into success and failure, and each exit's history is
checked: read of the named file -> formatting -> exactly one output of exactly the formatted text,
to the named file iff --stdout is off, to standard output iff it is on, and no Ok exit after a
failed step."""
from util import *
import cli

RULE = __doc__
ASSUMES = ['std::fs::write/File::create/print! have their documented effects',
           'clap and tracing_subscriber do not touch the input file']


def run(cx):
    F = cx.facts('bin')
    main, idx, m, e, outs = cli.analyse(F)
    C = cli.CLI
    PATH = field(C, (None, idx['input']))
    CONTENT = mk('app', 'content', PATH)
    w = main['sp']
    n_ok = n_err = 0

    def is_result(d):
        return d is not None and d.op == 'app' and d.a[0] == 'formatted'

    exits = [(o.ret, o.mon) for o in outs if o.kind == 'ret']
    exits += [(ok() if c.op == 'c' and c.a[0] == 0 else err(), mon) for c, mon in m.exits]
    kinds = {'paths': 0}
    for ret, mon in exits:
        ret = bare(ret) if ret.op != 'agg' else ret
        isok = not (ret.op == 'agg' and ret.a[1] == 1)
        if ret.op != 'agg':
            cx.violation('exit:unknown', f'cannot tell whether main succeeds on history {mon}', w)
        hist = ' '.join(x[0] for x in mon)
        formatted = False
        outputs = 0
        fails = [x[1] for x in mon if x[0] == 'fail']
        for x in mon:
            kind, path, data, flag = x
            if kind == 'fail':
                if path == 'format':
                    formatted = False
                continue
            if kind == 'read' or kind == 'open':
                cx.oblige('read:only-the-named-file', path is PATH, f'reads {path}, not the file named on the command line', w)
            elif kind == 'format':
                cx.oblige('format:whole-file-content', path is CONTENT, f'formats {path}, not the unmodified file content', w)
                formatted = True
            elif kind in ('write', 'truncate'):
                cx.oblige('write:only-the-named-file', path is PATH, f'{kind} of {path}', w)
                cx.oblige('write:after-successful-formatting', formatted, f'{kind} on history {hist}', w)
                cx.oblige('write:not-with-stdout-flag', flag is False, f'{kind} of the input file although --stdout may be set (history {hist})', w)
                if kind == 'write':
                    cx.oblige('write:exactly-the-formatted-text', is_result(data), f'writes {data}', w)
                    outputs += 1
            elif kind == 'print':
                cx.oblige('print:only-with-stdout-flag', flag is True, f'prints although --stdout may be off (history {hist})', w)
                cx.oblige('print:after-successful-formatting', formatted, f'print on history {hist}', w)
                cx.oblige('print:exactly-the-formatted-text', is_result(data), f'prints {data}', w)
                outputs += 1
            elif kind == 'other':
                cx.violation(f'effect:{path.a[0]}', f'unexpected side effect {path.a[0]} in the command line driver', w)
        if isok:
            n_ok += 1
            cx.oblige('ok-exit:no-failed-step', not fails, f'main succeeds although {fails} failed (history {hist})', w)
            cx.oblige('ok-exit:exactly-one-output', outputs == 1, f'main succeeds with {outputs} outputs (history {hist})', w)
        else:
            n_err += 1
    cx.oblige('anchor:success-exits', n_ok >= 2, f'only {n_ok} successful histories found', w)
    cx.oblige('anchor:failure-exits', n_err >= 3, f'only {n_err} failing histories found (read, format, write)', w)
    cx.counts.update(histories_ok=n_ok, histories_err=n_err, functions=len(e.fns_seen), call_sites=len(e.sites))
    cx.samples = [' -> '.join(f'{x[0]}({cli.show(x[1]) if type(x[1]) is N else x[1] or ""}{", " + cli.show(x[2]) if type(x[2]) is N else ""})[stdout={x[3]}]' for x in mon)
                  + f' => {"Ok" if r.a[1] == 0 else "Err"}' for r, mon in exits[:12]]
