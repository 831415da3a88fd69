"""C11: stage, reset and make killed before, inside and after every call that changes a file, and run again."""
import os, random, shutil
from . import fsfault, gen
from .lifegen import newlabel
from .life import Life, simple
from .proj import ToolError
from .tlc import tlc, check_trace

CFG = 'SPECIFICATION Spec\nINVARIANTS Safe Whole\nCONSTANTS D=%d MaxCrashes=%d MaxCommands=%d\nCHECK_DEADLOCK FALSE\n'


def models(ctx):
    r = tlc('MCCrash', CFG % ((3, 2, 5) if ctx.quick else (3, 3, 7)), {'PROTO': 'rename'}, timeout=600)
    if not r.ok:
        raise ToolError('MCCrash does not hold:\n' + r.out[-3000:])
    ctx.model(r, 'MCCrash')
    for p in ('inplace', 'remove', 'stagefirst', 'notwin'):
        r = tlc('MCCrash', CFG % (2, 2, 5), {'PROTO': p}, timeout=600)
        if not r.invariant:
            raise ToolError('MCCrash holds for protocol %s: it shows nothing' % p)
        ctx.add('model_protocols_refuted', 1)


def prepare(L, r):
    """a history of some length, a stage that is empty or not, definitions that differ from it or not"""
    cat = simple(gen.random_cat(r, r.choice([1, 3, 8])))
    L.set_cat(cat)
    for _ in range(r.choice([0, 1, 1, 2])):
        L.cmd('stage')
        L.cmd('make', newlabel(L, r))
        cat = simple(gen.evolve(r, cat, r.choice([1, 2, 5])))
        if cat['schemas']:
            L.set_cat(cat)
    for _ in range(r.choice([0, 1, 1, 2])):
        L.cmd('stage')
        if r.random() < .6:
            c = simple(gen.evolve(r, cat, r.choice([1, 2, 5])))
            if c['schemas']:
                cat = c
                L.set_cat(cat)


def one(exe, job):
    seed, full = job
    r = random.Random('crash-%s' % seed)
    with Life(exe, 'crash-%s' % seed) as L:
        if not L.start():
            return L.data(crashes=0)
        prepare(L, r)
        n = 0
        k0 = L.keep()
        for cmd in ('stage', 'reset', 'make'):
            label = newlabel(L, r) if cmd == 'make' else ''
            adds = L.adds() if cmd == 'stage' else -1
            L.cmd(cmd, label, fs=(None, 0))
            ops = list(L.fsops)
            L.put_back(k0)
            at = list(range(len(ops)))
            for k in at:
                modes = ['kill', 'after'] + (['torn'] if ops[k][0] in ('write', 'writev', 'pwrite') else [])
                for mode in modes if full else [r.choice(modes)]:
                    L.cmd(cmd, label, fs=(mode, k), full=adds)
                    n += 1
                    again = 0
                    while L.events[-1]['e'] == 'crash' and again < 2 and r.random() < .4:
                        again += 1
                        L.cmd(cmd, label, fs=(r.choice(['kill', 'after', 'torn']), r.randrange(len(ops))), full=adds)
                    if L.events[-1]['e'] == 'crash':
                        L.cmd(cmd, label, kind='again', full=adds)
                    if r.random() < .3:
                        L.cmd('status')
                        L.cmd('make', newlabel(L, r))
                        L.cmd('up')
                        L.cmd('down', 'init')
                    L.put_back(k0)
        shutil.rmtree(k0)
        return L.data(crashes=n)


def check_crashes(ctx):
    fsfault.shim()
    models(ctx)
    n = 160 if ctx.quick else 6000
    base = ctx.seed * 1000000
    for part in range(0, n, 160):
        runs = ctx.pmap(one, [(base + k, k % 2 == 0) for k in range(part, min(n, part + 160))])
        v, t = check_trace('TraceLife', [x['events'] for x in runs], env={'WANT': 'C11'})
        ctx.traced(t, len(runs))
        ctx.add('commands_killed', sum(x['crashes'] for x in runs))
        ctx.add('commands_run_again', sum(e['e'] == 'again' for x in runs for e in x['events']))
        for a, b, clause, detail in v:
            x = runs[a]
            ctx.violation(clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail), {'seed': x['seed'], 'steps': x['notes'][:b + 1], 'legend': x['legend']})
        if not any(x['crashes'] for x in runs) and not ctx.viols:
            raise ToolError('no command was killed: ' + str([x['broken'] for x in runs if x['broken']][:1]))
        for x in runs[:2]:
            ctx.sample([q for q in x['notes'] if 'fault' in q][:3])
        if ctx.left(840) < 60:
            break
