"""C05-C10, C17, C19, C21: lives of a project. (1) spec/MCLife.tla is explored exhaustively and the edges of its state graph
that concern the property are walked in the real podo; (2) random lives weighted towards the property; (3) sweeps that
are systematic in one dimension (every step of a migration fails in every way, every corruption under every command).
Every step of all of them is judged by Podo.tla."""
import os, random, shutil
from . import fsfault, gen, lifegen, lifewalk
from .content import version_event, judge as judge_content
from .initcheck import made, CREATED
from .lifegen import BREAKS, newlabel, dump, hpath, restore, save
from . import life
from .life import Life, simple
from .lifecommon import grow
from .proj import ToolError
from .tlc import tlc, check_trace

MUTANTS = ['stage-replaces', 'reset-reparents', 'make-keeps-stage', 'make-overwrites', 'down-from-files', 'up-repeats', 'down-oldest-first', 'up-stage', 'commit-each', 'reject-ignored', 'stage-shows-all', 'make-names-last', 'shows-target']
KINDS = ['error', 'drop', 'drop-after', 'kill', 'kill-after']


# ------------------------------------------------------------ sweeps
def sweep_fault(exe, job):
    """a migration that fails at its n-th exchange with the server, for every n and in every way"""
    _, seed = job
    r = random.Random('sweep-%s' % seed)
    with Life(exe, 'sweep-%s' % seed) as L:
        if not L.start():
            return L.data()
        grow(L, r, r.choice([1, 2, 2, 3]), stage=r.random() < .3)
        plan = [('up', ''), ('down', r.choice(['', 'init']))]
        if r.random() < .5:
            plan = [('up', (L.chain()[1:2] or [''])[0])] + plan
        if r.random() < .3:
            plan.insert(0, ('down', ''))
        for cmd, target in plan:
            kinds = list(KINDS)
            r.shuffle(kinds)
            for kind in kinds:
                for n in range(80):
                    L.cmd(cmd, target, fault=(n, kind))
                    ev = L.events[-1]
                    if not ev['fault']:
                        break              # it was over before
                    if ev['lost']:
                        break              # committed: the rest of the sweep would find nothing to do
                else:
                    continue
                if L.events[-1]['lost'] or L.events[-1]['code'] == 0:
                    # back to where we were
                    L.cmd('down' if cmd == 'up' else 'up', 'init' if cmd == 'up' else '')
            L.cmd(cmd, target)
        return L.data()


def sweep_reject(exe, job):
    """a migration of which one statement is rejected, for every statement"""
    _, seed = job
    r = random.Random('rejects-%s' % seed)
    with Life(exe, 'rejects-%s' % seed) as L:
        if not L.start():
            return L.data()
        grow(L, r, r.choice([1, 2, 3]), size=6)
        h = L.hist()
        first = L.chain()[1:2]
        for cmd, target in [('up', '')] + ([('up', first[0]), ('up', '')] if first and r.random() < .5 else []) + [('down', ''), ('down', 'init')]:
            rows = L.rows()
            st = [s for n in L.chain()[1:] for s in h[n]['up' if cmd == 'up' else 'down']] if cmd == 'up' else [s for x in rows[1:] for s in x['down'] or []]
            for s in dict.fromkeys(st):
                L.cmd(cmd, target, reject=[s])
                if L.events[-1]['code'] == 0 and cmd == 'down' and target == '' and not any(x in (rows[-1]['down'] or []) for x in [s]):
                    L.cmd('up')            # it was not one of the statements of this version
            L.cmd(cmd, target)
        return L.data()


def sweep_broken(exe, job):
    """a history broken in one way, under every command"""
    _, seed, k = job
    r = random.Random('broken-%s' % seed)
    with Life(exe, 'broken-%s' % seed) as L:
        if not L.start():
            return L.data()
        n = r.choice([0, 1, 2, 3])
        grow(L, r, n, stage=r.random() < .6)
        c = L.chain()
        ups = r.choice([None, '', c[min(1, len(c) - 1)]])
        if ups is not None:
            L.cmd('up', ups)
        if r.random() < .3:
            new = simple(gen.evolve(r, L.cats['database'], 2)) if 'database' in L.cats else None
            if new and new['schemas']:
                L.set_cat(new)
        for cmd in ('stage', 'reset', 'make', 'status', 'up', 'down'):
            k0 = L.keep()
            what = BREAKS[k % len(BREAKS)](L, r, 'database')
            L.edit('by hand: ' + what)
            if cmd in ('up', 'down'):
                L.cmd(cmd, r.choice(['', ''] + c[1:] + ['nope']))
            else:
                L.cmd(cmd, newlabel(L, r) if cmd == 'make' else '', would=False)
            L.put_back(k0, last=True)
        return L.data()


def sweep_io(exe, job):
    """a command of which one call that changes a file fails, for every call"""
    _, seed = job
    r = random.Random('io-%s' % seed)
    with Life(exe, 'io-%s' % seed) as L:
        # init
        bare = L.keep()
        for err in ('ENOSPC', 'EACCES'):
            L.cmd('init', fs=(None, 0))
            ops = list(L.fsops)
            for k, (op, _) in enumerate(ops):
                L.put_back(bare)
                # creating a directory that is there already is no failure
                if op == 'mkdir':
                    continue
                L.cmd('init', fs=(r.choice(['fail', 'failall']), k, err), kind='io', found=False, hist='database/history', clear=True, made=True)
                L.events[-1].update(made=made(L), under=CREATED, full=L.adds() if L.events[-1]['code'] == 0 else -1)
            L.put_back(bare)
        shutil.rmtree(bare)
        if not L.start():
            return L.data()
        grow(L, r, r.choice([0, 1, 2]), stage=r.random() < .7)
        new = simple(gen.evolve(r, L.cats['database'], 3)) if 'database' in L.cats else simple(gen.random_cat(r, 3))
        if new['schemas']:
            L.set_cat(new)
        k0 = L.keep()
        for cmd in ('stage', 'reset', 'make', 'clone'):
            label = newlabel(L, r) if cmd == 'make' else ''
            L.cmd(cmd, label, fs=(None, 0))
            ops, good = list(L.fsops), L.p.files(os.path.join(L.home, L.profile()['defs'])) if cmd == 'clone' else None
            whole = L.events[-1]['code'] == 0
            L.put_back(k0)
            for k, (op, _) in enumerate(ops if whole else []):
                if op == 'mkdir':
                    continue
                L.cmd(cmd, label, fs=(r.choice(['fail', 'failall']), k, r.choice(['ENOSPC', 'EIO', 'EROFS'])), kind='io', made=True)
                if cmd == 'clone':
                    L.events[-1]['made'] = L.p.files(os.path.join(L.home, L.profile()['defs'])) == good
                L.put_back(k0)
        shutil.rmtree(k0)
        return L.data()


# ------------------------------------------------------------ C09: the whole difference after a reset
def restage(exe, job):
    _, seed = job
    r = random.Random('restage-%s' % seed)
    with Life(exe, 'restage-%s' % seed) as L:
        if not L.start():
            return L.data()
        grow(L, r, r.choice([0, 1, 2]), stage=True, size=8)
        for _ in range(r.choice([1, 2])):
            if r.random() < .6:
                new = gen.evolve(r, L.cats['database'], r.choice([1, 3]))
                if new['schemas']:
                    L.set_cat(simple(new))
                    if r.random() < .5:
                        L.cmd('stage')
            L.cmd('reset')
            if r.random() < .3:
                L.cmd('reset')
            L.cmd('stage')
            if L.events[-1]['code'] == 0:
                h = L.hist()
                L.content = [version_event(h[n], 'move') for n in L.chain()] + [version_event(h['stage'], 'restage', defs=gen.objs(L.cats['database']))]
        return L.data(content=L.content)


JOBS = {'walk': lifewalk.one, 'life': lifegen.walk, 'fault': sweep_fault, 'reject': sweep_reject, 'broken': sweep_broken, 'io': sweep_io, 'restage': restage, 'long': lifegen.long, 'big': lifegen.big}


def run(exe, job):
    f = JOBS[job[0]]
    return dict(f(exe, job[1] if job[0] in ('walk', 'life') else job), kind=job[0])


def word(*ws):
    return lambda lab: lab.split(' ')[0] in ws


WANT = {'C05': word('fail', 'lost', 'reject', 'up', 'down'), 'C06': word('up'), 'C07': word('down'), 'C08': word('make', 'interrupt', 'stage', 'reset', 'up', 'down'), 'C09': word('stage', 'reset'),
        'C10': word('break', 'stage', 'reset', 'make', 'up', 'status'), 'C17': lambda lab: True, 'C19': word('status'), 'C21': word('stage', 'make', 'up', 'down')}
MIX = {'C05': {'fault': 25, 'reject': 20, 'up': 10, 'down': 10, 'badhist': 0, 'noprof': 0}, 'C06': {'rebase': 8, 'up': 25, 'make': 12, 'stage': 12, 'edit': 12, 'down': 6, 'badhist': 1, 'tamper': 1},
       'C07': {'rebase': 4, 'down': 25, 'up': 18, 'tamper': 14, 'make': 10, 'badhist': 1}, 'C08': {'make': 25, 'stage': 16, 'edit': 16, 'interrupt': 6}, 'C09': {'stage': 20, 'reset': 12, 'edit': 16, 'baddefs': 4},
       'C10': {'badhist': 20, 'rebase': 5}, 'C17': {'fault': 8, 'reject': 6, 'closed': 5, 'noprof': 4, 'badhist': 6, 'baddefs': 6}, 'C19': {'status': 30, 'edit': 14, 'stage': 8, 'up': 8, 'closed': 4},
       'C21': {'up': 16, 'down': 16, 'stage': 20, 'make': 9, 'edit': 22, 'tamper': 4, 'rebase': 3, 'badhist': 1}}
SWEEPS = {'C05': ['fault', 'reject'], 'C09': ['restage'], 'C10': ['broken'], 'C17': ['io', 'reject', 'broken', 'fault']}


def jobs_of(ctx, graph):
    r = random.Random('lifecheck-%s-%d' % (ctx.prop, ctx.seed))
    base = ctx.seed * 1000000
    q = ctx.quick
    out = []
    walks, left = lifewalk.walks(graph, 0, WANT[ctx.prop], r, budget=4500 if q else 60000)
    ctx.count['model_edges_not_walked'] = left
    ctx.count['model_edges_walked'] = sum(map(len, walks))
    out += [('walk', ('%s-%d-%d' % (ctx.prop, ctx.seed, k), 2 if q else 3, w)) for k, w in enumerate(walks)]
    for s in SWEEPS.get(ctx.prop, ()):
        n = {'fault': 12, 'reject': 24, 'broken': 90, 'io': 16, 'restage': 250}[s] * (1 if q else 30)
        if ctx.prop == 'C17' and s != 'io':
            n //= 3
        out += [(s, base + k, k) if s == 'broken' else (s, base + k) for k in range(n)]
    out += [('long', base + k) for k in range(24 if q else 600)]
    out += [('big', base + k) for k in range(8 if q else 200)]
    out += [('life', (base + k, MIX[ctx.prop], 24)) for k in range(450 if q else 20000)]
    return out


def check_life(ctx):
    life.LINES = ctx.prop == 'C21'         # before the workers start
    fsfault.shim()
    graph, _ = lifewalk.graph(ctx, *((2, 2, 2) if ctx.quick else (3, 2, 2)))
    if not ctx.quick:
        for m in MUTANTS:
            t = tlc('MCLife', lifewalk.CFG % ('Spec', 2, 2, 2), {'MUT': m}, timeout=300)
            if not t.invariant:
                raise ToolError('MCLife holds with mistake %s: it shows nothing' % m)
            ctx.add('model_mistakes_refuted')
    jobs = jobs_of(ctx, graph)
    # walks first, then everything else mixed, so that a time limit cuts evenly
    rest = [j for j in jobs if j[0] != 'walk']
    random.Random(1).shuffle(rest)
    jobs = [j for j in jobs if j[0] == 'walk'] + rest
    size = len(jobs) if ctx.quick else 800
    for k in range(0, len(jobs), size):
        runs = ctx.pmap(run, jobs[k:k + size])
        for x in runs:
            ctx.add('runs_' + x['kind'])
            ctx.add('commands_judged', sum(e['e'] != 'env' for e in x['events']))
            ctx.add('faults_injected', sum(bool(e.get('fault')) for e in x['events']))
            ctx.add('runs_broken_off', bool(x['broken']))
        v, t = check_trace('TraceLife', [x['events'] for x in runs], env={'WANT': ctx.prop})
        ctx.traced(t, len(runs))
        for a, b, clause, detail in v:
            x = runs[a]
            ctx.violation(clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail), {'seed': x['seed'], 'steps': x['notes'][:b + 1], 'legend': x['legend']})
        if ctx.prop == 'C09':
            cs = [dict(x, events=x['content']) for x in runs if x.get('content')]
            ctx.add('restages_judged', len(cs))
            for x, i, clause, detail in judge_content(ctx, cs):
                ctx.violation(clause, 'trace %s: %s' % (x['seed'], detail), {'seed': x['seed'], 'steps': x['notes']})
        if all(x['broken'] for x in runs) and not ctx.viols:
            raise ToolError('podo init does not work: %s' % runs[0]['broken'])
        for x in runs[:1] + runs[-1:]:
            ctx.sample(x['notes'][1:6])
        if ctx.left(840) < 90:
            ctx.count['jobs_left_out'] = len(jobs) - k - size
            break
