"""Scenarios about the content of changes and scripts: C01-C04, C20."""
import copy, random
from . import attrs, gen, known
from .core import known_entries, apply_known
from .ddl import change_ops, parse_stmt
from .proj import Proj, ToolError
from .tlc import check_trace


def version_event(v, kind='version', **f):
    return dict({'e': kind, 'changes': [change_ops(c) for c in v['changes']], 'ups': [parse_stmt(s) for s in v['up']],
                 'downs': [parse_stmt(s) for s in v['down']]}, **f)


class Run:
    """one project; collects trace events and, beside them, what a reader needs to replay a violation"""

    def __init__(self, exe, seed):
        self.p = Proj(exe)
        self.seed, self.events, self.notes, self.broken = seed, [], [], []
        r = self.p.run('init')
        if not r.ok or not self.p.version('init'):
            self.broken.append(('init', r.brief()))
            return
        self.add(version_event(self.p.version('init')), {'step': 'init'})

    def add(self, ev, note):
        self.events.append(ev)
        self.notes.append(note)

    def stage(self, cat, files, note=None, kind='stage'):
        return self.stage_objs(gen.objs(cat), files, note, kind)

    def stage_objs(self, objs, files, note=None, kind='stage'):
        self.p.set_defs(files)
        v = self.p.version('stage') or {}
        had = [len(v.get(k) or []) for k in ('changes', 'up', 'down')]
        r = self.p.run('stage')
        v = self.p.version('stage')
        n = dict({'step': kind, 'definitions': files, 'output': r.brief()}, **(note or {}))
        if not r.ok or v is None:
            self.broken.append((kind, n))
            return None
        n['changes'], n['up'], n['down'] = v['changes'], v['up'], v['down']
        r2 = self.p.run('stage')
        v2 = self.p.version('stage')
        again = len(v2['changes']) - len(v['changes']) if r2.ok and v2 else 999
        if again:
            n['second_stage'] = r2.brief() if not v2 else v2['changes'][len(v['changes']):]
        self.add(version_event(v, kind, defs=objs, again=again, had=had), n)
        return v

    def make(self, label=None, event='version'):
        before = set(self.p.versions())
        r = self.p.run('make', *(['--version', label] if label else []))
        new = [x for x in self.p.versions() if x not in before]
        if not r.ok or len(new) != 1 or not self.p.version(new[0]):
            self.broken.append(('make', r.brief()))
            return False
        v = self.p.version(new[0])
        self.add(version_event(v, event), {'step': 'make', 'changes': v['changes'], 'up': v['up'], 'down': v['down']})
        return True

    def close(self):
        self.p.close()


def history(exe, seed, steps=4, loose=False):
    """init, then a random history of definitions, staged once or twice and made"""
    r = random.Random('content-%s' % seed)
    deps = r.random() < .5
    run = Run(exe, seed)
    try:
        if run.broken:
            return run
        cat = gen.empty()
        for k in range(steps):
            for j in range(r.choice([1, 1, 2])):
                if k == 0 and j == 0:
                    new = gen.random_cat(r, r.choice([2, 6, 12, 20]), deps)
                else:
                    new = gen.evolve(r, cat, r.choice([1, 1, 2, 3, 5, 8, 14]), loose, deps)
                    if loose and r.random() < .4:
                        new = gen.retype(r, new)
                if new['schemas'] == [] :
                    continue
                # there and back again within one stage
                for back in ([new, cat] * r.choice([1, 1, 2]) if cat['schemas'] and r.random() < .25 else []):
                    if run.stage(back, gen.render(back)) is None:
                        return run
                files = gen.render(new, r, r.choice([1, 1, 2, 4])) if r.random() < .6 else gen.render(new)
                if run.stage(new, files) is None:
                    return run
                cat = new
            if run.events[-1]['e'] == 'stage' and run.events[-1]['changes'] and not run.make('v%d' % k):
                return run
        return run
    finally:
        run.close()


def big(exe, job):
    """hundreds of objects at once"""
    seed, size = job
    r = random.Random('big-%s' % seed)
    run = Run(exe, 'big-%s' % seed)
    try:
        cat = gen.random_cat(r, 8)
        if 'public' not in cat['schemas']:
            cat['schemas'].insert(0, 'public')
        n = size or r.choice([12, 24, 33])
        gen.many(r, cat, n)
        gen.wide(r, cat)
        new = copy.deepcopy(cat)
        gen.many(r, gen.fewer(r, new, r.sample(range(n), n * 2 // 3)), n // 2, 'more')
        gen.widen(r, new)
        for k, c in enumerate([cat, new]):
            if run.broken or run.stage(c, gen.render(c)) is None or not run.make('v%d' % k):
                break
        return {'seed': run.seed, 'events': run.events, 'notes': run.notes, 'broken': run.broken}
    finally:
        run.close()


def attributes(exe, job):
    """every attribute changed alone; one part of a long walk, whose first definitions are those at which the part before ended"""
    seed, part, parts, walk = job
    r = random.Random('%s-%s-%s' % (walk, seed, part))
    run = Run(exe, '%s-%s-%s' % (walk, seed, part))
    try:
        cats = getattr(attrs, walk)(seed)
        n = -(-len(cats) // parts)
        for k, c in enumerate(cats[max(0, part * n - 1):(part + 1) * n]):
            if run.broken or run.stage(c, gen.render(c) if k % 2 else gen.render(c, r)) is None or (run.events[-1]['changes'] and not run.make('v%d' % k)):
                break
        return {'seed': run.seed, 'events': run.events, 'notes': run.notes, 'broken': run.broken}
    finally:
        run.close()


# ------------------------------------------------------------------ the check
def one_history(exe, seed):
    # C01 judges the recorded changes without executing SQL, and C20 what the statements do to what stays, whether or
    # not they run: half of their histories do not stay clear of the findings about scripts and of data conversions
    r = history(exe, seed[0], loose=seed[1])
    return {'seed': r.seed, 'events': r.events, 'notes': r.notes, 'broken': r.broken}


def judge(ctx, runs, want=None, env=None):
    """traces through TraceCatalog -> [(run, event index, clause, detail)]"""
    want = want or ctx.prop
    runs = [r for r in runs if r['events']]
    out = []
    for k in range(0, len(runs), 600):
        part = runs[k:k + 600]
        v, t = check_trace('TraceCatalog', [r['events'] for r in part], env=dict({'WANT': want}, **(env or {})))
        ctx.traced(t, len(part))
        out += [(part[a], b, c, d) for a, b, c, d in v]
    return out


def replay_of(run, i):
    return {'seed': run['seed'], 'steps': run['notes'][:i + 1]}


def report(ctx, runs, refused=()):
    for run, i, clause, detail in judge(ctx, runs):
        ctx.violation(clause, 'trace %s, step %d: %s' % (run['seed'], i + 1, detail), replay_of(run, i))
    for run in runs:
        for what, b in run['broken']:
            ctx.add('steps_refused')
            if ctx.prop in refused:
                ctx.violation(ctx.prop + '.refused', 'trace %s: %s of valid definitions failed: %s' % (run['seed'], what, b if isinstance(b, str) else b.get('output')),
                              {'seed': run['seed'], 'steps': run['notes'], 'failed': b})
    if runs and not any(len(r['events']) > 1 for r in runs):
        if not ctx.viols:
            raise ToolError('podo staged nothing at all: ' + str(runs[0]['broken'])[:500])


def known_case(exe, name):
    run = Run(exe, 'known-' + name)
    try:
        for k, cat in enumerate(known.CASES[name]()):
            if run.broken or run.stage(cat, gen.render(cat)) is None or not run.make('v%d' % k):
                break
        return {'seed': run.seed, 'events': run.events, 'notes': run.notes, 'broken': run.broken, 'case': name}
    finally:
        run.close()


def known_cases(ctx):
    names = sorted(known.CASES)
    runs = ctx.pmap(known_case, names)
    by = {n: [] for n in names}
    for run, i, clause, detail in judge(ctx, runs):
        by[run['case']].append((clause, detail, replay_of(run, i)))
    for n in names:
        apply_known(ctx, n, by[n])


def check_content(ctx):
    known_cases(ctx)
    n = 250 if ctx.quick else 4000
    base = ctx.seed * 1000000
    from . import slices
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(1) as ex:
        seen = ex.submit(slices.explore, ctx, 8 if ctx.quick else 1, 120 if ctx.quick else 1)
        runs = ctx.pmap(one_history, [(base + k, ctx.prop in ('C01', 'C20') and k % 2 == 1) for k in range(n)])
        ctx.add('histories', len(runs))
        runs += ctx.pmap(big, [(base + k, 0 if ctx.quick or k % 8 else 120) for k in range(4 if ctx.quick else 40)])
        runs += ctx.pmap(attributes, [(base + k, j, n, w) for k in range(1 if ctx.quick else 40) for w, n in (('walk', 8), ('visits', 4)) for j in range(n)])
        walks = slices.replay(ctx, *seen.result())
    ctx.add('walks', len(walks))
    runs += walks
    report(ctx, runs, refused=('C01',))
    for r in runs:
        for e in r['events']:
            if e['e'] == 'stage':
                ctx.add('stages_judged')
                ctx.add('changes_judged', len(e['changes']))
                ctx.add('statements_judged', len(e['ups']) + len(e['downs']))
    for r in runs[:2]:
        for x in r['notes'][1:3]:
            ctx.sample(x)
