"""C14: two migrations at once. Schedules from spec/MCConc.tla, and random ones, replayed into the real podo: the
stand-in server decides after every batch which session moves next. Each outcome is judged by Podo.tla (JPair)."""
import os, random
from .lifegen import dump
from .life import Life
from .proj import ToolError
from .tlc import tlc, check_trace

CFG = 'SPECIFICATION Spec\nINVARIANTS %s\nCHECK_DEADLOCK FALSE\n'
NONE = -9
HISTS = {1: [0, 1, 2, 3], 2: [0, 1, 12]}


def seq(text):
    return [int(x) for x in text.strip('<> ').split(',') if x.strip()]


def rec(text):
    out = {}
    for f in text.strip('[] ').split(','):
        k, v = f.split('|->')
        v = v.strip()
        out[k.strip()] = v.strip('"') if v.startswith('"') else int(v)
    return out


def schedules(ctx, switches):
    """-> hot, cold: lists of (initial rows, command 1, command 2, schedule)"""
    hot, cold = [], []
    r = tlc('MCConc', CFG % 'Show', {'LOCK': 'no', 'SCHED': 'yes', 'SWITCHES': switches}, timeout=800, heap='10g')
    if not r.ok:
        raise ToolError('MCConc (schedules):\n' + r.out[-3000:])
    ctx.model(r, 'MCConc_schedules')
    for l in r.printed:
        p = l.split('|~|')
        if p[0] == 'SCHED':
            (hot if p[1] == 'hot' else cold).append((seq(p[2]), rec(p[3]), rec(p[4]), seq(p[5])))
    return sorted(hot, key=str), sorted(cold, key=str)


def models(ctx):
    """the design: with the lock every interleaving is serialisable and nobody gets stuck; without it that is false"""
    r = tlc('MCConc', CFG % 'Serializable NeverStuck', {'LOCK': 'yes', 'SCHED': 'no', 'SWITCHES': 0}, timeout=600)
    if not r.ok:
        raise ToolError('MCConc does not hold with the ledger locked:\n' + r.out[-3000:])
    ctx.model(r, 'MCConc')
    r = tlc('MCConc', CFG % 'Serializable NeverStuck', {'LOCK': 'no', 'SCHED': 'no', 'SWITCHES': 0}, timeout=600)
    if not r.invariant:
        raise ToolError('MCConc holds without the lock: it shows nothing')
    ctx.add('model_without_lock_violates', 1)


def vname(v):
    return 'init' if v == 0 else 'v%d' % v


def statements(v, r, many):
    """scripts of a version: its own table, and sometimes more than one statement"""
    if v == 0:
        return ['CREATE SCHEMA public;'], ['DROP SCHEMA public;']
    up = ['CREATE TABLE "public"."t%d" ("a" int4)' % v]
    down = ['DROP TABLE "public"."t%d"' % v]
    for k in range(r.choice([0, 1, 2]) if many else 0):
        up.append('ALTER TABLE "public"."t%d" ADD COLUMN "c%d" int4' % (v, k))
        down.insert(0, 'ALTER TABLE "public"."t%d" DROP COLUMN "c%d"' % (v, k))
    return up, down


def write_hist(L, hist, versions, scripts):
    d = L.path(hist)
    os.makedirs(d, exist_ok=True)
    prev = None
    for v in versions + ['stage']:
        up, down = scripts.get(v, ([], []))
        n = v if v == 'stage' else vname(v)
        dump(os.path.join(d, n + '.yaml'), {'name': n, 'previous': prev, 'changes': [{'type': 'CreateSchemaChange', 'change': {'schema_name': 'public' if v == 0 else 'of_' + n}}] if up else [], 'up': up, 'down': down})
        prev = n


class Turns:
    """which session moves next: statement by statement as scheduled, or batch by batch at random"""

    def __init__(self, sched, r):
        self.sched, self.r = list(sched) if sched else None, r
        self.sql = {}
        self.started = set()
        self.taken = []
        self.p = r.choice([.1, .25, .5]) if r else 0
        self.last = None

    def choose(self, ready, k):
        if self.sched is None:
            if self.last not in ready or self.r.random() < self.p:
                self.last = self.r.choice(ready)
            i = self.last
        else:
            early = [i for i in ready if i not in self.started]
            if early:
                return early[0]
            while self.sched and self.sched[0] - 1 not in ready:
                self.sched.pop(0)
            i = self.sched[0] - 1 if self.sched else ready[0]
        self.taken.append(i)
        return i

    def seen(self, i, d):
        if d.startswith('query BEGIN') or d.startswith('query START'):
            self.started.add(i)
            return
        if 'prepare ' in d:
            self.sql[i] = d.split('prepare ', 1)[1].strip().upper()
        if 'execute' in d or d.startswith('query'):
            s = d[6:].upper() if d.startswith('query') else self.sql.get(i, '')
            # statements the model does not take apart
            if s.startswith('LOCK'):
                return
            if s.startswith('CREATE TABLE') and '.VERSION' in s.replace('"', '') or 'PG_TYPE' in s:
                return
            self.started.add(i)
            if self.sched and self.sched[0] == i + 1:
                self.sched.pop(0)


def pair(L, a, b, turns):
    """run both at once; a, b: (cmd, target, profile). -> event"""
    ev = {'e': 'pair'}
    clients, evs = [], []
    db = next(iter(L.dbs))
    for cmd, target, prof in (a, b):
        f = L.fields(cmd, prof, target)
        port = L.srv.port(L.dbs[db])
        cl = L.srv.start(L.p, L.argv(cmd, prof, target), [port], cwd=L.base, env=dict(L.env, PODO_PORT=str(port)))
        clients.append((cl, port))
        evs.append(f)
    L.srv.pair([c for c, _ in clients], turns.choose, seen=turns.seen)
    note = {}
    for k, (f, (cl, port), (cmd, target, prof)) in enumerate(zip(evs, clients, (a, b))):
        f['code'] = cl.res.code if cl.res.code is not None else -999
        f['timeout'] = cl.res.timeout
        note['session %d' % (k + 1)] = {'command': 'podo ' + ' '.join(L.argv(cmd, prof, target)), 'output': cl.res.brief(), 'statements': [x for x in cl.log if 'prepare' in x or 'query' in x or 'waits' in x]}
        L.srv.close_port(port)
    note['turns'] = ''.join(str(i + 1) for i in turns.taken)
    ev['a'], ev['b'] = evs
    L.event(ev, note)


def one(exe, job):
    name, init, c1, c2, sched = job
    r = random.Random('pair-%s' % name)
    profs = [{'name': 'p%d' % k, 'hist': 'h%d' % k, 'defs': 'database/definitions', 'db': 'main', 'meta': 'podo_meta'} for k in (1, 2)]
    url = 'postgresql://u@127.0.0.1:$PODO_PORT/postgres'
    with Life(exe, 'pair-%s' % name, profiles=profs, spell={'p1': {'url': url}, 'p2': {'url': url}}) as L:
        L.env['PODO_PORT'] = str(L.ports['main'])
        L.configure()
        scripts = {v: statements(v, r, sched is None) for v in (0, 1, 2, 3, 12)}
        for k in (1, 2):
            write_hist(L, 'h%d' % k, HISTS[k], scripts)
        L.edit('two checkouts')
        if init:
            prof = 'p2' if 12 in init else 'p1'
            if init == [0]:
                # applied and taken back: the ledger is there with init alone
                L.cmd('up', 'v1', prof=prof)
                L.cmd('down', 'init', prof=prof)
            else:
                L.cmd('up', vname(init[-1]), prof=prof)
            if [x['name'] for x in L.rows('p1')] != [vname(v) for v in init]:
                L.broken.append(('setup', L.last.brief()))
                return L.data()
        t = Turns(sched, r)
        cmds = [(c['cmd'], '' if c['t'] == NONE else vname(c['t']), 'p%d' % c['hist']) for c in (c1, c2)]
        pair(L, cmds[0], cmds[1], t)
        # what is left must be usable
        L.cmd('up', prof=r.choice(['p1', 'p2']))
        L.cmd('down', prof='p1')
        return L.data()


def random_job(r, k):
    init = r.choice([[], [], [0], [0, 1], [0, 1, 2], [0, 1, 2, 3], [0, 1, 12]])
    c = []
    for _ in range(2):
        cmd = r.choice(['up', 'up', 'down'] if len(init) < 2 else ['up', 'down', 'down'])
        c.append({'cmd': cmd, 'hist': r.choice([1, 1, 2]), 't': r.choice([NONE, NONE, 0, 1, 2, 3, 12])})
    return ('r' + k, init, c[0], c[1], None)


def check_pairs(ctx):
    from concurrent.futures import ThreadPoolExecutor
    r = random.Random('pairs-%d' % ctx.seed)
    with ThreadPoolExecutor(1) as ex:
        m = ex.submit(models, ctx)
        hot, cold = schedules(ctx, 2)
        m.result()
    if not hot:
        raise ToolError('no schedule of the model without lock goes wrong')
    ctx.count['schedules_hot'], ctx.count['schedules_cold'] = len(hot), len(cold)
    n, m = (400, 700) if ctx.quick else (len(cold), 20000)
    jobs = [('hot%d' % i, *x) for i, x in enumerate(hot)] + [('cold%d' % i, *x) for i, x in enumerate(r.sample(cold, min(n, len(cold))))]
    jobs += [random_job(r, '%d-%d' % (ctx.seed, k)) for k in range(m)]
    for k in range(0, len(jobs), 3000):
        part = jobs[k:k + 3000]
        runs = ctx.pmap(one, part)
        ctx.add('pairs', len(runs))
        v, t = check_trace('TraceLife', [x['events'] for x in runs], env={'WANT': 'C14'})
        ctx.traced(t, len(runs))
        for a, b, clause, detail in v:
            x = runs[a]
            ctx.violation(clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail), {'seed': x['seed'], 'steps': x['notes'][:b + 1], 'legend': x['legend']})
        for x in runs:
            for what, why in x['broken']:
                ctx.add('pairs_not_set_up')
            ctx.add('pairs_where_one_waited', any('waits' in s for nt in x['notes'] for q in nt.values() if isinstance(q, dict) for s in q.get('statements', ())))
        if ctx.count.get('pairs_not_set_up', 0) > len(jobs) // 2 and not ctx.viols:
            raise ToolError('the databases could not be prepared: %s' % [x['broken'] for x in runs if x['broken']][:1])
        for x in runs[:2]:
            ctx.sample(x['notes'])
        if ctx.left(900) < 200:
            break
