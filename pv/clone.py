"""C13: clone a (mocked) live database, stage the definitions it wrote, compare with what is live."""
import copy, hashlib, random
from . import gen
from .content import version_event, judge, replay_of
from .core import apply_known
from .engine import Db, Session
from .names import Names
from .pgcat import Mock
from .pgfake import Server
from .proj import Proj, ToolError

LIVE = ['timestamp(3)', 'timestamptz(3)', 'timestamptz(0)', 'time', 'time(2)', 'timetz', 'timetz(2)', 'char(5)', 'bit(3)', 'varbit(8)', 'varbit', 'point', 'box', 'name', 'numeric(8,3)', 'varchar(10)[]',
        'timestamptz(3)[]', 'numeric(6,2)[]', 'float8', 'float4', 'inet', 'interval', 'name[]', 'char(3)[]', 'point[]', 'bytea[]', 'timestamp(6)[]', 'oid', 'uuid[]', 'jsonb[]', 'timetz(2)[]', 'time(1)[]', 'bit(2)[]', 'varbit(4)[]', 'interval(3)', 'interval(3)[]', 'varchar[]', 'numeric[]', 'numeric(5)', 'int2', 'text[]', 'date[]']


def live_catalog(r, size):
    cat = gen.random_cat(r, size)
    for _ in range(r.choice([0, 0, 1, 3])):
        gen.e_func(r, cat)
    for k in cat['tables']:
        tb = cat['tables'][k]
        for i in range(r.choice([0, 1, 3])):
            tb['cols']['x%d' % i] = {'type': r.choice(LIVE), 'nn': r.random() < .3, 'default': None}
    # only the public schema is cloned: nothing in it refers to another schema
    for (s, t), tb in list(cat['tables'].items()):
        if s != 'public':
            continue
        for n in [n for n, x in tb['cons'].items() if x['k'] == 'fk' and x['ref'][0] != 'public']:
            del tb['cons'][n]
        for x in tb['cols'].values():
            if x['default'] and x['default'][0] == 'seq' and x['default'][1] != 'public':
                x['default'] = None
    for k in [k for k, v in cat['views'].items() if k[0] == 'public' and (v['rel'][0] != 'public' or (v['join'] and v['join'][0][0] != 'public'))]:
        del cat['views'][k]
    if 'public' not in cat['schemas']:
        cat['schemas'].insert(0, 'public')
    return gen.repair(cat)


def public(cat):
    c = copy.deepcopy(cat)
    c['schemas'] = ['public']
    for kind in ('tables', 'views', 'indexes', 'seqs', 'funcs'):
        c[kind] = {k: v for k, v in c[kind].items() if k[0] == 'public'}
    return c


def digest(files):
    return {k: hashlib.sha256(v or b'').hexdigest()[:16] for k, v in files.items()}


class CloneRun:
    def __init__(self, exe, seed, cat, r, meta='podo_meta', ledger=True, noise=True):
        self.p = Proj(exe)
        self.seed, self.events, self.notes, self.broken = seed, [], [], []
        self.db = Db(Mock(cat, r, noise), r, meta=[meta], schemas=list(cat['schemas']))
        self.cat, self.meta = cat, meta
        if ledger:
            s = Session(self.db)
            s.prepare('CREATE SCHEMA "%s"' % meta.replace('"', '""')).run([])
            s.prepare('CREATE TABLE "%s".version (name VARCHAR(128) NOT NULL PRIMARY KEY, previous VARCHAR(128), changes JSON, up TEXT[], down TEXT[], applied_order SERIAL UNIQUE)' % meta.replace('"', '""')).run([])

    def go(self, fault=None):
        p, db = self.p, self.db
        srv = Server()
        try:
            port = srv.port(db)
            r0 = p.run('init')
            if not r0.ok or not p.version('init'):
                self.broken.append(('init', r0.brief()))
                return self
            p.config('postgresql://u@127.0.0.1:%d/postgres' % port, self.meta)
            v = p.version('init')
            self.events.append(version_event(v))
            self.notes.append({'step': 'init'})
            before, state = p.files(), (db.commits, len(db.log), db.schema_names())
            cl = srv.start(p, ['clone'], [port])
            res = srv.run(cl, fault)
            after = p.files()
            note = {'step': 'clone', 'live': {k: (v if k == 'schemas' else {str(a): b for a, b in v.items()}) for k, v in self.cat.items()}, 'output': res.brief(),
                    'definitions': {k[len(p.defs) + 1:]: v.decode(errors='replace') for k, v in after.items() if k.startswith(p.defs + '/')}}
            out = lambda fs: {k: v for k, v in digest(fs).items() if not k.startswith(p.defs + '/')}
            b, a = out(before), out(after)
            changed = sorted(k for k in set(a) | set(b) if a.get(k) != b.get(k))
            now = (db.commits, len(db.log), db.schema_names())
            side = {'files': changed, 'db': [] if now == state else ['commits %s -> %s, schemas %s -> %s' % (state[0], now[0], state[2], now[2])], 'exit': res.code if res.code is not None else -999,
                    'fault': fault is not None}
            if fault is not None:
                self.events.append(dict(side, e='cloned'))
                self.notes.append(dict(note, fault=list(fault), at=srv.faulted))
                return self
            self.events.append(dict(side, e='cloned'))
            self.notes.append(note)
            if not res.ok:
                return self
            r2 = p.run('stage')
            v = p.version('stage')
            n2 = {'step': 'stage', 'output': r2.brief(), 'changes': v and v['changes'], 'definitions': note['definitions']}
            if not r2.ok or v is None:
                self.broken.append(('stage', n2))
                return self
            r3 = p.run('stage')
            v3 = p.version('stage')
            self.events.append(version_event(v, 'clone', live=gen.objs(public(self.cat)), again=len(v3['changes']) - len(v['changes']) if r3.ok and v3 else 999))
            if v3:
                n2['again'] = v3['changes'][len(v['changes']):]
            self.notes.append(n2)
            return self
        finally:
            srv.close()
            p.close()

    def data(self, **f):
        return dict({'seed': self.seed, 'events': self.events, 'notes': self.notes, 'broken': self.broken}, **f)


def one(exe, job):
    seed, kind = job
    r = random.Random('clone-%s' % seed)
    cat = live_catalog(r, r.choice([2, 6, 12, 25, 40]))
    if r.random() < .04:
        gen.wide(r, cat)
    meta = 'podo_meta'
    if r.random() < .4:
        m = Names(seed, .6)
        cat = gen.rename(cat, m)
    if r.random() < .2:
        meta = r.choice(['Meta Data', 'm"x', 'ledger'])
    run = CloneRun(exe, seed, cat, r, meta, ledger=r.random() < .6, noise=r.random() < .8)
    fault = None
    if kind == 'fault':
        fault = (r.randrange(0, 26), r.choice(['error', 'drop', 'drop-after', 'kill', 'kill-after']))
    return run.go(fault).data()


def owned(exe, name):
    r = random.Random(name)
    cat = gen.empty()
    cat['tables']['public', 'users'] = {'cols': {'id': {'type': 'int4', 'nn': True, 'default': ('seq', 'public', 'users_id_seq')}}, 'cons': {}}
    cat['seqs']['public', 'users_id_seq'] = {'type': 'int4', 'own': ('users', 'id')}
    return CloneRun(exe, name, cat, r, noise=False).go().data(case=name)


def check_clone(ctx):
    runs = ctx.pmap(owned, ['clone-serial'])
    apply_known(ctx, 'clone-serial', [(c, d, replay_of(run, i)) for run, i, c, d in judge(ctx, runs)])
    n = 600 if ctx.quick else 20000
    base = ctx.seed * 1000000
    for part in range(0, n, 2000):
        runs = ctx.pmap(one, [(base + k, 'fault' if k % 8 == 7 else 'plain') for k in range(part, min(n, part + 2000))])
        ctx.add('databases_cloned', len(runs))
        for run, i, clause, detail in judge(ctx, runs):
            ctx.violation(clause, 'trace %s, step %d: %s' % (run['seed'], i + 1, detail), replay_of(run, i))
        for run in runs:
            for what, b in run['broken']:
                ctx.violation('C13.' + what, 'trace %s: %s failed: %s' % (run['seed'], what, b if isinstance(b, str) else b.get('output')), {'seed': run['seed'], 'steps': run['notes'], 'failed': b})
            for e in run['events']:
                if e['e'] == 'clone':
                    ctx.add('objects_compared', len(e['live']))
                if e['e'] == 'cloned' and e['fault']:
                    ctx.add('failing_clones')
        for run in runs[:2]:
            ctx.sample(run['notes'][1:3])
        if ctx.left(14 * 60 if not ctx.quick else 600) < 60:
            break
