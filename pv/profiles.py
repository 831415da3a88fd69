"""C16: projects with several profiles, spelled in every way a configuration allows, used from every directory. Every
step is judged by Podo.tla; what each profile stages is judged by Catalog.tla against that profile's own definitions.
C16's own clauses say whose files, databases and ledgers may be touched; that a command does its work on the selected
profile is what all the other clauses say, so in these lives they count for C16 too - unless ordinary lives (one profile,
plainly spelled, used from the project directory) break the same clause, in which case it is not the profiles' fault."""
import os, random, shutil, urllib.parse
from . import gen, lifegen
from .content import version_event, judge as judge_content
from .lifecommon import grow
from .lifegen import newlabel, BREAKS, BADDEFS
from .life import Life, simple
from .proj import ToolError
from .tlc import check_trace

NAMES = ['staging', 'prod', 'test db', 'ünï', 'Database', 'databas', 'database2', 'a.b', '1']
METAS = ['podo_meta', 'podo_meta', 'podo_meta2', 'ledger', 'podo', 'Meta', 'm s']


def layout(r):
    """profiles that share some things and not others"""
    n = r.choice([2, 2, 3, 4])
    names = ['database'] + r.sample(NAMES, n - 1)
    if r.random() < .15:
        names = r.sample(NAMES, n)
    out, used = [], set()
    for i, nm in enumerate(names):
        share = out and r.random() < .35
        hist = r.choice(out)['hist'] if share else ('database/history' if nm == 'database' else r.choice(['hist%d' % i, 'database/history%d' % i, 'profiles/%d/history' % i, 'database/history/nested%d' % i, 'hist$PV_HOST%d' % i, 'h ${PV_NOPE}/ü%d' % i]))
        defs = r.choice(out)['defs'] if out and r.random() < .3 else ('database/definitions' if nm == 'database' else r.choice(['defs%d' % i, 'profiles/%d/defs' % i, 'defs$%d' % i, 'd$PV_HOST/%d é' % i]))
        for _ in range(50):
            db, meta = r.choice(['d1', 'd1', 'd2', 'd3']), r.choice(METAS)
            if (db, meta) not in used:
                break
        used.add((db, meta))
        out.append({'name': nm, 'hist': hist, 'defs': defs, 'db': db, 'meta': meta})
    return out


def spell_path(r, L, p, i):
    k = r.randrange(8)
    if '$' in p:
        # values of environment variables are taken as they are
        L.env['PV_P%s' % i] = p
        return r.choice(['$PV_P%s', './${PV_P%s}', 'x/../$PV_P%s/']) % i
    if k == 0:
        return './' + p
    if k == 1:
        return p + '/'
    if k == 2:
        L.env['PV_P%s' % i] = p
        return '$PV_P%s' % i
    if k == 3:
        a, b = os.path.split(p)
        L.env['PV_Q%s' % i] = b
        return (a + '/' if a else '') + '${PV_Q%s}' % i
    if k == 4:
        return 'x/../' + p
    if k == 5:
        L.env['PV_BASE%s' % i] = L.base
        return '${PV_BASE%s}/%s' % (i, p)
    if k == 6:
        return '${PV_UNSET}' + p
    return p


USERS = ['u', 'u', 'app_user', 'Ünï user', 'a$PV_USER', 'u$1', 'm@in', '${PV_HOST}', '50%']
PASSWORDS = ['pass', 'pa$PV_USER', 'pa$$word', '$', '${PV_NOPE}', 'a/b:c@d', 'p w', '%24', "it's"]
DATABASES = ['postgres', 'postgres', 'app', 'App-db', 'db$PV_PORT', 'with space', '${PV_HOST}']


def login(r):
    who = {'user': r.choice(USERS), 'database': r.choice(DATABASES)}
    if r.random() < .5:
        who['password'] = r.choice(PASSWORDS)
    return who


def spell_url(r, L, db, i):
    """every way to write where a database is; values of environment variables are taken as they are"""
    port, who = L.ports[db], L.srv.logins[L.ports[db]]
    k = r.randrange(7)
    q = lambda t: urllib.parse.quote(t, safe='')
    kv = lambda t: "'%s'" % t.replace('\\', '\\\\').replace("'", "\\'")
    pw = ':' + q(who['password']) if 'password' in who else ''
    url = 'postgresql://%s%s@127.0.0.1:%d/%s' % (q(who['user']), pw, port, q(who['database']))
    pairs = 'host=127.0.0.1 port=%d user=%s dbname=%s' % (port, kv(who['user']), kv(who['database'])) + (' password=' + kv(who['password']) if pw else '')
    if k == 0:
        L.env['PV_URL%d' % i] = url
        return '$PV_URL%d' % i
    if k == 1:
        L.env['PV_PORT%d' % i] = str(port)
        return url.replace(':%d/' % port, ':${PV_PORT%d}/' % i)
    if k == 2:
        L.env.update({'PV_USER%d' % i: q(who['user']), 'PV_HOST': '127.0.0.1', 'PV_PASS%d' % i: pw, 'PV_DB%d' % i: q(who['database'])})
        return 'postgresql://$PV_USER%d${PV_PASS%d}@${PV_HOST}:%d/$PV_DB%d' % (i, i, port, i)
    if k == 3 and '$' not in pairs:
        return pairs
    if k in (3, 4):
        L.env['PV_URL%d' % i] = pairs
        return '${PV_URL%d}' % i
    if k == 5:
        L.env.update({'PV_USER%d' % i: kv(who['user']), 'PV_PASS%d' % i: kv(who.get('password', '')), 'PV_DB%d' % i: kv(who['database'])})
        return 'dbname=$PV_DB%d user=${PV_USER%d} host=127.0.0.1 port=%d' % (i, i, port) + (' password=$PV_PASS%d' % i if pw else '')
    return url


class Lives(lifegen.Walk):
    def __init__(self, L, r, plain=False):
        super().__init__(L, r, {})
        self.content, self.plain = [], plain
        self.live = []

    def where(self):
        L, r = self.L, self.r
        if self.plain or r.random() < .5:
            return None
        if r.random() < .15:
            d = L.path('x/y/' + '/'.join(['deep'] * r.choice([3, 9, 40])))
            os.makedirs(d, exist_ok=True)
            return d
        d = L.path(r.choice(['x', 'x/y', 'database', os.path.normpath(L.profiles[-1]['hist']), os.path.normpath(L.profiles[0]['defs'])]))
        return d if os.path.isdir(d) else None

    def cmd(self, cmd, target='', prof='database', **kw):
        L = self.L
        L.cmd(cmd, target, prof=prof, cwd=self.where(), **kw)
        ev = L.events[-1]
        x = L.profile(prof)
        if cmd == 'stage' and x and ev['code'] == 0 and prof in L.cats and prof not in L.bad:
            h = L.hist(prof)
            if h.get('stage') and all(h.values()):
                # in a history that profiles share, the definitions of whoever staged last
                st = L.stage_of(prof)
                c, n = [], 'stage'
                while n and n in h and len(c) < 50:
                    c.insert(0, n)
                    n = (st if n == 'stage' else h[n]).get('previous')
                if c and c[0] == 'init':
                    L.content.append([version_event(h[n], 'move') for n in c[:-1]] + [version_event(st, 'mine', defs=gen.objs(L.cats[prof]))])

    def setdefs(self, prof, cat):
        """profiles that share definitions share them"""
        L = self.L
        L.set_cat(cat, prof, self.r if self.r.random() < .3 else None)
        for x in L.profiles:
            if os.path.normpath(x['defs']) == os.path.normpath(L.profile(prof)['defs']):
                L.cats[x['name']] = cat
                L.bad.discard(x['name'])

    def step(self):
        L, r = self.L, self.r
        prof = r.choice(self.profs)
        op = r.choices(['edit', 'stage', 'reset', 'make', 'up', 'down', 'status', 'init', 'noprof', 'others', 'closed', 'clone', 'reject'], [10, 11, 3, 8, 9, 6, 4, 1, 2, 4, 2, 3, 2])[0]
        if op == 'edit':
            cat = L.cats.get(prof)
            new = simple(gen.random_cat(r, 2) if cat is None else gen.evolve(r, cat, r.choice([1, 1, 2, 3])))
            if new['schemas']:
                self.setdefs(prof, new)
        elif op in ('stage', 'reset', 'status'):
            self.cmd(op, prof=prof)
        elif op == 'make':
            self.cmd(op, newlabel(L, r), prof=prof)
        elif op in ('up', 'down'):
            self.cmd(op, lifegen.targets(L, r, prof), prof=prof)
        elif op == 'clone':
            # an empty database: the definitions are empty afterwards, whatever they were
            k = L.keep()
            self.cmd('clone', prof=prof)
            L.put_back(k, last=True)
        elif op == 'init':
            L.cmd('init', cwd=self.where())
        elif op == 'noprof':
            self.cmd(r.choice(['stage', 'reset', 'make', 'up', 'down', 'status', 'clone']), prof=r.choice([n for n in NAMES + ['nobody', 'DATABASE', 'database ', 'podo_meta', 'hist1'] + (['database'] if 'database' not in self.profs else []) if n not in self.profs]))
        elif op == 'others':
            # what belongs to another profile alone is broken: nobody else notices
            k = L.keep()
            o = r.choice(self.profs)
            a, b = L.profile(prof), L.profile(o)
            done = []
            if a['hist'] != b['hist'] and not (a['hist'] + '/').startswith(b['hist'] + '/') and not (a['defs'] + '/').startswith(b['hist'] + '/'):
                done.append(r.choice(BREAKS)(L, r, o))
            if a['defs'] != b['defs'] and not (a['defs'] + '/').startswith(b['defs'] + '/') and not (a['hist'] + '/').startswith(b['defs'] + '/'):
                L.p.set_defs({'public.yaml': r.choice(BADDEFS)[1]}, os.path.join(L.home, b['defs']))
                done.append('malformed definitions')
            if done:
                L.edit('of profile %s: %s' % (o, ', '.join(done)))
                for c in r.sample(['stage', 'reset', 'make', 'up', 'down', 'status'], 3):
                    self.cmd(c, lifegen.targets(L, r, prof) if c in ('up', 'down') else '', prof=prof, **({'would': False} if c == 'status' else {}))
            L.put_back(k, last=True)
        elif op == 'closed':
            db = r.choice(sorted(L.dbs))
            port = L.ports[db]
            L.srv.close_port(port)
            L.down_ports.add(db)
            for c in ('up', 'down', 'status'):
                if r.random() < .6:
                    self.cmd(c, lifegen.targets(L, r, prof) if c != 'status' else '', prof=prof)
            L.down_ports.discard(db)
            L.srv.port(L.dbs[db], port)
        elif op == 'reject':
            st = [s for x in L.rows(prof) for s in x['down'] or []] + [s for v in L.hist(prof).values() if v for s in v['up']]
            if st:
                self.cmd(r.choice(['up', 'down']), prof=prof, reject=[r.choice(st)])


def one(exe, job):
    seed, steps, plain = job
    r = random.Random('profiles-%s' % seed)
    profs = [{'name': 'database', 'hist': 'database/history', 'defs': 'database/definitions', 'db': 'd1', 'meta': 'podo_meta'}] if plain else layout(r)
    home = '' if plain else r.choice(['', '', 'outer/inner', 'p'])
    with Life(exe, 'profiles-%s' % seed, profiles=profs, home=home) as L:
        for db in L.dbs.values():
            db.lenient = True
        r0 = L.p.run('init', cwd=L.base)
        if not r0.ok:
            L.broken.append(('init', r0.brief()))
            return L.data()
        L.content = []
        src = {k: os.path.join(L.p.root, 'src-' + k) for k in ('hist', 'defs')}
        shutil.move(L.path('database/history'), src['hist'])
        shutil.move(L.path('database/definitions'), src['defs'])
        for x in profs:
            for k in ('hist', 'defs'):
                shutil.copytree(src[k], L.path(x[k]), dirs_exist_ok=True)
        for d in src.values():
            shutil.rmtree(d)
        os.makedirs(L.path('x/y'), exist_ok=True)
        with open(L.path('x/keep.txt'), 'w') as f:
            f.write('x')
        if not plain:
            for n in sorted(L.dbs):
                L.srv.logins[L.ports[n]] = login(r)
            for i, x in enumerate(profs):
                L.spell[x['name']] = {'url': spell_url(r, L, x['db'], i), 'hist': spell_path(r, L, x['hist'], 'h%d' % i), 'defs': spell_path(r, L, x['defs'], 'd%d' % i)}
        L.configure()
        if home and r.random() < .6:
            # a project around the project
            outer = os.path.join(L.p.root, '.podo.yaml')
            with open(outer, 'w') as f:
                f.write(L.config_text() if r.random() < .3 else 'profiles:\n  database:\n    database_url: postgresql://u@127.0.0.1:%d/postgres\n    history: database/history\n    definitions: database/definitions\n    metadata_schema: outer\n' % sorted(L.ports.values())[0])
            L.p.run('init')
        if not plain and r.random() < .3:
            # the same names where the command is started
            for k in ('hist', 'defs'):
                shutil.copytree(L.path(profs[0][k]), L.path('x/y', profs[0][k]), dirs_exist_ok=True)
        L.edit('profiles', config=L.config_text(), env=dict(L.env))
        for x in profs:
            L.cats.setdefault(x['name'], gen.empty())
        w = Lives(L, r, plain)
        for x in profs:
            c = simple(gen.random_cat(r, 2))
            if c['schemas']:
                w.setdefs(x['name'], c)
        for _ in range(steps):
            w.step()
        return L.data(content=L.content)


def judged(ctx, runs):
    """-> [(run, event, clause, detail)]"""
    v, t = check_trace('TraceLife', [x['events'] for x in runs], env={'WANT': 'all'})
    ctx.traced(t, len(runs))
    out = [(runs[a], b, c, d) for a, b, c, d in v]
    cs = [dict(x, events=c, run=x) for x in runs for c in x.get('content', [])]
    for x, i, clause, detail in judge_content(ctx, cs, want='all'):
        if clause == 'C16.defs':
            out.append((x['run'], len(x['run']['events']) - 1, clause, detail))
    ctx.add('stages_compared_with_own_definitions', len(cs))
    return out


def check_profiles(ctx):
    n = 300 if ctx.quick else 9000
    base = ctx.seed * 1000000
    for part in range(0, n, 480):
        runs = ctx.pmap(one, [(base + k, 30, False) for k in range(part, min(n, part + 480))])
        bad = judged(ctx, runs)
        other = {c for _, _, c, _ in bad if not c.startswith('C16') or c == 'C16.defs'}
        if other:
            ctx.add('ordinary_lives_compared', 300)
            plain = {c for _, _, c, _ in judged(ctx, ctx.pmap(one, [(base + 500000 + k, 30, True) for k in range(300)]))}
            bad = [x for x in bad if x[2] not in plain or x[2].startswith('C16') and x[2] != 'C16.defs']
        for x, b, clause, detail in bad:
            ctx.violation('C16.' + clause if not clause.startswith('C16') else clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail), {'seed': x['seed'], 'steps': x['notes'][:b + 1], 'legend': x['legend']})
        ctx.add('lives', len(runs))
        ctx.add('profiles', sum(len(x['events'][-1].get('cfg', [])) for x in runs if x['events']))
        ctx.add('commands_judged', sum(e['e'] != 'env' for x in runs for e in x['events']))
        if all(x['broken'] for x in runs) and not ctx.viols:
            raise ToolError('podo init does not work: %s' % runs[0]['broken'])
        for x in runs[:2]:
            ctx.sample(x['notes'][:5])
        if ctx.left(840) < 90:
            break
