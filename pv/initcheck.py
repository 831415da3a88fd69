"""C15: init in directories of every kind; the project it makes is used, the one it finds is left alone."""
import os, random, shutil
import yaml
from . import gen
from .lifecommon import grow
from .lifegen import dump
from .life import Life, simple
from .proj import ToolError
from .tlc import check_trace

CREATED = ['.podo.yaml', 'database/definitions/public.yaml']
ALL = CREATED + ['database/history/init.yaml', 'database/history/stage.yaml']


def made(L, base=None):
    base = base or L.base
    try:
        with open(os.path.join(base, '.podo.yaml')) as f:
            c = yaml.safe_load(f)
        p = c['profiles']['database']
        return all(isinstance(p[k], str) for k in ('database_url', 'history', 'definitions', 'metadata_schema')) and os.path.normpath(p['history']) == 'database/history' and \
            os.path.normpath(p['definitions']) == 'database/definitions' and all(os.path.isfile(os.path.join(base, x)) for x in ALL)
    except Exception:
        return False


def put(L, rel, text):
    p = L.path(rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        f.write(text)


CLUTTER = [('README.md', '# x\n'), ('src/main.rs', 'fn main() {}\n'), ('.gitignore', 'target\n'), ('podo.yaml', 'profiles: {}\n'), ('.podo.yml', 'x\n'), ('.podo.yaml.bak', 'profiles:\n'), ('database/notes.md', 'hi\n'),
           ('database.txt', ''), ('database/history/README', 'not a version\n'), ('database/definitions/README.md', 'none\n'), ('db/history/init.yaml', 'other\n'), ('history/stage.yaml', 'other\n'), ('.podo/x', 'y')]
GARBAGE = ['', '\n', 'profiles:\n', 'profiles: {}\n', 'profiles: [1]\n', 'hello', '::: [', '{', 'profiles:\n  database:\n    history: x\n', 'profiles:\n  database: 7\n', '\tprofiles: 1\n', 'database:\n  url: x\n', '\x00\x01',
           'profiles:\n  database:\n    database_url: x\n    history: h\n    definitions: d\n', '- a\n', 'profiles:\n  other:\n    database_url: postgresql://u@127.0.0.1:1/x\n    history: h\n    definitions: d\n    metadata_schema: m\n']


def init(L, cwd=None, found=False, cfgok=True, clear=False, hist='database/history', kind='cmd'):
    L.cmd('init', cwd=cwd, found=found, cfgok=cfgok, clear=clear, hist=hist, kind=kind)
    ev = L.events[-1]
    ev['made'] = made(L)
    ev['under'] = CREATED
    ev['full'] = L.adds() if ev['code'] == 0 and not found and clear else -1


def use(L, r):
    """a project as init made it: everything works on it and there is nothing to do"""
    for cmd in r.sample(['status', 'stage', 'reset', 'make'], 4):
        L.cmd(cmd, kind='works')
    # only the address of the database is changed
    with open(L.path('.podo.yaml')) as f:
        c = yaml.safe_load(f)
    c['profiles']['database']['database_url'] = L.url('main')
    with open(L.path('.podo.yaml'), 'w') as f:
        yaml.safe_dump(c, f, sort_keys=False)
    L.edit('address of the database')
    for cmd in r.choice([['up', 'status'], ['down', 'up'], ['status', 'up', 'down', 'up']]):
        L.cmd(cmd, kind='works')
    n = L.keep()
    grow(L, r, r.choice([1, 2]))
    L.cmd('up', kind='works')
    L.cmd('status', kind='works')
    shutil.rmtree(n)


def one(exe, job):
    seed, k = job
    r = random.Random('init-%s' % seed)
    home = r.choice(['', '', 'a/b', 'sp ace/ünï'])
    with Life(exe, 'init-%s' % seed, home=home) as L:
        if k == 'fresh':
            for f, t in r.sample(CLUTTER, r.choice([0, 0, 2, 5])):
                put(L, f, t)
            for d in r.sample(['database', 'database/history', 'database/definitions/sub', 'x/y'], r.choice([0, 1, 2])):
                os.makedirs(L.path(d), exist_ok=True)
            L.edit('a directory without a project')
            init(L, clear=True)
            if L.events[-1]['code'] == 0:
                before = len(L.events)
                sub = r.choice(['', 'database', 'database/history', 'database/definitions', 'src' + '/deep' * r.choice([8, 40])])
                os.makedirs(L.path(sub), exist_ok=True)
                init(L, cwd=L.path(sub), found=True)
                use(L, r)
                init(L, found=True)
            return L.data()
        if k == 'partial':
            # parts of a project that lost its configuration
            L.start()
            grow(L, r, r.choice([0, 1, 2]), stage=r.random() < .5)
            os.unlink(L.path('.podo.yaml'))
            files = [os.path.join(d, f) for d, _, fs in os.walk(L.base) for f in fs]
            for f in files:
                if r.random() < .35:
                    os.unlink(f)
                elif r.random() < .1:
                    with open(f, 'w') as fh:
                        fh.write(r.choice(GARBAGE))
            if r.random() < .2:
                shutil.rmtree(L.path('database', r.choice(['history', 'definitions'])))
            if r.random() < .15:
                shutil.rmtree(L.path('database'))
                put(L, 'database', 'a file')
            L.edit('the configuration is lost, and more')
            init(L)
            init(L, found=os.path.exists(L.path('.podo.yaml')))
            return L.data()
        # an existing project
        L.start()
        grow(L, r, r.choice([0, 1, 2]), stage=r.random() < .5)
        if r.random() < .5:
            L.cmd('up')
        ok = True
        if k == 'damaged':
            what = r.choice(['config', 'config', 'files', 'dirs', 'configdir'])
            if what == 'config':
                g = r.choice(GARBAGE)
                put(L, '.podo.yaml', g)
                ok = g.startswith(('profiles: {}', 'profiles:\n  other'))
            elif what == 'configdir':
                os.unlink(L.path('.podo.yaml'))
                os.makedirs(L.path('.podo.yaml'))
                ok = False
            elif what == 'files':
                fs = [os.path.join(d, f) for d, _, fs in os.walk(L.path('database')) for f in fs]
                for f in r.sample(fs, min(len(fs), r.choice([1, 2]))):
                    if r.random() < .5:
                        os.unlink(f)
                    else:
                        with open(f, 'w') as fh:
                            fh.write(r.choice(GARBAGE))
            else:
                shutil.rmtree(L.path(r.choice(['database', 'database/history', 'database/definitions'])))
            L.edit('damage by hand: ' + what)
        for _ in range(2):
            sub = r.choice(['', 'database', 'database/history', 'database/definitions', 'src/deep/er', '.git', 'src' + '/deep' * r.choice([8, 40])])
            os.makedirs(L.path(sub), exist_ok=True)
            init(L, cwd=L.path(sub), found=True, cfgok=ok)
        return L.data()


def check_init(ctx):
    n = 1000 if ctx.quick else 20000
    base = ctx.seed * 1000000
    kinds = ['fresh', 'partial', 'existing', 'damaged']
    for part in range(0, n, 1200):
        runs = ctx.pmap(one, [(base + k, kinds[k % 4]) for k in range(part, min(n, part + 1200))])
        v, t = check_trace('TraceLife', [x['events'] for x in runs], env={'WANT': 'C15'})
        ctx.traced(t, len(runs))
        ctx.add('inits_judged', sum(e.get('cmd') == 'init' for x in runs for e in x['events']))
        ctx.add('commands_on_a_new_project', sum(e['e'] == 'works' for x in runs for e in x['events']))
        for a, b, clause, detail in v:
            x = runs[a]
            ctx.violation(clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail), {'seed': x['seed'], 'steps': x['notes'][:b + 1], 'legend': x['legend']})
        for x in runs[:3]:
            ctx.sample(x['notes'][:4])
        if ctx.left(840) < 90:
            break
