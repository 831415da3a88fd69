"""Random lives of a project."""
import json, os, random, shutil
from . import gen
from . import life
from .life import Life, simple

LABELS = ['v1', 'v1', 'auto', '', '', 'users', 'a b', 'x.yaml', 'ünï', "it's", '2024', 'Add', 'stage', 'init', 'no', '1e3', '-dash', 'a:b', 'x#y', '..', 'two\nlines', 'x' * 190]
NOFILE = ['feature/users', '/', '../v1', 'x' * 300, 'ü' * 130]    # no file can be called that
FAULTS = ['error', 'error', 'drop', 'drop-after', 'kill', 'kill-after']


HANDS = ['a', 'A', 'a-2', 'ab', 'init2', 'xinit', 'stage2', 'Stage', 'INIT', '2024', 'x.y', "it's", 'v', 'v1', 'V1', 'v10', '20240101_000000-v1', '20240101_000000-v1-2', '20240101_000000', 'a b', 'ünï', '%', '_', 'a_b', 'a%b', 'a-b', 'axb']


def newlabel(L, r):
    """a label for make; often one that makes the name of the version similar to the one before"""
    last = getattr(L, 'lastlabel', None)
    x = r.choice([last, last, last + '-2', last + '2', last[:-1], last.swapcase()]) if last and len(last) < 50 and r.random() < .5 else r.choice(LABELS)
    L.lastlabel = x
    return x


def dump(path, v):
    with open(path, 'w') as f:
        json.dump(v, f, ensure_ascii=True)   # every JSON text is YAML, and nothing in it is read differently


# ------------------------------------------------------------ breaking a history directory by hand
def hpath(L, prof, n):
    return L.path(L.profile(prof)['hist'], n + '.yaml')


def b_garbage(L, r, prof):
    n = r.choice(sorted(L.hist(prof)))
    with open(hpath(L, prof, n), 'w') as f:
        f.write(r.choice(['::: [ not yaml', '', 'name: x\n', '- 1\n- 2\n', 'hello', '{', 'name: [1, 2\n', '\t- x: y']))
    return '%s.yaml is unreadable' % n


def b_truncate(L, r, prof):
    n = r.choice(sorted(L.hist(prof)))
    with open(hpath(L, prof, n)) as f:
        s = f.read()
    cut = s.find('\nup:')
    with open(hpath(L, prof, n), 'w') as f:
        f.write(s[:r.randrange(1, max(2, cut))])
    return '%s.yaml is cut short' % n


def b_field(L, r, prof):
    n = r.choice(sorted(L.hist(prof)))
    v = dict(L.hist(prof)[n])
    k = r.choice(['name', 'changes', 'up', 'down'])
    if r.random() < .5:
        del v[k]
    else:
        v[k] = 7 if k != 'name' else [1]
    dump(hpath(L, prof, n), v)
    return '%s.yaml has no proper %s' % (n, k)


def b_branch(L, r, prof):
    h = L.hist(prof)
    n = r.choice([x for x in h if x != 'init'])
    v = dict(h[n], name='fork')
    if n == 'stage':
        v['up'] = v['up'] + ['SELECT 1']
    dump(hpath(L, prof, 'fork'), v)
    if r.random() < .3:
        f = hpath(L, prof, 'fork')
        os.rename(f, f + '.txt')
        os.symlink('fork.yaml.txt', f)
    return 'fork.yaml has the same predecessor as %s' % n


def b_branch2(L, r, prof):
    """a fork beside the last version, the one the stage stands on"""
    h = L.hist(prof)
    n = r.choice(['fork2', 'fork2', '_fork', '-f', '0', '~fork', 'stage2', 'init_2', 'Stage', 'a b', '#fork', 'fork.yaml', 'z' * 120])
    v = dict(h['stage'], name=n, previous=r.choice(L.chain(prof)), up=['SELECT 2'])
    if r.random() < .3:
        v = dict(v, changes=[], up=[], down=[])
    dump(hpath(L, prof, n), v)
    return '%s.yaml on %s%s' % (n, v['previous'], '' if v['up'] else ', without anything in it')


def b_cycle(L, r, prof):
    c = L.chain(prof)
    if len(c) < 2:
        return b_self(L, r, prof)
    v = dict(L.hist(prof)[c[1]], previous=r.choice(c[1:]))
    dump(hpath(L, prof, c[1]), v)
    return '%s follows %s' % (c[1], v['previous'])


def b_self(L, r, prof):
    v = dict(L.hist(prof)['stage'], previous='stage')
    dump(hpath(L, prof, 'stage'), v)
    return 'stage follows itself'


def b_missing(L, r, prof):
    n = r.choice(sorted(L.hist(prof)))
    os.unlink(hpath(L, prof, n))
    return '%s.yaml is missing' % n


def b_stray(L, r, prof):
    dump(hpath(L, prof, 'stray'), {'name': 'stray', 'previous': r.choice(['ghost', 'stray']), 'changes': [], 'up': ['SELECT 1'], 'down': []})
    return 'stray.yaml hangs in the air'


def b_island(L, r, prof):
    dump(hpath(L, prof, 'isle1'), {'name': 'isle1', 'previous': 'isle2', 'changes': [], 'up': ['SELECT 1'], 'down': []})
    dump(hpath(L, prof, 'isle2'), {'name': 'isle2', 'previous': 'isle1', 'changes': [], 'up': ['SELECT 1'], 'down': []})
    return 'isle1.yaml and isle2.yaml follow each other'


def b_root(L, r, prof):
    h = L.hist(prof)
    n = r.choice([x for x in h if x != 'init'])
    dump(hpath(L, prof, n), dict(h[n], previous=None))
    return '%s has no predecessor' % n


def b_nodir(L, r, prof):
    d = L.path(L.profile(prof)['hist'])
    shutil.rmtree(d)
    if r.random() < .5:
        os.makedirs(d)
        return 'the history directory is empty'
    return 'the history directory is missing'


def b_repoint(L, r, prof):
    """a version names a predecessor that is not there"""
    h = L.hist(prof)
    n = r.choice([x for x in h if x != 'init'])
    dump(hpath(L, prof, n), dict(h[n], previous='gone'))
    return '%s follows a version that is not there' % n


def b_nearly(L, r, prof):
    """almost what an interrupted make leaves: the same predecessor as the stage, but not the same contents"""
    s = L.hist(prof)['stage']
    v = dict(s, name='nearly')
    k = r.choice(['changes', 'up', 'down'])
    v[k] = v[k][:-1] if v[k] and k == 'changes' else v[k] + (['SELECT 3'] if k != 'changes' else [{'type': 'CreateSchemaChange', 'change': {'schema_name': 'zz'}}])
    dump(hpath(L, prof, 'nearly'), v)
    return 'nearly.yaml beside the stage differs in ' + k


def b_copy(L, r, prof):
    h = L.hist(prof)
    n = r.choice(sorted(h))
    to = r.choice([n + ' (copy)', 'copy-of-' + n, n + '-2', '0'])
    if to in h:
        to = 'copied'
    shutil.copy(hpath(L, prof, n), hpath(L, prof, to))
    return '%s.yaml is a copy of %s.yaml' % (to, n)


def b_name(L, r, prof):
    """the name inside is not the name of the file"""
    h = L.hist(prof)
    n = r.choice(sorted(set(h) - {'init'}))
    v = dict(h[n], name=r.choice([x for x in list(h) + [n + 'x', n.upper(), '', n + '.yaml'] if x != n]))
    dump(hpath(L, prof, n), v)
    return '%s.yaml calls itself %r' % (n, v['name'])


def b_bytes(L, r, prof):
    n = r.choice(sorted(L.hist(prof)))
    with open(hpath(L, prof, n), 'rb') as f:
        s = f.read()
    k = r.randrange(3)
    i = r.randrange(len(s))
    with open(hpath(L, prof, n), 'wb') as f:
        f.write([s[:i] + b'\xff\xfe' + s[i:], s + b'\n---\n' + s, b'\x00' * len(s)][k])
    return '%s.yaml %s' % (n, ['is no text', 'holds two documents', 'is full of zeros'][k])


BREAKS = [b_copy, b_name, b_bytes, b_garbage, b_truncate, b_field, b_branch, b_branch2, b_cycle, b_self, b_missing, b_missing, b_stray, b_island, b_root, b_nodir, b_repoint, b_nearly]


def interrupt(L, r, prof):
    """what a make killed between its two writes leaves behind"""
    s = L.hist(prof)['stage']
    dump(hpath(L, prof, 'halfway'), dict(s, name='halfway'))
    return 'make was interrupted after writing halfway.yaml'


def byhand(L, r, prof):
    """the stage becomes a version with a name of somebody's choice"""
    h = L.hist(prof)
    names = [n for n in HANDS if n not in h]
    if not names or 'stage' not in h or any(n != 'stage' and v['previous'] == h['stage']['previous'] for n, v in h.items()):
        return None
    n = r.choice(names)
    if r.random() < .4:
        near = [x for x in names for y in h if x != y and (x.startswith(y) or y.startswith(x) or x.lower() == y.lower() or len(x) == len(y))]
        n = r.choice(near or names)
    dump(hpath(L, prof, n), dict(h['stage'], name=n))
    dump(hpath(L, prof, 'stage'), {'name': 'stage', 'previous': n, 'changes': [], 'up': [], 'down': []})
    return 'the stage was made %s.yaml' % n


CLUTTER = ['README', 'notes.txt', 'v1.yml', 'v0.yaml.bak', 'v0.yaml~', '.v0.yaml.swp', 'yaml', 'archive/v0.yaml', 'old.yaml/v0.yaml', 'stage.yaml.orig', 'init.json']


def clutter(L, r, prof):
    """what lies beside the versions and is none"""
    n = r.choice(CLUTTER)
    f = L.path(L.profile(prof)['hist'], n)
    os.makedirs(os.path.dirname(f), exist_ok=True)
    h = L.hist(prof)
    with open(f, 'w') as fh:
        fh.write(r.choice(['', 'hello', 'name: [', json.dumps(h.get('stage') or {}), json.dumps(dict(h.get('stage') or {}, name='v0'))]))
    return n + ' in the history directory'


def link(L, r, prof):
    """a version is kept elsewhere"""
    n = r.choice([x for x in L.hist(prof) if x != 'stage'])
    d = L.path('elsewhere')
    os.makedirs(d, exist_ok=True)
    f = hpath(L, prof, n)
    if os.path.islink(f):
        return None
    to = os.path.join(d, '%d.txt' % len(os.listdir(d)))
    shutil.move(f, to)
    os.symlink(to if r.random() < .5 else os.path.relpath(to, os.path.dirname(f)), f)
    return '%s.yaml is a link' % n


SCRIPTS = ["COMMENT ON SCHEMA public IS 'one'", "COMMENT ON SCHEMA public IS 'one'", "COMMENT ON SCHEMA public IS 'it''s;  done -- no'", "COMMENT ON SCHEMA public\n  IS 'two\n  lines'", "GRANT USAGE ON SCHEMA public TO \"some one\"",
           "REVOKE ALL /* by hand */ ON SCHEMA public FROM PUBLIC", "GRANT USAGE ON -- by hand\n SCHEMA public TO PUBLIC", "COMMENT ON SCHEMA public IS 'gr\u00fc\u00dfe \u2603'", "CREATE EXTENSION IF NOT EXISTS citext", "COMMENT ON SCHEMA public IS 'a:b #c {d} [e] %s $1 ${HOME} \\'", "REVOKE ALL ON SCHEMA public FROM PUBLIC;",
           "-- by hand\nCOMMENT ON SCHEMA public IS 'three'", "/* before */ GRANT CREATE ON SCHEMA public TO PUBLIC -- after", "  COMMENT ON SCHEMA public IS NULL ;\n-- done",
           "COMMENT ON SCHEMA public IS 'four\n\nlines\n\n\n    and\ta tab'", "COMMENT ON SCHEMA public IS 'spaces   \n  at ends'"]


life.SCRIPTS = SCRIPTS


def script(L, r, prof):
    """statements of somebody's own among the staged ones, some of them twice"""
    v = L.hist(prof).get('stage')
    if not v or not v['changes'] and r.random() < .7:
        return None
    v = dict(v, up=list(v['up']), down=list(v['down']))
    for _ in range(r.choice([1, 1, 2, 4])):
        k = r.choice(['up', 'up', 'down'])
        s = r.choice(SCRIPTS)
        if v[k] and r.random() < .3:
            s = r.choice([x for x in v[k] if '\n' not in x] or [s])
        v[k].insert(r.randrange(len(v[k]) + 1), s)
    dump(hpath(L, prof, 'stage'), v)
    return 'the scripts of the stage'


def tamper(L, r, prof):
    """history files change or vanish behind the database's back"""
    h = L.hist(prof)
    names = [n for n in h if n not in ('init', 'stage')] or ['stage']
    k = r.randrange(4)
    if k == 0:
        shutil.rmtree(L.path(L.profile(prof)['hist']))
        return 'the history directory is gone'
    n = r.choice(names)
    if k == 1:
        os.unlink(hpath(L, prof, n))
        return n + '.yaml is gone'
    v = dict(h[n])
    if k == 2:
        v['down'] = ['DROP TABLE tampered'] + v['down'][1:]
        v['up'] = v['up'] + ['SELECT tampered']
        dump(hpath(L, prof, n), v)
        return n + '.yaml has other scripts'
    v['down'], v['up'] = list(reversed(v['down'])), list(reversed(v['up']))
    v['changes'] = v['changes'][:-1]
    dump(hpath(L, prof, n), v)
    return n + '.yaml has its scripts reversed'


def rebase(L, r, prof):
    """the history goes on in other versions than the database has: somebody renamed, squashed or replaced them"""
    h = L.hist(prof)
    c = L.chain(prof)
    rows = [x['name'] for x in L.rows(prof)]
    k = r.randrange(4)
    if k == 0:
        new = {n: n + '-r' for n in c[1:]}
    elif k == 1:
        new = {n: 'zz' + n for n in c[1:] if n == (rows[-1] if rows else '')}
    elif k == 2:
        i = r.randrange(1, len(c)) if len(c) > 1 else 1
        new = {n: n + 'r' for n in c[i:]}
    else:
        new = {n: 'other%d' % i for i, n in enumerate(c[1:])}
    keep = set(c[1:]) if k == 3 and r.random() < .5 else set()    # of these only the first remains
    for n in c[1:]:
        if n in new:
            os.unlink(hpath(L, prof, n))
    prev = None
    for i, n in enumerate(c + ['stage']):
        v = dict(h[n], name=new.get(n, n), previous=prev)
        if keep and 1 < i < len(c):
            continue
        dump(hpath(L, prof, v['name']), v)
        prev = v['name']
    return 'the versions have other names: ' + str(sorted(new.items()))


def save(L, prof):
    d = L.path(L.profile(prof)['hist'])
    c = d + '.saved-elsewhere'
    keep = os.path.join(L.p.root, '..', os.path.basename(L.p.root) + '-keep')
    shutil.rmtree(keep, ignore_errors=True)
    shutil.copytree(d, keep)
    return keep


def restore(L, prof, keep):
    d = L.path(L.profile(prof)['hist'])
    shutil.rmtree(d, ignore_errors=True)
    shutil.move(keep, d)
    L.edit('history restored')


# ------------------------------------------------------------ malformed definitions
BADDEFS = [('unknown key', 'schema public:\n  table t:\n    column a: int4\n  gadget x: 1\n'), ('unknown key of a table', 'schema public:\n  table t:\n    colum a: int4\n'),
           ('not yaml', 'schema public: [\n'), ('a list', '- schema public\n'), ('twice', 'schema public:\n  table t:\n    column a: int4\n  table t:\n    column b: int4\n'),
           ('column twice', 'schema public:\n  table t:\n    column a: int4\n    column a: int8\n'), ('no type', 'schema public:\n  table t:\n    column a:\n'),
           ('constraint without kind', 'schema public:\n  table t:\n    column a: int4\n    constraint c:\n      deferrable: true\n'),
           ('index without on', 'schema public:\n  table t:\n    column a: int4\n  index i:\n    unique: true\n'), ('boolean', 'schema public:\n  table t:\n    column a: int4\n  index i:\n    on t: a\n    unique: maybe\n')]


# ------------------------------------------------------------ the walk
MIX = {'edit': 10, 'stage': 10, 'reset': 3, 'make': 8, 'up': 7, 'down': 6, 'status': 4, 'init': 1, 'badhist': 2, 'baddefs': 1, 'tamper': 2, 'fault': 3, 'reject': 2, 'closed': 1, 'noprof': 1, 'interrupt': 1, 'byhand': 3, 'rebase': 2, 'script': 4, 'subdir': 1, 'clutter': 1, 'link': 1}


def targets(L, r, prof):
    c = L.chain(prof)
    rows = [x['name'] for x in L.rows(prof)]
    pool = ['', '', '', ''] + c + rows + ['init', 'nope', 'v1', (c[-1] if c else 'init')[:-1] or 'x']
    return r.choice([t for t in pool if t != 'stage'])


def faulty(r, kinds=FAULTS):
    """fails at the COMMIT, or anywhere however long the conversation is"""
    kind = r.choice(kinds)
    if r.random() < .35:
        return lambda n, d: kind if 'COMMIT' in d else None
    first, rate = r.randrange(0, 20), r.choice([.1, .3, 1])
    return lambda n, d: kind if n >= first and r.random() < rate else None


def prepare(L, r, prof, size=3):
    cat = simple(gen.random_cat(r, r.choice([1, 2, size])))
    L.set_cat(cat, prof, r if r.random() < .3 else None)


class Walk:
    def __init__(self, L, r, mix):
        self.L, self.r = L, r
        self.mix = dict(MIX, **mix)
        self.profs = [x['name'] for x in L.profiles]
        self.past = {}

    def migrate(self, prof, **kw):
        cmd = self.r.choice(['up', 'up', 'down'])
        if cmd == 'down' and len(self.L.rows(prof)) < 2 and self.r.random() < .7:
            cmd = 'up'
        return self.L.cmd(cmd, targets(self.L, self.r, prof), prof=prof, **kw)

    def step(self):
        L, r = self.L, self.r
        op = r.choices(list(self.mix), list(self.mix.values()))[0]
        prof = r.choice(self.profs)
        if op == 'edit':
            cat = L.cats.get(prof)
            new = simple(gen.random_cat(r, 2) if cat is None else gen.evolve(r, cat, r.choice([1, 1, 2, 3])))
            past = self.past.setdefault(prof, [])
            if past and r.random() < .35:
                new = r.choice(past[-2:])
            if new['schemas']:
                past.append(new)
                L.set_cat(new, prof, r if r.random() < .3 else None)
        elif op == 'stage':
            L.cmd('stage', prof=prof)
        elif op == 'reset':
            L.cmd('reset', prof=prof)
        elif op == 'make':
            L.cmd('make', r.choice(NOFILE) if r.random() < .06 else newlabel(L, r), prof=prof)
        elif op in ('up', 'down'):
            L.cmd(op, targets(L, r, prof), prof=prof)
        elif op == 'status':
            L.cmd('status', prof=prof)
        elif op == 'init':
            L.cmd('init')
        elif op == 'badhist':
            keep = save(L, prof)
            b = r.choice(BREAKS)
            L.edit('by hand: ' + b(L, r, prof))
            for c in r.sample(['stage', 'reset', 'make', 'up', 'status', 'down'], r.choice([2, 3, 6])):
                if c in ('stage', 'reset', 'make') and L.events[-1].get('code') == 0:
                    # a command that went through may have repaired or changed the files
                    pass
                if c in ('up', 'down'):
                    L.cmd(c, targets(L, r, prof), prof=prof)
                else:
                    L.cmd(c, prof=prof, would=False)
            restore(L, prof, keep)
        elif op == 'baddefs':
            cat = L.cats.get(prof)
            why, text = r.choice(BADDEFS)
            L.set_bad({'public.yaml': text}, prof, why)
            for c in r.sample(['stage', 'status', 'stage'], 2):
                L.cmd(c, prof=prof)
            if cat is None:
                cat = gen.empty()
            L.set_cat(cat, prof)
        elif op == 'tamper':
            if len(L.rows(prof)) > 1:
                keep = save(L, prof)
                L.edit('by hand: ' + tamper(L, r, prof))
                for _ in range(r.choice([1, 2])):
                    rows = [x['name'] for x in L.rows(prof)]
                    L.cmd('down', r.choice(['', '', 'nope'] + rows), prof=prof)
                restore(L, prof, keep)
            else:
                L.cmd('up', prof=prof)
        elif op == 'rebase':
            if len(L.chain(prof)) > 1:
                keep = save(L, prof)
                L.edit('by hand: ' + rebase(L, r, prof))
                for c in r.sample(['up', 'up', 'down', 'status', 'stage', 'make'], r.choice([1, 2, 3])):
                    L.cmd(c, targets(L, r, prof) if c in ('up', 'down') else newlabel(L, r) if c == 'make' else '', prof=prof, **({'would': False} if c == 'status' else {}))
                restore(L, prof, keep)
        elif op == 'fault':
            self.migrate(prof, fault=faulty(r))
        elif op == 'reject':
            c = L.chain(prof)
            h = L.hist(prof)
            rows = L.rows(prof)
            st = [s for n in c for s in (h[n]['up'] + h[n]['down'])] + [s for x in rows for s in x['down'] or []]
            if st:
                self.migrate(prof, reject=[r.choice(st)])
        elif op == 'closed':
            db = L.profile(prof)['db']
            port = L.ports[db]
            L.srv.close_port(port)
            L.down_ports.add(db)
            for c in r.sample(['up', 'down', 'status'], 2):
                L.cmd(c, prof=prof)
            L.down_ports.discard(db)
            L.ports[db] = L.srv.port(L.dbs[db])
            L.configure()
            L.edit('database %s is back on another port' % db)
        elif op == 'noprof':
            L.cmd(r.choice(['stage', 'reset', 'make', 'up', 'down', 'status', 'clone']), prof=r.choice(['nobody', 'Database', '']) or 'nobody')
        elif op == 'interrupt':
            h = L.hist(prof)
            if h['stage']['up'] and 'halfway' not in h and not any(n != 'stage' and v['previous'] == h['stage']['previous'] for n, v in h.items()):
                L.edit(interrupt(L, r, prof))
        elif op == 'byhand':
            what = byhand(L, r, prof)
            if what:
                L.edit('by hand: ' + what)
        elif op in ('clutter', 'link'):
            what = (clutter if op == 'clutter' else link)(L, r, prof)
            if what:
                L.edit('by hand: ' + what)
        elif op == 'script':
            what = script(L, r, prof) if not any(n != 'stage' and v['previous'] == L.hist(prof)['stage']['previous'] for n, v in L.hist(prof).items()) else None
            if what:
                L.edit('by hand: ' + what)
        elif op == 'subdir':
            d = L.path(r.choice(['database', 'sub/deep', 'database/history', 'database/definitions']))
            os.makedirs(d, exist_ok=True)
            L.cmd(r.choice(['stage', 'status', 'make', 'up', 'init']), prof=prof, cwd=d)


def walk(exe, job):
    seed, mix, steps = job
    r = random.Random('life-%s' % seed)
    with Life(exe, 'life-%s' % seed) as L:
        lenient(L)
        if L.start():
            prepare(L, r, 'database')
            w = Walk(L, r, mix)
            for _ in range(steps):
                w.step()
        return L.data()


def lenient(L):
    """schemas may be created twice and dropped when they are not there: what scripts do is not judged here"""
    for db in L.dbs.values():
        db.lenient = True


def long(exe, job):
    """many versions, often made within the same second and under the same label; then back and forth between them"""
    seed = job[1]
    r = random.Random('long-%s' % seed)
    with Life(exe, 'long-%s' % seed) as L:
        lenient(L)
        if L.start():
            style = r.choice(['same', 'none', 'any', 'count'])
            n = 104 if seed % 24 == 5 else r.choice([10, 11, 12, 14, 21])
            for k in range(n):
                L.set_cat(dict(gen.empty(), schemas=['public', 's%d' % (k % 7)]), event=False)
                L.p.run('stage', cwd=L.base)
                if r.random() < .3:
                    script(L, r, 'database')
                label = {'same': 'v1', 'none': '', 'any': newlabel(L, r), 'count': 'v%d' % (k + 1)}[style]
                if r.random() < .8:
                    res = L.p.run(*L.argv('make', 'database', label), cwd=L.base)
                    L.edit('version %d' % k, output=res.brief())
                else:
                    L.edit('staged')
                    L.cmd('make', label)
                if r.random() < .1:
                    L.cmd('up', r.choice(['', targets(L, r, 'database')]))
            for _ in range(14):
                c = r.choice(['up', 'up', 'down', 'down', 'down', 'status', 'make'])
                chain = L.chain()
                rows = [x['name'] for x in L.rows()]
                at = rows[-1] if rows and rows[-1] in chain else 'init'
                i = chain.index(at) if at in chain else 0
                t = r.choice(['', targets(L, r, 'database')] + [x for x in (chain[i + 1:] if c == 'up' else chain[:i])] * 3)
                L.cmd(c, t if c in ('up', 'down') else '', **({'fault': faulty(r)} if c in ('up', 'down') and r.random() < .1 else {}))
        return L.data()


def big(exe, job):
    """scripts of hundreds of statements"""
    seed = job[1]
    r = random.Random('big-%s' % seed)
    with Life(exe, 'big-%s' % seed) as L:
        lenient(L)
        if L.start():
            cat = simple(gen.random_cat(r, 20))
            n = r.choice([12, 33, 70, 140])
            gen.many(r, cat, n)
            if r.random() < .5:
                gen.wide(r, cat)
            L.set_cat(cat)
            L.cmd('stage')
            if r.random() < .5:
                script(L, r, 'database')
                L.edit('the scripts of the stage')
            for c in ['reset', 'stage', 'status', 'make', 'up'][r.choice([0, 0, 2]):]:
                L.cmd(c, newlabel(L, r) if c == 'make' else '')
            gen.fewer(r, cat, r.sample(range(n), n * 2 // 3))
            gen.many(r, cat, n // 2, 'more')
            gen.widen(r, cat)
            L.set_cat(cat)
            for c in r.choice([['status', 'stage', 'reset', 'stage', 'make', 'up', 'down', 'down'], ['stage', 'make', 'reset', 'status', 'up', 'status', 'down'], ['stage', 'stage', 'status', 'up', 'make', 'up', 'down']]):
                t = r.choice(['', 'init']) if c == 'down' else newlabel(L, r) if c == 'make' else ''
                if c in ('up', 'down') and r.random() < .4:
                    L.cmd(c, t, fault=faulty(r))
                L.cmd(c, t)
        return L.data()

