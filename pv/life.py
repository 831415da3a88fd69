"""Drive a project through its life - commands for real against the stand-in server, edits by hand - and record the world
after every step for spec/TraceLife.tla."""
import hashlib, json, os, random, re, shutil, tempfile
import yaml
from . import fsfault, gen, said
from .content import version_event
from .ddl import parse_stmt
from .engine import Db, normal
from .pgfake import Server
from .proj import Loader, Proj, Res, ToolError, load_version, scratch

KEYS = ('name', 'changes', 'up', 'down')
_seen = {}
STMT = re.compile(r'    (CREATE|ALTER|DROP|COMMENT|INSERT|UPDATE|DELETE|SELECT)\b')


def read_version(raw):
    """-> version dict or None when it is not one"""
    h = hashlib.sha256(raw).digest()
    if h not in _seen:
        if len(_seen) > 4000:
            _seen.clear()
        try:
            v = yaml.load(raw, Loader=Loader)
        except Exception:
            v = None
        v = v if isinstance(v, dict) else None
        strings = lambda l: isinstance(l, list) and all(isinstance(x, str) for x in l)
        ok = v is not None and isinstance(v.get('name'), str) and strings(v.get('up')) and strings(v.get('down')) and isinstance(v.get('changes'), list) and \
            all(isinstance(c, dict) and isinstance(c.get('type'), str) for c in v['changes']) and isinstance(v.get('previous', ''), (str, type(None)))
        _seen[h] = v if ok else None
    return _seen[h]


SCRIPTS = []   # filled by lifegen
LINES = False  # function bodies may have several lines: what status prints is not looked at


def simple(cat):
    """function bodies on one line: the output of status is read line by line"""
    if LINES:
        return cat
    for f in cat['funcs'].values():
        if '\n' in f.get('body', ''):
            f['body'] = 'select 1'
    return cat


def slurp(path):
    try:
        with open(path, 'rb') as f:
            return f.read()
    except OSError:
        return b''


class Life:
    """profiles: [{name, hist, defs, db, meta}] with paths relative to the project; spell: how the configuration writes them"""

    def __init__(self, exe, seed, profiles=None, spell=None, home=''):
        self.exe, self.seed = exe, seed
        self.p = Proj(exe)
        self.home = home                       # project directory below the scratch root
        self.base = os.path.join(self.p.root, home) if home else self.p.root
        os.makedirs(self.base, exist_ok=True)
        self.srv = Server()
        self.profiles = profiles or [{'name': 'database', 'hist': 'database/history', 'defs': 'database/definitions', 'db': 'main', 'meta': 'podo_meta'}]
        self.dbs, self.ports = {}, {}
        metas = sorted({x['meta'] for x in self.profiles})
        for x in self.profiles:
            self.add_db(x['db'], metas)
        self.spell = spell or {}
        self.events, self.notes, self.broken = [], [], []
        self.debris = set()
        self.ids, self.legend = {}, []
        self.texts = said.Texts()
        self.env = {}
        self.content = []                      # (profile, event index, kind, note): see content_run
        self.bad = set()                       # profiles whose definitions are malformed
        self.cats = {}
        self.down_ports = set()

    def add_db(self, name, metas):
        if name not in self.dbs:
            self.dbs[name] = Db(None, random.Random(str(self.seed)), meta=metas, schemas=['public'] + self.lookalikes(metas))
            self.ports[name] = self.srv.port(self.dbs[name])

    def lookalikes(self, metas):
        """schemas of somebody else, called almost like the ledgers': none of them is the ledger's"""
        r = random.Random('lookalikes-%s' % self.seed)
        out = set()
        for m in metas:
            out |= {m + 'x', 'x' + m, m.replace('_', 'x').replace('%', 'yz')}
            if m.startswith('podo'):
                out |= {m.upper(), m.capitalize(), m[:-1]}
        return sorted(x for x in out if x not in metas and len(x.encode()) < 60 and r.random() < .6)

    def close(self):
        self.srv.close()
        self.p.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    # ------------------------------------------------------------ the world
    def id(self, text):
        if text not in self.ids:
            self.ids[text] = '%d:%s' % (len(self.ids), ''.join(c for c in text if c.isascii() and c.isalnum() or c in ' _')[:26])
            self.legend.append(text)
        return self.ids[text]

    def sid(self, stmt):
        return self.id(normal(stmt))

    def cid(self, ch):
        return self.id(json.dumps(ch, sort_keys=True))

    def vrec(self, v):
        self.texts.add(self.texts.names, v['name'])
        for s in v['up'] + v['down']:
            self.texts.add(self.texts.stmts, s)
        return {'name': v['name'], 'prev': v.get('previous') or '', 'ch': [self.cid(c) for c in v['changes']], 'up': [self.sid(s) for s in v['up']], 'down': [self.sid(s) for s in v['down']]}

    def path(self, *a):
        return os.path.join(self.base, *a)

    def snapshot(self):
        hists = {os.path.normpath(x['hist']) for x in self.profiles}
        files, other = [], []
        for d, _, fs in os.walk(self.p.root):
            for f in sorted(fs):
                full = os.path.join(d, f)
                rel = os.path.relpath(full, self.base)
                dr = os.path.normpath(os.path.dirname(rel))
                try:
                    with open(full, 'rb') as fh:
                        raw = fh.read()
                except OSError:
                    raw = None
                if dr in hists and f.endswith('.yaml'):
                    v = read_version(raw) if raw is not None else None
                    r = {'dir': dr, 'file': f[:-5], 'ok': v is not None, 'h': '', 'name': '', 'prev': '', 'ch': [], 'up': [], 'down': []}
                    if v is None:
                        r['h'] = hashlib.sha256(raw or b'').hexdigest()[:12]
                    else:
                        r.update(self.vrec(v))
                    files.append(r)
                elif dr in hists and (f.startswith('.') or rel in self.debris):
                    continue                    # what writing leaves behind: nobody reads it
                else:
                    other.append({'path': rel, 'h': hashlib.sha256(raw or b'').hexdigest()[:12]})
        dbs, leds = [], []
        for n, db in sorted(self.dbs.items()):
            dbs.append({'db': n, 'log': [self.id(s) for s in db.log], 'sch': [s for s in db.schema_names() if s in db.meta]})
            for m, rows in sorted(db.ledgers().items()):
                out = []
                for r in sorted(rows, key=lambda r: (r['applied_order'] is None, r['applied_order'])):
                    ch = r['changes']
                    out.append(self.vrec({'name': r['name'], 'previous': r['previous'], 'changes': json.loads(ch) if isinstance(ch, str) else ch, 'up': r['up'] or [], 'down': r['down'] or []}))
                leds.append({'db': n, 'meta': m, 'rows': out})
        return {'files': files, 'other': sorted(other, key=lambda o: o['path']), 'dbs': dbs, 'leds': leds}

    # ------------------------------------------------------------ events
    def event(self, ev, note):
        ev['post'] = self.snapshot()
        if ev.get('fault') and self.events:
            # what an interrupted write leaves behind: nobody reads it, whatever it is called
            was = {o['path'] for o in self.events[-1]['post']['other']} if self.events else set()
            hists = {os.path.normpath(x['hist']) for x in self.profiles}
            self.debris |= {o['path'] for o in ev['post']['other'] if o['path'] not in was and os.path.normpath(os.path.dirname(o['path'])) in hists}
            ev['post']['other'] = [o for o in ev['post']['other'] if o['path'] not in self.debris]
        self.events.append(ev)
        self.notes.append(note)
        return ev

    def edit(self, what, **note):
        """something was changed by hand"""
        return self.event({'e': 'env'}, dict({'edit': what}, **note))

    def listing(self, prof):
        x = self.profile(prof)
        try:
            return os.listdir(self.path(x['hist']))
        except (OSError, TypeError):
            return []

    def profile(self, name='database'):
        for x in self.profiles:
            if x['name'] == name:
                return x

    def url(self, db):
        return 'postgresql://u@127.0.0.1:%d/postgres' % self.ports[db]

    def config_text(self):
        prof = {}
        for x in self.profiles:
            sp = self.spell.get(x['name'], {})
            prof[x['name']] = {'database_url': sp.get('url') or self.url(x['db']), 'history': sp.get('hist') or x['hist'], 'definitions': sp.get('defs') or x['defs'], 'metadata_schema': x['meta']}
        return yaml.safe_dump({'profiles': prof}, sort_keys=False)

    def configure(self):
        with open(self.path('.podo.yaml'), 'w') as f:
            f.write(self.config_text())

    def cfg(self):
        return [{k: (os.path.normpath(x[k]) if k in ('hist', 'defs') else x[k]) for k in ('name', 'hist', 'defs', 'db', 'meta')} for x in self.profiles]

    def start(self):
        """init, then point the configuration at our databases"""
        r = self.p.run('init', cwd=self.base)
        self.configure()
        if not r.ok:
            self.broken.append(('init', r.brief()))
        self.edit('podo init; configuration', output=r.brief(), config=self.config_text())
        return r.ok

    def scaffold(self, prof):
        """the files init would have made, for a further profile"""
        x = self.profile(prof)
        src = self.profile('database')
        for k in ('hist', 'defs'):
            if x[k] != src[k]:
                shutil.copytree(self.path(src[k]), self.path(x[k]), dirs_exist_ok=True)

    def set_cat(self, cat, prof='database', r=None, event=True, text=None):
        files = text or (gen.render(cat, r, 2) if r else gen.render(cat))
        d = os.path.join(self.home, self.profile(prof)['defs'])
        self.p.set_defs(files, d)
        self.bad.discard(prof)
        self.cats[prof] = cat
        if event:
            self.edit('definitions of ' + prof, definitions=files)

    def set_bad(self, files, prof='database', why=''):
        self.p.set_defs(files, os.path.join(self.home, self.profile(prof)['defs']))
        self.bad.add(prof)
        self.edit('malformed definitions of %s: %s' % (prof, why), definitions=files)

    # ------------------------------------------------------------ commands
    def argv(self, cmd, prof, target):
        a = [cmd]
        if prof != 'database' or cmd == 'init':
            a += ['--profile=' + prof] if cmd != 'init' else []
        if target:
            a += ['--version=' + target]
        return a

    def fields(self, cmd, prof, target, reject=()):
        x = self.profile(prof)
        under = []
        if x is not None:
            d = self.path(x['defs'])
            under = sorted({os.path.relpath(os.path.join(a, f), self.base) for a, _, fs in os.walk(d) for f in fs} | {os.path.join(os.path.normpath(x['defs']), 'public.yaml')})
        return {'e': 'cmd', 'cmd': cmd, 'cfg': self.cfg(), 'prof': prof, 'target': target if cmd in ('up', 'down') else '', 'reject': [self.sid(s) for s in reject], 'label': cmd != 'make' or '/' not in target and len(target.encode()) <= 200,
                'defsok': prof not in self.bad, 'reach': x is not None and x['db'] not in self.down_ports, 'under': under, 'fault': '', 'lost': False, 'killed': False, 'timeout': False,
                'touched': [], 'commits': 0, 'out': {'version': '', 'staged': [], 'unstaged': [], 'none': False}, 'would': [], 'wouldok': False,
                'found': True, 'cfgok': True, 'hist': '', 'clear': False, 'made': False, 'full': -1, 'plain': True, 'bears': True, 'said': said.blank()}

    def cmd(self, cmd, target='', prof='database', fault=None, reject=(), cwd=None, env=None, would=True, timeout=20, fs=None, kind='cmd', **more):
        ev = self.fields(cmd, prof, target, reject)
        ev.update(more)
        ev['e'] = kind
        argv = self.argv(cmd, prof, target)
        rej = {normal(s) for s in reject}
        before = {n: db.commits for n, db in self.dbs.items()}
        had = self.listing(prof) if cmd == 'make' else ()
        for db in self.dbs.values():
            db.reject = (lambda t: normal(t) in rej) if rej else None
        self.srv.accepted = []
        self.srv.faulted = None
        e = dict(self.env, **(env or {}))
        so = None
        if fs is not None:                     # (mode, k, errno): see fsfault.c
            so, log = fsfault.shim(), self.p.root + '.fslog'
            if os.path.exists(log):
                os.unlink(log)
            e.update(fsfault.env(self.p.root, log, fs[1], fs[0], fs[2] if len(fs) > 2 else 'ENOSPC'))
        if cmd in ('up', 'down', 'status', 'clone'):
            cl = self.srv.start(self.p, argv, list(self.ports.values()), cwd=cwd or self.base, env=e, preload=so)
            res = self.srv.run(cl, fault, timeout)
            steps = cl.steps
        else:
            res = self.p.run(*argv, cwd=cwd or self.base, env=e, timeout=timeout, preload=so)
            steps = 0
        for db in self.dbs.values():
            db.reject = None
        back = {p: n for n, p in self.ports.items()}
        ev['touched'] = sorted({back[p] for p in self.srv.accepted if p in back})
        ev['commits'] = sum(db.commits - before[n] for n, db in self.dbs.items())
        ev['code'] = res.code if res.code is not None else -999
        ev['timeout'] = res.timeout
        ev['err'] = bool(res.err.strip())
        ev['steps'] = steps
        ev['bears'] = cmd != 'make' or all(target in n for n in set(self.listing(prof)) - set(had))
        note = {'command': 'podo ' + ' '.join(argv), 'output': res.brief()}
        if cwd:
            note['cwd'] = os.path.relpath(cwd, self.p.root)
        if env:
            note['env'] = env
        if rej:
            note['rejected by the server'] = sorted(rej)
        if fault and self.srv.faulted:
            ev['fault'] = '%s at step %d' % (self.srv.kind, self.srv.at)
            ev['lost'] = self.srv.lost
            ev['killed'] = self.srv.kind.startswith('kill')
            note['fault'] = '%s: %s' % (ev['fault'], self.srv.faulted)
        if fs is not None:
            self.fsops = [l.split(' ', 2)[1:] for l in open(log).read().split('\n')[:-1]] if os.path.exists(log) else []
            if os.path.exists(log):
                os.unlink(log)
            if fs[0] and fs[1] < len(self.fsops):
                op, path = self.fsops[fs[1]]
                ev['fault'] = '%s at %d: %s %s' % (fs[0], fs[1], op, os.path.relpath(path, self.p.root))
                ev['killed'] = res.code == -9
                note['fault'] = ev['fault']
                if ev['killed']:
                    ev['e'] = 'crash'
        if cmd == 'status' and res.code == 0 and not LINES:
            ev['out'] = self.read_status(res.out)
            st = self.hist(prof).get('stage')
            # what is staged is told by its changes; nothing can be said about statements written by hand
            ev['plain'] = not st or len(st['up']) == len(st['changes']) and not any(s in SCRIPTS for s in st['up'])
            note['status'] = res.out[-1500:]
        post = self.event(ev, note)
        if res.code == 0 and cmd in ('stage', 'make', 'up', 'down', 'init'):
            ev['said'] = said.read(cmd, res.out, self.texts, self.sid)
            if cmd == 'init' and ev['said']['to']:
                ev['said']['to'] = 'here' if os.path.realpath(ev['said']['to']) == os.path.realpath(self.base) else 'elsewhere'
            note['said'] = res.out[-1500:]
        if cmd == 'status' and res.code == 0 and would and not LINES:
            ev['wouldok'], ev['would'] = self.would(prof, e)
        self.last = res
        return res

    def canon(self, sql):
        """id of a statement whatever the order of the columns in it"""
        ops = parse_stmt(sql)
        return self.id('~' + json.dumps(sorted(json.dumps(o, sort_keys=True) for o in ops)))

    def read_status(self, out):
        lines = out.split('\n')
        o = {'version': '', 'staged': [], 'unstaged': [], 'none': False}
        part, cur, blocks = 'version', None, {'staged': [], 'unstaged': []}
        for l in lines:
            if part == 'version' and l.startswith('On database version: ') and not o['version']:
                o['version'] = l[21:]
            elif l == 'Changes staged:':
                part = 'staged'
            elif l == 'Changes not staged:':
                part = 'unstaged'
            elif l == 'No changes.':
                o['none'], part = True, ''
            elif part == 'version' and o['version']:
                o['version'] += '\n' + l
            elif part in blocks:
                b = blocks[part]
                if STMT.match(l) or not b:
                    b.append(l.strip())
                elif l:
                    b[-1] += '\n' + l
        o['version'] = o['version'].rstrip('\n')
        o['staged'] = [self.sid(s) for s in blocks['staged']]
        o['unstaged'] = [self.canon(s) for s in blocks['unstaged']]
        return o

    def copy(self):
        d = tempfile.mkdtemp(prefix='copy', dir=scratch())
        shutil.copytree(self.p.root, d, dirs_exist_ok=True, symlinks=True)
        return d

    def keep(self):
        """everything below the project, to be put back"""
        d = tempfile.mkdtemp(prefix='keep', dir=scratch())
        shutil.rmtree(d)
        shutil.copytree(self.p.root, d, symlinks=True)
        return d

    def put_back(self, d, last=False):
        for n in os.listdir(self.p.root):
            x = os.path.join(self.p.root, n)
            shutil.rmtree(x) if os.path.isdir(x) and not os.path.islink(x) else os.unlink(x)
        shutil.copytree(d, self.p.root, dirs_exist_ok=True, symlinks=True)
        if last:
            shutil.rmtree(d)
        self.edit('everything put back')

    def there(self, d, env):
        """the environment for a copy at d: absolute paths lead into the copy"""
        return {k: v.replace(self.p.root, d) if isinstance(v, str) else v for k, v in env.items()}

    def adds(self, prof='database'):
        """how many changes stage would add, tried on a copy; -1 when it cannot"""
        d = self.copy()
        try:
            n = len(self.stage_of(prof)['changes'])
            h = os.path.join(d, self.home, self.profile(prof)['hist'], 'stage.yaml')
            was = slurp(h)
            res = self.p.run(*self.argv('stage', prof, ''), cwd=os.path.join(d, self.home), env=self.there(d, self.env))
            if res.ok and slurp(h) == was:
                return 0
            v = load_version(slurp(h)) if res.ok else None
            return -1 if v is None else len(v['changes']) - n
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def would(self, prof, env):
        """what stage would add, tried on a copy"""
        d = self.copy()
        try:
            h = os.path.join(d, self.home, self.profile(prof)['hist'], 'stage.yaml')
            n = len(self.stage_of(prof)['up'])
            base = os.path.join(d, self.home)
            was = slurp(h)
            res = self.p.run(*self.argv('stage', prof, ''), cwd=base, env=self.there(d, env))
            if res.ok and slurp(h) == was:
                return True, []
            v = load_version(slurp(h)) if res.ok else None
            return (False, []) if v is None else (True, [self.canon(s) for s in v['up'][n:]])
        finally:
            shutil.rmtree(d, ignore_errors=True)

    # ------------------------------------------------------------ reading the project
    def hist(self, prof='database'):
        d = self.path(self.profile(prof)['hist'])
        out = {}
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith('.yaml') and os.path.isfile(os.path.join(d, f)):
                with open(os.path.join(d, f), 'rb') as fh:
                    out[f[:-5]] = read_version(fh.read())
        return out

    def chain(self, prof='database'):
        """names init.. of the versions, without the stage"""
        h = self.hist(prof)
        by = {v.get('previous'): n for n, v in h.items() if v}
        out, n = [], by.get(None)
        while n is not None and n not in out and n != 'stage':
            out.append(n)
            n = by.get(n)
        return out

    def stage_of(self, prof='database'):
        """the stage as podo sees it: empty after an interrupted make"""
        h = self.hist(prof)
        v = h['stage']
        for n, m in h.items():
            if n != 'stage' and m and m.get('previous') == v.get('previous') and (m['changes'], m['up'], m['down']) == (v['changes'], v['up'], v['down']) and v['up']:
                return {'name': 'stage', 'previous': n, 'changes': [], 'up': [], 'down': []}
        return v

    def rows(self, prof='database'):
        x = self.profile(prof)
        return sorted(self.dbs[x['db']].ledgers().get(x['meta'], []), key=lambda r: r['applied_order'])

    def data(self, **f):
        return dict({'seed': self.seed, 'events': self.events, 'notes': self.notes, 'broken': self.broken, 'legend': self.ids}, **f)
