"""C12: what definition files may say and what they mean, spec/Definitions.tla.
(1) Every file set of spec/MCDefs.tla - everything that differs from well-formed definitions in one place - is staged in
podo; (2) the definitions of random catalogs, spelt and split in many ways, are staged and mean what Definitions.tla says
they mean, and spelling them differently afterwards stages nothing; (3) random definitions with random damage.
Whether files are well-formed and what they mean is decided by the specification alone (spec/TraceDefs.tla)."""
import copy, hashlib, json, os, random, re, shutil, tempfile
from . import gen
from .content import version_event
from .ddl import ctype, cexpr, check_refs, column_obj, fn_split, index_keys, obj, view_obj, B, clang
from .proj import Proj, ToolError, scratch
from .tlc import tlc, check_trace

KEYWORDS = ['foreign key', 'initially deferred', 'not null', 'on delete', 'on update', 'owned by', 'primary key', 'as', 'cache', 'check', 'column', 'constraint', 'cycle', 'default', 'deferrable',
            'function', 'volatility', 'increment', 'index', 'language', 'match', 'maxvalue', 'method', 'minvalue', 'on', 'references', 'returns', 'schema', 'sequence', 'start', 'table', 'type',
            'unique', 'using', 'view']
UNKNOWN = ['gadget', 'tablespace', 'columns', 'onn', 'primary', 'foreign', 'owned', 'initially', 'uniq', 'table_', 'checked', 'reference', 'comment', 'asc', 'indexes', 'schemas', 'viewport', 'not', '+', 'ünique', '"table"', 'where', 'include', 'collate', 'storage', 'inherits', 'partition', 'trigger', 'enum', 'domain', 'exclude', 'name', 'type_', 'options', 'temporary', 'Table', 'security']
VALUES = ['null', 'str', 'bool', 'int', 'names', 'empty', 'map', 'other']
OTHERS = ['1.5', '[1]', '[[a]]', '[a, 2]', '[true]', '99999999999999999999', '[null]', '[{a: b}]', '-.inf']
NOTYAML = ['schema public: [\n', '- schema public\n', 'schema public\n', '12\n', 'schema public: {}\nschema public: {}\n', '? [a, b]\n: c\n', '1: 2\n', 'true: {}\n', 'null: {}\n', 'schema public: {}\n---\nschema app: {}\n',
           'schema public:\n\ttable t: {}\n', 'schema public:\n  table t: {column a: int4\n', 'schema public: *nothing\n', 'schema public:\n  table t:\n    column a: int4\n   column b: int4\n', b'schema p\xffblic: {}\n',
           'schema public:\n  table t:\n    column a: int4\n    column a: int8\n', 'schema public:\n  table t: {}\n  table t: {}\n', '"schema public: {}\n', 'schema public:\n  table t:\n    1: int4\n', '@\n', '%\n', '\x00']


# ------------------------------------------------------------ trees
def key_of(text):
    """-> (keyword, name)"""
    low = text.lower()
    for k in sorted(KEYWORDS, key=lambda k: -len(k)):
        if low.startswith(k) and (len(low) == len(k) or low[len(k)].isspace()):
            return k, text[len(k):].strip()
    return '?', ''


def column_parts(text):
    """'type! = default' -> (type, not null, default) or None"""
    i = min([k for k in (text.find('='), text.find('!')) if k >= 0] + [len(text)])
    ty, rest = text[:i], text[i:]
    nn = rest[:1] == '!'
    rest = rest[1:] if nn else rest
    if not ty.strip():
        return None
    if not rest.strip() and '=' not in rest:
        return (ty.strip(), nn, None) if not rest or not nn else None
    rest = rest.lstrip()
    if rest[:1] != '=' or not rest[1:].strip():
        return None
    return ty.strip(), nn, rest[1:].strip()


def leaf(n, s, rel):
    """canonical SQL texts of a node; rel: the table it is in"""
    kw, v = n['kw'], n['v']
    x = {'t': '', 'refs': []}
    if kw == 'references':
        x['to'] = n['name'].split('.')
    if kw == 'function':
        f, a = fn_split(n['name'])
        x.update(f=f, args=a)
    if kw == 'column':
        p = column_parts(v) if n['k'] == 'str' else None
        x['ok'] = p is not None
        if p:
            o = column_obj(s, rel, n['name'], *p)
            x.update(o['a'], refs=o['refs'])
    elif n['k'] == 'str':
        if kw == 'check':
            x.update(t=cexpr(v), refs=check_refs(s, rel, v))
        elif kw in ('match', 'on update', 'on delete', 'volatility'):
            x['t'] = v.upper()
        elif kw == 'language':
            x['t'] = clang(v)
        elif kw == 'returns':
            x['t'] = ctype(v)
    if kw == 'on' and n['k'] in ('str', 'names') and n['list']:
        k, refs, cols = index_keys(n['list'])
        x.update(t=k, refs=[['column', s, n['name'], c] if isinstance(c, str) else c for c in refs], cols=cols)
    return x


def node(kw, name, value):
    n = {'kw': kw, 'name': name, 'k': 'null', 'v': '', 'list': [], 'kids': []}
    if isinstance(value, bool):
        n.update(k='bool', v=B(value))
    elif isinstance(value, int):
        n.update(k='int', v=str(value))
    elif isinstance(value, str):
        n.update(k='str', v=value, list=[value])
    elif isinstance(value, list) and value and isinstance(value[0], dict) or value == {}:
        n.update(k='map', kids=list(value))
    elif isinstance(value, list):
        n.update(k='names', list=list(value))
    return n


def tree(pairs):
    out = []
    for k, v in pairs:
        kw, name = key_of(k)
        m = isinstance(v, list) and (not v or isinstance(v[0], tuple)) and kw in ('schema', 'table', 'view', 'index', 'sequence', 'function', 'constraint')
        out.append(node(kw, name, (tree(v) or {}) if m else v))
    return out


def leaves(nodes, s='', rel='', within=''):
    for n in nodes:
        ns = n['name'] if n['kw'] == 'schema' else s
        nr = n['name'] if n['kw'] in ('table', 'view', 'index', 'sequence', 'function') else rel
        n['x'] = leaf(n, ns, nr)
        if n['kw'] == 'as' and n['k'] == 'str':
            if within == 'view':
                o = view_obj(s, rel, n['v'])
                n['x'].update(t=o['a']['query'], refs=o['refs'])
            elif within == 'sequence':
                n['x']['t'] = ctype(n['v'])
        leaves(n['kids'], ns, nr, n['kw'])


def build(cat, r=None, files=1):
    """definitions of a catalog -> [{'ok', 'nodes'}], one per file; a schema may be in several"""
    parts = [{} for _ in range(files)]
    pick = (lambda: r.choice(parts)) if r else (lambda: parts[0])
    for s in cat['schemas']:
        pick().setdefault(s, [])
    for s, nd in gen.cat_nodes(cat, r):
        pick().setdefault(s, []).append(nd)
    out = []
    for p in parts:
        pairs = []
        for s, nodes in p.items():
            if r and len(nodes) > 1 and r.random() < .25:
                # the same schema twice in one file
                k = r.randrange(1, len(nodes))
                pairs += [('schema ' + s, nodes[:k]), ('schema ' + s, nodes[k:])]
            else:
                pairs.append(('schema ' + s, nodes))
        if r:
            r.shuffle(pairs)
        out.append({'ok': True, 'nodes': tree(pairs)})
    for f in out:
        leaves(f['nodes'])
    return out


# ------------------------------------------------------------ text
class Render:
    def __init__(self, r=None):
        self.r = r

    def chance(self, p):
        return self.r is not None and self.r.random() < p

    def key(self, n, used):
        kw = n['kw']
        if kw == '?':
            kw = self.r.choice(UNKNOWN) if self.r else 'gadget'
        elif self.chance(.15):
            kw = self.r.choice([kw.upper(), kw.capitalize(), kw.title()])
        name = n['name']
        for k in range(40):
            t = kw + (' ' * (3 if self.chance(.05) else 1) + name if name else '')
            if t not in used:
                break
            kw = ''.join(c.upper() if k >> i & 1 else c.lower() for i, c in enumerate(kw[:5])) + kw[5:] if k else kw.upper()
        used.add(t)
        return gen.yscalar(t, self.r)

    def scalar(self, n):
        if n['k'] == 'other':
            return self.r.choice(OTHERS) if self.r else '1.5'
        if n['k'] == 'null':
            return self.r.choice(['', 'null', '~', 'Null']) if self.r else ''
        if n['k'] in ('bool', 'int'):
            return n['v']
        if n['k'] == 'str':
            return gen.yscalar(n['v'], self.r)
        if n['k'] == 'names':
            return '[%s]' % ', '.join(json.dumps(x, ensure_ascii=False) for x in n['list'])
        return '{}'

    def flow(self, nodes):
        used, out = set(), []
        for n in nodes:
            k = json.dumps(self.plainkey(n, used), ensure_ascii=False)
            out.append('%s: %s' % (k, self.flow(n['kids']) if n['k'] == 'map' else json.dumps(n['v'], ensure_ascii=self.chance(.5) and all(ord(c) < 0x10000 for c in n['v'])) if n['k'] == 'str' else self.scalar(n) or 'null'))
        return '{' + ', '.join(out) + '}'

    def plainkey(self, n, used):
        kw = n['kw'] if n['kw'] != '?' else (self.r.choice(UNKNOWN) if self.r else 'gadget')
        t = kw + (' ' + n['name'] if n['name'] else '')
        k = 1
        while t in used:
            kw = ''.join(c.upper() if k >> i & 1 else c.lower() for i, c in enumerate(kw[:5])) + kw[5:]
            t = kw + (' ' + n['name'] if n['name'] else '')
            k += 1
            if k > 40:
                break
        used.add(t)
        return t

    def block(self, nodes, ind, out):
        pad, used = ' ' * ind, set()
        step = self.r.choice([1, 2, 2, 4]) if self.r else 2
        for n in nodes:
            if self.chance(.05):
                out.append(self.r.choice(['', pad + '# comment', '   # x: y']))
            k = self.key(n, used)
            end = '  # why' if self.chance(.04) else ''
            if n['k'] == 'map' and n['kids']:
                if self.chance(.08):
                    out.append('%s%s: %s' % (pad, k, self.flow(n['kids'])))
                else:
                    out.append('%s%s:%s' % (pad, k, end))
                    self.block(n['kids'], ind + step, out)
            elif n['k'] == 'names' and n['list'] and self.chance(.4):
                out.append('%s%s:%s' % (pad, k, end))
                deep = pad + self.r.choice(['', '  '])
                for x in n['list']:
                    out.append('%s- %s' % (deep, gen.yscalar(x, self.r)))
            elif n['k'] == 'str' and self.r and '\n' in n['v'] and self.r.random() < .5 and n['v'].strip() == n['v'] and not re.search(r'\n[ \n]', n['v']):
                out.append('%s%s: |-' % (pad, k))
                out += [pad + '  ' + l for l in n['v'].split('\n')]
            else:
                out.append(('%s%s: %s' % (pad, k, self.scalar(n))).rstrip() + end)

    def file(self, f):
        if not f['ok']:
            return f['text']
        if not f['nodes']:
            return '{}\n'
        if self.chance(.12):
            t = self.flow(f['nodes']) + '\n'
        else:
            out = []
            self.block(f['nodes'], 0, out)
            t = '\n'.join(out) + '\n'
        if self.chance(.1):
            t = '---\n' + t
        if self.chance(.08) and '|-' not in t:
            t = t.replace('\n', '\r\n')
        return t

    def names(self, n):
        if self.r is None:
            return ['public.yaml'] if n == 1 else ['f%d.yaml' % i for i in range(n)]
        out = ['%s%s%d.yaml' % (self.r.choice(['', '', 'sub/', 'a/b/', 'dir.yaml/', 'with space/', 'ü/', '.hidden/', '_x/', 'a/b/c/d/e/', 'test/', 'history/']), self.r.choice(['a', 'b', 'x', 'Z', 'my file', 'ü', 'public', '_', '.', '~', '#', 'stage', 'x.yml', 'a.b']), i) for i in range(n)]
        if self.chance(.3):
            out[0] = 'public.yaml'
        return out


JUNK = {'README.md': 'schema public: broken [', 'old.yaml.bak': '- x\n', 'notes.txt': '', 'sub/data.json': '{', 'x.yml~': '['}


def write(p, files, render):
    """-> {relative path: text}"""
    d = p.path(p.defs)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    out = {}
    for name, f in zip(render.names(len(files)), files):
        out[name] = render.file(f)
    if render.chance(.25):
        for k in render.r.sample(sorted(JUNK), 2):
            out[k] = JUNK[k]
    for name, t in out.items():
        full = os.path.join(d, name)
        os.makedirs(os.path.dirname(full), exist_ok=True)
        with open(full, 'wb') as fh:
            fh.write(t if isinstance(t, bytes) else t.encode())
    return {k: t if isinstance(t, str) else repr(t) for k, t in out.items()}


# ------------------------------------------------------------ damage
def spots(files):
    """every list of entries: (list, kind of what contains it)"""
    out = []

    def go(nodes, kind):
        out.append((nodes, kind))
        for n in nodes:
            if n['k'] == 'map':
                go(n['kids'], n['kw'])
    for f in files:
        go(f['nodes'], 'top')
    return out


def arbitrary(r):
    kw = r.choice(KEYWORDS + ['?'] * 4)
    return revalue(r, node(kw, r.choice(['', '', 'z', 'n', 'a b']), None))


def revalue(r, n):
    v = r.choice(VALUES)
    x = node(n['kw'], n['name'], {'null': None, 'str': r.choice(['int8', 'a', 'true']), 'bool': True, 'int': r.choice([0, 1, -3]), 'names': ['a'], 'empty': [], 'map': {}, 'other': None}[v])
    if v == 'other':
        x['k'] = 'other'
    return x


def damage(r, files):
    S = spots(files)
    some = [(l, k) for l, k in S if l]
    op = r.choice(['insert', 'insert', 'remove', 'twice', 'elsewhere', 'value', 'value', 'name', 'unname', 'kw', 'move', 'same', 'column', 'file'])
    if op == 'insert' or not some:
        l, _ = r.choice(S)
        l.insert(r.randrange(len(l) + 1), arbitrary(r))
        return
    l, kind = r.choice(some)
    i = r.randrange(len(l))
    if op == 'remove':
        del l[i]
    elif op == 'twice':
        l.insert(r.randrange(len(l) + 1), copy.deepcopy(l[i]))
    elif op in ('elsewhere', 'move'):
        m, _ = r.choice([x for x in S if x[1] == kind] if r.random() < .6 else S)
        n = copy.deepcopy(l[i])
        if op == 'move':
            del l[i]
        m.append(n)
    elif op == 'value':
        l[i] = revalue(r, l[i])
    elif op == 'name':
        l[i]['name'] = r.choice(['z', 'a.b', 'a.b.c', 'deferred', 'key'])
    elif op == 'unname':
        l[i]['name'] = ''
    elif op == 'kw':
        l[i]['kw'] = r.choice(KEYWORDS + ['?'])
    elif op == 'same':
        j = r.randrange(len(l))
        l[i]['name'] = l[j]['name']
    elif op == 'column':
        for n in l:
            if n['kw'] == 'column' and n['k'] == 'str':
                n['v'] = r.choice(['', ' ', '!', ' !', '= 1', '!= 1', 'int4!!', 'int4! !', 'int4!x', 'int4 =', 'int4 = ', 'int4!=', 'int4 = \n', 'int4! = !', 'int4=1', 'int4!=1', ' int4 ', 'int4  !  =  1'])
                n['list'] = [n['v']]
                break
    elif op == 'file':
        t = r.choice(NOTYAML)
        files.insert(r.randrange(len(files) + 1), {'ok': False, 'nodes': [], 'text': t})


def clear(files):
    """what these checks leave alone: types of sequences that do not exist, sequences owned by a column"""
    for l, kind in spots(files):
        for n in l:
            if kind == 'sequence' and (n['kw'] == 'as' and n['k'] == 'str' and n['v'] not in ('int2', 'int4', 'int8') or n['kw'] == 'owned by'):
                return False
            if n['kw'] == 'column' and n['name'] == '' and n['k'] == 'str' and kind != 'table':
                return False
    return True


# ------------------------------------------------------------ projects
class Bench:
    """one project whose definitions are replaced again and again"""

    def __init__(self, exe, seed):
        self.p, self.seed = Proj(exe), seed
        self.events, self.notes, self.broken = [], [], []
        self.tip = [obj('schema', 'public')]
        r = self.p.run('init')
        if not r.ok or not self.p.version('stage'):
            self.broken.append(('init', r.brief()))
        self.keep()

    def keep(self):
        self.saved = {k: v for k, v in self.p.files().items() if not k.startswith(self.p.defs)}

    def back(self):
        d = self.p.path(self.p.hist)
        shutil.rmtree(d, ignore_errors=True)
        for k, raw in self.saved.items():
            os.makedirs(os.path.dirname(self.p.path(k)), exist_ok=True)
            with open(self.p.path(k), 'wb') as f:
                f.write(raw)

    def stage(self, files, render, deep, objs=None, respelt=None):
        text = write(self.p, files, render)
        before = self.p.version('stage')
        was = {k: v for k, v in self.p.files().items() if not k.startswith(self.p.defs)}
        res = self.p.run('stage', timeout=20)
        now = {k: v for k, v in self.p.files().items() if not k.startswith(self.p.defs)}
        st = self.p.version('stage')
        spec = [{'ok': f['ok'], 'nodes': f['nodes']} for f in files]
        ev = {'e': 'defs', 'files': spec, 'code': res.code if res.code is not None else -999, 'timeout': res.timeout, 'err': bool(res.err.strip()), 'same': was == now,
              'change': ', '.join(k for k in sorted(set(was) | set(now)) if was.get(k) != now.get(k)), 'deep': False, 'tip': self.tip, 'changes': [], 'objs': objs or []}
        if res.ok and st is not None and before is not None:
            if respelt is not None:
                ev.update(e='respelt', before=respelt, more=len(st['changes']) - len(before['changes']))
            elif deep:
                ev.update(deep=True, changes=version_event(st)['changes'])
        elif respelt is not None:
            ev.update(e='respelt', before=respelt, more=0)
        self.events.append(ev)
        self.notes.append({'definitions': text, 'output': res.brief(), 'staged': st['changes'] if st and res.ok else None})
        return spec

    def data(self):
        d = {'seed': self.seed, 'events': self.events, 'notes': self.notes, 'broken': self.broken}
        self.p.close()
        return d


def cases(exe, job):
    """files of MCDefs.tla"""
    seed, part = job
    r = random.Random('defs-cases-%s' % seed)
    b = Bench(exe, 'cases-%s' % seed)
    for files in part if not b.broken else []:
        for f in files:
            if not f['ok']:
                f['text'] = r.choice(NOTYAML)
        b.stage(files, Render(r if r.random() < .5 else None), False)
        b.back()
    return b.data()


def meanings(exe, seed):
    """catalogs written in many ways"""
    r = random.Random('defs-means-%s' % seed)
    b = Bench(exe, 'meanings-%s' % seed)
    for _ in range(4 if not b.broken else 0):
        cat = gen.random_cat(r, r.choice([2, 6, 12, 20]))
        if not cat['schemas']:
            continue
        o = gen.objs(cat)
        spec = b.stage(build(cat), Render(), True, o)
        for _ in range(2):
            b.stage(build(cat, r, r.choice([1, 1, 2, 4])), Render(r), True, o, respelt=spec)
        b.back()
        for _ in range(2):
            spec = b.stage(build(cat, r, r.choice([1, 2, 3, 5])), Render(r), True, o)
            if r.random() < .5:
                b.stage(build(cat), Render(), True, o, respelt=spec)
            b.back()
    return b.data()


def damaged(exe, seed):
    """definitions with something wrong with them, over a project with versions and a stage"""
    r = random.Random('defs-bad-%s' % seed)
    b = Bench(exe, 'damaged-%s' % seed)
    if b.broken:
        return b.data()
    cat = gen.random_cat(r, 4)
    for k in range(r.choice([0, 1, 2])):
        if cat['schemas']:
            b.p.set_defs(gen.render(cat))
            b.p.run('stage')
            if k == 0:
                b.p.run('make', '--version', 'v%d' % k)
        cat = gen.evolve(r, cat, 2)
    b.keep()
    for _ in range(20):
        cat = gen.random_cat(r, r.choice([2, 6, 12]))
        files = build(cat, r, r.choice([1, 1, 2, 3]))
        for _ in range(r.choice([1, 1, 1, 2])):
            damage(r, files)
        if not clear(files):
            continue
        for f in files:
            leaves(f['nodes'])
        b.stage(files, Render(r), False)
        b.back()
    return b.data()


def check_defs(ctx):
    f = os.path.join(tempfile.mkdtemp(prefix='defs', dir=scratch()), 'cases.ndjson')
    t = tlc('MCDefs', 'SPECIFICATION Spec\nINVARIANT OrderFree SplitFree OneEach\nCHECK_DEADLOCK FALSE\n', {'CASES': f})
    if not t.ok:
        raise ToolError('MCDefs:\n' + t.out[-3000:])
    ctx.model(t, 'MCDefs')
    every = [json.loads(l)['files'] for l in open(f)]
    if not ctx.quick:
        every = every * 6
    random.Random(ctx.seed).shuffle(every)
    base = ctx.seed * 1000000
    runs = ctx.pmap(cases, [(base + k, every[k:k + 60]) for k in range(0, len(every), 60)])
    ctx.add('systematic_definitions', len(every))
    n = 120 if ctx.quick else 3000
    runs += ctx.pmap(meanings, [base + k for k in range(n)])
    runs += ctx.pmap(damaged, [base + k for k in range(2 * n)])
    ok = 0
    for k in range(0, len(runs), 400):
        part = [x for x in runs[k:k + 400] if x['events']]
        v, t = check_trace('TraceDefs', [x['events'] for x in part], env={'WANT': ctx.prop})
        ctx.traced(t, len(part))
        for a, b, clause, detail in v:
            x = part[a]
            if clause.startswith('TOOL'):
                raise ToolError('Definitions.tla and the generator disagree: %s %s\n%s' % (clause, detail, json.dumps(x['notes'][b], ensure_ascii=False)[:3000]))
            ctx.violation(clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail + ' :: ' + json.dumps(x['notes'][b], ensure_ascii=False)[:400]), {'seed': x['seed'], 'step': x['notes'][b], 'before': x['notes'][b - 1] if x['events'][b]['e'] == 'respelt' else None, 'files': x['events'][b]['files']})
    for x in runs:
        for e in x['events']:
            ctx.add('definitions_judged')
            ctx.add('definitions_accepted' if e['code'] == 0 else 'definitions_refused')
            if e['deep'] or e['e'] == 'respelt':
                ctx.add('meanings_compared')
            ok += e['code'] == 0
    if not ok and not ctx.viols:
        raise ToolError('podo accepts no definitions at all: %s' % (runs[0]['broken'] or runs[0]['notes'][:1]))
    for x in runs[:1] + runs[-1:]:
        for s in x['notes'][:2]:
            ctx.sample(s)
