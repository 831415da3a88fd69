"""C18: the same thing under plain and under hostile names. (1) Twin histories, judged by TraceNames.tla: what podo records
and writes for the renamed project is the renaming of what it records and writes for the plain one; (2) lives of projects
whose names and metadata schema are hostile, judged by Podo.tla; (3) clones of renamed databases, judged by Catalog.tla.
In (2) and (3) a clause that plain names break as well is not the names' fault and does not count here. The names are those
of MCNames.tla, every short string of characters that mean something to SQL, YAML or a shell, and a list of words."""
import json, os, random, tempfile
from . import clone, gen, lifegen
from .content import Run, version_event, judge
from .life import Life, simple
from .names import POOL
from .proj import ToolError, scratch
from .tlc import tlc, check_trace

MUTANTS = ['surround', 'escape', 'needed']
CFG = 'SPECIFICATION Spec\nINVARIANT Literal\nCHECK_DEADLOCK FALSE\n'
RESERVED = ['select', 'table', 'user', 'order', 'group', 'check', 'default', 'primary', 'references', 'column', 'constraint', 'from', 'all', 'and', 'as', 'asc', 'case', 'cast', 'collate', 'desc', 'distinct', 'do', 'else', 'end',
            'except', 'false', 'for', 'foreign', 'grant', 'having', 'in', 'into', 'leading', 'limit', 'not', 'null', 'offset', 'on', 'only', 'or', 'some', 'then', 'to', 'true', 'union', 'unique', 'using', 'when', 'where',
            'with', 'values', 'index', 'view', 'sequence', 'function', 'type', 'schema', 'owned by', 'initially deferred', 'primary key', 'match', 'language', 'public', 'version', 'name', 'cascade', 'nextval', 'pg_catalog']
WORDS = sorted(set(POOL + RESERVED + ['a' * 60, 'É' * 30, '日本語', 'Ω', 'ǅ', 'İstanbul', '😀', 'a\u0301', 'x' + '"' * 6, "'" * 5, '$a$', '${HOME}', '$HOME', 'E\'x\'', 'U&"x"', '\\x41', "a''b", 'a""b', '"a"', '"a"."b"', 'a.b', 'a.b.c', '(a)', 'f(x)',
                                       'NULL', '1', '0x1F', '-1', '.', '..', '/', '...', 'a/b', '; drop', "');--", '*/', 'nextval(\'s\')', '{}', '[]', '{a: b}', '- a', '? a', '! a', '& a', '* a', '| a', '> a', '%a', '@a', '`a', 'a: b', 'a #b', '<<', '=',
                                       'a!', 'a=b', 'a!=b', 'int4! = 1', 'A', 'Aa', 'aA', 'AA']))


PATTERNS = ['podo_meta', 'Podo_Meta', 'm_1', '_', '%', 'podo%', 'of.the_m']   # what LIKE or a pattern would read as something else


def spots(cat):
    """plain name -> kinds of things it names"""
    out = {}
    put = lambda n, k: out.setdefault(n, set()).add(k)
    for s in cat['schemas']:
        put(s, 'schema')
    for (s, t), tb in cat['tables'].items():
        put(s, 'schema'), put(t, 'table')
        for c in tb['cols']:
            put(c, 'column')
        for n, x in tb['cons'].items():
            put(n, x['k'])
    for kind, k in (('views', 'view'), ('indexes', 'index'), ('seqs', 'sequence'), ('funcs', 'function')):
        for s, n in cat[kind]:
            put(s, 'schema'), put(n.split('(')[0], k)
    return out


class Sigma:
    """plain name -> hostile name. Foreign keys name their target as schema.table in one word, and the arguments of a
    function follow its name in parentheses: such names are used where they can be told apart."""

    def __init__(self, seed, names, share=.8, taken=()):
        self.r, self.names, self.share = random.Random('sigma-%s' % seed), names, share
        self.map, self.used = {'public': 'public'}, {'public'} | set(taken)
        self.kinds = {}

    def see(self, cat):
        for n, k in spots(cat).items():
            self.kinds.setdefault(n, set()).update(k)
        for n in self.kinds:
            self(n)
        return self

    def fits(self, n, x):
        k = self.kinds.get(n, {'table', 'function'})
        return x not in self.used and not ('.' in x and k & {'schema', 'table'}) and not ('(' in x and 'function' in k) and not ('schema' in k and x.startswith('pg_')) and not (x in ('update', 'delete', 'version') and 'table' in k)

    def __call__(self, n):
        if n not in self.map:
            x = n
            for _ in range(20):
                if self.r.random() >= self.share:
                    break
                y = self.r.choice(WORDS) if self.r.random() < .4 else self.r.choice(self.names)
                if self.fits(n, y):
                    x = y
                    break
            while x in self.used:
                x += '_'
            self.map[n] = x
            self.used.add(x)
        return self.map[n]


# ------------------------------------------------------------ (1) twin histories
def small(v):
    e = version_event(v)
    return {k: e[k] for k in ('changes', 'ups', 'downs')}


def twin(exe, job):
    seed, names = job
    r = random.Random('twin-%s' % seed)
    a, b = Run(exe, 'plain-%s' % seed), Run(exe, 'twin-%s' % seed)
    m = Sigma(seed, names)
    events, notes, broken = [], [], []
    try:
        cats, cat = [], None
        for k in range(r.choice([1, 2, 3, 4])):
            new = gen.random_cat(r, r.choice([3, 8, 16])) if cat is None else gen.evolve(r, cat, r.choice([1, 3, 6, 12]))
            if new['schemas']:
                cat = new
                cats.append(cat)
                m.see(cat)
        for x in (a, b):
            if x.broken:
                return {'seed': seed, 'events': [], 'notes': [], 'broken': x.broken, 'kinds': {}}
        init = small(a.p.version('init'))
        events.append(dict(small(b.p.version('init')), ok=True, why='', again=0, defs=[], sigma={}, made=True, plain=dict(init, again=0, defs=[])))
        notes.append({'step': 'init'})
        for k, cat in enumerate(cats):
            hc = gen.rename(cat, m)
            pf = gen.render(cat)
            hf = gen.render(hc, r, r.choice([1, 1, 2])) if r.random() < .4 else gen.render(hc)
            v = a.stage_objs(gen.objs(cat), pf)
            if v is None:
                break
            w = b.stage_objs(gen.objs(hc), hf)
            note = {'step': 'stage', 'plain': a.notes[-1], 'renamed': b.notes[-1] if w else b.broken[-1][1]}
            ev = dict(ok=w is not None, why='' if w else str(b.broken[-1][1].get('output')), again=b.events[-1]['again'] if w else 0, defs=gen.objs(hc), sigma=dict(m.map), made=False,
                      plain=dict(small(v), again=a.events[-1]['again'], defs=gen.objs(cat)), **(small(w) if w else {'changes': [], 'ups': [], 'downs': []}))
            events.append(ev)
            notes.append(note)
            if w is None:
                break
            if v['changes'] and w['changes'] and r.random() < .7:
                if not a.make('v%d' % k):
                    break
                if not b.make('v%d' % k):
                    events.append(dict(ev, ok=False, why='make: ' + str(b.broken[-1][1])))
                    notes.append({'step': 'make', 'output': b.broken[-1][1]})
                    break
                ev['made'] = True
        return {'seed': seed, 'events': events, 'notes': notes, 'broken': broken, 'kinds': {m.map[n]: sorted(k) for n, k in m.kinds.items() if m.map.get(n) != n}}
    finally:
        a.close()
        b.close()


# ------------------------------------------------------------ (2) lives
class Hostile(Life):
    sigma = None

    def set_cat(self, cat, prof='database', r=None, event=True, text=None):
        if self.sigma is not None and text is None:
            cat2 = gen.rename(cat, self.sigma.see(cat))
            text = gen.render(cat2, r, 2) if r else gen.render(cat2)
        super().set_cat(cat, prof, r, event, text)


def life(exe, job):
    seed, names, hostile = job
    r = random.Random('twinlife-%s' % seed)
    meta = r.choice(PATTERNS) if hostile and r.random() < .3 else r.choice([w for w in WORDS if w not in ('public', 'pg_catalog') and '😀' not in w] + names) if hostile else 'podometa'
    with Hostile(exe, 'twinlife-%s' % seed, profiles=[{'name': 'database', 'hist': 'database/history', 'defs': 'database/definitions', 'db': 'main', 'meta': meta}]) as L:
        L.sigma = Sigma(seed, names, taken=[meta]) if hostile else None
        if L.start():
            lifegen.prepare(L, r, 'database', 6)
            w = lifegen.Walk(L, r, {'edit': 14, 'stage': 14, 'make': 12, 'up': 14, 'down': 10, 'badhist': 0, 'baddefs': 0, 'noprof': 0, 'subdir': 0})
            for _ in range(16):
                w.step()
        return L.data(kind='life', meta=meta)


# ------------------------------------------------------------ (3) clones
def cloned(exe, job):
    seed, names, hostile = job
    r = random.Random('twinclone-%s' % seed)
    cat = clone.live_catalog(r, r.choice([4, 12, 25]))
    meta = 'podo_meta'
    if hostile:
        meta = r.choice(RESERVED[:30] + ['m"x', "it's", 'Meta Data'])
        cat = gen.rename(cat, Sigma(seed, names, taken=[meta]).see(cat))
    return clone.CloneRun(exe, 'twinclone-%s' % seed, cat, r, meta, ledger=r.random() < .6, noise=False).go().data(kind='clone')


def broken_parts(runs):
    return [(x, len(x['notes']) - 1, 'C18.' + w, 'refused: ' + str(b.get('output') if isinstance(b, dict) else b)) for x in runs for w, b in x['broken']]


def lives_judged(ctx, runs):
    v, t = check_trace('TraceLife', [x['events'] for x in runs], env={'WANT': 'all'})
    ctx.traced(t, len(runs))
    return [(runs[a], b, c, d) for a, b, c, d in v] + broken_parts(runs)


def clones_judged(ctx, runs):
    return judge(ctx, runs, want='all') + broken_parts(runs)


def compare(ctx, what, f, judged, n, names, base):
    """hostile runs, and plain runs only when something is wrong"""
    runs = ctx.pmap(f, [(base + k, names, True) for k in range(n)])
    bad = judged(ctx, runs)
    if bad:
        plain = {c for _, _, c, _ in judged(ctx, ctx.pmap(f, [(base + k, names, False) for k in range(n)]))}
        ctx.add('plain_%s_compared' % what, n)
        bad = [x for x in bad if x[2] not in plain]
    for x, b, clause, detail in bad:
        ctx.violation(clause if clause.startswith('C18') else 'C18.' + clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail), {'seed': x['seed'], 'steps': x['notes'][:b + 1], 'legend': x.get('legend'), 'metadata_schema': x.get('meta')})
    ctx.add(what, len(runs))
    return runs


def all_names(ctx):
    f = os.path.join(tempfile.mkdtemp(prefix='names', dir=scratch()), 'names.json')
    t = tlc('MCNames', CFG, {'HOW': 'double', 'NAMES': f})
    if not t.ok:
        raise ToolError('MCNames:\n' + t.out[-3000:])
    ctx.model(t, 'MCNames')
    for m in MUTANTS:
        t = tlc('MCNames', CFG, {'HOW': m, 'NAMES': ''})
        if not t.invariant:
            raise ToolError('MCNames holds for names written as "%s": it shows nothing' % m)
        ctx.add('model_mistakes_refuted')
    return [n.replace('N', r) for n in json.loads(open(f).readline())['names'] for r in ['é']]


def check_names(ctx):
    names = all_names(ctx)
    q = ctx.quick
    base = ctx.seed * 1000000
    used = {}
    n = 420 if q else 12000
    for part in range(0, n, 420):
        runs = ctx.pmap(twin, [(base + k, names) for k in range(part, part + 420)])
        runs = [x for x in runs if x['events']]
        if not runs:
            raise ToolError('podo init does not work')
        v, t = check_trace('TraceNames', [x['events'] for x in runs])
        ctx.traced(t, len(runs))
        for a, b, clause, detail in v:
            x = runs[a]
            ctx.violation(clause, 'trace %s, step %d: %s' % (x['seed'], b + 1, detail), {'seed': x['seed'], 'steps': x['notes'][:b + 1], 'names': x['events'][b]['sigma']})
        for x in runs:
            ctx.add('twin_histories')
            ctx.add('twin_stages', len(x['events']) - 1)
            for w, k in x['kinds'].items():
                used.setdefault(w, set()).update(k)
        if not sum(len(x['events']) > 1 for x in runs) and not ctx.viols:
            raise ToolError('podo stages nothing: %s' % runs[0])
        for x in runs[:2]:
            ctx.sample(x['notes'][1:2])
        step = part // 420
        lives = compare(ctx, 'lives', life, lives_judged, 120 if q else 240, names, base + 600000 + 1000 * step)
        compare(ctx, 'clones', cloned, clones_judged, 120 if q else 240, names, base + 700000 + 1000 * step)
        ctx.add('commands_judged', sum(e['e'] != 'env' for x in lives for e in x['events']))
        if ctx.left(840) < 100:
            break
    ctx.count['names_used'] = len(used)
    ctx.count['names_in_positions'] = sum(map(len, used.values()))
