"""The systematic catalogs of spec/MCDiff.tla, replayed into podo: every pair of catalogs TLC visits is staged for real."""
import json, os, random, tempfile
from collections import defaultdict
from . import gen
from .proj import Proj, ToolError, scratch
from .tlc import tlc
from .content import Run


def explore(ctx, near, far, only='all'):
    """run TLC over MCDiff -> ({slice: [catalog]}, {slice: [(i, j)]})"""
    f = os.path.join(tempfile.mkdtemp(prefix='cats', dir=scratch()), 'cats.json')
    r = tlc('MCDiff', 'SPECIFICATION Spec\nINVARIANT DesignHolds\nCHECK_DEADLOCK FALSE\n',
            {'SLICE': only, 'CATS': f, 'SEED': ctx.seed, 'NEAR': near, 'FAR': far}, timeout=800)
    if not r.ok:
        raise ToolError('the design of staging does not hold in MCDiff:\n' + r.out[-3000:])
    ctx.model(r, 'MCDiff')
    pairs = defaultdict(list)
    for l in r.printed:
        p = l.split('|~|')
        if p[0] == 'PAIR':
            pairs[p[1]].append((int(p[2]) - 1, int(p[3]) - 1))
    return json.load(open(f)), pairs


def walks(pairs, seed, limit=9):
    """cover every pair (a, b) by walks a -> b -> c ... ; -> list of lists of catalog numbers"""
    r = random.Random(seed)
    nxt = defaultdict(list)
    for a, b in pairs:
        nxt[a].append(b)
    for l in nxt.values():
        r.shuffle(l)
    order = sorted(nxt)
    r.shuffle(order)
    out = []
    for a in order:
        while nxt[a]:
            w = [a]
            while len(w) <= limit and nxt[w[-1]]:
                w.append(nxt[w[-1]].pop())
            out.append(w)
    return out


def split_keys(s):
    out, d, cur, quoted = [], 0, '', False
    for c in s:
        if c == '"':
            quoted = not quoted
        if not quoted:
            d += (c == '(') - (c == ')')
            if c == ',' and d == 0:
                out.append(cur.strip())
                cur = ''
                continue
        cur += c
    return out + [cur.strip()]


def key_expr(k):
    """a canonical key text as a definition key: an operator expression needs its parentheses back"""
    if ' + ' in k or ' || ' in k:
        return '(%s)' % k
    return k


def to_yaml(objs):
    """abstract objects -> definition text, defaults left out"""
    schemas = {o['s']: [] for o in objs if o['k'] == 'schema'}
    tables = {}
    one = lambda l: l[0] if len(l) == 1 else list(l)
    for o in objs:
        if o['k'] == 'table':
            tables[o['s'], o['r']] = []
            schemas[o['s']].append(('table ' + o['r'], tables[o['s'], o['r']]))
    for o in sorted(objs, key=lambda o: o['k'] != 'column'):
        a = o['a']
        if o['k'] == 'column':
            tables[o['s'], o['r']].append(('column ' + o['n'], a['type'] + ('!' if a['notnull'] == 'true' else '') + (' = ' + a['default'] if a['default'] else '')))
        elif o['k'] in ('pk', 'uq', 'ck', 'fk'):
            p = {'pk': [('primary key', one(o['cols']))], 'uq': [('unique', one(o['cols']))], 'ck': [('check', a.get('expr'))], 'fk': [('foreign key', one(o['cols']))]}[o['k']]
            if o['k'] == 'fk':
                p.append(('references ' + ('' if o['ref']['s'] == o['s'] else o['ref']['s'] + '.') + o['ref']['r'], one(o['ref']['cols'])))
                p += [(k, a[f]) for k, f, d in (('match', 'match', 'SIMPLE'), ('on update', 'upd', 'NO ACTION'), ('on delete', 'del', 'NO ACTION')) if a[f] != d]
            p += [(k, True) for k, f in (('deferrable', 'deferrable'), ('initially deferred', 'deferred')) if a[f] == 'true']
            tables[o['s'], o['r']].append(('constraint ' + o['n'], p))
        elif o['k'] == 'view':
            schemas[o['s']].append(('view ' + o['r'], [('as', a['query'])]))
        elif o['k'] == 'index':
            p = [('on ' + o['ref']['r'], one([key_expr(k) for k in split_keys(a['keys'])]))]
            if a['unique'] == 'true':
                p.append(('unique', True))
            if a['method'] != 'btree':
                p.append(('using', a['method']))
            schemas[o['s']].append(('index ' + o['r'], p))
        elif o['k'] == 'sequence':
            p = [('as', a['type'])] + [(k, int(a[f])) for k, f in (('increment', 'inc'), ('minvalue', 'min'), ('maxvalue', 'max'), ('start', 'start'), ('cache', 'cache'))]
            schemas[o['s']].append(('sequence ' + o['r'], p + [('cycle', a['cycle'] == 'true')]))
        elif o['k'] == 'function':
            schemas[o['s']].append(('function %s(%s)' % (o['r'], o['a']['args']), [('as', a['body']), ('language', a['language']), ('returns', a['returns']), ('volatility', a['volatility'])]))
    lines = []
    gen.emit([('schema ' + s, body) for s, body in schemas.items()], 0, None, lines)
    return {'public.yaml': '\n'.join(lines) + '\n'}


def one_walk(exe, job):
    name, walk, cats = job
    run = Run(exe, '%s:%s' % (name, '-'.join(map(str, walk))))
    try:
        for k, c in enumerate(cats):
            if run.broken or run.stage_objs(c, to_yaml(c)) is None:
                break
            if run.events[-1]['changes'] and not run.make('v%d' % k, event='move'):
                break
        return {'seed': run.seed, 'events': run.events, 'notes': run.notes, 'broken': run.broken}
    finally:
        run.close()


def replay(ctx, cats, pairs):
    jobs = []
    for n in sorted(pairs):
        for w in walks(pairs[n], '%s-%s' % (ctx.seed, n)):
            jobs.append((n, w, [cats[n][i] for i in w]))
        ctx.add('catalog_pairs_replayed', len(pairs[n]))
    random.Random(ctx.seed).shuffle(jobs)
    return ctx.pmap(one_walk, jobs)
