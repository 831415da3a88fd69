"""Definition catalogs: random generation, evolution, well-formedness, known-finding avoidance, renaming, YAML rendering."""
import copy, json, random, re
from .ddl import obj, B, seq_attrs, column_obj, function_obj, index_obj, view_obj, cexpr, check_refs, NOREF
from .sqllex import RESERVED


# words that are read as something else in some places
KEYWORDS = RESERVED | set("""authorization binary collation concurrently cross freeze full ilike inner is isnull join left like natural notnull outer overlaps right similar tablesample verbose
between bigint bit boolean char character coalesce dec decimal exists extract float greatest grouping inout int integer interval json least national nchar none normalize nullif numeric out overlay position precision real
row setof smallint substring time timestamp treat trim values varchar xmlattributes xmlconcat xmlelement xmlexists xmlforest xmlnamespaces xmlparse xmlpi xmlroot xmlserialize xmltable""".split())


def q(name, always=False):
    """identifier as SQL text"""
    if not always and re.fullmatch(r'[a-z_][a-z0-9_]*', name) and name not in KEYWORDS:
        return name
    return '"' + name.replace('"', '""') + '"'


def empty(schemas=('public',)):
    return {'schemas': list(schemas), 'tables': {}, 'views': {}, 'indexes': {}, 'seqs': {}, 'funcs': {}}


FAM = {'int': ['int4', 'int8', 'int2', 'integer', 'bigint'], 'num': ['numeric(10,2)', 'numeric', 'numeric(10,3)', 'numeric(12, 4)'], 'text': ['text', 'varchar(20)', 'varchar(200)', 'character varying(40)'],
       'bool': ['bool', 'boolean'], 'ts': ['timestamptz', 'timestamp', 'timestamp with time zone'], 'date': ['date'], 'uuid': ['uuid'], 'json': ['jsonb', 'json'],
       'texta': ['text[]'], 'inta': ['int4[]'], 'byte': ['bytea']}
FAMW = ['int'] * 6 + ['text'] * 5 + ['num', 'bool', 'bool', 'ts', 'date', 'uuid', 'json', 'texta', 'inta', 'byte']
DEFAULTS = {'int': ['0', '42', '-1', '(1 + 2)', '0::int8', "'7'"], 'num': ['0', '3.14', '1e3'], 'text': ["''", "'a'", "'it''s'", "lower('X')", "'x'::text", "'a = b'", "'no!'", "concat('a', 'b')", "'line1\nline2'", "E'\\\\n'", "'--'", "'a;b'"],
            'bool': ['true', 'false', '(1 = 1)'], 'ts': ['now()', 'current_timestamp', "'2020-01-01'"], 'date': ["'2020-01-01'", "'2020-01-01'::date", 'current_date'],
            'uuid': ['gen_random_uuid()'], 'json': ["'{}'", "'{\"a\": [1]}'::jsonb"], 'texta': ["'{}'", "array['x']::text[]"], 'inta': ["'{1,2}'"], 'byte': ["'\\x00'"]}
CHECKS = {'int': ['{0} > 0', '{0} between 1 and 9', '{0} in (1, 2, 3)', '({0} > 0) or ({0} < -5)', '{0} <> 3', 'abs({0}) < 10'], 'num': ['{0} >= 0', '({0} + 1) > 0'],
          'text': ["{0} <> ''", "length({0}) > 2", "{0} like 'a%'", "{0} is not null", "{0} ~ '^[a-z]+$'", "{0} <> 'a b'"], 'bool': ['{0}', 'not {0}', '{0} is true']}
RULES = ['NO ACTION', 'CASCADE', 'SET NULL', 'RESTRICT', 'SET DEFAULT']
SN = ['public', 'app', 'audit']
TN = ['users', 'orders', 'items', 'tags', 'logs']
CN = ['id', 'ref', 'name', 'amount', 'kind', 'code', 'note', 'flag']


def fam(t):
    for f, ts in FAM.items():
        if t in ts:
            return f
    return 'other'


def pick_col(r):
    f = r.choice(FAMW)
    d = None
    if r.random() < .35:
        d = ('lit', r.choice(DEFAULTS[f]))
    return {'type': r.choice(FAM[f]), 'nn': r.random() < .4, 'default': d}


def pick_seq(r):
    a = {}
    if r.random() < .4:
        a['type'] = r.choice(['int2', 'int4', 'int8'])
    if r.random() < .4:
        a['inc'] = r.choice([2, -1, 5, 1, -3])
    if r.random() < .3:
        a['max'] = r.choice([100, 1000, 32767]) if a.get('inc', 1) > 0 else r.choice([-1, 10])
    if r.random() < .3:
        a['min'] = r.choice([-5, 1, 2]) if a.get('inc', 1) > 0 else r.choice([-100, -32768])
    if r.random() < .3:
        a['start'] = {True: r.choice([5, 10, 100]), False: r.choice([-1, -2, -50])}[a.get('inc', 1) > 0]
    if r.random() < .3:
        a['cache'] = r.choice([1, 10, 20])
    if r.random() < .3:
        a['cycle'] = r.random() < .5
    try:
        seq_full(a)
    except Exception:
        return {}
    return a


def seq_full(a):
    return seq_attrs(a.get('type'), a.get('inc'), a.get('min'), a.get('max'), a.get('start'), a.get('cache'), a.get('cycle', False))


def pick_func(r):
    lang = r.choice([None, 'SQL', 'plpgsql', 'sql'])
    body = r.choice(['SELECT 1;', 'select 2', "select 'a''b';", 'SELECT $1', 'select $$x$$', '\nSELECT 1,\n  2;\n', 'select 1 -- $', 'select $podo$ $$ $podo$ -- $podo']) if lang != 'plpgsql' else r.choice(
        ['BEGIN RETURN 3; END', 'BEGIN\n  RETURN 1;\nEND;'])
    return {'body': body, 'language': lang, 'returns': r.choice([None, 'int4', 'text', 'integer', 'setof int4']), 'volatility': r.choice([None, 'STABLE', 'IMMUTABLE', 'VOLATILE'])}


def pick_key(r, cols):
    c = r.choice(list(cols))
    f = fam(cols[c]['type'])
    x = r.random()
    k = {'tmpl': '{0}', 'cols': [c], 'desc': False, 'nulls': None}
    if f == 'text' and x < .25:
        k['tmpl'] = r.choice(['lower({0})', '(lower({0}))', '({0} || \'x\')'])
    elif f == 'int' and x < .15:
        k['tmpl'] = '({0} + 1)'
    if r.random() < .25:
        k['desc'] = True
    if r.random() < .15:
        k['nulls'] = r.choice(['first', 'last'])
    return k


def key_text(k, always=False):
    t = k['tmpl'].format(*[q(c, always) for c in k['cols']])
    if k['desc']:
        t += ' DESC'
    if k['nulls']:
        t += ' NULLS ' + k['nulls'].upper()
    return t


def default_text(d):
    if d is None:
        return None
    if d[0] == 'lit':
        return d[1]
    s = '%s.%s' % (q(d[1]), q(d[2]))
    return "nextval('%s'::regclass)" % s.replace("'", "''")


def check_text(c):
    return c['tmpl'].format(*[q(x) for x in c['cols']])


def view_text(v):
    """v: rel (s,t), cols, join None or (rel, c1, c2), where None or (tmpl, col), style"""
    if v['join'] is None and v.get('bare'):
        s = 'select %s from %s.%s' % (', '.join(q(c) for c in v['cols']), q(v['rel'][0]), q(v['rel'][1]))
        if v['where']:
            s += ' where ' + v['where'][0].format(q(v['where'][1]))
        return s
    s = 'SELECT %s\nFROM %s.%s x' % (', '.join('x.' + q(c) for c in v['cols']), q(v['rel'][0]), q(v['rel'][1]))
    if v['join']:
        s += '\nJOIN %s.%s y ON y.%s = x.%s' % (q(v['join'][0][0]), q(v['join'][0][1]), q(v['join'][2]), q(v['join'][1]))
    if v['where']:
        s += '\nWHERE ' + v['where'][0].format('x.' + q(v['where'][1]))
    return s


# ------------------------------------------------------------------ abstract objects
def objs(cat):
    out = [obj('schema', s) for s in cat['schemas']]
    for (s, t), tb in cat['tables'].items():
        out.append(obj('table', s, t))
        for c, x in tb['cols'].items():
            out.append(column_obj(s, t, c, x['type'], x['nn'], default_text(x['default'])))
        for n, x in tb['cons'].items():
            d = {'deferrable': B(x.get('deferrable', False)), 'deferred': B(x.get('deferred', False))}
            if x['k'] in ('pk', 'uq'):
                out.append(obj(x['k'], s, t, n, x['cols'], None, d))
            elif x['k'] == 'ck':
                e = check_text(x)
                out.append(obj('ck', s, t, n, (), None, dict(d, expr=cexpr(e)), check_refs(s, t, e)))
            else:
                out.append(obj('fk', s, t, n, x['cols'], {'s': x['ref'][0], 'r': x['ref'][1], 'cols': list(x['rcols'])},
                               dict(d, match=x.get('match', 'SIMPLE'), upd=x.get('upd', 'NO ACTION'), **{'del': x.get('del', 'NO ACTION')})))
    for (s, v), x in cat['views'].items():
        out.append(view_obj(s, v, view_text(x)))
    for (s, i), x in cat['indexes'].items():
        out.append(index_obj(s, i, x['table'], [key_text(k) for k in x['keys']], x['unique'], x['method']))
    for (s, n), x in cat['seqs'].items():
        own = x.get('own')
        out.append(obj('sequence', s, n, '', (), {'s': s, 'r': own[0], 'cols': [own[1]]} if own else None, seq_full(x),
                       [['column', s, own[0], own[1]]] if own else []))
    for (s, f), x in cat['funcs'].items():
        out.append(function_obj(s, f, x['body'], x['language'] or 'SQL', x['returns'] or 'void', x['volatility'] or 'VOLATILE'))
    return sorted(out, key=lambda o: (o['k'], o['s'], o['r'], o['n']))


# ------------------------------------------------------------------ well-formedness
def keys_of(cat, rel):
    """non-deferrable keys of a table: list of (name, frozenset cols)"""
    out = []
    tb = cat['tables'].get(rel)
    if tb:
        for n, x in tb['cons'].items():
            if x['k'] in ('pk', 'uq') and not x.get('deferrable'):
                out.append((n, tuple(x['cols'])))
    for (s, i), x in cat['indexes'].items():
        if s == rel[0] and x['table'] == rel[1] and x['unique'] and all(k['tmpl'] == '{0}' for k in x['keys']):
            out.append((i, tuple(k['cols'][0] for k in x['keys'])))
    return out


def taken(cat, s):
    names = [n for (s2, n) in list(cat['tables']) + list(cat['views']) + list(cat['indexes']) + list(cat['seqs']) if s2 == s]
    for (s2, t), tb in cat['tables'].items():
        if s2 == s:
            names += [n for n, x in tb['cons'].items() if x['k'] in ('pk', 'uq')]
    return names


def repair(cat):
    """drop or fix whatever does not describe a creatable catalog"""
    for kind in ('tables', 'views', 'indexes', 'seqs', 'funcs'):
        cat[kind] = {k: v for k, v in cat[kind].items() if k[0] in cat['schemas']}
    seen = set()
    for kind in ('tables', 'seqs', 'views', 'indexes'):
        for k in list(cat[kind]):
            if k in seen:
                del cat[kind][k]
            seen.add(k)
    for (s, t), tb in cat['tables'].items():
        for c, x in tb['cols'].items():
            if x['default'] and x['default'][0] == 'seq' and (x['default'][1:] not in cat['seqs'] or fam(x['type']) not in ('int', 'num')):
                x['default'] = None
        pk = False
        colsets = set()
        for n in list(tb['cons']):
            x = tb['cons'][n]
            if any(c not in tb['cols'] for c in x['cols']) or len(set(x['cols'])) != len(x['cols']) or not x['cols']:
                del tb['cons'][n]
                continue
            if x['k'] == 'ck' and fam(tb['cols'][x['cols'][0]]['type']) != x['fam']:
                del tb['cons'][n]
                continue
            if x['k'] in ('pk', 'uq'):
                if (x['k'] == 'pk' and pk) or frozenset(x['cols']) in colsets or (s, n) in seen:
                    del tb['cons'][n]
                    continue
                seen.add((s, n))
                colsets.add(frozenset(x['cols']))
                if x['k'] == 'pk':
                    pk = True
                    for c in x['cols']:
                        tb['cols'][c]['nn'] = True
            if x.get('deferred') and not x.get('deferrable'):
                x['deferrable'] = True
    for k in list(cat['indexes']):
        x = cat['indexes'][k]
        tb = cat['tables'].get((k[0], x['table']))
        if not tb or any(c not in tb['cols'] for kk in x['keys'] for c in kk['cols']):
            del cat['indexes'][k]
            continue
        if any('lower' in kk['tmpl'] or '||' in kk['tmpl'] for kk in x['keys'] for c in kk['cols'] if fam(tb['cols'][c]['type']) != 'text') or \
                any('+' in kk['tmpl'] for kk in x['keys'] for c in kk['cols'] if fam(tb['cols'][c]['type']) != 'int'):
            del cat['indexes'][k]
            continue
        if x['unique'] and all(kk['tmpl'] == '{0}' for kk in x['keys']):
            cs = frozenset(kk['cols'][0] for kk in x['keys'])
            dup = [n for n, c2 in keys_of(cat, (k[0], x['table'])) if frozenset(c2) == cs and n != k[1]]
            dup += [n for n, c in tb['cons'].items() if c['k'] in ('pk', 'uq') and frozenset(c['cols']) == cs]
            if dup or len(cs) != len(x['keys']):
                x['unique'] = False
    for (s, t), tb in cat['tables'].items():
        for n in list(tb['cons']):
            x = tb['cons'][n]
            if x['k'] != 'fk':
                continue
            ks = [c for _, c in keys_of(cat, x['ref'])]
            ok = x['ref'] in cat['tables'] and any(set(c) == set(x['rcols']) and len(c) == len(x['rcols']) for c in ks) and len(x['cols']) == len(x['rcols'])
            if ok:
                rt = cat['tables'][x['ref']]['cols']
                ok = all(fam(tb['cols'][a]['type']) == fam(rt[b]['type']) for a, b in zip(x['cols'], x['rcols']))
            if not ok:
                del tb['cons'][n]
    # what calls a function needs it; a function over the rows of a table needs the table
    for k in list(cat['funcs']):
        if 'rows' in cat['funcs'][k] and cat['funcs'][k]['rows'] not in cat['tables']:
            del cat['funcs'][k]
    for tb in cat['tables'].values():
        for n in [n for n, x in tb['cons'].items() if 'fn' in x and x['fn'] not in cat['funcs']]:
            del tb['cons'][n]
    for k in list(cat['indexes']):
        if any('fn' in kk and (kk['fn'] not in cat['funcs'] or fam(cat['tables'][k[0], cat['indexes'][k]['table']]['cols'][kk['cols'][0]]['type']) != kk['fam']) for kk in cat['indexes'][k]['keys']):
            del cat['indexes'][k]
    for v in cat['views'].values():
        if v['where'] and len(v['where']) > 3 and v['where'][3] not in cat['funcs']:
            v['where'] = None
    for k in list(cat['views']):
        v = cat['views'][k]
        tb = cat['tables'].get(v['rel'])
        ok = tb and all(c in tb['cols'] for c in v['cols']) and v['cols']
        if ok and v['where']:
            ok = v['where'][1] in tb['cols'] and fam(tb['cols'][v['where'][1]]['type']) == v['where'][2]
        if ok and v['join']:
            t2 = cat['tables'].get(v['join'][0])
            ok = t2 and v['join'][1] in tb['cols'] and v['join'][2] in t2['cols'] and fam(tb['cols'][v['join'][1]]['type']) == fam(t2['cols'][v['join'][2]]['type'])
        if not ok:
            del cat['views'][k]
    return cat


# ------------------------------------------------------------------ random catalogs and edits
def add_table(r, cat):
    s = r.choice(cat['schemas'])
    t = r.choice(TN)
    if t in taken(cat, s):
        return
    cols = {}
    for c in r.sample(CN, r.randint(1, 5)):
        cols[c] = pick_col(r)
    if 'id' in cols or r.random() < .5:
        cols = dict([('id', {'type': r.choice(['int4', 'int8', 'uuid', 'text']), 'nn': True, 'default': None})] + [(k, v) for k, v in cols.items() if k != 'id'])
    cat['tables'][s, t] = {'cols': cols, 'cons': {}}
    if 'id' in cols and r.random() < .7:
        cat['tables'][s, t]['cons'][t + '_pkey'] = {'k': 'pk', 'cols': ['id']}


def some_table(r, cat):
    return r.choice(list(cat['tables'])) if cat['tables'] else None


def edit(r, cat, deps=False):
    e = e_calls if deps and r.random() < .2 else r.choice(EDITS)
    e(r, cat)


CALLED = {'int': ['okint(a int4)', 'normint(a int4)'], 'text': ['oktext(a text)', 'normtext(a text)']}


def e_calls(r, cat):
    """functions that checks, indexes and views call, and functions over the rows of a table"""
    k = some_table(r, cat)
    if not k:
        return
    if r.random() < .3:
        s = r.choice(cat['schemas'])
        rows = '%s.%s' % (q(k[0]), q(k[1]))
        f, ret = r.choice([('of_%s(u %s)' % (k[1], rows), 'text'), ('all_%s()' % k[1], 'SETOF ' + rows), ('one_%s(a int4)' % k[1], rows)])
        cat['funcs'][s, f] = {'body': 'BEGIN RETURN null; END', 'language': 'plpgsql', 'returns': ret, 'volatility': r.choice([None, 'STABLE']), 'rows': k}
        return
    tb = cat['tables'][k]
    cs = [c for c in tb['cols'] if fam(tb['cols'][c]['type']) in CALLED]
    if not cs:
        return
    c = r.choice(cs)
    f = fam(tb['cols'][c]['type'])
    use = r.choice(['ck', 'ck', 'index', 'view'])
    s, name = r.choice(cat['schemas']), CALLED[f][use == 'index']
    have = [(x, n) for x, n in cat['funcs'] if n == name]
    if have and r.random() < .6:
        s = r.choice(have)[0]
    fn = (s, name)
    cat['funcs'].setdefault(fn, {'body': 'BEGIN RETURN null; END', 'language': 'plpgsql', 'returns': f.replace('int', 'int4') if use == 'index' else 'bool', 'volatility': 'IMMUTABLE'})
    tmpl = '%s.%s({0})' % (q(s), name[:name.index('(')])
    if use == 'ck':
        tb['cons'][r.choice(['%s_%s_check' % (k[1], c), k[1] + '_ck'])] = {'k': 'ck', 'cols': [c], 'tmpl': r.choice(['%s', 'not %s', '(%s is not null)']) % tmpl, 'fam': f, 'fn': fn}
    elif use == 'index':
        n = r.choice([k[1] + '_idx', k[1] + '_idx2'])
        if (k[0], n) in cat['indexes'] or n not in taken(cat, k[0]):
            cat['indexes'][k[0], n] = {'table': k[1], 'unique': False, 'method': 'btree', 'keys': [{'tmpl': tmpl, 'cols': [c], 'desc': r.random() < .3, 'nulls': None, 'fn': fn, 'fam': f}]}
    else:
        v = (r.choice(cat['schemas']), 'v_' + k[1])
        if v in cat['views'] or v[1] not in taken(cat, v[0]):
            cat['views'][v] = {'rel': k, 'cols': [c], 'join': None, 'where': (tmpl, c, f, fn), 'bare': r.random() < .4}


def callers(cat):
    """(function, what calls it)"""
    out = []
    for k, tb in cat['tables'].items():
        out += [(x['fn'], ('ck', k, n, x['tmpl'], tuple(x['cols']))) for n, x in tb['cons'].items() if 'fn' in x]
    for k, x in cat['indexes'].items():
        out += [(kk['fn'], ('index', k, str(x))) for kk in x['keys'] if 'fn' in kk]
    for k, v in cat['views'].items():
        if v['where'] and len(v['where']) > 3:
            out.append((v['where'][3], ('view', k, str(v))))
    return set(out)


def e_add_col(r, cat):
    k = some_table(r, cat)
    if k:
        c = r.choice(CN)
        cat['tables'][k]['cols'].setdefault(c, pick_col(r))


def e_drop_col(r, cat):
    k = some_table(r, cat)
    if k and len(cat['tables'][k]['cols']) > 1:
        del cat['tables'][k]['cols'][r.choice(list(cat['tables'][k]['cols']))]


def e_col(r, cat):
    k = some_table(r, cat)
    if not k:
        return
    x = cat['tables'][k]['cols'][r.choice(list(cat['tables'][k]['cols']))]
    w = r.random()
    f = fam(x['type'])
    if w < .35 or f not in FAM:
        x['nn'] = not x['nn']
    elif w < .65:
        x['default'] = None if x['default'] and r.random() < .5 else ('lit', r.choice(DEFAULTS[f]))
    elif w < .8 and f in ('int', 'num') and cat['seqs']:
        x['default'] = ('seq',) + r.choice(list(cat['seqs']))
    else:
        x['type'] = r.choice(FAM[f])
        if f == 'num' and x['default'] is None:
            x['type'] = r.choice(FAM['int'] + FAM['num'])


def e_table(r, cat):
    add_table(r, cat)


def e_drop_table(r, cat):
    k = some_table(r, cat)
    if k and r.random() < .6:
        del cat['tables'][k]


def e_key(r, cat):
    k = some_table(r, cat)
    if not k:
        return
    tb = cat['tables'][k]
    cols = list(tb['cols'])
    kind = r.choice(['pk', 'uq', 'uq'])
    cs = r.sample(cols, min(len(cols), r.choice([1, 1, 2, 3])))
    n = {'pk': k[1] + '_pkey', 'uq': r.choice(['%s_%s_key' % (k[1], cs[0]), k[1] + '_uq'])}[kind]
    tb['cons'][n] = {'k': kind, 'cols': cs, 'deferrable': r.random() < .2, 'deferred': r.random() < .1}


def e_check(r, cat):
    k = some_table(r, cat)
    if not k:
        return
    tb = cat['tables'][k]
    cs = [c for c in tb['cols'] if fam(tb['cols'][c]['type']) in CHECKS]
    if cs:
        c = r.choice(cs)
        f = fam(tb['cols'][c]['type'])
        x = {'k': 'ck', 'cols': [c], 'tmpl': r.choice(CHECKS[f]), 'fam': f}
        c2 = [d for d in cs if d != c and fam(tb['cols'][d]['type']) == f]
        if c2 and r.random() < .3:
            x['cols'].append(r.choice(c2))
            x['tmpl'] = r.choice(['{0} <> {1}', '{0} is null or {1} is not null', '({0} = {1}) is not true'])
        tb['cons'][r.choice(['%s_%s_check' % (k[1], c), k[1] + '_ck'])] = x


def e_fk(r, cat):
    k = some_table(r, cat)
    if not k:
        return
    tb = cat['tables'][k]
    rel = r.choice(list(cat['tables']))
    ks = keys_of(cat, rel)
    if not ks:
        return
    _, rc = r.choice(ks)
    rt = cat['tables'][rel]['cols']
    rc = list(rc)
    if r.random() < .3:
        r.shuffle(rc)
    cs = []
    for c in rc:
        cand = [d for d in tb['cols'] if fam(tb['cols'][d]['type']) == fam(rt[c]['type']) and d not in cs]
        if not cand and len(tb['cols']) < 7 and c not in cs and ('ref' not in tb['cols']):
            tb['cols']['ref'] = {'type': rt[c]['type'], 'nn': False, 'default': None}
            cand = ['ref']
        if not cand:
            return
        cs.append(r.choice(cand))
    tb['cons'][r.choice(['%s_%s_fkey' % (k[1], cs[0]), k[1] + '_fk'])] = {
        'k': 'fk', 'cols': cs, 'ref': rel, 'rcols': rc, 'match': r.choice(['SIMPLE', 'SIMPLE', 'FULL']), 'upd': r.choice(RULES), 'del': r.choice(RULES),
        'deferrable': r.random() < .3, 'deferred': r.random() < .2}


def e_con(r, cat):
    k = some_table(r, cat)
    if not k or not cat['tables'][k]['cons']:
        return
    n = r.choice(list(cat['tables'][k]['cons']))
    x = cat['tables'][k]['cons'][n]
    w = r.random()
    if w < .4:
        del cat['tables'][k]['cons'][n]
    elif w < .7 and x['k'] != 'ck':
        x['deferrable'] = not x.get('deferrable')
        if not x['deferrable']:
            x['deferred'] = False
    elif x['k'] == 'fk':
        y = r.choice(['match', 'upd', 'del', 'deferred'])
        x[y] = {'match': r.choice(['SIMPLE', 'FULL']), 'upd': r.choice(RULES), 'del': r.choice(RULES), 'deferred': True}[y]
    elif x['k'] == 'ck':
        if len(x['cols']) == 1:
            x['tmpl'] = r.choice(CHECKS[x['fam']])
    else:
        r.shuffle(x['cols'])


def e_index(r, cat):
    k = some_table(r, cat)
    if not k:
        return
    tb = cat['tables'][k]
    n = r.choice([k[1] + '_idx', k[1] + '_idx2', 'i_' + k[0]])
    if (k[0], n) not in cat['indexes'] and n in taken(cat, k[0]):
        return
    keys = [pick_key(r, tb['cols']) for _ in range(r.choice([1, 1, 2, 3]))]
    if len(set(x['cols'][0] for x in keys)) != len(keys):
        keys = keys[:1]
    m = r.choice(['btree'] * 5 + ['hash', 'gin', 'brin', 'gist'])
    if m != 'btree':
        keys = keys[:1]
        keys[0]['desc'], keys[0]['nulls'] = False, None
    cat['indexes'][k[0], n] = {'table': k[1], 'unique': m == 'btree' and r.random() < .35, 'method': m, 'keys': keys}


def e_drop_index(r, cat):
    if cat['indexes']:
        del cat['indexes'][r.choice(list(cat['indexes']))]


def e_view(r, cat):
    k = some_table(r, cat)
    if not k:
        return
    tb = cat['tables'][k]
    s = r.choice(cat['schemas'])
    n = r.choice(['v_' + k[1], 'v1', 'summary'] + TN[:2])
    if (s, n) not in cat['views'] and n in taken(cat, s):
        return
    cs = r.sample(list(tb['cols']), r.randint(1, min(3, len(tb['cols']))))
    v = {'rel': k, 'cols': cs, 'join': None, 'where': None, 'bare': r.random() < .4}
    for c in tb['cols']:
        f = fam(tb['cols'][c]['type'])
        if f in CHECKS and r.random() < .3:
            v['where'] = (r.choice(CHECKS[f]), c, f)
    if r.random() < .4:
        k2 = some_table(r, cat)
        for c in tb['cols']:
            for d, y in cat['tables'][k2]['cols'].items():
                if fam(y['type']) == fam(tb['cols'][c]['type']) and fam(y['type']) in ('int', 'text', 'uuid'):
                    v['join'] = (k2, c, d)
        if v['join']:
            v['bare'] = False
    cat['views'][s, n] = v


def e_drop_view(r, cat):
    if cat['views']:
        del cat['views'][r.choice(list(cat['views']))]


def e_seq(r, cat):
    s = r.choice(cat['schemas'])
    n = r.choice(['seq1', 'counter', 'ids'])
    if (s, n) in cat['seqs'] or n not in taken(cat, s):
        cat['seqs'][s, n] = pick_seq(r)


def e_drop_seq(r, cat):
    if cat['seqs']:
        del cat['seqs'][r.choice(list(cat['seqs']))]


def e_func(r, cat):
    s = r.choice(cat['schemas'])
    cat['funcs'][s, r.choice(['f1()', 'calc()', 'f2(a int4)', 'f2(a text, b int4)', 'touch()'])] = pick_func(r)


def e_drop_func(r, cat):
    if cat['funcs']:
        del cat['funcs'][r.choice(list(cat['funcs']))]


def e_schema(r, cat):
    s = r.choice(SN)
    if s not in cat['schemas']:
        cat['schemas'].append(s)
    elif len(cat['schemas']) > 1 and r.random() < .25:
        cat['schemas'].remove(s)


def e_swap(r, cat):
    """a name reused by another kind of relation"""
    pools = [k for k in ('tables', 'views', 'indexes', 'seqs') if cat[k]]
    if not pools:
        return
    p = r.choice(pools)
    k = r.choice(list(cat[p]))
    del cat[p][k]
    p2 = r.choice([x for x in ('tables', 'views', 'indexes', 'seqs') if x != p])
    if p2 == 'seqs':
        cat['seqs'][k] = pick_seq(r)
    elif p2 == 'tables':
        cat['tables'][k] = {'cols': {'id': pick_col(r), 'name': pick_col(r)}, 'cons': {}}
    else:
        t = [x for x in cat['tables'] if p2 == 'views' or x[0] == k[0]]
        if not t:
            return
        t = r.choice(t)
        if p2 == 'views':
            cat['views'][k] = {'rel': t, 'cols': [r.choice(list(cat['tables'][t]['cols']))], 'join': None, 'where': None, 'bare': False}
        else:
            cat['indexes'][k] = {'table': t[1], 'unique': False, 'method': 'btree', 'keys': [pick_key(r, cat['tables'][t]['cols'])]}


def e_conkind(r, cat):
    """a constraint name reused by another kind of constraint"""
    k = some_table(r, cat)
    if k and cat['tables'][k]['cons']:
        tb = cat['tables'][k]
        n = r.choice(list(tb['cons']))
        c = r.choice(list(tb['cols']))
        if tb['cons'][n]['k'] == 'uq' and fam(tb['cols'][c]['type']) in CHECKS:
            f = fam(tb['cols'][c]['type'])
            tb['cons'][n] = {'k': 'ck', 'cols': [c], 'tmpl': r.choice(CHECKS[f]), 'fam': f}
        else:
            tb['cons'][n] = {'k': r.choice(['uq', 'pk']), 'cols': [c]}


def near(r, text):
    """a text that differs in as little as possible, within a string literal if there is one"""
    m = [x for x in re.finditer(r"'((?:[^'\\]|'')*)'", text) if '{' not in x.group(1)]
    if m:
        x = r.choice(m)
        a, b, t = x.start(1), x.end(1), x.group(1)
    else:
        return text
    up = [i for i, c in enumerate(t) if c.isalpha()]
    w = r.randrange(5)
    if w == 0 and up:
        i = r.choice(up)
        t = t[:i] + t[i].swapcase() + t[i + 1:]
    elif w == 1:
        t += ' '
    elif w == 2:
        t = ' ' + t
    elif w == 3:
        t = t.replace(' ', '  ') if ' ' in t else t + r.choice(['-', '.', 'x', '0'])
    else:
        t = t + "''"
    return text[:a] + t + text[b:]


def e_tweak(r, cat):
    """one attribute of something that is there changes by as little as possible"""
    what = [(k, n) for k in ('tables', 'tables', 'indexes', 'seqs', 'funcs', 'views') for n in cat[k]]
    if not what:
        return
    k, n = r.choice(what)
    x = cat[k][n]
    if k == 'tables':
        texts = [c for c in x['cols'].values() if fam(c['type']) == 'text' and c['default'] and c['default'][0] == 'lit']
        checks = [c for c in x['cons'].values() if c['k'] == 'ck' and "'" in c['tmpl']]
        keys = [c for c in x['cons'].values() if c['k'] in ('uq', 'pk', 'fk') and len(c['cols']) > 1]
        if texts and r.random() < .5:
            c = r.choice(texts)
            c['default'] = ('lit', near(r, c['default'][1]))
        elif checks and r.random() < .6:
            c = r.choice(checks)
            c['tmpl'] = near(r, c['tmpl'])
        elif keys:
            c = r.choice(keys)
            c['cols'].reverse()
            if c['k'] == 'fk' and r.random() < .5:
                c['rcols'].reverse()
        else:
            c = r.choice(list(x['cols'].values()))
            if c['type'] in ('varchar(20)', 'varchar(200)', 'numeric(10,2)', 'numeric(10,3)'):
                c['type'] = {'varchar(20)': 'varchar(200)', 'varchar(200)': 'varchar(20)', 'numeric(10,2)': 'numeric(10,3)', 'numeric(10,3)': 'numeric(10,2)'}[c['type']]
            else:
                c['nn'] = not c['nn']
    elif k == 'indexes':
        w = r.randrange(5)
        kk = r.choice(x['keys'])
        if w == 0 and x['method'] == 'btree':
            kk['desc'] = not kk['desc']
        elif w == 1 and x['method'] == 'btree':
            kk['nulls'] = r.choice([z for z in (None, 'first', 'last') if z != kk['nulls']])
        elif w == 2:
            x['keys'].reverse()
        elif w == 3 and x['method'] == 'btree':
            x['unique'] = not x['unique']
        else:
            kk['tmpl'] = near(r, kk['tmpl'])
    elif k == 'seqs':
        y = dict(x)
        a = r.choice(['type', 'inc', 'max', 'min', 'start', 'cache', 'cycle'])
        z = pick_seq(r)
        y.pop(a, None)
        if a in z:
            y[a] = z[a]
        try:
            seq_full(y)
            f = lambda v: int(seq_full(y)[v])
            if f('min') <= f('start') <= f('max') and f('min') < f('max'):
                cat['seqs'][n] = y
        except Exception:
            pass
    elif k == 'funcs':
        w = r.randrange(4)
        z = pick_func(r)
        if w == 0:
            x['volatility'] = z['volatility']
        elif w == 1 and x['language'] == z['language']:
            x['returns'] = z['returns']
        elif w == 2:
            x['body'] = r.choice([x['body'] + ' ', x['body'].replace(' ', '  ', 1), x['body'].swapcase(), '\n' + x['body'], x['body'] + '\n'])
        else:
            x['body'] = near(r, x['body'])
    else:
        if x['where'] and "'" in x['where'][0]:
            x['where'] = (near(r, x['where'][0]),) + tuple(x['where'][1:])
        elif len(x['cols']) > 1:
            x['cols'] = list(reversed(x['cols']))
        else:
            x['bare'] = not x['bare']


EDITS = ([e_tweak] * 6 + [e_add_col] * 4 + [e_drop_col] * 3 + [e_col] * 7 + [e_table] * 4 + [e_drop_table] * 2 + [e_key] * 4 + [e_check] * 3 + [e_fk] * 6 + [e_con] * 4 + [e_index] * 4 +
         [e_drop_index] + [e_view] * 3 + [e_drop_view] + [e_seq] * 2 + [e_drop_seq] + [e_func] * 2 + [e_drop_func] + [e_schema] * 2 + [e_swap, e_conkind])


def random_cat(r, n, deps=False):
    cat = empty()
    if r.random() < .4:
        cat['schemas'].append(r.choice(SN[1:]))
    for _ in range(r.randint(1, 3)):
        add_table(r, cat)
    for _ in range(n):
        edit(r, cat, deps)
        repair(cat)
    return repair(cat)


def evolve(r, cat, n, loose=False, deps=False):
    new = copy.deepcopy(cat)
    for _ in range(n):
        edit(r, new, deps)
        repair(new)
    return repair(new) if loose else avoid(cat, repair(new))


def retype(r, cat):
    """some column gets a type of another kind, often the array of its own or the element of it"""
    cs = [(k, c) for k, tb in cat['tables'].items() for c in tb['cols']]
    for k, c in r.sample(cs, min(len(cs), r.choice([1, 2]))):
        x = cat['tables'][k]['cols'][c]
        t = x['type']
        near = t[:-2] if t.endswith('[]') else t.split('(')[0] + '[]'
        x['type'] = r.choice([near, near, r.choice(FAM[r.choice(FAMW)])])
        x['default'] = r.choice([None, ('lit', r.choice(DEFAULTS[fam(x['type'])]))]) if fam(x['type']) in DEFAULTS else None
    return repair(cat)


def avoid(a, b):
    """adjust b so that a -> b (and b -> a) stays clear of the known findings and of data conversions"""
    for _ in range(12):
        before = json.dumps(plain(b), sort_keys=True, default=str)
        avoid1(a, b)
        repair(b)
        if json.dumps(plain(b), sort_keys=True, default=str) == before:
            return b
    return copy.deepcopy(a)


def plain(cat):
    return {k: (v if k == 'schemas' else sorted((str(x), y) for x, y in v.items())) for k, v in cat.items()}


def fk_cols(cat):
    out = set()
    for (s, t), tb in cat['tables'].items():
        for x in tb['cons'].values():
            if x['k'] == 'fk':
                out |= {(s, t, c) for c in x['cols']} | {x['ref'] + (c,) for c in x['rcols']}
    return out


def avoid1(a, b):
    fkc = fk_cols(a) | fk_cols(b)
    samev = {k for k in a['views'] if k in b['views'] and view_text(a['views'][k]) == view_text(b['views'][k])}
    vcols = set()
    for k in samev:
        v = a['views'][k]
        vcols |= {v['rel'] + (c,) for c in v['cols']}
        if v['where']:
            vcols.add(v['rel'] + (v['where'][1],))
        if v['join']:
            vcols |= {v['rel'] + (v['join'][1],), v['join'][0] + (v['join'][2],)}
    used = set()          # sequences used by a column that survives
    for k, tb in b['tables'].items():
        if k in a['tables']:
            for c, x in tb['cols'].items():
                y = a['tables'][k]['cols'].get(c)
                if y:
                    if y['default'] and y['default'][0] == 'seq':
                        used.add(tuple(y['default'][1:]))
                    if x['type'] != y['type'] and (fam(x['type']) != fam(y['type']) or k + (c,) in fkc or k + (c,) in vcols):
                        x['type'] = y['type']
                        if x['default'] and x['default'][0] == 'lit' and x['default'][1] not in DEFAULTS.get(fam(x['type']), []):
                            x['default'] = y['default']
            for n, x in tb['cons'].items():
                y = a['tables'][k]['cons'].get(n)
                if y and x['k'] == y['k'] and x['k'] in ('pk', 'uq') and x['cols'] == y['cols']:
                    x['deferrable'], x['deferred'] = y.get('deferrable', False), y.get('deferred', False)
    for sq in used:
        if sq in b['seqs']:
            if sq in a['seqs'] and seq_full(a['seqs'][sq]) != seq_full(b['seqs'][sq]):
                b['seqs'][sq] = dict(a['seqs'][sq])
        else:
            for kind in ('tables', 'views', 'indexes'):
                b[kind].pop(sq, None)
    # so do functions that something unchanged calls
    for fn, _ in callers(a) & callers(b):
        if fn in a['funcs'] and fn in b['funcs']:
            b['funcs'][fn] = dict(a['funcs'][fn])
    # keys of unchanged foreign keys stay as they are
    for k, tb in a['tables'].items():
        for n, x in tb['cons'].items():
            if x['k'] != 'fk':
                continue
            y = b['tables'].get(k, {'cons': {}})['cons'].get(n)
            if not y or not fk_same(x, y):
                continue
            ka = sorted(z for z in keys_of2(a, x['ref']) if set(z[2]) == set(x['rcols']))
            kb = sorted(z for z in keys_of2(b, x['ref']) if set(z[2]) == set(x['rcols']))
            if ka != kb:
                del b['tables'][k]['cons'][n]
    return b


def keys_of2(cat, rel):
    out = []
    for n, cols in keys_of(cat, rel):
        x = cat['tables'][rel]['cons'].get(n)
        out.append((n, x['k'] if x else 'index' + json.dumps(cat['indexes'][rel[0], n], sort_keys=True), list(cols)))
    return out


def fk_same(x, y):
    f = lambda z: (z['k'], z['cols'], z.get('ref'), z.get('rcols'), z.get('match'), z.get('upd'), z.get('del'))
    return f(x) == f(y)


# ------------------------------------------------------------------ renaming
def rename(cat, m):
    """m: function old name -> new name (injective); texts are re-rendered from their templates"""
    N = m
    R = lambda k: (N(k[0]), N(k[1]))
    out = empty([N(s) for s in cat['schemas']])
    for k, tb in cat['tables'].items():
        cols = {N(c): dict(x, default=('seq', N(x['default'][1]), N(x['default'][2])) if x['default'] and x['default'][0] == 'seq' else x['default'])
                for c, x in tb['cols'].items()}
        cons = {}
        for n, x in tb['cons'].items():
            y = dict(x, cols=[N(c) for c in x['cols']])
            if x['k'] == 'fk':
                y['ref'], y['rcols'] = R(x['ref']), [N(c) for c in x['rcols']]
            cons[N(n)] = y
        out['tables'][R(k)] = {'cols': cols, 'cons': cons}
    for k, v in cat['views'].items():
        out['views'][R(k)] = dict(v, rel=R(v['rel']), cols=[N(c) for c in v['cols']], where=(v['where'][0], N(v['where'][1]), v['where'][2]) if v['where'] else None,
                                  join=(R(v['join'][0]), N(v['join'][1]), N(v['join'][2])) if v['join'] else None)
    for k, x in cat['indexes'].items():
        out['indexes'][R(k)] = dict(x, table=N(x['table']), keys=[dict(kk, cols=[N(c) for c in kk['cols']]) for kk in x['keys']])
    for k, x in cat['seqs'].items():
        out['seqs'][R(k)] = dict(x)
    for (s, f), x in cat['funcs'].items():
        i = f.index('(')
        out['funcs'][N(s), N(f[:i]) + f[i:]] = dict(x)
    return out


# ------------------------------------------------------------------ YAML
PLAIN = re.compile(r'[A-Za-z_][A-Za-z0-9_ ().]*[A-Za-z0-9_)]\Z|[a-z]\Z')
WORDS = {'true', 'false', 'null', 'yes', 'no', 'on', 'off', 'y', 'n', 'nan', 'inf'}


def yscalar(v, r=None):
    if v is True or v is False:
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if PLAIN.match(v) and v.lower() not in WORDS and (r is None or r.random() < .8):
        return v
    if r is not None and r.random() < .4 and '\n' not in v and v.isprintable():
        return "'" + v.replace("'", "''") + "'"
    return json.dumps(v, ensure_ascii=r is not None and r.random() < .3 and all(ord(c) < 0x10000 for c in v))


def emit(pairs, ind, r, out):
    pad = '  ' * ind
    for k, v in pairs:
        ks = yscalar(k, r)
        if isinstance(v, list) and v and isinstance(v[0], tuple):
            if r is not None and r.random() < .1:
                out.append(pad + '# ' + 'comment')
            out.append('%s%s:' % (pad, ks))
            emit(v, ind + 1, r, out)
        elif isinstance(v, list) and not v:
            out.append('%s%s: %s' % (pad, ks, '{}' if r is None or r.random() < .5 else ''))
        elif isinstance(v, list):
            if r is not None and r.random() < .4:
                out.append('%s%s:' % (pad, ks))
                for x in v:
                    out.append('%s  - %s' % (pad, yscalar(x, r)))
            else:
                out.append('%s%s: [%s]' % (pad, ks, ', '.join(json.dumps(x, ensure_ascii=False) for x in v)))
        elif isinstance(v, str) and r is not None and '\n' in v and r.random() < .5 and v.strip() == v and not re.search(r'\n[ \n]', v):
            out.append('%s%s: |-' % (pad, ks))
            for line in v.split('\n'):
                out.append('%s  %s' % (pad, line))
        else:
            out.append('%s%s: %s' % (pad, ks, yscalar(v, r)))


def cat_nodes(cat, r=None, full=False):
    """-> list of (schema, [(key, value)]) one entry per top level object"""
    sh = (lambda l: (r.shuffle(l), l)[1]) if r is not None else (lambda l: l)
    sp = (lambda: r.random() < .5) if (r is not None and not full) else (lambda: full)
    one = lambda l: (l[0] if len(l) == 1 and (r is None or r.random() < .6) else list(l))
    out = []
    for (s, t), tb in cat['tables'].items():
        body = []
        for c, x in tb['cols'].items():
            e = x['type']
            d = default_text(x['default'])
            if r is not None and r.random() < .3:
                e += ('  !' if x['nn'] else ' ') + ('' if d is None else ' =  ' + d + ' ')
            else:
                e += ('!' if x['nn'] else '') + ('' if d is None else ' = ' + d)
            body.append(('column ' + c, e))
        for n, x in tb['cons'].items():
            p = {'pk': [('primary key', one(x['cols']))], 'uq': [('unique', one(x['cols']))], 'ck': None, 'fk': None}[x['k']]
            if x['k'] == 'ck':
                p = [('check', check_text(x))]
            if x['k'] == 'fk':
                ref = x['ref'][1] if x['ref'][0] == s and not sp() else '%s.%s' % x['ref']
                p = [('foreign key', one(x['cols'])), ('references ' + ref, one(x['rcols']))]
                for f, key, dv in (('match', 'match', 'SIMPLE'), ('upd', 'on update', 'NO ACTION'), ('del', 'on delete', 'NO ACTION')):
                    v = x.get(f, dv)
                    if v != dv or sp():
                        p.append((key, v))
            if x.get('deferrable') or sp():
                p.append(('deferrable', bool(x.get('deferrable'))))
            if x.get('deferred') or sp():
                p.append(('initially deferred', bool(x.get('deferred'))))
            body.append(('constraint ' + n, sh(p)))
        out.append((s, ('table ' + t, sh(body))))
    for (s, v), x in cat['views'].items():
        out.append((s, ('view ' + v, [('as', view_text(x))])))
    for (s, i), x in cat['indexes'].items():
        p = [('on ' + x['table'], one([key_text(k) for k in x['keys']]))]
        if x['unique'] or sp():
            p.append(('unique', x['unique']))
        if x['method'] != 'btree' or sp():
            p.append(('using', x['method']))
        out.append((s, ('index ' + i, sh(p))))
    for (s, n), x in cat['seqs'].items():
        f = seq_full(x)
        p = []
        for key, a in (('as', 'type'), ('increment', 'inc'), ('minvalue', 'min'), ('maxvalue', 'max'), ('start', 'start'), ('cache', 'cache'), ('cycle', 'cycle')):
            if a in x or sp():
                p.append((key, f[a] if a == 'type' else f[a] == 'true' if a == 'cycle' else int(f[a])))
        if x.get('own'):
            p.append(('owned by ' + x['own'][0], x['own'][1]))
        out.append((s, ('sequence ' + n, sh(p))))
    for (s, f), x in cat['funcs'].items():
        p = [('as', x['body'])]
        for key, a, dv in (('language', 'language', 'SQL'), ('returns', 'returns', 'void'), ('volatility', 'volatility', 'VOLATILE')):
            if x[a] is not None:
                p.append((key, x[a]))
            elif sp():
                p.append((key, dv))
        out.append((s, ('function ' + f, sh(p))))
    return sh(out)


def render(cat, r=None, files=1, full=False):
    """-> {relative path: text}; every schema appears at least once"""
    nodes = cat_nodes(cat, r, full)
    names = ['public.yaml'] if files == 1 else ['%s%s%d.yaml' % (r.choice(['', 'sub/', 'a/b/']), r.choice('abxyz'), i) for i in range(files)]
    parts = {n: {} for n in names}
    for s in cat['schemas']:
        parts[r.choice(names) if r is not None else names[0]].setdefault(s, [])
    for s, node in nodes:
        n = r.choice(names) if r is not None else names[0]
        parts[n].setdefault(s, []).append(node)
    out = {}
    for n, ss in parts.items():
        lines = []
        items = list(ss.items())
        if r is not None:
            r.shuffle(items)
        pairs = []
        for s, body in items:
            kw = 'schema' if r is None or r.random() < .8 else r.choice(['Schema', 'SCHEMA', 'schema '])
            pairs.append(('%s %s' % (kw, s), body))
        if not pairs:
            out[n] = '{}\n'
            continue
        emit(pairs, 0, r, lines)
        out[n] = '\n'.join(lines) + '\n'
    return out


def many(r, cat, n, name='big'):
    """n more tables in public"""
    keyed = []
    for k in range(n):
        t = '%s%d' % (name, k)
        tb = cat['tables']['public', t] = {'cols': {'id': {'type': 'int4', 'nn': True, 'default': None}, 'c%d' % r.randrange(3): {'type': r.choice(['text', 'int8', 'uuid']), 'nn': False, 'default': None}}, 'cons': {}}
        if keyed and r.random() < .3:
            tb['cols']['ref'] = {'type': 'int4', 'nn': False, 'default': None}
            tb['cons'][t + '_fk'] = {'k': 'fk', 'cols': ['ref'], 'ref': ('public', r.choice(keyed)), 'rcols': ['id']}
        if r.random() < .3:
            tb['cons'][t + '_pk'] = {'k': 'pk', 'cols': ['id']}
            keyed.append(t)
        if r.random() < .3:
            cat['indexes']['public', t + '_ix'] = {'table': t, 'unique': False, 'method': 'btree', 'keys': [{'tmpl': '{0}', 'cols': ['id'], 'desc': False, 'nulls': None}]}
    return cat


def fewer(r, cat, gone, name='big'):
    for k in gone:
        cat['tables'].pop(('public', '%s%d' % (name, k)), None)
        cat['indexes'].pop(('public', '%s%d_ix' % (name, k)), None)
    for tb in cat['tables'].values():
        for x in [x for x, v in tb['cons'].items() if v['k'] == 'fk' and v['ref'] not in cat['tables']]:
            del tb['cons'][x]
    return cat


def wide(r, cat):
    """things that are long: a table of many columns, keys and views over many of them, texts of many lines, names as long as a name can be"""
    n = r.choice([17, 40, 90])
    long = lambda s, k: (s + '_' + 'x' * 63)[:63 - len(str(k))] + str(k)
    cols = {}
    for k in range(n):
        f = r.choice(['int', 'int', 'text'])
        cols[long('column', k) if k % 7 == 3 else 'c%d' % k] = {'type': {'int': 'int4', 'text': 'text'}[f], 'nn': k < 20 or r.random() < .3,
                                                               'default': ('lit', r.choice(DEFAULTS[f])) if r.random() < .2 else None}
    names = list(cols)
    cols['big'] = {'type': 'text', 'nn': False, 'default': ('lit', "'%s'" % ''.join(r.choice('ab c;$-.') for _ in range(r.choice([300, 5000]))))}
    key = names[:r.choice([9, 16])]
    tb = cat['tables']['public', 'wide'] = {'cols': cols, 'cons': {
        'wide_pk': {'k': 'pk', 'cols': names[:2]}, long('wide_uq', 1): {'k': 'uq', 'cols': key[::-1]},
        'wide_fk': {'k': 'fk', 'cols': key[::-1], 'ref': ('public', 'wide'), 'rcols': key[::-1]},
        'wide_check': {'k': 'ck', 'cols': ['big'], 'tmpl': '{0} in (%s)' % ', '.join("'v%d'" % k for k in range(r.choice([12, 300]))), 'fam': 'text'}}}
    cat['indexes']['public', long('wide_ix', 2)] = {'table': 'wide', 'unique': False, 'method': 'btree', 'keys': [{'tmpl': '{0}', 'cols': [c], 'desc': r.random() < .3, 'nulls': None} for c in names[-14:]]}
    cat['views']['public', 'wide_view'] = {'rel': ('public', 'wide'), 'cols': names, 'join': None, 'where': None, 'bare': False}
    cat['funcs']['public', 'wide_func(%s)' % ', '.join('a%d int4' % k for k in range(r.choice([3, 12, 40])))] = {
        'body': '\n'.join(r.choice(['  select %d;', "select '%d $$ a';", '-- %d', 'select\t%d ;']) % k for k in range(r.choice([30, 700]))), 'language': 'sql', 'returns': 'setof int4', 'volatility': None}
    cat['seqs']['public', long('wide_seq', 3)] = pick_seq(r)
    assert tb
    return cat


def widen(r, cat):
    """a change near the end of each of them"""
    if ('public', 'wide') not in cat['tables']:
        return cat
    tb = cat['tables']['public', 'wide']
    d = tb['cols']['big']['default'][1]
    tb['cols']['big']['default'] = ('lit', d[:-2] + ('x' if d[-2] != 'x' else 'y') + "'")
    last = [c for c in tb['cols'] if c != 'big'][-1]
    tb['cols'][last]['nn'] = not tb['cols'][last]['nn']
    for x in tb['cons'].values():
        if x['k'] == 'ck':
            x['tmpl'] = x['tmpl'][:-1] + ", 'w')"
        elif x['k'] == 'fk' and r.random() < .5:
            x['cols'] = x['cols'][:-2] + x['cols'][-2:][::-1]
    for (s, n), x in cat['indexes'].items():
        if x['table'] == 'wide':
            x['keys'][-1]['desc'] = not x['keys'][-1]['desc']
    for f, x in cat['funcs'].items():
        if f[1].startswith('wide_func'):
            x['body'] = x['body'] + ' '
    cat['views'].pop(('public', 'wide_view'), None)
    return cat
