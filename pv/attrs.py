"""Every attribute of every kind of object, changed alone: chains of definitions of which each differs from the last in one attribute of an object."""
import copy, random
from . import gen

# one string literal, each time a little different
LITS = ["'a b'", "'a  b'", "'a b'", "'A b'", "'A b '", "' A b '", "' A  b '", "' A  b ''", "' A.b'", "'-- A.b'", "'/* A.b */'", "'$1'", "'%s'", "'\\'", "'\\\\'", "'a:b'", "'a: b'", "'# a'", "'{a}'", "'é'", "'É'", "''", "' '"]
LITS = [x if x.count("'") % 2 == 0 else x + "'" for x in LITS]


def base():
    I = lambda **k: dict({'type': 'int4', 'nn': False, 'default': None}, **k)
    T = lambda **k: dict({'type': 'text', 'nn': False, 'default': None}, **k)
    pair = lambda n: {'cols': {'i': I(), 'j': I(), 'k': I()}, 'cons': {n + 'ij': {'k': 'uq', 'cols': ['i', 'j']}, n + 'ik': {'k': 'uq', 'cols': ['i', 'k']}}}
    cat = gen.empty(['public', 'app'])
    t = cat['tables']
    t['public', 'pair'], t['app', 'pair'], t['public', 'other'] = pair('pair'), pair('pair'), pair('other')
    t['public', 'kid'] = {'cols': {'x': I(), 'y': I(), 'z': I()}, 'cons': {'kid_fk': {'k': 'fk', 'cols': ['x', 'y'], 'ref': ('public', 'pair'), 'rcols': ['i', 'j']}}}
    t['public', 'lit'] = {'cols': {'t': T(default=('lit', LITS[0])), 'id': I()}, 'cons': {'lit_check': {'k': 'ck', 'cols': ['t'], 'tmpl': '{0} <> ' + LITS[0], 'fam': 'text'}}}
    t['public', 'cols'] = {'cols': {'a': I(), 'b': T(), 'n': {'type': 'numeric(10,2)', 'nn': False, 'default': None}, 'v': {'type': 'varchar(20)', 'nn': False, 'default': None}}, 'cons': {}}
    t['public', 'keys'] = {'cols': {'a': I(nn=True), 'b': I(nn=True), 'c': I(nn=True)}, 'cons': {'keys_pk': {'k': 'pk', 'cols': ['a', 'b']}, 'keys_uq': {'k': 'uq', 'cols': ['a', 'b']}}}
    for s, n in (('public', 'idx'), ('public', 'idx2'), ('app', 'idx')):
        t[s, n] = {'cols': {'a': I(), 'b': I(), 't': T()}, 'cons': {}}
    cat['indexes']['public', 'the_idx'] = {'table': 'idx', 'unique': False, 'method': 'btree', 'keys': [{'tmpl': '{0}', 'cols': [c], 'desc': False, 'nulls': None} for c in ('a', 'b')]}
    cat['indexes']['public', 'expr_idx'] = {'table': 'idx', 'unique': False, 'method': 'btree', 'keys': [{'tmpl': '({0} || %s)' % LITS[0], 'cols': ['t'], 'desc': False, 'nulls': None}]}
    cat['views']['public', 'the_view'] = {'rel': ('public', 'idx'), 'cols': ['a', 'b'], 'join': None, 'where': ('{0} <> ' + LITS[0], 't', 'text'), 'bare': True}
    cat['views']['public', 'lit_view'] = copy.deepcopy(cat['views']['public', 'the_view'])
    cat['seqs']['public', 'the_seq'] = {'type': 'int4', 'inc': 1, 'min': -100, 'max': 100, 'start': 5, 'cache': 1, 'cycle': False}
    cat['funcs']['public', 'the_func()'] = {'body': 'select ' + LITS[0], 'language': 'sql', 'returns': 'text', 'volatility': 'VOLATILE'}
    cat['funcs']['public', 'args(a numeric(10,2), b varchar(5))'] = dict(cat['funcs']['public', 'the_func()'])
    cat['funcs']['public', 'lit_func()'] = dict(cat['funcs']['public', 'the_func()'])
    return cat


def chains():
    """(what, [edit, ...]): the edits of one chain are made one after the other, those of different chains may be made at once"""
    fk = lambda **k: lambda c: c['tables']['public', 'kid']['cons']['kid_fk'].update(k)
    ix = lambda **k: lambda c: c['indexes']['public', 'the_idx'].update(k)
    sq = lambda **k: lambda c: c['seqs']['public', 'the_seq'].update(k)
    fn = lambda **k: lambda c: c['funcs']['public', 'the_func()'].update(k)
    vw = lambda **k: lambda c: c['views']['public', 'the_view'].update(k)
    col = lambda n, **k: lambda c: c['tables']['public', 'cols']['cols'][n].update(k)
    con = lambda n, **k: lambda c: c['tables']['public', 'keys']['cons'][n].update(k)

    def key(n, **k):
        return lambda c: c['indexes']['public', 'the_idx']['keys'][n].update(k)

    def revkeys(c):
        c['indexes']['public', 'the_idx']['keys'].reverse()

    def lit(s):
        def f(c):
            t = c['tables']['public', 'lit']
            e = s.replace('{', '{{').replace('}', '}}')
            t['cols']['t']['default'] = ('lit', s)
            t['cons']['lit_check']['tmpl'] = '{0} <> ' + e
            c['indexes']['public', 'expr_idx']['keys'][0]['tmpl'] = '({0} || %s)' % e
            c['views']['public', 'lit_view']['where'] = ('{0} <> ' + e, 't', 'text')
            c['funcs']['public', 'lit_func()']['body'] = 'select ' + s
        return f
    rules = ['CASCADE', 'SET NULL', 'SET DEFAULT', 'RESTRICT', 'NO ACTION']
    return [
        ('literals', [lit(x) for x in LITS[1:]]),
        ('fk', [fk(upd=x) for x in rules] + [fk(match='FULL'), fk(ref=('app', 'pair')), fk(rcols=['j', 'i']), fk(cols=['y', 'x']), fk(rcols=['i', 'k']), fk(ref=('public', 'pair')), fk(ref=('public', 'other')),
                fk(cols=['y', 'z']), fk(match='SIMPLE')]),
        ('fk', [fk(deferrable=True), fk(deferred=True), fk(deferred=False), fk(deferrable=False), fk(deferrable=True, deferred=True), fk(deferrable=False, deferred=False)] + [fk(**{'del': x}) for x in rules]),
        ('index', [key(0, desc=True), key(1, nulls='first'), key(1, nulls='last'), key(1, nulls=None), revkeys, ix(unique=True), ix(table='idx2'), key(0, cols=['t']), ix(unique=False), key(0, tmpl='lower({0})'),
                   key(0, tmpl='upper({0})'), key(0, desc=True), key(0, desc=False), ix(keys=[{'tmpl': '{0}', 'cols': ['b'], 'desc': False, 'nulls': None}]), ix(method='hash'), ix(method='brin'), ix(method='btree')]),
        ('sequence', [sq(inc=2), sq(inc=-2), sq(min=-101), sq(max=99), sq(start=4), sq(cache=7), sq(cycle=True), sq(type='int2'), sq(type='int8'), sq(max=2147483648), sq(max=9223372036854775807), sq(min=-9223372036854775808),
                      sq(cycle=False), sq(start=-9223372036854775808), sq(start=0)]),
        ('function', [fn(volatility='STABLE'), fn(volatility='IMMUTABLE'), fn(returns='varchar'), fn(returns='setof varchar'), fn(returns='text'), fn(volatility='VOLATILE'), fn(language='plpgsql')] + [fn(body=x) for x in ('select 1 -- $', 'select 1 -- $ ', 'select $$x$$', 'select $podo$x$podo$ -- $$ $podopodo', 'select 1 -- $podo$', 'select 1 -- \\', 'select 1;\n', 'select  1;\n', '\tselect 1;')]),
        ('arguments', [lambda c: c['funcs']['public', 'args(a numeric(10,2), b varchar(5))'].update(body='select 2'), lambda c: c['funcs'].update({('public', 'args(a numeric(10,2))'): dict(c['funcs']['public', 'the_func()'])}),
                       lambda c: c['funcs'].pop(('public', 'args(a numeric(10,2), b varchar(5))')), lambda c: c['funcs'].update({('app', 'args(a int4[], b numeric(10,2)[])'): dict(c['funcs']['public', 'the_func()'])}),
                       lambda c: c['funcs'].pop(('public', 'args(a numeric(10,2))'))]),
        ('view', [vw(cols=['b', 'a']), vw(cols=['b']), vw(cols=['b', 'a', 't']), vw(rel=('public', 'idx2')), vw(rel=('app', 'idx')), vw(bare=False)]),
        ('columns', [col('a', nn=True), col('b', nn=True), col('a', default=('lit', '0')), col('a', default=('lit', '00')), col('a', nn=False), col('a', default=None), col('n', type='numeric(10,3)'), col('n', type='numeric(11,3)'),
                     col('n', type='numeric'), col('v', type='varchar(21)'), col('v', type='varchar'), col('v', type='text'), col('a', type='int8'), col('b', default=('lit', 'NULL')), col('b', nn=False)]),
        ('keys', [con('keys_pk', cols=['b', 'a']), con('keys_uq', cols=['b', 'a']), con('keys_pk', cols=['a', 'c']), con('keys_uq', cols=['b']), con('keys_pk', cols=['a']), con('keys_uq', cols=['a'])])]


def walk(seed):
    """catalogs of which every one differs from the one before in at most one attribute of each object"""
    r = random.Random('attrs-%s' % seed)
    cat = base()
    out = [copy.deepcopy(cat)]
    todo = chains()
    r.shuffle(todo)
    # chains about the same object follow one another
    lanes = {}
    for what, edits in todo:
        lanes.setdefault(what, []).extend(edits)
    while any(lanes.values()):
        for what in sorted(lanes):
            if lanes[what] and r.random() < .85:
                lanes[what].pop(0)(cat)
        out.append(copy.deepcopy(cat))
    return out


def guests():
    """schemas (or objects of public) that come and go as a whole: each kind of object alone, and each pair of which one needs the other"""
    I = lambda **k: dict({'type': 'int4', 'nn': False, 'default': None}, **k)
    tab = lambda **k: {'cols': dict({'a': I(), 'b': I()}, **k), 'cons': {}}
    uq = lambda n, c='a': {n: {'k': 'uq', 'cols': [c]}}
    view = lambda s, t: {'rel': (s, t), 'cols': ['a'], 'join': None, 'where': None, 'bare': True}
    fk = lambda s, t, **k: dict({'k': 'fk', 'cols': ['b'], 'ref': (s, t), 'rcols': ['a']}, **k)
    ix = lambda t: {'table': t, 'unique': True, 'method': 'btree', 'keys': [{'tmpl': '{0}', 'cols': ['a'], 'desc': False, 'nulls': None}]}
    fun = lambda: {'body': 'select 1', 'language': 'sql', 'returns': 'int4', 'volatility': None}
    out = []

    def guest(*what):
        def f(c, s, o):
            if s not in c['schemas']:
                c['schemas'].append(s)
            for w in what:
                w(c, s, o)
        out.append(f)
    T = lambda n, **k: lambda c, s, o: c['tables'].update({(s, n): tab(**k)})
    V = lambda n, t, away=False: lambda c, s, o: c['views'].update({(s, n): view(o if away else s, t)})
    S = lambda n: lambda c, s, o: c['seqs'].update({(s, n): {}})
    F = lambda n: lambda c, s, o: c['funcs'].update({(s, n): fun()})
    X = lambda n, t: lambda c, s, o: c['indexes'].update({(s, n): ix(t)})
    U = lambda t, n: lambda c, s, o: c['tables'][s, t]['cons'].update(uq(n))
    K = lambda t, n, ref, away=False: lambda c, s, o: c['tables'][s, t]['cons'].update({n: fk(o if away else s, ref)})
    D = lambda t, n, away=False: lambda c, s, o: c['tables'][s, t]['cols']['b'].update(default=('seq', o if away else s, n))
    C = lambda t, n: lambda c, s, o: c['tables'][s, t]['cons'].update({n: {'k': 'ck', 'cols': ['a'], 'tmpl': '{0} > 0', 'fam': 'int'}})

    # not null beforehand: what a primary key leaves behind is a known finding
    def P(t, n):
        def f(c, s, o):
            c['tables'][s, t]['cols']['b']['nn'] = True
            c['tables'][s, t]['cons'][n] = {'k': 'pk', 'cols': ['b']}
        return f
    guest()
    guest(T('g1'))
    guest(S('g2'))
    guest(F('g3()'))
    guest(F('g3(a int4, b text)'))
    guest(T('g4'), V('g4v', 'g4'))
    guest(V('g5v', 'host', True))
    guest(T('g6'), X('g6x', 'g6'))
    guest(T('g7'), U('g7', 'g7u'), K('g7', 'g7k', 'g7'))
    guest(T('g8'), T('g8b'), U('g8', 'g8u'), K('g8b', 'g8k', 'g8'))
    guest(T('g9'), K('g9', 'g9k', 'host', True))
    guest(T('h1'), S('h1s'), D('h1', 'h1s'))
    guest(T('h2'), D('h2', 'hosts', True))
    guest(T('h3'), C('h3', 'h3c'), P('h3', 'h3p'))
    guest(T('h4'), T('h4b'), U('h4', 'h4u'), U('h4b', 'h4bu'), K('h4', 'h4k', 'h4b'), K('h4b', 'h4bk', 'h4'))
    guest(T('h5'), X('h5x', 'h5'), K('h5', 'h5k', 'h5'))
    guest(S('h6'), F('h6()'), T('h6t'), V('h6v', 'h6t'))
    # on the side of the host: something in public that needs something in the guest schema
    guest(T('h7'), U('h7', 'h7u'), lambda c, s, o: c['tables'][o, 'host']['cons'].update(host_fk=fk(s, 'h7')) if s != o else None)
    guest(S('h8'), lambda c, s, o: c['tables'][o, 'host']['cols']['b'].update(default=('seq', s, 'h8')))
    guest(T('h9'), lambda c, s, o: c['views'].update({(o, 'h9v'): view(s, 'h9')}))
    # a name that was something else: the same name as the table, view, sequence and index of others
    for w in (T('same'), S('same'), V('same', 'host', True)):
        guest(w)
    guest(T('same2'), X('same', 'same2'))
    guest(T('same2'), U('same2', 'same'))
    guest(T('same2'), P('same2', 'same'))
    guest(F('same()'))
    return out


def visits(seed):
    """catalogs between which guests come and go, in a schema of their own or in public"""
    r = random.Random('visits-%s' % seed)
    gs = guests()
    r.shuffle(gs)
    out = []
    away = None
    for k, g in enumerate(gs):
        cat = gen.empty(['public'])
        cat['tables']['public', 'host'] = {'cols': {c: {'type': 'int4', 'nn': False, 'default': None} for c in 'ab'}, 'cons': {'host_uq': {'k': 'uq', 'cols': ['a']}}}
        cat['seqs']['public', 'hosts'] = {}
        bare = copy.deepcopy(cat)
        g(cat, 'public' if r.random() < .4 else r.choice(['guest', 'guest', 'second']), 'public')
        # at times two guests follow one another without a pause
        if away is None or r.random() < .5:
            out.append(bare)
        out.append(cat)
        away = k
    return out
