"""The histories behind known_findings.txt: each fails in the recorded way on the unchanged tree, and in no other."""
import copy
from . import gen


def col(t='int4', nn=False, default=None):
    return {'type': t, 'nn': nn, 'default': default}


def base():
    c = gen.empty()
    c['tables']['public', 'users'] = {'cols': {'id': col(nn=True), 'code': col(nn=True), 'name': col('text')},
                                      'cons': {'users_pkey': {'k': 'pk', 'cols': ['id']}, 'users_uq': {'k': 'uq', 'cols': ['code']}}}
    return c


def variant(c, f):
    d = copy.deepcopy(c)
    f(d)
    return d


def alter_unique():
    a = base()
    return [a, variant(a, lambda c: c['tables']['public', 'users']['cons']['users_uq'].update(deferrable=True))]


def alter_pk():
    a = base()
    return [a, variant(a, lambda c: c['tables']['public', 'users']['cons']['users_pkey'].update(deferrable=True))]


def owned_by():
    a = base()
    a['seqs']['public', 'ids'] = {'own': ('users', 'id')}
    return [a]


def sequence_in_use():
    a = base()
    a['seqs']['public', 'ids'] = {}
    a['tables']['public', 'users']['cols']['id']['default'] = ('seq', 'public', 'ids')
    return [a, variant(a, lambda c: c['seqs']['public', 'ids'].update(inc=5))]


def view_on_view():
    a = base()
    prev = 'users'
    for v in ['v5', 'v2', 'v7', 'v1', 'v8', 'v3', 'v6', 'v4']:
        a['views']['public', v] = {'rel': ('public', prev), 'cols': ['id'], 'join': None, 'where': None, 'bare': True}
        prev = v
    return [base(), a]


def type_under_view():
    a = base()
    a['views']['public', 'v'] = {'rel': ('public', 'users'), 'cols': ['id', 'name'], 'join': None, 'where': None, 'bare': True}
    return [a, variant(a, lambda c: c['tables']['public', 'users']['cols']['name'].update(type='varchar(20)'))]


def key_under_fk():
    a = base()
    a['tables']['public', 'orders'] = {'cols': {'ref': col()}, 'cons': {'orders_fk': {'k': 'fk', 'cols': ['ref'], 'ref': ('public', 'users'), 'rcols': ['code']}}}

    def f(c):
        k = c['tables']['public', 'users']['cons']
        k['users_key2'] = k.pop('users_uq')
    return [a, variant(a, f)]


def pk_nullable():
    a = base()
    del a['tables']['public', 'users']['cons']['users_pkey']
    a['tables']['public', 'users']['cols']['id']['nn'] = False
    b = variant(a, lambda c: c['tables']['public', 'users']['cons'].update(users_pkey={'k': 'pk', 'cols': ['id']}))
    return [a, b, copy.deepcopy(a)]


def fn(**kw):
    return dict({'body': 'BEGIN RETURN 1; END', 'language': 'plpgsql', 'returns': 'int4', 'volatility': 'IMMUTABLE'}, **kw)


def default_function():
    a = base()

    def f(c):
        c['funcs']['public', 'gen()'] = fn()
        c['tables']['public', 'orders'] = {'cols': {'id': col(default=('lit', 'public.gen()'))}, 'cons': {}}
    return [a, variant(a, f)]


def default_function_drop():
    a, c = default_function()
    b = copy.deepcopy(c)
    del b['tables']['public', 'orders']
    return [b, c, a]


def function_in_use():
    a = base()
    a['funcs']['public', 'okint(a int4)'] = fn(returns='bool')
    a['tables']['public', 'users']['cons']['users_ck'] = {'k': 'ck', 'cols': ['id'], 'tmpl': 'public.okint({0})', 'fam': 'int', 'fn': ('public', 'okint(a int4)')}
    return [a, variant(a, lambda c: c['funcs']['public', 'okint(a int4)'].update(body='BEGIN RETURN 2; END'))]


CASES = {'alter-unique': alter_unique, 'alter-pk': alter_pk, 'owned-by': owned_by, 'sequence-in-use': sequence_in_use, 'view-on-view': view_on_view,
         'type-under-view': type_under_view, 'key-under-fk': key_under_fk, 'pk-nullable': pk_nullable, 'default-function': default_function, 'default-function-drop': default_function_drop, 'function-in-use': function_in_use}
