"""A mocked pg_catalog: what PostgreSQL would show about a catalog of gen.py, plus the functions podo may call on it.
Column lists follow PostgreSQL 16. Live expressions are the generator's texts."""
import random, re
from . import gen
from .engine import Rel, Unsupported, CATOID, quote_ident, totext, TEXTY, INTY
from .sqllex import SqlError
from .pgparse import P

COLS = {
    'pg_namespace': 'oid:oid nspname:name nspowner:oid nspacl:text[]',
    'pg_class': 'oid:oid relname:name relnamespace:oid reltype:oid reloftype:oid relowner:oid relam:oid relfilenode:oid reltablespace:oid relpages:int4 reltuples:float8 '
                'relallvisible:int4 reltoastrelid:oid relhasindex:bool relisshared:bool relpersistence:char relkind:char relnatts:int2 relchecks:int2 relhasrules:bool '
                'relhastriggers:bool relhassubclass:bool relrowsecurity:bool relforcerowsecurity:bool relispopulated:bool relreplident:char relispartition:bool '
                'relrewrite:oid relacl:text[] reloptions:text[]',
    'pg_attribute': 'attrelid:oid attname:name atttypid:oid attlen:int2 attnum:int2 attcacheoff:int4 atttypmod:int4 attndims:int2 attbyval:bool attalign:char attstorage:char '
                    'attcompression:char attnotnull:bool atthasdef:bool atthasmissing:bool attidentity:char attgenerated:char attisdropped:bool attislocal:bool attinhcount:int2 '
                    'attstattarget:int2 attcollation:oid attacl:text[] attoptions:text[]',
    'pg_attrdef': 'oid:oid adrelid:oid adnum:int2 adbin:pg_node_tree',
    'pg_constraint': 'oid:oid conname:name connamespace:oid contype:char condeferrable:bool condeferred:bool convalidated:bool conrelid:oid contypid:oid conindid:oid '
                     'conparentid:oid confrelid:oid confupdtype:char confdeltype:char confmatchtype:char conislocal:bool coninhcount:int2 connoinherit:bool conkey:int2[] '
                     'confkey:int2[] conpfeqop:oid[] conppeqop:oid[] conffeqop:oid[] confdelsetcols:int2[] conexclop:oid[] conbin:pg_node_tree',
    'pg_index': 'indexrelid:oid indrelid:oid indnatts:int2 indnkeyatts:int2 indisunique:bool indnullsnotdistinct:bool indisprimary:bool indisexclusion:bool indimmediate:bool '
                'indisclustered:bool indisvalid:bool indcheckxmin:bool indisready:bool indislive:bool indisreplident:bool indkey:int2vector indcollation:oidvector '
                'indclass:oidvector indoption:int2vector indexprs:pg_node_tree indpred:pg_node_tree',
    'pg_am': 'oid:oid amname:name amhandler:oid amtype:char',
    'pg_type': 'oid:oid typname:name typnamespace:oid typowner:oid typlen:int2 typbyval:bool typtype:char typcategory:char typispreferred:bool typisdefined:bool typdelim:char '
               'typrelid:oid typsubscript:oid typelem:oid typarray:oid typnotnull:bool typbasetype:oid typtypmod:int4 typndims:int4 typcollation:oid',
    'pg_sequence': 'seqrelid:oid seqtypid:oid seqstart:int8 seqincrement:int8 seqmax:int8 seqmin:int8 seqcache:int8 seqcycle:bool',
    'pg_depend': 'classid:oid objid:oid objsubid:int4 refclassid:oid refobjid:oid refobjsubid:int4 deptype:char',
    'pg_proc': 'oid:oid proname:name pronamespace:oid proowner:oid prolang:oid procost:float8 prorows:float8 provariadic:oid prosupport:oid prokind:char prosecdef:bool '
               'proleakproof:bool proisstrict:bool proretset:bool provolatile:char proparallel:char pronargs:int2 pronargdefaults:int2 prorettype:oid proargtypes:oidvector '
               'proallargtypes:oid[] proargmodes:char[] proargnames:text[] proargdefaults:pg_node_tree prosrc:text probin:text proconfig:text[]',
    'pg_language': 'oid:oid lanname:name lanowner:oid lanispl:bool lanpltrusted:bool lanplcallfoid:oid laninline:oid lanvalidator:oid',
    'pg_trigger': 'oid:oid tgrelid:oid tgparentid:oid tgname:name tgfoid:oid tgtype:int2 tgenabled:char tgisinternal:bool',
    'pg_enum': 'oid:oid enumtypid:oid enumsortorder:float8 enumlabel:name',
    'pg_extension': 'oid:oid extname:name extowner:oid extnamespace:oid extrelocatable:bool extversion:text',
    'pg_collation': 'oid:oid collname:name collnamespace:oid',
    'pg_inherits': 'inhrelid:oid inhparent:oid inhseqno:int4 inhdetachpending:bool',
    'pg_description': 'objoid:oid classoid:oid objsubid:int4 description:text',
    'pg_tables': 'schemaname:name tablename:name tableowner:name tablespace:name hasindexes:bool hasrules:bool hastriggers:bool rowsecurity:bool',
    'pg_views': 'schemaname:name viewname:name viewowner:name definition:text',
}
INFO = {
    'schemata': 'catalog_name:name schema_name:name schema_owner:name',
    'tables': 'table_catalog:name table_schema:name table_name:name table_type:varchar',
}
SPEC = lambda s: [tuple(x.split(':')) for x in s.split()]
CATS = {k: SPEC(v) for k, v in COLS.items()}
for _k in ('pg_tables', 'pg_views'):
    pass

# base types: name -> (oid, len, elem, category)
TYPES = {'bool': (16, 1, 0, 'B'), 'bytea': (17, -1, 0, 'U'), 'char': (18, 1, 0, 'Z'), 'name': (19, 64, 18, 'S'), 'int8': (20, 8, 0, 'N'), 'int2': (21, 2, 0, 'N'), 'int4': (23, 4, 0, 'N'),
         'text': (25, -1, 0, 'S'), 'oid': (26, 4, 0, 'N'), 'json': (114, -1, 0, 'U'), 'point': (600, 16, 701, 'G'), 'box': (603, 32, 600, 'G'), 'float4': (700, 4, 0, 'N'), 'float8': (701, 8, 0, 'N'),
         'inet': (869, -1, 0, 'I'), 'bpchar': (1042, -1, 0, 'S'), 'varchar': (1043, -1, 0, 'S'), 'date': (1082, 4, 0, 'D'), 'time': (1083, 8, 0, 'D'), 'timestamp': (1114, 8, 0, 'D'),
         'timestamptz': (1184, 8, 0, 'D'), 'interval': (1186, 16, 0, 'T'), 'timetz': (1266, 12, 0, 'D'), 'bit': (1560, -1, 0, 'V'), 'varbit': (1562, -1, 0, 'V'), 'numeric': (1700, -1, 0, 'N'),
         'uuid': (2950, 16, 0, 'U'), 'jsonb': (3802, -1, 0, 'U'), 'void': (2278, 4, 0, 'P'), 'trigger': (2279, 4, 0, 'P'), 'record': (2249, -1, 0, 'P')}
ARRAY = {'bool': 1000, 'bytea': 1001, 'char': 1002, 'name': 1003, 'int2': 1005, 'int4': 1007, 'text': 1009, 'bpchar': 1014, 'varchar': 1015, 'int8': 1016, 'point': 1017, 'box': 1020,
         'float4': 1021, 'float8': 1022, 'oid': 1028, 'inet': 1041, 'timestamp': 1115, 'date': 1182, 'time': 1183, 'timestamptz': 1185, 'interval': 1187, 'numeric': 1231, 'timetz': 1270,
         'bit': 1561, 'varbit': 1563, 'uuid': 2951, 'json': 199, 'jsonb': 3807}
LONG = {'bool': 'boolean', 'int2': 'smallint', 'int4': 'integer', 'int8': 'bigint', 'float4': 'real', 'float8': 'double precision', 'bpchar': 'character', 'varchar': 'character varying',
        'timestamp': 'timestamp without time zone', 'timestamptz': 'timestamp with time zone', 'time': 'time without time zone', 'timetz': 'time with time zone', 'varbit': 'bit varying', 'char': '"char"'}
OIDNAME = {v[0]: k for k, v in TYPES.items()}
OIDNAME.update({v: '_' + k for k, v in ARRAY.items()})
SHORT = {v: k for k, v in LONG.items()}
SHORT.update({'int': 'int4', 'char': 'bpchar', 'decimal': 'numeric', 'timestamp with time zone': 'timestamptz', 'time with time zone': 'timetz', 'float': 'float8'})


def parse_type(text):
    """-> (base name, typmod, is array)"""
    t = text.strip().lower()
    arr = t.endswith('[]')
    if arr:
        t = t[:-2].strip()
    m = re.match(r'([a-z0-9_" ]+?)\s*(?:\(\s*(\d+)\s*(?:,\s*(\d+)\s*)?\))?\s*(with(?:out)? time zone)?$', t)
    if not m:
        raise Unsupported('type ' + text)
    base = m.group(1) + (' ' + m.group(4) if m.group(4) else '')
    base = SHORT.get(base, base)
    if base not in TYPES:
        raise Unsupported('type ' + text)
    a, b = m.group(2), m.group(3)
    mod = -1
    if a is not None:
        a, b = int(a), int(b or 0)
        mod = {'varchar': a + 4, 'bpchar': a + 4, 'numeric': ((a << 16) | b) + 4}.get(base, a)
    elif base == 'bpchar' and t.startswith('char'):
        mod = 5
    elif base == 'bit':
        mod = 1
    return base, mod, arr


def modout(base, m):
    if m < 0:
        return ''
    if base in ('varchar', 'bpchar'):
        return '(%d)' % (m - 4)
    if base == 'numeric':
        return '(%d,%d)' % ((m - 4) >> 16, (m - 4) & 0xffff)
    if base in ('time', 'timestamp'):
        return '(%d) without time zone' % m
    if base in ('timetz', 'timestamptz'):
        return '(%d) with time zone' % m
    return '(%d)' % m


def format_type(oid, mod):
    n = OIDNAME.get(oid)
    if n is None:
        return '???'
    arr = n.startswith('_')
    n = n.lstrip('_') if arr else n
    s = LONG.get(n, n)
    m = -1 if mod is None else mod
    if m >= 0:
        if n in ('time', 'timetz', 'timestamp', 'timestamptz'):
            s = n.replace('tz', '') + modout(n, m)
        else:
            s += modout(n, m)
    return s + ('[]' if arr else '')


class Mock:
    """rows of the mocked catalogs for one database"""

    def __init__(self, cat, rng=None, noise=True):
        self.cat, self.rng = cat, rng or random.Random(0)
        self.next = 16384
        self.rows = {k: [] for k in CATS}
        self.text = {}            # (what, oid[, n]) -> text
        self.oids = {}            # (schema, relation) -> oid
        self.noise = noise
        self.build()

    def new(self):
        self.next += self.rng.choice([1, 1, 2, 5])
        return self.next

    def put(self, rel, **v):
        names = [c for c, _ in CATS[rel]]
        for k in v:
            assert k in names, (rel, k)
        self.rows[rel].append(tuple(v.get(c) for c in names))

    def ns(self, s):
        return nsoid(s)

    def cls(self, oid, s, name, kind, natts=0, am=0, options=None):
        self.oids[s, name] = oid
        self.put('pg_class', oid=oid, relname=name, relnamespace=self.ns(s), reltype=0, reloftype=0, relowner=10, relam=am, relfilenode=oid, reltablespace=0, relpages=0, reltuples=-1.0,
                 relallvisible=0, reltoastrelid=0, relhasindex=False, relisshared=False, relpersistence='p', relkind=kind, relnatts=natts, relchecks=0, relhasrules=kind == 'v',
                 relhastriggers=False, relhassubclass=False, relrowsecurity=False, relforcerowsecurity=False, relispopulated=True, relreplident='d', relispartition=False, relrewrite=0,
                 reloptions=options)
        # every relation is in its schema
        self.dep('pg_class', oid, 0, 'pg_namespace', self.ns(s), 0, 'n')

    def att(self, rel, num, name, base, mod, arr, nn=False, default=None, dropped=False):
        oid = ARRAY[base] if arr else TYPES[base][0]
        self.put('pg_attribute', attrelid=rel, attname=name, atttypid=0 if dropped else oid, attlen=-1 if arr else TYPES[base][1], attnum=num, attcacheoff=-1, atttypmod=mod, attndims=int(arr),
                 attbyval=False, attalign='i', attstorage='p', attcompression='', attnotnull=nn, atthasdef=default is not None, atthasmissing=False, attidentity='', attgenerated='',
                 attisdropped=dropped, attislocal=True, attinhcount=0, attstattarget=-1, attcollation=0)
        if default is not None:
            o = self.new()
            self.put('pg_attrdef', oid=o, adrelid=rel, adnum=num, adbin=default)
            self.dep('pg_attrdef', o, 0, 'pg_class', rel, num, 'a')

    def dep(self, c, o, sub, rc, ro, rsub, t):
        self.put('pg_depend', classid=CATOID[c], objid=o, objsubid=sub, refclassid=CATOID[rc], refobjid=ro, refobjsubid=rsub, deptype=t)

    def system(self, rel):
        for num, n in ((-1, 'ctid'), (-2, 'xmin'), (-3, 'cmin'), (-4, 'xmax'), (-5, 'cmax'), (-6, 'tableoid')):
            self.att(rel, num, n, 'oid', -1, False, True)

    def index(self, s, name, rel, tname, cols, exprs, opts, unique, am, primary=False, immediate=True):
        """cols: attnums (0 = expression); exprs: text per expression key; keytext per key"""
        o = self.new()
        amoid = {'btree': 403, 'hash': 405, 'gist': 783, 'gin': 2742, 'brin': 3580, 'spgist': 4000}[am]
        self.cls(o, s, name, 'i', len(cols), amoid)
        self.put('pg_index', indexrelid=o, indrelid=rel, indnatts=len(cols), indnkeyatts=len(cols), indisunique=unique, indnullsnotdistinct=False, indisprimary=primary, indisexclusion=False,
                 indimmediate=immediate, indisclustered=False, indisvalid=True, indcheckxmin=False, indisready=True, indislive=True, indisreplident=False, indkey=list(cols),
                 indcollation=[0] * len(cols), indclass=[1978] * len(cols), indoption=list(opts), indexprs=', '.join(e for e in exprs if e) or None, indpred=None)
        for i, c in enumerate(cols):
            self.att(o, i + 1, self.text.get(('att', rel, c), 'expr'), 'int4', -1, False)
            if c:
                self.dep('pg_class', o, 0, 'pg_class', rel, c, 'a')
        for i, e in enumerate(exprs):
            self.text['key', o, i + 1] = e if e else quote_ident(self.text['att', rel, cols[i]])
        self.text['index', o] = 'CREATE %sINDEX %s ON %s.%s USING %s (%s)' % ('UNIQUE ' if unique else '', quote_ident(name), quote_ident(s), quote_ident(tname), am, ', '.join(
            self.text['key', o, i + 1] + (['', ' DESC NULLS LAST', ' NULLS FIRST', ' DESC'][opts[i]]) for i in range(len(cols))))
        return o

    def con(self, s, name, kind, rel, cols, **v):
        o = self.new()
        d = dict(oid=o, conname=name, connamespace=self.ns(s), contype=kind, condeferrable=False, condeferred=False, convalidated=True, conrelid=rel, contypid=0, conindid=0, conparentid=0,
                 confrelid=0, confupdtype=' ', confdeltype=' ', confmatchtype=' ', conislocal=True, coninhcount=0, connoinherit=True, conkey=list(cols) or None)
        d.update(v)
        self.put('pg_constraint', **d)
        return o

    def build(self):
        cat, r = self.cat, self.rng
        for n, (oid, ln, el, c) in TYPES.items():
            self.put('pg_type', oid=oid, typname=n, typnamespace=11, typowner=10, typlen=ln, typbyval=False, typtype='p' if c == 'P' else 'b', typcategory=c, typispreferred=False, typisdefined=True,
                     typdelim=',', typrelid=0, typsubscript=0, typelem=el, typarray=ARRAY.get(n, 0), typnotnull=False, typbasetype=0, typtypmod=-1, typndims=0, typcollation=0)
        for n, oid in ARRAY.items():
            self.put('pg_type', oid=oid, typname='_' + n, typnamespace=11, typowner=10, typlen=-1, typbyval=False, typtype='b', typcategory='A', typispreferred=False, typisdefined=True, typdelim=',',
                     typrelid=0, typsubscript=0, typelem=TYPES[n][0], typarray=0, typnotnull=False, typbasetype=0, typtypmod=-1, typndims=0, typcollation=0)
        for o, n in ((403, 'btree'), (405, 'hash'), (783, 'gist'), (2742, 'gin'), (3580, 'brin'), (4000, 'spgist'), (2, 'heap')):
            self.put('pg_am', oid=o, amname=n, amhandler=0, amtype='t' if n == 'heap' else 'i')
        for o, n in ((12, 'internal'), (13, 'c'), (14, 'sql'), (13000, 'plpgsql')):
            self.put('pg_language', oid=o, lanname=n, lanowner=10, lanispl=n == 'plpgsql', lanpltrusted=True, lanplcallfoid=0, laninline=0, lanvalidator=0)
        steps = []
        num = {}
        for k, tb in cat['tables'].items():
            steps.append(('t', k))
        r.shuffle(steps)
        for _, (s, t) in steps:
            tb = cat['tables'][s, t]
            o = self.new()
            hole = self.noise and r.random() < .4
            names = list(tb['cols'])
            at = r.randrange(len(names) + 1) if hole else None
            order, n = [], 0
            for j in range(len(names) + 1):
                if at == j:
                    n += 1
                    order.append((n, None))
                if j < len(names):
                    n += 1
                    order.append((n, names[j]))
            self.cls(o, s, t, 'r', n, 2)
            self.system(o)
            for n, c in order:
                if c is None:
                    self.att(o, n, '........pg.dropped.%d........' % n, 'int4', -1, False, dropped=True)
                    continue
                x = tb['cols'][c]
                base, mod, arr = parse_type(x['type'])
                num[s, t, c] = n
                self.text['att', o, n] = c
                self.att(o, n, c, base, mod, arr, x['nn'], gen.default_text(x['default']))
        # keys first: foreign keys depend on their indexes
        keyix = {}
        for (s, t), tb in cat['tables'].items():
            rel = self.oids[s, t]
            for n, x in tb['cons'].items():
                if x['k'] not in ('pk', 'uq'):
                    continue
                cols = [num[s, t, c] for c in x['cols']]
                ix = self.index(s, n, rel, t, cols, [None] * len(cols), [0] * len(cols), True, 'btree', x['k'] == 'pk', not x.get('deferrable'))
                c = self.con(s, n, {'pk': 'p', 'uq': 'u'}[x['k']], rel, cols, conindid=ix, condeferrable=bool(x.get('deferrable')), condeferred=bool(x.get('deferred')))
                self.dep('pg_class', ix, 0, 'pg_constraint', c, 0, 'i')
                for a in cols:
                    self.dep('pg_constraint', c, 0, 'pg_class', rel, a, 'a')
                self.text['con', c] = '%s (%s)%s' % ({'pk': 'PRIMARY KEY', 'uq': 'UNIQUE'}[x['k']], ', '.join(quote_ident(y) for y in x['cols']), defer(x))
                keyix.setdefault((s, t), []).append((tuple(x['cols']), ix, bool(x.get('deferrable'))))
        for (s, i), x in cat['indexes'].items():
            rel = self.oids[s, x['table']]
            cols, exprs, opts = [], [], []
            for k in x['keys']:
                d, nl = k['desc'], k['nulls']
                nf = (nl == 'first') if nl else d
                opts.append((1 if d else 0) + (2 if nf else 0))
                if k['tmpl'] == '{0}':
                    cols.append(num[s, x['table'], k['cols'][0]])
                    exprs.append(None)
                else:
                    cols.append(0)
                    e = k['tmpl'].format(*[quote_ident(c) for c in k['cols']])
                    if e.startswith('(lower('):
                        e = e[1:-1]
                    exprs.append(e)
            ix = self.index(s, i, rel, x['table'], cols, exprs, opts, x['unique'], x['method'])
            if x['unique'] and not any(exprs):
                keyix.setdefault((s, x['table']), []).append((tuple(k['cols'][0] for k in x['keys']), ix, False))
        for (s, t), tb in cat['tables'].items():
            rel = self.oids[s, t]
            for n, x in tb['cons'].items():
                if x['k'] == 'ck':
                    e = x['tmpl'].format(*[quote_ident(c) for c in x['cols']])
                    c = self.con(s, n, 'c', rel, [num[s, t, y] for y in x['cols']], conbin=e, connoinherit=False)
                    # what a constraint added without looking at the rows, or not passed on to children, is shown with
                    self.text['con', c] = 'CHECK ((%s))%s' % (e, r.choice(['', '', ' NOT VALID', ' NO INHERIT', ' NO INHERIT NOT VALID']) if self.noise else '')
                    for a in x['cols']:
                        self.dep('pg_constraint', c, 0, 'pg_class', rel, num[s, t, a], 'a')
                if x['k'] == 'fk':
                    ref = self.oids[x['ref']]
                    cand = [ix for cs, ix, df in keyix[x['ref']] if set(cs) == set(x['rcols']) and len(cs) == len(x['rcols']) and not df]
                    code = {'NO ACTION': 'a', 'RESTRICT': 'r', 'CASCADE': 'c', 'SET NULL': 'n', 'SET DEFAULT': 'd'}
                    ck, fk = [num[s, t, y] for y in x['cols']], [num[x['ref'] + (y,)] for y in x['rcols']]
                    c = self.con(s, n, 'f', rel, ck, condeferrable=bool(x.get('deferrable')), condeferred=bool(x.get('deferred')), conindid=cand[0], confrelid=ref, confkey=fk,
                                 confupdtype=code[x.get('upd', 'NO ACTION')], confdeltype=code[x.get('del', 'NO ACTION')], confmatchtype={'FULL': 'f', 'SIMPLE': 's'}[x.get('match', 'SIMPLE')])
                    for a in ck:
                        self.dep('pg_constraint', c, 0, 'pg_class', rel, a, 'a')
                    for a in fk:
                        self.dep('pg_constraint', c, 0, 'pg_class', ref, a, 'n')
                    self.dep('pg_constraint', c, 0, 'pg_class', cand[0], 0, 'n')
                    q = lambda l: ', '.join(quote_ident(y) for y in l)
                    d = 'FOREIGN KEY (%s) REFERENCES %s(%s)' % (q(x['cols']), '.'.join(quote_ident(y) for y in (x['ref'] if x['ref'][0] != 'public' else x['ref'][1:])), q(x['rcols']))
                    if x.get('match') == 'FULL':
                        d += ' MATCH FULL'
                    for key, w in (('upd', 'UPDATE'), ('del', 'DELETE')):
                        if x.get(key, 'NO ACTION') != 'NO ACTION':
                            d += ' ON %s %s' % (w, x[key])
                    self.text['con', c] = d + defer(x)
        for (s, n), x in cat['seqs'].items():
            o = self.new()
            self.cls(o, s, n, 'S', 3)
            f = gen.seq_full(x)
            for j, (a, ty) in enumerate((('last_value', 'int8'), ('log_cnt', 'int8'), ('is_called', 'bool'))):
                self.att(o, j + 1, a, ty, -1, False, True)
            self.put('pg_sequence', seqrelid=o, seqtypid=TYPES[parse_type(f['type'])[0]][0], seqstart=int(f['start']), seqincrement=int(f['inc']), seqmax=int(f['max']), seqmin=int(f['min']),
                     seqcache=int(f['cache']), seqcycle=f['cycle'] == 'true')
            if x.get('own'):
                self.dep('pg_class', o, 0, 'pg_class', self.oids[s, x['own'][0]], num[s, x['own'][0], x['own'][1]], 'a')
        for (s, v), x in cat['views'].items():
            o = self.new()
            self.cls(o, s, v, 'v', len(x['cols']))
            t = cat['tables'][x['rel']]
            for j, c in enumerate(x['cols']):
                base, mod, arr = parse_type(t['cols'][c]['type'])
                self.att(o, j + 1, c, base, mod, arr)
            self.text['view', o] = ' ' + gen.view_text(x) + ';'
        for (s, f), x in cat['funcs'].items():
            o = self.new()
            i = f.index('(')
            args = f[i + 1:-1].strip()
            types = [TYPES[parse_type(a.strip().split(None, 1)[-1])[0]][0] for a in args.split(',')] if args else []
            ret = (x['returns'] or 'void').lower()
            setof = ret.startswith('setof ')
            lang = (x['language'] or 'SQL').lower()
            b, _, arr = parse_type(ret[6:] if setof else ret)
            self.put('pg_proc', oid=o, proname=f[:i], pronamespace=self.ns(s), proowner=10, prolang={'sql': 14, 'plpgsql': 13000, 'c': 13}[lang], procost=100.0, prorows=1000.0 if setof else 0.0,
                     provariadic=0, prosupport=0, prokind='f', prosecdef=False, proleakproof=False, proisstrict=False, proretset=setof, provolatile={'I': 'i', 'S': 's', 'V': 'v'}[(x['volatility'] or 'V')[0].upper()],
                     proparallel='u', pronargs=len(types), pronargdefaults=0, prorettype=ARRAY[b] if arr else TYPES[b][0], proargtypes=types, prosrc=x['body'])
            self.text['args', o] = ', '.join('%s%s' % (' '.join(quote_ident(w) for w in a.strip().split()[:-1]) + ' ' if len(a.strip().split()) > 1 else '', format_type(ty, None)) for a, ty in zip(args.split(','), types)) if args else ''
            self.text['identity', o] = self.text['args', o]
        if self.noise:
            # objects of other kinds: a domain with a check, a composite type, a sequence of an index-like name in another schema
            d = self.new()
            self.put('pg_type', oid=d, typname='positive', typnamespace=2200, typowner=10, typlen=4, typbyval=True, typtype='d', typcategory='N', typispreferred=False, typisdefined=True, typdelim=',',
                     typrelid=0, typsubscript=0, typelem=0, typarray=0, typnotnull=False, typbasetype=23, typtypmod=-1, typndims=0, typcollation=0)
            self.con_domain(d)
            o = self.new()
            self.cls(o, 'public', 'pair_type', 'c', 2)
            self.att(o, 1, 'a', 'int4', -1, False)
            self.att(o, 2, 'b', 'text', -1, False)
            o = self.new()
            self.cls(o, 'pg_toast', 'pg_toast_1', 't', 3)
            o = self.new()
            self.put('pg_proc', oid=o, proname='version', pronamespace=11, proowner=10, prolang=12, procost=1.0, prorows=0.0, provariadic=0, prosupport=0, prokind='f', prosecdef=False, proleakproof=False,
                     proisstrict=True, proretset=False, provolatile='s', proparallel='s', pronargs=0, pronargdefaults=0, prorettype=25, proargtypes=[], prosrc='pgsql_version')
            self.text['args', o] = self.text['identity', o] = ''
            self.foreign_kinds()

    def foreign_kinds(self):
        """objects podo has no words for, in the schemas it reads: they are not to turn up as anything else"""
        r = self.rng
        for s in sorted(self.cat['schemas']):
            if r.random() < .5:
                o = self.new()
                self.cls(o, s, 'summary of all', 'm', 2)
                self.att(o, 1, 'n', 'int4', -1, False)
                self.att(o, 2, 'label', 'text', -1, False)
                self.text['att', o, 1], self.text['att', o, 2] = 'n', 'label'
                self.text['view', o] = ' SELECT 1 AS n, \'a\'::text AS label;'
                self.index(s, 'summary_of_all_idx', o, 'summary of all', [1], [None], [0], True, 'btree')
            if r.random() < .4:
                o = self.new()
                self.cls(o, s, 'far_away', 'f', 1)
                self.att(o, 1, 'n', 'int4', -1, False)
                c = self.con(s, 'far_away_check', 'c', o, [1], conbin='n > 0', connoinherit=False)
                self.text['con', c] = 'CHECK ((n > 0))'
                self.dep('pg_constraint', c, 0, 'pg_class', o, 1, 'a')
            if r.random() < .5:
                for kind, name, ext in r.sample((('p', 'do_it', False), ('a', 'sum_up', False), ('f', 'digest', True), ('w', 'ranked', False)), r.randrange(1, 4)):
                    o = self.new()
                    self.put('pg_proc', oid=o, proname=name, pronamespace=self.ns(s), proowner=10, prolang={'p': 14, 'f': 13}.get(kind, 12), procost=1.0, prorows=0.0, provariadic=0, prosupport=0, prokind=kind,
                             prosecdef=False, proleakproof=False, proisstrict=False, proretset=False, provolatile='v', proparallel='u', pronargs=1, pronargdefaults=0,
                             prorettype=2278 if kind == 'p' else 23, proargtypes=[23], prosrc={'p': 'SELECT 1', 'f': 'pg_digest'}.get(kind, 'aggregate_dummy'))
                    self.text['args', o] = self.text['identity', o] = 'integer'
                    if ext:
                        self.put('pg_depend', classid=CATOID['pg_proc'], objid=o, objsubid=0, refclassid=3079, refobjid=16400, refobjsubid=0, deptype='e')

    def con_domain(self, d):
        c = self.con('public', 'positive_check', 'c', 0, [], contypid=d, conbin='VALUE > 0')
        self.text['con', c] = 'CHECK ((VALUE > 0))'


def defer(x):
    return (' DEFERRABLE' if x.get('deferrable') else '') + (' INITIALLY DEFERRED' if x.get('deferred') else '')


def nsoid(s):
    fixed = {'pg_catalog': 11, 'pg_toast': 99, 'public': 2200, 'information_schema': 13500}
    if s in fixed:
        return fixed[s]
    if s not in NS:
        NS[s] = 50001 + len(NS)
    return NS[s]


NS = {}


def relation(db, tx, name, schema):
    """the mocked relation, with the database's own schemas and ledger tables added"""
    if schema == 'information_schema':
        if name not in INFO:
            return None
        cols = SPEC(INFO[name])

        def rows(tx):
            vis = [s.name for s in db.schemas if db.vis(s, tx)] + ['pg_catalog', 'information_schema', 'pg_toast']
            if name == 'schemata':
                return [('postgres', s, 'postgres') for s in vis]
            out = [('postgres', t.schema.name, t.name, 'BASE TABLE') for t in db.tables if db.vis(t, tx) and db.vis(t.schema, tx)]
            if db.catalog is not None:
                out += [('postgres', s, t, 'BASE TABLE') for s, t in db.catalog.cat['tables']] + [('postgres', s, t, 'VIEW') for s, t in db.catalog.cat['views']]
            return out
        return Rel(cols, rows)
    if name not in CATS:
        return None
    cols = CATS[name]
    names = [c for c, _ in cols]
    mk = lambda **v: tuple(v.get(c) for c in names)

    def rows(tx):
        out = list(db.catalog.rows[name]) if db.catalog is not None else []
        if name == 'pg_namespace':
            out += [mk(oid=nsoid(s), nspname=s, nspowner=10) for s in ('pg_catalog', 'pg_toast', 'information_schema')]
            out += [mk(oid=nsoid(s.name), nspname=s.name, nspowner=10) for s in db.schemas if db.vis(s, tx)]
        if name == 'pg_class':
            for t in db.tables:
                if db.vis(t, tx) and db.vis(t.schema, tx):
                    out.append(mk(oid=toid(t), relname=t.name, relnamespace=nsoid(t.schema.name), reltype=0, reloftype=0, relowner=10, relam=2, relpersistence='p', relkind='r', relnatts=len(t.cols),
                                  relhasindex=True, relispartition=False))
        if name == 'pg_attribute':
            for t in db.tables:
                if db.vis(t, tx) and db.vis(t.schema, tx):
                    for i, (c, ty, ln, nn, df) in enumerate(t.cols):
                        b = ty[:-2] if ty.endswith('[]') else ty
                        out.append(mk(attrelid=toid(t), attname=c, atttypid=ARRAY[b] if ty.endswith('[]') else TYPES[b][0], attlen=-1, attnum=i + 1, atttypmod=ln + 4 if ln else -1, attnotnull=nn,
                                      atthasdef=df is not None, attidentity='', attgenerated='', attisdropped=False))
        if name == 'pg_tables':
            out += [mk(schemaname=t.schema.name, tablename=t.name, tableowner='postgres') for t in db.tables if db.vis(t, tx) and db.vis(t.schema, tx)]
            if db.catalog is not None:
                out += [mk(schemaname=s, tablename=t, tableowner='postgres') for s, t in db.catalog.cat['tables']]
        return out
    return Rel(cols, rows)


def toid(t):
    if not hasattr(t, 'oid'):
        t.oid = 60000 + id(t) % 100000
    return t.oid


def class_oid(db, tx, parts):
    name = parts[-1]
    if name in CATOID and (len(parts) == 1 or parts[-2] == 'pg_catalog'):
        return CATOID[name]
    s = parts[-2] if len(parts) > 1 else 'public'
    t = db.table([s, name], tx)
    if t is not None:
        return toid(t)
    if db.catalog is not None:
        return db.catalog.oids.get((s, name))
    return None


def function(db, tx, name, args):
    """-> (python function, result type, strict) or None"""
    m = db.catalog
    n = len(args)
    T = lambda k: (lambda o, *a: m.text.get((k, o)) if m is not None else None)
    if name == 'pg_get_expr':
        return (lambda e, *a: e), 'text', True
    if name == 'pg_get_constraintdef':
        return T('con'), 'text', True
    if name == 'pg_get_viewdef':
        return T('view'), 'text', True
    if name == 'pg_get_indexdef':
        if n == 1:
            return T('index'), 'text', True
        return (lambda o, k, p: m.text['index', o] if k == 0 else m.text.get(('key', o, k), '')), 'text', True
    if name in ('pg_get_function_arguments', 'pg_get_function_identity_arguments'):
        return T('args'), 'text', True
    if name == 'pg_get_serial_sequence':
        return None
    if name == 'format_type':
        return (lambda o, t: None if o is None else format_type(o, t)), 'text', False
    if name.endswith('typmodout') and n == 1:
        base = name[:-9]
        if base in TYPES:
            return (lambda t: modout(base, t)), 'cstring', True
    if name in ('pg_has_role', 'has_table_privilege', 'has_any_column_privilege', 'has_schema_privilege', 'has_column_privilege', 'has_sequence_privilege', 'has_function_privilege',
                'pg_table_is_visible', 'pg_function_is_visible', 'pg_type_is_visible'):
        return (lambda *a: True), 'bool', True
    if name == 'pg_is_other_temp_schema':
        return (lambda o: False), 'bool', True
    if name == 'pg_relation_is_updatable':
        return (lambda o, b: 28), 'int4', True
    if name in ('substring', 'substr'):
        def sub(s, a, ln=None):
            i = max(a - 1, 0)
            return s[i:] if ln is None else s[i:max(a - 1 + ln, 0)]
        if n >= 2 and args[1] in INTY:
            return sub, 'text', True
        return None
    if name == 'left':
        return (lambda s, k: s[:k] if k >= 0 else s[:len(s) + k] if len(s) + k > 0 else ''), 'text', True
    if name == 'right':
        return (lambda s, k: '' if k == 0 else s[-k:] if k > 0 else s[-k:]), 'text', True
    if name in ('trim', 'btrim'):
        return (lambda s, c=' ': s.strip(c)), 'text', True
    if name == 'ltrim':
        return (lambda s, c=' ': s.lstrip(c)), 'text', True
    if name == 'rtrim':
        return (lambda s, c=' ': s.rstrip(c)), 'text', True
    if name == 'regexp_replace' and n in (3, 4):
        def rr(s, p, t, fl=''):
            return re.sub(p, lambda k: re.sub(r'\\(\d)', lambda g: k.group(int(g.group(1))) or '', t), s, count=0 if 'g' in fl else 1, flags=re.I if 'i' in fl else 0)
        return rr, 'text', True
    if name == 'quote_ident':
        return quote_ident, 'text', True
    if name == 'quote_literal':
        return (lambda s: "'" + s.replace("'", "''") + "'"), 'text', True
    if name == 'replace':
        return (lambda s, a, b: s.replace(a, b) if a else s), 'text', True
    if name in ('length', 'char_length', 'character_length'):
        return len, 'int4', True
    if name == 'lower':
        return str.lower, 'text', True
    if name == 'upper':
        return str.upper, 'text', True
    if name == 'initcap':
        return (lambda s: s.title()), 'text', True
    if name == 'concat':
        return (lambda *a: ''.join(totext(x) for x in a if x is not None)), 'text', False
    if name == 'concat_ws':
        return (lambda sep, *a: None if sep is None else sep.join(totext(x) for x in a if x is not None)), 'text', False
    if name == 'split_part':
        return (lambda s, d, k: (s.split(d) + [''] * k)[k - 1]), 'text', True
    if name in ('position', 'strpos'):
        return (lambda a, b: a.find(b) + 1), 'int4', True
    if name == 'starts_with':
        return (lambda a, b: a.startswith(b)), 'bool', True
    if name in ('now', 'current_timestamp', 'transaction_timestamp', 'clock_timestamp', 'localtimestamp'):
        return (lambda: 0), 'timestamptz', False
    if name == 'current_database':
        return (lambda: 'postgres'), 'name', False
    if name in ('current_user', 'session_user'):
        return (lambda: 'postgres'), 'name', False
    if name in ('current_schema',):
        return (lambda: 'public'), 'name', False
    if name in ('to_regclass',):
        def reg(s):
            p = P(s)
            parts = p.qname()
            return class_oid(db, tx, parts)
        return reg, 'regclass', True
    if name in ('to_regnamespace',):
        return (lambda s: nsoid(P(s).ident()) if db.schema(P(s).ident(), tx) is not None else None), 'regnamespace', True
    if name in ('array_length', 'array_upper') and n == 2:
        return (lambda a, d: len(a) if a and d == 1 else None), 'int4', True
    if name == 'cardinality':
        return (lambda a: len(a)), 'int4', True
    if name == 'array_lower':
        return (lambda a, d: 1 if a else None), 'int4', True
    if name == 'array_position':
        return (lambda a, x: None if a is None or x not in a else a.index(x) + (0 if args[0] == 'int2vector' else 1)), 'int4', False
    if name == 'array_to_string':
        return (lambda a, s, *k: s.join(totext(x) for x in a if x is not None)), 'text', True
    if name == 'array_remove':
        return (lambda a, x: [y for y in a if y != x]), args[0], False
    if name in ('array_append',):
        return (lambda a, x: (a or []) + [x]), args[0], False
    if name == 'array_cat':
        return (lambda a, b: (a or []) + (b or [])), args[0], False
    if name == 'pg_sequence_parameters':
        return None
    if name == 'obj_description':
        return (lambda *a: None), 'text', False
    if name in ('pg_advisory_xact_lock', 'pg_advisory_lock', 'pg_try_advisory_xact_lock', 'pg_try_advisory_lock', 'pg_advisory_unlock'):
        return advisory(db, tx, name)
    if name == 'hashtext':
        return (lambda s: sum((i + 7) * ord(c) for i, c in enumerate(s)) % 2**31), 'int4', True
    return None


class Advisory:
    """stands for the lock on one advisory key: locked like a table"""


def advisory(db, tx, name):
    if 'xact' not in name:
        return None      # session locks are not modelled

    def f(*k):
        if not hasattr(db, 'advisory'):
            db.advisory = {}
        t = db.advisory.setdefault(k, Advisory())
        if 'try' in name:
            from .engine import Wait
            try:
                db.lock(tx, t, 7)
            except Wait:
                return False
            return True
        db.lock(tx, t, 7)
        return None
    return f, 'bool' if 'try' in name else 'void', True
