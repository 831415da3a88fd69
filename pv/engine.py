"""The PostgreSQL podo talks to, as far as podo uses it: a small multi-version store for the ledger tables, read
committed, with locks; a SELECT interpreter over those tables and over a mocked pg_catalog; every other statement is
an effect that is recorded when its transaction commits. Anything not understood raises Unsupported: no verdict."""
import functools, re, zlib
from .sqllex import lex, SqlError, canon, RESERVED, split_statements
from .pgparse import P, ALIAS


class Unsupported(Exception):
    pass


class Wait(Exception):
    """the statement has to wait for these transactions"""
    def __init__(self, txs):
        self.txs = set(txs)


TEXTY = {'text', 'name', 'varchar', 'bpchar', 'unknown', 'char', 'cstring', 'json', 'pg_node_tree', 'uuid', 'jsonb'}
INTY = {'int2', 'int4', 'int8', 'oid', 'regclass', 'regtype', 'regnamespace'}
CATOID = {'pg_type': 1247, 'pg_attribute': 1249, 'pg_proc': 1255, 'pg_class': 1259, 'pg_attrdef': 2604, 'pg_constraint': 2606,
          'pg_namespace': 2615, 'pg_trigger': 2620, 'pg_index': 2610, 'pg_sequence': 2224, 'pg_depend': 2608, 'pg_language': 2612, 'pg_am': 2601}
LOCKS = ['access share', 'row share', 'row exclusive', 'share update exclusive', 'share', 'share row exclusive', 'exclusive', 'access exclusive']
CONFLICT = {0: {7}, 1: {6, 7}, 2: {4, 5, 6, 7}, 3: {3, 4, 5, 6, 7}, 4: {2, 3, 5, 6, 7}, 5: {2, 3, 4, 5, 6, 7}, 6: {1, 2, 3, 4, 5, 6, 7}, 7: {0, 1, 2, 3, 4, 5, 6, 7}}


class Tx:
    n = 0

    def __init__(self):
        Tx.n += 1
        self.id, self.state = Tx.n, 'active'
        self.effects = []
        self.saves = []
        self.deferred = []        # (table, row): foreign keys to check at the end
        self.locks = {}           # table object -> set of lock levels
        self.rowlocks = []        # (row, 'key share')
        self.snapshot = None      # for repeatable read: set of transactions seen as committed
        self.iso = 'read committed'


class Row:
    __slots__ = ('v', 'xmin', 'xmax', 'share')

    def __init__(self, v, tx):
        self.v, self.xmin, self.xmax, self.share = v, tx, None, []


class Thing:
    """schema or table with a life of its own"""
    def __init__(self, tx):
        self.xmin, self.xmax = tx, None


class Schema(Thing):
    def __init__(self, tx, name):
        super().__init__(tx)
        self.name = name


class Table(Thing):
    def __init__(self, tx, schema, name):
        super().__init__(tx)
        self.schema, self.name = schema, name
        self.cols = []            # (name, type, maxlen, notnull, default)
        self.keys = []            # (constraint, column indexes)
        self.fks = []             # (constraint, column indexes, Table, column indexes, options)
        self.checks = []
        self.rows = []
        self.serial = {}

    def colno(self, c):
        for i, x in enumerate(self.cols):
            if x[0] == c:
                return i
        raise SqlError('column "%s" of relation "%s" does not exist' % (c, self.name), '42703')


GENESIS = Tx()
GENESIS.state = 'committed'


class Db:
    def __init__(self, catalog=None, rng=None, meta=(), schemas=('public',)):
        self.schemas = [Schema(GENESIS, s) for s in schemas]
        self.tables = []
        self.log = []             # effects in commit order
        self.catalog = catalog    # pgcat.Mock or None
        self.rng = rng
        self.meta = set(meta)
        self.commits = 0
        self.reject = None        # predicate on statement text: rejected by the server
        self.active = set()
        self.lenient = False      # schemas that are no ledger's are not looked at: scripts of several projects run here

    # ------------------------------------------------------------ visibility
    def committed(self, x, tx):
        if x is tx:
            return True
        if tx is not None and tx.snapshot is not None and x is not GENESIS:
            return x in tx.snapshot
        return x.state == 'committed'

    def vis(self, o, tx):
        if not self.committed(o.xmin, tx):
            return False
        return o.xmax is None or not self.committed(o.xmax, tx)

    def pending(self, o):
        """transactions that may still change whether o exists"""
        return {x for x in (o.xmin, o.xmax) if x is not None and x.state == 'active'}

    def schema(self, name, tx):
        for s in self.schemas:
            if s.name == name and self.vis(s, tx):
                return s

    def table(self, parts, tx):
        """a real (ledger) table or None"""
        s, n = (parts[-2], parts[-1]) if len(parts) > 1 else ('public', parts[0])
        for t in self.tables:
            if t.schema.name == s and t.name == n and self.vis(t, tx) and self.vis(t.schema, tx):
                return t

    def lock(self, tx, t, level):
        others = {x for x in self.active if x is not tx and x.state == 'active' and CONFLICT[level] & x.locks.get(t, set())}
        if others:
            raise Wait(others)
        tx.locks.setdefault(t, set()).add(level)

    def begin(self):
        t = Tx()
        self.active.add(t)
        return t

    def end(self, tx, commit):
        self.active.discard(tx)
        tx.state = 'committed' if commit else 'aborted'
        if commit:
            if tx.effects or self.wrote(tx):
                self.commits += 1
            self.log += tx.effects
        for t in list(self.tables):
            t.rows = [r for r in t.rows if not (r.xmin.state == 'aborted' or (r.xmax is not None and r.xmax.state == 'committed' and not self.active))]
            for r in t.rows:
                if r.xmax is not None and r.xmax.state == 'aborted':
                    r.xmax = None
                r.share = [x for x in r.share if x.state == 'active']
            if t.xmax is not None and t.xmax.state == 'aborted':
                t.xmax = None
        self.tables = [t for t in self.tables if t.xmin.state != 'aborted']
        for s in self.schemas:
            if s.xmax is not None and s.xmax.state == 'aborted':
                s.xmax = None
        self.schemas = [s for s in self.schemas if s.xmin.state != 'aborted']

    def wrote(self, tx):
        return any(o.xmin is tx or o.xmax is tx for o in self.schemas + self.tables) or any(r.xmin is tx or r.xmax is tx for t in self.tables for r in t.rows)

    # ------------------------------------------------------------ what an observer sees
    def ledgers(self):
        out = {}
        for t in self.tables:
            if self.vis(t, None) and self.vis(t.schema, None) and t.name == 'version':
                names = [c[0] for c in t.cols]
                out[t.schema.name] = [dict(zip(names, r.v)) for r in t.rows if self.vis(r, None)]
        return out

    def schema_names(self):
        return sorted(s.name for s in self.schemas if self.vis(s, None))


# ---------------------------------------------------------------- relations
class Rel:
    """columns [(name, type)], rows: callable(tx) -> list of tuples"""
    def __init__(self, cols, rows):
        self.cols, self.rows = cols, rows


def real_rel(db, t):
    return Rel([(c[0], c[1]) for c in t.cols], lambda tx: [tuple(r.v) for r in t.rows if db.vis(r, tx)])


# ---------------------------------------------------------------- expression compiler
class Scope:
    def __init__(self, parent=None, ghost=False):
        self.ghost = ghost   # holds CTEs only: no row of its own at run time
        self.cols = []       # (alias, name, type, index)
        self.size = 0
        self.rels = {}       # alias -> (offset, n)
        self.parent = parent
        self.ctes = {}
        self.aggs = None

    def add(self, alias, cols):
        off = self.size
        for i, (n, t) in enumerate(cols):
            self.cols.append((alias, n, t, off + i))
        self.rels[alias] = (off, len(cols))
        self.size += len(cols)
        return off

    def cte(self, n):
        s = self
        while s is not None:
            if n in s.ctes:
                return s.ctes[n]
            s = s.parent
        return None


class Env:
    __slots__ = ('row', 'parent', 'aggs', 'tx', 'params', 'win')

    def __init__(self, row, parent, tx, params):
        self.row, self.parent, self.tx, self.params, self.aggs, self.win = row, parent, tx, params, None, None


AGGS = {'array_agg', 'count', 'string_agg', 'bool_and', 'bool_or', 'every', 'max', 'min', 'sum', 'json_agg', 'jsonb_agg'}


def has_agg(e):
    if isinstance(e, tuple):
        if e[:1] == ('func',) and e[1][-1] in AGGS and 'over' not in e[3]:
            return True
        if e[:1] in (('sub',), ('exists',), ('arraysub',), ('select',)):
            return False
        if e[:1] == ('insub',):
            return has_agg(e[1])
        return any(has_agg(x) for x in e)
    if isinstance(e, list):
        return any(has_agg(x) for x in e)
    return False


def eq(a, b):
    if a is None or b is None:
        return None
    return a == b


def cmpf(o):
    def f(a, b):
        if a is None or b is None:
            return None
        if isinstance(a, bool) != isinstance(b, bool) or isinstance(a, str) != isinstance(b, str):
            raise Unsupported('comparison of %r and %r' % (a, b))
        return {'=': a == b, '<>': a != b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b}[o]
    return f


def totext(v, t=None):
    if v is None:
        return None
    if v is True:
        return 'true'
    if v is False:
        return 'false'
    if isinstance(v, list):
        def item(x):
            if x is None:
                return 'NULL'
            s = totext(x)
            if s == '' or s.lower() == 'null' or re.search(r'[{}",\\\s]', s):
                return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
            return s
        return '{' + ','.join(item(x) for x in v) + '}'
    return str(v)


def like(s, p, ci):
    r = ''
    i = 0
    while i < len(p):
        if p[i] == '\\' and i + 1 < len(p):
            i += 1
            r += re.escape(p[i])
        elif p[i] == '%':
            r += '.*'
        elif p[i] == '_':
            r += '.'
        else:
            r += re.escape(p[i])
        i += 1
    return re.fullmatch(r, s, re.S | (re.I if ci else 0)) is not None


def quote_ident(v):
    if re.fullmatch(r'[a-z_][a-z0-9_]*', v) and v not in RESERVED and v not in NONRES:
        return v
    return '"' + v.replace('"', '""') + '"'


# keywords that are not reserved but not unreserved either: quote_ident quotes them
NONRES = set('''between bigint bit boolean char character coalesce dec decimal exists extract float greatest grouping inout int integer interval
least national nchar none normalize nullif numeric out overlay position precision real row setof smallint substring time timestamp treat trim
values varchar xmlattributes xmlconcat xmlelement xmlexists xmlforest xmlnamespaces xmlparse xmlpi xmlroot xmlserialize xmltable
authorization binary collation concurrently cross current_schema freeze full ilike inner is isnull join left like natural notnull outer overlaps
right similar tablesample verbose'''.split())


def parse_array(s):
    """text form of an array -> list of strings"""
    s = s.strip()
    if not (s.startswith('{') and s.endswith('}')):
        raise SqlError('malformed array literal: "%s"' % s, '22P02')
    out, i, body = [], 0, s[1:-1]
    if not body.strip():
        return []
    while True:
        while body[i:i + 1].isspace():
            i += 1
        if body[i:i + 1] == '"':
            i += 1
            b = ''
            while body[i:i + 1] != '"':
                if i >= len(body):
                    raise SqlError('malformed array literal', '22P02')
                if body[i] == '\\':
                    i += 1
                b += body[i]
                i += 1
            i += 1
            out.append(b)
        else:
            j = i
            while j < len(body) and body[j] != ',':
                j += 1
            w = body[i:j].strip()
            out.append(None if w.lower() == 'null' else w)
            i = j
        if i >= len(body):
            return out
        if body[i] != ',':
            raise SqlError('malformed array literal', '22P02')
        i += 1


class Compiler:
    """compiles queries of one statement; params: number -> type (filled by inference)"""

    def __init__(self, db, tx, ptypes=None):
        self.db, self.tx = db, tx
        self.ptypes = dict(ptypes or {})
        self.level = 0            # lock level wanted on real tables read

    # -- relations by name
    def rel(self, parts, scope):
        if len(parts) == 1:
            c = scope.cte(parts[0])
            if c is not None:
                return c
        name = parts[-1]
        if len(parts) == 1 or parts[-2] in ('pg_catalog', 'information_schema'):
            from . import pgcat
            r = pgcat.relation(self.db, self.tx, name, parts[-2] if len(parts) > 1 else 'pg_catalog')
            if r is not None:
                return r
        t = self.db.table(parts, self.tx)
        if t is not None:
            self.db.lock(self.tx, t, self.level)
            return real_rel(self.db, t)
        if len(parts) > 1 and parts[-2] in ('pg_catalog', 'information_schema'):
            raise Unsupported('relation ' + '.'.join(parts))
        if len(parts) == 1 and name.startswith('pg_'):
            raise Unsupported('relation ' + name)
        if len(parts) > 1 and self.db.schema(parts[-2], self.tx) is None:
            raise SqlError('relation "%s" does not exist' % '.'.join(parts), '42P01')
        if self.db.catalog is not None and not (len(parts) > 1 and parts[-2] in self.db.meta):
            raise Unsupported('user table ' + '.'.join(parts))
        raise SqlError('relation "%s" does not exist' % '.'.join(parts), '42P01')

    # -- from clause: returns node with run(base, env) -> list of rows
    def frm(self, f, scope):
        k = f[0]
        if k == 'rel':
            r = self.rel(f[1], scope)
            alias = f[2] or f[1][-1]
            cols = r.cols
            if f[3]:
                cols = [(f[3][i] if i < len(f[3]) else n, t) for i, (n, t) in enumerate(cols)]
            off, n = scope.add(alias, cols), len(cols)

            def run(base, env):
                out = []
                for t in r.rows(env.tx):
                    x = base[:]
                    x[off:off + n] = t
                    out.append(x)
                return out
            run.span, run.table = (off, n), True
            return run
        if k == 'funcrel':
            call, alias, names, ordi = f[1], f[2], f[3], f[4]
            fn = call[1][-1]
            args = [self.expr(a, scope) for a in call[2]]
            if fn == 'unnest':
                if len(args) != 1:
                    raise Unsupported('unnest of several arrays')
                ty = elem(args[0][1])
                series = lambda vs: vs[0] or []
            elif fn == 'generate_subscripts':
                ty = 'int4'
                lo = 0 if args[0][1] == 'int2vector' else 1
                series = lambda vs: [] if not vs[0] else list(range(lo, lo + len(vs[0])))
            elif fn == 'generate_series':
                ty = 'int4'
                series = lambda vs: [] if None in vs else list(range(vs[0], vs[1] + 1, vs[2] if len(vs) > 2 else 1))
            else:
                raise Unsupported('function %s in FROM' % fn)
            cn = (names[0] if names else None) or alias or fn
            cols = [(cn, ty)]
            if ordi:
                cols.append((names[1] if names and len(names) > 1 else 'ordinality', 'int8'))
            off, n = scope.add(alias or fn, cols), len(cols)

            def run(base, env):
                e = Env(base, env.parent, env.tx, env.params)
                out = []
                for i, v in enumerate(series([a[0](e) for a in args])):
                    x = base[:]
                    x[off] = v
                    if n > 1:
                        x[off + 1] = i + 1
                    out.append(x)
                return out
            run.span, run.table = (off, n), False
            return run
        if k == 'subq':
            q, alias, names, lateral = f[1], f[2], f[3], f[4]
            inner, cols = self.select(q, scope if lateral else Scope_of(scope))
            if names:
                cols = [(names[i] if i < len(names) else n, t) for i, (n, t) in enumerate(cols)]
            off, n = scope.add(alias or '?subquery', cols), len(cols)

            def run(base, env):
                e = Env(base, env.parent, env.tx, env.params) if lateral else Env([], env.parent, env.tx, env.params)
                out = []
                for t in inner(e):
                    x = base[:]
                    x[off:off + n] = t
                    out.append(x)
                return out
            run.span, run.table = (off, n), not q[2]['order']
            return run
        if k == 'join':
            kind = f[1]
            l = self.frm(f[2], scope)
            mid = scope.size
            start = min(l.span[0], mid)
            r = self.frm(f[3], scope)
            cond = None
            if f[4] is not None:
                if f[4][0] == 'using':
                    pairs = []
                    for c in f[4][1]:
                        li = [x[3] for x in scope.cols if x[1] == c and l.span[0] <= x[3] < mid]
                        ri = [x[3] for x in scope.cols if x[1] == c and mid <= x[3] < scope.size]
                        if len(li) != 1 or len(ri) != 1:
                            raise SqlError('column "%s" specified in USING clause is ambiguous or missing' % c, '42703')
                        pairs.append((li[0], ri[0]))
                        scope.cols = [x for x in scope.cols if not (x[1] == c and x[3] == ri[0])] + [('?using', '?', 'text', ri[0])]
                    cond = lambda e: all(eq(e.row[a], e.row[b]) for a, b in pairs)
                else:
                    cond = self.boolean(f[4], scope)
            span = (l.span[0], scope.size - l.span[0])

            def ok(row, env):
                if cond is None:
                    return True
                return cond(Env(row, env.parent, env.tx, env.params)) is True

            def run(base, env):
                out, matched = [], set()
                right = r(base, env) if kind in ('right', 'full') else None
                for a in l(base, env):
                    hit = False
                    if right is None:
                        for b in r(a, env):
                            if ok(b, env):
                                hit = True
                                out.append(b)
                    else:
                        for i, b in enumerate(right):
                            x = a[:]
                            x[r.span[0]:r.span[0] + r.span[1]] = b[r.span[0]:r.span[0] + r.span[1]]
                            if ok(x, env):
                                hit = True
                                matched.add(i)
                                out.append(x)
                    if not hit and kind in ('left', 'full'):
                        x = a[:]
                        for j in range(r.span[0], r.span[0] + r.span[1]):
                            x[j] = None
                        out.append(x)
                if kind in ('right', 'full'):
                    for i, b in enumerate(right):
                        if i not in matched:
                            out.append(b)
                return out
            run.span, run.table = span, l.table and r.table or kind != 'x'
            return run
        raise Unsupported('FROM item ' + k)

    # -- queries
    def select(self, q, parent):
        """-> (run(env) -> list of tuples, columns)"""
        if q[0] != 'select':
            q = ('select', q, {'order': [], 'limit': None, 'offset': None, 'lock': False}, [])
        _, body, tail, ctes = q
        holder = Scope(parent, ghost=True)
        for name, cols, cq, rec in ctes:
            if rec and mentions(cq, name):
                self.recursive(name, cols, cq, holder)
                continue
            inner, ccols = self.select(cq, holder)
            if cols:
                ccols = [(cols[i] if i < len(cols) else n, t) for i, (n, t) in enumerate(ccols)]
            holder.ctes[name] = Rel(ccols, (lambda inner: lambda tx: inner(Env([], None, tx, self.cur_params)))(inner))
        if tail['lock']:
            self.level = max(self.level, 1)
        if body[0] == 'core':
            return self.core(body, tail, holder)
        if body[0] == 'select':
            inner, cols = self.select(body, holder)
            return self.tail_only(inner, cols, tail, holder)
        if body[0] == 'values':
            rows = [[self.expr(x, holder) for x in r] for r in body[1]]
            cols = [('column%d' % (i + 1), unify([r[i][1] for r in rows])) for i in range(len(rows[0]))]
            run = lambda env: [tuple(x[0](env) for x in r) for r in rows]
            return self.tail_only(run, cols, tail, holder)
        if body[0] == 'set':
            _, o, al, l, r = body
            a, ca = self.select(l, holder)
            b, cb = self.select(r, holder)
            cols = [(n, unify([t, t2])) for (n, t), (_, t2) in zip(ca, cb)]

            def run(env):
                x, y = a(env), b(env)
                if o == 'union':
                    res = x + y
                elif o == 'except':
                    ky = [repr(z) for z in y]
                    res = [z for z in x if repr(z) not in ky]
                else:
                    ky = [repr(z) for z in y]
                    res = [z for z in x if repr(z) in ky]
                if not al:
                    seen, out = set(), []
                    for z in res:
                        if repr(z) not in seen:
                            seen.add(repr(z))
                            out.append(z)
                    res = out
                return res
            return self.tail_only(run, cols, tail, holder)
        raise Unsupported('query ' + body[0])

    cur_params = None

    def recursive(self, name, cols, cq, holder):
        body = cq[1]
        if body[0] != 'set' or body[1] != 'union':
            raise Unsupported('recursive query')
        base, ccols = self.select(body[3], holder)
        if cols:
            ccols = [(cols[i] if i < len(cols) else n, t) for i, (n, t) in enumerate(ccols)]
        work = []
        holder.ctes[name] = Rel(ccols, lambda tx: list(work))
        step, _ = self.select(body[4], holder)
        keep_all = body[2]

        def rows(tx):
            nonlocal work
            env = Env([], None, tx, self.cur_params)
            acc = base(env)
            work[:] = acc
            acc = list(acc)
            for _ in range(1000):
                new = step(env)
                if not keep_all:
                    new = [x for x in new if x not in acc]
                if not new:
                    break
                acc += new
                work[:] = new
            return acc
        holder.ctes[name] = Rel(ccols, rows)

    def tail_only(self, run, cols, tail, holder):
        s = Scope(holder)
        s.add('?', cols)
        order = [(self.order_expr(e, s, cols), d, n) for e, d, n in tail['order']]
        lim, off = self.limits(tail, holder)

        def go(env):
            rows = run(env)
            if order:
                rows = sort(rows, [(lambda r, f=f: f(Env(list(r), env, env.tx, env.params)), d, n) for f, d, n in order])
            elif self.db.rng is not None and len(rows) > 1:
                rows = list(rows)
                self.db.rng.shuffle(rows)
            return cut(rows, lim(env), off(env))
        return go, cols

    def order_expr(self, e, s, cols):
        if e[0] == 'lit' and e[1] == 'int4':
            i = int(e[2]) - 1
            return lambda env: env.row[i]
        return self.expr(e, s)[0]

    def limits(self, tail, holder):
        f = lambda e: (lambda env: None) if e is None else self.expr(e, holder, 'int8')[0]
        return f(tail['limit']), f(tail['offset'])

    def core(self, body, tail, holder):
        _, distinct, items, frm, where, group, having = body
        s = Scope(holder)
        f = self.frm(frm, s) if frm is not None else None
        conds = self.boolean(where, s) if where is not None else None
        if where is not None and has_agg(where):
            raise SqlError('aggregate functions are not allowed in WHERE', '42803')
        out = []
        for e, name in items:
            if e[0] == 'star':
                for al, n, t, ix in s.cols:
                    if e[1] is None or al == e[1][-1]:
                        out.append((('#', ix), n, t))
            else:
                out.append((e, name or colname(e), None))
        agg = group is not None or having is not None or any(has_agg(e) for e, _, _ in out) or any(has_agg(e) for e, _, _ in tail['order'])
        if agg:
            s.aggs = []
        gexprs = []
        for g in group or []:
            if g[0] == 'lit' and g[1] == 'int4':
                g = out[int(g[2]) - 1][0]
            elif g[0] == 'col' and len(g[1]) == 1 and not any(c[1] == g[1][0] for c in s.cols):
                m = [e for e, n, _ in out if n == g[1][0]]
                g = m[0] if m else g
            gexprs.append(self.expr(g, s)[0])
        comp = []
        for e, n, t in out:
            if e[0] == '#':
                comp.append(((lambda ix: lambda env: env.row[ix])(e[1]), t))
            else:
                comp.append(self.expr(e, s))
        cols = [(n, t) for (_, n, _), (_, t) in zip(out, comp)]
        order = []
        for e, d, n in tail['order']:
            if e[0] == 'lit' and e[1] == 'int4':
                order.append((('out', int(e[2]) - 1), d, n))
            elif e[0] == 'col' and len(e[1]) == 1 and any(c[0] == e[1][0] for c in cols):
                order.append((('out', [c[0] for c in cols].index(e[1][0])), d, n))
            else:
                order.append((self.expr(e, s)[0], d, n))
        hav = self.boolean(having, s) if having is not None else None
        don = [self.expr(e, s)[0] for e in distinct] if isinstance(distinct, list) else None
        lim, off = self.limits(tail, holder)
        aggs = s.aggs
        wins = getattr(s, 'wins', [])
        shuffled = f is not None and f.table

        def run(env):
            base = [None] * s.size
            mk = lambda row: Env(row, env, env.tx, env.params)
            rows = f(base, mk(base)) if f is not None else [base]
            if conds is not None:
                rows = [r for r in rows if conds(mk(r)) is True]
            if self.db.rng is not None and shuffled and len(rows) > 1:
                self.db.rng.shuffle(rows)
            envs = [mk(r) for r in rows]
            if agg:
                groups = {}
                for e in envs:
                    groups.setdefault(repr([g(e) for g in gexprs]), []).append(e)
                if group is None and not groups:
                    groups = {'': []}
                envs = []
                for k, es in groups.items():
                    e = mk(es[0].row if es else [None] * s.size)
                    e.aggs = [a(es) for a in aggs]
                    if hav is None or hav(e) is True:
                        envs.append(e)
            for w in wins:
                w(envs)
            res = [(tuple(c[0](e) for c in comp), e) for e in envs]
            if order:
                res = sort(res, [((lambda x, k=k[1]: x[0][k]) if isinstance(k, tuple) else (lambda x, k=k: k(x[1])), d, n) for k, d, n in order])
            if distinct is True:
                seen, o2 = set(), []
                for x in res:
                    if repr(x[0]) not in seen:
                        seen.add(repr(x[0]))
                        o2.append(x)
                res = o2
            elif don:
                seen, o2 = set(), []
                for x in res:
                    kk = repr([d(x[1]) for d in don])
                    if kk not in seen:
                        seen.add(kk)
                        o2.append(x)
                res = o2
            return cut([x[0] for x in res], lim(env), off(env))
        return run, cols

    # -- expressions: -> (fn(env), type)
    def boolean(self, e, s):
        f, t = self.expr(e, s, 'bool')
        if t not in ('bool', 'unknown'):
            raise SqlError('argument of WHERE must be type boolean, not type %s' % t, '42804')
        return f

    def expr(self, e, s, want=None):
        k = e[0]
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression ' + k)
        return m(e, s, want)

    def x_lit(self, e, s, want):
        ty, v = e[1], e[2]
        if ty == 'int4':
            n = int(v)
            return (lambda env: n), 'int4' if abs(n) < 2**31 else 'int8'
        if ty == 'numeric':
            x = float(v)
            return (lambda env: x), 'numeric'
        if ty == 'unknown' and want and want not in TEXTY and v is not None:
            c = self.fromtext(v, want)
            return (lambda env: c), want
        return (lambda env: v), (want if ty == 'unknown' and want else ty)

    def fromtext(self, v, ty):
        try:
            if ty.endswith('[]'):
                el = ty[:-2]
                return [None if x is None else x if el in TEXTY else self.fromtext(x, el) for x in parse_array(v)]
            if ty in ('int2', 'int4', 'int8', 'oid'):
                return int(v)
            if ty == 'bool':
                return {'t': True, 'true': True, 'f': False, 'false': False, 'yes': True, 'no': False, 'on': True, 'off': False, '1': True, '0': False}[v.strip().lower()]
            if ty == 'regclass':
                return self.regclass(v)
            if ty in ('timestamp', 'timestamptz', 'numeric', 'float8', 'interval', 'date'):
                return v
        except (ValueError, KeyError):
            raise SqlError('invalid input syntax for type %s: "%s"' % (ty, v), '22P02')
        if ty in TEXTY:
            return v
        raise Unsupported('literal of type ' + ty)

    def regclass(self, v):
        p = P(v)
        parts = p.qname()
        p.eof()
        from . import pgcat
        o = pgcat.class_oid(self.db, self.tx, parts)
        if o is None:
            raise SqlError('relation "%s" does not exist' % v, '42P01')
        return o

    def x_param(self, e, s, want):
        n = e[1]
        t = self.ptypes.get(n)
        if t is None:
            t = want or None
            if t is None:
                return (lambda env: env.params[n - 1]), 'unknown'
            if t == 'unknown':
                t = 'text'
            self.ptypes[n] = t
        return (lambda env: env.params[n - 1]), t

    def x_col(self, e, s, want):
        parts = e[1]
        depth, sc = 0, s
        while sc is not None:
            if len(parts) == 1:
                hit = [c for c in sc.cols if c[1] == parts[0]]
            else:
                hit = [c for c in sc.cols if c[1] == parts[-1] and c[0] == parts[-2]]
            if len(hit) > 1:
                raise SqlError('column reference "%s" is ambiguous' % parts[-1], '42702')
            if hit:
                ix, ty = hit[0][3], hit[0][2]
                return self.up(depth, ix), ty
            if len(parts) == 1 and parts[0] in sc.rels and sc.rels[parts[0]][1] == 1:
                ix = sc.rels[parts[0]][0]
                ty = [c[2] for c in sc.cols if c[3] == ix][0]
                return self.up(depth, ix), ty
            sc, depth = sc.parent, depth + (0 if sc.ghost else 1)
        if len(parts) > 1 and any(parts[-2] in x.rels for x in chain(s)):
            self.unknown_column(parts, s)
        if len(parts) > 1:
            raise SqlError('missing FROM-clause entry for table "%s"' % parts[-2], '42P01')
        self.unknown_column(parts, s)

    def unknown_column(self, parts, s):
        raise SqlError('column "%s" does not exist' % '.'.join(parts), '42703')

    @staticmethod
    def up(depth, ix):
        if depth == 0:
            return lambda env: env.row[ix]

        def f(env):
            for _ in range(depth):
                env = env.parent
            return env.row[ix]
        return f

    def x_and(self, e, s, want):
        a, b = self.boolean(e[1], s), self.boolean(e[2], s)

        def f(env):
            x = a(env)
            if x is False:
                return False
            y = b(env)
            if y is False:
                return False
            return None if x is None or y is None else True
        return f, 'bool'

    def x_or(self, e, s, want):
        a, b = self.boolean(e[1], s), self.boolean(e[2], s)

        def f(env):
            x = a(env)
            if x is True:
                return True
            y = b(env)
            if y is True:
                return True
            return None if x is None or y is None else False
        return f, 'bool'

    def x_not(self, e, s, want):
        a = self.boolean(e[1], s)
        return (lambda env: (lambda x: None if x is None else not x)(a(env))), 'bool'

    def x_is(self, e, s, want):
        a, _ = self.expr(e[2], s)
        neg = e[3]
        t = {'null': lambda v: v is None, 'true': lambda v: v is True, 'false': lambda v: v is False}[e[1]]
        return (lambda env: t(a(env)) != neg), 'bool'

    def x_distinct(self, e, s, want):
        a, b = self.pair(e[1], e[2], s)
        neg = e[3]
        return (lambda env: (a(env) != b(env)) != neg), 'bool'

    def pair(self, l, r, s):
        weak = lambda x: x[0] == 'param' or (x[0] == 'lit' and x[1] == 'unknown')
        if weak(l) and not weak(r):
            b = self.expr(r, s)
            a = self.expr(l, s, b[1])
        else:
            a = self.expr(l, s)
            b = self.expr(r, s, a[1] if weak(r) and a[1] != 'unknown' else ('text' if weak(r) else None))
            if weak(l) and a[1] == 'unknown':
                a = self.expr(l, s, b[1] if b[1] != 'unknown' else 'text')
        self.pt = (a[1], b[1])
        return a[0], b[0]

    def x_bin(self, e, s, want):
        o = e[1]
        if o in ('=', '<>', '<', '>', '<=', '>='):
            a, b = self.pair(e[2], e[3], s)
            ta, tb = self.pt
            cls = lambda t: 'n' if t in INTY or t in ('numeric', 'float8') else 't' if t in TEXTY else t
            if cls(ta) != cls(tb) and 'unknown' not in (ta, tb) and not (cls(ta) == 'n' and cls(tb) == 'n'):
                raise SqlError('operator does not exist: %s %s %s' % (ta, o, tb), '42883')
            c = cmpf(o)
            return (lambda env: c(a(env), b(env))), 'bool'
        if o == '||':
            a, ta = self.expr(e[2], s)
            b, tb = self.expr(e[3], s)
            if ta.endswith('[]') or tb.endswith('[]'):
                def f(env):
                    x, y = a(env), b(env)
                    lx = x if isinstance(x, list) else [] if x is None and ta.endswith('[]') else [x]
                    ly = y if isinstance(y, list) else [] if y is None and tb.endswith('[]') else [y]
                    return lx + ly
                return f, ta if ta.endswith('[]') else tb
            return (lambda env: (lambda x, y: None if x is None or y is None else totext(x) + totext(y))(a(env), b(env))), 'text'
        if o in ('+', '-', '*', '/', '%', '&', '|', '#', '<<', '>>'):
            a, b = self.pair(e[2], e[3], s)
            ta, tb = self.pt
            ops = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '/': lambda x, y: int(x / y) if isinstance(x, int) and isinstance(y, int) else x / y,
                   '%': lambda x, y: x - y * int(x / y), '&': lambda x, y: x & y, '|': lambda x, y: x | y, '#': lambda x, y: x ^ y, '<<': lambda x, y: x << y, '>>': lambda x, y: x >> y}
            if not {ta, tb} <= INTY | {'numeric', 'float8', 'unknown'}:
                raise Unsupported('%s %s %s' % (ta, o, tb))
            ty = 'int8' if 'int8' in (ta, tb) else 'numeric' if 'numeric' in (ta, tb) else 'int4'
            return (lambda env: (lambda x, y: None if x is None or y is None else ops[o](x, y))(a(env), b(env))), ty
        if o in ('~', '!~', '~*', '!~*'):
            a, b = self.pair(e[2], e[3], s)
            fl = re.I if o.endswith('*') else 0
            neg = o.startswith('!')
            return (lambda env: (lambda x, y: None if x is None or y is None else bool(re.search(y, x, fl)) != neg)(a(env), b(env))), 'bool'
        if o in ('@>', '<@', '&&'):
            a, b = self.pair(e[2], e[3], s)
            ops = {'@>': lambda x, y: set(y) <= set(x), '<@': lambda x, y: set(x) <= set(y), '&&': lambda x, y: bool(set(x) & set(y))}
            return (lambda env: (lambda x, y: None if x is None or y is None else ops[o](x, y))(a(env), b(env))), 'bool'
        raise Unsupported('operator ' + o)

    def x_un(self, e, s, want):
        a, t = self.expr(e[2], s, want)
        if e[1] == '-':
            return (lambda env: (lambda x: None if x is None else -x)(a(env))), t
        if e[1] == '+':
            return a, t
        raise Unsupported('operator ' + e[1])

    def x_paren(self, e, s, want):
        return self.expr(e[1], s, want)

    def x_like(self, e, s, want):
        a, b = self.pair(e[1], e[2], s)
        neg, ci = e[3], e[4]
        return (lambda env: (lambda x, y: None if x is None or y is None else like(x, y, ci) != neg)(a(env), b(env))), 'bool'

    def x_between(self, e, s, want):
        f, _ = self.x_and(('and', ('bin', '>=', e[1], e[2]), ('bin', '<=', e[1], e[3])), s, None)
        if e[4]:
            return (lambda env: (lambda x: None if x is None else not x)(f(env))), 'bool'
        return f, 'bool'

    def x_in(self, e, s, want):
        fs = [self.x_bin(('bin', '=', e[1], x), s, None)[0] for x in e[2]]
        neg = e[3]

        def f(env):
            v = [g(env) for g in fs]
            r = True if True in v else None if None in v else False
            return r if not neg or r is None else not r
        return f, 'bool'

    def x_insub(self, e, s, want):
        a, _ = self.expr(e[1], s)
        run, cols = self.select(e[2], s)
        neg = e[3]

        def f(env):
            x = a(env)
            vs = [r[0] for r in run(env)]
            r = False if not vs else None if x is None else True if x in vs else None if None in vs else False
            return r if not neg or r is None else not r
        return f, 'bool'

    def x_anyall(self, e, s, want):
        _, o, kind, l, r = e
        if r[0] == 'sub':
            a, ta = self.expr(l, s)
            run, cols = self.select(r[1], s)
            arr = lambda env: [x[0] for x in run(env)]
        else:
            if l[0] == 'param' or (l[0] == 'lit' and l[1] == 'unknown'):
                ar, tr = self.expr(r, s)
                a, ta = self.expr(l, s, elem(tr))
            else:
                a, ta = self.expr(l, s)
                ar, tr = self.expr(r, s, ta + '[]')
            arr = ar
        c = cmpf(o)

        def f(env):
            x, ys = a(env), arr(env)
            if ys is None:
                return None
            v = [c(x, y) for y in ys]
            if kind == 'any':
                return True if True in v else None if None in v else False
            return False if False in v else None if None in v else True
        return f, 'bool'

    def x_case(self, e, s, want):
        _, operand, whens, els = e
        cs = [self.x_bin(('bin', '=', operand, c), s, None)[0] if operand is not None else self.boolean(c, s) for c, _ in whens]
        probe = [self.expr(v, s) for _, v in whens] + ([self.expr(els, s)] if els is not None else [])
        ty = unify([t for _, t in probe])
        vs = [self.expr(v, s, ty if ty != 'unknown' else None)[0] for _, v in whens]
        el = self.expr(els, s, ty if ty != 'unknown' else None)[0] if els is not None else (lambda env: None)

        def f(env):
            for c, v in zip(cs, vs):
                if c(env) is True:
                    return v(env)
            return el(env)
        return f, 'text' if ty == 'unknown' else ty

    def x_cast(self, e, s, want):
        ty = e[2]
        base = re.sub(r'\(.*?\)', '', ty)
        if base == '"char"' or base == '"char"[]':
            base = base.replace('"char"', 'char')
        if base.startswith('information_schema.'):
            base = {'character_data': 'varchar', 'sql_identifier': 'name', 'cardinal_number': 'int4', 'yes_or_no': 'varchar'}.get(base.split('.')[1])
            if base is None:
                raise Unsupported('type ' + ty)
        if e[1][0] == 'param' and e[1][1] not in self.ptypes:
            self.ptypes[e[1][1]] = base
        a, t = self.expr(e[1], s, base if e[1][0] == 'lit' and e[1][1] == 'unknown' else None)
        if t == base or (t == 'unknown' and base in TEXTY):
            return a, base
        return self.castf(a, t, base), base

    def castf(self, a, t, base):
        if base in TEXTY and base not in ('json', 'jsonb', 'uuid'):
            return lambda env: totext(a(env), t)
        if base in ('json', 'jsonb'):
            import json

            def f(env):
                v = a(env)
                if v is None:
                    return None
                try:
                    json.loads(v)
                except ValueError:
                    raise SqlError('invalid input syntax for type json', '22P02')
                return v
            return f
        if base in INTY and t in INTY | {'numeric', 'float8'}:
            return lambda env: (lambda v: None if v is None else int(v))(a(env))
        if base == 'int4' and t == 'bool':
            return lambda env: (lambda v: None if v is None else int(v))(a(env))
        if t in TEXTY:
            return lambda env: (lambda v: None if v is None else self.fromtext(v, base))(a(env))
        if base.endswith('[]') and (t.endswith('[]') or t in ('int2vector', 'oidvector')):
            el, src = base[:-2], elem(t)
            if (el in TEXTY and src in TEXTY) or (el in INTY and src in INTY) or el == src:
                return a
            if el in TEXTY:
                return lambda env: (lambda v: None if v is None else [totext(x) for x in v])(a(env))
        if base in ('timestamp', 'timestamptz', 'numeric', 'float8', 'regtype', 'regclass', 'regnamespace'):
            return a
        raise Unsupported('cast from %s to %s' % (t, base))

    def x_row(self, e, s, want):
        fs = [self.expr(x, s)[0] for x in e[1]]
        return (lambda env: tuple(f(env) for f in fs)), 'record'

    def x_array(self, e, s, want):
        probe = [self.expr(x, s, elem(want) if want and want.endswith('[]') else None) for x in e[1]]
        ty = unify([t for _, t in probe]) if probe else 'text'
        if ty == 'unknown':
            ty = 'text'
        fs = [f for f, _ in probe]
        return (lambda env: [f(env) for f in fs]), ty + '[]'

    def x_arraysub(self, e, s, want):
        run, cols = self.select(e[1], s)
        return (lambda env: [r[0] for r in run(env)]), cols[0][1] + '[]'

    def x_idx(self, e, s, want):
        a, t = self.expr(e[1], s)
        b, _ = self.expr(e[2], s, 'int4')
        lo = 0 if t in ('int2vector', 'oidvector') else 1

        def f(env):
            x, i = a(env), b(env)
            if x is None or i is None or not lo <= i < lo + len(x):
                return None
            return x[i - lo]
        return f, elem(t)

    def x_sub(self, e, s, want):
        run, cols = self.select(e[1], s)
        if len(cols) != 1:
            raise SqlError('subquery must return only one column', '42601')

        def f(env):
            r = run(env)
            if len(r) > 1:
                raise SqlError('more than one row returned by a subquery used as an expression', '21000')
            return r[0][0] if r else None
        return f, cols[0][1]

    def x_exists(self, e, s, want):
        run, _ = self.select(e[1], s)
        return (lambda env: bool(run(env))), 'bool'

    def x_func(self, e, s, want):
        name, args, opts = e[1][-1], e[2], e[3]
        if 'over' in opts:
            return self.window(name, args, opts, s)
        if name in AGGS:
            return self.agg(name, args, opts, s)
        from . import pgcat
        if name == 'coalesce' or name in ('greatest', 'least'):
            probe = [self.expr(a, s) for a in args]
            ty = unify([t for _, t in probe])
            fs = [self.expr(a, s, ty if ty != 'unknown' else 'text')[0] for a in args]
            if name == 'coalesce':
                return (lambda env: next((v for v in (f(env) for f in fs) if v is not None), None)), 'text' if ty == 'unknown' else ty
            pick = max if name == 'greatest' else min
            return (lambda env: (lambda v: pick(v) if v else None)([x for x in (f(env) for f in fs) if x is not None])), ty
        if name == 'nullif':
            a, b = self.pair(args[0], args[1], s)
            ty = self.pt[0]
            return (lambda env: (lambda x, y: None if x == y else x)(a(env), b(env))), ty
        fs = [self.expr(a, s) for a in args]
        r = pgcat.function(self.db, self.tx, name, [t for _, t in fs])
        if r is None:
            raise Unsupported('function %s(%s)' % (name, ', '.join(t for _, t in fs)))
        fn, ty, strict = r
        vs = [f for f, _ in fs]

        def f(env):
            x = [v(env) for v in vs]
            if strict and None in x:
                return None
            return fn(*x)
        return f, ty

    def agg(self, name, args, opts, s):
        if s.aggs is None:
            raise SqlError('aggregate functions are not allowed here', '42803')
        saved, s.aggs = s.aggs, None
        try:
            fs = [self.expr(a, s) for a in args]
            order = [(self.expr(e, s)[0], d, n) for e, d, n in opts.get('order', [])]
            flt = self.boolean(opts['filter'], s) if 'filter' in opts else None
        finally:
            s.aggs = saved
        dist = opts.get('distinct')

        def collect(envs):
            es = [e for e in envs if flt is None or flt(e) is True]
            if order:
                es = sort(es, [(f, d, n) for f, d, n in order])
            rows = [tuple(f(e) for f, _ in fs) for e in es]
            if dist:
                o2 = []
                for r in rows:
                    if r not in o2:
                        o2.append(r)
                rows = o2 if order else sort(o2, [(lambda r: r[0], False, None)])
            return rows
        t0 = fs[0][1] if fs else None

        def nn(envs):
            return [r[0] for r in collect(envs) if r[0] is not None]
        table = {
            'array_agg': (lambda es: (lambda v: v or None)([r[0] for r in collect(es)]), (t0 or '') + '[]'),
            'count': ((lambda es: len([e for e in es if flt is None or flt(e) is True])) if not fs else (lambda es: len(nn(es))), 'int8'),
            'string_agg': (lambda es: (lambda rows: ''.join((('' if i == 0 else r[1]) + r[0]) for i, r in enumerate(rows)) if rows else None)([r for r in collect(es) if r[0] is not None]), 'text'),
            'bool_and': (lambda es: (lambda v: all(v) if v else None)(nn(es)), 'bool'),
            'every': (lambda es: (lambda v: all(v) if v else None)(nn(es)), 'bool'),
            'bool_or': (lambda es: (lambda v: any(v) if v else None)(nn(es)), 'bool'),
            'max': (lambda es: (lambda v: max(v) if v else None)(nn(es)), t0),
            'min': (lambda es: (lambda v: min(v) if v else None)(nn(es)), t0),
            'sum': (lambda es: (lambda v: sum(v) if v else None)(nn(es)), 'int8'),
        }
        if name not in table:
            raise Unsupported('aggregate ' + name)
        fn, ty = table[name]
        ix = len(s.aggs)
        s.aggs.append(fn)
        return (lambda env: env.aggs[ix]), ty

    def window(self, name, args, opts, s):
        if name not in ('row_number', 'rank', 'first_value', 'last_value', 'lag', 'lead', 'count', 'max', 'min'):
            raise Unsupported('window function ' + name)
        if name in ('first_value', 'last_value', 'lag', 'lead', 'rank', 'count', 'max', 'min'):
            raise Unsupported('window function ' + name)
        part = [self.expr(e, s)[0] for e in opts['over']['partition']]
        order = [(self.expr(e, s)[0], d, n) for e, d, n in opts['over']['order']]
        if not hasattr(s, 'wins'):
            s.wins = []
        ix = len(s.wins)

        def w(envs):
            groups = {}
            for e in envs:
                groups.setdefault(repr([p(e) for p in part]), []).append(e)
            for es in groups.values():
                for i, e in enumerate(sort(es, order) if order else es):
                    if e.win is None:
                        e.win = {}
                    e.win[ix] = i + 1
        s.wins.append(w)
        return (lambda env: env.win[ix]), 'int8'


def Scope_of(scope):
    """scope for a non-lateral subquery: the same level of nesting, none of the columns"""
    s = Scope(scope.parent)
    s.ctes = scope.ctes
    return s


def chain(s):
    while s is not None:
        yield s
        s = s.parent


def mentions(q, name):
    if isinstance(q, tuple):
        if q[:1] == ('rel',) and q[1] == [name]:
            return True
        return any(mentions(x, name) for x in q)
    if isinstance(q, list):
        return any(mentions(x, name) for x in q)
    return False


def elem(t):
    if t in ('int2vector',):
        return 'int2'
    if t in ('oidvector',):
        return 'oid'
    return t[:-2] if t.endswith('[]') else 'text' if t == 'unknown' else t


def unify(ts):
    known = [t for t in ts if t != 'unknown']
    if not known:
        return 'unknown'
    if all(t == known[0] for t in known):
        return known[0]
    for order in (['int2', 'int4', 'int8', 'numeric', 'float8'],):
        if all(t in order for t in known):
            return max(known, key=order.index)
    if all(t in TEXTY for t in known):
        return 'text'
    if all(t in INTY for t in known):
        return 'int8'
    raise SqlError('CASE types %s and %s cannot be matched' % (known[0], known[1]), '42804')


def colname(e):
    k = e[0]
    if k == 'col':
        return e[1][-1]
    if k == 'func':
        return e[1][-1]
    if k == 'cast':
        n = colname(e[1])
        return n if n != '?column?' else e[2].strip('"')
    if k == 'case':
        return 'case'
    if k == 'exists':
        return 'exists'
    if k in ('array', 'arraysub'):
        return 'array'
    if k == 'sub':
        b = e[1][1]
        return (b[2][0][1] or colname(b[2][0][0])) if b[0] == 'core' and b[2] else '?column?'
    return '?column?'


def sort(rows, keys):
    rows = list(rows)
    for f, desc, nulls in reversed(keys):
        first = nulls == 'first' if nulls else desc

        def k(r, f=f, desc=desc, first=first):
            v = f(r)
            if v is None:
                return (0 if first else 2, 0)
            return (1, v)
        nn = [(k(r), i, r) for i, r in enumerate(rows)]
        a = [x for x in nn if x[0][0] == 0]
        b = sorted([x for x in nn if x[0][0] == 1], key=lambda x: x[0][1], reverse=False)
        if desc:
            # stable descending
            b = sorted([x for x in nn if x[0][0] == 1], key=lambda x: x[0][1], reverse=True)
        c = [x for x in nn if x[0][0] == 2]
        rows = [x[2] for x in a + b + c]
    return rows


def cut(rows, lim, off):
    if off:
        rows = rows[off:]
    if lim is not None:
        rows = rows[:lim]
    return rows


# ---------------------------------------------------------------- statements
class Prepared:
    """result of analysing one statement: params (types in order), cols or None, run(params) -> (rows or None, tag)"""
    def __init__(self, params, cols, run):
        self.params, self.cols, self.run = params, cols, run


def plist(ptypes):
    return [ptypes.get(i + 1, 'text') for i in range(max(ptypes) if ptypes else 0)]


TYPES_OK = {'varchar', 'text', 'json', 'jsonb', 'text[]', 'varchar[]', 'timestamp', 'timestamptz', 'int4', 'int8', 'int2', 'bool', 'name', 'uuid', 'bpchar', 'name[]', 'numeric', 'date'}


@functools.lru_cache(4096)
def normal(stmt):
    """the statement without what surrounds it: blanks, semicolons, comments"""
    try:
        parts = split_statements(stmt)
    except SqlError:
        parts = []
    return parts[0] if len(parts) == 1 else stmt.strip().rstrip(';').strip()


REASONS = ['P0001', '42P07', '42P06', '42710', '42701', '42P01', '42704', '3F000', '2BP01', '23505', '23502', '0A000', '42501', '55P03', '57014', '40001', '40P01', '53100', 'XX000', '01000']

USUAL = [('create schema', '42P06'), ('create function', '42723'), ('create', '42P07'), ('alter table .* add constraint', '42710'), ('alter table .* add', '42701'), ('alter table .* drop constraint', '42704'),
         ('alter table .* drop', '42703'), ('alter', '42P01'), ('drop schema', '3F000'), ('drop function', '42883'), ('drop index', '42704'), ('drop', '42P01')]


def reason(text):
    """the SQLSTATE with which a statement is rejected: any of them, and always the same one for a statement"""
    h = zlib.crc32(normal(text).encode())
    w = ' '.join(text.lower().split())
    usual = [c for p, c in USUAL if re.match(p, w)]
    return usual[0] if usual and h % 2 else REASONS[h // 2 % len(REASONS)]


class Session:
    """SQL-level session: transaction control and statement execution, no protocol"""

    def __init__(self, db):
        self.db = db
        self.tx = None          # explicit transaction
        self.failed = False
        self.closed = False

    # every call runs inside self.tx or a transaction of its own
    def analyse(self, text):
        """semantic analysis as Parse does; raises SqlError / Wait / Unsupported"""
        toks = lex(text)
        parts = split_statements(text)
        if len(parts) > 1:
            raise SqlError('cannot insert multiple commands into a prepared statement', '42601')
        if not parts:
            return Prepared([], None, lambda params: (None, ''))
        if self.failed and not is_end(toks):
            raise SqlError('current transaction is aborted, commands ignored until end of transaction block', '25P02')
        return self.prepare(parts[0])

    def with_tx(self, fn):
        """run fn(tx); implicit transactions commit at once"""
        if self.tx is not None:
            try:
                return fn(self.tx)
            except SqlError:
                self.failed = True
                raise
        tx = self.db.begin()
        try:
            r = fn(tx)
        except Wait:
            self.db.active.discard(tx)
            tx.state = 'aborted'
            raise
        except SqlError:
            self.db.end(tx, False)
            raise
        try:
            self.settle(tx)
        except Wait:
            self.db.active.discard(tx)
            tx.state = 'aborted'
            raise
        except SqlError:
            self.db.end(tx, False)
            raise
        self.db.end(tx, True)
        return r

    def settle(self, tx):
        """deferred foreign keys"""
        try:
            for t, v in tx.deferred:
                if any(r.v is v and self.db.vis(r, tx) for r in t.rows):
                    self.fk_out(t, v, tx, [], True)
        except SqlError:
            self.db.end(tx, False)
            if self.tx is tx:
                self.tx, self.failed = None, False
            raise
        tx.deferred = []

    def fail(self):
        if self.tx is not None:
            self.failed = True

    def status(self):
        return 'E' if self.failed else 'T' if self.tx is not None else 'I'

    def abort(self):
        if self.tx is not None:
            self.db.end(self.tx, False)
        self.tx, self.failed = None, False

    def prepare(self, text):
        p = P(text)
        w = p.c.v if p.c.k == 'id' else ''
        control = self.control(p, w, text)
        if control is not None:
            return Prepared([], None, control)
        if w in ('select', 'with', 'values', 'table') or p.op('('):
            return self.query(p)
        if w in ('insert', 'update', 'delete'):
            return self.dml(p, text)
        if w == 'lock':
            return Prepared([], None, lambda params: self.with_tx(lambda tx: self.lock_table(text, tx)))
        if w == 'create' and p.la().v == 'schema':
            return Prepared([], None, lambda params: self.with_tx(lambda tx: self.create_schema(text, tx)))
        if w == 'drop' and p.la().v == 'schema':
            return Prepared([], None, lambda params: self.with_tx(lambda tx: self.drop_schema(text, tx)))
        if w == 'create' and p.la().v in ('table', 'unlogged', 'temp', 'temporary'):
            return Prepared([], None, lambda params: self.with_tx(lambda tx: self.create_table(text, tx)))
        if w in ('show',):
            raise Unsupported(text)
        return Prepared([], None, lambda params: self.with_tx(lambda tx: self.effect(text, tx)))

    # -- transaction control
    def control(self, p, w, text):
        if w in ('begin', 'start'):
            iso = ' '.join(t.v for t in p.t if t.k == 'id')

            def f(params):
                if self.tx is None:
                    self.tx, self.failed = self.db.begin(), False
                    if 'repeatable read' in iso or 'serializable' in iso:
                        self.tx.iso = 'repeatable read'
                return None, 'BEGIN'
            return f
        if w in ('commit', 'end'):
            def f(params):
                bad = self.failed
                if self.tx is not None and not bad:
                    self.settle(self.tx)
                if self.tx is not None:
                    self.db.end(self.tx, not self.failed)
                self.tx, self.failed = None, False
                return None, 'ROLLBACK' if bad else 'COMMIT'
            return f
        if w == 'savepoint' or w == 'release' or (w == 'rollback' and any(t.k == 'id' and t.v == 'to' for t in p.t)):
            name = [t.v for t in p.t if t.k in ('id', 'qid')][-1]
            return lambda params: self.savepoint(w, name)
        if w in ('rollback', 'abort') and not any(t.k == 'id' and t.v in ('to',) for t in p.t):
            def f(params):
                self.abort()
                return None, 'ROLLBACK'
            return f
        if w == 'set':
            words = ' '.join(str(t.v) for t in p.t if t.v is not None).lower()
            if 'transaction isolation' in words and self.tx is not None and ('repeatable read' in words or 'serializable' in words):
                self.tx.iso = 'repeatable read'
            return lambda params: (None, 'SET')
        if w in ('reset', 'discard', 'deallocate'):
            return lambda params: (None, w.upper())
        return None

    def savepoint(self, w, name):
        tx = self.tx
        if tx is None:
            raise SqlError('%s can only be used in transaction blocks' % w.upper(), '25P01')
        things = lambda: self.db.schemas + self.db.tables + [r for t in self.db.tables for r in t.rows]
        if w == 'savepoint':
            tx.saves.append((name, len(tx.effects), len(tx.deferred), {o for o in things() if o.xmin is tx}, {o for o in things() if o.xmax is tx}))
            return None, 'SAVEPOINT'
        at = [i for i, x in enumerate(tx.saves) if x[0] == name]
        if not at:
            self.failed = True
            raise SqlError('savepoint "%s" does not exist' % name, '3B001')
        if w == 'release':
            del tx.saves[at[-1]:]
            return None, 'RELEASE'
        _, effects, deferred, made, gone = tx.saves[at[-1]]
        del tx.saves[at[-1] + 1:]
        del tx.effects[effects:]
        del tx.deferred[deferred:]
        dead = Tx()
        dead.state = 'aborted'
        for o in things():
            if o.xmin is tx and o not in made:
                o.xmin = dead
            if o.xmax is tx and o not in gone:
                o.xmax = None
        self.failed = False
        return None, 'ROLLBACK'

    def snap(self, tx):
        if tx.iso == 'repeatable read' and tx.snapshot is None:
            seen = set()
            for o in self.db.schemas + self.db.tables:
                for x in (o.xmin, o.xmax):
                    if x is not None and x.state == 'committed':
                        seen.add(x)
            for t in self.db.tables:
                for r in t.rows:
                    for x in (r.xmin, r.xmax):
                        if x is not None and x.state == 'committed':
                            seen.add(x)
            tx.snapshot = seen

    # -- SELECT
    def query(self, p):
        q = p.select()
        p.accop(';')
        p.eof()

        def compile(tx, ptypes=None):
            self.snap(tx)
            c = Compiler(self.db, tx, ptypes)
            run, cols = c.select(q, Scope(None))
            return c, run, [(n, 'text' if t == 'unknown' else t) for n, t in cols]
        c, run, cols = self.with_read(compile)
        ptypes = c.ptypes

        def go(params):
            def body(tx):
                c, run, _ = compile(tx, ptypes)
                c.cur_params = params
                rows = run(Env([], None, tx, params))
                return rows, 'SELECT %d' % len(rows)
            return self.with_tx(body)
        return Prepared(plist(ptypes), cols, go)

    def with_read(self, fn):
        if self.tx is not None:
            try:
                return fn(self.tx)
            except SqlError:
                self.failed = True
                raise
        tx = self.db.begin()
        try:
            return fn(tx)
        finally:
            self.db.active.discard(tx)
            tx.state = 'aborted'

    # -- INSERT / UPDATE / DELETE on ledger tables
    def dml(self, p, text):
        try:
            d = p.dml()
            p.accop(';')
            p.eof()
        except SqlError:
            raise
        rel = d[1]
        t = self.with_read(lambda tx: self.db.table(rel, tx))
        if t is None:
            if len(rel) > 1 and (rel[-2] in self.db.meta or rel[-1] == 'version'):
                self.fail()
                raise SqlError('relation "%s" does not exist' % '.'.join(rel), '42P01')
            return Prepared([], None, lambda params: self.with_tx(lambda tx: self.effect(text, tx)))
        an = {'insert': self.insert, 'delete': self.delete, 'update': self.update}[d[0]]
        ptypes, cols, go = self.with_read(lambda tx: an(d, tx))
        return Prepared(plist(ptypes), cols, lambda params: self.with_tx(lambda tx: an(d, tx, ptypes)[2](params)))

    def returning(self, c, t, items):
        if not items:
            return None, None
        s = Scope(None)
        s.add(t.name, [(x[0], x[1]) for x in t.cols])
        out = []
        for e, n in items:
            if e[0] == 'star':
                for i, x in enumerate(t.cols):
                    out.append(((lambda i: lambda env: env.row[i])(i), x[1], x[0]))
            else:
                f, ty = c.expr(e, s)
                out.append((f, ty, n or colname(e)))
        return [(n, ty) for _, ty, n in out], [f for f, _, _ in out]

    def insert(self, d, tx, ptypes=None):
        _, rel, cols, src, conflict, ret, alias = d
        t = self.db.table(rel, tx)
        if t is None:
            raise SqlError('relation "%s" does not exist' % '.'.join(rel), '42P01')
        self.snap(tx)
        self.db.lock(tx, t, 2)
        c = Compiler(self.db, tx, ptypes)
        idx = [t.colno(x) for x in cols] if cols else list(range(len(t.cols)))
        if src is None:
            exprs = [[]]
            idx = []
            run = lambda env: [()]
        else:
            body = src[1]
            if body[0] == 'values' and not src[3]:
                s = Scope(None)
                comp = []
                for r in body[1]:
                    if len(r) > len(idx):
                        raise SqlError('INSERT has more expressions than target columns', '42601')
                    if cols and len(r) < len(idx):
                        raise SqlError('INSERT has more target columns than expressions', '42601')
                    row = []
                    for j, e in zip(idx, r):
                        if e == ('col', ['default']):
                            row.append(None)
                            continue
                        f, ty = c.expr(e, s, t.cols[j][1])
                        row.append(self.assign(c, f, ty, t.cols[j]))
                    comp.append(row)
                run = lambda env: [tuple(DEFAULT if f is None else f(env) for f in row) for row in comp]
            else:
                inner, scols = c.select(src, Scope(None))
                if len(scols) > len(idx) or (cols and len(scols) < len(idx)):
                    raise SqlError('INSERT has the wrong number of expressions', '42601')
                conv = [self.assign(c, (lambda i: lambda env: env.row[i])(i), ty, t.cols[j]) for i, (j, (_, ty)) in enumerate(zip(idx, scols))]
                run = lambda env: [tuple(f(Env(list(r), None, tx, env.params)) for f in conv) for r in inner(env)]
        rcols, rfs = self.returning(c, t, ret)
        upd = []
        if conflict is not None and conflict[0] == 'update':
            target = conflict[1]
            upd = [n for n, ix in t.keys if n == target or target is not None and not isinstance(target, str) and {t.colno(x) for x in target} == set(ix)]
            if not upd:
                raise SqlError('there is no unique or exclusion constraint matching the ON CONFLICT specification', '42P10')
            us = Scope(None)
            us.add(alias or t.name, [(x[0], x[1]) for x in t.cols])
            us.add('excluded', [(x[0], x[1]) for x in t.cols])
            ass = []
            for n, e in conflict[2]:
                f, ty = c.expr(e, us, t.cols[t.colno(n)][1])
                ass.append((t.colno(n), self.assign(c, f, ty, t.cols[t.colno(n)])))
            only = c.boolean(conflict[3], us) if conflict[3] is not None else None

        def go(params):
            c.cur_params = params
            env = Env([], None, tx, params)
            new, touched, hit = [], 0, []
            for vals in run(env):
                row = [DEFAULT] * len(t.cols)
                for j, v in zip(idx, vals):
                    row[j] = v
                for j, (n, ty, ln, nn, df) in enumerate(t.cols):
                    if row[j] is DEFAULT:
                        row[j] = self.default(t, j, df)
                    if row[j] is None and nn:
                        raise SqlError('null value in column "%s" of relation "%s" violates not-null constraint' % (n, t.name), '23502')
                dup = self.duplicate(t, row, tx, new)
                if dup is not None:
                    if conflict is not None and conflict[0] == 'nothing':
                        continue
                    if conflict is not None and dup in upd:
                        hit.append((row, dup))
                        continue
                    raise SqlError('duplicate key value violates unique constraint "%s"' % dup, '23505')
                new.append(row)
            for row, dup in hit:
                ix = next(ix for n, ix in t.keys if n == dup)
                for r in self.targets(t, tx, lambda v: all(v[i] == row[i] for i in ix)):
                    e = Env(list(r.v) + row, None, tx, params)
                    if only is None or only(e) is True:
                        row2 = list(r.v)
                        for j, f in ass:
                            row2[j] = f(e)
                        r.xmax = tx
                        t.rows.append(Row(row2, tx))
            for row in new:
                self.fk_out(t, row, tx, new)
            out = []
            for row in new:
                t.rows.append(Row(row, tx))
                if rfs:
                    out.append(tuple(f(Env(row, None, tx, params)) for f in rfs))
            return (out if rfs else None), 'INSERT 0 %d' % len(new)
        return c.ptypes, rcols, go

    def assign(self, c, f, ty, col):
        n, want, ln, _, _ = col
        if ty != want and ty != 'unknown':
            ok = (ty in TEXTY and want in ('text', 'varchar', 'name', 'bpchar')) or (ty in INTY and want in INTY) or \
                (ty.endswith('[]') and want.endswith('[]') and elem(ty) in TEXTY and elem(want) in TEXTY) or (ty in ('timestamp', 'timestamptz') and want in ('timestamp', 'timestamptz'))
            if want in ('text', 'varchar') and not ok:
                ok, g = True, f
                f = lambda env: totext(g(env))
            if not ok:
                raise SqlError('column "%s" is of type %s but expression is of type %s' % (n, want, ty), '42804')
        if ln:
            def g(env):
                v = f(env)
                if v is not None and len(v) > ln:
                    raise SqlError('value too long for type character varying(%d)' % ln, '22001')
                return v
            return g
        return f

    def default(self, t, j, df):
        if df is None:
            return None
        if df == 'serial':
            t.serial[j] = t.serial.get(j, 0) + 1
            return t.serial[j]
        if df == 'now':
            return 0
        return df[1]

    def duplicate(self, t, row, tx, new, skip=None):
        for n, ix in t.keys:
            key = [row[i] for i in ix]
            if None in key:
                continue
            for r in new:
                if [r[i] for i in ix] == key:
                    return n
            for r in t.rows:
                if r is skip or [r.v[i] for i in ix] != key:
                    continue
                # unique checks look at everything, not at the snapshot
                if r.xmin.state == 'active' and r.xmin is not tx:
                    raise Wait({r.xmin})
                if r.xmin.state == 'aborted':
                    continue
                if r.xmax is None or r.xmax.state == 'aborted':
                    return n
                if r.xmax is tx or r.xmax.state == 'committed':
                    continue
                raise Wait({r.xmax})
        return None

    def fk_out(self, t, row, tx, new, late=False):
        """referential check of a new row; takes a key share lock on the referenced row"""
        for n, ix, rt, rix, opt in t.fks:
            if 'deferred' in opt and not late:
                if (t, row) not in tx.deferred:
                    tx.deferred.append((t, row))
                continue
            if late and 'deferred' not in opt:
                continue
            key = [row[i] for i in ix]
            if None in key:
                continue
            if rt is t and any([r[i] for i in rix] == key for r in new):
                continue
            hit = None
            for r in rt.rows:
                if [r.v[i] for i in rix] != key or r.xmin.state == 'aborted' or (r.xmin is not tx and r.xmin.state == 'active'):
                    continue
                if r.xmax is not None and r.xmax is not tx and r.xmax.state == 'active':
                    raise Wait({r.xmax})
                if r.xmax is not None and (r.xmax is tx or r.xmax.state == 'committed'):
                    continue
                hit = r
            if hit is None:
                raise SqlError('insert or update on table "%s" violates foreign key constraint "%s"' % (t.name, n), '23503')
            hit.share.append(tx)

    def targets(self, t, tx, pred):
        """rows to change: waits for concurrent changes, then looks again (read committed)"""
        out = []
        for r in list(t.rows):
            if not self.db.vis(r, tx):
                continue
            if not pred(r.v):
                continue
            if r.xmax is not None and r.xmax is not tx and r.xmax.state == 'active':
                raise Wait({r.xmax})
            if r.xmax is not None and r.xmax is not tx and r.xmax.state == 'committed':
                # changed since the snapshot of a repeatable read transaction
                raise SqlError('could not serialize access due to concurrent update', '40001')
            shared = {x for x in r.share if x is not tx and x.state == 'active'}
            if shared:
                raise Wait(shared)
            out.append(r)
        return out

    def fk_in(self, t, gone, tx, deleting=True):
        """nothing may still refer to the rows that go"""
        for t2 in list(self.db.tables):
            for n, ix, rt, rix, opt in t2.fks:
                if rt is not t:
                    continue
                for r in gone:
                    key = [r.v[i] for i in rix]
                    for r2 in list(t2.rows):
                        if r2 in gone or [r2.v[i] for i in ix] != key or r2.xmin.state == 'aborted':
                            continue
                        if r2.xmin is not tx and r2.xmin.state == 'active':
                            raise Wait({r2.xmin})
                        if r2.xmax is not None and (r2.xmax is tx or r2.xmax.state == 'committed'):
                            continue
                        if r2.xmax is not None and r2.xmax.state == 'active':
                            raise Wait({r2.xmax})
                        if deleting and 'cascade' in opt:
                            r.xmax = tx
                            self.fk_in(t2, [r2], tx)
                            r2.xmax = tx
                            continue
                        if deleting and 'null' in opt:
                            r2.xmax = tx
                            t2.rows.append(Row([None if i in ix else v for i, v in enumerate(r2.v)], tx))
                            continue
                        if 'deferred' in opt:
                            tx.deferred.append((t2, r2.v))
                            continue
                        raise SqlError('update or delete on table "%s" violates foreign key constraint "%s" on table "%s"' % (t.name, n, t2.name), '23503')

    def scope_of(self, t, alias):
        s = Scope(None)
        s.add(alias or t.name, [(x[0], x[1]) for x in t.cols])
        return s

    def delete(self, d, tx, ptypes=None):
        _, rel, alias, where, ret, using = d
        if using is not None:
            raise Unsupported('DELETE USING')
        t = self.db.table(rel, tx)
        if t is None:
            raise SqlError('relation "%s" does not exist' % '.'.join(rel), '42P01')
        self.snap(tx)
        self.db.lock(tx, t, 2)
        c = Compiler(self.db, tx, ptypes)
        s = self.scope_of(t, alias)
        w = c.boolean(where, s) if where is not None else (lambda env: True)
        rcols, rfs = self.returning(c, t, ret)

        def go(params):
            c.cur_params = params
            gone = self.targets(t, tx, lambda v: w(Env(v, None, tx, params)) is True)
            self.fk_in(t, gone, tx)
            for r in gone:
                r.xmax = tx
            out = [tuple(f(Env(r.v, None, tx, params)) for f in rfs) for r in gone] if rfs else None
            return out, 'DELETE %d' % len(gone)
        return c.ptypes, rcols, go

    def update(self, d, tx, ptypes=None):
        _, rel, alias, sets, frm, where, ret = d
        if frm is not None:
            raise Unsupported('UPDATE FROM')
        t = self.db.table(rel, tx)
        if t is None:
            raise SqlError('relation "%s" does not exist' % '.'.join(rel), '42P01')
        self.snap(tx)
        self.db.lock(tx, t, 2)
        c = Compiler(self.db, tx, ptypes)
        s = self.scope_of(t, alias)
        w = c.boolean(where, s) if where is not None else (lambda env: True)
        ass = []
        for n, e in sets:
            j = t.colno(n)
            if e == ('default',):
                ass.append((j, (lambda j: lambda env: self.default(t, j, t.cols[j][4]))(j)))
            else:
                f, ty = c.expr(e, s, t.cols[j][1])
                ass.append((j, self.assign(c, f, ty, t.cols[j])))
        rcols, rfs = self.returning(c, t, ret)

        def go(params):
            c.cur_params = params
            old = self.targets(t, tx, lambda v: w(Env(v, None, tx, params)) is True)
            new = []
            for r in old:
                row = list(r.v)
                for j, f in ass:
                    row[j] = f(Env(r.v, None, tx, params))
                for j, (n, ty, ln, nn, df) in enumerate(t.cols):
                    if row[j] is None and nn:
                        raise SqlError('null value in column "%s" violates not-null constraint' % n, '23502')
                dup = self.duplicate(t, row, tx, [], skip=r)
                if dup is not None:
                    raise SqlError('duplicate key value violates unique constraint "%s"' % dup, '23505')
                self.fk_out(t, row, tx, [row])
                if any(row[i] != r.v[i] for _, ix in t.keys for i in ix):
                    self.fk_in(t, [r], tx, False)
                new.append(row)
            for r, row in zip(old, new):
                r.xmax = tx
                t.rows.append(Row(row, tx))
            out = [tuple(f(Env(row, None, tx, params)) for f in rfs) for row in new] if rfs else None
            return out, 'UPDATE %d' % len(old)
        return c.ptypes, rcols, go

    # -- DDL
    def lock_table(self, text, tx):
        p = P(text)
        p.need('lock')
        p.acc('table')
        p.acc('only')
        rels = [p.qname()]
        while p.accop(','):
            rels.append(p.qname())
        level = 7
        if p.acc('in'):
            words = []
            while not p.kw('mode'):
                words.append(p.take().v)
            p.need('mode')
            m = ' '.join(words)
            if m not in LOCKS:
                p.err()
            level = LOCKS.index(m)
        nowait = p.acc('nowait')
        p.eof()
        if self.tx is None:
            raise SqlError('LOCK TABLE can only be used in transaction blocks', '25P01')
        for rel in rels:
            t = self.db.table(rel, tx)
            if t is None:
                raise SqlError('relation "%s" does not exist' % '.'.join(rel), '42P01')
            try:
                self.db.lock(tx, t, level)
            except Wait:
                if nowait:
                    raise SqlError('could not obtain lock on relation "%s"' % rel[-1], '55P03')
                raise
        return None, 'LOCK TABLE'

    def create_schema(self, text, tx):
        p = P(text)
        p.need('create')
        p.need('schema')
        ine = p.acc('if', 'not', 'exists')
        name = p.ident()
        p.eof()
        if self.db.reject and self.db.reject(text):
            raise SqlError('rejected', reason(text))
        if self.db.lenient and name not in self.db.meta:
            return self.effect(text, tx)
        for s in self.db.schemas:
            if s.name != name:
                continue
            if s.xmin.state == 'active' and s.xmin is not tx:
                raise Wait({s.xmin})
            if s.xmax is not None and s.xmax.state == 'active' and s.xmax is not tx:
                raise Wait({s.xmax})
            if s.xmin.state != 'aborted' and (s.xmax is None or s.xmax.state == 'aborted'):
                if ine:
                    return None, 'CREATE SCHEMA'
                raise SqlError('schema "%s" already exists' % name, '42P06')
        self.db.schemas.append(Schema(tx, name))
        if name not in self.db.meta:
            tx.effects.append(normal(text))
        return None, 'CREATE SCHEMA'

    def drop_schema(self, text, tx):
        p = P(text)
        p.need('drop')
        p.need('schema')
        ife = p.acc('if', 'exists')
        name = p.ident()
        casc = p.acc('cascade')
        if not casc:
            p.acc('restrict')
        p.eof()
        if self.db.reject and self.db.reject(text):
            raise SqlError('rejected', reason(text))
        if self.db.lenient and name not in self.db.meta:
            return self.effect(text, tx)
        s = self.db.schema(name, tx)
        if s is None:
            if ife:
                return None, 'DROP SCHEMA'
            raise SqlError('schema "%s" does not exist' % name, '3F000')
        if s.xmax is not None and s.xmax is not tx and s.xmax.state == 'active':
            raise Wait({s.xmax})
        mine = [t for t in self.db.tables if t.schema is s and self.db.vis(t, tx)]
        if mine and not casc:
            raise SqlError('cannot drop schema %s because other objects depend on it' % name, '2BP01')
        for t in mine:
            self.db.lock(tx, t, 7)
        for t in mine:
            t.xmax = tx
        s.xmax = tx
        if name not in self.db.meta:
            tx.effects.append(normal(text))
        return None, 'DROP SCHEMA'

    def effect(self, text, tx):
        lex(text)
        if self.db.reject and self.db.reject(text):
            raise SqlError('rejected', reason(text))
        try:
            p = P(text)
            if p.kw('alter', 'drop', 'truncate', 'comment', 'grant', 'revoke') and any(t.k in ('id', 'qid') and t.v == 'version' for t in p.t) and \
                    any(t.k in ('id', 'qid') and t.v in self.db.meta for t in p.t):
                raise Unsupported(text)
        except SqlError:
            pass
        tx.effects.append(normal(text))
        return None, text.split(None, 1)[0].upper()

    def create_table(self, text, tx):
        p = P(text)
        p.need('create')
        if not p.acc('table'):
            return self.effect(text, tx)
        ine = p.acc('if', 'not', 'exists')
        rel = p.qname()
        if len(rel) == 1 or not (rel[0] in self.db.meta or rel[1] == 'version'):
            return self.effect(text, tx)
        s = self.db.schema(rel[0], tx)
        if s is None:
            raise SqlError('schema "%s" does not exist' % rel[0], '3F000')
        for t in self.db.tables:
            if t.schema is s and t.name == rel[1]:
                if t.xmin.state == 'active' and t.xmin is not tx:
                    raise Wait({t.xmin})
                if self.db.vis(t, tx):
                    if ine:
                        return None, 'CREATE TABLE'
                    raise SqlError('relation "%s" already exists' % rel[1], '42P07')
        t = Table(tx, s, rel[1])
        fks = []
        p.needop('(')
        while True:
            name = None
            if p.acc('constraint'):
                name = p.ident()
            if p.kw('primary', 'unique', 'foreign', 'check') and not (p.la().k == 'id' and p.la().v in ALIAS):
                self.table_con(p, t, fks, name)
            else:
                self.column(p, t, fks)
            if p.accop(','):
                continue
            p.needop(')')
            break
        p.eof()
        for n, cols, ref, rcols, opt in fks:
            rt = t if (len(ref) == 1 or ref[0] == s.name) and ref[-1] == t.name else self.db.table(ref, tx)
            if rt is None:
                raise SqlError('relation "%s" does not exist' % '.'.join(ref), '42P01')
            ix = [t.colno(c) for c in cols]
            if not rcols:
                pk = [k for n2, k in rt.keys if n2.endswith('_pkey')]
                rix = pk[0] if pk else None
            else:
                rix = [rt.colno(c) for c in rcols]
            if rix is None or not any(set(k) == set(rix) for _, k in rt.keys):
                raise SqlError('there is no unique constraint matching given keys for referenced table "%s"' % rt.name, '42830')
            t.fks.append((n, ix, rt, rix, opt))
        self.db.tables.append(t)
        return None, 'CREATE TABLE'

    def column(self, p, t, fks):
        n = p.ident()
        if any(c[0] == n for c in t.cols):
            raise SqlError('column "%s" specified more than once' % n, '42701')
        serial = p.kw('serial', 'bigserial', 'smallserial', 'serial4', 'serial8')
        if serial:
            ty = {'serial': 'int4', 'serial4': 'int4', 'bigserial': 'int8', 'serial8': 'int8', 'smallserial': 'int2'}[p.take().v]
            ln = None
        else:
            full = p.typename()
            m = re.match(r'([^()\[]+)(?:\((\d+)\))?(\[\])?$', full)
            if not m:
                raise Unsupported('type ' + full)
            ty, ln = m.group(1) + (m.group(3) or ''), int(m.group(2)) if m.group(2) and m.group(1) in ('varchar', 'bpchar') else None
            if ty not in TYPES_OK:
                raise Unsupported('type ' + full)
        nn, df = serial, 'serial' if serial else None
        i = len(t.cols)
        while True:
            cname = p.ident() if p.acc('constraint') else None
            if p.acc('not', 'null'):
                nn = True
            elif p.acc('null'):
                pass
            elif p.acc('primary', 'key'):
                nn = True
                t.keys.append((cname or t.name + '_pkey', [i]))
            elif p.acc('unique'):
                t.keys.append((cname or '%s_%s_key' % (t.name, n), [i]))
            elif p.acc('default'):
                e = p.e_op()
                if e[0] == 'func' and e[1][-1] in ('now', 'current_timestamp', 'localtimestamp', 'clock_timestamp', 'transaction_timestamp', 'statement_timestamp'):
                    df = 'now'
                else:
                    while e[0] == 'cast':
                        e = e[1]
                    if e[0] == 'lit':
                        v = e[2]
                        if ty.endswith('[]') and isinstance(v, str):
                            v = parse_array(v)
                        elif ty in INTY and isinstance(v, str):
                            v = int(v)
                        df = ('const', v)
                    elif e[0] == 'array' and not e[1]:
                        df = ('const', [])
                    else:
                        raise Unsupported('default')
            elif p.acc('references'):
                ref = p.qname()
                rc = p.names() if p.op('(') else []
                opt = self.fk_options(p)
                fks.append((cname or '%s_%s_fkey' % (t.name, n), [n], ref, rc, opt))
            elif p.acc('check'):
                raise Unsupported('check constraint')
            elif p.acc('generated'):
                raise Unsupported('generated column')
            else:
                break
        t.cols.append((n, ty, ln, nn, df))

    def fk_options(self, p):
        opt = set()
        while True:
            if p.acc('on', 'delete') or p.kw('on'):
                delete = not p.acc('on', 'update')
                w = p.take().v
                v = p.take().v if w in ('no', 'set') else ''
                if w == 'set' and v != 'null' or (w in ('cascade', 'set') and not delete):
                    raise Unsupported('referential action')
                opt |= {'cascade'} if w == 'cascade' else {'null'} if w == 'set' else set()
            elif p.acc('initially', 'deferred'):
                opt.add('deferred')
            elif p.acc('deferrable') or p.acc('not', 'deferrable') or p.acc('initially', 'immediate') or p.acc('match', 'simple') or p.acc('match', 'full'):
                pass
            else:
                return opt

    def table_con(self, p, t, fks, name):
        if p.acc('primary', 'key'):
            ix = [t.colno(c) for c in p.names()]
            for i in ix:
                c = t.cols[i]
                t.cols[i] = c[:3] + (True,) + c[4:]
            t.keys.append((name or t.name + '_pkey', ix))
        elif p.acc('unique'):
            cs = p.names()
            t.keys.append((name or '%s_%s_key' % (t.name, '_'.join(cs)), [t.colno(c) for c in cs]))
        elif p.acc('foreign', 'key'):
            cs = p.names()
            p.need('references')
            ref = p.qname()
            rc = p.names() if p.op('(') else []
            opt = self.fk_options(p)
            fks.append((name or '%s_%s_fkey' % (t.name, '_'.join(cs)), cs, ref, rc, opt))
        else:
            raise Unsupported('check constraint')


DEFAULT = object()


def is_end(toks):
    return toks and toks[0].k == 'id' and toks[0].v in ('commit', 'end', 'rollback', 'abort')
