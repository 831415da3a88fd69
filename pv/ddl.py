"""PostgreSQL DDL statement -> elementary catalog operations, and podo change JSON -> the same operations.

An object is a dict  k,s,r,n,cols,ref{s,r,cols},a{str:str},refs[[k,s,r,n]...]   (see spec/Catalog.tla)
An operation is      op in create|drop|alter|rename|noop|bad, with o / p / a / to, flags ifex,cascade,orrep
"""
import json
from .sqllex import lex, SqlError, canon, strip_parens, split_statements
from .pgparse import P, parse_expr, parse_select, parse_type, walk

B = lambda x: 'true' if x else 'false'
NOREF = {'s': '', 'r': '', 'cols': []}


class Unsupported(Exception):
    pass


def obj(k, s, r='', n='', cols=(), ref=None, a=None, refs=()):
    return {'k': k, 's': s, 'r': r, 'n': n, 'cols': list(cols), 'ref': ref or dict(NOREF), 'a': a or {},
            'refs': sorted([list(x) for x in set(map(tuple, refs))])}


def path(o):
    return [o['k'], o['s'], o['r'], o['n']]


def create(o, **f):
    return dict({'op': 'create', 'o': o}, **f)


def drop(k, s, r='', n='', **f):
    return dict({'op': 'drop', 'p': [k, s, r, n]}, **f)


def alter(k, s, r, n, a, refs=None, **f):
    d = {'op': 'alter', 'p': [k, s, r, n], 'a': a}
    if refs is not None:
        d['refs'] = refs
    d.update(f)
    return d


def bad(why):
    return {'op': 'bad', 'why': why}


# ---------------------------------------------------------------- expressions
def cexpr(text):
    """canonical text of an expression (no redundant outer parentheses)"""
    try:
        return canon(strip_parens(lex(text)[:-1]))
    except SqlError:
        return 'RAW:' + text


def ctype(text):
    try:
        return parse_type(text)
    except SqlError:
        return 'RAW:' + text


def split_qname(text):
    """'"s"."q"' as in a regclass literal -> (schema, name)"""
    p = P(text)
    parts = p.qname()
    p.eof()
    if len(parts) == 1:
        return 'public', parts[0]
    return parts[-2], parts[-1]


def expr_seqs(e):
    out = []

    def f(x):
        if x[:1] == ('func',) and x[1][-1] in ('nextval', 'currval', 'setval') and x[2]:
            a = x[2][0]
            while a[0] == 'cast':
                a = a[1]
            if a[0] == 'lit' and isinstance(a[2], str):
                try:
                    s, q = split_qname(a[2])
                    out.append(['sequence', s, q, ''])
                except SqlError:
                    pass
    walk(e, f)
    return out


def expr_cols(e):
    out = []

    def f(x):
        if x[:1] == ('col',):
            out.append(x[1][-1])
    walk(e, f)
    return out


def expr_fns(e):
    """functions somebody defined: only they are written with their schema"""
    out = []

    def f(x):
        if x[:1] == ('func',) and len(x[1]) == 2 and x[1][0] != 'pg_catalog' and ['function', x[1][0], x[1][1], '*'] not in out:
            out.append(['function', x[1][0], x[1][1], '*'])
    walk(e, f)
    return out


def row_refs(*texts):
    """tables whose rows a function takes or returns"""
    out = []
    for t in texts:
        try:
            t = [x for x in lex(t) if x.k != 'eof']
        except SqlError:
            continue
        for i in range(len(t) - 2):
            if t[i].k in ('id', 'qid') and t[i + 1].k == 'op' and t[i + 1].v == '.' and t[i + 2].k in ('id', 'qid') and t[i].v != 'pg_catalog':
                out.append(['rel', t[i].v, t[i + 2].v, ''])
    return out


def default_refs(text):
    try:
        e = parse_expr(text)
        return expr_seqs(e) + expr_fns(e)
    except SqlError:
        return []


def check_refs(s, t, text):
    try:
        e = parse_expr(text)
        return [['column', s, t, c] for c in expr_cols(e)] + expr_fns(e)
    except SqlError:
        return []


def view_refs(query, default_schema='public'):
    """relations and columns a view depends on"""
    q = parse_select(query)
    refs, scopes = [], {}

    def rels(x):
        if x[:1] == ('rel',):
            parts = x[1]
            s, r = (default_schema, parts[0]) if len(parts) == 1 else (parts[-2], parts[-1])
            refs.append(['rel', s, r, ''])
            scopes[x[2] or parts[-1]] = (s, r)
    walk(q, rels)

    def cols(x):
        if x[:1] == ('col',):
            parts = x[1]
            if len(parts) >= 2 and parts[-2] in scopes:
                s, r = scopes[parts[-2]]
                refs.append(['column', s, r, parts[-1]])
            elif len(parts) == 1 and len(scopes) == 1:
                s, r = list(scopes.values())[0]
                refs.append(['column', s, r, parts[0]])
    walk(q, cols)
    return refs + expr_fns(q)


def cview(query):
    try:
        t = lex(query)[:-1]
        while t and t[-1].k == 'op' and t[-1].v == ';':
            t = t[:-1]
        return canon(t)
    except SqlError:
        return 'RAW:' + query


def index_key(p):
    """parse one index element at parser p -> (canonical, column refs, plain column name or None)"""
    start = p.i
    plain = None
    if p.op('('):
        p.i += 1
        p.expr()
        p.needop(')')
    elif p.c.k in ('id', 'qid') and p.la().k == 'op' and p.la().v in '(.' and p.la().v:
        e = p.e_post()
        if e[0] != 'func':
            p.err()
    else:
        plain = p.ident()
    toks = strip_parens(p.t[start:p.i])
    e = parse_expr(toks)
    refs = expr_cols(e) + expr_fns(e)
    text = canon(toks)
    if p.acc('collate'):
        text += ' collate ' + '.'.join(p.qname())
    if p.c.k in ('id', 'qid') and not p.kw('asc', 'desc', 'nulls'):
        text += ' ' + '.'.join(p.qname())
    desc = False
    if p.acc('asc'):
        pass
    elif p.acc('desc'):
        desc = True
    nulls = 'first' if desc else 'last'
    if p.acc('nulls', 'first'):
        nulls = 'first'
    elif p.acc('nulls', 'last'):
        nulls = 'last'
    if desc:
        text += ' desc'
    if nulls != ('first' if desc else 'last'):
        text += ' nulls ' + nulls
    return text, refs, plain


def index_keys(texts):
    """list of definition texts -> (canonical joined, column refs, plain columns)"""
    out, refs, cols = [], [], []
    for t in texts:
        try:
            p = P(t)
            k, r, c = index_key(p)
            p.eof()
        except SqlError:
            k, r, c = 'RAW:' + t, [], None
        out.append(k)
        refs += r
        cols.append(c)
    return ', '.join(out), refs, (cols if all(c is not None for c in cols) else [])


# ---------------------------------------------------------------- statement parser
SEQ_RANGE = {'int2': (-32768, 32767), 'int4': (-2147483648, 2147483647), 'int8': (-9223372036854775808, 9223372036854775807)}


def seq_attrs(ty, inc, mn, mx, start, cache, cycle):
    ty = ty or 'int8'
    if ty not in SEQ_RANGE:
        raise SqlError('sequence type must be smallint, integer, or bigint', '22023')
    lo, hi = SEQ_RANGE[ty]
    inc = 1 if inc is None else inc
    if inc == 0:
        raise SqlError('INCREMENT must not be zero', '22023')
    if mn is None:
        mn = 1 if inc > 0 else lo
    if mx is None:
        mx = hi if inc > 0 else -1
    if not (lo <= mn <= hi and lo <= mx <= hi):
        raise SqlError('MINVALUE or MAXVALUE is out of range for sequence data type', '22023')
    if mn >= mx:
        raise SqlError('MINVALUE must be less than MAXVALUE', '22023')
    if start is None:
        start = mn if inc > 0 else mx
    if not mn <= start <= mx:
        raise SqlError('START value out of range', '22023')
    cache = 1 if cache is None else cache
    if cache < 1:
        raise SqlError('CACHE must be greater than zero', '22023')
    return {'type': ty, 'inc': str(inc), 'min': str(mn), 'max': str(mx), 'start': str(start), 'cache': str(cache), 'cycle': B(cycle)}


class D(P):
    def rel(self):
        parts = self.qname()
        if len(parts) > 2:
            self.err()
        return ('public', parts[0]) if len(parts) == 1 else (parts[0], parts[1])

    def ifexists(self):
        return self.acc('if', 'exists')

    def behaviour(self):
        if self.acc('cascade'):
            return True
        self.acc('restrict')
        return False

    def attrs(self, fk=True):
        """ConstraintAttributeSpec -> (deferrable, deferred)"""
        dfr = init = None
        while True:
            if self.kws('not', 'deferrable'):
                self.i += 2
                if dfr is True:
                    raise SqlError('conflicting constraint properties')
                dfr = False
            elif self.kw('deferrable'):
                self.i += 1
                if dfr is False:
                    raise SqlError('conflicting constraint properties')
                dfr = True
            elif self.kws('initially', 'deferred'):
                self.i += 2
                if init is False:
                    raise SqlError('conflicting constraint properties')
                init = True
            elif self.kws('initially', 'immediate'):
                self.i += 2
                if init is True:
                    raise SqlError('conflicting constraint properties')
                init = False
            elif self.kws('not', 'valid'):
                raise Unsupported('NOT VALID')
            else:
                break
        if init and dfr is False:
            raise SqlError('constraint declared INITIALLY DEFERRED must be DEFERRABLE')
        if init:
            dfr = True
        return B(dfr), B(init)

    def references(self, s, t, name, cols):
        rs, rt = self.rel()
        rc = self.names() if self.op('(') else []
        m, upd, dele = 'SIMPLE', 'NO ACTION', 'NO ACTION'
        while True:
            if self.acc('match'):
                if self.acc('full'):
                    m = 'FULL'
                elif self.acc('simple'):
                    m = 'SIMPLE'
                elif self.acc('partial'):
                    raise SqlError('MATCH PARTIAL not yet implemented', '0A000')
                else:
                    self.err()
            elif self.kws('on', 'update') or self.kws('on', 'delete'):
                self.i += 1
                w = self.take().v
                if self.acc('no', 'action'):
                    v = 'NO ACTION'
                elif self.acc('restrict'):
                    v = 'RESTRICT'
                elif self.acc('cascade'):
                    v = 'CASCADE'
                elif self.acc('set', 'null'):
                    v = 'SET NULL'
                elif self.acc('set', 'default'):
                    v = 'SET DEFAULT'
                else:
                    self.err()
                if w == 'update':
                    upd = v
                else:
                    dele = v
            else:
                break
        d, i = self.attrs()
        if not rc:
            raise Unsupported('REFERENCES without columns')
        if len(rc) != len(cols):
            raise SqlError('number of referencing and referenced columns for foreign key disagree', '42830')
        return obj('fk', s, t, name, cols, {'s': rs, 'r': rt, 'cols': rc},
                   {'match': m, 'upd': upd, 'del': dele, 'deferrable': d, 'deferred': i})

    def table_constraint(self, s, t, name):
        if self.acc('primary', 'key'):
            cols = self.names()
            d, i = self.attrs()
            return obj('pk', s, t, name or t + '_pkey', cols, None, {'deferrable': d, 'deferred': i})
        if self.acc('unique'):
            cols = self.names()
            d, i = self.attrs()
            return obj('uq', s, t, name or '_'.join([t] + cols + ['key']), cols, None, {'deferrable': d, 'deferred': i})
        if self.acc('foreign', 'key'):
            cols = self.names()
            self.need('references')
            return self.references(s, t, name or '_'.join([t] + cols + ['fkey']), cols)
        if self.acc('check'):
            if not self.op('('):
                self.err()
            self.i += 1
            a = self.i
            e = self.expr()
            toks = self.t[a:self.i]
            self.needop(')')
            d, i = self.attrs()
            if d == 'true' or i == 'true':
                raise SqlError('CHECK constraints cannot be marked DEFERRABLE', '0A000')
            return obj('ck', s, t, name or t + '_check', (), None,
                       {'expr': canon(strip_parens(toks)), 'deferrable': d, 'deferred': i},
                       [['column', s, t, c] for c in expr_cols(e)])
        self.err()

    def column_def(self, s, t):
        """-> list of objects: the column and its inline constraints"""
        name = self.ident()
        ty = self.typename()
        a = {'type': ty, 'notnull': 'false', 'default': ''}
        refs, extra = [], []
        if ty in ('serial', 'serial4', 'bigserial', 'serial8', 'smallserial', 'serial2'):
            raise Unsupported('serial')
        seen = set()
        while True:
            cname = None
            if self.acc('constraint'):
                cname = self.ident()
            if self.acc('not', 'null'):
                if 'null' in seen:
                    raise SqlError('conflicting NULL/NOT NULL declarations')
                seen.add('notnull')
                a['notnull'] = 'true'
            elif self.acc('null'):
                if 'notnull' in seen:
                    raise SqlError('conflicting NULL/NOT NULL declarations')
                seen.add('null')
            elif self.acc('default'):
                if 'default' in seen:
                    raise SqlError('multiple default values specified for column')
                seen.add('default')
                i = self.i
                e = self.e_op()          # b_expr
                a['default'] = canon(strip_parens(self.t[i:self.i]))
                refs += expr_seqs(e) + expr_fns(e)
                if expr_cols(e):
                    raise SqlError('cannot use column reference in DEFAULT expression', '0A000')
                if a['default'] == 'null':
                    a['default'] = ''
            elif self.acc('primary', 'key'):
                d, i = self.attrs()
                extra.append(obj('pk', s, t, cname or t + '_pkey', [name], None, {'deferrable': d, 'deferred': i}))
            elif self.acc('unique'):
                d, i = self.attrs()
                extra.append(obj('uq', s, t, cname or '%s_%s_key' % (t, name), [name], None, {'deferrable': d, 'deferred': i}))
            elif self.kw('check'):
                extra.append(self.table_constraint(s, t, cname or '%s_%s_check' % (t, name)))
            elif self.acc('references'):
                extra.append(self.references(s, t, cname or '%s_%s_fkey' % (t, name), [name]))
            elif self.acc('collate'):
                self.qname()
            elif cname is not None or self.kw('generated'):
                if self.kw('generated'):
                    raise Unsupported('generated')
                self.err()
            else:
                break
        return [obj('column', s, t, name, (), None, a, refs)] + extra

    def stmt(self):
        if self.acc('create'):
            return self.create_()
        if self.acc('drop'):
            return self.drop_()
        if self.acc('alter'):
            return self.alter_()
        if self.kw('comment', 'grant', 'revoke', 'set', 'analyze', 'do', 'lock', 'call'):
            raise Unsupported(self.c.v)
        if self.acc('truncate'):
            self.acc('table')
            self.acc('only')
            out = []
            while True:
                s, t = self.rel()
                out.append({'op': 'wipe', 'p': ['table', s, t, '']})
                if not self.accop(','):
                    break
            while self.kw('restart', 'continue', 'identity', 'cascade', 'restrict'):
                self.i += 1
            return out
        if self.acc('delete', 'from'):
            self.acc('only')
            s, t = self.rel()
            if self.acc('where'):
                self.expr()
            return [{'op': 'wipe', 'p': ['table', s, t, '']}]
        if self.kw('select', 'insert', 'delete', 'update', 'with', 'values'):
            self.dml()
            return [{'op': 'noop'}]
        self.err()

    def create_(self):
        if self.acc('schema'):
            ine = self.acc('if', 'not', 'exists')
            name = self.ident()
            if self.acc('authorization'):
                self.ident()
            return [create(obj('schema', name), ifex=ine)]
        orrep = self.acc('or', 'replace')
        if self.kw('temp', 'temporary', 'unlogged', 'global', 'local', 'recursive', 'materialized'):
            raise Unsupported(self.c.v)
        if self.acc('table'):
            ine = self.acc('if', 'not', 'exists')
            s, t = self.rel()
            self.needop('(')
            ops = []
            if not self.op(')'):
                while True:
                    if self.kw('constraint'):
                        self.i += 1
                        ops.append(create(self.table_constraint(s, t, self.ident())))
                    elif self.kw('primary', 'unique', 'foreign', 'check'):
                        ops.append(create(self.table_constraint(s, t, None)))
                    elif self.kw('like', 'exclude'):
                        raise Unsupported(self.c.v)
                    else:
                        ops += [create(o) for o in self.column_def(s, t)]
                    if not self.accop(','):
                        break
            self.needop(')')
            ops.sort(key=lambda o: ['column', 'pk', 'uq', 'ck', 'fk'].index(o['o']['k']))
            return [create(obj('table', s, t), ifex=ine)] + ops
        if self.acc('view'):
            s, v = self.rel()
            if self.op('('):
                raise Unsupported('view columns')
            if self.kw('with'):
                raise Unsupported('view options')
            self.need('as')
            i = self.i
            self.select()
            toks = self.t[i:self.i]
            if self.kw('with'):
                raise Unsupported('check option')
            q = canon(toks)
            return [create(obj('view', s, v, '', (), None, {'query': q}, view_refs(toks)), orrep=orrep)]
        if self.kw('unique', 'index'):
            uniq = self.acc('unique')
            self.need('index')
            self.acc('concurrently')
            ine = self.acc('if', 'not', 'exists')
            name = self.ident()
            if self.op('.'):
                self.err()
            self.need('on')
            self.acc('only')
            s, t = self.rel()
            method = 'btree'
            if self.acc('using'):
                method = self.ident()
            if method not in ('btree', 'hash', 'gist', 'spgist', 'gin', 'brin'):
                raise SqlError('access method "%s" does not exist' % method, '42704')
            self.needop('(')
            keys, refs, cols = [], [], []
            while True:
                k, r, c = index_key(self)
                keys.append(k)
                refs += r
                cols.append(c)
                if not self.accop(','):
                    break
            self.needop(')')
            if self.kw('include', 'where', 'with', 'nulls', 'tablespace'):
                raise Unsupported('index ' + self.c.v)
            if method == 'hash' and (len(keys) > 1 or uniq):
                raise SqlError('access method "hash" does not support multicolumn or unique indexes', '0A000')
            if uniq and method != 'btree':
                raise SqlError('access method "%s" does not support unique indexes' % method, '0A000')
            cols = cols if all(c is not None for c in cols) else []
            return [create(obj('index', s, name, '', cols, {'s': s, 'r': t, 'cols': []},
                               {'unique': B(uniq), 'method': method, 'keys': ', '.join(keys)},
                               [['column', s, t, c] if isinstance(c, str) else c for c in refs]), ifex=ine)]
        if self.acc('sequence'):
            ine = self.acc('if', 'not', 'exists')
            s, q = self.rel()
            kw, own = self.seq_options()
            a = seq_attrs(kw.get('type'), kw.get('inc'), kw.get('min'), kw.get('max'), kw.get('start'), kw.get('cache'), kw.get('cycle', False))
            return [create(obj('sequence', s, q, '', (), own, a, own_refs(own)), ifex=ine)]
        if self.acc('function'):
            s, f = self.rel()
            args = self.args()
            a = {'args': args, 'body': None, 'language': None, 'returns': '', 'volatility': 'VOLATILE', 'opts': ''}
            if self.acc('returns'):
                if self.acc('table'):
                    raise Unsupported('returns table')
                a['returns'] = self.typename()
            opts = []
            seen = set()
            while self.c.k == 'id':
                w = self.take().v
                if w in seen:
                    raise SqlError('conflicting or redundant options')
                if w == 'language':
                    a['language'] = self.take().v.lower()
                elif w in ('immutable', 'stable', 'volatile'):
                    if seen & {'immutable', 'stable', 'volatile'}:
                        raise SqlError('conflicting or redundant options')
                    a['volatility'] = w.upper()
                elif w == 'as':
                    if self.c.k != 'str':
                        self.err()
                    a['body'] = self.take().v
                elif w in ('strict', 'leakproof'):
                    opts.append(w)
                else:
                    self.i -= 1
                    if w in ('security', 'parallel', 'cost', 'rows', 'called', 'returns', 'window', 'set', 'begin', 'return'):
                        raise Unsupported('function ' + w)
                    self.err()
                seen.add(w)
            if a['body'] is None:
                raise SqlError('no function body specified', '42P13')
            if a['language'] is None:
                raise SqlError('no language specified', '42P13')
            a['opts'] = ' '.join(sorted(opts))
            return [create(obj('function', s, f, args, (), None, a, row_refs(args, a['returns'])), orrep=orrep)]
        if self.kw('type', 'domain', 'extension', 'trigger', 'procedure', 'rule', 'policy', 'role', 'aggregate', 'database'):
            raise Unsupported(self.c.v)
        self.err()

    def args(self):
        """argument list -> canonical text"""
        if not self.op('('):
            self.err()
        d, i = 0, self.i
        while True:
            t = self.take()
            if t.k == 'eof':
                self.err(t)
            if t.k == 'op' and t.v == '(':
                d += 1
            elif t.k == 'op' and t.v == ')':
                d -= 1
                if d == 0:
                    break
        return cargs(self.t[i + 1:self.i - 1])

    def seq_options(self):
        kw, own = {}, None
        while self.c.k == 'id':
            if self.acc('as'):
                kw['type'] = self.typename()
            elif self.acc('increment'):
                self.acc('by')
                kw['inc'] = self.integer()
            elif self.acc('no', 'minvalue'):
                kw['min'] = None
            elif self.acc('no', 'maxvalue'):
                kw['max'] = None
            elif self.acc('no', 'cycle'):
                kw['cycle'] = False
            elif self.acc('minvalue'):
                kw['min'] = self.integer()
            elif self.acc('maxvalue'):
                kw['max'] = self.integer()
            elif self.acc('start'):
                self.acc('with')
                kw['start'] = self.integer()
            elif self.acc('restart'):
                self.acc('with')
                if self.c.k == 'num' or self.op('-'):
                    self.integer()
            elif self.acc('cache'):
                kw['cache'] = self.integer()
            elif self.acc('cycle'):
                kw['cycle'] = True
            elif self.acc('owned', 'by'):
                if self.acc('none'):
                    own = dict(NOREF)
                else:
                    parts = self.qname()
                    if len(parts) < 2:
                        raise SqlError('invalid OWNED BY option')
                    own = {'s': parts[-3] if len(parts) > 2 else 'public', 'r': parts[-2], 'cols': [parts[-1]]}
            else:
                self.err()
        return kw, own

    def drop_(self):
        kinds = {'schema': 'schema', 'table': 'table', 'view': 'view', 'index': 'index', 'sequence': 'sequence', 'function': 'function'}
        w = self.c.v if self.c.k == 'id' else None
        if w not in kinds:
            if w in ('type', 'domain', 'extension', 'trigger', 'materialized', 'procedure', 'role', 'policy', 'rule', 'database'):
                raise Unsupported(w)
            self.err()
        self.i += 1
        if w == 'index':
            self.acc('concurrently')
        ie = self.ifexists()
        ops = []
        while True:
            if w == 'schema':
                ops.append(drop('schema', self.ident()))
            else:
                s, r = self.rel()
                n = ''
                if w == 'function':
                    n = self.args() if self.op('(') else '*'
                ops.append(drop(kinds[w], s, r, n))
            if not self.accop(','):
                break
        cas = self.behaviour()
        for o in ops:
            o.update(ifex=ie, cascade=cas)
        return ops

    def alter_(self):
        if self.acc('table'):
            self.ifexists()
            self.acc('only')
            s, t = self.rel()
            if self.acc('rename'):
                if self.acc('to'):
                    raise Unsupported('rename table')
                if self.acc('constraint'):
                    raise Unsupported('rename constraint')
                self.acc('column')
                a = self.ident()
                self.need('to')
                b = self.ident()
                return [{'op': 'rename', 'p': ['column', s, t, a], 'to': b}]
            if self.kw('set', 'owner', 'enable', 'disable', 'attach', 'inherit', 'replica'):
                raise Unsupported('alter table ' + self.c.v)
            ops = []
            while True:
                ops += self.action(s, t)
                if not self.accop(','):
                    break
            return ops
        if self.acc('sequence'):
            self.ifexists()
            s, q = self.rel()
            kw, own = self.seq_options()
            if own is None and not kw:
                self.err()
            a = {}
            for k2, v in kw.items():
                if v is None:
                    raise Unsupported('alter sequence no minvalue')
                a[k2] = B(v) if isinstance(v, bool) else str(v)
            op = alter('sequence', s, q, '', a)
            if own is not None:
                op['ref'] = own
                op['refs'] = own_refs(own)
            return [op]
        if self.kw('schema', 'view', 'index', 'function', 'type', 'domain', 'role', 'database', 'default'):
            raise Unsupported('alter ' + self.c.v)
        self.err()

    def action(self, s, t):
        if self.acc('add'):
            if self.acc('constraint'):
                return [create(self.table_constraint(s, t, self.ident()))]
            if self.kw('primary', 'unique', 'foreign', 'check'):
                return [create(self.table_constraint(s, t, None))]
            self.acc('column')
            ine = self.acc('if', 'not', 'exists')
            return [create(o, ifex=ine) for o in self.column_def(s, t)]
        if self.acc('drop'):
            if self.acc('constraint'):
                ie = self.ifexists()
                n = self.ident()
                return [drop('constraint', s, t, n, ifex=ie, cascade=self.behaviour())]
            self.acc('column')
            ie = self.ifexists()
            c = self.ident()
            return [drop('column', s, t, c, ifex=ie, cascade=self.behaviour())]
        if self.acc('alter'):
            if self.acc('constraint'):
                n = self.ident()
                d, i = self.attrs()
                return [alter('constraint', s, t, n, {'deferrable': d, 'deferred': i})]
            self.acc('column')
            c = self.ident()
            if self.acc('set', 'data', 'type') or self.acc('type'):
                ty = self.typename()
                if self.acc('collate'):
                    self.qname()
                wipe = []
                if self.acc('using'):
                    i = self.i
                    self.expr()
                    # a conversion that does not look at the column
                    if not any(x.k in ('id', 'qid') and x.v == c for x in self.t[i:self.i]):
                        wipe = [{'op': 'wipe', 'p': ['column', s, t, c]}]
                return [alter('column', s, t, c, {'type': ty})] + wipe
            if self.acc('set', 'default'):
                i = self.i
                e = self.expr()
                if expr_cols(e):
                    raise SqlError('cannot use column reference in DEFAULT expression', '0A000')
                d = canon(strip_parens(self.t[i:self.i]))
                return [alter('column', s, t, c, {'default': '' if d == 'null' else d}, expr_seqs(e) + expr_fns(e))]
            if self.acc('drop', 'default'):
                return [alter('column', s, t, c, {'default': ''}, [])]
            if self.acc('set', 'not', 'null'):
                return [alter('column', s, t, c, {'notnull': 'true'})]
            if self.acc('drop', 'not', 'null'):
                return [alter('column', s, t, c, {'notnull': 'false'})]
            if self.kw('set', 'reset', 'add', 'drop', 'restart'):
                raise Unsupported('alter column ' + self.c.v)
            self.err()
        if self.kw('validate', 'set', 'owner', 'enable', 'disable', 'cluster', 'force', 'no', 'inherit', 'rename', 'reset'):
            raise Unsupported('alter table ' + self.c.v)
        self.err()


def own_refs(own):
    if not own or not own['r']:
        return []
    return [['column', own['s'], own['r'], own['cols'][0]]]


def parse_one(text):
    """one statement -> list of ops, raising SqlError"""
    p = D(text)
    ops = p.stmt()
    p.accop(';')
    p.eof()
    return ops


def parse_stmt(text):
    """entry of an up/down list -> list of ops; SQL the server would reject becomes a 'bad' op.
    An entry holding two commands is rejected, as the extended protocol would."""
    try:
        parts = split_statements(text)
        if len(parts) != 1:
            if not parts:
                return [{'op': 'noop'}]
            return [bad('cannot insert multiple commands into a prepared statement')]
        return parse_one(parts[0])
    except SqlError as e:
        return [bad(e.msg)]


# ---------------------------------------------------------------- podo's change records
def fn_split(name):
    i = name.find('(')
    if i < 0:
        return name.strip(), ''
    j = name.rfind(')')
    try:
        args = cargs(name[i + 1:j if j > i else len(name)])
    except SqlError:
        args = 'RAW:' + name[i:]
    return name[:i].strip(), args


def cargs(text):
    """argument list of a function, types spelt one way"""
    toks = [t for t in (lex(text) if isinstance(text, str) else text) if t.k != 'eof']
    out, cur, depth = [], [], 0
    for t in toks:
        if t.k == 'op' and t.v in '([':
            depth += 1
        if t.k == 'op' and t.v in ')]':
            depth -= 1
        if t.k == 'op' and t.v == ',' and depth == 0:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    if cur:
        out.append(cur)
    return ', '.join(carg(a) for a in out)


def carg(toks):
    for skip in (0, 1, 2):
        if skip >= len(toks) or (skip == 2 and toks[0].v not in ('in', 'out', 'inout', 'variadic')):
            break
        p = P(toks[skip:])
        try:
            ty = p.typename()
        except SqlError:
            continue
        if p.c.k == 'eof' or (p.c.k == 'op' and p.c.v == '=') or p.kw('default'):
            return ' '.join([canon([t]) for t in toks[:skip]] + [ty] + ([canon(p.t[p.i:])] if p.c.k != 'eof' else []))
    return canon(toks)


def clang(l):
    return l.lower()


def column_obj(s, t, name, ty, notnull, default):
    d = '' if default is None else cexpr(default)
    if d == 'null':
        d = ''
    return obj('column', s, t, name, (), None, {'type': ctype(ty), 'notnull': B(notnull), 'default': d},
               default_refs(default) if default is not None else [])


def function_obj(s, name, body, language, returns, volatility):
    f, args = fn_split(name)
    return obj('function', s, f, args, (), None,
               {'args': args, 'body': body, 'language': clang(language), 'returns': ctype(returns), 'volatility': volatility.upper(), 'opts': ''}, row_refs(args, ctype(returns)))


def index_obj(s, name, t, keys, unique, method):
    k, refs, cols = index_keys(keys)
    return obj('index', s, name, '', cols, {'s': s, 'r': t, 'cols': []}, {'unique': B(unique), 'method': method, 'keys': k},
               [['column', s, t, c] if isinstance(c, str) else c for c in refs])


def view_obj(s, name, q):
    try:
        refs = view_refs(q.rstrip().rstrip(';'))
    except SqlError:
        refs = []
    return obj('view', s, name, '', (), None, {'query': cview(q)}, refs)


def change_ops(ch):
    """one recorded change {type, change} -> ops; what is created carries the words podo recorded it with"""
    ops = change_ops1(ch)
    if len(ops) == 1 and ops[0]['op'] == 'create':
        ops[0]['o']['raw'] = json.dumps(ch['change'], sort_keys=True)
    return ops


def change_ops1(ch):
    t, c = ch['type'], ch['change']
    s, tb, n = c.get('schema'), c.get('table'), c.get('constraint')
    dfr = lambda: {'deferrable': B(c['deferrable']), 'deferred': B(c['initially_deferred'])}
    if t == 'CreateSchemaChange':
        return [create(obj('schema', c['schema_name']))]
    if t == 'DropSchemaChange':
        return [drop('schema', c['schema_name'])]
    if t == 'CreateTableChange':
        return [create(obj('table', s, tb))] + [create(column_obj(s, tb, x['name'], x['data_type'], x['not_null'], x['default'])) for x in c['columns']]
    if t == 'DropTableChange':
        return [drop('table', s, tb)]
    if t == 'AddColumnChange':
        return [create(column_obj(s, tb, c['column'], c['data_type'], c['not_null'], c['default']))]
    if t == 'DropColumnChange':
        return [drop('column', s, tb, c['column'])]
    if t == 'AlterColumnSetDataTypeChange':
        return [alter('column', s, tb, c['column'], {'type': ctype(c['data_type'])})]
    if t == 'AlterColumnSetDefaultChange':
        o = column_obj(s, tb, c['column'], 'text', False, c['default'])
        return [alter('column', s, tb, c['column'], {'default': o['a']['default']}, o['refs'])]
    if t == 'AlterColumnSetNotNullChange':
        return [alter('column', s, tb, c['column'], {'notnull': B(c['not_null'])})]
    if t == 'RenameColumnChange':
        return [{'op': 'rename', 'p': ['column', c['from_schema'], c['from_table'], c['from_column']], 'to': c['to_column']}]
    if t == 'AddPrimaryKeyChange':
        return [create(obj('pk', s, tb, n, c['columns'], None, dfr()))]
    if t == 'AddUniqueChange':
        return [create(obj('uq', s, tb, n, c['columns'], None, dfr()))]
    if t == 'AddCheckChange':
        return [create(obj('ck', s, tb, n, (), None, dict(dfr(), expr=cexpr(c['expression'])), check_refs(s, tb, c['expression'])))]
    if t == 'AddForeignKeyChange':
        return [create(obj('fk', s, tb, n, c['columns'], {'s': c['target_schema'], 'r': c['target_table'], 'cols': c['target_columns']},
                           dict(dfr(), match=c['match_option'].upper(), upd=c['update_rule'].upper(), **{'del': c['delete_rule'].upper()})))]
    if t in ('DropPrimaryKeyChange', 'DropUniqueChange', 'DropCheckChange', 'DropForeignKeyChange'):
        return [drop('constraint', s, tb, n)]
    if t in ('AlterPrimaryKeyChange', 'AlterUniqueChange', 'AlterCheckChange', 'AlterForeignKeyChange'):
        return [alter('constraint', s, tb, n, dfr())]
    if t == 'CreateViewChange':
        return [create(view_obj(s, c['view'], c['query']))]
    if t == 'DropViewChange':
        return [drop('view', s, c['view'])]
    if t == 'CreateSequenceChange':
        return [create(obj('sequence', s, c['sequence'], '', (), None,
                           {'type': ctype(c['data_type']), 'inc': str(c['increment']), 'min': str(c['min_value']), 'max': str(c['max_value']),
                            'start': str(c['start']), 'cache': str(c['cache']), 'cycle': B(c['cycle'])}))]
    if t == 'DropSequenceChange':
        return [drop('sequence', s, c['sequence'])]
    if t == 'CreateIndexChange':
        return [create(index_obj(s, c['index'], c['table'], c['key_expressions'], c['unique'], c['method']))]
    if t == 'DropIndexChange':
        return [drop('index', s, c['index'])]
    if t == 'CreateFunctionChange':
        return [create(function_obj(s, c['function'], c['body'], c['language'], c['returns'], c['volatility']))]
    if t == 'DropFunctionChange':
        f, a = fn_split(c['function'])
        return [drop('function', s, f, a)]
    raise Unsupported('change ' + t)
