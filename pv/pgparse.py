"""Recursive-descent parser for the PostgreSQL subset podo uses: expressions, SELECT, DML.
DDL lives in ddl.py on top of this. ASTs are tuples."""
from .sqllex import lex, SqlError, RESERVED, canon, T

JOIN_WORDS = {'join', 'left', 'right', 'full', 'inner', 'cross', 'natural'}
NOALIAS = RESERVED | JOIN_WORDS | {'is', 'isnull', 'notnull', 'like', 'ilike', 'similar', 'between', 'at', 'set', 'overlaps'}
CMP = {'<', '>', '=', '<=', '>=', '<>', '!='}


class P:
    def __init__(self, src):
        self.t = lex(src) if isinstance(src, str) else list(src)
        if not self.t or self.t[-1].k != 'eof':
            e = self.t[-1].b if self.t else 0
            self.t.append(T('eof', None, '', e, e))
        self.i = 0

    # --- token helpers
    @property
    def c(self):
        return self.t[self.i]

    def la(self, n=1):
        return self.t[min(self.i + n, len(self.t) - 1)]

    def err(self, t=None):
        t = t or self.c
        if t.k == 'eof':
            raise SqlError('syntax error at end of input')
        raise SqlError('syntax error at or near "%s"' % t.raw)

    def kw(self, *ws):
        return self.c.k == 'id' and self.c.v in ws

    def kws(self, *ws):
        """are the next tokens exactly these keywords?"""
        return all(self.la(j).k == 'id' and self.la(j).v == w for j, w in enumerate(ws))

    def op(self, *os):
        return self.c.k == 'op' and self.c.v in os

    def take(self):
        t = self.c
        self.i += 1
        return t

    def acc(self, *ws):
        if self.kws(*ws):
            self.i += len(ws)
            return True
        return False

    def accop(self, o):
        if self.op(o):
            self.i += 1
            return True
        return False

    def need(self, *ws):
        if not self.acc(*ws):
            self.err()

    def needop(self, o):
        if not self.accop(o):
            self.err()

    def eof(self):
        if self.c.k != 'eof':
            self.err()

    def ident(self, strict=True):
        """column/table style identifier (ColId)"""
        t = self.c
        if t.k == 'qid' or (t.k == 'id' and t.v not in RESERVED):
            self.i += 1
            return t.v
        self.err()

    def label(self):
        """ColLabel: any keyword allowed"""
        t = self.c
        if t.k in ('id', 'qid'):
            self.i += 1
            return t.v
        self.err()

    def qname(self):
        parts = [self.ident()]
        while self.accop('.'):
            parts.append(self.label())
        return parts

    def names(self):
        self.needop('(')
        out = [self.ident()]
        while self.accop(','):
            out.append(self.ident())
        self.needop(')')
        return out

    def integer(self):
        neg = False
        if self.op('-', '+'):
            neg = self.take().v == '-'
        t = self.c
        if t.k != 'num' or not t.v.isdigit():
            self.err()
        self.i += 1
        return -int(t.v) if neg else int(t.v)

    # --- types
    MULTI = [('double', 'precision'), ('character', 'varying'), ('bit', 'varying'), ('char', 'varying'),
             ('national', 'character', 'varying'), ('national', 'character')]

    def typename(self):
        """-> canonical type text"""
        if self.c.k == 'id' and self.c.v == 'setof':
            self.i += 1
            return 'setof ' + self.typename()
        name = None
        for m in self.MULTI:
            if self.kws(*m):
                self.i += len(m)
                name = ' '.join(m)
                break
        quoted = False
        if name is None:
            quoted = self.c.k == 'qid'
            parts = [self.ident()]
            while self.accop('.'):
                quoted = quoted or self.c.k == 'qid'
                parts.append(self.label())
            if parts[:-1] == ['pg_catalog']:
                parts = parts[1:]
            name = parts[0] if len(parts) == 1 and not (quoted and parts[0] != 'char') else '.'.join(
                p if p.isidentifier() and p == p.lower() else '"%s"' % p for p in parts)
            if quoted and parts == ['char']:
                name = '"char"'
        mods = None
        if self.op('('):
            self.i += 1
            mods = [str(self.integer())]
            while self.accop(','):
                mods.append(str(self.integer()))
            self.needop(')')
        if name in ('timestamp', 'time'):
            if self.acc('with', 'time', 'zone'):
                name += 'tz'
            elif self.acc('without', 'time', 'zone'):
                pass
        if name == 'interval':
            while self.kw('year', 'month', 'day', 'hour', 'minute', 'second', 'to'):
                name += ' ' + self.take().v
        name = ALIAS.get(name, name)
        if name == 'bpchar' and mods is None:
            mods = ['1']
        if name == 'numeric' and mods and len(mods) == 1:
            mods.append('0')
        out = name + ('(%s)' % ','.join(mods) if mods else '')
        dims = False
        while True:
            if self.op('[') and (self.la().v == ']' or (self.la().k == 'num' and self.la(2).v == ']')):
                self.i += 2 if self.la().v == ']' else 3
                dims = True
            elif self.kw('array') and not dims:
                self.i += 1
                dims = True
                if self.accop('['):
                    self.integer()
                    self.needop(']')
            else:
                break
        return out + ('[]' if dims else '')

    # --- expressions
    def expr(self):
        return self.e_or()

    def e_or(self):
        l = self.e_and()
        while self.acc('or'):
            l = ('or', l, self.e_and())
        return l

    def e_and(self):
        l = self.e_not()
        while self.acc('and'):
            l = ('and', l, self.e_not())
        return l

    def e_not(self):
        if self.acc('not'):
            return ('not', self.e_not())
        return self.e_is()

    def e_is(self):
        l = self.e_cmp()
        while True:
            if self.acc('isnull'):
                l = ('is', 'null', l, False)
            elif self.acc('notnull'):
                l = ('is', 'null', l, True)
            elif self.acc('is'):
                neg = self.acc('not')
                if self.acc('null'):
                    l = ('is', 'null', l, neg)
                elif self.acc('true'):
                    l = ('is', 'true', l, neg)
                elif self.acc('false'):
                    l = ('is', 'false', l, neg)
                elif self.acc('unknown'):
                    l = ('is', 'null', l, neg)
                elif self.acc('distinct', 'from'):
                    l = ('distinct', l, self.e_cmp(), neg)
                else:
                    self.err()
            else:
                return l

    def e_cmp(self):
        l = self.e_like()
        if self.c.k == 'op' and self.c.v in CMP:
            o = self.take().v
            if self.kw('any', 'some', 'all') and self.la().v == '(':
                return self.anyall(o, l)
            r = self.e_like()
            return ('bin', '<>' if o == '!=' else o, l, r)
        return l

    def anyall(self, o, l):
        kind = 'all' if self.take().v == 'all' else 'any'
        self.needop('(')
        if self.kw('select', 'with', 'values'):
            r = ('sub', self.select())
        else:
            r = self.expr()
        self.needop(')')
        return ('anyall', '<>' if o == '!=' else o, kind, l, r)

    def e_like(self):
        l = self.e_op()
        while True:
            save = self.i
            neg = self.acc('not')
            if self.acc('like'):
                l = ('like', l, self.e_op(), neg, False)
            elif self.acc('ilike'):
                l = ('like', l, self.e_op(), neg, True)
            elif self.acc('between'):
                self.acc('symmetric')
                a = self.e_op()
                self.need('and')
                b = self.e_op()
                l = ('between', l, a, b, neg)
            elif self.acc('in'):
                self.needop('(')
                if self.kw('select', 'with', 'values'):
                    r = self.select()
                    l = ('insub', l, r, neg)
                else:
                    items = [self.expr()]
                    while self.accop(','):
                        items.append(self.expr())
                    l = ('in', l, items, neg)
                self.needop(')')
            else:
                self.i = save
                return l

    def e_op(self):
        l = self.e_add()
        while self.c.k == 'op' and self.c.v not in CMP and self.c.v not in '()[],;.:' and self.c.v not in ('+', '-', '*', '/', '%', '^', '::', ':='):
            o = self.take().v
            if self.kw('any', 'some', 'all') and self.la().v == '(':
                l = self.anyall(o, l)
            else:
                l = ('bin', o, l, self.e_add())
        return l

    def e_add(self):
        l = self.e_mul()
        while self.op('+', '-'):
            o = self.take().v
            l = ('bin', o, l, self.e_mul())
        return l

    def e_mul(self):
        l = self.e_pow()
        while self.op('*', '/', '%'):
            o = self.take().v
            l = ('bin', o, l, self.e_pow())
        return l

    def e_pow(self):
        l = self.e_un()
        while self.op('^'):
            self.take()
            l = ('bin', '^', l, self.e_un())
        return l

    def e_un(self):
        if self.op('-', '+'):
            o = self.take().v
            return ('un', o, self.e_un())
        if self.c.k == 'op' and self.c.v in ('~', '@', '!!', '|/', '||/'):
            o = self.take().v
            return ('un', o, self.e_un())
        return self.e_post()

    def e_post(self):
        e = self.primary()
        while True:
            if self.accop('::'):
                e = ('cast', e, self.typename())
            elif self.op('[') and e[0] != 'lit':
                self.i += 1
                a = None if self.op(':') else self.expr()
                if self.accop(':'):
                    b = None if self.op(']') else self.expr()
                    e = ('slice', e, a, b)
                else:
                    e = ('idx', e, a)
                self.needop(']')
            elif self.kw('collate'):
                self.i += 1
                self.qname()
            elif self.kws('at', 'time', 'zone'):
                self.i += 3
                e = ('func', ['timezone'], [self.e_un(), e], {})
            elif self.op('.') and e[0] in ('paren', 'idx', 'func'):
                self.i += 1
                e = ('field', e, self.label())
            else:
                return e

    def primary(self):
        t = self.c
        if t.k == 'num':
            self.i += 1
            return ('lit', 'int4' if t.v.isdigit() else 'numeric', t.v)
        if t.k == 'str':
            self.i += 1
            return ('lit', 'unknown', t.v)
        if t.k == 'param':
            self.i += 1
            return ('param', t.v)
        if self.op('('):
            self.i += 1
            if self.kw('select', 'with', 'values'):
                q = self.select()
                self.needop(')')
                return ('sub', q)
            e = self.expr()
            if self.op(','):
                items = [e]
                while self.accop(','):
                    items.append(self.expr())
                self.needop(')')
                return ('row', items)
            self.needop(')')
            return ('paren', e) if self.op('.') else e
        if self.op('*'):
            self.i += 1
            return ('star', None)
        if t.k not in ('id', 'qid'):
            self.err()
        if t.k == 'id':
            v = t.v
            if v in ('true', 'false'):
                self.i += 1
                return ('lit', 'bool', v == 'true')
            if v == 'null':
                self.i += 1
                return ('lit', 'unknown', None)
            if v == 'case':
                return self.case()
            if v == 'exists' and self.la().v == '(':
                self.i += 2
                q = self.select()
                self.needop(')')
                return ('exists', q)
            if v == 'array' and self.la().k == 'op' and self.la().v in '[(':
                self.i += 1
                if self.accop('('):
                    q = self.select()
                    self.needop(')')
                    return ('arraysub', q)
                return self.arraylit()
            if v == 'cast' and self.la().v == '(':
                self.i += 2
                e = self.expr()
                self.need('as')
                ty = self.typename()
                self.needop(')')
                return ('cast', e, ty)
            if v == 'row' and self.la().v == '(':
                self.i += 2
                items = []
                if not self.op(')'):
                    items = [self.expr()]
                    while self.accop(','):
                        items.append(self.expr())
                self.needop(')')
                return ('row', items)
            if v in ('current_timestamp', 'current_date', 'current_time', 'localtimestamp', 'localtime', 'current_user',
                     'session_user', 'user', 'current_role', 'current_catalog'):
                self.i += 1
                if self.op('('):
                    self.i += 1
                    self.integer()
                    self.needop(')')
                return ('func', [v], [], {})
            if v in ('substring', 'trim', 'extract', 'position', 'overlay') and self.la().v == '(':
                return self.special(v)
            # type 'literal'
            if self.la().k == 'str' and v in LITTYPES:
                self.i += 1
                s = self.take().v
                return ('cast', ('lit', 'unknown', s), ALIAS.get(v, v))
            if v in RESERVED and not (v in ('left', 'right') and self.la().v == '('):
                self.err()
        parts = [self.take().v]
        while self.op('.'):
            self.i += 1
            if self.op('*'):
                self.i += 1
                return ('star', parts)
            parts.append(self.label())
        if self.op('('):
            return self.call(parts)
        return ('col', parts)

    def arraylit(self):
        self.needop('[')
        items = []
        if not self.op(']'):
            while True:
                items.append(self.arraylit() if self.op('[') else self.expr())
                if not self.accop(','):
                    break
        self.needop(']')
        return ('array', items)

    def case(self):
        self.need('case')
        operand = None if self.kw('when') else self.expr()
        whens = []
        while self.acc('when'):
            c = self.expr()
            self.need('then')
            whens.append((c, self.expr()))
        if not whens:
            self.err()
        els = self.expr() if self.acc('else') else None
        self.need('end')
        return ('case', operand, whens, els)

    def special(self, v):
        self.i += 2
        if v == 'trim':
            side = 'btrim'
            if self.kw('leading', 'trailing', 'both'):
                side = {'leading': 'ltrim', 'trailing': 'rtrim', 'both': 'btrim'}[self.take().v]
            args = []
            if self.acc('from'):
                args = [self.expr()]
            else:
                a = self.expr()
                if self.acc('from'):
                    args = [self.expr(), a]
                else:
                    args = [a]
                    while self.accop(','):
                        args.append(self.expr())
            self.needop(')')
            return ('func', [side], args, {})
        if v == 'extract':
            f = self.take().v
            self.need('from')
            e = self.expr()
            self.needop(')')
            return ('func', ['date_part'], [('lit', 'unknown', f), e], {})
        if v == 'position':
            a = self.e_op()
            self.need('in')
            b = self.expr()
            self.needop(')')
            return ('func', ['strpos'], [b, a], {})
        args = [self.expr()]
        while True:
            if self.accop(',') or self.acc('from') or self.acc('for'):
                args.append(self.expr())
            else:
                break
        self.needop(')')
        return ('func', [v], args, {})

    def call(self, parts):
        self.needop('(')
        opts = {}
        args = []
        if self.accop('*'):
            opts['star'] = True
        elif not self.op(')'):
            if self.acc('distinct'):
                opts['distinct'] = True
            else:
                self.acc('all')
            while True:
                self.acc('variadic')
                args.append(self.expr())
                if not self.accop(','):
                    break
            if self.acc('order', 'by'):
                opts['order'] = self.orderby()
        self.needop(')')
        if self.acc('within', 'group'):
            self.err()
        if self.acc('filter'):
            self.needop('(')
            self.need('where')
            opts['filter'] = self.expr()
            self.needop(')')
        if self.acc('over'):
            self.needop('(')
            ov = {'partition': [], 'order': []}
            if self.acc('partition', 'by'):
                ov['partition'] = [self.expr()]
                while self.accop(','):
                    ov['partition'].append(self.expr())
            if self.acc('order', 'by'):
                ov['order'] = self.orderby()
            self.needop(')')
            opts['over'] = ov
        return ('func', parts, args, opts)

    def orderby(self):
        out = []
        while True:
            e = self.expr()
            desc = False
            if self.acc('asc'):
                pass
            elif self.acc('desc'):
                desc = True
            nulls = None
            if self.acc('nulls', 'first'):
                nulls = 'first'
            elif self.acc('nulls', 'last'):
                nulls = 'last'
            out.append((e, desc, nulls))
            if not self.accop(','):
                return out

    # --- queries
    def select(self):
        ctes = []
        if self.acc('with'):
            rec = self.acc('recursive')
            while True:
                name = self.ident()
                cols = self.names() if self.op('(') else None
                self.need('as')
                self.acc('not', 'materialized') or self.acc('materialized')
                self.needop('(')
                q = self.select()
                self.needop(')')
                ctes.append((name, cols, q, rec))
                if not self.accop(','):
                    break
        q = self.setop()
        tail = {'order': [], 'limit': None, 'offset': None, 'lock': False}
        if self.acc('order', 'by'):
            tail['order'] = self.orderby()
        while True:
            if self.acc('limit'):
                tail['limit'] = None if self.acc('all') else self.expr()
            elif self.acc('offset'):
                tail['offset'] = self.expr()
                self.acc('rows') or self.acc('row')
            elif self.acc('fetch'):
                self.acc('first') or self.need('next')
                tail['limit'] = ('lit', 'int4', '1') if self.kw('row', 'rows') else self.e_post()
                self.acc('rows') or self.need('row')
                self.need('only')
            elif self.acc('for'):
                self.acc('no', 'key')
                self.acc('key')
                if not (self.acc('update') or self.acc('share')):
                    self.err()
                if self.acc('of'):
                    self.qname()
                self.acc('nowait') or self.acc('skip', 'locked')
                tail['lock'] = True
            else:
                break
        return ('select', q, tail, ctes)

    def setop(self):
        l = self.core()
        while self.kw('union', 'intersect', 'except'):
            o = self.take().v
            al = self.acc('all')
            if not al:
                self.acc('distinct')
            l = ('set', o, al, l, self.core())
        return l

    def core(self):
        if self.op('('):
            self.i += 1
            q = self.select()
            self.needop(')')
            return q
        if self.acc('values'):
            rows = []
            while True:
                self.needop('(')
                row = [self.expr()]
                while self.accop(','):
                    row.append(self.expr())
                self.needop(')')
                rows.append(row)
                if not self.accop(','):
                    break
            return ('values', rows)
        self.need('select')
        distinct = None
        if self.acc('distinct'):
            distinct = True
            if self.acc('on'):
                self.needop('(')
                distinct = [self.expr()]
                while self.accop(','):
                    distinct.append(self.expr())
                self.needop(')')
        else:
            self.acc('all')
        items = []
        if not (self.kw('from', 'where', 'group', 'having', 'order', 'limit') or self.op(')', ';') or self.c.k == 'eof'):
            while True:
                e = self.expr()
                name = None
                if self.acc('as'):
                    name = self.label()
                elif self.c.k == 'qid' or (self.c.k == 'id' and self.c.v not in NOALIAS):
                    name = self.take().v
                items.append((e, name))
                if not self.accop(','):
                    break
        frm = None
        if self.acc('from'):
            frm = self.fromlist()
        where = self.expr() if self.acc('where') else None
        group = None
        if self.acc('group', 'by'):
            group = [self.expr()]
            while self.accop(','):
                group.append(self.expr())
        having = self.expr() if self.acc('having') else None
        return ('core', distinct, items, frm, where, group, having)

    def fromlist(self):
        f = self.joined()
        while self.accop(','):
            f = ('join', 'cross', f, self.joined(), None)
        return f

    def joined(self):
        l = self.fromitem()
        while True:
            if self.acc('cross', 'join'):
                l = ('join', 'cross', l, self.fromitem(), None)
                continue
            kind = None
            save = self.i
            if self.acc('natural'):
                raise SqlError('unsupported: natural join', 'XX000')
            if self.acc('inner') or self.kw('join'):
                kind = 'inner'
            elif self.kw('left', 'right', 'full'):
                kind = self.take().v
                self.acc('outer')
            if kind is None:
                return l
            if not self.acc('join'):
                self.err()
            # a join tree on the right binds until its ON
            r = self.joined() if self.kw('lateral') and False else self.fromitem()
            while not self.kw('on', 'using'):
                # a JOIN b JOIN c ON .. ON ..
                r2 = self.continue_join(r)
                if r2 is None:
                    self.err()
                r = r2
            if self.acc('on'):
                l = ('join', kind, l, r, self.expr())
            else:
                self.need('using')
                l = ('join', kind, l, r, ('using', self.names()))

    def continue_join(self, l):
        kind = None
        if self.acc('cross', 'join'):
            return ('join', 'cross', l, self.fromitem(), None)
        if self.acc('inner') or self.kw('join'):
            kind = 'inner'
        elif self.kw('left', 'right', 'full'):
            kind = self.take().v
            self.acc('outer')
        if kind is None or not self.acc('join'):
            return None
        r = self.fromitem()
        while not self.kw('on', 'using'):
            r2 = self.continue_join(r)
            if r2 is None:
                self.err()
            r = r2
        if self.acc('on'):
            return ('join', kind, l, r, self.expr())
        self.need('using')
        return ('join', kind, l, r, ('using', self.names()))

    def alias(self):
        """-> (alias, column aliases) or (None, None)"""
        if self.acc('as'):
            a = self.ident()
        elif self.c.k == 'qid' or (self.c.k == 'id' and self.c.v not in NOALIAS):
            a = self.take().v
        else:
            return None, None
        cols = None
        if self.op('('):
            cols = self.names()
        return a, cols

    def fromitem(self):
        lateral = self.acc('lateral')
        if self.op('('):
            # subquery or parenthesised join
            j = self.i + 1
            while self.t[j].k == 'op' and self.t[j].v == '(':
                j += 1
            if self.t[j].k == 'id' and self.t[j].v in ('select', 'with', 'values'):
                self.i += 1
                q = self.select()
                self.needop(')')
                a, cols = self.alias()
                return ('subq', q, a, cols, lateral)
            self.i += 1
            f = self.joined()
            while self.accop(','):
                f = ('join', 'cross', f, self.joined(), None)
            self.needop(')')
            return f
        if self.acc('only'):
            pass
        parts = self.qname()
        if self.op('('):
            f = self.call(parts)
            ordi = self.acc('with', 'ordinality')
            a, cols = self.alias()
            return ('funcrel', f, a, cols, ordi)
        self.accop('*')
        a, cols = self.alias()
        return ('rel', parts, a, cols)

    # --- DML
    def dml(self):
        if self.kw('select', 'with', 'values') or self.op('('):
            return self.select()
        if self.acc('insert', 'into'):
            rel = self.qname()
            alias = self.ident() if self.acc('as') else None
            cols = self.names() if self.op('(') else None
            if self.acc('default', 'values'):
                src = None
            else:
                src = self.select()
            conflict = None
            if self.acc('on', 'conflict'):
                target = None
                if self.op('('):
                    target = self.names()
                elif self.acc('on', 'constraint'):
                    target = self.ident()
                self.need('do')
                if self.acc('nothing'):
                    conflict = ('nothing', target)
                else:
                    self.need('update')
                    self.need('set')
                    conflict = ('update', target, self.setlist(), self.expr() if self.acc('where') else None)
            ret = self.returning()
            return ('insert', rel, cols, src, conflict, ret, alias)
        if self.acc('delete', 'from'):
            self.acc('only')
            rel = self.qname()
            a, _ = self.alias() if not self.kw('using') else (None, None)
            using = None
            if self.acc('using'):
                using = self.fromlist()
            where = self.expr() if self.acc('where') else None
            return ('delete', rel, a, where, self.returning(), using)
        if self.acc('update'):
            self.acc('only')
            rel = self.qname()
            a = None
            if not self.kw('set'):
                a, _ = self.alias()
            self.need('set')
            sets = self.setlist()
            frm = self.fromlist() if self.acc('from') else None
            where = self.expr() if self.acc('where') else None
            return ('update', rel, a, sets, frm, where, self.returning())
        self.err()

    def setlist(self):
        out = []
        while True:
            c = self.ident()
            self.needop('=')
            out.append((c, ('default',) if self.acc('default') else self.expr()))
            if not self.accop(','):
                return out

    def returning(self):
        if not self.acc('returning'):
            return None
        items = []
        while True:
            e = self.expr()
            name = None
            if self.acc('as'):
                name = self.label()
            items.append((e, name))
            if not self.accop(','):
                return items


ALIAS = {'int': 'int4', 'integer': 'int4', 'bigint': 'int8', 'smallint': 'int2', 'boolean': 'bool', 'decimal': 'numeric', 'dec': 'numeric',
         'real': 'float4', 'double precision': 'float8', 'float': 'float8', 'character varying': 'varchar', 'char varying': 'varchar',
         'character': 'bpchar', 'char': 'bpchar', 'national character': 'bpchar', 'nchar': 'bpchar', 'national character varying': 'varchar',
         'bit varying': 'varbit'}
LITTYPES = {'date', 'timestamp', 'timestamptz', 'time', 'interval', 'bool', 'boolean', 'int', 'integer', 'text', 'numeric', 'json', 'jsonb', 'uuid', 'regclass', 'point', 'box', 'bytea'}


def parse_expr(src):
    p = P(src)
    e = p.expr()
    p.eof()
    return e


def parse_select(src):
    p = P(src)
    q = p.select()
    p.accop(';')
    p.eof()
    return q


def parse_type(src):
    p = P(src)
    ty = p.typename()
    p.eof()
    return ty


def walk(e, f):
    """call f on every tuple node"""
    if isinstance(e, tuple):
        f(e)
        for x in e:
            walk(x, f)
    elif isinstance(e, (list,)):
        for x in e:
            walk(x, f)
    elif isinstance(e, dict):
        for x in e.values():
            walk(x, f)
