"""PostgreSQL lexer shared by the DDL parser (ddl.py) and the query engine (engine.py)."""

class SqlError(Exception):
    """An error PostgreSQL would report; code is the SQLSTATE."""
    def __init__(self, msg, code='42601'):
        super().__init__(msg)
        self.msg, self.code = msg, code

class T:
    """Token: k in {id, qid, str, num, param, op, eof}; v = value; raw text; position."""
    __slots__ = ('k', 'v', 'raw', 'a', 'b')
    def __init__(self, k, v, raw, a, b):
        self.k, self.v, self.raw, self.a, self.b = k, v, raw, a, b
    def __repr__(self):
        return '%s:%r' % (self.k, self.v)

OPCH = set('+-*/<>=~!@#%^&|`?')

def lex(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
            continue
        if s.startswith('--', i):
            j = s.find('\n', i)
            i = n if j < 0 else j + 1
            continue
        if s.startswith('/*', i):
            depth, j = 1, i + 2
            while j < n and depth:
                if s.startswith('/*', j):
                    depth += 1; j += 2
                elif s.startswith('*/', j):
                    depth -= 1; j += 2
                else:
                    j += 1
            if depth:
                raise SqlError('unterminated comment')
            i = j
            continue
        if c == "'" or (c in 'eE' and s[i+1:i+2] == "'"):
            esc = c != "'"
            j = i + (2 if esc else 1)
            buf = []
            while True:
                if j >= n:
                    raise SqlError('unterminated quoted string')
                if s[j] == "'":
                    if s[j+1:j+2] == "'":
                        buf.append("'"); j += 2
                        continue
                    break
                if esc and s[j] == '\\':
                    m = s[j+1:j+2]
                    buf.append({'n': '\n', 't': '\t', 'r': '\r'}.get(m, m)); j += 2
                    continue
                buf.append(s[j]); j += 1
            j += 1
            out.append(T('str', ''.join(buf), s[i:j], i, j))
            i = j
            continue
        if c == '"':
            j = i + 1
            buf = []
            while True:
                if j >= n:
                    raise SqlError('unterminated quoted identifier')
                if s[j] == '"':
                    if s[j+1:j+2] == '"':
                        buf.append('"'); j += 2
                        continue
                    break
                buf.append(s[j]); j += 1
            j += 1
            if not buf:
                raise SqlError('zero-length delimited identifier')
            out.append(T('qid', ''.join(buf), s[i:j], i, j))
            i = j
            continue
        if c == '$':
            j = i + 1
            if j < n and s[j].isdigit():
                while j < n and s[j].isdigit():
                    j += 1
                out.append(T('param', int(s[i+1:j]), s[i:j], i, j))
                i = j
                continue
            while j < n and (s[j].isalnum() or s[j] == '_' or ord(s[j]) > 127):
                j += 1
            if j < n and s[j] == '$' and not s[i+1:i+2].isdigit():
                tag = s[i:j+1]
                e = s.find(tag, j + 1)
                if e < 0:
                    raise SqlError('unterminated dollar-quoted string')
                out.append(T('str', s[j+1:e], s[i:e+len(tag)], i, e + len(tag)))
                i = e + len(tag)
                continue
            raise SqlError('syntax error at or near "$"')
        if c.isdigit() or (c == '.' and s[i+1:i+2].isdigit()):
            j = i
            while j < n and (s[j].isdigit() or s[j] == '.' or (s[j] in 'eE' and j + 1 < n and (s[j+1].isdigit() or s[j+1] in '+-'))
                             or (s[j] in '+-' and s[j-1] in 'eE')):
                j += 1
            if j < n and (s[j].isalpha() or s[j] == '_'):
                raise SqlError('trailing junk after numeric literal at or near "%s"' % s[i:j+1])
            out.append(T('num', s[i:j], s[i:j], i, j))
            i = j
            continue
        if c.isalpha() or c == '_' or ord(c) > 127:
            j = i
            while j < n and (s[j].isalnum() or s[j] in '_$' or ord(s[j]) > 127):
                j += 1
            w = s[i:j]
            # PostgreSQL folds ASCII letters only (multi-byte encodings)
            out.append(T('id', ''.join(ch.lower() if ord(ch) < 128 else ch for ch in w), w, i, j))
            i = j
            continue
        if c in OPCH:
            j = i
            while j < n and s[j] in OPCH and not s.startswith('--', j) and not s.startswith('/*', j):
                j += 1
            # an operator may not end in + or - unless it has one of ~ ! @ # % ^ & | ` ?
            while j - i > 1 and s[j-1] in '+-' and not any(x in '~!@#%^&|`?' for x in s[i:j]):
                j -= 1
            out.append(T('op', s[i:j], s[i:j], i, j))
            i = j
            continue
        if s.startswith('::', i) or s.startswith(':=', i):
            out.append(T('op', s[i:i+2], s[i:i+2], i, i + 2)); i += 2
            continue
        if c in '()[],;.:':
            out.append(T('op', c, c, i, i + 1)); i += 1
            continue
        raise SqlError('syntax error at or near "%s"' % c)
    out.append(T('eof', None, '', n, n))
    return out

# reserved words that cannot be a bare column/table name (PostgreSQL appendix C, reserved)
RESERVED = set('''all analyse analyze and any array as asc asymmetric both case cast check collate column
constraint create current_catalog current_date current_role current_time current_timestamp current_user default
deferrable desc distinct do else end except false fetch for foreign from grant group having in initially
intersect into lateral leading limit localtime localtimestamp not null offset on only or order placing primary
references returning select session_user some symmetric table then to trailing true union unique user using
variadic when where window with'''.split())

def qident(t):
    """canonical text of an identifier token (folded, quoted only if needed)"""
    v = t.v
    if t.k == 'id':
        return v
    if v and (v[0].isalpha() or v[0] == '_') and all((ch.isalnum() and ch == ch.lower()) or ch in '_$' for ch in v) \
            and v not in RESERVED and all(ord(ch) < 128 for ch in v):
        return v
    return '"' + v.replace('"', '""') + '"'

def canon(toks):
    """canonical text of a token list: whitespace and quoting noise removed, meaning kept"""
    out = []
    for t in toks:
        if t.k in ('id', 'qid'):
            out.append(qident(t))
        elif t.k == 'str':
            out.append("'" + t.v.replace("'", "''") + "'")
        elif t.k == 'param':
            out.append('$%d' % t.v)
        elif t.k == 'eof':
            pass
        else:
            out.append(t.v)
    return ' '.join(out)

def strip_parens(toks):
    """remove redundant outer parentheses"""
    toks = list(toks)
    while len(toks) >= 2 and toks[0].v == '(' and toks[0].k == 'op' and toks[-1].v == ')' and toks[-1].k == 'op':
        d = 0
        for i, t in enumerate(toks):
            if t.k == 'op' and t.v == '(':
                d += 1
            elif t.k == 'op' and t.v == ')':
                d -= 1
                if d == 0:
                    break
        if i != len(toks) - 1:
            break
        toks = toks[1:-1]
    return toks

def split_top(toks, sep=','):
    out, cur, d = [], [], 0
    for t in toks:
        if t.k == 'op' and t.v in '([':
            d += 1
        elif t.k == 'op' and t.v in ')]':
            d -= 1
            if d < 0:
                raise SqlError('syntax error at or near "%s"' % t.v)
        if d == 0 and t.k == 'op' and t.v == sep:
            out.append(cur); cur = []
        else:
            cur.append(t)
    if d:
        raise SqlError('syntax error at end of input')
    out.append(cur)
    return out

def split_statements(s):
    """split a script into statement texts at top-level semicolons"""
    toks = lex(s)
    out, start, d, last = [], None, 0, 0
    for t in toks:
        if t.k == 'op' and t.v == '(':
            d += 1
        elif t.k == 'op' and t.v == ')':
            d -= 1
        if t.k == 'eof' or (t.k == 'op' and t.v == ';'):
            if start is not None:
                out.append(s[start:last])
            start = None
        else:
            if start is None:
                start = t.a
            last = t.b
    return out
