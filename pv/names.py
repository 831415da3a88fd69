"""Hostile identifiers: an injective renaming of plain names."""
import random

POOL = ['Users', 'user name', 'order', 'SELECT', 'we"ird', "it's", 'naïve', 'null', 'true', '123', 'a:b', '-x', '#c', 'a;b', '{x}', '[y', 'back\\slash', 'é中', 'x"" y', '$1', 'key: v', "''",
        'Column', 'table', 'primary key', 'a,b', '%s', '*', '!bang', 'a = b', 'on', '~', '2024-01-01', '1e3', '"', '@at', '`tick`', 'CamelCase', 'group', 'References', 'default', '--', '/*x*/',
        'col/2', '?', '|pipe', '>gt', '&amp', 'yes', 'No', '$$', '$podo$', '\u2603', 'space  two', 'UPPER CASE', 'limit', 'a\'b"c', '=eq', 'çedilla', 'ß', 'Ünï', 'check', 'unique', 'as', 'schema']


class Names:
    """old name -> hostile name; the same seed gives the same mapping"""

    def __init__(self, seed, share=.7, keep=('public',)):
        self.r = random.Random('names-%s' % seed)
        self.pool = list(POOL)
        self.r.shuffle(self.pool)
        self.map = {k: k for k in keep}
        self.share = share

    def __call__(self, n):
        if n not in self.map:
            if self.r.random() < self.share and self.pool:
                x = self.pool.pop()
                if x in self.map.values():
                    x += '2'
            else:
                x = n
                while x in self.map.values():
                    x += '_'
            self.map[n] = x
        return self.map[n]
