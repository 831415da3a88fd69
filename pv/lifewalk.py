"""spec/MCLife.tla's state graph, walked in the real podo."""
import os, random, shutil
from collections import defaultdict, deque
from . import gen
from .life import Life, simple
from .lifegen import dump, hpath, save, newlabel
from .proj import ToolError
from .tlc import tlc

CFG = 'SPECIFICATION %s\nVIEW View\nINVARIANTS Judged SchemaIsLedger NoGap LedgerInHistory\nCONSTANTS D=%d MaxVersions=%d MaxStage=%d\nCHECK_DEADLOCK FALSE\n'


def graph(ctx, d, v, s):
    """-> {state: [(label, state)]}, initial state"""
    r = tlc('MCLife', CFG % ('SpecE', d, v, s), {'MUT': ''}, timeout=800, heap='10g')
    if not r.ok:
        raise ToolError('MCLife does not hold:\n' + r.out[-3000:])
    ctx.model(r, 'MCLife')
    num, out, seen = {}, defaultdict(list), set()
    for l in r.printed:
        p = l.split('|~|')
        if p[0] != 'EDGE':
            continue
        a, b = num.setdefault(p[1], len(num)), num.setdefault(p[3], len(num))
        if (a, p[2]) not in seen:
            seen.add((a, p[2]))
            out[a].append((p[2], b))
    # TLC examines the initial state first
    return out, 0


def walks(g, start, want, rng, limit=40, budget=10 ** 9):
    """walks from start covering the edges whose label want() accepts"""
    todo = {a: [e for e in es if want(e[0])] for a, es in g.items()}
    for es in todo.values():
        rng.shuffle(es)
    left = sum(map(len, todo.values()))
    out, total = [], 0

    def nearest(a, depth):
        seen, q = {a}, deque([(a, ())])
        while q:
            x, path = q.popleft()
            if todo.get(x):
                return path
            if len(path) < depth:
                es = list(g[x])
                rng.shuffle(es)
                for lab, y in es:
                    if y not in seen:
                        seen.add(y)
                        q.append((y, path + ((lab, y),)))
        return None
    while left and total < budget:
        w, a = [], start
        while len(w) < limit:
            if todo.get(a):
                lab, b = todo[a].pop()
                left -= 1
                w.append(lab)
                a = b
                continue
            path = nearest(a, 40 if not w else 5)
            if path is None:
                break
            for lab, b in path:
                w.append(lab)
                a = b
        if not w:
            break
        out.append(w)
        total += len(w)
    return out, left


class Player:
    def __init__(self, L, r, d):
        self.L, self.r = L, r
        self.names = ['init']
        self.keep = None
        base = gen.empty()
        self.cats = [base]
        for k in range(1, d):
            c = simple(gen.random_cat(r, r.choice([1, 2, 3])))
            self.cats.append(c if c['schemas'] else base)

    def name(self, t):
        if t[:1] == 'v' and t[1:].isdigit():
            k = int(t[1:])
            return self.names[k] if k < len(self.names) else t
        return t

    def plan(self, cmd, target):
        """statements the command would run (for picking one to reject)"""
        L = self.L
        rows = L.rows()
        if cmd == 'up':
            h = L.hist()
            at = self.names.index(rows[-1]['name']) if rows and rows[-1]['name'] in self.names else 0
            to = self.names.index(target) if target in self.names else len(self.names) - 1
            return [s for n in self.names[at + 1:to + 1] if h.get(n) for s in h[n]['up']]
        to = [x['name'] for x in rows].index(target) if target in [x['name'] for x in rows] else len(rows) - 2
        return [s for x in rows[to + 1:] for s in x['down'] or []]

    def failing(self, lost):
        r = self.r
        if lost:
            kind = r.choice(['drop-after', 'kill-after'])
            return lambda n, d: kind if 'COMMIT' in d else None
        k = r.randrange(0, 24) if r.random() < .6 else -1
        kind = r.choice(['error', 'error', 'drop', 'drop-after', 'kill', 'kill-after'])
        early = r.choice(['error', 'drop', 'kill'])
        return lambda n, d: early if 'COMMIT' in d else kind if n == k else None

    def play(self, label):
        L, r = self.L, self.r
        p = label.split(' ')
        if p[0] == 'edit':
            L.set_cat(self.cats[int(p[1])], r=r if r.random() < .2 else None)
        elif p[0] in ('stage', 'reset', 'status'):
            L.cmd(p[0])
        elif p[0] == 'make':
            before = set(L.hist())
            L.cmd('make', newlabel(L, r))
            new = sorted(set(L.hist()) - before)
            self.names += new[:1]
        elif p[0] == 'interrupt':
            n = 'halfway%d' % len(self.names)
            s = L.hist()['stage']
            # as podo reads it: an earlier interruption leaves the stage empty, and then there is nothing to interrupt
            dump(hpath(L, 'database', n), dict(s, name=n))
            L.edit('make was interrupted after writing ' + n)
            self.names.append(n)
        elif p[0] in ('up', 'down'):
            L.cmd(p[0], self.name(p[1]))
        elif p[0] in ('fail', 'lost'):
            L.cmd(p[1], self.name(p[2]), fault=self.failing(p[0] == 'lost'))
        elif p[0] == 'reject':
            st = self.plan(p[1], self.name(p[2]))
            L.cmd(p[1], self.name(p[2]), reject=[r.choice(st)] if st else ())
        elif p[0] == 'break':
            self.keep = save(L, 'database')
            self.smash(p[1])
            L.edit('by hand: ' + p[1])
        elif p[0] == 'restore':
            d = L.path(L.profile()['hist'])
            shutil.rmtree(d, ignore_errors=True)
            shutil.move(self.keep, d)
            L.edit('history restored')
        else:
            raise ToolError('label ' + label)

    def smash(self, k):
        L, r = self.L, self.r
        h = L.hist()
        n = self.names[1] if len(self.names) > 1 else 'stage'
        put = lambda name, v: dump(hpath(L, 'database', name), v)
        if k == 'unreadable':
            with open(hpath(L, 'database', n), 'w') as f:
                f.write(r.choice(['', ':::[', 'name: x\n', '- a\n']))
        elif k == 'fork':
            put('fork', dict(h[n], name='fork', up=['SELECT 1']))
        elif k == 'missing':
            os.unlink(hpath(L, 'database', n))
        elif k == 'circle':
            put(n, dict(h[n], previous=n))
        elif k == 'stray':
            put('stray', {'name': 'stray', 'previous': 'ghost', 'changes': [], 'up': ['SELECT 1'], 'down': []})
        elif k == 'noinit':
            os.unlink(hpath(L, 'database', 'init'))
        elif k == 'gone':
            d = L.path(L.profile()['hist'])
            shutil.rmtree(d)
            os.makedirs(d)
        elif k == 'tamper':
            for x in self.names[1:]:
                if x in h:
                    put(x, dict(h[x], up=['SELECT tampered'], down=['DROP TABLE tampered']))


def one(exe, job):
    name, d, labels = job
    r = random.Random('lifewalk-%s' % name)
    with Life(exe, 'lifewalk-%s' % name) as L:
        if L.start():
            pl = Player(L, r, d)
            L.set_cat(pl.cats[0])
            for lab in labels:
                pl.play(lab)
                L.notes[-1]['model'] = lab
        return L.data()
