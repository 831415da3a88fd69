"""What a command says it did: its standard output as data for the C21 clauses of Podo.tla. Names and statements may span
lines, so they are recognised by those that occur in the project and its databases; anything else is kept as it stands."""
import re

NOTHING = {'head': '', 'to': '', 'steps': [], 'none': False, 'rest': ''}
ANSI = re.compile(r'\x1b\[[0-9;]*m')


class Texts:
    """every statement and version name that has occurred"""

    def __init__(self):
        self.stmts, self.names = {}, {}

    def add(self, table, text):
        l = table.setdefault(text.split('\n', 1)[0], [])
        if text not in l:
            l.append(text)
            l.sort(key=len, reverse=True)

    def find(self, table, s, pos, end):
        """the longest known text at pos that is followed by end"""
        line = s[pos:].split('\n', 1)[0]
        cands = [t for k in ([line] if end == '\n' else [k for k in table if line.startswith(k)]) for t in table.get(k, ())]
        for t in sorted(cands, key=len, reverse=True):
            if s.startswith(t + end, pos):
                return t
        return None


def blank():
    return dict(NOTHING, steps=[])


def read(cmd, out, texts, sid):
    out = ANSI.sub('', out)
    o = blank()
    if cmd in ('up', 'down'):
        m = re.match(r'On database version: (.*?)\n(?=Applying %sward migrations to |No migrations to apply\.)' % cmd, out, re.S)
        if not m:
            return dict(o, rest=out[:200])
        o['head'], pos = m.group(1), m.end()
        m = re.compile(r'Applying %sward migrations to (.*?):\n' % cmd, re.S).match(out, pos)
        if m:
            o['to'], pos = m.group(1), m.end()
        word = '  Applying version ' if cmd == 'up' else '  Reverting version '
        while pos < len(out):
            if out.startswith(word, pos):
                pos += len(word)
                t = texts.find(texts.names, out, pos, '\n')
                t = out[pos:].split('\n', 1)[0] if t is None else t
                o['steps'].append({'v': t, 'run': []})
                pos += len(t) + 1
            elif out.startswith('    ', pos) and o['steps']:
                pos += 4
                t = texts.find(texts.stmts, out, pos, '\n')
                o['steps'][-1]['run'].append('?' if t is None else sid(t))
                pos += len(out[pos:].split('\n', 1)[0] if t is None else t) + 1
            else:
                line = out[pos:].split('\n', 1)[0]
                if line.strip().startswith('No migrations to apply.'):
                    o['none'] = True
                elif line.strip():
                    o['rest'] = line[:200]
                pos += len(line) + 1
    elif cmd == 'stage':
        pos, run = 0, []
        while pos < len(out):
            line = out[pos:].split('\n', 1)[0]
            t = texts.find(texts.stmts, out, pos + 4, ' -- ') if line.startswith('    ') else None
            if t is not None:
                run.append(sid(t))
                pos += 4 + len(t)
                pos += len(out[pos:].split('\n', 1)[0]) + 1
                continue
            if line.strip() == 'No changes to stage.':
                o['none'] = True
            elif line.strip() and line != 'Staging changes:':
                run.append('?')
                o['rest'] = o['rest'] or line[:200]
            pos += len(line) + 1
        o['steps'] = [{'v': 'stage', 'run': run}] if run else []
    elif cmd == 'make':
        if out.startswith('Made version: ') and out.endswith('\n'):
            o['to'] = out[14:-1]
        elif out.startswith('Nothing to make.'):
            o['none'] = True
        else:
            o['rest'] = out[:200]
    elif cmd == 'init':
        m = re.match(r'Project already exists at: (.*)\n\Z', out, re.S)
        o['to'], o['rest'] = (m.group(1), '') if m else ('', out[:200])
    return o
