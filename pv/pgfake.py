"""A PostgreSQL server as podo sees it: the wire protocol on a loopback port, on top of engine.py. It runs inside the
check, single threaded, and executes one frontend batch (everything up to Sync, or a simple query) at a time, so a check
decides after which batch something fails, which client moves next, and sees every committed state in between."""
import os, selectors, signal, socket, struct, subprocess, time
from .engine import Db, Session, Wait, Unsupported, totext, elem
from .sqllex import SqlError, split_statements
from .proj import ToolError, Res
from .ddl import Unsupported as Unsupported2

OID = {'bool': 16, 'bytea': 17, 'char': 18, 'name': 19, 'int8': 20, 'int2': 21, 'int2vector': 22, 'int4': 23, 'text': 25, 'oid': 26, 'oidvector': 30, 'json': 114, 'pg_node_tree': 25, 'float8': 701,
       'bool[]': 1000, 'char[]': 1002, 'name[]': 1003, 'int2[]': 1005, 'int4[]': 1007, 'text[]': 1009, 'varchar[]': 1015, 'int8[]': 1016, 'oid[]': 1028, 'bpchar': 1042, 'varchar': 1043, 'date': 1082,
       'timestamp': 1114, 'timestamptz': 1184, 'numeric': 1700, 'regclass': 2205, 'regnamespace': 4089, 'cstring': 2275, 'void': 2278, 'uuid': 2950, 'jsonb': 3802, 'unknown': 25, 'record': 2249,
       'float8[]': 1022, 'json[]': 199}
NAME = {v: k for k, v in OID.items() if k not in ('pg_node_tree', 'unknown')}
TEXTS = {'text', 'name', 'varchar', 'bpchar', 'json', 'pg_node_tree', 'unknown', 'cstring', 'uuid'}


def enc(v, ty, fmt):
    if v is None:
        return None
    if fmt == 0:
        if ty == 'bool':
            return b't' if v else b'f'
        if ty == 'timestamp' or ty == 'timestamptz':
            return b'2026-01-01 00:00:00'
        return totext(v, ty).encode()
    if ty in TEXTS:
        return v.encode() if isinstance(v, str) else totext(v).encode()
    if ty == 'char':
        return v.encode()[:1] or b'\0'
    if ty == 'bool':
        return b'\1' if v else b'\0'
    if ty == 'int2':
        return struct.pack('>h', v)
    if ty == 'int4':
        return struct.pack('>i', v)
    if ty == 'int8':
        return struct.pack('>q', v)
    if ty in ('oid', 'regclass', 'regnamespace'):
        return struct.pack('>I', v)
    if ty == 'float8':
        return struct.pack('>d', v)
    if ty in ('timestamp', 'timestamptz'):
        return struct.pack('>q', 820000000000000)
    if ty == 'void':
        return b''
    if ty == 'jsonb':
        return b'\1' + v.encode()
    if ty.endswith('[]') or ty in ('int2vector', 'oidvector'):
        el = elem(ty)
        lb = 0 if ty.endswith('vector') else 1
        if not v:
            return struct.pack('>iiI', 0, 0, OID[el])
        out = struct.pack('>iiIii', 1, int(None in v), OID[el], len(v), lb)
        for x in v:
            b = enc(x, el, 1)
            out += struct.pack('>i', -1) if b is None else struct.pack('>i', len(b)) + b
        return out
    raise Unsupported('binary output of ' + ty)


def dec(b, ty, fmt, comp):
    if b is None:
        return None
    if fmt == 0:
        s = b.decode()
        return s if ty in TEXTS else comp(s, ty)
    if ty in TEXTS or ty == 'varchar':
        return b.decode()
    if ty == 'bool':
        return b != b'\0'
    if ty == 'int2':
        return struct.unpack('>h', b)[0]
    if ty == 'int4':
        return struct.unpack('>i', b)[0]
    if ty == 'int8':
        return struct.unpack('>q', b)[0]
    if ty in ('oid', 'regclass'):
        return struct.unpack('>I', b)[0]
    if ty == 'char':
        return b.decode()
    if ty == 'jsonb':
        return b[1:].decode()
    if ty.endswith('[]'):
        nd, _, el = struct.unpack('>iiI', b[:12])
        if nd == 0:
            return []
        if nd > 1:
            raise Unsupported('multi-dimensional array')
        n, _ = struct.unpack('>ii', b[12:20])
        out, i = [], 20
        for _ in range(n):
            ln = struct.unpack('>i', b[i:i + 4])[0]
            i += 4
            if ln < 0:
                out.append(None)
            else:
                out.append(dec(b[i:i + ln], elem(ty), 1, comp))
                i += ln
        return out
    raise Unsupported('binary input of ' + ty)


def msg(t, body=b''):
    return t + struct.pack('>i', len(body) + 4) + body


def cstr(s):
    return s.encode() + b'\0'


class Conn:
    """one backend"""

    def __init__(self, sock, port):
        self.sock, self.port = sock, port
        self.buf, self.out = b'', b''
        self.state = 'startup'
        self.batches = []       # complete batches: lists of (type, body)
        self.cur = []
        self.eof = False
        self.session = None
        self.stmts, self.portals = {}, {}
        self.pos = 0            # next message of the batch being executed
        self.skip = False
        self.sub = None         # progress inside a simple query of several statements
        self.waiting = None

    def feed(self, data):
        self.buf += data
        while True:
            if self.state == 'startup':
                if len(self.buf) < 8:
                    return
                n, code = struct.unpack('>ii', self.buf[:8])
                if len(self.buf) < n:
                    return
                body, self.buf = self.buf[8:n], self.buf[n:]
                if code in (80877103, 80877104):
                    self.sock.sendall(b'N')
                    continue
                if code == 80877102:
                    self.eof = True
                    return
                self.state = 'open'
                self.batches.append([(b'start', body)])
                continue
            if len(self.buf) < 5:
                return
            t, n = self.buf[:1], struct.unpack('>i', self.buf[1:5])[0]
            if len(self.buf) < n + 1:
                return
            body, self.buf = self.buf[5:n + 1], self.buf[n + 1:]
            self.cur.append((t, body))
            if t in (b'S', b'Q', b'X', b'F', b'p'):
                self.batches.append(self.cur)
                self.cur = []


def trivial(batch):
    """closing a prepared statement: not a step of its own"""
    return all(t in (b'C', b'S', b'H') for t, _ in batch)


def describe(batch):
    """what a batch does, for reading and for counting"""
    out = []
    for t, b in batch:
        if t == b'start':
            out.append('connect')
        elif t == b'P':
            out.append('prepare ' + b.split(b'\0')[1].decode(errors='replace'))
        elif t == b'B':
            out.append('bind')
        elif t == b'E':
            out.append('execute')
        elif t == b'Q':
            out.append('query ' + b[:-1].decode(errors='replace'))
        elif t == b'p':
            out.append('password')
        elif t == b'X':
            out.append('terminate')
    return '; '.join(out)


class Client:
    def __init__(self, cmd):
        self.cmd = cmd
        self.proc = self.fd = self.res = None
        self.conns = []
        self.killed = False
        self.steps = 0           # batches taken so far
        self.log = []


class Server:
    """ports of databases; several clients. Every port belongs to one database."""

    def __init__(self):
        self.sel = selectors.DefaultSelector()
        self.listeners = {}      # port -> (socket, Db)
        self.holders = {}        # port -> socket that keeps it ours while nobody listens
        self.logins = {}         # port -> {user, database, password}: who is let in (everybody where nothing is said)
        self.conns = []
        self.accepted = []       # ports connected to
        self.lost = False        # the step that was hit had committed

    def port(self, db, at=0):
        if at == 0:
            h = socket.socket()
            h.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
            h.bind(('127.0.0.1', 0))
            at = h.getsockname()[1]
            self.holders[at] = h
        s = socket.socket()
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
        s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEPORT, 1)
        s.bind(('127.0.0.1', at))
        s.listen(16)
        s.setblocking(False)
        self.listeners[at] = (s, db)
        self.sel.register(s, selectors.EVENT_READ, ('listen', at))
        return at

    def close_port(self, p):
        """connections are refused; the port stays ours"""
        s, _ = self.listeners.pop(p)
        self.sel.unregister(s)
        s.close()

    def close(self):
        for c in list(self.conns):
            self.drop(c)
        for p in list(self.listeners):
            self.close_port(p)
        for h in self.holders.values():
            h.close()
        self.sel.close()

    # ------------------------------------------------------------ plumbing
    def drop(self, c):
        """connection gone: its transaction is rolled back"""
        if c in self.conns:
            self.conns.remove(c)
            try:
                self.sel.unregister(c.sock)
            except (KeyError, ValueError):
                pass
            c.sock.close()
            if c.session is not None:
                c.session.abort()
        c.eof = True
        c.batches = []

    def start(self, proj, args, ports, cwd=None, env=None, preload=None):
        cl = Client(args)
        cl.ports = set(ports)
        e = {'PATH': '/usr/bin:/bin', 'HOME': proj.root, 'NO_COLOR': '1', 'RUST_BACKTRACE': '0', 'LANG': 'C.UTF-8'}
        e.update(proj.env)
        e.update(env or {})
        if preload:
            e['LD_PRELOAD'] = preload
        import tempfile
        cl.so, cl.se = tempfile.TemporaryFile(), tempfile.TemporaryFile()
        cl.proc = subprocess.Popen([proj.exe] + list(args), cwd=cwd or proj.root, env=e, stdin=subprocess.DEVNULL, stdout=cl.so, stderr=cl.se)
        cl.fd = os.pidfd_open(cl.proc.pid)
        self.sel.register(cl.fd, selectors.EVENT_READ, ('proc', cl))
        cl.t0 = time.time()
        return cl

    def done(self, cl, timeout=False):
        cl.proc.wait()
        self.sel.unregister(cl.fd)
        os.close(cl.fd)
        cl.fd = None
        out = []
        for f in (cl.so, cl.se):
            f.seek(0)
            out.append(f.read().decode(errors='replace'))
            f.close()
        cl.res = Res(None if timeout else cl.proc.returncode, out[0], out[1], timeout)
        # whatever it had sent and nobody took is lost with the connection
        return cl.res

    def pump(self, timeout):
        """one round of input"""
        ev = self.sel.select(timeout)
        gone = []
        for key, _ in ev:
            what, x = key.data
            if what == 'listen':
                s, db = self.listeners[x]
                try:
                    sock, _ = s.accept()
                except BlockingIOError:
                    continue
                sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
                sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                c = Conn(sock, x)
                self.accepted.append(x)
                c.session = Session(db)
                self.conns.append(c)
                self.sel.register(sock, selectors.EVENT_READ, ('conn', c))
            elif what == 'conn':
                try:
                    data = x.sock.recv(1 << 16)
                except (ConnectionError, OSError):
                    data = b''
                if data:
                    # podo's socket does not set TCP_NODELAY: without prompt acknowledgements every statement costs 40 ms
                    x.sock.setsockopt(socket.IPPROTO_TCP, socket.TCP_QUICKACK, 1)
                    x.feed(data)
                else:
                    x.eof = True
                    self.sel.unregister(x.sock)
            else:
                gone.append(x)
        return gone

    def reply(self, c, data):
        try:
            c.sock.setblocking(True)
            c.sock.sendall(data)
        except OSError:
            c.eof = True

    # ------------------------------------------------------------ executing a batch
    def error(self, c, e):
        body = b''.join(k + cstr(v) for k, v in ((b'S', 'ERROR'), (b'V', 'ERROR'), (b'C', e.code or 'XX000'), (b'M', e.msg))) + b'\0'
        c.out += msg(b'E', body)
        c.session.fail()

    def fatal(self, c, code, text):
        c.out += msg(b'E', b''.join(k + cstr(v) for k, v in ((b'S', 'FATAL'), (b'V', 'FATAL'), (b'C', code), (b'M', text))) + b'\0')
        c.pos = 0
        c.batches.clear()
        c.eof = True

    def step(self, c, fail=None):
        """execute the first batch of c; raises Wait when it has to wait (call again later). fail: SqlError instead"""
        batch = c.batches[0]
        s = c.session
        while c.pos < len(batch):
            t, b = batch[c.pos]
            if t == b'start' or t == b'p':
                who = self.logins.get(c.port)
                if who and t == b'start':
                    kv = b.split(b'\0')
                    kv = dict(zip(kv[::2], kv[1::2]))
                    asked = {k: kv.get(k.encode(), b'').decode(errors='replace') for k in ('user', 'database')}
                    if any(asked[k] != who[k] for k in asked):
                        self.fatal(c, '28000', 'no entry for user "%s", database "%s"' % (asked['user'], asked['database']))
                        return
                    if 'password' in who:
                        c.out += msg(b'R', struct.pack('>i', 3))
                        c.pos += 1
                        continue
                elif who and b[:-1].decode(errors='replace') != who['password']:
                    self.fatal(c, '28P01', 'password authentication failed for user "%s"' % who['user'])
                    return
                c.out += msg(b'R', struct.pack('>i', 0))
                for k, v in (('server_version', '16.4'), ('client_encoding', 'UTF8'), ('DateStyle', 'ISO, MDY'), ('integer_datetimes', 'on'), ('standard_conforming_strings', 'on'), ('TimeZone', 'UTC')):
                    c.out += msg(b'S', cstr(k) + cstr(v))
                c.out += msg(b'K', struct.pack('>ii', 4242, 1)) + msg(b'Z', b'I')
            elif t == b'S':
                c.skip = False
                c.out += msg(b'Z', s.status().encode())
            elif t == b'X':
                c.eof = True
            elif c.skip:
                pass
            elif t == b'Q':
                self.simple(c, b[:-1].decode(), fail)
                fail = None
            else:
                try:
                    if fail is not None and t in (b'P', b'E'):
                        e, fail = fail, None
                        raise e
                    self.extended(c, t, b)
                except SqlError as e:
                    self.error(c, e)
                    c.skip = True
            c.pos += 1
        c.pos = 0
        c.batches.pop(0)
        c.waiting = None

    def flush(self, c):
        if c.out:
            d, c.out = c.out, b''
            self.reply(c, d)

    def simple(self, c, text, fail):
        s = c.session
        try:
            parts = split_statements(text)
        except SqlError as e:
            self.error(c, e)
            c.out += msg(b'Z', s.status().encode())
            return
        if c.sub is None:
            c.sub = 0
            c.implicit = False
            if not parts:
                c.out += msg(b'I')
        try:
            if fail is not None:
                if s.tx is not None:
                    s.failed = True
                    if parts and parts[0].strip().lower().split()[0] in ('commit', 'end', 'rollback', 'abort'):
                        s.abort()
                raise fail
            while c.sub < len(parts):
                if len(parts) > 1 and s.tx is None:
                    s.tx, s.failed, c.implicit = s.db.begin(), False, True
                pr = s.analyse(parts[c.sub])
                rows, tag = pr.run([])
                if pr.cols is not None:
                    c.out += self.rowdesc(pr.cols, [0])
                    for r in rows:
                        c.out += self.datarow(r, pr.cols, [0])
                c.out += msg(b'C', cstr(tag))
                if s.tx is None:
                    c.implicit = False
                c.sub += 1
            if c.implicit and s.tx is not None:
                s.db.end(s.tx, not s.failed)
                s.tx, s.failed = None, False
        except SqlError as e:
            imp = c.implicit
            self.error(c, e)
            if imp:
                s.abort()
        c.sub = None
        c.out += msg(b'Z', s.status().encode())

    def rowdesc(self, cols, fmts):
        out = struct.pack('>h', len(cols))
        for i, (n, t) in enumerate(cols):
            f = fmts[i] if len(fmts) > 1 else fmts[0] if fmts else 0
            if t not in OID:
                raise Unsupported('result of type ' + t)
            out += cstr(n) + struct.pack('>ihihih', 0, 0, OID[t], -1, -1, f)
        return msg(b'T', out)

    def datarow(self, r, cols, fmts):
        out = struct.pack('>h', len(cols))
        for i, ((n, t), v) in enumerate(zip(cols, r)):
            f = fmts[i] if len(fmts) > 1 else fmts[0] if fmts else 0
            b = enc(v, t, f)
            out += struct.pack('>i', -1) if b is None else struct.pack('>i', len(b)) + b
        return msg(b'D', out)

    def extended(self, c, t, b):
        s = c.session
        if t == b'P':
            name, sql, rest = b.split(b'\0', 2)
            n = struct.unpack('>h', rest[:2])[0]
            given = struct.unpack('>%dI' % n, rest[2:2 + 4 * n])
            pr = s.analyse(sql.decode())
            for i, o in enumerate(given):
                if o and i < len(pr.params) and o in NAME:
                    pr.params[i] = NAME[o]
            pr.sql = sql.decode()
            c.stmts[name] = pr
            c.out += msg(b'1')
        elif t == b'D':
            kind, name = b[:1], b[1:-1]
            if kind == b'S':
                pr = c.stmts[name]
                c.out += msg(b't', struct.pack('>h', len(pr.params)) + b''.join(struct.pack('>I', OID[p]) for p in pr.params))
                c.out += self.rowdesc(pr.cols, [0]) if pr.cols is not None else msg(b'n')
            else:
                pr, _, rf = c.portals[name]
                c.out += self.rowdesc(pr.cols, rf or [0]) if pr.cols is not None else msg(b'n')
        elif t == b'B':
            portal, stmt, rest = b.split(b'\0', 2)
            pr = c.stmts.get(stmt)
            if pr is None:
                raise SqlError('prepared statement "%s" does not exist' % stmt.decode(), '26000')
            i = 0

            def h():
                nonlocal i
                v = struct.unpack('>h', rest[i:i + 2])[0]
                i += 2
                return v
            pf = [h() for _ in range(h())]
            vals = []
            from .engine import Compiler
            comp = Compiler(s.db, s.tx).fromtext
            for k in range(h()):
                n = struct.unpack('>i', rest[i:i + 4])[0]
                i += 4
                raw = None
                if n >= 0:
                    raw = rest[i:i + n]
                    i += n
                f = pf[k] if len(pf) > 1 else pf[0] if pf else 0
                vals.append(dec(raw, pr.params[k], f, comp))
            if len(vals) != len(pr.params):
                raise SqlError('bind message supplies %d parameters, but the prepared statement requires %d' % (len(vals), len(pr.params)), '08P01')
            rf = [h() for _ in range(h())]
            c.portals[portal] = (pr, vals, rf)
            c.out += msg(b'2')
        elif t == b'E':
            portal = b.split(b'\0', 1)[0]
            pr, vals, rf = c.portals[portal]
            rows, tag = pr.run(vals)
            if pr.cols is not None:
                for r in rows:
                    c.out += self.datarow(r, pr.cols, rf or [0])
            c.out += msg(b'C', cstr(tag)) if tag else msg(b'I')
        elif t == b'C':
            (c.stmts if b[:1] == b'S' else c.portals).pop(b[1:-1], None)
            c.out += msg(b'3')
        elif t == b'H':
            pass
        else:
            raise Unsupported('protocol message %r' % t)

    # ------------------------------------------------------------ running clients
    def deadlock(self, c):
        """would c wait for itself?"""
        owner = {}
        for x in self.conns:
            if x.session.tx is not None:
                owner[x.session.tx] = x
        seen, todo = set(), [c]
        while todo:
            x = todo.pop()
            for t in x.waiting or ():
                y = owner.get(t)
                if y is c:
                    return True
                if y is not None and y not in seen:
                    seen.add(y)
                    todo.append(y)
        return False

    def execute(self, c, fail=None):
        """-> 'done' or 'wait'"""
        try:
            self.step(c, fail)
        except Wait as w:
            c.waiting = w.txs
            if self.deadlock(c):
                # this backend gives up
                c.waiting = None
                self.resume_error(c, SqlError('deadlock detected', '40P01'))
                self.flush(c)
                return 'done'
            return 'wait'
        self.flush(c)
        return 'done'

    def resume_error(self, c, e):
        t, b = c.batches[0][c.pos]
        if t == b'Q':
            imp = getattr(c, 'implicit', False)
            self.error(c, e)
            if imp:
                c.session.abort()
            c.sub = None
            c.out += msg(b'Z', c.session.status().encode())
        else:
            self.error(c, e)
            c.skip = True
        c.pos += 1
        self.step(c)

    def run(self, cl, fault=None, timeout=30):
        """run one client alone to its end. fault: (step, kind), or a function of step and
        description giving the kind: error, drop, drop-after, kill, kill-after"""
        end = time.time() + timeout
        n = 0
        self.faulted = None
        self.lost = False
        while True:
            for c in list(self.conns):
                while c.batches and c in self.conns:
                    b = c.batches[0]
                    if trivial(b) or (b[0][0] == b'X'):
                        self.execute(c)
                        continue
                    d = describe(b)
                    cl.log.append(d)
                    k = fault(n, d) if callable(fault) else fault[1] if fault is not None and n == fault[0] else None
                    hit = k is not None and self.faulted is None
                    n += 1
                    if hit:
                        self.faulted, self.kind, self.at = d, k, n - 1
                        if k == 'kill':
                            os.kill(cl.proc.pid, signal.SIGKILL)
                            self.drop(c)
                            break
                        if k == 'drop':
                            self.drop(c)
                            break
                        if k in ('drop-after', 'kill-after'):
                            if k == 'kill-after':
                                os.kill(cl.proc.pid, signal.SIGKILL)
                            before = c.session.db.commits
                            if self.quiet(c) == 'wait':
                                raise ToolError('a lone client waits for itself: ' + d)
                            self.lost = c.session.db.commits != before
                            self.drop(c)
                            break
                        if k == 'error':
                            if self.execute(c, SqlError('injected failure', '57014')) == 'wait':
                                raise ToolError('a lone client waits for itself: ' + d)
                            continue
                    if self.execute(c) == 'wait':
                        raise ToolError('a lone client waits for itself: ' + d)
                if c.eof:
                    self.drop(c)
            gone = self.pump(max(0, min(end - time.time(), 5)))
            if gone:
                break
            if time.time() > end:
                cl.proc.kill()
                for c in list(self.conns):
                    self.drop(c)
                return self.done(cl, True)
        # what it sent just before it ended still arrives
        self.drain()
        self.done(cl)
        cl.steps = n
        return cl.res

    def quiet(self, c):
        """execute without answering"""
        try:
            self.step(c)
        except Wait:
            return 'wait'
        c.out = b''
        return 'done'

    def drain(self):
        for _ in range(50):
            self.pump(0)
            if not any(c.batches for c in self.conns) and all(c.eof for c in self.conns):
                break
            for c in list(self.conns):
                while c.batches and c in self.conns:
                    if self.quiet(c) == 'wait':
                        break
                if c.eof and not c.batches:
                    self.drop(c)
            if self.conns:
                time.sleep(.0005)
        for c in list(self.conns):
            self.drop(c)

    def pair(self, clients, choose, timeout=30, seen=None):
        """run several clients, each on ports of its own, one batch at a time. choose(ready, k) -> which of the ready ones;
        a client that is blocked is retried when it may go on. seen(client): called after every executed batch"""
        end = time.time() + timeout
        alive = list(clients)
        sched = []

        def conns(cl):
            return [c for c in self.conns if c.port in cl.ports]

        def state(cl):
            if cl.res is not None:
                return 'done'
            for c in conns(cl):
                if c.waiting is not None:
                    return 'blocked' if any(t.state == 'active' for t in c.waiting) else 'ready'
                if c.batches:
                    return 'ready'
            return 'running'
        while True:
            for cl in clients:
                for c in conns(cl):
                    while c.batches and c.waiting is None and (trivial(c.batches[0]) or c.batches[0][0][0] == b'X'):
                        self.execute(c)
                    if c.eof and not c.batches:
                        self.drop(c)
            st = [state(cl) for cl in clients]
            if all(x == 'done' for x in st):
                return sched
            if 'running' in st:
                gone = self.pump(max(0, min(end - time.time(), 5)))
                for cl in gone:
                    for _ in range(3):
                        self.pump(0)
                    for c in conns(cl):
                        while c.batches and c.waiting is None:
                            if self.execute(c) == 'wait':
                                break
                        self.drop(c)
                    self.done(cl)
                if time.time() > end:
                    for cl in clients:
                        if cl.res is None:
                            cl.proc.kill()
                    for c in list(self.conns):
                        self.drop(c)
                    for cl in clients:
                        if cl.res is None:
                            self.done(cl, True)
                    return sched
                continue
            ready = [i for i, x in enumerate(st) if x == 'ready']
            if not ready:
                raise ToolError('both clients wait: ' + str(st))
            i = choose(ready, len(sched))
            cl = clients[i]
            for c in conns(cl):
                if c.batches:
                    d = describe(c.batches[0])
                    again = c.waiting is not None
                    c.waiting = None
                    r = self.execute(c)
                    sched.append(i)
                    cl.log.append(d + (' (waits)' if r == 'wait' else ''))
                    if seen is not None and r == 'done':
                        seen(i, d)
                    break
