"""Build the real podo and drive it as a black box in scratch project directories."""
import hashlib, os, re, shutil, signal, subprocess, tempfile, time
import yaml

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PODO_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TARGET = os.path.join(BUILD, 'target')


class Loader(getattr(yaml, 'CSafeLoader', yaml.SafeLoader)):
    """YAML 1.2 core schema, as podo's serde_yaml writes it: no 'yes', 'off', sexagesimal numbers or dates"""


Loader.yaml_implicit_resolvers = {}
for _tag, _re, _first in (('bool', r'true|True|TRUE|false|False|FALSE', 'tTfF'), ('null', r'~|null|Null|NULL|', '~nN\0'), ('int', r'[-+]?(0|[1-9][0-9]*)', '-+0123456789'),
                          ('float', r'[-+]?(\.[0-9]+|[0-9]+\.[0-9]*)([eE][-+]?[0-9]+)?|[-+]?[0-9]+[eE][-+]?[0-9]+|[-+]?\.(inf|Inf|INF)|\.(nan|NaN|NAN)', '-+0123456789.')):
    Loader.add_implicit_resolver('tag:yaml.org,2002:' + _tag, re.compile('^(?:%s)$' % _re), list(_first.replace('\0', '')) + ([''] if _tag == 'null' else []))


class ToolError(Exception):
    """the machinery could not do its work (exit status 2, never an alarm)"""


def cargo_env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUST'))}
    e.update(HOME=os.environ.get('HOME', '/root'), RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0',
             CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_OPT_LEVEL='1', CARGO_TERM_COLOR='never', RUSTC_WRAPPER='', RUST_BACKTRACE='0')
    e['PATH'] = '/root/.cargo/bin:' + e.get('PATH', '/usr/local/bin:/usr/bin:/bin')
    return e


def source_hash():
    h = hashlib.sha256()
    for top in ('Cargo.toml', 'Cargo.lock', 'src'):
        p = os.path.join(REPO, top)
        files = [p] if os.path.isfile(p) else sorted(os.path.join(d, f) for d, _, fs in os.walk(p) for f in fs)
        for f in files:
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def build():
    """(re)build /repo's current working tree -> path of the binary"""
    os.makedirs(BUILD, exist_ok=True)
    import fcntl
    with open(os.path.join(BUILD, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        exe, stamp, want = os.path.join(TARGET, 'debug', 'podo'), os.path.join(BUILD, 'stamp'), source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ''
        if have == want and os.path.exists(exe):
            return own(exe)
        base = ['--offline', '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', TARGET]
        if os.path.exists(stamp):
            os.unlink(stamp)
        if os.path.isdir(TARGET):
            subprocess.run(['cargo', 'clean', '-p', 'podo'] + base, env=cargo_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        p = subprocess.run(['cargo', 'build', '--locked'] + base, env=cargo_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode or not os.path.exists(exe):
            raise ToolError('podo does not build:\n' + p.stdout.decode(errors='replace')[-3000:])
        with open(stamp, 'w') as f:
            f.write(want)
        return own(exe)


def own(exe):
    """a private copy: another build may replace the original while we run"""
    p = os.path.join(scratch(), 'podo')
    shutil.copy2(exe, p)
    return p


_scratch = None


def scratch():
    """a directory of our own for everything podo may touch"""
    global _scratch
    if _scratch is None:
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else None
        _scratch = tempfile.mkdtemp(prefix='pv-', dir=base)
    return _scratch


def cleanup():
    global _scratch
    if _scratch and os.path.basename(_scratch).startswith('pv-'):
        shutil.rmtree(_scratch, ignore_errors=True)
    _scratch = None


class Res:
    def __init__(self, code, out, err, timeout=False):
        self.code, self.out, self.err, self.timeout = code, out, err, timeout

    @property
    def ok(self):
        return self.code == 0

    def brief(self):
        return 'exit %s%s: %s' % (self.code, ' (timeout)' if self.timeout else '', (self.err or self.out).strip()[-300:])


def load_version(raw):
    """version file -> dict or None when it is not one"""
    try:
        d = yaml.load(raw, Loader=Loader)
    except Exception:
        return None
    if not isinstance(d, dict) or not isinstance(d.get('name'), str) or not isinstance(d.get('changes'), list):
        return None
    d['up'] = d.get('up') or []
    d['down'] = d.get('down') or []
    return d


class Proj:
    """a podo project in a directory of its own"""

    def __init__(self, exe, root=None, base='database', profile=None):
        self.exe = exe
        self.root = root or tempfile.mkdtemp(prefix='p', dir=scratch())
        self.hist, self.defs = base + '/history', base + '/definitions'
        self.env = {}

    def path(self, *p):
        return os.path.join(self.root, *p)

    def run(self, *args, cwd=None, env=None, timeout=60, preload=None):
        e = {'PATH': '/usr/bin:/bin', 'HOME': self.root, 'NO_COLOR': '1', 'RUST_BACKTRACE': '0', 'LANG': 'C.UTF-8'}
        e.update(self.env)
        e.update(env or {})
        if preload:
            e['LD_PRELOAD'] = preload
        p = subprocess.Popen([self.exe] + list(args), cwd=cwd or self.root, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        self.proc = p
        try:
            o, er = p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            o, er = p.communicate()
            return Res(None, o.decode(errors='replace'), er.decode(errors='replace'), True)
        return Res(p.returncode, o.decode(errors='replace'), er.decode(errors='replace'))

    def config(self, url=None, meta=None, profiles=None):
        if profiles is None:
            profiles = {'database': {'database_url': url or 'postgresql://localhost:1/postgres', 'history': self.hist, 'definitions': self.defs, 'metadata_schema': meta or 'podo_meta'}}
        with open(self.path('.podo.yaml'), 'w') as f:
            yaml.safe_dump({'profiles': profiles}, f, sort_keys=False)

    def set_defs(self, files, base=None):
        d = self.path(base or self.defs)
        shutil.rmtree(d, ignore_errors=True)
        for rel, text in files.items():
            p = os.path.join(d, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w') as f:
                f.write(text)
        os.makedirs(d, exist_ok=True)

    def files(self, base=''):
        """relative path -> bytes, for everything below the project"""
        out = {}
        top = self.path(base) if base else self.root
        for d, _, fs in os.walk(top):
            for f in fs:
                p = os.path.join(d, f)
                try:
                    with open(p, 'rb') as fh:
                        out[os.path.relpath(p, self.root)] = fh.read()
                except OSError:
                    out[os.path.relpath(p, self.root)] = None
        return out

    def raw(self, name, hist=None):
        try:
            with open(self.path(hist or self.hist, name + '.yaml'), 'rb') as f:
                return f.read()
        except OSError:
            return None

    def version(self, name, hist=None):
        r = self.raw(name, hist)
        return None if r is None else load_version(r)

    def versions(self, hist=None):
        """file name (without .yaml) -> version dict (or None when unreadable)"""
        out = {}
        d = self.path(hist or self.hist)
        for f in sorted(os.listdir(d)) if os.path.isdir(d) else []:
            if f.endswith('.yaml') and not f.startswith('.'):
                out[f[:-5]] = self.version(f[:-5], hist)
        return out

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)
