"""Run TLC."""
import os, re, shutil, subprocess, tempfile, json
from .proj import VERIF, ToolError, scratch

CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(VERIF, 'spec')


def classpath():
    for line in open(shutil.which('tlc') or '/usr/local/bin/tlc', errors='replace'):
        m = re.search(r'-cp\s+"?([^"\s]+)', line)
        if m:
            return m.group(1)
    return CP


class TLCRun:
    pass


def tlc(module, cfg, env=None, workers=8, heap='6g', timeout=800, args=(), deadlock=False, sim=None):
    """cfg: text of the configuration. -> TLCRun(out, code, printed, states, distinct, error)"""
    d = tempfile.mkdtemp(prefix='tlc', dir=scratch())
    cf = os.path.join(d, module + '.cfg')
    with open(cf, 'w') as f:
        f.write(cfg)
    e = dict(os.environ)
    e.pop('JAVA_TOOL_OPTIONS', None)
    e.update({k: str(v) for k, v in (env or {}).items()})
    cmd = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-DTLA-Library=' + SPEC, '-cp', classpath(), 'tlc2.TLC', '-workers', str(workers), '-metadir', os.path.join(d, 'states'),
           '-noGenerateSpecTE', '-config', cf] + ([] if deadlock else ['-deadlock']) + list(args) + [os.path.join(SPEC, module + '.tla')]
    try:
        p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired as x:
        raise ToolError('TLC timed out on %s: %s' % (module, (x.stdout or b'').decode(errors='replace')[-800:]))
    r = TLCRun()
    r.out, r.code = p.stdout.decode(errors='replace'), p.returncode
    shutil.rmtree(d, ignore_errors=True)
    m = re.search(r'([\d,]+) states generated, ([\d,]+) distinct states found', r.out)
    r.generated, r.distinct = (int(m.group(1).replace(',', '')), int(m.group(2).replace(',', ''))) if m else (0, 0)
    m = re.search(r'depth of the complete state graph search is (\d+)', r.out)
    r.depth = int(m.group(1)) if m else 0
    r.ok = r.code == 0
    r.printed = [unq(l) for l in r.out.splitlines() if l.startswith('"')]
    r.invariant = re.findall(r'(?:Invariant|property|Action property|Temporal properties) ?(\S*) (?:is|were) violated', r.out)
    return r


def unq(l):
    l = l.strip()
    try:
        return json.loads(l)
    except ValueError:
        return l[1:-1].replace('\\"', '"').replace('\\\\', '\\')


def check_trace(module, traces, consts='', env=None, heap='6g', timeout=600):
    """traces: list of lists of events. -> (list of violations [trace, event, clause, detail], TLCRun)
    Every event of every trace must have been consumed: one initial state per trace and one state per event. A trace that
    TLC cannot evaluate is left out (r.unread counts them) when there are only a few."""
    bad = []
    while True:
        keep = [k for k in range(len(traces)) if k not in bad]
        try:
            v, r = judge_traces(module, [traces[k] for k in keep], consts, env, heap, timeout)
            r.unread = len(bad)
            return [(keep[a], b, c, d) for a, b, c, d in v], r
        except Unread as x:
            if len(bad) >= 3 or len(keep) < 20:
                raise ToolError(str(x))
            # find it
            lo, hi = 0, len(keep)
            while hi - lo > 1:
                mid = (lo + hi) // 2
                try:
                    judge_traces(module, [traces[k] for k in keep[lo:mid]], consts, env, heap, timeout)
                    lo = mid
                except Unread:
                    hi = mid
            bad.append(keep[lo])
            print('TLC cannot evaluate trace %d of %s: %s' % (keep[lo], module, str(x)[-700:]))


class Unread(Exception):
    pass


def judge_traces(module, traces, consts, env, heap, timeout):
    d = tempfile.mkdtemp(prefix='tr', dir=scratch())
    f = os.path.join(d, 'traces.ndjson')
    traces = [t for t in traces]
    with open(f, 'w') as fh:
        for t in traces:
            fh.write(json.dumps({'ev': t}, ensure_ascii=True) + '\n')
    e = dict(env or {})
    e['TRACES'] = f
    r = tlc(module, 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n' + consts, e, heap=heap, timeout=timeout)
    shutil.rmtree(d, ignore_errors=True)
    want = sum(len(t) + 1 for t in traces)
    if not r.ok or r.distinct != want:
        raise Unread('TLC did not consume the traces of %s (%s of %s states):\n%s' % (module, r.distinct, want, r.out[-3000:]))
    viols = []
    for l in r.printed:
        p = l.split('\x1f') if '\x1f' in l else l.split('|~|')
        if p[0] == 'VIOL':
            viols.append((int(p[1]) - 1, int(p[2]) - 1, p[3], '|~|'.join(p[4:])))
    return sorted(viols), r
