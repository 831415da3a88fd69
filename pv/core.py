"""What every check shares: budget, counting, violations, known findings, evidence."""
import json, os, re, shutil, sys, time, traceback
from concurrent.futures import ProcessPoolExecutor, as_completed
from .proj import VERIF, ToolError, build, cleanup, scratch
from .ddl import Unsupported

EVID = os.path.join(VERIF, 'evidence')
KNOWN = os.path.join(VERIF, 'known_findings.txt')
SEP = '|~|'


def short(x, n=400):
    s = x if isinstance(x, str) else json.dumps(x, ensure_ascii=False, default=str)
    return s if len(s) <= n else s[:n] + '...'


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == 'quick'
        self.t0 = time.time()
        self.viols = []            # (clause, summary, replay object)
        self.known = []            # lines printed
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': []}
        self.count = {}
        self.lost = []
        self.exe = build()
        self.built = time.time() - self.t0
        scratch()

    def left(self, total):
        return total - (time.time() - self.t0)

    def add(self, key, n=1):
        self.count[key] = self.count.get(key, 0) + n

    def sample(self, s):
        if len(self.cov['samples']) < 8:
            self.cov['samples'].append(short(s, 1200))

    def model(self, r, what):
        """account for a TLC run over a model (not a trace)"""
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.count['model_states_' + what] = self.count.get('model_states_' + what, 0) + r.distinct

    def traced(self, r, n):
        self.cov['states'] += r.distinct
        self.cov['transitions'] += r.generated
        self.cov['traces_validated_against_impl'] += n

    def violation(self, clause, summary, replay):
        self.viols.append((clause, short(summary, 2000), replay))

    def pmap(self, fn, items, workers=8, budget=None):
        """results in order; runs that came to nothing because something was not understood are counted and left out"""
        items = list(items)
        thin = int(os.environ.get('PV_THIN', '1'))     # for experiments: a part of the runs
        if thin > 1 and len(items) > 40:
            items = items[::thin]
        with ProcessPoolExecutor(workers) as ex:
            got = list(ex.map(guarded, [fn] * len(items), [self.exe] * len(items), items, chunksize=max(1, min(16, len(items) // (workers * 4)))))
        out = [x for ok, x in got if ok]
        lost = [x for ok, x in got if not ok]
        if lost:
            self.add('runs_without_verdict', len(lost))
            self.lost.append(lost[0])
            if len(lost) * 2 > len(items) or not out:
                raise ToolError('%d of %d runs came to nothing:\n%s' % (len(lost), len(items), lost[0]))
        return out


def guarded(fn, exe, item):
    try:
        return True, fn(exe, item)
    except Exception:
        return False, traceback.format_exc()[-2500:]


def known_entries(prop):
    """lines 'known: property=C04 case=<name> clause=<clause> match=<regex> :: text'"""
    out = []
    if os.path.exists(KNOWN):
        for l in open(KNOWN):
            m = re.match(r'known: property=(\S+) case=(\S+) clause=(\S+) match=(.*?) :: (.*)$', l.rstrip('\n'))
            if m and m.group(1) == prop:
                out.append({'case': m.group(2), 'clause': m.group(3), 'match': m.group(4), 'text': m.group(5)})
    return out


def apply_known(ctx, case, viols):
    """viols of a dedicated known-finding case: listed ones become KNOWN-FINDING lines, the others violations.
    viols: list of (clause, detail, replay)"""
    entries = [e for e in known_entries(ctx.prop) if e['case'] == case]
    hit = set()
    for clause, detail, replay in viols:
        for k, e in enumerate(entries):
            if e['clause'] == clause and re.search(e['match'], detail, re.S):
                hit.add(k)
                break
        else:
            ctx.violation(clause, 'known-finding case %s: %s' % (case, detail), replay)
    for k in sorted(hit):
        ctx.known.append('KNOWN-FINDING: property=%s %s (%s)' % (ctx.prop, entries[k]['text'], case))


def finish(ctx, level, assumptions):
    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(ctx.prop + '-'):
            os.unlink(os.path.join(rdir, f))
    for l in ctx.known:
        print(l)
    seen = {}
    for clause, summary, replay in ctx.viols:
        seen.setdefault(clause, []).append((summary, replay))
    n = 0
    for clause, vs in sorted(seen.items()):
        for summary, replay in vs[:3]:
            p = os.path.join(rdir, '%s-%d.json' % (ctx.prop, n))
            n += 1
            with open(p, 'w') as f:
                json.dump({'property': ctx.prop, 'clause': clause, 'what': summary, 'replay': replay, 'seed': ctx.seed, 'tier': ctx.tier}, f, indent=1, ensure_ascii=False, default=str)
            print('VIOLATION property=%s replay=%s' % (ctx.prop, p))
            print('  %s: %s' % (clause, short(summary, 600)))
        if len(vs) > 3:
            print('  %s: %d more' % (clause, len(vs) - 3))
    if ctx.lost:
        print('runs without a verdict: %d, the first of them:\n%s' % (ctx.count['runs_without_verdict'], ctx.lost[0]))
    cov = dict(ctx.cov)
    cov.update(ctx.count)
    ev = {'property': ctx.prop, 'tier': ctx.tier, 'seed': ctx.seed, 'level': level, 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - ctx.t0, 2), 'violations': len(ctx.viols), 'known_findings': ctx.known}
    with open(os.path.join(EVID, ctx.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False, default=str)
    print('%s %s: %s in %.1f s (build %.1f s): %s' % (ctx.prop, ctx.tier, 'VIOLATED' if ctx.viols else 'held', ev['wall_s'], ctx.built,
                                                    ', '.join('%s %s' % (v, k) for k, v in cov.items() if isinstance(v, int))))
    return 1 if ctx.viols else 0
