"""Exploration harness shared by all checks.

A check is a module in mc/checks with

    SPACES = [Space(name, gen, case, about)]      or a function spaces(tier) returning such a list

`gen(tier)` enumerates, deterministically and without any sampling, every case of a bounded space; a case is a
JSON value.  `case(case, rec)` drives the real code through that case, in lock step with a reference model, and
reports with rec.bad().  The harness shards the enumeration over worker processes, counts what was explored, writes the
evidence file and a replayable artefact for each violation.
"""
import hashlib
import json
import multiprocessing
import os
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
KNOWN_FILE = os.path.join(VERIF, 'known_findings.json')

CASE_SECONDS = 40          # a single case takes milliseconds; this long means the code under test does not answer
MAX_BAD_PER_WORKER = 15
MEM_BYTES = 4 << 30


class CaseTimeout(BaseException):
    pass


class Space:

    def __init__(self, name, gen, case, about, serial=False):
        self.name = name
        self.gen = gen
        self.case = case
        self.about = about
        self.serial = serial


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode('utf-8', 'surrogatepass'), digest_size=8).digest(), 'big')


class Rec:
    """What one worker saw while exploring one space."""

    def __init__(self, space):
        self.space = space
        self.cases = 0
        self.transitions = 0
        self.traces = 0
        self.states = set()
        self.bads = []
        self.samples = []
        self.current = None
        self.finished = False

    def step(self, n=1):
        """n executions of the code under test"""
        self.transitions += n

    def state(self, obj):
        """one canonical state (model state, or observable outcome) reached"""
        self.states.add(h64(obj))

    def trace(self, n=1):
        """n complete model traces compared with the implementation"""
        self.traces += n

    def bad(self, what, expected=None, got=None):
        self.bads.append({'space': self.space, 'case': self.current, 'what': what,
                          'expected': _j(expected), 'got': _j(got)})

    def check(self, cond, what, expected=None, got=None):
        if not cond:
            self.bad(what, expected, got)
        return cond


def _j(x):
    try:
        json.dumps(x)
        return x
    except Exception:
        return repr(x)


def _alarm(signum, frame):
    raise CaseTimeout()


def run_one(space, case, rec):
    rec.current = case
    rec.cases += 1
    n = len(rec.bads)
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, CASE_SECONDS, 5)
    try:
        space.case(case, rec)
    except CaseTimeout:
        rec.bad('no answer within %d s' % CASE_SECONDS)
        rec.timeouts = getattr(rec, 'timeouts', 0) + 1
    except MemoryError:
        rec.bad('ran out of memory (%d GiB)' % (MEM_BYTES >> 30))
        rec.timeouts = getattr(rec, 'timeouts', 0) + 1
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        rec.bad('%s while driving this case' % type(e).__name__, None,
                '%s (%s:%s)' % (str(e)[:200], os.path.basename(tb.filename), tb.name))
        rec.errors = getattr(rec, 'errors', 0) + 1
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    return rec.bads[n:]


def _worker(space, tier, w, nw, deadline, conn, cur):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (MEM_BYTES, MEM_BYTES))
        sys.setrecursionlimit(3000)
        rec = Rec(space.name)
        known_n = 0
        for i, case in enumerate(space.gen(tier)):
            if i % nw != w:
                continue
            cur[w * 2] = i
            cur[w * 2 + 1] = int(time.time())
            if time.time() > deadline:
                break
            new = run_one(space, case, rec)
            for b in new:
                if is_known(rec_prop(space), b):
                    known_n += 1
            if len(rec.bads) - known_n >= MAX_BAD_PER_WORKER or getattr(rec, 'timeouts', 0) >= 3:
                break
            if len(rec.samples) < 3 and rec.cases in (1, 7, 50):
                rec.samples.append(case)
        else:
            rec.finished = True
        conn.send(rec)
    except BaseException:
        try:
            conn.send(traceback.format_exc())
        except BaseException:
            pass
    finally:
        conn.close()
        os._exit(0)


_PROP = [None]


def rec_prop(space):
    return _PROP[0]


def nth(gen, n):
    for i, c in enumerate(gen):
        if i == n:
            return c
    return None


def explore(space, tier, deadline, nw=None):
    """Explore a whole space; returns merged Rec and list of harness errors."""
    nw = 1 if space.serial else (nw or int(os.environ.get('MC_JOBS', 0)) or min(8, os.cpu_count() or 1))
    cur = multiprocessing.RawArray('l', nw * 2)
    procs = []
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        r, s = multiprocessing.Pipe(False)
        p = multiprocessing.get_context('fork').Process(target=_worker, args=(space, tier, w, nw, deadline, s, cur))
        p.start()
        s.close()
        procs.append((p, r))
    out = Rec(space.name)
    out.finished = True
    errors = []
    for w, (p, r) in enumerate(procs):
        got = None
        while True:
            if r.poll(1):
                try:
                    got = r.recv()
                except EOFError:
                    got = None
                break
            if time.time() > deadline + 30 and cur[w * 2 + 1] and time.time() - cur[w * 2 + 1] > 2 * CASE_SECONDS:
                p.kill()
                out.bads.append({'space': space.name, 'case': nth(space.gen(tier), cur[w * 2]),
                                 'what': 'no answer: the code under test hangs', 'expected': None, 'got': None})
                got = 'killed'
                break
            if not p.is_alive() and not r.poll(0):
                break
        p.join(5)
        if p.is_alive():
            p.kill()
        if got is None:
            # the worker died without an answer: the case it was running brought the interpreter down
            out.bads.append({'space': space.name, 'case': nth(space.gen(tier), cur[w * 2]),
                             'what': 'the interpreter died while running this case', 'expected': None, 'got': None})
            out.finished = False
        elif got == 'killed':
            out.finished = False
        elif isinstance(got, str):
            errors.append(got)
            out.finished = False
        else:
            out.cases += got.cases
            out.transitions += got.transitions
            out.traces += got.traces
            out.states |= got.states
            out.bads += got.bads
            out.samples += got.samples
            out.finished = out.finished and got.finished
    return out, errors


# --- known findings -------------------------------------------------------------------------------------------------

_known = None


def load_known():
    global _known
    if _known is None:
        try:
            with open(KNOWN_FILE) as fh:
                _known = json.load(fh)
        except FileNotFoundError:
            _known = {'known': [], 'fixed': []}
    return _known


def is_known(prop, bad):
    """A finding is matched by property, space, the exact case and the exact observation."""
    for k in load_known()['known']:
        if k['property'] == prop and k['space'] == bad['space'] and bad['case'] in k['cases'] \
                and bad['what'] == k.get('what', bad['what']) and ('got' not in k or bad['got'] == k['got']):
            return k
    return None


# --- running a check --------------------------------------------------------------------------------------------------

def spaces_of(mod, tier):
    return mod.spaces(tier) if hasattr(mod, 'spaces') else mod.SPACES


def size_key(bad):
    return (len(json.dumps(bad['case'], default=str)), json.dumps(bad['case'], default=str))


def run_check(prop, tier, only=None):
    import importlib
    t0 = time.time()
    _PROP[0] = prop
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    budget = float(os.environ.get('MC_BUDGET', '560' if tier == 'quick' else '7000'))
    mod = importlib.import_module('mc.checks.' + prop.lower())
    tot = {'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}
    samples, bads, known, errors, detail = [], [], {}, [], {}
    exhaustive = True
    for space in spaces_of(mod, tier):
        if only and space.name not in only:
            continue
        ts = time.time()
        rec, errs = explore(space, tier, t0 + budget)
        errors += errs
        tot['states'] += len(rec.states)
        tot['transitions'] += rec.transitions
        tot['traces'] += rec.traces
        tot['cases'] += rec.cases
        exhaustive = exhaustive and rec.finished
        samples += [{'space': space.name, 'case': s} for s in rec.samples[:2]]
        detail[space.name] = {'about': space.about, 'cases': rec.cases, 'states': len(rec.states),
                              'transitions': rec.transitions, 'traces': rec.traces, 'complete': rec.finished,
                              'wall_s': round(time.time() - ts, 1)}
        for b in rec.bads:
            k = is_known(prop, b)
            if k:
                known.setdefault(k['id'], (k, []))[1].append(b)
            else:
                bads.append(b)
        print('%s %-22s cases=%d states=%d transitions=%d traces=%d %s %.1fs%s' % (
            prop, space.name, rec.cases, len(rec.states), rec.transitions, rec.traces,
            'complete' if rec.finished else 'INCOMPLETE', time.time() - ts,
            '  violations=%d' % len(rec.bads) if rec.bads else ''), flush=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
          'coverage': {'states': tot['states'], 'transitions': tot['transitions'],
                       'traces_validated_against_impl': tot['traces'], 'cases': tot['cases'],
                       'samples': samples[:12], 'exhaustive': bool(exhaustive and not errors), 'spaces': detail},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(bads)}
    if not only:
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
    for k, hits in known.values():
        print('KNOWN-FINDING: property=%s %s (%d cases)' % (prop, k['summary'], len(hits)))
    for e in errors:
        print('HARNESS ERROR\n' + e, file=sys.stderr)
    if bads:
        bads.sort(key=size_key)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        seen = set()
        shown = 0
        for b in bads:
            sig = (b['space'], b['what'], '' if 'MC_SHOW' not in os.environ else str(b['got'])[:90])
            if sig in seen:
                continue
            seen.add(sig)
            path = os.path.join(rdir, '%s-%d.json' % (prop, shown))
            with open(path, 'w') as fh:
                json.dump(dict(b, property=prop, tier=tier), fh, indent=1, default=str)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            print('   %s: %s\n   case     %s\n   expected %s\n   got      %s' % (
                b['space'], b['what'], _short(b['case']), _short(b['expected']), _short(b['got'])))
            shown += 1
            if shown >= int(os.environ.get('MC_SHOW', 6)):
                break
        print('%s: %d violating observations' % (prop, len(bads)))
        return 1
    if errors:
        return 2
    print('%s held: %d cases, %d states, %d transitions, %d traces, %s, %.1f s' % (
        prop, tot['cases'], tot['states'], tot['transitions'], tot['traces'],
        'exhaustive' if exhaustive else 'NOT exhaustive (time budget)', time.time() - t0))
    return 0


def _short(x, n=600):
    s = json.dumps(x, default=str, ensure_ascii=False)
    return s if len(s) <= n else s[:n] + '...'


def replay(path):
    import importlib
    with open(path) as fh:
        b = json.load(fh)
    mod = importlib.import_module('mc.checks.' + b['property'].lower())
    _PROP[0] = b['property']
    for space in spaces_of(mod, b['tier']):
        if space.name == b['space']:
            rec = Rec(space.name)
            run_one(space, b['case'], rec)
            for x in rec.bads:
                print(json.dumps(x, indent=1, default=str, ensure_ascii=False))
            print('reproduced' if rec.bads else 'NOT reproduced')
            return 1 if rec.bads else 0
    print('no such space')
    return 2
