"""C22 A failing statement changes nothing and stops the program there.

The reference is a second calculator that was only given the statements before the failing one, one at a time.  Failures are
put into every position of every kind of construct, raised by a function at every one of its calls, and raised at every call
of a function of the calculator itself (interrupts, exhausted memory or stack).
"""
import itertools
import os
import sys
import tempfile

from mc.core import Space
from mc import calc
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.objects.operators import OperationResult
from modularcalculator.features.structure.functions import FunctionDefinition

ASSUMPTIONS = ['operands of a statement are evaluated even when another one has failed, so assignments in parentheses may or may not have been completed', 'chained assignments group to the left like parentheses',
               'an interrupt that arrives after a statement has assigned its value may leave that value', 'errors of single elements of an operation on arrays stay in their elements']
CALLS = []
TRIP = {'at': 0, 'count': 0, 'kind': None}
KINDS = {'error': lambda: CalculatorException('tripped'), 'value': lambda: ValueError('tripped'), 'recursion': lambda: RecursionError('tripped'), 'memory': lambda: MemoryError('tripped'), 'interrupt': lambda: KeyboardInterrupt()}
_dir = []


def where():
    if not _dir:
        d = os.path.join(tempfile.gettempdir(), 'mc-c22-%d' % os.getuid())
        os.makedirs(d, exist_ok=True)
        for name, text in (('good', 'k_ = PARAM1 * 2\nk_ = noted(k_)\nk_ + 1\n'), ('bad', 'k_ = PARAM1 * 2\nx = 77\nx / 0\nnoted(k_)\n'), ('trips', 'k_ = trip(PARAM1) * 2\ntrip(k_) + trip(1)\n'), ('syntax', 'k_ = PARAM1\nk_ + (\n')):
            tmp = os.path.join(d, '.%s.%d' % (name, os.getpid()))
            with open(tmp, 'w') as fh:
                fh.write(text)
            os.replace(tmp, os.path.join(d, name))
        _dir.append(d)
    return _dir[0]


def noted(self, vals, units, refs, flags):
    CALLS.append(repr([calc.val_obs(v) for v in vals]))
    res = OperationResult(vals[0])
    res.set_unit(units[0])
    return res


def trip(self, vals, units, refs, flags):
    TRIP['count'] += 1
    if TRIP['count'] == TRIP['at']:
        raise KINDS[TRIP['kind']]()
    res = OperationResult(vals[0])
    res.set_unit(units[0])
    return res


def make():
    c = ModularCalculator('Computing')
    for name, fn in (('noted', noted), ('trip', trip)):
        f = FunctionDefinition('Test', name, '', ['value'], fn, 1, 1)
        f.auto_convert_numerical_inputs = False
        f.auto_convert_numerical_result = False
        f.units_normalise = False
        c.funcs[name] = f
    return c


_pool = []


def pair():
    while len(_pool) < 2:
        _pool.append(make())
    for c in _pool:
        calc.run(c, 'reset()')
    TRIP.update(at=0, count=0)
    return _pool


def full_obs(o, c):
    exc = None if o.exc is None else [type(o.exc).__name__, [[(i.desc(), i.text) for i in st] for st in getattr(o.exc, 'statements', [])], repr(getattr(o.exc, 'next', None))]
    return [repr(o.obs(c, True)), o.message, exc]


def results_obs(o, c):
    return [[r.expression.rstrip('\n'), repr(calc.res_obs(r, c, True)) if r.has_result() else 'none'] for r in (o.results or [])]


SETUP = ['x = 4', 'y_ = 2.5', 'a_ = [10, 20]', 'f_ = {PARAM1 * 3}', 'g_ = {x = 50\nq_ = PARAM1 / 0\nx = 60\nq_}', 'w_ = {(x = 51) + trip(PARAM1)}', 's_ = \'ab\'', 'm_ = 3 m', 'b_ = true', "d_ = '2020-01-31'", 'e1 = [1, 2, 3]',
         "good_ = '%DIR%/good'", "bad_ = '%DIR%/bad'", "trips_ = '%DIR%/trips'", "syntax_ = '%DIR%/syntax'"]


def setup(c):
    for s in SETUP:
        o = calc.run(c, s.replace('%DIR%', where()))
        assert o.ok(), (s, o.message)


PROBES = ['x', 'x + y_', 'a_', '@f_(2)', '@good_(3)', 'x = x + 1', 'm_ to ft', '2 + 3 * 4', '(1 + 2', 'zz', '1 / 3', '[x, 1]\nx', '5 +\n6', 'x = 2\n\nx * 2']


def probe(rec, a, b, what):
    for p in PROBES:
        oa, ob = calc.run(a, p), calc.run(b, p)
        rec.step(2)
        if not rec.check(full_obs(oa, a) == full_obs(ob, b), '%r after %s' % (p, what), full_obs(ob, b), full_obs(oa, a)):
            return False
    return rec.check(calc.state_of(a) == calc.state_of(b), 'variables after %s and probes' % what, calc.state_of(b), calc.state_of(a))


# ------------------------------------------------------------------ every failure in every position

FAIL = ['(1 / 0)', '(x / 0)', '(zz + 1)', '(1 + (2 - 3 / 0))', 'sp_gamma(0)', '@g_(1)', '@bad_(1)', '@nosuch_(1)', '@syntax_(1)', '(x to kg)', "upper(1, 2, 3)", '(1 m + 1 kg)', '([1, 2] + [1, 2, 3])', 'element(a_, 9)', '(5 = 4)', '@f_(1 / 0)', '@@f_', "dateformat('nonsense')",
        'fact(-1)', '((-1) ^ 0.5)', 'nosuch(1)', '[1, 1 / 0]', '(true and 5)', '(10 ^ (10 ^ 10))', "split('a', 1, 2, 3)", '(m_ + x_)']
CONTEXTS = ['#', '# + 1', '1 + #', '2 * # - 1', '-1 * #', '(#)', '((1 + #) * 2)', '[#]', '[1, #]', '[#, 1]', '[1, [2, #]]', 'abs(#)', 'max(1, #)', 'max(#, 1)', 'round(1.5, #)', '@f_(#)', '@good_(#)', 'noted(#)', '# to ft', '# as hex', 'noted(1) + #', '# + noted(1)', '# == 1', '1 < #',
            '# then 1 else 2', 'true then # else 1', 'not #', '# and true', 'count([#])', 'element([1, #], 1)', 'concat([1], [#])', 'format(#)', "'a' +$ #", '# ^ 2', '2 ^ #', '1 + 2 # ', '# * 3 m', 'd_ +% (# days)', 'sin(#)', 'sp_beta(#, 1)', 'trip(#)', '@w_(#)', '[3..#]', '[#..3]', '[1..3 step #]', '[1, 5..9 step #, 2]', 'count([#..9])', 'sum([#, 1])', 'replace(s_, #, s_)']
FORMS = ['#', 'x = #', 'new_ = #', 'x += #', 'x -= #', 'x *= #', 'x /= #', 'x ^= #', 'x %= #', 'x \\= #', 'x ||= #', 'new_ ||= #', 'a_ = #', 'f_ = #', 'm_ = #', 'm_ += #', 'new_ += #', 'a_ = [x, #]', 'x = @f_(#)', 'x = (#)', 'x = 1 + #', 'x = # + 1', 'x = [1, 2, [#]]', 'x = max(1, #)', 'x = true then # else 1']


def gen_inject(tier):
    basic = ['(1 / 0)', '@g_(1)', '@bad_(1)'] if tier == 'quick' else FAIL
    for c in CONTEXTS:
        for f in FAIL:
            yield [c, f, ['#', 'x = #', 'new_ = #']]
        for f in basic:
            yield [c, f, FORMS[3:]]
    for f in FAIL:
        for g in range(0, len(FORMS), 5):
            yield ['#', f, FORMS[g:g + 5]]


BEFORE = ['noted(1)', 'x = x + 1', 'noted(x)\n']
AFTER = ['x = 99', 'noted(2)', 'later_ = 1', 'reset()', 'x = y_']


_wb = []


def _delivered():
    if not _wb:
        c = _third()
        calc.run(c, 'reset()')
        setup(c)
        _wb.extend(r for r in results_obs(calc.run(c, '\n'.join(BEFORE) + '\n'), c) if r[1] != 'none')
        del CALLS[:]
    return _wb


def case_inject(case, rec):
    context, failing, forms = case
    for form in forms:
        text = form.replace('#', context.replace('#', failing))
        a, b = pair()
        setup(a)
        setup(b)
        _delivered()
        del CALLS[:]
        for s in BEFORE:
            calc.run(b, s)
        calls = list(CALLS)
        before = calc.state_of(b)
        wb = _delivered()
        alone = calc.run(b, text)
        rec.step()
        if alone.kind == 'parse':                      # not a statement at all: nothing of it is run (C06)
            rec.check(calc.state_of(b) == before, 'variables after %r, which cannot be parsed' % text, before, calc.state_of(b))
            continue
        if alone.kind == 'ok':                         # an operation on arrays, or a branch that is not chosen
            if '[' in text or 'a_' in text or 'then' in text or '{' in text:
                continue
            rec.bad('%r fails' % text, 'an error', full_obs(alone, b))
            return
        if not rec.check(alone.kind == 'exec', '%r fails' % text, 'an execution error', full_obs(alone, b)):
            return
        if not rec.check(calc.state_of(b) == before, 'variables after %r' % text, before, calc.state_of(b)):
            return
        # the same in the middle of a program
        del CALLS[:]
        o = calc.run(a, '\n'.join(BEFORE + [text] + AFTER))
        rec.step()
        rec.state((text, o.message))
        if not rec.check(o.kind == 'exec' and o.message == alone.message, 'error of a program with %r' % text, alone.message, [o.kind, o.message]):
            return
        if not rec.check(CALLS[:len(calls)] == calls and repr([calc.val_obs(calc.Number(2))]) not in CALLS[len(calls):] , 'calls made by a program with %r in the middle' % text, calls, list(CALLS)):
            return
        got = [r for r in results_obs(o, a) if r[1] != 'none']
        if not rec.check(got == wb, 'results delivered before %r' % text, wb, got):
            return
        if not rec.check(calc.state_of(a) == before, 'variables after a program with %r in the middle' % text, before, calc.state_of(a)):
            return
        # the calculator goes on as if it had never been asked
        b2 = _third()
        calc.run(b2, 'reset()')
        setup(b2)
        for s in BEFORE:
            calc.run(b2, s)
        if not probe(rec, a, b2, 'the failing statement %r' % text):
            return
        rec.trace()


_spare = []


def _third():
    if not _spare:
        _spare.append(make())
    return _spare[0]


# ------------------------------------------------------------------ programs of good and failing statements

ALPHA = ['x = x + 1', 'noted(x)', '1 / 0', 'x = 1 / 0', 'x = 7', '(x = 8) / 0', 'y_ = x', '@g_(x)', 'delete(x)', 'x += zz', '# nothing', 'f_ = {PARAM1 + x}', 'z_ = @f_(x)', 'x = [1, x, (y_ = 9)] + zz', 'reset()', '@bad_(1)', '@good_(x)']
BREAKS = {5: ('x', 8), 13: ('y_', 9)}


def gen_programs(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for a in itertools.product(range(len(ALPHA)), repeat=k):
            yield list(a)


def case_programs(case, rec):
    a, b = pair()
    setup(a)
    setup(b)
    stmts = [ALPHA[i] for i in case]
    for rounds in range(2):
        del CALLS[:]
        o = calc.run(a, '\n'.join(stmts))
        rec.step()
        whole = list(CALLS)
        del CALLS[:]
        want, failed = [], None
        for i, s in enumerate(stmts):
            before = calc.state_of(b)
            ob = calc.run(b, s)
            rec.step()
            if not ob.ok():
                failed = ob
                after = calc.state_of(b)
                if case[i] in BREAKS:
                    name = BREAKS[case[i]][0]
                    strip = lambda st: [kv for kv in st if kv[0] != name]
                    rec.check(strip(after) == strip(before), 'variables other than %s after %r' % (name, s), before, after)
                else:
                    rec.check(after == before, 'variables after failing %r after %s' % (s, stmts[:i]), before, after)
                break
            want += results_obs(ob, b) or [[s, 'none']]
        if failed is None:
            good = o.ok()
        else:
            good = o.kind == 'exec' and o.message == failed.message
        if not rec.check(good, 'outcome of %s' % stmts, failed and failed.message, [o.kind, o.message]):
            return
        got = results_obs(o, a)
        if not rec.check([g[1] for g in got] == [w[1] for w in want], 'results of %s' % stmts, want, got):
            return
        if not rec.check(whole == CALLS, 'calls made by %s' % stmts, list(CALLS), whole):
            return
        if not rec.check(calc.state_of(a) == calc.state_of(b), 'variables after %s' % stmts, calc.state_of(b), calc.state_of(a)):
            return
    rec.state(calc.state_of(a))
    if len(case) <= 2:
        probe(rec, a, b, str(stmts))
    rec.trace()


# ------------------------------------------------------------------ a function that fails at every one of its calls

TRIPS = ['x = trip(1) + trip(2) * trip(3)\ny_ = trip(x)\nx = trip(y_) + trip(x)', 'a_ = [trip(1), trip(2), [trip(3)]]\nx = max(trip(5), trip(6))', 'x += trip(1)\nx -= trip(2)\nx *= trip(3)\nx /= trip(4)\nx ^= trip(2)', 'x = trip(true) then trip(1) else trip(2)\nx ||= trip(5)\nnew_ ||= trip(6)',
         'f_ = {u_ = trip(PARAM1)\ntrip(u_) + 1}\nx = @f_(trip(4))\nx = @f_(@f_(trip(x)))', 'x = @trips_(trip(3))\nx = trip(x) + @trips_(x)', 'm_ = trip(m_) + trip(1 m)\nm_ *= trip(2)\nx = m_ / trip(1 s)', 's_ = trip(s_) +$ trip(s_)\nx = length(trip(s_))', 'x = trip(x) == trip(4)\nb_ = trip(b_) and not trip(x)',
         'd_ = trip(d_) +% trip(1 day)\nx = trip(d_)', 'x = count(trip(a_)) + sum(trip(a_))\na_ = sort(trip(a_))', 'delete(x)\nx = trip(1)\nreset()\nx = trip(2)', 'x = ((trip(1) + (trip(2) - (trip(3)))))\nx = trip(trip(trip(x)))', 'x = trip(0x1F) + trip(5%)\nx = trip(x) as binary',
         'x = @w_(trip(3)) + @w_(trip(4))\ny_ = @w_(x)', 'a_ = [trip(2), 4, trip(x)]\nx = element(a_, trip(0)) + trip(x)', 'x = trip(3) to trip(4)', 'x = trip(x) then 5\nx = trip(6)', 'x = trip(1)\n\n# note\nx = trip(2) # more\nx = trip(3)']


def gen_trips(tier):
    for t in TRIPS:
        for k in KINDS:
            yield [t, k]


def case_trips(case, rec):
    text, kind = case
    text = text.replace('%DIR%', where())
    a, b = pair()
    setup(b)
    states, res = [calc.state_of(b)], []
    o = None
    for s in _split(text):
        o = calc.run(b, s)
        states.append(calc.state_of(b))
        res += results_obs(o, b)
        if not o.ok():
            break
    total = None
    k = 0
    while total is None or k < total:
        k += 1
        a = _pool[0]
        calc.run(a, 'reset()')
        TRIP.update(at=0, count=0)
        setup(a)
        TRIP.update(at=k, count=0, kind=kind)
        try:
            o = calc.run(a, text)
        except BaseException as err:
            if kind != 'interrupt' or not isinstance(err, KeyboardInterrupt):
                raise
            o = None
        fired = TRIP['count'] >= k
        TRIP.update(at=0)
        rec.step()
        if not fired:
            total = k
            break
        now = calc.state_of(a)
        if o is not None and 'a_ =' not in text and 'a_)' not in text:
            if not rec.check(o.kind in ('exec', 'ok') and (o.kind == 'exec' or 'then' in text), '%r with %s at call %d' % (text, kind, k), 'an error', [o.kind, o.message]):
                return
        if o is not None and o.kind == 'exec':
            got = [r for r in results_obs(o, a) if r[1] != 'none']
            j = len(got)
            if not rec.check(got == res[:j], 'results delivered by %r with %s at call %d' % (text, kind, k), res[:j], got):
                return
            if not rec.check(now in states[j:j + 1] or (_blank(text) and now in states), 'variables after %r with %s at call %d' % (text, kind, k), states[j], now):
                return
        elif o is None:
            if not rec.check(now in states, 'variables after %r interrupted at call %d' % (text, k), states, now):
                return
        if o is None or o.kind == 'exec':
            rec.state((text, kind, k))
            # from where it stopped, everything works as in a calculator that only ran the statements before
            c = _third()
            calc.run(c, 'reset()')
            setup(c)
            i = states.index(now)
            for s in _split(text)[:i]:
                calc.run(c, s)
            if not probe(rec, a, c, '%r with %s at call %d' % (text, kind, k)):
                return
        rec.trace()


def _blank(text):
    return '\n\n' in text


def _split(text):
    """statements, with multi-line function bodies together"""
    out, depth, cur = [], 0, ''
    for ch in text:
        depth += (ch == '{') - (ch == '}')
        if ch == '\n' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    return [s for s in out + [cur] if s and not s.startswith('#')]


# ------------------------------------------------------------------ interrupts at every call inside the calculator

ROOT = os.path.dirname(os.path.abspath(sys.modules[ModularCalculator.__module__].__file__))
DEEP = ['x = x + 1', 'x = 5\ny_ = x * 2', 'x = @f_(2)', 'x = @good_(2)', 'm_ = m_ + 1 ft', 'x += 2', 'a_ = a_ * 2', '@g_(1)', 'x = 1 +\n2', 'delete(x)', 'x = (y_ = 3) + 1', "s_ = upper(s_)", 'x = true then 1 else 2', 'x = sort([3, 1])', 'f_ = {PARAM1\nx}', 'reset()']


def traced(c, text, at, kind):
    """run text and raise at the at-th call of a function of the calculator; (outcome, calls seen, fired)"""
    seen = [0]

    def tracer(frame, event, arg):
        if event == 'call' and frame.f_code.co_filename.startswith(ROOT):
            seen[0] += 1
            if seen[0] == at:
                sys.settrace(None)
                raise KINDS[kind]()
        return None
    err = None
    res = None
    sys.settrace(tracer)
    try:
        res = c.calculate(text, {})
    except BaseException as e:
        err = e
    finally:
        sys.settrace(None)
    return res, err, seen[0]


def gen_interrupts(tier):
    texts = DEEP if tier == 'thorough' else DEEP[:12]
    for t in texts:
        for kind in ('interrupt', 'recursion', 'memory') if tier == 'thorough' else ('interrupt',) if t not in DEEP[:4] else ('interrupt', 'recursion'):
            parts = 24
            for part in range(parts):
                yield [t, kind, part, parts]


def case_interrupts(case, rec):
    text, kind, part, parts = case
    a, b = pair()
    probes = PROBES[:8] if part % 6 == 0 else ['x', 'x + 1', '@f_(2)']
    stmts = [text] if '+\n' in text else _split(text)
    histories = [stmts[:i] for i in range(len(stmts) + 1)]
    if '(y_ = 3)' in text:
        histories.append(['y_ = 3'])
    states, answers = [], []
    for h in histories:                                # what the calculator says in each state it may be left in
        calc.run(b, 'reset()')
        setup(b)
        for s in h:
            calc.run(b, s)
        states.append(calc.state_of(b))
        answers.append([])
        for p in probes + [text]:
            ob = calc.run(b, p)
            answers[-1].append([full_obs(ob, b), calc.state_of(b)])
    setup(a)
    start = dict(a.vars)
    _, _, total = traced(a, text, 0, kind)
    for at in range(1 + part, total + 1, parts):
        a.vars = dict(start)
        traced(a, text, at, kind)
        rec.step()
        now = calc.state_of(a)
        if not rec.check(now in states, 'variables after %r with %s at internal call %d of %d' % (text, kind, at, total), states, now):
            return
        rec.state((text, kind, at))
        # and it goes on as a calculator with these variables that was never interrupted
        for p, want in zip(probes + [text], answers[states.index(now)]):
            oa = calc.run(a, p)
            rec.step()
            got = [full_obs(oa, a), calc.state_of(a)]
            if not rec.check(got == want, '%r after %r with %s at internal call %d of %d' % (p, text, kind, at, total), want, got):
                return
        rec.trace()


SPACES = [
    Space('inject', gen_inject, case_inject, 'every failure in every context and form of assignment, alone and in the middle of a program, followed by probes'),
    Space('programs', gen_programs, case_programs, 'all programs of up to 3 (4) of 17 good and failing statements, run twice, against their statements one at a time'),
    Space('trips', gen_trips, case_trips, 'programs whose operands all pass through a function that fails at each of its calls, in five ways'),
    Space('interrupts', gen_interrupts, case_interrupts, 'statements interrupted at every call of a function inside the calculator'),
]
