"""C20 Dry runs and state snapshots do not change anything.

Lock step of two calculators with the same history: one evaluates normally, the other in a dry-run mode.  The oracle is the
normal evaluation: the dry run gives the same answers (stateless) or the same syntax analysis (parse-only), and leaves no trace.
"""
import itertools
import os
import tempfile

from mc.core import Space
from mc import calc, corpus
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.operators import OperationResult
from modularcalculator.features.structure.functions import FunctionDefinition

ASSUMPTIONS = ['a statement that reads a variable it assigns itself, in nested parentheses, is left out for the stateless mode: it stores nothing by definition',
               'texts of error messages are compared', 'evaluation is observed through a function and an operator that record their calls']

VARS = {'x': '4', 'y': '2.5', 'a': '[10, 20]', 'f_': '{PARAM1 * 3}', 'fn_': '{PARAM1 + 1}', 'w_': '{u1 = PARAM1 + 1\nu1 * u1}', 'q_': '3 m', 's_': "'ab'", 'n_': '[[1, 2], 3]', 'r_': '{x = PARAM1\nreset()\ny}', 'p_': "'%DIR%/body'", 'd_': "'2020-01-31'"}
SETUPS = [[], ['x'], ['x', 'y', 'a', 'f_', 'fn_'], list(VARS)]
CALLS = []
_dir = []


def where():
    if not _dir:
        d = os.path.join(tempfile.gettempdir(), 'mc-c20-%d' % os.getuid())
        os.makedirs(d, exist_ok=True)
        tmp = os.path.join(d, '.body.%d' % os.getpid())
        with open(tmp, 'w') as fh:
            fh.write('k_ = PARAM1 * 2\nnoted(k_)\nk_ + 1\n')
        os.replace(tmp, os.path.join(d, 'body'))
        _dir.append(d)
    return _dir[0]


def noted(self, vals, units, refs, flags):
    CALLS.append(repr([calc.val_obs(v) for v in vals]))
    res = OperationResult(vals[0])
    res.set_unit(units[0])
    return res


def make():
    c = ModularCalculator('Computing')
    c.funcs['noted'] = FunctionDefinition('Test', 'noted', 'records its calls', ['value'], noted, 1, 1)
    return c


_pool = []


def pair():
    """two calculators without variables"""
    while len(_pool) < 3:
        _pool.append(make())
    for c in _pool:
        calc.run(c, 'reset()')
    return _pool[0], _pool[1]


def setup(c, names):
    for n in names:
        o = calc.run(c, '%s = %s' % (n, VARS[n].replace('%DIR%', where())))
        assert o.ok(), (n, o.message)


def full_obs(o, c):
    return [repr(o.obs(c, True)), o.message, describe_exc(o)]


def describe_exc(o):
    if o.exc is None or not hasattr(o.exc, 'statements'):
        return repr(type(o.exc))
    return [[(i.desc(), i.text) for i in st] for st in o.exc.statements] + [repr(o.exc.next)]


def items_obs(o):
    return [[r.expression, [(i.desc(), i.text) for i in r.items]] for r in (o.results or [])]


STATEMENTS = list(dict.fromkeys([
    'x = 5', 'x = 1 / 0', 'x = y', 'x = (y = 3) * 2', 'x = y = 7', 'x = [1, 2]', "x = 'q'", 'x = {PARAM1}', 'x += 2', 'x -= y', 'x *= 2 m', 'x /= 0', 'x ^= 2', 'x %= 3', 'x \\= 3', 'x++', 'x--', 'y++',
    'x ||= 9', 'zz ||= 9', 'zz = 1', 'zz += 1', 'zz++', 'zz', 'a = a * 2', 'a += 1', 'a = sort(a)', 'a = concat(a, [x])', 'delete(x)', 'delete(zz)', 'delete(a)', 'reset()', 'reset(1)', 'x', 'x + y', 'a', 'a + x', '@f_(2)', '@f_(x)', '@fn_(@f_(1))', '@w_(3)',
    '@w_([1, 2])', '@r_(3)', '@p_(4)', '@p_(x)', 'f_ = {PARAM1 * 4}', 'w_ = 5', 'q_ to ft', 'q_ = q_ * 2', 'q_ += 1 ft', 'q_ /= 2 s', 's_ = s_ +$ s_', 'n_', 'n_ = element(n_, 1)', 'd_ = d_ +% 1 day', 'noted(x)', 'noted(1) + noted(2)', 'x = noted(3)',
    '(x = 4) + 1', '[x = 1, y = 2]', 'max(x = 3, 2)', 'x = 1 then 2 else 3', 'true then (x = 8) else (y = 9)', '1 + (zz = 2)', '(x = 2) / 0', 'x = 5 +', 'x = (', '1 / 0', '@h(1)', "@s_(1)", 'x = @w_(2)', 'a = [@w_(1), @w_(2)]', '[x, y, x]',
    'x = noted([1, 2])', 'x = 0x1F', 'x as hexadecimal', 'y as percentage', 'x = pi', 'x == 4', 'x = x', 'x =', '= 4', '5 = 4', 'x + 1 = 4', 'x = 5 # note', '# note', '', ' ', '\n', 'x\n', '\nx'
] + corpus.STATEMENTS))


def gen_stateless(tier):
    for i in range(len(SETUPS)):
        for j in range(0, len(STATEMENTS), 6):
            yield [i, STATEMENTS[j:j + 6]]



def case_stateless(case, rec):
    names = SETUPS[case[0]]
    for text in case[1]:
        a, b = pair()
        setup(a, names)
        setup(b, names)
        before = calc.state_of(b)
        for extra in ({}, {'include_state': True}, {'parse_only': False}):
            del CALLS[:]
            dry = calc.run(b, text, stateless=True, **extra)
            dry_calls = list(CALLS)
            rec.step()
            after = calc.state_of(b)
            if not rec.check(after == before, 'variables after a stateless %r with %s, flags %s' % (text, names, extra), before, after):
                return
            if extra.get('include_state') and dry.results and dry.results[-1].has_state():
                got = calc.vars_obs(dry.results[-1].state, b)
                rec.check(got == before, 'state reported by a stateless %r' % text, before, got)
        del CALLS[:]
        normal = calc.run(a, text)
        rec.step()
        want, got = full_obs(normal, a), full_obs(dry, b)
        rec.state((text, tuple(names), want[0]))
        if not rec.check(got == want, 'stateless %r with variables %s' % (text, names), want, got):
            return
        if not rec.check(dry_calls == CALLS, 'calls made by a stateless %r with variables %s' % (text, names), list(CALLS), dry_calls):
            return
        rec.check(items_obs(dry) == items_obs(normal), 'items of a stateless %r' % text, items_obs(normal), items_obs(dry))
        # the calculator goes on as if nothing had been asked
        again = calc.run(b, text)
        rec.step()
        rec.check(full_obs(again, b) == want, 'normal %r after a stateless one' % text, want, full_obs(again, b))
        rec.check(calc.state_of(a) == calc.state_of(b), 'variables after %r, with and without a stateless evaluation before' % text, calc.state_of(a), calc.state_of(b))
        rec.trace()


# ------------------------------------------------------------------ changes of state in every position of an expression

CHANGES = ['x = 5', 'x++', 'x += 2', 'zz ||= 9', 'zz = 1', 'y = x', "q_ = 2 ft", 'delete(x)', 'delete(zz)', 'noted(3)', 'x = noted(3)', '(x = 2) + 1', 'a = [1, 2]', 'k9 = {PARAM1}', '@r_(3)', '@w_(2)', 'reset()']
POSITIONS = ['%s', '(%s)', '[%s]', '[1, %s]', '[%s, 1]', '[%s..9]', '[(%s)..9]', '[1..%s]', '[1..(%s)]', '[1..9 step %s]', '[1..9 step (%s)]', '[1..9 step 2 * (%s)]', 'max(1, %s)', 'max(%s, 1)', 'abs(%s)', 'sum([%s])',
             '@fn_(%s)', '@f_((%s))', 'true then (%s) else 1', 'true then 1 else (%s)', 'false then (%s) else 1', '(%s) then 1 else 2', '1 + (%s)', '(%s) + 1', '(%s) * 2 m', '(%s) to m', '2 + 3 * (%s)', 'not (%s)', '(%s)^2', '(%s) as hexadecimal', "'a' +$ (%s)",
             'zy = (%s)', 'zy += (%s)', 'zy ||= (%s)', '{%s}', '%s # note', '1\n%s', '%s\n1', 'filter([1, 2], [true, (%s)])', 'element([1, 2], (%s))', '@p_(%s)', '@w_((%s))', '1 / 0 + (%s)', '(%s) + 1 / 0', '(%s) +']


def gen_positions(tier):
    """every change of the state in every position, alone and within another position"""
    n = len(POSITIONS)
    for i in range(n):
        yield [[3, 1], [POSITIONS[i]]]
    for i in range(n):
        for j in range(n) if tier == 'thorough' else range(i % 5, n, 5):
            if '\n' not in POSITIONS[j] and '#' not in POSITIONS[j]:
                yield [[3], [POSITIONS[i].replace('%s', POSITIONS[j])]]


def case_positions(case, rec):
    for k in case[0]:
        texts = [p.replace('%s', s) for p in case[1] for s in CHANGES]
        case_stateless([k, texts], rec)


# ------------------------------------------------------------------ histories mixing the modes

HIST = ['x = 5', 'x += 2', 'y = x * 2', 'x++', 'delete(x)', 'reset()', 'x', 'a = [x, y]', 'a + 1', 'f_ = {PARAM1 + x}', '@f_(1)', 'x = (y = 8) + 1', '1 / 0', 'x = 1 +', 'x ||= 3', 'x = 9\nx = 10\n1/0']
MODES = [{}, {'stateless': True}, {'parse_only': True}]


def gen_histories(tier):
    for a in itertools.product(range(len(HIST)), repeat=3):
        if tier == 'thorough' or a[0] in (0, 7, 9, 2):
            yield [list(a)]
    if tier == 'thorough':
        for a in itertools.product((0, 1, 2, 4, 6, 9, 10, 13), repeat=4):
            yield [list(a)]


def case_histories(case, rec):
    a, b = pair()
    idx = case[0]
    for modes in itertools.product(range(3), repeat=len(idx)):
        if not any(modes):
            continue
        calc.run(a, 'reset()')
        calc.run(b, 'reset()')
        for i, m in zip(idx, modes):
            text = HIST[i]
            before = calc.state_of(b)
            got = calc.run(b, text, **MODES[m])
            rec.step()
            if m == 0:
                want = calc.run(a, text)
                rec.step()
                if not rec.check(full_obs(got, b) == full_obs(want, a) and calc.state_of(a) == calc.state_of(b),
                                 'normal evaluation of %r among dry runs, history %s modes %s' % (text, [HIST[k] for k in idx], modes),
                                 full_obs(want, a) + [calc.state_of(a)], full_obs(got, b) + [calc.state_of(b)]):
                    return
            elif not rec.check(calc.state_of(b) == before, 'variables after a dry run (%s) of %r in history %s' % (MODES[m], text, [HIST[k] for k in idx]), before, calc.state_of(b)):
                return
        rec.state(calc.state_of(b))
        rec.trace()


# ------------------------------------------------------------------ parse-only

def programs():
    out = [corpus.SETUP] + ['\n'.join(p) for p in corpus.PROGRAMS]
    out += ['x = 1\nx + noted(2)\ny = 3', 'noted(1)\n1 +\n2\nnoted(3)', "f_ = {noted(PARAM1)\n2}\n@f_(1)\n@f_(2)", 'x = [noted(1), noted(2)]\nx', '# c\nnoted(1) # d\n\n2', "p_ = '%DIR%/body'\n@p_(1)", '1/0\nnoted(1)', 'x = 1\nx +=\n2', '\n\n1', 'x = (\n1\n)\nx',
            'noted(noted(1))\nx = noted(x)', 'true then noted(1) else noted(2)', "'a\nb'", 'reset()\ndelete(x)\nx', 'x++\nx++', 'x =\n5', 'x = 5 then\n6 else\n7']
    return out


def gen_parse(tier):
    for s in STATEMENTS:
        yield ['whole', s]
    for p in programs():
        yield ['cuts', p]
    if tier == 'thorough':
        for s in STATEMENTS:
            yield ['cuts', s]
            for t in STATEMENTS:
                yield ['whole', s + '\n' + t]


def check_parse(text, names, rec):
    text = text.replace('%DIR%', where())
    a, b = pair()
    setup(a, names)
    setup(b, names)
    before = calc.state_of(b)
    del CALLS[:]
    dry = calc.run(b, text, parse_only=True)
    rec.step()
    if not rec.check(CALLS == [], 'functions called while only parsing %r' % text, [], list(CALLS)):
        return False
    if not rec.check(calc.state_of(b) == before, 'variables after only parsing %r' % text, before, calc.state_of(b)):
        return False
    if not rec.check(dry.kind in ('ok', 'parse'), 'only parsing %r' % text, 'parsed or refused', [dry.kind, repr(dry.exc)]):
        return False
    for r in dry.results or []:
        if not rec.check(not r.has_result(), 'a result of only parsing %r' % text, None, repr(r.__dict__)):
            return False
    normal = calc.run(a, text)
    rec.step()
    rec.state((text, dry.kind, repr(items_obs(dry))))
    if dry.kind == 'parse':
        same = normal.kind == 'parse' and full_obs(normal, a)[1:] == full_obs(dry, b)[1:]
        return rec.check(same, 'syntax error of %r' % text, [normal.kind] + full_obs(normal, a)[1:], [dry.kind] + full_obs(dry, b)[1:])
    if not rec.check(normal.kind in ('ok', 'exec'), '%r is accepted when only parsed' % text, dry.kind, [normal.kind, normal.message]):
        return False
    want, got = items_obs(normal), items_obs(dry)
    if normal.kind == 'exec':
        got = got[:len(want)]
    if not rec.check(got == want, 'statements and items of %r' % text, want, got):
        return False
    # every character is in exactly one item of one statement
    whole = ''.join(t for _, items in items_obs(dry) for _, t in items)
    if not rec.check(whole == text, 'the items of %r are the text' % text, text, whole):
        return False
    dry2 = calc.run(b, text, parse_only=True, stateless=True, include_state=True)
    rec.step()
    if not rec.check(items_obs(dry2) == items_obs(dry), 'parse-only with the other flags, %r' % text, items_obs(dry), items_obs(dry2)):
        return False
    after = calc.run(b, text)
    rec.step()
    return rec.check(full_obs(after, b) == full_obs(normal, a) and calc.state_of(a) == calc.state_of(b), 'evaluation of %r after only parsing it' % text, full_obs(normal, a), full_obs(after, b))


def case_parse(case, rec):
    kind, text = case
    if kind == 'whole':
        for names in SETUPS[1:]:
            if not check_parse(text, names, rec):
                return
            rec.trace()
        return
    for i in range(len(text) + 1):
        if not check_parse(text[:i], SETUPS[2], rec):
            return
        rec.trace()


# ------------------------------------------------------------------ snapshots

SNAP = ['x = 5', 'y = [1, 2]', 'y = y * 2', 'x += 1', 'delete(x)', 'reset()', 'z_ = 3 m', 'f_ = {PARAM1}', '@f_(y)', 'x = (y = 2) + 1', 'y', 'x++', "s_ = 'a'", 'n_ = [[1, 2], y]', 'sort(y)', 'x = y']


def gen_snap(tier):
    for a in itertools.product(range(len(SNAP)), repeat=2):
        yield [list(a), len(SNAP) if tier == 'thorough' else 0]


def case_snap(case, rec):
    first, more = case
    for third in range(len(SNAP)):
        for fourth in (range(more) if more else ((third * 5 + first[0]) % len(SNAP),)):
            prog = [SNAP[i] for i in first + [third, fourth]]
            a, b = pair()
            want = []
            outs = []
            stopped = False
            for s in prog:                             # one at a time, observed from outside
                o = calc.run(a, s)
                if not o.ok():
                    stopped = True
                    break
                want.append(calc.state_of(a))
            o = calc.run(b, '\n'.join(prog), include_state=True)
            plain = calc.run(_plain(), '\n'.join(prog))
            rec.step(len(prog) + 2)
            rec.check(full_obs(o, b) == full_obs(plain, b), 'results with and without snapshots: %s' % prog, full_obs(plain, b), full_obs(o, b))
            got = [calc.vars_obs(r.state, b) for r in (o.results or []) if r.has_state()]
            if not rec.check(got == want, 'snapshots of %s' % prog, want, got):
                return
            # they stay what they were, and what is done to them is done to them alone
            end = calc.state_of(b)
            calc.run(b, 'x = 77\ny = [x, x]\ndelete(x)\nz_ = 1\nreset()')
            calc.run(b, '\n'.join(prog))
            now = [calc.vars_obs(r.state, b) for r in (o.results or []) if r.has_state()]
            if not rec.check(now == want, 'snapshots of %s after further statements' % prog, want, now):
                return
            states = [r.state for r in o.results if r.has_state()]
            for i, st in enumerate(states):
                st['own%d' % i] = (calc.Number(1), None)
                for j, other in enumerate(states):
                    if j > i:
                        rec.check('own%d' % i not in other, 'snapshots %d and %d of %s are independent' % (i, j, prog), False, True)
            if not rec.check(calc.state_of(b) == end, 'variables after changing the snapshots of %s' % prog, end, calc.state_of(b)):
                return
            rec.state((repr(want),))
            rec.trace()


def _plain():
    pair_third = _pool[2]
    calc.run(pair_third, 'reset()')
    return pair_third


SPACES = [
    Space('stateless', gen_stateless, case_stateless, 'statements over every feature and kind of assignment, in four variable contexts, stateless against normal'),
    Space('positions', gen_positions, case_positions, 'every change of state in every position of an expression, nested once (quick: a fifth of the nestings), stateless against normal'),
    Space('histories', gen_histories, case_histories, 'all histories of three statements with every assignment of evaluation modes'),
    Space('parse-only', gen_parse, case_parse, 'all statements, and all programs cut at every character: parsed only, against evaluated'),
    Space('snapshots', gen_snap, case_snap, 'all programs of four statements (quick: a diagonal of the fourth) with a snapshot after each'),
]
