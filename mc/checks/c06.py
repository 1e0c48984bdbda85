"""C06 A session behaves the same however it is split into calls."""
import itertools

from mc.core import Space
from mc import alone as alone_, calc, corpus

ASSUMPTIONS = ['a program with a syntax error anywhere is not run at all, so it has no per-statement results to compare']

# operator tokens that wait for an operand on their right
WAITING = set('+ - * / ^ % \\ == != < > <= >= and or xor not = += -= *= /= ^= ||= +$ *$ <$ > ~ & | ^^ << >> to as =~ ==~ then else'.split())


def waiting(toks):
    """Does this statement end in an operator still waiting for its right operand?"""
    toks = [t for t in toks if t != '']
    if not toks:
        return False
    if toks[-1] in WAITING:
        return True
    # a conditional whose alternative has not been reached yet
    depth, cond = 0, 0
    for t in toks:
        if corpus.opens(t):
            depth += 1
        elif corpus.closes(t):
            depth -= 1
        elif depth == 0 and t == 'then':
            cond += 1
        elif depth == 0 and t == 'else':
            cond -= 1
    return cond > 0


def stmts_obs(results, c):
    return tuple(calc.res_obs(r, c, True) for r in results if r.has_result())


def session(c, calls, stop=True):
    """Feed the calls; per-statement results, first error message, final variables."""
    out, err = [], None
    for text in calls:
        o = calc.run(c, text)
        if o.kind == 'crash':
            raise AssertionError('crash %r' % o.exc)
        if o.results:
            out += stmts_obs(o.results, c)
        if not o.ok():
            err = (o.kind, o.message)
            break
    return tuple(out), err, calc.state_of(c)


# --- splits -------------------------------------------------------------------------------------------------------

LINES = ['x = 5', 'x += 1', 'x ++', 'x', 'y = x * 2', 'x = [1, 2]', '1 / 0', 'nosuch + 1', '', '# c = 9', 'x ||= 3', 'delete(x)',
         'f = {PARAM1 + x}', '@f(1)', '2 m', 'x = y = 7', "'a' +$ x", '(y = 1) / 0', 'reset()', 'y', 'y to ft', 'x = 0x1F', 'max(0x1, pi)', 'pi']
DANGLING = ['x +', 'y =', '1 -', 'x and', 'not', 'true then', 'true then 1 else', '2 *   # c', 'x =\n', '5 m to']


def gen_splits(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        pool = LINES if k < 3 or tier != 'quick' and k < 4 else LINES[:18]
        for s in itertools.product(pool, repeat=k):
            yield list(s)
    for d in DANGLING:
        for a in LINES:
            if d == 'true then' and ('=' in a or ' to ' in a):
                continue                     # malformed whichever way it is read
            for b in LINES[:12] if tier == 'quick' else LINES:
                yield [d, a, b]
                yield [b, d, a]
                if d != 'true then':
                    yield [b, d, d, a]
    if tier != 'quick':
        for a, b in itertools.product(LINES, repeat=2):
            for d, e in itertools.product(DANGLING, repeat=2):
                if d == 'true then' and ('=' in b or ' to ' in b) or e == 'true then' and ('=' in a or ' to ' in a):
                    continue
                yield [a, d, b, e, a]


def case_splits(lines, rec):
    # logical statements: a line that waits for an operand takes the following non-empty line
    stmts, cur = [], ''
    for ln in lines:
        body = ln.split('#')[0]
        cur = cur + '\n' + ln if cur else ln
        if waiting(cur_tokens(cur)):
            continue
        stmts.append(cur)
        cur = ''
    if cur:
        stmts.append(cur)
    whole = '\n'.join(lines)
    probe = calc.run(clean(), whole, parse_only=True)
    rec.step()
    if not probe.ok():
        # nothing of it is run
        r = session(clean(), [whole])
        rec.check(r[0] == () and r[2] == (), 'a program with a syntax error runs nothing', None, r)
        return
    one = session(calc.new(), [whole])
    rec.step()
    flat = [flatten(s) for s in stmts]
    ref = session(clean(), flat)
    rec.step(len(flat))
    rec.trace()
    rec.check(one == ref, 'one call against one statement at a time', ref, one)
    rec.state(ref)
    n = len(stmts)
    for mask in range(1, 2 ** (n - 1)):
        calls, cur = [], [stmts[0]]
        for i in range(1, n):
            if mask >> (i - 1) & 1:
                calls.append('\n'.join(cur))
                cur = [stmts[i]]
            else:
                cur.append(stmts[i])
        calls.append('\n'.join(cur))
        got = session(clean(), calls)
        rec.step(len(calls))
        rec.trace()
        if not rec.check(got == one, 'split into calls against one call', [calls, one], got):
            break


def clean():
    c = calc.shared()
    calc.run(c, 'reset()')
    return c


def cur_tokens(text):
    return ' '.join(l.split('#')[0] for l in text.split('\n')).replace('(', '( ').replace(')', ' )').split()


def flatten(s):
    """a logical statement on one line, without comments"""
    return ' '.join(l.split('#')[0] for l in s.split('\n'))


# --- continuation -------------------------------------------------------------------------------------------------

MORE = ['true then false then 1 else 2 else 3', 'true then 5 else false then 6 else 7', '2 ^ -1', 'not not true', '- 3 + - 4', '5 m / s', 'x = - 2',
        '3 m s ^ -1 to kph', 'true and not false', "'a' == 'b' then 1 else 2", 'x ++ + 1', 'aand = 4 * 2', 'a and true', 'x = y ++',
        '1 == 1 then 2 + 3 else 4', '~ ~ 0b1', 'x -- - 1', '1 2 3 + 4 5']


def gen_cont(tier):
    for s in corpus.STATEMENTS + MORE:
        toks = s.split(' ')
        depth = 0
        for i, t in enumerate(toks[:-1]):
            if corpus.opens(t):
                depth += 1
            elif corpus.closes(t):
                depth -= 1
            if depth == 0:
                yield [' '.join(toks[:i + 1]), ' '.join(toks[i + 1:])]


SEPS = ['\n', ' \n ', '\n\n', '\n  \n\t\n', ' # note + \n', '\n# note\n\n']


def case_cont(case, rec):
    a, b = case
    w = waiting(a.split(' '))
    calls = [a + ' ' + b] if w else [a, b]

    def prepared():
        c = clean()
        calc.run(c, corpus.SETUP)
        return c
    ref = session(prepared(), calls)
    rec.step(2)
    rec.state(ref)
    parses = all(calc.run(prepared(), t, parse_only=True).ok() for t in calls)
    for sep in SEPS:
        c = prepared()
        got = session(c, [a + sep + b])
        rec.step()
        rec.trace()
        if not parses:
            rec.check(got[1] is not None and got[0] == (), 'a program with a syntax error runs nothing', ref, got)
        else:
            rec.check(got == ref, 'line break after an operator that %s' % ('waits' if w else 'does not wait'), [sep, ref], got)
    # the same in the middle of a program, and inside a function
    for pre, post in (('1 +\n2\n', ''), ('a and\n1\n', '\n7'), ('', '\n1 +\n1')):
        if not parses or not w and ref[1] is not None:
            continue
        c = prepared()
        ref2 = session(c, [p for p in [pre.replace('\n', ' ').strip()] + calls + [post.replace('\n', ' ').strip()] if p])
        got = session(prepared(), [pre + a + '\n' + b + post])
        rec.step()
        rec.trace()
        rec.check(got == ref2, 'line break in the middle of a program', [pre, post, ref2], got)


# --- continuation over every operator -----------------------------------------------------------------------------

def gen_allops(tier):
    c = calc.new()
    for sym, op in c.ops_list.items():
        if not op.hidden:
            yield sym


def case_allops(sym, rec):
    c = calc.new()
    op = c.ops_list[sym]
    nl, nr = len(op.linputs), len(op.rinputs)
    left = '7 ' if nl else ''
    if nr == 0:
        text = left + sym
        o = calc.run(c, text + '\n5 + 5')
        rec.check(len([s for s in (o.results or [])]) <= 2, 'no continuation after %s' % sym)
        got = calc.run(c, text + '\n5 + 5', parse_only=True)
        rec.check(got.ok() and len(got.results) == 2, 'an operator without right operand does not continue', 2,
                  got.ok() and len(got.results))
        rec.step(2)
        return
    for pre in ('', 'x = 1\n', '(1 + 2) * 3 \n'):
        for sp in ('', ' ', ' \n', '# c'):
            got = calc.run(c, pre + left + sym + sp + '\n5', parse_only=True)
            want = 1 + pre.count('\n') * (pre != '')
            n = len([r for r in got.results if any(i.functional() for i in r.items)]) if got.ok() else got.message
            rec.step()
            rec.trace()
            rec.check(n == want, 'statement continues after %s' % sym, want, n)
            rec.state((sym, n))
    rec.check(calc.state_of(c) == (), 'looking ahead has no effect on variables', (), calc.state_of(c))


# --- what was looked ahead earlier --------------------------------------------------------------------------------

COMPLETE = ['x_ ++', 'x_ --', '7', 'x_', 'x_ + 1', 'x_ = 7', '5 m', "'a'", '[1, 2]', '(1 + 2)', 'max(1, 2)', 'true', 'not true', 'x_ to m', '-1', '0x1F',
            '50%', '{PARAM1}', '@f_(1)', 'x_ += 1', 'pi', '5 +', 'x_ +', 'x_ =', 'not', 'true then', 'true then 1 else']
LEFTS = ['7 ', 'x_ ', "'a' ", '']


def gen_look(tier):
    for sym in gen_allops(tier):
        for left in LEFTS:
            yield [sym, left]


_alone = {}


def alone(second):
    """the statements of a text in a calculator that has seen nothing else"""
    if second not in _alone:
        c = calc.new()
        calc.run(c, 'x_ = 5 m\nf_ = {PARAM1 + 1}')
        _alone[second] = stmts(calc.run(c, second + '\n9', parse_only=True))
    return _alone[second]


def case_look(case, rec):
    sym, left = case
    for first in (left + sym + '\n1', left + sym, left + sym + '\n'):
        for second in COMPLETE:
            want = alone(second)
            c = clean()
            calc.run(c, 'x_ = 5 m\nf_ = {PARAM1 + 1}')
            calc.run(c, first, parse_only=True)
            got = stmts(calc.run(c, second + '\n9', parse_only=True))
            rec.step(2)
            rec.check(got == want, 'statements of a text after another text was looked ahead in', [first, second, want], got)
            if first == left + sym + '\n1' and sym != 'then' and want is not None:
                got = stmts(calc.run(clean(), first + '\n' + second + '\n9', parse_only=True))
                rec.step()
                rec.check(got is None or got[-len(want):] == want, 'statements after an earlier statement of the program was looked ahead in',
                          [first, second, want], got)
            rec.state((sym, left, want))
    rec.trace()


def stmts(o):
    if not o.ok():
        return None
    return tuple(tuple(i.text for i in r.items if i.functional()) for r in o.results if any(i.functional() for i in r.items))


# --- history independence -----------------------------------------------------------------------------------------

CALLS = ['1 + 1', '1 / 0', '(1', 'nosuch(', '2 +', '2 +\n3', 'a and\nb', 'x = 5', 'x = 5\n1/0', 'x = [1, 2]', 'x = 5 m', 'delete(x)', 'reset()',
         'x = {PARAM1 * 2}', '{PARAM1 = 3}', 'max(0x1, pi)', '0b1 + pi', 'pi as binary', "max([1, 2], 3)", '[1, 2] + [1, 2, 3]', '5 m to ft',
         '3 kg m s^-2', 'format(90 minutes)', "'2020-01-01' + 1 day", "split('a,b', ',')", 'x = 0b101', 'x + 0x10', 'x ++', 'element(x, 0b1)',
         'x to cm', '@nosuch(1)', "'abc", '1 # c', "'a' =~ '['", 'sort([pi, 0x2, 1])', 'max(1, 0x10)', 'min(pi, e)', '1E3 * 2', 'e as hexadecimal',
         'sum([0b1, pi])', '(x = 7) + (1 / 0)', 'y = 3', '[1, 1/0]', 'true then 1/0 else 2', 'abs(pi)', 'c m', 'speedoflight to kph', 'x = pi', 'round(e)',
         'x += 0x1', 'x = max(0x1, pi)', '50% + pi', 'x = s', '1 hour to x', 'J / x', 'x * m']
PROBES = ['x', 'y', 'pi', 'e', 'x + 1', 'x * 2', '1', '7', '1 + 1', 'a and\nb', 'aand\n1', '2 +\n3', '2+\n3', '1/3', '0b1', '0x10', "'a'", 'tau',
          '[1, 2]', 'c', 'max(1, 2)', 'max(pi, 1)', '5 m to ft', '3 m s^-1', '1 kg m s^-2', 'x to ft', '@x(2)', '{PARAM1}', 'true', '1 / 0', '(1',
          "x = 1", 'x + (y = 2)', 'nosuch', '1 2 3', '60 / (1 x)', '[x, 1 x]']
FLAGS = [{}, {'parse_only': True}, {'stateless': True}, {'include_state': True}]

MODEL = {'x = 5': {'x': '5'}, 'x = 5\n1/0': {'x': '5'}, 'x = [1, 2]': {'x': '[1, 2]'}, 'x = 5 m': {'x': '5 m'}, 'delete(x)': {'x': None},
         'reset()': {'x': None, 'y': None}, 'x = {PARAM1 * 2}': {'x': '{PARAM1 * 2}'}, 'x = 0b101': {'x': '0b101'},
         '(x = 7) + (1 / 0)': {'x': '7'}, 'y = 3': {'y': '3'}, 'x = pi': {'x': 'pi'}, 'x = s': {'x': 's'}}
UNKNOWN = ('x ++', 'x += 0x1', 'x = max(0x1, pi)')       # these depend on the earlier value: only with parse_only


def gen_history(tier):
    calls = [[t, f] for t in CALLS for f in range(len(FLAGS)) if f != 2 or 'delete' not in t and 'reset' not in t]
    for a in calls:
        yield [a]
    core = [[t, 0] for t in CALLS] + [['x = 5', 1], ['x = 5', 2], ['x ++', 1]]
    for a, b in itertools.product(core, repeat=2):
        yield [a, b]
    if tier != 'quick':
        small = [[t, 0] for t in CALLS[:30]]
        for h in itertools.product(small, repeat=3):
            yield list(h)


def probe_obs(c, p):
    o = calc.run(c, p, stateless=True) if '=' in p else calc.run(c, p)
    items = None
    if o.results is not None:
        items = tuple((r.expression, tuple(i.desc() for i in r.items)) for r in o.results)
    return o.obs(c, True) + (o.message, items)


_fresh = {}


def fresh_probes(vars_):
    key = tuple(sorted(vars_.items()))
    if key not in _fresh:
        outs = []
        for p in PROBES:
            c = calc.new()
            for n, t in key:
                calc.run(c, '%s = %s' % (n, t))
            outs.append(probe_obs(c, p))
        _fresh[key] = outs
    return _fresh[key]


def case_history(hist, rec):
    c = calc.new()
    vars_ = {}
    for t, f in hist:
        o = calc.run(c, t, **FLAGS[f])
        rec.step()
        if o.kind == 'crash':
            rec.bad('crash', None, repr(o.exc))
            return
        if f in (1, 2):
            continue
        if t in UNKNOWN:
            return                    # value depends on the history itself: covered by C07
        for n, v in MODEL.get(t, {}).items():
            if v is None:
                if t == 'delete(x)' and o.err():
                    continue
                vars_.pop(n, None)
            else:
                vars_[n] = v
    want = fresh_probes(vars_)
    rec.state(tuple(sorted(vars_.items())))
    for p, w in zip(PROBES, want):
        got = probe_obs(c, p)
        rec.step()
        rec.check(got == w, 'result after a history against a new calculator with the same variables', [p, w], got)
    rec.trace()


# --- the same text again after a change -------------------------------------------------------------------------------------

WRAP = ['x', '(x)', '((x) + 0)', '[x]', '[1, (x)]', '[1..x]', 'abs(x)', '(true then x else 1)', "('' +$ x)", '@fn(x)', '{x}', '(y = x)', 'max(1, x)']
# worlds between which the calculator is taken back and forth: variables and settings
WORLDS = [dict(x='3'), dict(x='1'), dict(x="'ab'"), dict(x='[2, 4]'), dict(x='2 ft'), dict(x="'2020-02-28'"), dict(x='true'), dict(x=None),
          dict(x='3', fn='{PARAM1 * 10}'), dict(x='3', prec=3), dict(x='3', size=12), dict(x='3', simplify=False), dict(x='3', systems=('uk', 'si', 'us')),
          dict(x='3', rounding='ROUND_DOWN'), dict(x='10/3'), dict(x='0x1F'), dict(x='s')]
OTHERS = ['5 pints', '5 pints to liters', '1 gallon', '2/3', '-2/3', '5 m * 3 s / (2 s)', 'format(5000 m)', '10 N * 2 m', '@fn(2)', '@fn(@fn(1))', '[x, x]',
          'x', 'x + 1', 'x +$ x', 'x == x', 'x m', 'x then 1 else 2', '[1..x]', '[1..9 step x]', 'y = x', 'x then', '(x', 'x as binary', '2 x', 'not x',
          'sqrt(x)', '1/3 + x', 'nosuch + 1', '@nosuch(1)', "'a' * x", '# x', '7 fl oz', '1 ton to kg', '2^0.5', 'pi * x', '1 hour to x', '60 / (1 x)', '1 cup + x cups']


def texts_again(tier):
    c = calc.shared()
    out = list(OTHERS)
    for name in sorted(c.funcs):
        if name in ('now', 'reset', 'delete') or getattr(c.funcs[name], 'func', name) != name:
            continue
        f = c.funcs[name]
        lo = f.minparams if f.minparams is not None else 1
        hi = f.maxparams if f.maxparams is not None else lo + 1
        wraps = WRAP if not name.startswith('sp_') and tier != 'quick' else WRAP[1:6] + WRAP[9:10] if not name.startswith('sp_') else WRAP[1:2]
        for w in wraps:
            for n in range(max(lo, 1), min(hi, 4) + 1):
                for at in range(n):
                    for rest in (('2',) if name.startswith('sp_') else ('2', "'a'")):
                        if rest == '2' or n > 1:
                            out.append('%s(%s)' % (name, ', '.join(w if k == at else rest for k in range(n))))
                if n == lo:
                    # functions of literals depend on the settings
                    out += ['%s(%s)' % (name, ', '.join([v] * n)) for v in ('2', '10/3', "'ab'", '5 pints')][:1 if name.startswith('sp_') else 4]
    for sym in sorted(set(c.ops_symbols)):
        if sym.isupper() or sym in ('then', 'else', '=', '||=') or sym in ASSIGN:
            continue
        for w in WRAP:
            out += ['%s %s 2' % (w, sym), '2 %s %s' % (sym, w), "'ab' %s %s" % (sym, w)]
    return [t for t in dict.fromkeys(out) if '{x}' not in t or '<<' not in t]


ASSIGN = ('++', '--', '+=', '-=', '*=', '/=', '^=', '%=', '\\=')


def gen_again(tier):
    texts = texts_again(tier)
    n = 96
    for k in range(n):
        yield texts[k::n]


def enter(c, w):
    c.vars.clear()
    calc.run(c, 'fn = ' + w.get('fn', '{PARAM1 + 1}'))
    if w['x'] is not None:
        calc.run(c, 'x = ' + w['x'])
    c.number_size_set(w.get('size', 100))
    c.number_prec_set(w.get('prec', 30))
    c.number_set_rounding(w.get('rounding', 'ROUND_HALF_UP'))
    c.unit_simplification_set(w.get('simplify', True))
    c.unit_normaliser.systems_preference = list(w.get('systems', ('gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec')))


def in_world(world, texts):
    c = calc.new()
    enter(c, world)
    return [calc.run(c, t, stateless=True).obs(c, True) for t in texts]


def case_again(texts, rec):
    ref = [alone_.call('mc.checks.c06', 'in_world', w, texts) for w in WORLDS]
    rec.step(len(texts) * len(WORLDS))
    c = calc.new()
    # from the first world to every other one and back
    for k in [0] + [j for i in range(1, len(WORLDS)) for j in (i, 0)] + list(range(len(WORLDS) - 1, 0, -1)):
        enter(c, WORLDS[k])
        for t, w in zip(texts, ref[k]):
            got = calc.run(c, t, stateless=True).obs(c, True)
            rec.step()
            rec.state((k, w))
            if not rec.check(got == w, 'the same text after variables or settings have changed, against a calculator that only knew these',
                             [WORLDS[k], t, w], got):
                return
        rec.trace()


SPACES = [
    Space('splits', gen_splits, case_splits, 'all programs up to the length over statement lines, with every split into calls'),
    Space('continuation', gen_cont, case_cont, 'every corpus statement broken at every top-level gap with every separator'),
    Space('operators', gen_allops, case_allops, 'every operator of the full preset at the end of a line'),
    Space('lookahead', gen_look, case_look, 'every operator left dangling by an earlier text or statement, then every kind of complete statement'),
    Space('history', gen_history, case_history, 'all call histories up to the length, then every probe'),
    Space('again', gen_again, case_again, 'every function and operator over expressions of a variable, evaluated again after each change of variables or settings'),
]
