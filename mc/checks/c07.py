"""C07 Variables behave as an independent value store.

Reference: a dictionary of fully substituted expressions.  Assigning stores the substituted text of the right-hand side; what
a variable must hold is whatever that text, which mentions no variable, gives on a calculator without variables.
"""
import itertools
import re

from mc.core import Space
from mc import calc, corpus

ASSUMPTIONS = ['the value of an expression without variables is taken from the calculator itself (its correctness is the subject of the other properties)']

VARS = ('x', 'y', 'a')
NAME = re.compile(r'(?<![A-Za-z0-9_@])([xya])(?![A-Za-z0-9_(])')
_pure = {}


def subst(expr, store):
    return NAME.sub(lambda m: '(%s)' % store.get(m.group(1), 'qq'), expr)


# an operation: [kind, ...]
VALUES = ['s', '5', '0b0101', '2.5 m', '[1, 2]', "'3'", 'pi', '[1 m, 0x2 ft]', 'true', '1/3', "'2020-01-31'", '50%']
READS = ['x', 'y', 'a', 'x + 0x1', 'max(0x1, x, y)', 'sort(a)', 'element(a, 1)', 'element(a, 0b1) + 0x3', 'x as hexadecimal', 'x to ft', 'a to ft', 'concat(a, [x])',
         'reverse(a)', 'abs(x)', 'a * a', 'min(a)', 'x +$ y', '@x(1)', 'count(a) / (1 s)', '[x, y]', 'round(x)', 'filter(a, [true, false])', 'x == y',
         'a * (2 s^-1)', 'sum(a)', '1 / x', "x + 1 day", '~x', 'mean(a)', 'length(x)', '1 hour to x', '60 / (1 x)', 'x * m']
UPD = ['+', '-', '*', '/', '^', '%', '\\']


def ops(tier):
    out = []
    for v in VALUES:
        out.append(['set', 'x', v])
    for v in ('[1, 2]', '[x, y]', '[3 m, 2 ft]', 'a', 'a * 2', 'sort(a)', 'concat(a, a)', '[2 J] / (1 s)', '[x, [1, x]]', 'reverse(a)'):
        out.append(['set', 'a', v])
    for v in ('x', 'x + 1', '(x = 4) + 1', 'a', 'element(a, 1)', 'max(0x1, x)', '7'):
        out.append(['set', 'y', v])
    out += [['set', 'x', 'y'], ['set', 'x', 'x'], ['set', 'x', 'x + x'], ['set', 'x', 'element(a, 2)'], ['set', 'x', '1/0'],
            ['set', 'x', '(y = 8)'], ['set', 'x', 'a']]
    for u in UPD:
        out.append(['upd', 'x', u, '2'])
    out += [['upd', 'x', '+', 'y'], ['upd', 'x', '+', 'x'], ['upd', 'a', '*', '2'], ['upd', 'y', '+', '0b1'], ['upd', 'x', '*', '2 m'],
            ['upd', 'x', '/', '0'], ['upd', 'a', '+', 'a'], ['upd', 'x', '-', '1 ft']]
    for v in VARS:
        out += [['inc', v, '+'], ['inc', v, '-']]
        out.append(['del', v])
        out.append(['ifnew', v, '9'])
    out += [['ifnew', 'x', 'y'], ['ifnew', 'y', '(x = 6)'], ['reset']]
    return out


def text_of(op):
    k = op[0]
    if k == 'set':
        return '%s = %s' % (op[1], op[2])
    if k == 'upd':
        return '%s %s= %s' % (op[1], op[2], op[3])
    if k == 'inc':
        return '%s%s' % (op[1], op[2] * 2)
    if k == 'del':
        return 'delete(%s)' % op[1]
    if k == 'ifnew':
        return '%s ||= %s' % (op[1], op[2])
    if k == 'reset':
        return 'reset()'
    return op[1]


ASSIGN = re.compile(r'\(?([xya]) = (\d+)\)?')


def inner(expr, store):
    """nested assignments in a right-hand side happen first"""
    m = ASSIGN.fullmatch(expr.split(' + ')[0]) or ASSIGN.fullmatch(expr)
    if m:
        store[m.group(1)] = m.group(2)
        return expr.replace(m.group(0), '(' + m.group(2) + ')', 1)
    return expr


def model(op, store):
    """apply to the store; returns the expected result expression, or None when the statement must fail"""
    k = op[0]
    if k == 'set':
        t = subst(inner(op[2], store), store)
        if pure(t) is None:
            return None
        store[op[1]] = t
        return t
    if k in ('upd', 'inc'):
        rhs = op[3] if k == 'upd' else '1'
        if k == 'inc':
            if op[1] not in store:
                return None
            # increments follow the unit of the variable
            t = '(%s) %s 1' % (store[op[1]], op[2])
        else:
            t = '(%s) %s (%s)' % (store.get(op[1], 'qq'), op[2], subst(rhs, store))
            pr = pure(subst(rhs, store))
            if pr is None or pr[0][0] == ('none',):
                return None                # an undefined variable is not a number
        if op[1] not in store or pure(t) is None:
            return None
        store[op[1]] = t
        return t
    if k == 'ifnew':
        t = subst(inner(op[2], store), store)
        if pure(t) is None:
            return None
        store.setdefault(op[1], t)
        return t
    if k == 'del':
        if op[1] not in store:
            return None
        del store[op[1]]
        return ''
    if k == 'reset':
        store.clear()
        return ''
    t = subst(op[1], store)
    return None if pure(t) is None else t


def want_state(store):
    return tuple(sorted((n,) + pure(t)[1] for n, t in store.items()))


def play(hist, rec, probes=()):
    c = calc.shared()
    calc.run(c, 'reset()')
    store = {}
    kept = []
    for op in hist + [['read', p] for p in probes]:
        if op[0] == 'read' and '@x' in op[1]:
            exp = None
        else:
            exp = model(op, store)
        text = text_of(op)
        c = calc.shared()
        cc = c
        o = calc.run(cc, text, include_state=True)
        rec.step()
        if o.kind == 'crash':
            rec.bad('crash', None, repr(o.exc))
            return
        if exp is None:
            if not rec.check(o.err(), 'fails', [text, store], o.obs(cc)):
                return
            st = calc.state_of(cc)
        else:
            if not rec.check(o.ok(), 'succeeds', [text, exp], o.message):
                return
            r = o.results[-1]
            if exp != '':
                got = calc.res_obs(r, cc, True)
                if not rec.check(got == pure(exp)[0], 'result', [text, exp, pure(exp)[0]], got):
                    return
                kept.append((r, got, text))
            st = calc.vars_obs(r.state, cc)
        w = want_state(store)
        if not rec.check(st == w, 'variables', [text, w], st):
            return
    for r, was, text in kept:
        now = calc.res_obs(r, c, True)
        rec.check(now == was, 'an earlier result after later operations', [text, was], now)
    rec.state(want_state(store))
    rec.trace()


# the reference evaluation does not share a calculator with the system under test
def pure_calc():
    return calc._cache.setdefault('__ref', calc.new())


def pure(text):
    """(result observation, stored observation) of a text without variables, or None if it fails"""
    if text not in _pure:
        if len(_pure) > 100000:
            _pure.clear()
        c = pure_calc()
        calc.run(c, 'reset()')
        o = calc.run(c, 'zz = (%s)' % text, include_state=True)
        if o.ok():
            _pure[text] = (calc.res_obs(o.last(), c, True), calc.vars_obs(o.results[-1].state, c)[0][1:])
        else:
            _pure[text] = None
    return _pure[text]


def gen_histories(tier):
    os_ = ops(tier)
    n = 2 if tier == 'quick' else 3
    for k in range(1, n + 1):
        for h in itertools.product(os_, repeat=k):
            yield list(h)
    core = [['set', 'x', '5'], ['set', 'x', '0b0101'], ['set', 'y', 'x'], ['set', 'a', '[x, y]'], ['set', 'a', '[1 m, 0x2 ft]'], ['set', 'x', 'a'],
            ['set', 'y', 'element(a, 1)'], ['upd', 'x', '+', 'y'], ['upd', 'a', '*', '2'], ['inc', 'x', '+'], ['inc', 'y', '-'],
            ['del', 'x'], ['ifnew', 'y', '9'], ['reset'], ['read', 'sort(a)'], ['read', 'max(0x1, x, y)'], ['set', 'a', 'concat(a, a)'],
            ['set', 'x', '(y = 3) + 1'], ['upd', 'x', '/', '0'], ['read', 'a']]
    if tier == 'quick':
        core = core[:14] + core[15:17]
    for h in itertools.product(core, repeat=n + 1):
        yield list(h)
    if tier != 'quick':
        small = core[:13]
        for h in itertools.product(small[:9], repeat=5):
            yield list(h)


def case_history(hist, rec):
    play(hist, rec)


def gen_reads(tier):
    sets = [['set', v, t] for v in VARS for t in VALUES + ['[2 J] / (1 s)', '[1, [2, 0x3]]', '[true, false]', "['b', 'd']", '3 kg m s^-2', '1E3', '16z1F', '{PARAM1}']]
    for s in sets:
        for r in READS:
            yield [s, ['set', 'y' if s[1] != 'y' else 'x', '0b11'], ['read', r]]
    for s in sets:
        if s[1] != 'a':
            continue
        for t in [u for u in sets if u[1] == 'x']:
            for r in READS if tier != 'quick' else READS[::3]:
                yield [s, t, ['set', 'y', 'x'], ['read', r]]


def case_reads(hist, rec):
    play([h for h in hist if h[2:] != ['{PARAM1}']] if any('@' in h[1] for h in hist) else hist, rec, probes=['pi', 'e', 'tau', 'x', 'y', 'a'])


# every function and operator of the calculator, given variables: nothing it is given may change
def gen_functions(tier):
    c = calc.new()
    for name in sorted(c.funcs):
        if name not in ('reset', 'delete'):
            yield ['func', name]
    for name, op in c.ops_list.items():
        if not op.hidden and op.category != 'Assignment':
            yield ['op', name]


POOL = {'n': '6', 'b': '0b0110', 'h': '0x1F', 'q': '1/3', 'u': '2.5 m', 'v': '4 ft', 't': '90 minutes', 's': "'abc'", 'k': "'2020-01-31'", 'l': 'true',
        'a1': '[3, 0b1, 2]', 'a2': "['b', 'a', 'c']", 'a3': '[3 m, 0x2 ft, 1 m]', 'a4': '[true, false, true]', 'a5': '[[1, 2], 3]', 'p': '50%',
        'o': 'pi', 'j': '[2 J] / (1 s)', 'z': 's', 'w': 'J / m', 'y': '[s, 2 hours, min]'}
# what the variables are used for before and after: two values may look alike and still behave differently
PROBES = ['%s', '%s + %s', '1 / %s', '60 / (1 %s)', '%s * 2', '90 s / %s', '7 %s', '1 hour to %s', '%s * (3 kg)', '%s to %s', '%s +$ %s']
SAFE = {k: 'v_' + k for k in POOL}


_fresh = []


def probes(uses):
    """what every use gives in a calculator where the variables were only assigned"""
    if not _fresh:
        for v, t in POOL.items():
            for u in uses:
                if SAFE[v] in u:
                    c = calc.shared()
                    calc.run(c, 'reset()')
                    calc.run(c, '%s = %s' % (SAFE[v], t))
                    _fresh.append(calc.obs1(c, u, True))
    return _fresh


def case_functions(case, rec):
    kind, name = case
    c = calc.new()
    calc.run(c, '\n'.join('%s = %s' % (SAFE[k], v) for k, v in POOL.items()))
    base = calc.state_of(c)
    rec.check(len(base) == len(POOL), 'variables are set up', len(POOL), base)
    consts = [calc.obs1(c, k, True) for k in ('pi', 'e', 'tau', 'c', 'speedoflight')]
    uses = [p.replace('%s', v) for v in SAFE.values() for p in PROBES]
    fresh = probes(uses)
    names = list(SAFE.values())
    forms = []
    if kind == 'func':
        f = c.funcs[name]
        lo, hi = f.minparams or 0, f.maxparams if f.maxparams is not None else 3
        if lo <= 0 or hi == 0:
            forms.append('%s()' % name)
        if hi >= 1:
            forms += ['%s(%s)' % (name, a) for a in names]
        if hi >= 2 or f.maxparams == 1:
            forms += ['%s(%s, %s)' % (name, a, b) for a in names for b in names]
        if hi >= 3:
            forms += ['%s(%s, %s, %s)' % (name, a, b, d) for a in names for b in ('v_n', 'v_s', 'v_a3', 'v_b') for d in ('v_n', 'v_s', 'v_h')]
    else:
        op = c.ops_list[name]
        ln = len(op.linputs)
        if name == 'then':
            forms = ['%s then %s else %s' % (a, b, d) for a in ('v_l', 'v_a4', 'v_n') for b in names for d in names]
        elif ln == 0:
            forms = ['%s %s' % (name, a) for a in names]
        else:
            forms = ['%s %s %s' % (a, name, b) for a in names for b in names + (['ft', 'hex', 'hexadecimal', 'percentage'] if name in ('to', 'as') else [])]
    if name in ('factorial',):
        forms = [t for t in forms if 'v_k' not in t]
    for t in forms:
        o = calc.run(c, t, include_state=True)
        rec.step()
        if o.kind == 'crash':
            rec.bad('crash', t, repr(o.exc)[:200])
            return
        rec.state((name, o.obs(c)))
        st = calc.vars_obs(o.results[-1].state, c) if o.ok() else calc.state_of(c)
        if not rec.check(st == base, 'variables given to %s are unchanged' % name, [t, base], [s for s in st if s not in base]):
            return
    rec.trace(len(forms))
    for u, was in zip(uses, fresh):
        now = calc.obs1(c, u, True)
        rec.step()
        if not rec.check(now == was, '%s after the variables were given to %s' % (u, name), was, now):
            break
    now = [calc.obs1(c, k, True) for k in ('pi', 'e', 'tau', 'c', 'speedoflight')]
    rec.check(now == consts, 'constants are unchanged', consts, now)


# names: letters, digits and underscores, unless the name itself is taken by a unit, a constant or a word of the language
LETTERS = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_'
NAME_USES = [('%s + 1', '42'), ('2*%s', '82'), ('%s-1', '40'), ('%s^2', '1681'), ('(%s)', '41'), ('max(%s, 1)', '41'), ('[%s,%s]', '[41, 41]'), ('%s*%s+%s', '1722'), ("%s +$ 'a'", '41a'), ('%s == 41 then %s else 0', '41'), (' %s ', '41'), ('%s # %s', '41'),
             ('41 + %s - 41', '41'), ('%s %% 40', '1'), ('%s 3 m', None), ('-1 * %s', '-41'), ('%s / 41', '1'), ('[%s..43]', '[41, 42, 43]'), ('{%s}', 'any'), ('%s > 40 and %s < 42', 'true')]


def gen_names(tier):
    words = ['meters', 'Second', 'kg', 'mm', 'kN', 'ft', 'astronomical_unit', 'degC', 'degreesC', 'pi', 'tau', 'Planck', 'true', 'false', 'and', 'or', 'xor', 'not', 'to', 'as', 'mod', 'in', 'then', 'else', 'hex', 'binary', 'abs', 'sin', 'max', 'PARAM1', 'delete', 'reset', 'now', 'day', 'E', 'e', 'ZB', 'inf', 'nan', 'None', 'si', 'us', 'uk', 'iec', 'asu', 'nautical', 'gregorian', 'step', 'decimal', 'octal', 'percentage', 'xnor', 'nand', 'sum', 'K', 'J', 'PARAM', 'inches', 'lightyear', 'zz']
    for a in LETTERS:
        yield [a] + [a + b for b in LETTERS + '0123456789']
    for w in words:
        yield [w] + [w + b for b in LETTERS + '0123456789'] + [b + w for b in LETTERS]
        yield [w[:i] for i in range(1, len(w))] + [w + v for v in words]
    if tier == 'thorough':
        for a in LETTERS:
            for b in LETTERS + '0123456789':
                yield [a + b + d for d in LETTERS + '0123456789']


WORDS = {'else', 'step', 'decimal', 'scientific', 'percentage', 'boolean', 'arbitrarybase', 'binary', 'hexadecimal', 'octal', 'gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec'}


def is_taken(c, name):
    o = calc.run(c, name)
    return name in WORDS or name in c.ops_list or calc.run(c, '1 ' + name).ok() or (o.ok() and o.last().value is not None)


def case_names(names, rec):
    c = calc.shared('Computing')
    for name in names:
        calc.run(c, 'reset()')
        taken = is_taken(c, name)
        rec.step()
        if taken:
            continue
        o = calc.run(c, name + '=41')
        if not rec.check(o.ok() and list(c.vars) == [name] and calc.num_text(c.vars[name][0]) == '41', 'assignment to the name %r' % name, '41', [o.kind, o.message, calc.state_of(c)]):
            return
        state = calc.state_of(c)
        for use, want in NAME_USES:
            text = use.replace('%s', name).replace('%%', '%')
            o = calc.run(c, text)
            rec.step()
            if want is None:
                rec.check(not o.ok(), '%r is not a statement' % text, 'an error', o.obs(c))
                continue
            ref = calc.run(c, use.replace('%s', '41').replace('%%', '%')) if want != 'any' else o
            if not rec.check(o.ok() and (want == 'any' or o.obs(c)[1:] == ref.obs(c)[1:]), '%r with the variable %s = 41' % (text, name), ref.obs(c), [o.obs(c), o.message]):
                return
        if not rec.check(calc.state_of(c) == state, 'variables after reading %s' % name, state, calc.state_of(c)):
            return
        near = [n for n in dict.fromkeys([name + '_', name + '1', '_' + name, name.swapcase()]) if n != name and not is_taken(c, n)]
        for i, n in enumerate(near):
            o = calc.run(c, '%s = %d' % (n, i))
            rec.check(o.ok(), 'assignment to the name %r' % n, 'ok', o.message)
        o = calc.run(c, '%s += 2\n%s' % (name, name))
        rec.check(o.ok() and [calc.num_text(r.value) for r in o.results] == ['43', '43'], '%s += 2' % name, '43', o.obs(c))
        got = {n: calc.num_text(v[0]) for n, v in c.vars.items()}
        want = dict([(name, '43')] + [(n, str(i)) for i, n in enumerate(near)])
        if not rec.check(got == want, 'variables whose names resemble %s' % name, want, got):
            return
        calc.run(c, 'delete(%s)' % name)
        rec.check(sorted(c.vars) == sorted(near), 'delete(%s)' % name, near, sorted(c.vars))
        rec.state(name)
        rec.trace()
    calc.run(c, 'reset()')


SPACES = [
    Space('functions', gen_functions, case_functions, 'every function and operator applied to variables of every kind, all argument pairs'),
    Space('names', gen_names, case_names, 'all names of up to two (three) characters and names made of units, constants, functions and words of the language with one more character, each assigned, used in 20 ways, updated beside similar names and deleted'),
    Space('histories', gen_histories, case_history, 'all operation histories up to the depth against the substitution model'),
    Space('reads', gen_reads, case_reads, 'every kind of value read by every reading expression, variables and constants unchanged'),
]
