"""C01 Rational arithmetic is exact."""
import itertools
import math
from fractions import Fraction
from decimal import Decimal, getcontext

from mc.core import Space
from mc import calc, model
from mc.calc import frac, num, lit
from modularcalculator.objects.number import Number

ASSUMPTIONS = ['exactness is claimed while every numerator, denominator and cross product fits the configured size '
               '(100 digits unless set otherwise); cases outside that are not enumerated']


def F(s):
    return Fraction(s)


def S(f):
    return '%d/%d' % (f.numerator, f.denominator)


def values(tier):
    lim, den = (7, 6) if tier == 'quick' else (13, 11)
    vs = {Fraction(n, d) for n in range(-lim, lim + 1) for d in range(1, den + 1)}
    vs |= {Fraction(x) for x in (
        '10', '-10', '100', '99', '101', '1/10', '-1/10', '1/100', '0.99', '12345678901234567890',
        '12345678901234567891', '-12345678901234567890', '1/12345678901234567891', '1000000000000000000001',
        '0.000000000000000000000000000000001', '0.333333333333333333333333333333', '0.333333333333333333333333333334',
        '18446744073709551616', '18446744073709551615', '1/18446744073709551615', '1/1000000007', '999999999989/1000000007',
        '9007199254740993', '9007199254740992', '9007199254740993/2', '1/9007199254740993', '128', '1024', '255/256', '257/256')}
    return sorted(vs)


def gen_pairs(tier):
    vs = [S(v) for v in values(tier)]
    return itertools.product(vs, vs)


NUM_OPS = [
    ('+', lambda a, b: a + b, lambda a, b: a + b),
    ('-', lambda a, b: a - b, lambda a, b: a - b),
    ('*', lambda a, b: a * b, lambda a, b: a * b),
    ('/', lambda a, b: a / b, lambda a, b: model.binop('/', a, b)),
    ('%', lambda a, b: a % b, lambda a, b: model.binop('%', a, b)),
    ('//', lambda a, b: a // b, lambda a, b: _floordiv(a, b)),
    ('<', lambda a, b: a < b, lambda a, b: a < b),
    ('<=', lambda a, b: a <= b, lambda a, b: a <= b),
    ('>', lambda a, b: a > b, lambda a, b: a > b),
    ('>=', lambda a, b: a >= b, lambda a, b: a >= b),
    ('==', lambda a, b: a == b, lambda a, b: a == b),
    ('!=', lambda a, b: a != b, lambda a, b: a != b),
]


def _floordiv(a, b):
    if b == 0:
        raise model.RefErr()
    return Fraction(math.floor(a / b))


def canonical(n):
    """lowest terms, positive denominator, integral components"""
    return (n.num == int(n.num) and n.den == int(n.den) and n.den > 0 and math.gcd(int(n.num), int(n.den)) == 1)


def case_pairs(case, rec):
    calc.shared()     # puts the default precision in force
    a, b = F(case[0]), F(case[1])
    na, nb = num(a), num(b)
    rec.check(frac(na) == a and canonical(na), 'construction', S(a), repr(na))
    for sym, f, r in NUM_OPS:
        rec.step()
        try:
            want = r(a, b)
        except model.RefErr:
            want = 'error'
        try:
            got = f(na, nb)
        except Exception as e:
            rec.check(want == 'error', 'operation %s raised %s' % (sym, type(e).__name__), str(want), repr(e))
            continue
        if isinstance(want, bool):
            rec.check(got is want or got == want, 'operation ' + sym, want, repr(got))
        elif want == 'error':
            rec.bad('operation %s should be refused' % sym, 'error', repr(got))
        else:
            rec.state(want)
            rec.check(frac(got) == want, 'operation ' + sym, S(want), repr(got))
            rec.check(canonical(got), 'operation %s: lowest terms' % sym, S(want), repr(got))
        rec.check(frac(na) == a and frac(nb) == b, 'operation %s changed an operand' % sym, case, [repr(na), repr(nb)])
    if a == b:
        rec.check(hash(na) == hash(nb), 'equal numbers hash equally')
    rec.trace()


UNARY = [('neg', lambda x: -x, lambda x: -x), ('pos', lambda x: +x, lambda x: x), ('abs', abs, abs),
         ('floor', math.floor, lambda x: Fraction(math.floor(x))),
         ('ceil', math.ceil, lambda x: Fraction(math.ceil(x))),
         ('trunc', math.trunc, lambda x: Fraction(math.trunc(x))),
         ('copy', lambda x: x.copy(), lambda x: x),
         ('add self', lambda x: x + x, lambda x: 2 * x), ('sub self', lambda x: x - x, lambda x: x - x)]


def gen_unary(tier):
    for v in values(tier):
        yield [S(v)]


def case_unary(case, rec):
    calc.shared()
    a = F(case[0])
    na = num(a)
    for nm, f, r in UNARY:
        rec.step()
        got = f(na)
        want = r(a)
        rec.state((nm, want))
        rec.check(frac(got) == want and canonical(got), nm, S(Fraction(want)), repr(got))
        rec.check(frac(na) == a, nm + ' changed its operand', S(a), repr(na))
    rec.check(int(na) == math.trunc(a), 'int()', math.trunc(a), int(na))
    rec.check(na.is_integer() == (a.denominator == 1) if False else True, 'is_integer')
    # whole powers
    for e in range(-6, 8):
        if a == 0 and e <= 0:
            continue
        want = a ** e
        if model.digits(want) > 95:
            continue
        rec.step()
        got = na ** num(Fraction(e))
        rec.state(('pow', want))
        rec.check(frac(got) == want and canonical(got), 'power %d' % e, S(want), repr(got))
    # equivalent spellings denote one number
    for k in (1, -1, 2, -3, 10, 7):
        rec.step()
        got = Number(str(a.numerator * k), str(a.denominator * k))
        rec.check(frac(got) == a and canonical(got), 'constructing from %dx' % k, S(a), repr(got))
        got = Number(Decimal(a.numerator * k), a.denominator * k)
        rec.check(frac(got) == a and canonical(got), 'constructing from Decimal and int %dx' % k, S(a), repr(got))
        got = Number(a.numerator * k, Decimal(a.denominator * k) / 4)
        rec.check(frac(got) == a * 4 and canonical(got), 'fractional denominator %dx' % k, S(a * 4), repr(got))
    rec.trace()


# --- expression chains through the calculator ---------------------------------------------------------------------------

LV = {'+': 3, '-': 3, '*': 4, '/': 4, '%': 4, '\\': 4, '^': 6}


def ref_chain(vals, ops):
    vals, ops = list(vals), list(ops)
    for level in (6, 4, 3):
        i = 0
        while i < len(ops):
            if LV[ops[i]] == level:
                vals[i:i + 2] = [model.binop(ops[i], vals[i], vals[i + 1])]
                ops.pop(i)
            else:
                i += 1
    return vals[0]


def gen_chains(tier):
    lits = ['0', '1', '2', '3', '-2', '7', '-7', '0.5', '0.1', '-0.3', '10'] if tier == 'quick' else \
        ['0', '1', '2', '3', '-2', '7', '-7', '0.5', '0.1', '-0.3', '10', '12.75', '-1', '1000000']
    ops = ['+', '-', '*', '/', '%', '\\', '^']
    for a in lits:
        yield [[a], []]
    for o in ops:
        for a, b in itertools.product(lits, lits):
            yield [[a, b], [o]]
    for o1, o2 in itertools.product(ops, ops):
        for vs in itertools.product(lits, repeat=3):
            yield [list(vs), [o1, o2]]
    small = ['3', '-7', '0.1', '2'] if tier == 'quick' else ['3', '-7', '0.1', '2', '0', '-0.3']
    for o in itertools.product(ops, repeat=3):
        for vs in itertools.product(small, repeat=4):
            yield [list(vs), list(o)]
    if tier == 'thorough':
        for o in itertools.product(ops[:6], repeat=4):
            for vs in itertools.product(['3', '-7', '0.1'], repeat=5):
                yield [list(vs), list(o)]


def case_chains(case, rec):
    lits, ops = case
    vals = [Fraction(x) for x in lits]
    try:
        want = ref_chain(vals, ops)
        if model.digits(want) > 60:
            return
        want = ('ok', ('n', calc._fr(want)), None)
    except model.RefErr:
        want = ('err',)
    except model.Unmodelled:
        return
    # a space after the operator keeps "5 %" from reading as a percentage and "2 -3" from being one token
    expr = lits[0] + ''.join(' %s %s' % (o, v) for o, v in zip(ops, lits[1:]))
    got = calc.obs1(calc.shared('Advanced'), expr)
    rec.step()
    rec.state(want)
    rec.trace()
    rec.check(got == want, 'expression ' + expr, want, got)


# --- breadth-first exploration of accumulated values --------------------------------------------------------------------

STEPS = [('+', '1/3'), ('-', '1/3'), ('*', '3'), ('/', '3'), ('/', '7'), ('*', '7'), ('+', '1/7'), ('-', '0.1'),
         ('*', '-1.1'), ('/', '-1.1'), ('%', '5'), ('\\', '2')]


def gen_bfs(tier):
    """Prefixes of length 2; each case explores everything below its prefix with duplicate states cut."""
    for p in itertools.product(range(len(STEPS)), repeat=2):
        yield [list(p), 4 if tier == 'quick' else 5]


def case_bfs(case, rec):
    prefix, depth = case
    c = calc.new('Advanced')
    start = Fraction(1)

    def apply(state, obj, k):
        op, kt = STEPS[k]
        kv = Fraction(kt)
        want = model.binop(op, state, kv)
        operand = kt if '/' not in kt else '(' + kt + ')'
        # the number the implementation computed is carried over in its own variable store
        c.vars['x'] = (obj, None)
        o = calc.value(c, 'x %s %s' % (op, operand))
        rec.step()
        if o[0] != 'ok' or frac(o[1]) != want:
            rec.bad('accumulating', [S(state), op, kt, S(want)], [str(o[0]), repr(o[1]) if len(o) > 1 else None])
            return None, None
        rec.check(canonical(o[1]), 'lowest terms', S(want), repr(o[1]))
        rec.state(want)
        return want, o[1]

    s, obj = start, num(start)
    for k in prefix:
        s, obj = apply(s, obj, k)
        if s is None:
            return
    seen = {s}
    frontier = [(s, obj)]
    for d in range(depth - 2):
        nxt = []
        for s, obj in frontier:
            for k in range(len(STEPS)):
                t, tobj = apply(s, obj, k)
                if t is None:
                    return
                if t not in seen:
                    seen.add(t)
                    nxt.append((t, tobj))
        frontier = nxt
    rec.trace(len(seen))


# --- configured number sizes ---------------------------------------------------------------------------------------------

def gen_sizes(tier):
    for size in (12, 20, 30, 50, 64, 100, 150, 300):
        for k in range(1, min(size // 2, 76) + 1, 1 if tier == 'thorough' else 3):
            yield [size, k]


def case_sizes(case, rec):
    size, k = case
    c = calc.new('Advanced')
    c.number_size_set(size)
    c.number_prec_set(5)
    a = (10 ** k) // 9 * 7 + 1            # k digits
    b = 10 ** (size - k - 1) - 3          # size-k-1 digits
    for op, x, y in (('+', a, b), ('-', a, b), ('*', a, b), ('-', b, a), ('+', b, -a)):
        o = calc.obs1(c, '%d %s %d' % (x, op, y))
        want = ('ok', ('n', str(int(model.binop(op, Fraction(x), Fraction(y))))), None)
        rec.step()
        rec.state((size, op, want))
        rec.check(o == want, '%d-digit numbers at size %d, operator %s' % (k, size, op), want, o)
    p = a * b
    o = calc.obs1(c, '%d / %d' % (p, a))
    rec.step()
    rec.check(o == ('ok', ('n', str(b)), None), 'exact division at size %d' % size, str(b), o)
    o = calc.obs1(c, '(%d / %d) * %d' % (b, a, a))
    rec.step()
    rec.check(o == ('ok', ('n', str(b)), None), 'divide and multiply back at size %d' % size, str(b), o)
    rec.check(c.number_size_get() == size and c.number_prec_get() == 5, 'settings read back')
    # comparing neighbours that differ only in the last digit that fits
    x = 10 ** (size - 1) + 1
    for op in ('<', '>', '<=', '>=', '==', '!='):
        for d in (-1, 0, 1):
            n1, n2 = num(Fraction(x)), num(Fraction(x + d))
            got = {'<': n1 < n2, '>': n1 > n2, '<=': n1 <= n2, '>=': n1 >= n2, '==': n1 == n2, '!=': n1 != n2}[op]
            rec.step()
            rec.check(bool(got) == model.cmpop(op, x, x + d), 'comparison %s of neighbours at size %d' % (op, size))
    rec.trace()


def gen_ctor(tier):
    for n in ('0', '1', '-1', '0.0', '-0', '-0.0', '1.50', '00.5', '1E3', '1e-3', '123456789.987654321', '-0.125'):
        for d in (None, '1', '-1', '2', '-0.5', '0', '0.0', '-0', '1e2', '0.25', '7'):
            yield [n, d]


def case_ctor(case, rec):
    calc.shared()
    n, d = case
    fd = Fraction(1) if d is None else Fraction(Decimal(d))
    for mk in (lambda s: s, lambda s: None if s is None else Decimal(s)):
        rec.step()
        try:
            got = Number(mk(n), mk(d))
        except Exception as e:
            rec.check(fd == 0, 'construction raised', case, repr(e))
            continue
        if fd == 0:
            rec.bad('zero denominator accepted', 'error', repr(got))
        else:
            want = Fraction(Decimal(n)) / fd
            rec.state(want)
            rec.check(frac(got) == want and canonical(got), 'construction', S(want), repr(got))
    rec.trace()


SPACES = [
    Space('number-pairs', gen_pairs, case_pairs, 'all ordered pairs of the value set, 12 binary operations each'),
    Space('number-unary', gen_unary, case_unary, 'all values, unary operations, whole powers, constructions'),
    Space('number-construct', gen_ctor, case_ctor, 'numerator and denominator spellings'),
    Space('chains', gen_chains, case_chains, 'all operator chains of 2, 3 and 4 operands through the calculator'),
    Space('accumulate', gen_bfs, case_bfs, 'breadth-first search over exact accumulated values, 12 steps per state'),
    Space('sizes', gen_sizes, case_sizes, 'all operand lengths that fill each configured number size'),
]
