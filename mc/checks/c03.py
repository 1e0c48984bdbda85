"""C03 Operators group by the documented precedence and associativity.

Reference: a precedence-climbing parser over the documented table produces, for a token sequence, the fully parenthesised
expression (or says the sequence is malformed).  The calculator must give the same answer for both texts.
"""
import itertools
import re

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['the precedence table is the documented one, written out again in the check',
               'single-operator semantics are the business of the other checks; here both texts must agree']

LEVELS = [
    ['^'],
    ['not', '~'],
    ['=~', '!~'],
    ['UNITOP'],
    ['ASSIGNUNIT'],
    ['IM'],
    ['*', '/', '%', '*$', '\\'],
    ['+', '-', '+$', '+%', '-%'],
    ['<<', '>>'],
    ['<', '>', '<=', '>=', '<$', '>$', '<=$', '>=$', '<~', '>~', '<=~', '>=~'],
    ['==', '!=', '==$', '!=$', '==~', '!=~'],
    ['&'],
    ['|', '^^'],
    ['and', 'or', 'xor'],
    ['then'],
    ['to', 'as'],
    ['=', '++', '--', '+=', '-=', '*=', '/=', '^=', '%=', '\\=', '||='],
]
LV = {op: len(LEVELS) - i for i, ops in enumerate(LEVELS) for op in ops}
BINARY = [op for ops in LEVELS[:15] for op in ops if op not in ('not', '~', 'UNITOP', 'ASSIGNUNIT', 'IM', 'then')]
PREFIX = ('not', '~')
TOP = len(LEVELS) + 1


class Malformed(Exception):
    pass


class P:

    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def primary(self, min_level):
        t = self.peek()
        if t is None:
            raise Malformed()
        if t in PREFIX:
            if min_level > LV[t]:
                raise Malformed()      # a prefix operator cannot be the operand of something that binds tighter
            self.i += 1
            return '(%s %s)' % (t, self.expr(LV[t]))
        if t in LV or t == 'else':
            raise Malformed()
        self.i += 1
        return t

    def expr(self, min_level):
        left = self.primary(min_level)
        while True:
            t = self.peek()
            if t is None or t == 'else':
                return left
            if t == 'then':
                if LV[t] < min_level:
                    return left
                self.i += 1
                a = self.expr(LV[t] + 1)
                if self.peek() != 'else':
                    raise Malformed()
                self.i += 1
                b = self.expr(LV[t] + 1)
                left = '(%s then %s else %s)' % (left, a, b)
            elif t in LV and t not in PREFIX:
                if LV[t] < min_level:
                    return left
                self.i += 1
                left = '(%s %s %s)' % (left, t, self.expr(LV[t] + 1))
            else:
                if LV['IM'] < min_level:
                    return left
                left = '(%s %s)' % (left, self.expr(LV['IM'] + 1))


def group(toks):
    p = P(toks)
    r = p.expr(0)
    if p.i != len(toks):
        raise Malformed()
    return r


def compare(toks, rec, preset='Computing', setup=''):
    expr = ' '.join(toks)
    c = calc.shared(preset)
    try:
        want_expr = group(toks)
    except Malformed:
        got = calc.obs1(c, expr)
        rec.step()
        rec.state(('malformed', got))
        rec.check(got == ('err',), 'malformed sequence', 'error', got)
        rec.trace()
        return None
    want = calc.obs1(c, want_expr)
    got = calc.obs1(c, expr)
    rec.step(2)
    rec.trace()
    rec.state(want)
    rec.check(got == want, 'grouping as ' + want_expr, want, got)
    return want


OPERANDS = [['7', '2', '3', '5'], ['2', '3', '2', '2'], ['3', '5', '2', '4'], ['true', 'false', 'true', 'false'],
            ['5', 'true', '2', 'true'], ["'b'", "'a'", '2', '3'], ['false', '6', '3', '1']]
DATE_OPERANDS = [["'2020-01-01'", '(1 day)', '(2 hours)', '3'], ['2', "'2020-01-01'", '(1 day)', '4']]


def gen_pairs(tier):
    for o1, o2 in itertools.product(BINARY, BINARY):
        for vs in OPERANDS + (DATE_OPERANDS if '%' in (o1 + o2) else []):
            yield [vs[0], o1, vs[1], o2, vs[2]]


def case_pairs(case, rec):
    w = compare(case, rec)
    if w is None:
        return
    a, o1, b, o2, c = case
    # how often the two possible groupings can be told apart (evidence that the comparison is not vacuous)
    l = calc.obs1(calc.shared(), '((%s %s %s) %s %s)' % (a, o1, b, o2, c))
    r = calc.obs1(calc.shared(), '(%s %s (%s %s %s))' % (a, o1, b, o2, c))
    rec.step(2)
    if l != r:
        rec.state(('discriminates', o1, o2))


def gen_triples(tier):
    reps = [ops[:2] if tier == 'quick' else ops[:4] for ops in LEVELS[:15]]
    ops = [o for r in reps for o in r if o in BINARY]
    for o in itertools.product(ops, repeat=3):
        for vs in OPERANDS[:3] + OPERANDS[4:6]:
            yield [vs[0], o[0], vs[1], o[1], vs[2], o[2], vs[3]]


def case_seq(case, rec):
    compare(case, rec)


def gen_prefix(tier):
    ops = ['^', '*', '-', '+$', '<<', '<', '==', '==$', '&', '|', 'and', 'xor', '=~', '%']
    pres = [[], ['not'], ['~'], ['not', 'not'], ['~', '~'], ['not', '~']]
    for vs in OPERANDS[:1] + OPERANDS[3:5]:
        for o in ops:
            for p in itertools.product(pres, repeat=2):
                yield p[0] + [vs[0], o] + p[1] + [vs[1]]
        for o in itertools.product(ops, repeat=2):
            for p in itertools.product(pres[:3], repeat=3):
                yield p[0] + [vs[0], o[0]] + p[1] + [vs[1], o[1]] + p[2] + [vs[2]]


def gen_implicit(tier):
    ops = ['^', '*', '/', '+', '-', '%', '\\', '<<', '<', '==', '&', '+$', 'IM']
    vs = ['(7)', '(2)', '(3)', '(5)']
    for n in (1, 2, 3):
        for o in itertools.product(ops, repeat=n):
            if 'IM' in o:
                toks = [vs[0]]
                for k, x in enumerate(o):
                    toks += ([] if x == 'IM' else [x]) + [vs[k + 1]]
                yield toks
                yield ['2'] + toks[1:]      # a literal may start the sequence
                if n < 3:
                    yield ['~'] + toks
                    yield toks[:1] + ['~'] + toks[1:] if len(toks) > 1 and toks[1].startswith('(') else ['12'] + toks[1:]


def gen_ternary(tier):
    ops = ['+', '*', '==', '<', 'and', 'or', '&', '+$', '^', 'IM']

    def side(n, vals):
        if n == '':
            return [vals[0]]
        return [vals[0]] + ([] if n == 'IM' else [n]) + [vals[1]]

    choices = [''] + ops
    for a, b, c in itertools.product(choices, repeat=3):
        for cond in (['true', '(true)'], ['2', '(3)'], ['false', '(2)']):
            yield side(a, cond) + ['then'] + side(b, ['7', '(2)']) + ['else'] + side(c, ['11', '(5)'])
    # chains and nestings
    for cs in itertools.product(['true', 'false', '1'], repeat=3):
        yield [cs[0], 'then', '1', 'else', cs[1], 'then', '2', 'else', '3']
        yield [cs[0], 'then', cs[1], 'else', cs[2], 'then', '2', 'else', '3']
        yield [cs[0], 'then', cs[1], 'then', '1', 'else', '2', 'else', '3']
        yield [cs[0], 'then', '(' + ' '.join([cs[1], 'then', '1', 'else', '2']) + ')', 'else', '3']
        yield ['not', cs[0], 'then', cs[1], 'else', 'not', cs[2]]
        for o in ops:
            yield [cs[0], 'and', cs[1], 'then', '5', 'else', '6'] + ([] if o == 'IM' else [o]) + ['(2)']
        yield [cs[0], 'then', '255', 'else', '7', 'as', 'hexadecimal']
        yield [cs[0], 'then', '(5 meters)', 'else', '(7 feet)', 'to', 'inches']


def gen_malformed(tier):
    toks = ['5', '(2)', '+', '*', '^', '~', 'not', 'then', 'else', 'true', '-3', 'and']
    lens = (1, 2, 3, 4) if tier == 'quick' else (1, 2, 3, 4, 5)
    for n in lens:
        for s in itertools.product(toks, repeat=n):
            # a bare literal directly after an operand is a lexical question, not a grouping one
            if any(s[i + 1] in ('5', 'true') and not _op(s[i]) for i in range(n - 1)):
                continue
            if any(s[i + 1] == '-3' and not _op(s[i]) for i in range(n - 1)):
                continue
            yield list(s)


def _op(t):
    return t in LV or t == 'else'


def gen_assign(tier):
    for sym in ('=', '+=', '-=', '*=', '/=', '^=', '%=', '\\=', '||='):
        for o1 in BINARY + ['IM', 'then']:
            for vs in OPERANDS[:5]:
                if o1 == 'then':
                    yield [sym, ['true', 'then', vs[0], 'else', vs[1]]]
                elif o1 == 'IM':
                    yield [sym, [vs[0], '(%s)' % vs[1]]]
                else:
                    yield [sym, [vs[0], o1, vs[1]]]
                    yield [sym, ['~', vs[0], o1, vs[1]]]


def case_assign(case, rec):
    sym, toks = case
    try:
        grouped = group(toks)
    except Malformed:
        grouped = None
    outs = []
    for rhs in (' '.join(toks), grouped):
        if rhs is None:
            continue
        c = calc.shared()
        calc.run(c, 'x = 100')
        o = calc.obs1(c, 'x %s %s' % (sym, rhs))
        outs.append((o, calc.obs1(c, 'x')))
        rec.step(3)
    rec.state((case[0], outs[-1]))
    rec.trace()
    rec.check(len(outs) < 2 or outs[0] == outs[1], 'assignment of %s' % grouped, outs[-1], outs[0])
    # an assignment inside an expression needs parentheses: 1 + x = 2 assigns to nothing
    c = calc.shared()
    calc.run(c, 'x = 100')
    o = calc.obs1(c, '1 + x %s %s' % (sym, ' '.join(toks)))
    rec.step(2)
    rec.check(o == ('err',) and calc.obs1(c, 'x') == ('ok', ('n', '100'), None), 'assignment to a sum', 'error and x unchanged',
              [o, calc.obs1(c, 'x')])


def gen_long(tier):
    """longer chains: an operator, one different operator at one place, and stacked prefix operators at one place"""
    ops = ['^', '*', '-', '+$', '<<', '<', '==', '&', '|', 'and', 'xor']
    lens = (5, 6, 8, 11) if tier == 'quick' else (5, 6, 7, 8, 9, 11, 14, 18)
    for n in lens:
        for o1, o2 in itertools.product(ops, repeat=2):
            if {o1, o2} in ({'<<', '+$'}, {'<<', '*'}, {'<<', '^'}, {'^', '+$'}):
                continue                    # astronomically large results
            for vs in (['7', '2', '3', '5', '1'], ['true', 'true', 'false', 'true', '3']):
                for at in (range(1, n) if tier != 'quick' else sorted({1, 2, n // 2, n - 1})):
                    toks = [vs[0]]
                    for k in range(1, n):
                        toks += [o2 if k == at else o1, vs[k % 5]]
                    if o1 not in ('^', '<<') or n < 7 or vs[1] == 'true':
                        yield toks
            if o1 == '^':
                continue
            for pre in (['not'], ['not', 'not'], ['~', '~'], ['not', '~', 'not']):
                for at in (0, 1, n - 1):
                    toks = []
                    for k in range(n):
                        toks += ([o2 if k == 2 else o1] if k else []) + (pre if k == at else []) + [['true', '7', 'false'][k % 3]]
                    yield toks


# --- units: grouping depends on which operands are units ------------------------------------------------------------------

def gen_units(tier):
    toks = ['6', '(4)', 'meters', 'seconds', '/', '*', '^ 2', '+'] if tier == 'quick' else \
        ['6', '(4)', 'meters', 'seconds', 'kilograms', '/', '*', '^ 2', '+', '-']
    for n in range(2, 7 if tier == 'quick' else 7):
        for s in itertools.product(toks, repeat=n):
            if s[0] in ('/', '*', '^ 2', '+', '-') or s[-1] in ('/', '*', '+', '-'):
                continue
            ok = True
            for i in range(n - 1):
                if s[i] in ('/', '*', '+', '-') and s[i + 1] in ('/', '*', '+', '-', '^ 2'):
                    ok = False
                if s[i + 1] == '6' and s[i] not in ('/', '*', '+', '-'):
                    ok = False
            if ok and any(t in ('meters', 'seconds', 'kilograms') for t in s):
                yield list(s)


def group_units(toks):
    items = [(t, 'op' if t in ('/', '*', '^ 2', '+', '-') else 'u' if t.isalpha() else 'v') for t in toks]

    def sweep(match):
        i = 0
        while i < len(items):
            m = match(i)
            if m:
                return m
            i += 1
        return None

    def kinds(i, *ks):
        return i >= 0 and i + len(ks) <= len(items) and all(
            (items[i + j][1] == k or (k not in ('op', 'u', 'v', 'x') and items[i + j][0] == k) or
             (k == 'x' and items[i + j][1] in 'uv')) for j, k in enumerate(ks))

    rules = [
        (lambda i: kinds(i, 'x', '^ 2'), 2, lambda a: ('(%s ^ 2)' % a[0][0], a[0][1])),
        (lambda i: kinds(i, 'u', 'u') , 2, lambda a: ('(%s %s)' % (a[0][0], a[1][0]), 'u')),
        (lambda i: kinds(i, 'u', '/', 'u'), 3, lambda a: ('(%s / %s)' % (a[0][0], a[2][0]), 'u')),
        (lambda i: kinds(i, 'v', 'u'), 2, lambda a: ('(%s %s)' % (a[0][0], a[1][0]), 'v')),
        (lambda i: kinds(i, 'x', 'v'), 2, lambda a: ('(%s %s)' % (a[0][0], a[1][0]), 'v')),
        (lambda i: kinds(i, 'x', '*', 'x') or kinds(i, 'x', '/', 'x'), 3,
         lambda a: ('(%s %s %s)' % (a[0][0], a[1][0], a[2][0]), 'u' if a[0][1] == a[2][1] == 'u' else 'v')),
        (lambda i: kinds(i, 'x', '+', 'x') or kinds(i, 'x', '-', 'x'), 3,
         lambda a: ('(%s %s %s)' % (a[0][0], a[1][0], a[2][0]), 'v')),
    ]
    # rules 2 and 3 share one level (leftmost first)
    levels = [[0], [1, 2], [3], [4], [5], [6]]
    while len(items) > 1:
        for lvl in levels:
            hit = None
            for i in range(len(items)):
                for r in lvl:
                    if rules[r][0](i):
                        hit = (i, r)
                        break
                if hit:
                    break
            if hit:
                i, r = hit
                items[i:i + rules[r][1]] = [rules[r][2](items[i:i + rules[r][1]])]
                break
        else:
            raise Malformed()
    return items[0][0]


def case_units(case, rec):
    c = calc.shared('Scientific')
    expr = ' '.join(case)
    got = calc.obs1(c, expr)
    rec.step()
    try:
        g = group_units(case)
    except Malformed:
        rec.check(got == ('err',), 'malformed unit expression', 'error', got)
        return
    want = calc.obs1(c, g)
    rec.step()
    rec.state(want)
    rec.trace()
    if cancels(g) and quantity(want):
        # units that cancel out in parentheses are a number there, but still units in the bare text: the quantity is the same
        rec.check(quantity(got) == quantity(want) or UNIT_VALUE.search(g) and got == ('err',), 'grouping as ' + g, want, got)
    else:
        rec.check(got == want, 'grouping as ' + g, want, got)


UNIT_VALUE = re.compile(r'(meters|seconds|kilograms|\)) \(+4\)')


class Dim(dict):

    def __mul__(self, other):
        return Dim({k: self.get(k, 0) + other.get(k, 0) for k in {**self, **other}})

    def __truediv__(self, other):
        return self * other ** -1

    def __pow__(self, n):
        return Dim({k: v * n for k, v in self.items()})


def cancels(g):
    """does a parenthesised group inside the text hold only units, which cancel each other out?"""
    for i in range(len(g)):
        if g[i] != '(':
            continue
        depth = 0
        for j in range(i, len(g)):
            depth += (g[j] == '(') - (g[j] == ')')
            if depth == 0:
                break
        sub = g[i:j + 1]
        if i == 0 or '+' in sub or '-' in sub or re.search(r'(?<!\^ )\d', sub):
            continue
        text = re.sub(r'([a-z)]|\^ 2) (?=[a-z(])', r'\1 * ', sub).replace('^', '**')
        dim = eval(text, {'meters': Dim(m=1), 'seconds': Dim(s=1), 'kilograms': Dim(kg=1)})
        if not any(dim.values()):
            return True
    return False


def quantity(obs):
    if obs[0] != 'ok' or obs[1][0] not in 'nu':
        return None
    units = dict(obs[1][1] if obs[1][0] == 'u' else obs[2] or ())
    if 'hertz' in units:
        units['seconds'] = str(-int(units.pop('hertz')))
    return obs[1][1] if obs[1][0] == 'n' else '1', sorted(units.items())


SPACES = [
    Space('operator-pairs', gen_pairs, case_pairs, 'all ordered pairs of the %d binary operators x operand tuples' % len(BINARY)),
    Space('operator-triples', gen_triples, case_seq, 'all triples of representatives of every level x operand tuples'),
    Space('prefix', gen_prefix, case_seq, 'prefix operators at every operand position'),
    Space('long', gen_long, case_seq, 'chains of up to 11 operands with one differing operator and stacked prefix operators'),
    Space('implicit', gen_implicit, case_seq, 'implicit multiplication at every position'),
    Space('ternary', gen_ternary, case_seq, 'conditionals with operators in every branch, chains and nestings'),
    Space('assignment', gen_assign, case_assign, 'assignment operators with every operator on the right, and on the left'),
    Space('malformed', gen_malformed, case_seq, 'all token sequences up to the length: well-formed ones group, others are refused'),
    Space('units', gen_units, case_units, 'all sequences of numbers, units and operators up to length 5'),
]
