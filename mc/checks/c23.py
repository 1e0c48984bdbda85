"""C23 Operations run exactly on the arguments they declare.

Oracles written here from the documented signatures: a table of what every built-in function and operator takes, and a model of
how a definition's declared kinds, counts and units decide which calls its implementation gets. The implementation of a function
or operator defined for the check is a spy, so what reaches it is observed directly.
"""
import itertools
from fractions import Fraction

from mc.core import Space
from mc import calc
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.objects.exceptions import CalculatorException
from modularcalculator.objects.number import Number
from modularcalculator.objects.operators import OperationResult, OperatorDefinition

ASSUMPTIONS = ['a definition gives its signature through FunctionDefinition/OperatorDefinition and add_value_restriction/add_unit_restriction',
               'lengths, times and speeds stand for all units (C10 and C12 cover the conversions themselves)']

SETUP = ["v_ = 1", "a_ = [1, 2]", "d5_ = 5 days", "d3_ = 3 days", "d2_ = 2 days"]

# ------------------------------------------------------------------ the kinds of argument
# name -> (expression, value): values ('n', number, base) ('s', text) ('b', bool) ('f', text) ('u', unit) ('none',) ('a', [elements]) ('err',)
N, S, B, U, F, A, NONE, ERR = 'n', 's', 'b', 'u', 'f', 'a', 'none', 'err'


def n(x):
    return (N, Fraction(x))


def el(v, unit=None):
    return (v, unit)


M, FT, SEC, MIN, MPS, M2 = (('meters', 1),), (('feet', 1),), (('seconds', 1),), (('minutes', 1),), (('meters', 1), ('seconds', -1)), (('meters', 2),)
# unit -> (factor to the base unit, dimensions)
UNITS = {M: (Fraction(1), ('distance', 1)), FT: (Fraction(3048, 10000), ('distance', 1)), SEC: (Fraction(1), ('time', 1)),
         MIN: (Fraction(60), ('time', 1)), MPS: (Fraction(1), ('distance', 1, 'time', -1)), M2: (Fraction(1), ('distance', 2))}

KINDS = {
    'num': ('1', el(n(1))),
    'hex': ('0x3', el(n(3))),
    'm': ('2 metres', el(n(2), M)),
    'ft': ('4 feet', el(n(4), FT)),
    's': ('6 seconds', el(n(6), SEC)),
    'min': ('3 minutes', el(n(3), MIN)),
    'mps': ('5 metres / second', el(n(5), MPS)),
    'm2': ('7 metres^2', el(n(7), M2)),
    'numstr': ("'1'", el((S, '1'))),
    'str': ("'ab'", el((S, 'ab'))),
    'date': ("'2020-01-02'", el((S, '2020-01-02'))),
    'bool': ('true', el((B, True))),
    'fn': ('{PARAM1}', el((F, '{PARAM1}'))),
    'unit': ('metre', el((U, M))),
    'rep': ('hexadecimal', el((S, 'hexadecimal'))),
    'sys': ('si', el((S, 'si'))),
    'undef': ('nosuch_', el((NONE,))),
    'var': ('v_', el(n(1))),
    'avar': ('a_', el((A, [el(n(1)), el(n(2))]))),
    'nums': ('[1, 2]', el((A, [el(n(1)), el(n(2))]))),
    'nums3': ('[4, 5, 6]', el((A, [el(n(4)), el(n(5)), el(n(6))]))),
    'strs': ("['a', 'b']", el((A, [el((S, 'a')), el((S, 'b'))]))),
    'bools': ('[true, false]', el((A, [el((B, True)), el((B, False))]))),
    'mixed': ("[1, 'a']", el((A, [el(n(1)), el((S, 'a'))]))),
    'numstrs': ("['3', 2]", el((A, [el((S, '3')), el(n(2))]))),
    'lens': ('[2 metres, 4 feet]', el((A, [el(n(2), M), el(n(4), FT)]))),
    'bad': ('[2 metres, 3 seconds]', el((A, [el(n(2), M), el(n(3), SEC)]))),
    'one': ('[9]', el((A, [el(n(9))]))),
    'fail': ('1 / 0', el((ERR,))),
}
REFS = {'v_': 'v_', 'a_': 'a_', 'nosuch_': 'nosuch_'}


def numeric(v):
    return v[0] in (N, B) or v[0] == S and v[1] in ('1', '3')


def number_of(v):
    return v[1] if v[0] == N else Fraction(int(v[1]))


def accepts(kind, arg):
    """whether an argument is of a declared kind"""
    v, unit, ref = arg
    if kind is None:
        return True
    main, sub = (kind[:-1].split('[') + [None])[:2] if kind.endswith(']') else (kind, None)
    if main == 'array':
        return v[0] == A and (sub is None or all(accepts(sub, (e[0], e[1], None)) for e in v[1]))
    if main == 'number':
        return numeric(v)
    if main == 'string':
        return v[0] not in (NONE, A)
    if main == 'boolean':
        return v[0] == B
    if main == 'date':
        return v == (S, '2020-01-02')
    if main == 'unit':
        return v[0] == U
    if main == 'variable':
        return ref is not None
    if main == 'number with unit':
        return numeric(v) and unit is not None
    if main == 'unitsystem':
        return v == (S, 'si')
    if main == 'numericalrepresentation':
        return v == (S, 'hexadecimal')
    raise KeyError(kind)


class Refused(Exception):
    pass


class Spec:
    """A definition: counts, restrictions on kinds [(from, to, kinds)] and on units [(from, to, dimensions)], and whether its numbers share one unit"""

    def __init__(self, lo, hi, kinds, units=(), same=True):
        self.lo, self.hi, self.kinds, self.units, self.same = lo, hi, kinds, units, same

    def at(self, i):
        return [r[2] for r in self.kinds if i >= r[0] and (r[1] is None or i <= r[1])]

    def may(self, i, main):
        return any(main == str(k).split('[')[0] for r in self.at(i) for k in r)

    def only(self, i, main, sub=None):
        rs = self.at(i)
        return len(rs) > 0 and all(len(r) == 1 and str(r[0]).split('[')[0] == main and (sub is None or str(r[0]) == '%s[%s]' % (main, sub)) for r in rs)


def same_unit(elements):
    """numbers brought to the first one's unit"""
    first = elements[0][1] if elements else None
    if all(e[1] is None for e in elements):
        return elements, None
    out = []
    for i, (v, unit) in enumerate(elements):
        if i == 0 or unit == first:
            out.append((v, unit))
        elif unit is None or first is None or UNITS[unit][1] != UNITS[first][1]:
            raise Refused()
        else:
            out.append((n(v[1] * UNITS[unit][0] / UNITS[first][0]), first))
    return out, first


def model(spec, args, calls):
    """the result's shape: ('ok', unit) | ('arr', [...]) ; Refused when the call must fail; appends the calls the implementation gets"""
    spread = [i for i, (v, u, ref) in enumerate(args) if v[0] == A and not spec.may(i, 'array') and not (ref is not None and spec.may(i, 'variable'))]
    if spread:
        lengths = {len(args[i][0][1]) for i in spread}
        if len(lengths) > 1:
            raise Refused()
        out = []
        for k in range(lengths.pop()):
            row = [args[i][0][1][k] + (None,) if i in spread else args[i] for i in range(len(args))]
            try:
                out.append(model(spec, row, calls))
            except Refused:
                out.append(('err',))
        return ('arr', out)
    if spec.hi == 1 and spec.only(0, 'array') and len(args) > 1:
        lengths = {len(v[1]) for v, u, ref in args if v[0] == A}
        if len(lengths) > 1:
            raise Refused()
        rows = lengths.pop() if lengths else 1
        out = []
        for k in range(rows):
            row = (A, [v[1][k] if v[0] == A else (v, u) for v, u, ref in args])
            out.append(model(spec, [(row, None, None)], calls))
        return ('arr', out) if any(v[0] == A for v, u, ref in args) else out[0]
    if any(v[0] == ERR for v, u, ref in args):
        raise Refused()
    if spec.lo is not None and len(args) < spec.lo or spec.hi is not None and len(args) > spec.hi:
        raise Refused()
    for i, arg in enumerate(args):
        for kinds in spec.at(i):
            if not any(accepts(k, arg) for k in kinds):
                raise Refused()
    for fro, to, dims in spec.units:
        for i, (v, u, ref) in enumerate(args):
            if i >= fro and (to is None or i <= to) and (u is None or UNITS[u][1] != tuple(dims)):
                raise Refused()
    got = []
    for i, (v, u, ref) in enumerate(args):
        if any('number' in r for r in spec.at(i)) and numeric(v):
            v = n(number_of(v))
        got.append((v, u))
    unit = None
    if all(spec.may(i, 'number') and numeric(v) for i, (v, u) in enumerate(got)):
        if spec.same:
            got, unit = same_unit(got)
    else:
        for i, (v, u) in enumerate(got):
            if v[0] == A and spec.only(i, 'array', 'number'):
                elements = [(n(number_of(e[0])), e[1]) for e in v[1]]
                if spec.same:
                    elements, unit = same_unit(elements)
                got[i] = ((A, elements), u)
    calls.append([(obs(v), unit_text(u), ref) for (v, u), (_, _, ref) in zip(got, args)])
    return ('ok', unit_text(unit))


def unit_text(u):
    return None if u is None else tuple(sorted((name, str(p)) for name, p in u))


def obs(v):
    if v[0] == N:
        return (N, '%d/%d' % (v[1].numerator, v[1].denominator) if v[1].denominator != 1 else str(v[1].numerator))
    if v[0] == A:
        return (A, tuple((obs(e), unit_text(u)) for e, u in v[1]))
    if v[0] == U:
        return (U, unit_text(v[1]))
    return v


def shape(value, unit):
    """what a result looks like, to compare with the model's"""
    if isinstance(value, list):
        return ('arr', [shape(e.value, e.unit) for e in value])
    if isinstance(value, Exception):
        return ('err',)
    return ('ok', calc.unit_obs(unit))


_calculators = {}


def calculator():
    if 'c' not in _calculators:
        c = calc.new('Computing')
        for line in SETUP:
            calc.run(c, line)
        _calculators['c'] = c
    return _calculators['c']


def plain(c):
    return {k: (calc.val_obs(v[0]), calc.unit_obs(v[1])) for k, v in c.vars.items()}


SEEN = []


def spy(self, vals, units, refs, flags):
    SEEN.append([(calc.val_obs(v), calc.unit_obs(u), getattr(r, 'var', None)) for v, u, r in zip(vals, units, refs)])
    return OperationResult(Number(7))


def arg(kind):
    text, (v, u) = KINDS[kind]
    return (v, u, REFS.get(text))


def judge(rec, c, spec, expr, kinds, name):
    before = plain(c)
    calls = []
    try:
        if 'fail' in kinds and expr.startswith('spyf('):
            raise Refused()                     # a function's failing argument fails the call; an operator's can be confined to elements
        want = model(spec, [arg(k) for k in kinds], calls)
    except Refused:
        want = ('refused',)
    del SEEN[:]
    o = calc.run(c, expr)
    rec.step()
    what = '%s where %s takes %s' % (expr, name, describe(spec))
    rec.check(plain(c) == before, what + ': variables unchanged', before, plain(c))
    if want == ('refused',):
        if not o.err():
            rec.bad(what, 'an error', str(o.obs()))
            return
        if 'fail' not in kinds and not any(k in ARRAYS for k in kinds):
            rec.check(SEEN == [], what + ': implementation not run', [], SEEN)
            rec.check(name in o.message, what + ': the error names it', name, o.message)
        return
    if not o.ok():
        rec.bad(what, str(want), '%s %s' % (o.kind, o.message))
        return
    r = o.last()
    got = shape(r.value, r.unit)
    rec.check(SEEN == calls, what + ': the calls made', calls, list(SEEN))
    rec.check(got == want, what + ': result', want, got)
    rec.trace()


ARRAYS = {k for k, (t, (v, u)) in KINDS.items() if v[0] == A}


def describe(spec):
    return '%s..%s %s %s%s' % (spec.lo, spec.hi, spec.kinds, list(spec.units), '' if spec.same else ' raw')


def define(c, spec):
    f = FunctionDefinition('Own', 'spyf', '', ['a', '[b]'], spy, spec.lo, spec.hi)
    for fro, to, kinds in spec.kinds:
        f.add_value_restriction(fro, to, list(kinds))
    for fro, to, dims in spec.units:
        f.add_unit_restriction(fro, to, list(dims))
    f.units_normalise = spec.same
    c.funcs['spyf'] = f


def call(kinds):
    return 'spyf(%s)' % ', '.join(KINDS[k][0] for k in kinds)


def to_spec(s):
    lo, hi, kinds, units, same = s
    return Spec(lo, hi, [tuple(k[:2]) + (tuple(k[2]),) for k in kinds], [tuple(u[:2]) + (tuple(u[2]),) for u in units], same)


def case_defined(case, rec):
    c = calculator()
    spec = to_spec(case['spec'])
    define(c, spec)
    try:
        for kinds in arg_lists(case):
            judge(rec, c, spec, call(kinds), kinds, 'spyf')
    finally:
        del c.funcs['spyf']


def arg_lists(case):
    spec = to_spec(case['spec'])
    for k in case['counts']:
        for kinds in itertools.product(case['pool'], repeat=k):
            if not left_open(spec, kinds):
                yield kinds


def left_open(spec, kinds):
    """an array that is no variable where only a variable is declared: refused or spread, left open"""
    return any(spec.may(i, 'variable') and not spec.may(i, 'array') and p in ARRAYS and p != 'avar' for i, p in enumerate(kinds))


TYPES = [None, 'number', 'string', 'boolean', 'array', 'array[number]', 'array[string]', 'array[boolean]', 'date', 'unit', 'variable',
         'number with unit', 'unitsystem', 'numericalrepresentation']
ALL = list(KINDS)


def gen_one(tier):
    alternatives = [[t] for t in TYPES] + [list(p) for p in itertools.combinations(TYPES, 2)]
    if tier != 'quick':
        alternatives += [list(p) for p in itertools.combinations(TYPES, 3)]
    for types in alternatives:
        for fro, to in ((0, None), (0, 0)):
            yield {'spec': [1, 1, [[fro, to, types]], [], True], 'pool': ALL, 'counts': [0, 1]}
        yield {'spec': [1, 1, [[0, None, types]], [], True], 'pool': SOME2 if tier == 'quick' else ALL, 'counts': [2]}
    for types in [[t] for t in TYPES]:
        for same in (True, False):
            yield {'spec': [None, None, [[0, None, types]], [], same], 'pool': SOME2 if tier == 'quick' else ALL, 'counts': [0, 2]}
            yield {'spec': [2, None, [[0, None, types]], [], same], 'pool': FEW, 'counts': [1, 2, 3]}
            yield {'spec': [None, 2, [[0, None, types]], [], same], 'pool': FEW, 'counts': [0, 1, 3]}
            yield {'spec': [1, 3, [[0, 0, types], [2, None, types]], [], same], 'pool': FEW, 'counts': [1, 2, 3]}
            yield {'spec': [1, 3, [[1, None, types]], [], same], 'pool': FEW, 'counts': [1, 2, 3]}
            yield {'spec': [1, 1, [[0, 0, types]], [], same], 'pool': FEW, 'counts': [3] if tier == 'quick' else [3, 4]}


SOME2 = ['num', 'm', 'ft', 's', 'numstr', 'str', 'bool', 'unit', 'var', 'undef', 'avar', 'nums', 'nums3', 'strs', 'mixed', 'lens', 'bad', 'one', 'fail']
FEW = ['num', 'm', 'ft', 'str', 'bool', 'var', 'nums', 'strs', 'nums3']
PAIR = [['number'], ['string'], ['boolean'], ['array'], ['array[number]'], ['variable'], ['unit'], ['number with unit'], ['number', 'array'], ['number', 'unit'], [None]]


def gen_two(tier):
    pool = ['num', 'hex', 'm', 'ft', 'numstr', 'str', 'bool', 'unit', 'var', 'undef', 'avar', 'nums', 'strs', 'lens', 'one']
    for first, second in itertools.product(PAIR, PAIR):
        for lo, hi in ((2, 2), (1, 2), (None, None)) if tier != 'quick' else ((1, 2),):
            yield {'spec': [lo, hi, [[0, 0, first], [1, 1, second]], [], True], 'pool': pool, 'counts': [0, 1, 2]}
        yield {'spec': [2, 2, [[0, 0, first], [1, 1, second]], [], True], 'pool': ['num', 'm', 'nums', 'str'], 'counts': [1, 2, 3]}
        # two declarations about the same parameter must both hold
        yield {'spec': [2, 2, [[0, None, first], [1, 1, second]], [], True], 'pool': ['num', 'm', 'ft', 'str', 'var', 'avar', 'nums', 'lens', 'unit'], 'counts': [2]}


def gen_three(tier):
    types = [['number'], ['string'], ['array'], ['array[number]']] + ([['boolean'], ['variable'], ['unit']] if tier != 'quick' else [])
    pool = ['num', 'm', 'ft', 'numstr', 'str', 'var', 'nums', 'strs'] + (['avar', 'lens', 'bool'] if tier != 'quick' else [])
    for a, b, d in itertools.product(types, repeat=3):
        yield {'spec': [2, 3, [[0, 0, a], [1, 1, b], [2, 2, d]], [], True], 'pool': pool, 'counts': [3]}
    for a, b in itertools.product(types, repeat=2):
        yield {'spec': [2, 3, [[0, 1, a], [2, 2, b]], [], True], 'pool': pool, 'counts': [2, 3]}


def gen_units(tier):
    pool = ['num', 'm', 'ft', 's', 'min', 'mps', 'm2'] + (['lens', 'bad', 'numstr', 'str'] if tier != 'quick' else ['lens', 'str'])
    dims = [['distance', 1], ['time', 1], ['distance', 1, 'time', -1], ['time', -1, 'distance', 1], ['distance', 2], ['velocity', 1], ['area', 1], ['velocity', 1, 'time', 1]]
    kinds = [[0, None, ['number']]]
    for same in (True, False):
        for d in dims:
            for fro, to in ((0, None), (0, 0), (1, 1), (1, None)):
                d_ = sorted_dims(d)
                yield {'spec': [1, 2, kinds, [[fro, to, d_]], same], 'pool': pool, 'counts': [1, 2], 'dims': d}
        for d, e in itertools.product(dims[:3] if tier == 'quick' else dims, repeat=2):
            yield {'spec': [1, 3, kinds, [[0, 0, sorted_dims(d)], [1, 1, sorted_dims(e)]], same], 'pool': pool, 'counts': [2, 3]}
    for d in dims[:2]:
        for t in (['number with unit'], ['number', 'string'], [None]):
            yield {'spec': [1, 2, [[0, None, t]], [[0, None, d]], True], 'pool': pool, 'counts': [1, 2]}


DERIVED = {'velocity': {'distance': 1, 'time': -1}, 'area': {'distance': 2}}


def sorted_dims(d):
    total = {}
    for i in range(0, len(d), 2):
        for name, p in DERIVED.get(d[i], {d[i]: 1}).items():
            total[name] = total.get(name, 0) + p * d[i + 1]
    return [x for p in sorted(total.items()) if p[1] for x in p]


def case_units(case, rec):
    c = calculator()
    spec = to_spec(case['spec'])
    define(c, spec)
    if 'dims' in case:                          # declared in the order given, compared in a canonical one
        f = c.funcs['spyf']
        define(c, Spec(spec.lo, spec.hi, spec.kinds, [(u[0], u[1], tuple(case['dims'])) for u in spec.units], spec.same))
    try:
        for kinds in arg_lists(case):
            judge(rec, c, spec, call(kinds), kinds, 'spyf')
    finally:
        del c.funcs['spyf']


# ------------------------------------------------------------------ operators a program defines

# name -> (left operands and words, right operands and words)
FORMS = {
    'prefix': ([], [1]), 'postfix': ([1], []), 'binary': ([1], [1]), 'two words': ([1], [1, 'otherwise', 1]), 'word before': ([1, 'with', 1], [1]),
    'word each side': ([1, 'with', 1], [1, 'otherwise', 1]), 'leading word': ([], ['from', 1, 'upto', 1]), 'two before': ([1, 'with', 1], []),
}
PLAIN = ('1 / 0', '5 metres / second', '7 metres^2')


def bare(kind):
    text = KINDS[kind][0]
    return '(%s)' % text if text in PLAIN else text


def op_text(form, sym, operands):
    left, right = FORMS[form]
    out, k = [], 0
    for part in left + [sym] + right:
        if part == 1:
            out.append(operands[k])
            k += 1
        else:
            out.append(part)
    return ' '.join(out)


def op_calculator(sym, form, types, place, rtl=None, same=True, ref=spy):
    c = calc.new('Computing')
    for line in SETUP:
        calc.run(c, line)
    at, how = place
    levels = [i for i, level in enumerate(c.op_map) if at in level]
    if how == 'in':
        c.op_map[levels[0]].add(sym)
    else:
        c.op_map.insert(levels[0] + (1 if how == 'after' else 0), {sym})
    left, right = FORMS[form]
    op = OperatorDefinition('Own', sym, '', ref, list(left), list(right), types)
    op.units_normalise = same
    c.add_op(op, None if rtl is None else {'rtl': rtl})
    c.setup()
    return c


def gen_operands(tier):
    one = [t for t in TYPES]
    pool1 = [k for k in ALL]
    pool2 = ['num', 'hex', 'm', 'ft', 's', 'numstr', 'str', 'bool', 'var', 'undef', 'avar', 'nums', 'strs', 'lens', 'fail']
    pool3 = ['num', 'm', 'str', 'nums', 'fail', 'var']
    for sym in ('@@', 'wop'):
        for t in one:
            for form in ('prefix', 'postfix'):
                yield {'form': form, 'sym': sym, 'types': t, 'pool': pool1, 'same': True}
            yield {'form': 'binary', 'sym': sym, 'types': t, 'pool': pool2, 'same': True}
        for t in ('number', 'string'):
            for form in FORMS:
                k = sum(1 for x in FORMS[form][0] + FORMS[form][1] if x == 1)
                yield {'form': form, 'sym': sym, 'types': t, 'pool': pool1 if k == 1 else pool2 if k == 2 else pool3, 'same': False}
    for form in ('two words', 'word before', 'word each side', 'leading word', 'binary'):
        k = sum(1 for x in FORMS[form][0] + FORMS[form][1] if x == 1)
        for types in itertools.product(*[['number', 'string', ['number', 'array'], 'array[number]'][:4 if k < 4 else 2]] * k):
            yield {'form': form, 'sym': '@@', 'types': list(types), 'pool': pool2 if k == 2 else pool3 if k == 3 else ['num', 'm', 'str'], 'same': True}


def case_operands(case, rec):
    form, sym, types = case['form'], case['sym'], case['types']
    c = op_calculator(sym, form, types, ('|', 'before'), same=case['same'])
    k = sum(1 for x in FORMS[form][0] + FORMS[form][1] if x == 1)
    if isinstance(types, list):
        kinds = [(i, i, tuple(t) if isinstance(t, list) else (t,)) for i, t in enumerate(types)]
    else:
        kinds = [(0, None, (types,))] if types is not None else []
    spec = Spec(k, k, kinds, (), case['same'])
    for pick in itertools.product(case['pool'], repeat=k):
        if left_open(spec, pick):
            continue
        judge(rec, c, spec, op_text(form, sym, [bare(p) for p in pick]), pick, sym)


SYMBOLS = ['@@', 'wop', '+@', '<=>']


def gen_words(tier):
    for form, (left, right) in FORMS.items():
        for sym in SYMBOLS[:2]:
            yield {'form': form, 'sym': sym}


def case_words(case, rec):
    """only the declared words in the declared places make the operator"""
    form, sym = case['form'], case['sym']
    c = op_calculator(sym, form, 'number', ('|', 'before'))
    left, right = FORMS[form]
    parts = left + [sym] + right
    values = iter('34567')
    right_text = [next(values) if p == 1 else p for p in parts]
    words = ['otherwise', 'with', 'from', 'upto', 'else', 'nosuch_', '+', ',']
    before = plain(c)
    for length in range(0, len(parts) + 2):
        slots = [[p, None] + (words if i and parts[i] not in ('9',) and isinstance(parts[i], str) and parts[i] != sym else []) for i, p in enumerate(right_text)]
        for pick in itertools.product(*slots):
            text = [p for p in pick if p is not None]
            if len(text) != length:
                continue
            expr = ' '.join(text)
            del SEEN[:]
            o = calc.run(c, expr)
            rec.step()
            complete = list(pick) == right_text
            if complete:
                rec.check(o.ok() and len(SEEN) == 1 and [v[0] for v in SEEN[0]] == [('n', p) for p in pick if p.isdigit()], expr + ' runs the operator once on its operands in order',
                          [p for p in pick if p.isdigit()], '%s %s' % (o.obs(), SEEN))
            elif sym in text:
                rec.check(SEEN == [] and not o.ok() and o.kind != 'crash', expr + ' is not the operator with its operands', 'an error, not run', '%s %s' % (o.obs(), SEEN))
    rec.check(plain(c) == before, 'variables unchanged', before, plain(c))


# where a defined operator groups

def grouping_tools():
    from mc.checks import c03
    return c03.LEVELS, c03.BINARY


def gen_groups(tier):
    levels, binary = grouping_tools()
    hidden = ('UNITOP', 'ASSIGNUNIT', 'IM', 'UNIT_MULTIPLY')
    for i, level in enumerate(levels[:15]):
        at = level[0]
        if at in hidden:
            continue
        places = [(at, 'before'), (at, 'after')] + ([(at, 'in')] if at not in ('then', 'not') else [])
        for place in places:
            for sym in SYMBOLS if tier != 'quick' or at in ('+', '*') else SYMBOLS[:2]:
                yield {'place': list(place), 'sym': sym, 'form': 'binary', 'rtl': None}
            if place[1] != 'in':
                yield {'place': list(place), 'sym': '@@', 'form': 'binary', 'rtl': True}
                yield {'place': list(place), 'sym': '@@', 'form': 'prefix', 'rtl': True}
                yield {'place': list(place), 'sym': 'wop', 'form': 'postfix', 'rtl': None}
    for i, level in enumerate(levels):
        if level[0] not in hidden:
            yield {'place': [level[0], 'in'], 'sym': '@@', 'form': 'prefix' if level[0] == 'not' else 'binary', 'rtl': level[0] != 'not', 'clash': True}


def op_ref(self, vals, units, refs, flags):
    SEEN.append([(calc.val_obs(v), calc.unit_obs(u)) for v, u in zip(vals, units)])
    if any(isinstance(v, bool) for v in vals):
        return OperationResult(not any(v is True for v in vals))
    if any(isinstance(v, str) for v in vals):
        return OperationResult('<' + '.'.join(str(v) if not isinstance(v, Number) else v.to_string(self) for v in vals) + '>')
    return OperationResult(sum((Number(k + 2) * v for k, v in enumerate(vals)), Number(1)))


def group(tokens, level_of, rtl_of):
    """operands and operators alternating -> fully parenthesised"""
    if len(tokens) == 1:
        return tokens[0]
    ops = tokens[1::2]
    lowest = min(level_of(o) for o in ops)
    at = [i for i, o in enumerate(ops) if level_of(o) == lowest]
    i = at[0] if rtl_of(ops[at[0]]) else at[-1]
    k = 2 * i + 1
    return '(%s) %s (%s)' % (group(tokens[:k], level_of, rtl_of), tokens[k], group(tokens[k + 1:], level_of, rtl_of))


def case_groups(case, rec):
    levels, binary = grouping_tools()
    place, sym, form, rtl = case['place'], case['sym'], case['form'], case['rtl']
    if case.get('clash'):
        try:
            op_calculator(sym, form, None, place, rtl, ref=op_ref)
            rec.bad('adding %s with rtl=%s beside %s' % (sym, rtl, place[0]), 'an error: the operators there group the other way', 'accepted')
        except CalculatorException:
            rec.step()
        return
    c = op_calculator(sym, form, None, place, rtl, ref=op_ref)
    count = len(levels)
    index = [i for i, level in enumerate(levels) if place[0] in level][0]
    own = {'in': count - index, 'before': count - index + 0.5, 'after': count - index - 0.5}[place[1]]

    def level_of(o):
        return own if o == sym else count - [i for i, level in enumerate(levels) if o in level][0]

    def rtl_of(o):
        return bool(rtl) and o == sym

    for other in binary:
        bools = other in ('and', 'or', 'xor')
        vs = ['true', 'false', 'true', 'false'] if bools else ["'2020-01-02'", 'd5_', 'd3_', 'd2_'] if other in ('+%', '-%') else ['7', '2', '3', '5']
        if form == 'prefix':
            tight = own >= level_of(other)
            exprs = [('%s %s %s %s' % (sym, vs[0], other, vs[1]), ('(%s %s) %s %s' if tight else '%s (%s %s %s)') % (sym, vs[0], other, vs[1])),
                     ('%s %s %s' % (sym, sym, vs[0]), '%s (%s %s)' % (sym, sym, vs[0]))]
        elif form == 'postfix':
            tight = own > level_of(other)
            exprs = [('%s %s %s %s' % (vs[0], other, vs[1], sym), ('%s %s (%s %s)' if tight else '(%s %s %s) %s') % (vs[0], other, vs[1], sym)),
                     ('%s %s %s' % (vs[0], sym, sym), '(%s %s) %s' % (vs[0], sym, sym))]
        else:
            exprs = []
            for ops in ((other, sym), (sym, other), (sym, sym), (sym, other, sym), (other, sym, other), (other, other, sym), (sym, sym, other)):
                tokens = [x for p in zip(vs, ops) for x in p] + [vs[len(ops)]]
                exprs.append((' '.join(tokens), group(tokens, level_of, rtl_of)))
        for expr, want in exprs:
            if ') ) ' in want:
                continue
            del SEEN[:]
            o = calc.run(c, want)
            wanted = (o.obs(), sorted(map(str, SEEN)))        # which operands met, whatever the order of evaluation
            del SEEN[:]
            o = calc.run(c, expr)
            rec.step()
            rec.trace()
            rec.check((o.obs(), sorted(map(str, SEEN))) == wanted, '%s with %s %s %s' % (expr, sym, place[1], place[0]), '%s: %s' % (want, wanted), (o.obs(), sorted(map(str, SEEN))))


# ------------------------------------------------------------------ the built-in functions and operators

# what each takes, from the documentation: N number, S string, B boolean, A array, AN/AS/AB array of them, D date, T a time, U unit,
# Q number with a unit, Y unit system, V variable, R numerical representation, W number or unit; ? may be left out; * the last may repeat;
# then whether its numbers must share a unit, then arguments it certainly accepts
SIGNATURES = {
    'abs': 'N', 'ceil': 'N N? own', 'floor': 'N N? own', 'round': 'N N? own', 'scientific': 'N N? own', 'exp': 'N', 'fact': 'N', 'log': 'N N? | 8 2', 'gcd': 'N N',
    'lcm': 'N N', 'bin': 'N', 'oct': 'N', 'dec': 'N', 'hex': 'N', 'base': 'N N | 5 3',
    'sin': 'N', 'cos': 'N', 'tan': 'N', 'sinh': 'N', 'cosh': 'N', 'tanh': 'N', 'asin': 'N', 'acos': 'N', 'atan': 'N', 'asinh': 'N', 'acosh': 'N', 'atanh': 'N | 0.5',
    'compact': 'Q', 'format': 'Q Y? own', 'concat': 'A A', 'count': 'A*', 'reverse': 'A*', 'element': 'A N', 'filter': 'A AB', 'join': 'AS S?',
    'max': 'AN*', 'min': 'AN*', 'sum': 'AN*', 'mean': 'AN*', 'median': 'AN*', 'mode': 'AN*', 'stdev': 'AN*', 'sort': 'AN*',
    'dateadd': 'D T own', 'datesubtract': 'D T own', 'datedifference': 'D D U?', 'dateformat': 'D own', 'now': '', 'reset': '', 'delete': 'V',
    'find': 'S S', 'length': 'S', 'lower': 'S', 'upper': 'S', 'lstrip': 'S S', 'rstrip': 'S S', 'strip': 'S S', 'replace': 'S S S', 'split': 'S S',
    'substr': 'S N N? | \'abcd\' 1 1', 'regexcount': 'S S', 'regexget': 'S S N? | \'xaby\' \'(ab)\' 1', 'regexsplit': 'S S', 'regexsub': 'S S S N?',
}
# the operand kinds of the operators; own: their numbers need not share a unit
OPERATORS = {
    'N N': ['%', '\\', '+', '-', '<<', '>>', '<', '<=', '>', '>=', '==', '!=', '&', '|', '^^'],
    'W W own': ['*', '/'],
    'S S': ['+$', '=~', '!~', '<$', '<=$', '>$', '>=$', '<~', '<=~', '>~', '>=~', '==$', '!=$', '==~', '!=~'],
    'S N': ['*$'], 'D T own': ['+%', '-%'], 'N R': ['as'], 'B B': ['and', 'or', 'xor'], 'Q U own | 2_metres metre': ['to'],
}
GOOD = {'N': '1', 'S': "'ab'", 'B': 'true', 'A': '[1, 2]', 'AN': '[1, 2]', 'AS': "['a', 'b']", 'AB': '[true, false]', 'D': "'2020-01-02'", 'T': '6 seconds', 'U': 'second',
        'Q': '2 metres', 'Y': 'si', 'V': 'v_', 'R': 'hexadecimal', 'W': '1'}
DECLARED = {'N': 'number', 'S': 'string', 'B': 'boolean', 'A': 'array', 'AN': 'array[number]', 'AS': 'array[string]', 'AB': 'array[boolean]', 'D': 'date', 'U': 'unit',
            'Q': 'number with unit', 'Y': 'unitsystem', 'V': 'variable', 'R': 'numericalrepresentation'}

# those whose values are limited further than their kinds
NARROW = ('acos', 'asin', 'atanh', 'base', 'log', 'element', 'format', 'datedifference', 'regexget', 'delete')


def signature(text):
    text, _, good = text.partition('|')
    parts = text.split()
    own = 'own' in parts
    parts = [p for p in parts if p != 'own']
    many = any(p.endswith('*') for p in parts)
    kinds = [p.strip('?*') for p in parts]
    least = sum(1 for p in parts if not p.endswith('?'))
    return kinds, least, many, own, [g.replace('_', ' ') for g in good.split()] or [GOOD[k] for k in kinds]


def special():
    """the special functions and how many numbers the library's take"""
    import scipy.special
    out = {}
    c = calculator()
    two = {'jvp', 'yvp', 'ivp', 'h1vp', 'h2vp', 'polygamma'}
    for name in c.funcs:
        if name.startswith('sp_'):
            parts = name[3:].split('_')
            for k in range(len(parts), 0, -1):
                base = '_'.join(parts[:k])
                f = getattr(scipy.special, base, None)
                if f is not None:
                    break
            count = getattr(f, 'nin', None)
            if count is None:
                count = 2 if base in two else 1
            out[name] = ' '.join(['N'] * count)
    return out


def fits(kind, arg):
    if kind == 'T':
        return numeric(arg[0]) and arg[1] is not None and UNITS[arg[1]][1] == ('time', 1)
    if kind == 'W':
        return accepts('number', arg) or accepts('unit', arg)
    return accepts(DECLARED[kind], arg)


PROBE = ['num', 'hex', 'm', 's', 'mps', 'numstr', 'str', 'date', 'bool', 'fn', 'unit', 'rep', 'sys', 'undef', 'var', 'avar', 'strs', 'bools', 'mixed', 'nums3', 'bad', 'fail']


def gen_builtin(tier):
    for name, sig in SIGNATURES.items():
        yield dict({'name': name, 'sig': sig}, **({'domain': True} if name in NARROW else {}))
    for name, sig in special().items():
        yield {'name': name, 'sig': sig, 'domain': True, 'pairs': PROBE if tier != 'quick' else ['num', 'm', 's', 'str', 'undef', 'nums3', 'unit']}
    for sig, ops in OPERATORS.items():
        for op in ops:
            yield {'op': op, 'sig': sig}
    yield {'count': True}


def shape_of(out):
    r = out.last()
    return shape(r.value, r.unit) if r is not None else None


def case_builtin(case, rec):
    c = calculator()
    if case.get('count'):
        rec.check(set(SIGNATURES) <= set(c.funcs), 'the documented functions exist', sorted(SIGNATURES), sorted(set(SIGNATURES) - set(c.funcs)))
        return
    kinds, least, many, own, good = signature(case['sig'])
    op = case.get('op')
    name = op or case['name']

    def write(args):
        if op:
            return '%s %s %s' % (args[0] if args[0] not in PLAIN else '(%s)' % args[0], op, args[1] if args[1] not in PLAIN else '(%s)' % args[1])
        return '%s(%s)' % (name, ', '.join(args))

    def restore():
        for line in SETUP:
            calc.run(c, line)

    def settle(expr, want, why):
        """want: True accepted, False refused, None open"""
        restore()
        before = plain(c)
        o = calc.run(c, expr)
        rec.step()
        rec.trace()
        if o.kind == 'crash':
            rec.bad(expr, 'a result or an error', repr(o.exc))
        elif want is False:
            rec.check(o.err(), '%s (%s)' % (expr, why), 'an error', o.obs())
            rec.check(plain(c) == before, expr + ': variables unchanged', before, plain(c))
            if o.err() and '1 / 0' not in expr and 'lengths' not in why:
                rec.check(name in o.message, expr + ': the error names it', name, o.message)
        elif want is True:
            rec.check(o.ok(), '%s (%s)' % (expr, why), 'a result', '%s %s' % (o.kind, o.message))
        return o

    most = len(kinds)
    counts = [2] if op else range(0, most + 3)
    for k in counts:
        args = (good + [good[-1] if good else '1'] * 3)[:k]
        inside = least <= k <= most or many and k >= 1
        if many and k > 1:
            args = [args[0]] * k
            if name in ('sort', 'reverse'):                  # rows give arrays, which cannot be put together
                inside = False
        if case.get('domain') and inside and k:
            inside = None
        settle(write(args), inside if inside or not (many or k > most and 'A' in kinds) or k == 0 else None, '%d arguments where it takes %d to %s' % (k, least, 'any' if many else most))
    for k in ([2] if op else range(max(least, 1), most + 1)):
        singles = [[(p, PROBE[j])] for p in range(k) for j in range(len(PROBE))]
        doubles = [[(p, a), (q, b)] for p in range(k) for q in range(p + 1, k) for a in case.get('pairs', PROBE) for b in case.get('pairs', PROBE)]
        for change in singles + doubles:
            texts = good[:k]
            args = [literal(g) for g in texts]
            for p, kind in change:
                texts[p] = KINDS[kind][0]
                args[p] = arg(kind)
            expr = write(texts)
            judge_builtin(rec, settle, expr, kinds, args, own, 'fail' in [kind for p, kind in change], bool(op), len(change) == 1 and not case.get('domain'), name)


# a number is the same argument in any notation

def gen_notation(tier):
    for case in gen_builtin(tier):
        if 'sig' in case and any(k in ('N', 'W') for k in case['sig'].split()):
            yield case


NOTATIONS = ['0x{0:X}', '0b{0:b}', '0o{0:o}', "'{0}'", '{0}00%', '{0}E0', '{0}.0', '{0}/1', '(0x{0:X})', 'n{0}_', 'h{0}_', 's{0}_']


def case_notation(case, rec):
    c = calculator()
    kinds, least, many, own, good = signature(case['sig'])
    op = case.get('op')
    for value in (3, 2, 1):
        base = [g if g != '1' or k not in ('N', 'W') or case.get('name') in NARROW + ('substr',) else str(value) for k, g in zip(kinds, good)]
        for k in ([2] if op else range(max(least, 1), len(kinds) + 1)):
            def write(args):
                return '%s %s %s' % (args[0], op, args[1]) if op else '%s(%s)' % (case['name'], ', '.join(args))

            for line in SETUP + ['n%d_ = %d' % (i, i) for i in range(1, 10)] + ['h%d_ = 0x%d' % (i, i) for i in range(1, 10)] + ["s%d_ = '%d'" % (i, i) for i in range(1, 10)]:
                calc.run(c, line)
            want = calc.run(c, write(base[:k]))
            places = [i for i in range(k) if kinds[i] in ('N', 'W') and base[i].isdigit()]
            for some in ([[i] for i in places] + [list(p) for p in itertools.combinations(places, 2)]):
                for notation in NOTATIONS:
                    args = base[:k]
                    for i in some:
                        args[i] = notation.format(int(base[i]))
                    expr = write(args)
                    o = calc.run(c, expr)
                    rec.step()
                    if '/' in expr and op:
                        continue
                    rec.check(o.obs() == want.obs(), '%s is %s' % (expr, write(base[:k])), want.obs(), '%s %s' % (o.obs(), o.message))


def literal(text):
    """the model's view of the arguments in the tables"""
    for kind, (t, (v, u)) in KINDS.items():
        if t == text:
            return arg(kind)
    if text == 'second':
        return ((U, SEC), None, None)
    if text.startswith("'"):
        return ((S, text[1:-1]), None, None)
    return (n(text), None, None)


def judge_builtin(rec, settle, expr, kinds, args, own, failing, is_op, single, name):
    spread = [i for i, (v, u, ref) in enumerate(args) if v[0] == A and kinds[i] not in ('A', 'AN', 'AS', 'AB', 'V')]
    if failing and not is_op:
        settle(expr, False, 'an argument fails')
        return
    if any(kinds[i] == 'V' and v[0] == A for i, (v, u, ref) in enumerate(args)):
        settle(expr, None, '')
        return
    if is_op and any(k in ('U', 'R', 'Q') for k in kinds) or name in ('and', 'or') and failing:
        # representations and units at the left are read as part of the number; and/or may never look at the right
        if not spread and not failing and not fits(kinds[1], args[1]) and args[1][0][0] != A:
            settle(expr, False, 'kinds')
        else:
            settle(expr, None, '')
        return
    if spread:
        lengths = {len(args[i][0][1]) for i in spread}
        o = settle(expr, False if len(lengths) > 1 else None, 'arrays of different lengths')
        if len(lengths) == 1 and o.ok():
            size = lengths.pop()
            value = o.last().value
            if not isinstance(value, list) or len(value) != size:
                rec.bad(expr, 'an array of %d' % size, o.obs())
                return
            for k in range(size):
                row = [args[i][0][1][k] + (None,) if i in spread else a for i, a in enumerate(args)]
                if verdict(kinds, row, own) is False or failing:
                    rec.check(isinstance(value[k].value, Exception), '%s element %d' % (expr, k), 'an error', calc.res_obs(value[k]))
        elif len(lengths) == 1 and not any(v[0] == A for i, (v, u, ref) in enumerate(args) if i not in spread) and not failing:
            rec.bad(expr, 'an array, element by element', o.message)
        return
    if failing:
        settle(expr, False, 'an operand fails')
        return
    v = verdict(kinds, args, own)
    ok = True if single and v else None
    settle(expr, False if v is False else ok, 'kinds')


def verdict(kinds, args, own):
    """False when the declared kinds or the units refuse these arguments"""
    if not all(fits(k, a) for k, a in zip(kinds, args)):
        return False
    numbers = [(v, u) for v, u, ref in args]
    if not own:
        if all(k == 'N' for k in kinds[:len(args)]):
            try:
                same_unit([(n(number_of(v)), u) for v, u in numbers])
            except Refused:
                return False
        for k, (v, u, ref) in zip(kinds, args):
            if k == 'AN':
                try:
                    same_unit([(n(number_of(e)), w) for e, w in v[1]])
                except Refused:
                    return False
    return True



SPACES = [
    Space('builtin', gen_builtin, case_builtin, 'every built-in function and operator x numbers of arguments x kinds of value in one or two positions'),
    Space('notation', gen_notation, case_notation, 'every built-in function and operator taking numbers x notations of each number and pair of numbers'),
    Space('one', gen_one, case_defined, 'a function with one declaration: every kind and pair of kinds x every kind of argument x counts'),
    Space('two', gen_two, case_defined, 'functions of two parameters with their own or overlapping declarations x pairs of arguments'),
    Space('three', gen_three, case_defined, 'functions of three parameters, declared apart or over a range x triples of arguments'),
    Space('dimensions', gen_units, case_units, 'unit declarations over parts of the parameters x numbers with and without units'),
    Space('operands', gen_operands, case_operands, 'defined prefix, postfix, binary and worded operators x declared kinds x operands'),
    Space('words', gen_words, case_words, 'worded operators with every word or operand left out or replaced'),
    Space('groups', gen_groups, case_groups, 'a defined operator at every place among the built-in levels x every other operator'),
]
