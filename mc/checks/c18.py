"""C18 Calculators do not influence each other.

The oracle is the calculator itself when nobody else is there: every observation a history produces on its own is what it must
produce while other calculators are created, configured, extended and used, in any order, in the same thread or in others.
"""
import itertools
import os
import sys
import threading

from mc.core import Space, REPO
from mc import alone as pristine          # before any calculator exists
from mc import calc
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.items import LiteralItem
from modularcalculator.objects.number import Number
from modularcalculator.objects.operators import OperationResult, OperatorDefinition

ASSUMPTIONS = ['each calculator is used by one thread at a time', 'preemptions happen at the calls (quick) or lines (thorough) of the calculator\'s own code',
               'results are rendered with Number.to_string(calculator), as the interfaces do']

SRC = os.path.join(os.path.realpath(REPO), 'modularcalculator') + os.sep

# ------------------------------------------------------------------ one calculator's actions
# An action is a short text; do() applies it to a calculator and gives an observation (JSON like, comparable)


def parse_setting(text):
    name, _, val = text.partition('=')
    return name, val


# ways for a program to extend its calculator (the way the example feature does it)

def add_word(c, word, value, before):
    c.parser_map.insert(c.parser_map.index(before), 'word_' + word)
    c.add_parser('word_' + word, lambda self, expr, i, items, flags: ([LiteralItem(word, Number(value))], len(word), None) if expr[i:].startswith(word) else (None, None, None))
    return [c.parser_map.index('word_' + word), c.parser_map.count('word_' + word), [p['name'] for p in c.parsers].count('word_' + word)]


def add_operator(c, sym, beside, factor):
    if isinstance(beside, str):
        [level for level in c.op_map if beside in level][0].add(sym)
    else:
        c.op_map.insert(beside, {sym})
    c.add_op(OperatorDefinition('Own', sym, '', lambda self, vals, units, refs, flags: OperationResult(vals[0] * Number(factor) + vals[1]), 1, 1, 'number'))
    c.setup()
    return [sorted(level) for level in c.op_map]


def add_function(c, name, factor):
    c.funcs[name] = FunctionDefinition('Own', name, '', ['n'], lambda self, vals, units, refs, flags: OperationResult(vals[0] * Number(factor)), 1, 1, 'number')
    return sorted(c.funcs)


def add_preset(c, name, features):
    c.preset_list.setdefault(name, []).extend(features)
    return sorted((k, sorted(v)) for k, v in c.preset_list.items())


def add_constant(c, name, value):
    c.constants[name] = Number(value)
    return sorted(c.constants)


def drop_function(c, name):
    del c.funcs[name]
    return sorted(c.funcs)


EXTEND = {'word': add_word, 'operator': add_operator, 'function': add_function, 'presetdef': add_preset, 'constant': add_constant, 'drop': drop_function}


def do(box, act):
    """box: {'c': calculator or None, 'last': last response}"""
    kind, arg = act[0], act[1]
    if kind == 'new':
        box['c'] = ModularCalculator(arg or None)
        return 'new'
    c = box['c']
    if kind == 'size':
        c.number_size_set(arg)
        return c.number_size_get()
    if kind == 'prec':
        c.number_prec_set(arg)
        return c.number_prec_get()
    if kind == 'rounding':
        c.number_set_rounding(arg)
        return 'set'
    if kind == 'simplify':
        c.unit_simplification_set(arg)
        return c.unit_simplification_get()
    if kind == 'systems':
        c.unit_normaliser.systems_preference[:] = arg
        return 'set'
    if kind == 'option':
        c.feature_options[arg][act[2]] = act[3]
        return sorted(c.feature_options[arg].items())
    if kind == 'install':
        c.install_features(arg)
        return sorted(c.installed_features)
    if kind == 'preset':
        c.load_preset(arg)
        return sorted(c.installed_features)
    if kind in EXTEND:
        return EXTEND[kind](c, *act[1:])
    if kind == 'run':
        o = calc.run(c, arg, include_state=True)
        box['last'] = o
        st = o.results[-1].state if o.results else None
        return [repr(o.obs(c, True)), o.message, repr(calc.vars_obs(st, c)) if st is not None else None]
    if kind == 'quiet':                        # evaluate, render later
        box['last'] = calc.run(c, arg)
        return box['last'].kind
    if kind == 'render':
        o = box.get('last')
        return repr(o.obs(c, True)) if o is not None else None
    if kind == 'bare':                         # exact values only, rendered later by somebody else
        o = calc.run(c, arg)
        return [repr(o.obs()), o.message]
    raise ValueError(act)


def alone(history):
    key = repr(history)
    if key not in _alone:
        _alone[key] = pristine.call('mc.checks.c18', 'play', history)
    return _alone[key]


def play(history):
    box = {}
    return [do_safe(box, a) for a in history]


_alone = {}


def do_safe(box, act):
    try:
        return do(box, act)
    except Exception as e:
        return 'exception ' + type(e).__name__ + ': ' + str(e)


# ------------------------------------------------------------------ settings: two calculators with different values

UNITEXPR = ['5 N * 2 m', '10 m/s * 3 s', '1 kg m s^-2 * 1', '3 ft to m', '100 km/hour * 2 hours']
NUMEXPR = ['1/3', '2/3', '-2/3', '1/8', '10/7', 'sqrt(2)', 'exp(1)', 'sin(1)', 'log(7)', '1/3 as percentage', '2/3 as scientific', 'scientific(2/3)', '123456.789 as scientific', '2/7 as hexadecimal',
           '1/3 as binary', 'round(2.5)', 'round(0xF/2)', 'round(-2.345, 2)', '[1/3, 2/3]', "1/3 +$ ''", "'' +$ [1/7]", 'gamma(1.5)', '10^40/7', '50%/3', '2^0.5', 'x_ = 1/3\nx_ * 3', 'x_ = 2/3', 'mean([1, 2, 2])',
           "dateadd('2020-01-01', 1.5 s)", 'floor(7.5)', 'random(1)*0', 'to_string(1/3)', '1 ft to m', '1 m to ft', '1/3 m + 1 ft', 'erf(0.5)', 'zeta(3)', '-1/8 to decimal', 'decimal(0xF/7)', 'base(1/3, 3)', 'bases(1/3, 10, 3)']


def default_options():
    c = ModularCalculator('Computing')
    c.install_features('structure.functionpointers')
    return c.feature_options


def options_of():
    if not _options:
        _options.update(pristine.call('mc.checks.c18', 'default_options'))
    return _options


_options = {}


def option_cases():
    out = []
    a = 'arrays.arrays'
    out.append((a, 'Open', '<:', ['[1, 2]', '<:1, 2]', 'sum([1 .. 3])', 'sum(<:1 .. 3])', '[1 <: 2]', '3 < 4']))
    out.append((a, 'Close', ':>', ['[1, 2]', '[1, 2:>', 'sum([1 .. 3:>)', 'sum([1 .. 3])', '3 > 4']))
    out.append((a, 'Range', '...', ['[1..3]', '[1...3]', '[1 ... 3 step 2]', '[1 .. 3 step 2]']))
    out.append((a, 'Step', 'by', ['[1..5 step 2]', '[1..5 by 2]', 'by = 3', 'step = 3']))
    out.append((a, 'Param', ';', ['[1, 2]', '[1; 2]', 'max(1, 2)', '[1; max(1, 2)]']))
    out.append(('structure.terminator', 'Symbol', ';', ['1\n2', '1;2', 'x_ = 1;x_ + 1', 'x_ = 1\nx_ + 1', '1;;2', '1 \n 2']))
    out.append(('numerical.expnumbers', 'Symbol', 'T', ['2E3', '2T3', '2e3', '2t3', '1.5E-2', '1.5T-2', '12345 as scientific', 'scientific(12345)', "'2E3' + 1", "'2T3' + 1", '2E3 + 2T3']))
    out.append(('numerical.expnumbers', 'Symbol', '@', ['2E3', '2@3', '12345 as scientific', 'scientific(12345)', "'2@3' + 1"]))
    out.append(('strings.strings', 'Symbol', '"', ["'ab'", '"ab"', "'ab' +$ 'c'", '"ab" +$ "c"', "length('ab')", 'length("a\'b")', "length('a\"b')"]))
    out.append(('strings.strings', 'Escape Char', '~', ["'a\\'b'", "'a~'b'", "'a\\\\b'", "'a~~b'", "length('\\n')", "length('~n')"]))
    out.append(('nonfunctional.comments', 'Symbol', '!', ['1 # c', '1 ! c', '# c\n2', '! c\n2', '1 ! 2 # 3']))
    out.append(('structure.functionpointers', 'Symbol', '&&', ["f_ = {PARAM1 + 1}\n@f_(2)", "f_ = {PARAM1 + 1}\n&&f_(2)"]))
    dates = ["'2020-01-31' + 1 day", "'31/01/2020' + 1 day", "dateadd('2020-01-31', 1 month)", "dateadd('31/01/2020', 1 month)", "dateformat('2020-01-31')", "'2020-01-31T10:00:00' - '2020-01-01'",
             "dateadd('2020-01-31', 1.5 seconds)", "dateadd('2020-01-31T00:00:00Z', 1 hour)", "dateadd('0900-01-31', 1 day)", "dateformat('2020-01-31T10:11:12Z')", "'2020-01-31' + 0.25 seconds",
             "dateformat('2020-01-31T10:11:12')", "dateformat('31/01/2020')", "dateformat('2020-01-31T10:11:12.5')", "'2020-01-31T10:00:00.25Z' + 1 second", "dateformat('2020-01-31T10:11:12.5Z')", "dateformat('2020-01-31Z')"]
    for feat in ('dates.dates', 'dates.datefunctions'):
        for key, val in sorted(options_of()[feat].items()):
            if key.endswith('Format') or '%' in str(val):
                out.append((feat, key, '%d/%m/%Y' if '%H' not in val else '%d/%m/%Y %H:%M:%S', dates))
            else:
                out.append((feat, key, '*>40', dates))
    return out


def setting_pairs(tier):
    """(action for A, action for B, probe expressions)"""
    out = []
    for a, b in (((10), (100)), ((30), (12)), ((100), (40)), (60, 200)):
        out.append([['size', a], ['size', b], NUMEXPR + UNITEXPR])
    for a, b in ((2, 30), (30, 5), (0, 10), (6, 7), (50, 30)):
        out.append([['prec', a], ['prec', b], NUMEXPR + UNITEXPR])
    modes = ['ROUND_HALF_UP', 'ROUND_HALF_EVEN', 'ROUND_DOWN', 'ROUND_UP', 'ROUND_CEILING', 'ROUND_FLOOR', 'ROUND_05UP', 'ROUND_HALF_DOWN']
    for a, b in itertools.permutations(modes, 2):
        if tier == 'thorough' or 'ROUND_HALF_UP' in (a, b):
            out.append([['rounding', a], ['rounding', b], NUMEXPR])
    for a, b in ((True, False), (False, True)):
        out.append([['simplify', a], ['simplify', b], UNITEXPR + ['5 N m / (1 s)', 'x_ = 2 kg * 3 m / (1 s^2)\nx_', '1 m^3', '3600 s', '2 kg m s^-2']])
    systems = [['gregorian', 'si', 'us', 'uk', 'asu', 'nautical', 'iec'], ['uk', 'us'], ['us', 'uk', 'si'], ['asu', 'si'], ['nautical', 'si'], []]
    sys_probes = UNITEXPR + ['1 pint to ml', '1 gallon to l', '2 gallons', '1 ton to kg', '3 miles', '2 mile * 3', '5 pints * 2', '1 foot^3', '7 lb * 1 foot / (1 s^2)', '10 years to days', '1 year to seconds', '5 ft us to m',
                             '5 pint us to l', '5 pint uk to l', '2 N', '2 mile/hour * 3 hours', '3 kb to bytes', '1 fl oz to ml']
    for a, b in itertools.permutations(systems, 2):
        out.append([['systems', a], ['systems', b], sys_probes])
    for feat, key, val, probes in option_cases():
        default = options_of()[feat][key]
        out.append([['option', feat, key, val], ['option', feat, key, default], probes])
        out.append([['option', feat, key, default], ['option', feat, key, val], probes])
    presets = ['Basic', 'Advanced', 'Scientific', 'Computing']
    probes = ['1 + 2', '1+2', 'x_ = 3', '2 * (3 + 4)', 'sqrt(2)', '3 ft to m', "'a' +$ 'b'", '0xF', '1E3', '[1, 2]', 'pi', 'true', '50%', '2^3', '7 \\ 2', '1/3', '10 m * 2', "length('a')", '5 & 3', '12 as hexadecimal', '2x3', '1\n2', '# a', 'e', 'c', '2 N * 3 m',
              '@f(1)', '{1}', '1 km to miles', '1 Mim to m', '3 kibibytes to bytes', 'mean([1, 2])', 'sin(1)', 'gamma(5)']
    for a, b in itertools.permutations(presets, 2):
        out.append([['preset', a], ['preset', b], probes])
    return out


def gen_settings(tier):
    for a, b, probes in setting_pairs(tier):
        base = '' if a[0] == 'preset' else 'Computing'
        extra = [['install', 'structure.functionpointers']] if a[1] == 'structure.functionpointers' else []
        for order in ('ABA', 'BAB', 'late'):
            for i in range(0, len(probes), 12):
                yield [base, extra, a, b, order, probes[i:i + 12]]


def case_settings(case, rec):
    base, extra, a, b, order, probes = case
    setup = {'A': [['new', base]] + extra + [a], 'B': [['new', base]] + extra + [b]}
    seq = []
    if order == 'late':                          # B is created and set up only after A has been used
        seq += [('A', x) for x in setup['A']] + [('A', ['run', p]) for p in probes] + [('B', x) for x in setup['B']]
        for p in probes:
            seq += [('B', ['run', p]), ('A', ['run', p])]
    else:
        for x, y in itertools.zip_longest(setup['A'], setup['B']):
            seq += [('A', x)] * (x is not None) + [('B', y)] * (y is not None)
        for p in probes:
            seq += [(name, ['run', p]) for name in order]
    want = {name: iter(alone([act for n, act in seq if n == name])) for name in 'AB'}
    boxes = {'A': {}, 'B': {}}
    for name, act in seq:
        got = do_safe(boxes[name], act)
        exp = next(want[name])
        rec.step()
        rec.state((act, repr(setup[name]), repr(got)))
        if not rec.check(got == exp, 'calculator %s (%s) while the other has %s: %s' % (name, setup[name][-1], setup['B' if name == 'A' else 'A'][-1], act), exp, got):
            return
    rec.trace()


# ------------------------------------------------------------------ who uses it first
# A process in which the other calculator, set differently, has evaluated everything before this one is even made: whatever
# is kept for the whole process, and made at the first use, is made by the wrong one.

FIRST = [[], ['size', 12], ['size', 150], ['prec', 3], ['prec', 60], ['rounding', 'ROUND_DOWN'], ['simplify', False], ['systems', ['uk', 'us']], ['option', 'numerical.expnumbers', 'Symbol', 'T'],
         ['option', 'dates.dates', 'Date Format', '%d/%m/%Y'], ['option', 'arrays.arrays', 'Open', '<:'], ['option', 'strings.strings', 'Symbol', '"']]
POWERED = ['m^0.5', 'ft^0.5', 'm^(1/3)', 'in^(1/3)', 'm^-1', 'ft^-1', 'm^3', 'yd^3', 's^0.5', 'hours^0.5', 'kg^(2/3)', 'lb^(2/3)']


def first_texts():
    from mc import corpus
    from mc.checks import c06
    out = NUMEXPR + UNITEXPR + ['(5 %s) to %s' % (a, b) for a in POWERED for b in POWERED if a != b and a.split('^')[1] == b.split('^')[1]]
    out += corpus.STATEMENTS
    out += [t for t in c06.texts_again('quick') if 'x' not in t and 'fn' not in t]
    out += ['(3 %s) %s (2 %s)' % (a, op, b) for a in ('m', 'ft', 'N', 'hours', 'l', 'kB') for b in ('m', 'yd', 's', 'pints', 'GB', 'J') for op in ('+', '*', '/', '<')]
    for name in ('sqrt', 'cbrt', 'exp', 'log', 'log10', 'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sinh', 'cosh', 'tanh', 'fact', 'gamma', 'erf', 'abs', 'round', 'floor', 'ceil', 'binary', 'hexadecimal', 'octal', 'percentage', 'scientific', 'decimal'):
        out += ['%s(%s)' % (name, v) for v in ('0.7', '1/7', '2', '-0.3')]
    return [t for t in dict.fromkeys(out) if 'random' not in t and 'now' not in t and 'reset' not in t]


def gen_first(tier):
    texts = first_texts()
    n = 12
    for k in range(n):
        for i in range(len(FIRST)):
            for j in range(len(FIRST)) if tier == 'thorough' else (0, (i + k) % len(FIRST)) if i else range(len(FIRST)):
                if i != j:
                    yield [FIRST[i], FIRST[j], texts[k::n]]


def evaluate(setting, texts):
    box = {}
    acts = [['new', 'Computing']] + ([setting] if setting else []) + [['run', t] for t in texts]
    return [do_safe(box, a) for a in acts][-len(texts):]


def second(one, two, texts):
    evaluate(one, texts)
    return evaluate(two, texts)


def case_first(case, rec):
    one, two, texts = case
    want = _first.get((repr(two), texts[0]))
    if want is None:
        want = _first[(repr(two), texts[0])] = pristine.call('mc.checks.c18', 'evaluate', two, texts)
    got = pristine.call('mc.checks.c18', 'second', one, two, texts)
    rec.step(2 * len(texts))
    for t, w, g in zip(texts, want, got):
        rec.state((repr(two), t, repr(w)))
        rec.check(w == g, 'after a calculator with %s has evaluated the same things, one with %s: %s' % (one or 'the defaults', two or 'the defaults', t), w, g)
    rec.trace()


_first = {}


# ------------------------------------------------------------------ interleavings of whole histories

def histories(tier):
    hs = [
        [['prec', 3], ['run', '1/3'], ['quiet', '2/3'], ['render', 0]],
        [['rounding', 'ROUND_FLOOR'], ['run', 'round(2.5)'], ['run', '2/3 as percentage'], ['quiet', '-2/3']],
        [['size', 20], ['run', 'sqrt(2)'], ['run', '2/3 as scientific'], ['run', 'exp(2)']],
        [['run', 'x_ = 1/3'], ['run', 'x_ * 3'], ['run', 'delete(\'x_\')'], ['run', 'x_']],
        [['run', 'x_ = 5 N'], ['simplify', False], ['run', 'x_ * 3 m'], ['run', 'x_ / (2 s)']],
        [['run', 'f_ = {PARAM1 + x_}'], ['run', 'x_ = 7'], ['run', '@f_(1)'], ['run', 'reset()']],
        [['option', 'numerical.expnumbers', 'Symbol', 'T'], ['run', '2T3'], ['run', '12345 as scientific'], ['run', "'2E3' + 1"]],
        [['systems', ['us', 'uk']], ['run', '2 gallons to l'], ['run', '5 pints * 2'], ['run', '1 mile to m']],
        [['option', 'structure.terminator', 'Symbol', ';'], ['run', 'y_ = 2;y_ * 2'], ['run', '1\n2'], ['run', 'y_']],
        [['quiet', '10/7'], ['prec', 50], ['render', 0], ['prec', 2], ['render', 0]],
        [['run', "dateadd('2020-01-01', 1/3 s)"], ['option', 'dates.dates', 'Date Format', '%d/%m/%Y'], ['run', "dateadd('2020-01-01', 1 day)"]],
        [['run', 'y_ = [1/3, 2/3]'], ['run', 'y_ * 3'], ['size', 15], ['run', 'sum(y_) / 7']],
        [['new', 'Basic'], ['run', '1/3'], ['install', 'nonfunctional.space'], ['run', '2 / 3'], ['run', 'sqrt(2)']],
        [['new', ''], ['preset', 'Advanced'], ['run', 'x_=2;x_'], ['run', 'x_ = 2\nx_^3']],
        [['install', 'structure.functionpointers'], ['run', 'f_ = {PARAM1 * 2}'], ['run', '@f_(4)'], ['run', 'x_ = 3']],
        [['new', 'Scientific'], ['run', '3 km to miles'], ['install', ['dates.dates', 'strings.strings']], ['run', "'a' +$ 1/3"]],
    ]
    return hs


def gen_inter(tier):
    hs = histories(tier)
    for i, a in enumerate(hs):
        for j, b in enumerate(hs):
            if j >= i:
                yield [a[:3], b[:3]]
            if tier == 'thorough' or (j - i) % len(hs) in (0, 5):
                yield [a, b]


# ------------------------------------------------------------------ calculators extended by the program that uses them

EXTENSIONS = [
    [['word', 'hello', '123', 'var'], ['run', 'hello + 3'], ['run', 'hello = 4']],
    [['word', 'hello', '7', 'number'], ['run', 'hello * 2'], ['run', 'hello + 3']],
    [['word', 'abs', '5', 'terminator'], ['run', 'abs + 1'], ['run', 'abs(-2)']],
    [['word', 'm', '1000', 'units'], ['run', '3 m'], ['run', 'max(1, 2)']],
    [['operator', '@@', '+', '10'], ['run', '2 @@ 3 * 4 + 1'], ['run', '1 + 2 @@ 3']],
    [['operator', '@@', '^', '100'], ['run', '2 @@ 3 * 4 + 1'], ['run', '2 ^ 2 @@ 3']],
    [['operator', '@@', 16, '1000'], ['run', '2 @@ 3 * 4 + 1'], ['run', '1 + 2 @@ 3']],
    [['operator', '+', '+', '10'], ['run', '2 + 3 * 4'], ['run', '5 - 2 + 1']],
    [['function', 'twice', '2'], ['run', 'twice(3)'], ['run', 'sin(0)']],
    [['function', 'twice', '22'], ['run', 'twice(3)'], ['run', 'twice = 1']],
    [['function', 'sin', '3'], ['run', 'sin(2)'], ['run', 'cos(0)']],
    [['drop', 'cos'], ['run', 'cos(0)'], ['run', 'sin(0)']],
    [['constant', 'pi', '3'], ['run', '2 * pi'], ['run', 'tau']],
    [['constant', 'answer', '42'], ['run', 'answer + 1'], ['run', 'answer = 1']],
    [['presetdef', 'Basic', ['structure.innerexpressions']], ['new', 'Basic'], ['run', '(1+2)']],
    [['new', ''], ['presetdef', 'Own', ['numerical.basicarithmetic', 'numerical.decimalnumbers', 'structure.operators']], ['preset', 'Own'], ['run', '1+2']],
    [['new', ''], ['preset', 'Own'], ['run', '1+2'], ['preset', 'Basic'], ['run', '1+2']],
    [['new', 'Basic'], ['run', '(1+2)'], ['run', '1+2@@3']],
]


def gen_custom(tier):
    for i, a in enumerate(EXTENSIONS):
        for j, b in enumerate(EXTENSIONS):
            if j >= i:
                yield [a, b] if tier == 'thorough' else [a[:3], b[:3]]


def merges(a, b):
    """all orders of a and b actions, both keeping their own order"""
    for pos in itertools.combinations(range(a + b), a):
        s = set(pos)
        yield [0 if i in s else 1 for i in range(a + b)]


def base_history(h):
    return h if h[0][0] == 'new' else [['new', 'Computing']] + h


def case_inter(case, rec):
    a, b = (base_history(h) for h in case)
    want = [alone(a), alone(b)]
    # the calculators are made first, in order (creation inside the interleaving only for the histories that begin with one)
    for order in merges(len(case[0]), len(case[1])):
        hs = (a, b)
        boxes = ({}, {})
        pos = [0, 0]
        for k in (0, 1):
            if hs[k] is not case[k]:
                do(boxes[k], hs[k][0])
                pos[k] = 1
        ok = True
        for who in order:
            got = do_safe(boxes[who], hs[who][pos[who]])
            rec.step()
            if got != want[who][pos[who]]:
                rec.bad('history %d, action %s, in the order %s' % (who, hs[who][pos[who]], ''.join('AB'[w] for w in order)), want[who][pos[who]], got)
                ok = False
                break
            pos[who] += 1
            rec.state((who, repr(got)))
        rec.trace()
        if not ok:
            return


# ------------------------------------------------------------------ three calculators, results rendered at the end

def gen_many(tier):
    exprs = ['1/3', '2/3', 'sqrt(2)', '50% / 3', '[1/3, 10/7]', '12345.678 as scientific', '1/3 as binary', '5/3 m', 'round(2.5)', '0xF / 7']
    sets = [['prec', 2], ['prec', 30], ['prec', 50], ['rounding', 'ROUND_DOWN'], ['rounding', 'ROUND_UP'], ['size', 12], ['size', 100]]
    n = 2 if tier == 'quick' else 3
    for combo in itertools.permutations(sets, 3):
        yield [list(combo), exprs]
    if n == 3:
        for combo in itertools.permutations(sets, 4):
            yield [list(combo), exprs]


def case_many(case, rec):
    sets, exprs = case
    want = [alone([['new', 'Computing'], s] + [x for e in exprs for x in (['quiet', e], ['render', 0])])[2:] for s in sets]
    cs = [{} for _ in sets]
    for box in cs:
        do(box, ['new', 'Computing'])
    for box, s in zip(cs, sets):
        do(box, s)
    for i, e in enumerate(exprs):
        for box in cs:
            do_safe(box, ['quiet', e])
        for k in reversed(range(len(cs))):
            got = do_safe(cs[k], ['render', 0])
            rec.step()
            rec.state((e, repr(sets[k]), got))
            rec.check(got == want[k][2 * i + 1], '%s with %s, rendered after the others (%s) computed theirs' % (e, sets[k], sets), want[k][2 * i + 1], got)
        rec.trace()


# ------------------------------------------------------------------ threads under a controlled scheduler

class Sched:
    """Two threads, one running at a time.  plan: [(events, next)...]: thread 0 runs until it has passed the given number of its
    own scheduling points, then the other one runs, and so on; a thread that finishes hands over."""

    def __init__(self, plan, lines):
        self.plan = list(plan)
        self.lines = lines
        self.turn = 0
        self.done = [False, False]
        self.counts = [0, 0]
        self.locks = [threading.Semaphore(0), threading.Semaphore(0)]
        self.left = self.plan.pop(0) if self.plan else None

    def point(self, me):
        self.counts[me] += 1
        if self.left is None:
            return
        self.left -= 1
        if self.left <= 0:
            self.left = self.plan.pop(0) if self.plan else None
            if not self.done[1 - me]:
                self.turn = 1 - me
                self.locks[1 - me].release()
                self.locks[me].acquire()

    def body(self, me, fn, out):
        self.locks[me].acquire()

        def local(frame, event, arg):
            if event == 'line':
                self.point(me)
            return local

        def tracer(frame, event, arg):
            if event == 'call' and frame.f_code.co_filename.startswith(SRC):
                self.point(me)
                return local if self.lines else None
            return None

        sys.settrace(tracer)
        try:
            fn(out)
        except BaseException as e:
            out.append('exception ' + repr(e))
        finally:
            sys.settrace(None)
            self.done[me] = True
            if not self.done[1 - me]:
                self.locks[1 - me].release()

    def run(self, fns):
        outs = ([], [])
        ts = [threading.Thread(target=self.body, args=(i, fns[i], outs[i]), daemon=True) for i in (0, 1)]
        for t in ts:
            t.start()
        self.locks[0].release()
        for t in ts:
            t.join()
        return outs


THREADS = [
    # (set up once, before) (actions in the thread)
    [[['prec', 4]], [['run', '1/3']]],
    [[['prec', 40]], [['run', '2/3 as percentage']]],
    [[['rounding', 'ROUND_FLOOR']], [['run', 'round(2.5)'], ['run', '2/3']]],
    [[['size', 25]], [['run', 'sqrt(2)']]],
    [[], [['size', 60], ['run', '10/7'], ['run', '[1/3, 2]']]],
    [[], [['rounding', 'ROUND_UP'], ['run', '1/3 as scientific']]],
    [[], [['run', 'x_ = 3 N\nx_ * 2 m']]],
    [[['simplify', False]], [['run', 'x_ = 3 N\nx_ * 2 m']]],
    [[], [['run', "'2020-01-01' + 1/3 s"]]],
    [[['prec', 3]], [['run', 'gamma(2.5)']]],
    [[['option', 'numerical.expnumbers', 'Symbol', 'T']], [['run', '2T3 as scientific']]],
    [[], [['run', 'f_ = {PARAM1 + 1/3}\n@f_(2)']]],
    [[['systems', ['us', 'uk']]], [['run', '2 gallons to l']]],
    [[], [['new', 'Basic'], ['run', '1/3']]],
    [[], [['run', "'a'+1"]]],
    [[['rounding', 'ROUND_DOWN']], [['run', "1/3 as hexadecimal"], ['prec', 2], ['run', '5/3']]],
]
LONG = (6, 7, 11, 15)        # thousands of scheduling points
_tcalcs = {}


def tcalc(slot, setup):
    """one calculator per slot and configuration; its variables are removed and its settings applied again before every schedule"""
    key = (slot, repr(setup))
    if key not in _tcalcs:
        box = {}
        do(box, ['new', 'Computing'])
        for a in setup:
            do(box, a)
        _tcalcs[key] = box['c']
    c = _tcalcs[key]
    calc.run(c, 'reset()')
    c.number_size_set(100)
    c.number_prec_set(30)
    c.number_set_rounding('ROUND_HALF_UP')
    for a in setup:
        do({'c': c}, a)
    return c


def thread_fn(c, actions):
    def fn(out):
        box = {'c': c}
        for a in actions:
            out.append(do_safe(box, a))
    return fn


def solo(setup, actions):
    key = ('solo', repr(setup), repr(actions))
    if key not in _alone:
        _alone[key] = pristine.call('mc.checks.c18', 'play_thread', setup, actions)
    return _alone[key]


def play_thread(setup, actions):
    out = []
    t = threading.Thread(target=thread_fn(tcalc(2, setup), actions), args=(out,))
    t.start()
    t.join()
    return out


def schedule(specs, plan, lines):
    cs = [tcalc(i, s[0]) for i, s in enumerate(specs)]
    sch = Sched(plan, lines)
    outs = sch.run([thread_fn(c, s[1]) for c, s in zip(cs, specs)])
    return outs, sch.counts


def gen_threads(tier):
    n = len(THREADS)
    parts = 12 if tier == 'quick' else 64
    for i in range(n):
        for j in range(n):
            if tier == 'thorough' or i not in LONG and (j in (4, 15) or (i < 4 and j < 6) or j == (i + 1) % n):
                for part in range(parts):
                    yield [i, j, part, parts, False, 1]
                    if tier == 'thorough':
                        yield [i, j, part, parts, True, 1]
    if tier == 'thorough':
        for i, j in ((0, 2), (2, 0), (4, 5), (5, 4), (9, 0), (0, 9), (15, 3)):
            for part in range(64):
                yield [i, j, part, 64, False, 2]


def case_threads(case, rec):
    i, j, part, parts, lines, bound = case
    specs = [THREADS[i], THREADS[j]]
    want = [solo(*s) for s in specs]
    _, counts = schedule(specs, [], lines)          # one after the other
    plans = ([k] for k in range(1 + part, counts[0] + 1, parts))
    if bound == 2:                                   # preempt the first, then the second, then run both out
        step = max(1, counts[1] // 60)
        plans = ([k, m] for k in range(1 + part, counts[0] + 1, parts) for m in range(1, counts[1] + 1, step))
    for plan in plans:
        outs, _ = schedule(specs, plan, lines)
        rec.step(2)
        for who in (0, 1):
            if outs[who] != want[who]:
                rec.bad('thread %d of %s and %s, switched after %s of its %s' % (who, specs[0], specs[1], plan, 'lines' if lines else 'calls'), want[who], outs[who])
                return
        rec.state((i, j, repr(plan)))
        rec.trace()


SPACES = [
    Space('settings', gen_settings, case_settings, 'every setting, option, unit system preference and preset with two values in two calculators, all probe expressions evaluated alternately, against each alone'),
    Space('first', gen_first, case_first, 'all pairs of settings: what one calculator has evaluated does not show in another made after it'),
    Space('interleavings', gen_inter, case_inter, 'all interleavings of pairs of histories that create, configure, extend and use a calculator'),
    Space('custom', gen_custom, case_inter, 'all interleavings of pairs of histories that extend a calculator with words, operators, functions, constants and presets of their own'),
    Space('many', gen_many, case_many, 'ordered selections of differently configured calculators whose results are rendered after all have computed'),
    Space('threads', gen_threads, case_threads, 'every schedule with one preemption at a call (thorough: line; two preemptions for small pairs) of two threads, each with its own calculator'),
]
