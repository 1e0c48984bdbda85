"""C19 Every configuration of features is a calculator.

The reference is the calculator with everything installed: an expression whose syntax a smaller configuration provides gives the
same result there, whatever else is installed and in whatever order it was asked for.
"""
import itertools
import os
import sys
import re
import shutil
import tempfile

from mc.core import Space
from mc import calc, units as U
from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.exceptions import CalculatorException

ASSUMPTIONS = ['features asked for in one request may come in any order; in separate requests what must come after something else comes after it',
               'which of several equally suitable units a simplified result uses may depend on the units known: quantities are compared', 'random and current-time functions are left out']

D, SP, OP, STR, ARR, FN, INN, TERM, ASG = ('numerical.decimalnumbers', 'nonfunctional.space', 'structure.operators', 'strings.strings', 'arrays.arrays', 'structure.functions',
                                           'structure.innerexpressions', 'structure.terminator', 'state.assignment')
AR = 'numerical.basicarithmetic'
# (features the expressions use, expressions)
PROBES = [
    ([D], ['12', '1.25', '-3', '007']),
    ([D, AR], ['1+2', '7-10', '2*3', '7/2', '2^10', '2+3*4^2', '1/3', '9-3-2', '2^3^2', '1/0']),
    ([D, AR, SP], ['1 + 2', ' 7 / 3 ', '2 3', '-2 * -3', '1\t+\t1']),
    ([D, SP, 'numerical.advancedarithmetic'], ['7 % 4', '7\\2', '-7 % 4', '-7\\2', '7 % 0']),
    ([D, 'numerical.bitwiseoperators'], ['6&3', '6|3', '6^^3', '~5', '1<<4', '9>>1', '~0']),
    ([D, INN, AR], ['(1+2)*3', '((4))', '2(3)', '(1', '2)']),
    ([D, TERM], ['1\n2', '\n3', '4\n']),
    ([D, TERM, AR], ['1+1\n2*2', '1+1\n*']),
    ([D, SP, TERM, AR], ['1+\n2', '1\n+\n2', '1 +\n\n 2\n 3']),
    ([D, ASG], ['x_=3', 'x_=(', 'x_']),
    ([D, ASG, TERM, AR], ['x_=3\nx_*2', 'x_=y_=4\ny_+x_', 'x_=1/0\nx_', 'x_||=5\nx_||=6\nx_']),
    ([D, TERM, 'state.assignmentoperators'], ['x_=3\nx_+=2\nx_', 'x_=3\nx_++\nx_++\nx_', 'x_=8\nx_/=2\nx_^=2\nx_', 'x_=7\nx_%=4\nx_', 'x_=7\nx_\\=2\nx_', 'x_--', 'x_=3\nx_*=x_\nx_-=1']),
    ([D, TERM, STR, 'state.assignmentfunctions'], ["x_=3\ndelete(x_)\nx_=5", "x_=3\nreset()\nx_", "x_=1\ny_=2\ndelete(x_)\ny_", "reset(1)"]),
    ([D, ARR], ['[1,2,3]', '[1..4]', '[1..9step4]', '[[1,2],3]', '[1', '[4..1]', '[1,,2]']),
    ([D, ARR, AR], ['[1,2]+1', '[1,2]*[3,4]', '[1/0,2]', '2^[1,2]', '[1+1..2*2]', '[1,2]+[1,2,3]', '1/[0,1]']),
    ([D, 'arrays.arrayfunctions'], ['concat([1],[2,3])', 'element([4,5],2)', 'count([1,2])', 'sort([3,1,2])', 'reverse([1,2])', 'element([4],2)', 'count([[1],2])']),
    ([D, 'arrays.arrayfunctions', 'boolean.booleans'], ['filter([1,2],[true,false])', 'filter([1,2],[1,2]>1)']),
    ([D, 'boolean.booleans'], ['true', 'false', '1==1', '2<1', '1<=2', '1!=1', 'true==false', '3>=4']),
    ([D, SP, 'boolean.booleans'], ['not true', 'true and false', 'true or 1', 'true xor true', '1 < 2 then 3 else 4', '1 > 2 then 3 else 4', 'not 1 == 2', 'false then 1 else true then 2 else 3']),
    ([STR], ["'ab'", "''", "'a\\'b'", "'a\\\\'", "'a+b'", "'a"]),
    ([STR, OP, D], ["'a'+$'b'", "'ab'*$3", "1+$2", "'a'*$0", "'a'*$'b'"]),
    ([STR, D, 'strings.stringfunctions'], ["length('abc')", "lower('AbC')", "upper('abc')", "strip(' a ')", "lstrip(' a')", "rstrip('a ')", "find('abc','c')", "replace('aba','a','x')", "substr('abcd',1,2)", "find('abc','z')",
                                           "length()", "upper('ß')"]),
    ([STR, D, 'strings.stringarrayfunctions'], ["split('a,b',',')", "join(['a','b'],'-')", "split('','')", "join([1,2],'')"]),
    ([STR, D, 'strings.stringcomparison'], ["'a'<$'b'", "'a'==$'a'", "'a'!=$'a'", "'b'>=$'a'", "'A'==~'a'", "'B'<~'a'", "1<2", "'a'!=~'A'", "'a'<=$'a'", "'a'>~'B'"]),
    ([STR, D, 'strings.regex'], ["'abc'=~'b'", "'abc'!~'b'", "regexget('abc1','[a-z]+')", "regexsplit('a1b2','[0-9]')", "regexsub('aba','a','x')", "regexcount('aba','a')", "'a'=~'('"]),
    ([D, 'numerical.numericalfunctions'], ['abs(-3)', 'floor(2.5)', 'ceil(2.5)', 'round(2.5)', 'round(2.345,2)', 'fact(5)', 'exp(1)', 'log(8,2)', 'log(100)', 'lcm(4,6)', 'gcd(4,6)', 'fact(-1)', 'log(0)', 'abs(1,2)', 'round(-2.5)']),
    ([D, ARR, 'numerical.numericalfunctions'], ['abs([1,-2])', 'floor([1.5,2])', 'round([1.25,2.35],1)', 'gcd([4,6],[6,9])']),
    ([D, 'numerical.statisticalfunctions'], ['sum([1,2])', 'max(1,5,3)', 'min([4,2])', 'mean([1,2])', 'median([3,1,2])', 'mode([1,1,2])', 'stdev([1,2,3])', 'sum([])', 'max([[1,2],[3]])', 'mean(1,2,4)']),
    ([D, 'numerical.trigonometryfunctions'], ['sin(1)', 'cos(0)', 'tan(1)', 'asin(1)', 'acos(0.5)', 'atan(1)', 'sinh(1)', 'cosh(1)', 'tanh(1)', 'asinh(1)', 'acosh(2)', 'atanh(0.5)', 'asin(2)']),
    ([D, ARR, 'numerical.trigonometryfunctions'], ['sin([0,1])', 'atan([1])']),
    ([D, 'numerical.numericalconstants'], ['pi', 'e', 'tau']),
    ([D, AR, 'numerical.numericalconstants'], ['2pi', 'pi*2', 'e^2', 'tau/pi', '2pi^2']),
    ([D, 'numerical.numericalconstants', 'numerical.numericalfunctions'], ['log(e)', 'round(pi,4)']),
    ([D, 'numerical.binarynumbers'], ['0b101', '-0b11', '0b2', 'bin(5)', '0b1.1', 'bin(0.5)']),
    ([D, 'numerical.octalnumbers'], ['0o17', 'oct(8)', '0o8', '-0o7']),
    ([D, 'numerical.hexadecimalnumbers'], ['0xFF', 'hex(255)', '0xg', '-0xa', 'hex(-1)']),
    ([D, 'numerical.arbitrarybasenumbers'], ['12Z3', 'base(5,3)', 'base(35,36)', '9Z3']),
    ([D, 'numerical.expnumbers'], ['2E3', '1.5e-2', 'scientific(12345)', '-2E2', '2E', 'scientific(0.001)']),
    ([D, 'numerical.percentagenumbers'], ['50%', '-5%', '12.5%']),
    ([D, AR, 'numerical.percentagenumbers'], ['50%*4', '10%+10%', '1/50%']),
    ([D, 'numerical.decimalfunction'], ['dec(5)', 'dec(1.5)']),
    ([D, AR, 'numerical.binarynumbers', 'numerical.hexadecimalnumbers', 'numerical.octalnumbers', 'numerical.decimalfunction'], ['0b101+0x5', '5+0b1', '0x10*0o10', 'dec(0xF)', '0b11/2', 'hex(0b1111)', '-0b1+0x1']),
    ([D, SP, 'numerical.numericalrepresentation'], ['5 as decimal', '5 as xyz']),
    ([D, SP, 'numerical.numericalrepresentation', 'numerical.binarynumbers', 'numerical.hexadecimalnumbers', 'numerical.octalnumbers', 'numerical.expnumbers', 'numerical.percentagenumbers'],
     ['10 as hexadecimal', '0xFF as binary', '5 as octal', '12345 as scientific', '0.5 as percentage', '0b11 as decimal', '2E3 as decimal', '50% as decimal', '0x0F as hexadecimal', '0b1 as scientific']),
    ([D, FN, AR, 'numerical.numericalfunctions'], ['abs(1-3)*2', '2abs(-1)', 'abs(abs(-2)-5)', 'abs(', 'abs)', 'nosuch(1)', 'abs(1)abs(-2)']),
    ([D, SP, 'nonfunctional.comments'], ['1 # one', '# one', '1#']),
    ([D, SP, TERM, AR, 'nonfunctional.comments'], ['1 # one\n2', '# a\n# b\n3', '1 + # a\n2']),
    ([STR, D, SP, AR, TERM, 'structure.functionpointers', 'structure.inlinefunctions'], ["f_={PARAM1+1}\n@f_(2)", "f_={PARAM1*PARAM2}\n@f_(3,4)", "f_={y_=PARAM1\ny_*2}\n@f_(5)", "@g_(1)", "f_={1/0}\n@f_()", "f_={\n}\n@f_()"]),
    ([STR, D, SP, AR, TERM, 'structure.externalfunctions'], ["f_='%DIR%/double'\n@f_(4)", "f_='%DIR%/typed'\n@f_(4)", "f_='%DIR%/typed'\n@f_('a')", "f_='%DIR%/none'\n@f_(1)", "f_='%DIR%/two'\n@f_(1,2)"]),
    ([STR, D, 'dates.datefunctions'], ["dateformat('2020-01-31')", "datedifference('2020-01-01','2020-01-03')", "dateformat('x')", "datedifference('2020-01-01T10:00:00','2020-01-01T10:00:01')", "dateadd('2020-01-31',1)"]),
    ([STR, D, SP, 'dates.datefunctions', 'unitdefinitions.time'], ["dateadd('2020-01-31',1 day)", "datesubtract('2020-03-01',36 hours)", "datedifference('2020-01-01','2020-01-03',days)", "datedifference('2020-01-01','2020-01-03',hours)"]),
    ([STR, D, SP, 'dates.dateoperators', 'unitdefinitions.time'], ["'2020-01-31' +% 1 day", "'2020-01-31' -% 2 weeks", "'2020-01-31' +% 3", "'x' +% 1 day"]),
    ([D, SP, AR, 'units.unitconstants'], ['speedoflight', '2 earthgravity', 'G', 'speedoflight * 2', 'Planck / 2']),
    ([D, SP, AR, 'unitdefinitions.distance', 'unitdefinitions.time'], ['3 meters + 1 foot', '10 miles / 2 hours', '3 meters * 2 meters', '1 day - 1 hour', '3 meters + 1 day', '6 feet / 2 feet', '1 meter foot', '2 meters ^ 2', '5 / 2 seconds',
                                                                  '90 minutes to hours', '3 miles to feet']),
    ([D, SP, AR, INN, 'unitdefinitions.distance', 'unitdefinitions.time'], ['10 miles / (2 hours)', '10 miles / (2 hours) to feet/second', '(3 meters)^2', '(1 day) / (1 hour)']),
    ([D, SP, AR, 'unitdefinitions.distance', 'units.basicunitprefixes', 'units.unitsymbols'], ['3 km + 2 m', '5 kilometers to m', '1 mm to m', '2 m * 3 m', '7 in to ft', '3 megameters']),
    ([D, SP, 'unitdefinitions.electriccurrent', 'units.basicunitprefixes', 'units.advancedunitprefixes', 'units.unitsymbols'], ['3 kA to A', '5 gigaamperes to A', '1 nA to mA', '2 MA to kA']),
    ([D, SP, AR, 'unitdefinitions.temperature'], ['20 celsius to fahrenheit', '300 kelvin to celsius', '20 celsius + 1 celsius', '20 celsius * 2']),
    ([D, SP, 'unitdefinitions.volume', 'units.systems'], ['1 pint to liters', '3 gallons to liters', '1 pint us to liters', '1 pint uk to liters', '2 liters to pints']),
    ([D, SP, 'unitdefinitions.angle', 'numerical.trigonometryfunctions', AR], ['180 degrees to radians', 'sin(90 degrees)', 'cos(1 radian)', 'tan(45 degrees)']),
    ([D, SP, 'units.unitfunctions', 'unitdefinitions.distance', 'unitdefinitions.time'], ['format(100 feet)', 'compact(1 mile)', 'format(90 seconds)', 'format(3)', 'compact(3000 feet)']),
    ([D, 'numerical.specialfunctions'], ['gamma(5)', 'gamma(0.5)', 'erf(0.5)', 'zeta(2)', 'beta(2,3)']),
    ([D, SP, AR, INN, 'units.basicunitprefixes', 'unitdefinitions.force', 'unitdefinitions.energy', 'unitdefinitions.power'], ['5 newtons * 2 meters', '10 joules / 2 seconds', '10 joules / (2 seconds)', '3 watts * 2 seconds', '1 newton to kilogram meter second^-2']),
]
EXTERNAL = {'double': 'PARAM1*2\n', 'typed': '#INPUT number\nPARAM1 + 1\n', 'two': '#INPUT number number\nx_ = PARAM1\nx_ + PARAM2\n'}
_dir = [None]


def where():
    if _dir[0] is None:
        _dir[0] = os.path.join(tempfile.gettempdir(), 'mc-c19-%d' % os.getuid())
        os.makedirs(_dir[0], exist_ok=True)
        for n, text in EXTERNAL.items():
            tmp = os.path.join(_dir[0], '.%s.%d' % (n, os.getpid()))
            with open(tmp, 'w') as fh:
                fh.write(text)
            os.replace(tmp, os.path.join(_dir[0], n))
    return _dir[0]


def unit_probes():
    """conversions between the units of each dimension, from the independent table"""
    out = []
    dims = {}
    for u in U.UNITS:
        if u.prefix == '':
            dims.setdefault(u.dim, []).append(u.names[0])
    for dim, names in sorted(dims.items()):
        first = names[0]
        out.append(([D, SP, 'unitdefinitions.' + dim], ['3 %s' % first] + ['5 %s to %s' % (n, first) for n in names] + ['7 %s to %s' % (first, n) for n in names[-3:]]))
    return out


_all = []


def letters(n):
    return ''.join(chr(ord('q') + int(d)) for d in str(n))


def probes():
    if not _all:
        n = 0
        for feats, texts in PROBES:                     # every expression has variables of its own
            named = []
            for t in texts:
                n += 1
                named.append(re.sub(r'\b([xyfg])_', lambda m: '%s%s_' % (m.group(1), letters(n)), t))
            _all.append((feats, named))
        known = set(features())
        _all.extend(p for p in unit_probes() if p[0][2] in known)
    return _all


_features = []


def features():
    if not _features:
        c = ModularCalculator()
        _features.extend(sorted(c.list_features()))
    return _features


def make(names, separate=False):
    c = ModularCalculator()
    if separate:
        for n in names:
            c.install_features(n)
    else:
        c.install_features(names)
    return c


def canon(x):
    """results compared as quantities: a number and its units become the size in base units"""
    if isinstance(x, list):
        return [canon(e) for e in x]
    v, unit = x.value, x.unit
    if isinstance(v, list):
        return ['a', [canon(e) for e in v]]
    if unit is not None and calc.Number is not None and isinstance(v, calc.Number):
        try:
            names = [up.unit.names()[0] for up in unit.list()]
            if len(names) == 1 and names[0] in U.SCALES:
                return ['t', str(calc.frac(v)), names[0]]
            size, vec = U.size_vec(unit)
            return ['q', str(calc.frac(v) * size), str(vec)]
        except KeyError:
            pass
    return repr(calc.res_obs(x, None))


def observe(c, text):
    o = calc.run(c, text.replace('%DIR%', where()))
    if o.kind == 'crash':
        return ['crash', repr(o.exc)]
    if o.kind == 'parse':
        return ['refused']
    return [o.kind, [canon(r) for r in o.results if r.has_result()]]


_full = {}


def everything():
    if 'c' not in _full:
        c = ModularCalculator('Computing')
        for f in features():
            c.install_features(f)
        _full['c'] = c
    return _full['c']


def reference(text):
    if text not in _full:
        c = everything()
        calc.run(c, 'reset()')
        _full[text] = observe(c, text)
    return _full[text]


def agree(rec, c, text, what):
    got, want = observe(c, text), reference(text)
    rec.step()
    rec.state((text, repr(got)))
    if got == want:
        return True
    # an error may be found while parsing by one configuration and while executing by another
    if got[0] in ('refused', 'exec') and want[0] in ('refused', 'exec') and 'crash' not in got:
        gr, wr = (got + [[]])[1], (want + [[]])[1]
        if got[0] == 'refused' or want[0] == 'refused' or gr == wr:
            return True
    return rec.check(False, '%s: %s' % (what, text), want, got)


# ------------------------------------------------------------------ with only what it needs

def gen_alone(tier):
    for i in range(len(probes())):
        yield [i]


def case_alone(case, rec):
    feats, texts = probes()[case[0]]
    n = 0
    for order in itertools.permutations(feats):
        n += 1
        if n > 120:
            break
        c = make(list(order))
        for t in texts:
            agree(rec, c, t, 'with only %s' % (list(order),))
        rec.trace()
    for sep in (list(feats), list(reversed(feats))):     # one after the other, where nothing has to come after something else
        if not needs_order(sep):
            c = make(sep, separate=True)
            for t in texts:
                agree(rec, c, t, 'installed one at a time %s' % (sep,))
            rec.trace()


def closure(names):
    c = ModularCalculator()
    lst = c.list_features()
    out = []

    def add(n):
        if n in out:
            return
        out.append(n)
        for d in lst[n].dependencies():
            add(d)
        if hasattr(lst[n], 'subfeatures'):
            for d in lst[n].subfeatures():
                add(d)
    for n in names:
        add(n)
    return out


def needs_order(names):
    """would installing in this order put something before what it should come after?"""
    lst = ModularCalculator().list_features()
    have = []
    for n in names:
        for d in closure([n]):
            if d not in have:
                have.append(d)
                late = [a for a in lst[d].after() if a in closure(names)]
                if any(a not in have for a in late):
                    return True
    return False


# ------------------------------------------------------------------ with one or two more features

def gen_pairs(tier):
    for i in range(len(probes())):
        for j in range(0, len(features()), 8):
            yield [i, features()[j:j + 8]]


def case_pairs(case, rec):
    feats, texts = probes()[case[0]]
    for g in case[1]:
        for names in (feats + [g], [g] + feats):
            c = make(names)
            for t in texts:
                agree(rec, c, t, 'with %s' % (names,))
            rec.trace()


def gen_triples(tier):
    if tier == 'thorough':
        for i in range(len(probes())):
            for g in features():
                yield [i, g]


def case_triples(case, rec):
    feats, texts = probes()[case[0]]
    for h in features():
        names = [case[1]] + feats[:1] + [h] + feats[1:]
        c = make(names)
        for t in texts:
            agree(rec, c, t, 'with %s' % (names,))
        rec.trace()


# ------------------------------------------------------------------ everything, in many orders

def preset(name='Computing'):
    return list(dict.fromkeys(ModularCalculator().preset_list[name]))


def gen_orders(tier):
    n = len(features())
    yield ['reverse', 0]
    yield ['sorted', 0]
    for k in range(n):
        yield ['rotate', k]
        yield ['first', k]
        yield ['last', k]
        if tier == 'thorough':
            yield ['rotate-back', k]
            yield ['swap', k]
    for name in ('Basic', 'Advanced', 'Scientific', 'Computing'):
        m = len(preset(name))
        for k in range(m):
            yield ['preset', name, k]
            yield ['preset-back', name, k]
    if tier == 'thorough':
        for a in range(n):
            for b in range(n):
                if a != b:
                    yield ['two-first', a, b]


def order_of(case):
    f = features()
    kind = case[0]
    if kind == 'reverse':
        return f[::-1]
    if kind == 'sorted':
        return f
    if kind == 'rotate':
        return f[case[1]:] + f[:case[1]]
    if kind == 'rotate-back':
        r = f[::-1]
        return r[case[1]:] + r[:case[1]]
    if kind == 'first':
        return [f[case[1]]] + f[:case[1]] + f[case[1] + 1:]
    if kind == 'last':
        return f[:case[1]] + f[case[1] + 1:] + [f[case[1]]]
    if kind == 'swap':
        k = case[1]
        r = list(f)
        r[k], r[(k + 7) % len(f)] = r[(k + 7) % len(f)], r[k]
        return r
    if kind == 'two-first':
        a, b = f[case[1]], f[case[2]]
        return [a, b] + [x for x in f if x not in (a, b)]
    p = preset(case[1])
    if kind == 'preset-back':
        p = p[::-1]
    return p[case[2]:] + p[:case[2]]


def case_orders(case, rec):
    names = order_of(case)
    c = make(names)
    have = set(closure(names))
    for feats, texts in probes():
        if set(closure_of(feats)) <= have:
            for t in texts:
                if 'state.assignmentfunctions' in have:
                    calc.run(c, 'reset()')
                agree(rec, c, t, 'everything installed in the order %s' % (case,))
    rec.check(set(c.installed_features) >= have, 'installed features after order %s' % (case,), sorted(have), sorted(c.installed_features))
    rec.trace()


_closures = {}


def closure_of(feats):
    k = tuple(feats)
    if k not in _closures:
        _closures[k] = closure(feats)
    return _closures[k]


# ------------------------------------------------------------------ everything except one feature

def gen_without(tier):
    for k in range(len(features())):
        yield [k]


def case_without(case, rec):
    out = features()[case[0]]
    names = [f for f in features() if out not in closure_of([f])]
    for order in (names, names[::-1]):
        c = make(order)
        have = set(closure(names))
        for feats, texts in probes():
            if set(closure_of(feats)) <= have:
                for t in texts:
                    agree(rec, c, t, 'everything but what needs %s' % out)
            elif out == feats[-1] and len(feats) > 1:
                for t in texts:                              # not available: refused or otherwise understood, but answered
                    got = observe(c, t)
                    rec.step()
                    rec.check(got[0] != 'crash', 'without %s: %s' % (out, t), 'an answer or a calculator error', got)
        rec.trace()


# ------------------------------------------------------------------ installing again, and unknown features

def gen_again(tier):
    for k in range(len(features())):
        yield ['again', features()[k]]
        yield ['unknown', features()[k]]
    for p in ('Basic', 'Advanced', 'Scientific', 'Computing'):
        yield ['preset', p]


def case_again(case, rec):
    kind, name = case
    if kind == 'preset':
        c = make(preset(name))
        c.load_preset(name)
        for q in ('Basic', 'Advanced', 'Scientific', 'Computing'):
            c.load_preset(q)
        for feats, texts in probes():
            if set(closure_of(feats)) <= set(closure(preset('Computing'))):
                for t in texts:
                    calc.run(c, 'reset()')
                    agree(rec, c, t, 'preset %s, loaded again and extended' % name)
        rec.trace()
        return
    if kind == 'again':
        c = make(features())
        before = sorted(c.installed_features)
        calc.run(c, 'k_ = 5')
        c.number_prec_set(12)
        c.unit_simplification_set(False)
        c.feature_options['numerical.expnumbers']['Symbol'] = 'T'
        opts = repr(c.feature_options)
        for how in (name, [name], [name, name]):
            c.install_features(how)
        rec.step(3)
        rec.check(sorted(c.installed_features) == before, 'features after installing %s again' % name, before, sorted(c.installed_features))
        rec.check(repr(c.feature_options) == opts, 'options after installing %s again' % name, opts, repr(c.feature_options))
        rec.check(c.unit_simplification_get() is False and c.number_prec_get() == 12, 'settings after installing %s again' % name, [False, 12], [c.unit_simplification_get(), c.number_prec_get()])
        rec.check(calc.obs1(c, 'k_') == ('ok', ('n', '5'), None), 'a variable after installing %s again' % name, 5, calc.obs1(c, 'k_'))
        c.unit_simplification_set(True)
        c.number_prec_set(30)
        c.feature_options['numerical.expnumbers']['Symbol'] = 'E'
        for feats, texts in probes():
            for t in texts:
                calc.run(c, 'reset()')
                agree(rec, c, t, 'after installing %s again' % name)
        rec.trace()
        return
    for names in (['no.such'], [name, 'no.such'], ['no.such', name], 'no.such'):
        c = ModularCalculator()
        try:
            c.install_features(names)
            got = 'installed'
        except CalculatorException as e:
            got = 'reported'
        except Exception as e:
            got = repr(e)
        rec.step()
        rec.check(got == 'reported', 'installing %s' % (names,), 'reported', got)
        c = ModularCalculator()
        c.install_features([names] if isinstance(names, str) else names, skipMissing=True)
        rec.step()
        want = set(closure([n for n in names if n != 'no.such'])) if not isinstance(names, str) else set()
        rec.check(set(c.installed_features) == want, 'installing %s, leaving out the missing' % (names,), sorted(want), sorted(c.installed_features))
    rec.trace()


# ------------------------------------------------------------------ features of one's own, from files

USER = {
    'a': ('''
from modularcalculator.features.feature import Feature
from modularcalculator.features.structure.functions import FunctionDefinition
from modularcalculator.objects.operators import OperationResult

class UserAFeature(Feature):
    def id():
        return 'user.a'
    def category():
        return 'User'
    def title():
        return 'A'
    def desc():
        return ''
    def dependencies():
        return ['structure.functions', 'numerical.decimalnumbers']
    @classmethod
    def install(cls, calculator):
        calculator.funcs['usertwice'] = FunctionDefinition('User', 'usertwice', '', ['n'], UserAFeature.func, 1, 1, 'number')
    def func(self, vals, units, refs, flags):
        return OperationResult(vals[0] + vals[0])
''', ['usertwice(4)', 'usertwice(usertwice(1.5))']),
    'b': ('''
from modularcalculator.features.feature import Feature
from modularcalculator.objects.number import Number

class UserBFeature(Feature):
    def id():
        return 'user.b'
    def category():
        return 'User'
    def title():
        return 'B'
    def desc():
        return ''
    def dependencies():
        return ['user.a', 'state.constants', 'numerical.basicarithmetic']
    @classmethod
    def install(cls, calculator):
        calculator.constants['userseven'] = Number(7)
''', ['userseven', 'userseven*2', 'usertwice(userseven)+1']),
    'c': ('''
from modularcalculator.features.feature import MetaFeature

class UserCFeature(MetaFeature):
    def id():
        return 'user.c'
    def category():
        return 'User'
    def title():
        return 'C'
    def desc():
        return ''
    def dependencies():
        return ['structure.innerexpressions']
    def subfeatures():
        return ['user.b', 'user.a']
''', ['(userseven)', 'usertwice((1+2))']),
}
USER_WANT = {'usertwice(4)': '8', 'usertwice(usertwice(1.5))': '6', 'userseven': '7', 'userseven*2': '14', 'usertwice(userseven)+1': '15', '(userseven)': '7', 'usertwice((1+2))': '6'}


# where the files lie: side by side; each in its own folder under one name, which may also be that of another module
LAYOUTS = {'apart': lambda k: 'mcuser%s%d.py' % (k, os.getpid()), 'same': lambda k: k + '/mcuser.py', 'json': lambda k: k + '/json.py'}


def gen_user(tier):
    for files in itertools.permutations('abc'):
        for r in (1, 2, 3):
            for names in itertools.permutations('abc', r):
                for layout in LAYOUTS:
                    yield [list(files), list(names), layout]


def case_user(case, rec):
    files, names, layout = case
    d = tempfile.mkdtemp(prefix='mc-c19-user-')
    path = sys.path.copy()
    place = lambda k: os.path.join(d, LAYOUTS[layout](k))
    try:
        for k, (src, _) in USER.items():
            os.makedirs(os.path.dirname(place(k)), exist_ok=True)
            with open(place(k), 'w') as fh:
                fh.write(src)
        for base in ('', 'Basic', 'Computing'):
            c = ModularCalculator(base or None)
            for k in files:
                c.import_feature_file(place(k))
                rec.check('user.' + k in c.list_features(), 'the feature of a file is listed', 'user.' + k, sorted(f for f in c.list_features() if f.startswith('user')))
            if not all('user.' + k in c.list_features() for k in files):
                return
            c.install_features(['user.' + k for k in names])
            have = set('c' if 'c' in names else '') | set(names)
            texts = list(USER['a'][1]) + (USER['b'][1] if have & set('bc') else []) + (USER['c'][1] if 'c' in have else [])
            for t in texts:
                o = calc.run(c, t)
                rec.step()
                rec.state((t, repr(o.obs())))
                rec.check(o.ok() and o.obs()[1][-1][0] == ('n', USER_WANT[t]), 'features of files, imported %s, installed %s on %r: %s' % (files, names, base, t), USER_WANT[t], repr(o.obs()))
            other = ModularCalculator(base or None)
            rec.check(not any(f.startswith('user') for f in other.list_features()), 'features of files belong to the calculator that imported them', [], [f for f in other.list_features() if f.startswith('user')])
        rec.trace()
    finally:
        sys.path[:] = path
        shutil.rmtree(d, ignore_errors=True)


SPACES = [
    Space('alone', gen_alone, case_alone, 'each group of expressions with only the features whose syntax it uses, asked for in all orders'),
    Space('one-more', gen_pairs, case_pairs, 'each group with every further feature, asked for before and after'),
    Space('two-more', gen_triples, case_triples, 'each group with every two further features (thorough)'),
    Space('orders', gen_orders, case_orders, 'all features in rotated, reversed and moved orders, and all rotations of the presets both ways'),
    Space('without', gen_without, case_without, 'everything except one feature and what needs it'),
    Space('again', gen_again, case_again, 'every feature and preset installed again, and unknown features among known ones'),
    Space('user', gen_user, case_user, 'features imported from files, side by side or under one name in several folders, in all orders of importing and installing'),
]
