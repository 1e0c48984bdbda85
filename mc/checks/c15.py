"""C15 Boolean logic, comparison and conditionals are coherent.

Reference: three-valued truth tables (true, false, error) with left-to-right grouping, exact quantities for comparisons, and each
branch of a conditional evaluated alone.
"""
from fractions import Fraction as F
import itertools

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['a value that is not a boolean is refused as an operand of and, or, xor even where an error would be passed over',
               'quantities of different dimensions do not compare (C10)', 'the branches of a conditional are values, not bare units']


def C():
    return calc.shared()


def ev(text):
    o = calc.run(C(), text)
    if o.kind == 'crash':
        return 'crash'
    if o.err():
        return 'err'
    r = o.last()
    return 'none' if r is None else calc.res_obs(r, C(), True)


def B(v):
    return 'err' if v == 'E' else (('b', v), None)


# ------------------------------------------------------------------ truth tables

OPERANDS = {'true': True, 'false': False, 'TRUE': True, 'False': False, '1 < 2': True, '2 < 1': False, '(1 == 1)': True, 'not true': False, 'not false': True, 'not not true': True,
            '1/0': 'E', '(1/0 > 1)': 'E', 'not (1/0)': 'E', "('a' + 1)": 'E', 'nosuch == 1': 'E', 'element([1], 5) == 1': 'E', '@nf_(1)': 'E', '(2 m > 1 s)': 'E',
            't_': True, 'f_': False, '5': 'N', "'true'": 'N', '1': 'N', '0': 'N', '3 m': 'N', 'nosuch': 'N'}
SMALL = ['true', 'false', '1/0', '1 < 2', 'not true', '(1/0 > 1)']
OPS = ['and', 'or', 'xor']


def apply(op, a, b):
    """values: True False 'E' (error) 'N' (not a boolean)"""
    if a in ('E', 'N') and not isinstance(a, bool) or b == 'N':
        return 'E'
    if op == 'and':
        return b if a else False
    if op == 'or':
        return True if a else b
    return 'E' if b == 'E' else a != b


def setup():
    calc.run(C(), 'reset()')
    calc.run(C(), 't_ = true\nf_ = false\nx_ = 5\nu_ = 3 ft\ng_ = {1}')


def g_truth(tier):
    yield ['unary']
    for a in OPERANDS:
        for op in OPS:
            yield ['flat', a, op]
    for a in SMALL:
        for op in itertools.product(OPS, repeat=2):
            yield ['flat4', a] + list(op)
    for k in range(len(trees(2))):
        if tier == 'thorough' or k % 11 == 0:
            yield ['tree', k, tier]


_trees = {}


def trees(depth):
    """fully parenthesised formulas with their reference value"""
    if depth in _trees:
        return _trees[depth]
    leaves = [('true', True), ('false', False), ('1/0', 'E')]
    if depth == 0:
        out = leaves
    else:
        sub = trees(depth - 1)
        out = list(sub)
        for (s, a) in sub:
            out.append(('not (%s)' % s, 'E' if a == 'E' else not a))
        for op in OPS:
            for (s, a), (t, b) in itertools.product(sub, repeat=2):
                out.append(('(%s) %s (%s)' % (s, op, t), apply(op, a, b)))
        seen, u = set(), []
        for s, v in out:
            if s not in seen:
                seen.add(s)
                u.append((s, v))
        out = u
    _trees[depth] = out
    return out


def c_truth(case, rec):
    setup()

    def want(text, v, what):
        got = ev(text)
        rec.step()
        rec.check(got == B(v), what, [text, B(v)], got)
        rec.state((text, got))
    if case[0] == 'unary':
        for a, v in OPERANDS.items():
            if v != 'N':
                want(a, v, 'operand alone')
                want('not (%s)' % a, 'E' if v == 'E' else not v, 'not')
                want('not not (%s)' % a, v, 'not not')
                want('not not not (%s)' % a, 'E' if v == 'E' else not v, 'not not not')
                want('not(%s)' % a, 'E' if v == 'E' else not v, 'not')
                want('[%s]' % a if v == 'E' else '(%s)' % a, v, 'nested operand')
            else:
                want('not (%s)' % a, 'E', 'not of something that is not a boolean')
    elif case[0] == 'flat':
        _, a, op = case
        for b in OPERANDS:
            v = apply(op, OPERANDS[a], OPERANDS[b])
            want('%s %s %s' % (a, op, b), v, 'truth table')
            want('(%s) %s (%s)' % (a, op, b), v, 'truth table')
            o = calc.run(C(), 'r_ = %s %s %s' % (a, op, b))
            got = ev('r_') if o.ok() else 'err'
            rec.check(got == B(v), 'assigned', [a, op, b, B(v)], got)
            calc.run(C(), 'delete(r_)')
            rec.step(2)
            for op2 in OPS:
                for c in SMALL:
                    want('%s %s %s %s %s' % (a, op, b, op2, c), apply(op2, v, OPERANDS[c]), 'chain')
    elif case[0] == 'flat4':
        _, a, o1, o2 = case
        for b, c in itertools.product(SMALL, repeat=2):
            v = apply(o2, apply(o1, OPERANDS[a], OPERANDS[b]), OPERANDS[c])
            for o3, d in itertools.product(OPS, SMALL):
                want('%s %s %s %s %s %s %s' % (a, o1, b, o2, c, o3, d), apply(o3, v, OPERANDS[d]), 'chain')
    else:
        s, a = trees(2)[case[1]]
        want(s, a, 'formula')
        for op in OPS:
            for t, b in trees(1) if case[2] == 'thorough' else trees(1)[::3] + trees(0):
                want('(%s) %s (%s)' % (s, op, t), apply(op, a, b), 'formula')
                want('(%s) %s (%s)' % (t, op, s), apply(op, b, a), 'formula')


# ------------------------------------------------------------------ conditionals

BRANCH = ['1', '0x1F', '50%', '1E3', '3 m', '2.5 km', '20 \u00b0C', '3 kg m s^-2', "'a'", "''", 'true', 'false', '[1, 2]', '[0b1, 3 m]', '(1/3)', '{PARAM1}', 'x_', 'u_', 'l_', 'pi', '-2', 'max(1, 2)', "'2020-01-01'",
          '(true then 7 else 8)', '1 + 2', '2 * 3 m', "'a' +$ 'b'", 'x_ == 5', 'not true']
BADB = ['1/0', "('a' + 1)", 'nosuch + 1', '2 m + 1 s', 'element([1], 9)', '@nf_(1)', '[1, 1/0]', 'max(1/0, 2)', "(1/0) == 1", 'true and 1/0', '(true then 1/0 else 1)', '[1, 2] + [1, 2, 3]']
CONDS = {'true': True, 'false': False, '1 < 2': True, '2 <= 1': False, 'not false': True, '(true and false)': False, 't_': True, 'f_': False, 'x_ == 5': True, "'a' ==$ 'b'": False, "'ab' =~ 'b'": True, '3 m > 2 ft': True,
         'false or true': True, '(true then false else true)': False, 'true or 1/0': True,
         '1/0': 'E', 'nosuch': 'E', '5': 'E', "'true'": 'E', '1': 'E', '0': 'E', '3 m': 'E', 'true and 1/0': 'E', "'a' < 1": 'E', 'x_': 'E', '{true}': 'E', "''": 'E'}


def g_cond(tier):
    for c in CONDS:
        for a in BRANCH + BADB:
            yield ['one', c, a]
    for k in range(3):
        for c in itertools.product([True, False, 'E'], repeat=k + 1):
            yield ['nest', list(c)]
    yield ['arrays']


def tier_quick(cond, a):
    return a not in BRANCH[::4] + BADB[::4] and cond not in ('true', '1 < 2', 'f_', '1/0')


def c_cond(case, rec):
    setup()
    calc.run(C(), 'l_ = [1, 2 m]')

    def alone(t):
        return ev('(%s)' % t) if t in BRANCH else 'err'

    def whole(truth, a, b):
        """the branch that was chosen; with arrays among the branches, chosen for each element (C12)"""
        x, y = alone(a), alone(b)
        lens = {len(v[0][1]) for v in (x, y) if v != 'err' and v[0][0] == 'a'}
        if not lens:
            return 'err' if truth == 'E' else x if truth else y
        if len(lens) > 1:
            return 'err'
        n = lens.pop()

        def each(v):
            return [(('err',), None)] * n if v == 'err' else list(v[0][1]) if v[0][0] == 'a' else [v] * n
        return ('a', tuple(each('err' if truth == 'E' else x if truth else y))), None
    if case[0] == 'one':
        _, cond, a = case
        truth = CONDS[cond]
        for b in BRANCH + BADB:
            w = whole(truth, a, b)
            text = '%s then %s else %s' % (cond, a, b)
            got = ev(text)
            rec.step()
            if not rec.check(got == w, 'conditional', [text, w], got):
                continue
            rec.state((truth, a, b, w))
            if b not in BRANCH[:12:3] + BADB[:2] or tier_quick(cond, a):
                continue
            if w != 'err' and w[0][0] == 'a' and (('err',), None) in w[0][1]:
                continue                               # an error confined to an element: C12
            for form in ('(%s)', '((%s))', ' %s '):
                got = ev(form % text)
                rec.step()
                rec.check(got == w, 'conditional in parentheses', [form % text, w], got)
            got = ev('[%s, 5]' % text)
            we = 'err' if w == 'err' else (('a', (w, (('n', '5', '5'), None))), None)
            rec.check(got == we, 'conditional as an element', [text, we], got)
            o = calc.run(C(), 'r_ = %s\n9' % text)
            if w == 'err':
                rec.check(o.err() and ev('r_') == (('none',), None), 'failing conditional assigned', text, ev('r_'))
            else:
                rec.check(o.ok() and ev('r_') == w, 'conditional assigned', [text, w], ev('r_'))
                calc.run(C(), 'delete(r_)')
            got = ev('true then (%s) else 1/0' % text)
            rec.check(got == w, 'conditional as a branch', [text, w], got)
            got = ev('false then 1/0 else (%s)' % text)
            rec.check(got == w, 'conditional as a branch', [text, w], got)
            if '{' not in text:                        # a function body may not hold another function text here
                o = calc.run(C(), 'h_ = {%s}\n@h_(1)' % text)
                got = 'err' if o.err() else calc.res_obs(o.last(), C(), True)
                rec.check(got == w, 'conditional in a function', [text, w], got)
            rec.step(6)
    elif case[0] == 'nest':
        # c1 then (c2 then .. else ..) else (c3 ..), leaves numbered
        cs = case[1]
        T = {True: 'true', False: 'false', 'E': '1/0'}

        def build(i, path):
            if i >= len(cs):
                leaf = path + 1
                return ('1/0', 'E') if leaf % 3 == 0 else (str(leaf), leaf)
            x, vx = build(i + 1, 2 * path)
            y, vy = build(i + 1, 2 * path + 1)
            v = 'E' if cs[i] == 'E' else vx if cs[i] else vy
            return '%s then (%s) else (%s)' % (T[cs[i]], x, y), v
        text, v = build(0, 0)
        got = ev(text)
        w = 'err' if v == 'E' else (('n', str(v), str(v)), None)
        rec.step()
        rec.check(got == w, 'nested conditionals', [text, w], got)
        rec.state((cs, v))
    else:
        vals = {'1': ('n', '1'), "'s'": ('s', 's'), '3 m': None}
        for cs in itertools.product(['true', 'false'], repeat=3):
            for a, b in (('[1, 2, 3]', '[4, 5, 6]'), ('7', '[4, 5, 6]'), ('[1, 2, 3]', '8'), ('7', '8'), ("'a'", '3 m')):
                # arrays as branches are whole values; an array of conditions chooses one by one
                text = '[%s] then %s else %s' % (', '.join(cs), a, b)
                got = ev(text)
                rec.step()

                def pick(t, i):
                    return ev(t[1:-1].split(', ')[i]) if t.startswith('[') else ev(t)
                each = (('a', tuple(pick(a if c == 'true' else b, i) for i, c in enumerate(cs))), None)
                whole = (('a', tuple(ev(a if c == 'true' else b) for c in cs)), None)
                rec.check(got in (each, whole), 'an array of conditions', [text, each], got)
                rec.state((text, got))
        for text in ('[true, 5] then 1 else 2', "[true, 'x'] then 1 else 2"):
            o = calc.run(C(), text)
            rec.step()
            v = o.last().value if o.ok() else None
            rec.check(o.err() or (isinstance(v[1].value, Exception) and calc.frac(v[0].value) == 1), 'a condition that is not a boolean', text, o.obs(C()) if o.ok() else o.message)
        del vals
        for text in ('true then 1', 'then 1 else 2', 'true else 1', 'true then else 2', 'true then 1 else', 'true then 1 else 2 else 3', 'else', 'then'):
            got = ev(text)
            rec.step()
            rec.check(got == 'err', 'incomplete conditional', text, got)


# ------------------------------------------------------------------ comparisons

# text -> (dimension, exact size in a base unit)
CMP = {'0': ('n', F(0)), '-0': ('n', F(0)), '1': ('n', F(1)), '1.0': ('n', F(1)), '0b1': ('n', F(1)), '0x1F': ('n', F(31)), '31': ('n', F(31)), '100%': ('n', F(1)), '50%': ('n', F(1, 2)), '0.5': ('n', F(1, 2)), '1E3': ('n', F(1000)),
       '1000': ('n', F(1000)), '(1/3)': ('n', F(1, 3)), '(2/6)': ('n', F(1, 3)), '0.333333333333333333333333333333': ('n', F(333333333333333333333333333333, 10 ** 30)), '-1': ('n', F(-1)), '(-1/3)': ('n', F(-1, 3)), 'true': ('n', F(1)), 'false': ('n', F(0)),
       "'2.5'": ('n', F(5, 2)), '2.5': ('n', F(5, 2)), '100000000000000000000': ('n', F(10 ** 20)), '100000000000000000001': ('n', F(10 ** 20 + 1)), '1E60': ('n', F(10 ** 60)), '-1E60': ('n', F(-10 ** 60)), '0.00000000000000000001': ('n', F(1, 10 ** 20)),
       '5 m': ('l', F(5)), '500 cm': ('l', F(5)), '0.005 km': ('l', F(5)), '5.00001 m': ('l', F('5.00001')), '0 m': ('l', F(0)), '-1 ft': ('l', F('-0.3048')), '1 ft': ('l', F('0.3048')), '12 in': ('l', F('0.3048')), '0x5 m': ('l', F(5)), '(1/3) km': ('l', F(1000, 3)),
       '1 mile': ('l', F('1609.344')), '3 hours': ('t', F(10800)), '180 minutes': ('t', F(10800)), '1 day': ('t', F(86400)), '-5 s': ('t', F(-5)),
       '0 \u00b0C': ('T', F('273.15')), '32 \u00b0F': ('T', F('273.15')), '273.15 K': ('T', F('273.15')), '-40 \u00b0C': ('T', F('233.15')), '-40 \u00b0F': ('T', F('233.15')), '0 K': ('T', F(0)), '100 \u00b0C': ('T', F('373.15')),
       '5 m/s': ('v', F(5)), '18 km/hour': ('v', F(5)), '1 m^2': ('A', F(1)), '10000 cm^2': ('A', F(1)), '1 N': ('f', F(1)), '1 kg m s^-2': ('f', F(1)), '2 N': ('f', F(2)), '2 m kg/s^2': ('f', F(2))}
SYM = ['<', '>', '<=', '>=', '==', '!=']


def g_cmp(tier):
    for a in CMP:
        yield a


def c_cmp(a, rec):
    setup()
    calc.run(C(), 'a_ = ' + a)
    da, va = CMP[a]
    for b, (db, vb) in CMP.items():
        for op in SYM:
            text = '%s %s %s' % (a, op, b)
            got = ev(text)
            rec.step()
            if da != db:
                w = 'err'
            else:
                w = (('b', {'<': va < vb, '>': va > vb, '<=': va <= vb, '>=': va >= vb, '==': va == vb, '!=': va != vb}[op]), None)
            rec.check(got == w, 'comparison', [text, w], got)
            # through a variable, negated, in a condition and in arrays
            got = ev('a_ %s (%s)' % (op, b))
            rec.check(got == w, 'comparison of a variable', [text, w], got)
            got = ev('not (%s)' % text)
            rec.check(got == (w if w == 'err' else (('b', not w[0][1]), None)), 'negated comparison', [text, w], got)
            got = ev('%s then 1 else 2' % text)
            rec.check(got == (w if w == 'err' else (('n', '1', '1') if w[0][1] else ('n', '2', '2'), None)), 'comparison as a condition', [text, w], got)
            rec.step(3)
        rec.state((a, b, da == db, (va > vb) - (va < vb)))


# ------------------------------------------------------------------ errors in operands

ERRS = ['1/0', '(1/0)', "('a' + 1)", '(nosuch + 1)', '(2 m + 1 s)', 'element([1], 9)', '[1, 1/0]', '(true then 1/0 else 1)', 'max(1, 1/0)', '(true and 1/0)', '@nf_(1)']
GOODS = {'boolean': 'true', 'number': '5', 'string': "'a'", 'array': '[1, 2]', 'variable': 'x_'}
PASS = ('and', 'or', 'then')


def g_err(tier):
    c = calc.new()
    for sym, op in sorted(c.ops_list.items()):
        if not op.hidden:
            yield ['op', sym]
    for f in sorted(c.funcs):
        if f not in ('reset', 'delete'):
            yield ['fn', f]
    yield ['ctx']


def c_err(case, rec):
    kind, name = case[0], case[-1]

    def refused(text):
        setup()
        before = calc.state_of(C())
        o = calc.run(C(), text)
        rec.step()
        if rec.check(o.err(), 'an error became a value', text, o.obs(C()) if o.ok() else repr(o.exc)):
            rec.state(text)
        if kind != 'ctx' and (not name.endswith('=') or name in ('==', '!=', '<=', '>=')):
            calc.run(C(), 'r_ = ' + text)
        rec.check(calc.state_of(C()) == before, 'variables after an error', [text, before], calc.state_of(C()))
    if kind == 'op':
        op = C().ops_list[name]
        others = ['5', 'true', "'a'", 'x_', '3 m']
        left = [i for i in op.linputs if not isinstance(i, str)]
        right = [i for i in op.rinputs if not isinstance(i, str)]
        if name == 'then':
            for e in ERRS:
                refused('%s then 1 else 2' % e)
                refused('true then %s else 2' % e)
                refused('false then 1 else %s' % e)
                refused('(false then 1 else %s) + 1' % e)
            return
        for e in ERRS:
            e1 = '(%s)' % e
            if left and right:
                for o in others:
                    if name not in ('=', '||=', '+=', '-=', '*=', '/=', '^=', '%=', '\\='):
                        refused('%s %s %s' % (e1, name, o))
                    if name not in PASS or o not in ('true',):
                        refused('%s %s %s' % (o, name, e1))
                refused('%s %s %s' % (e1, name, e1))
            elif right:
                refused('%s %s' % (name, e1))
            elif left:
                refused('%s%s' % (e1, name))
        if name == 'and':
            refused('true and 1/0')
        if name == 'or':
            refused('false or 1/0')
    elif kind == 'fn':
        fn = C().funcs[name]
        hi = fn.maxparams if fn.maxparams is not None else 3
        for n in range(max(fn.minparams or 0, 1), min(hi, 4) + 1):
            for pos in range(n):
                for e in ERRS:
                    for g in ('5', "'a'", '[1, 2]'):
                        args = [g] * n
                        args[pos] = e
                        refused('%s(%s)' % (name, ', '.join(args)))
    else:
        for e in ERRS:
            for f in ('[%s]', '[1, %s]', '[1..%s]', '[%s..2]', '[1..5 step %s]', '(%s)', '((%s))', '-(%s)' if False else '0 - (%s)', 'r_ = %s', 'x_ = %s', 'r_ = [%s]', 'x_ += %s', 'max([%s])', '@g_(%s)', '(%s) m', '(%s) to m', '[[%s]]',
                      '2 (%s)', '(r_ = %s) + 1', 'r_ ||= %s', '%s', '%s\n7', '(%s) as binary', "'a' +$ (%s)", 'format(%s)', '@g_(%s)', '(%s) then 1 else 2', 'true then (%s) else 2', 'element([1, 2], %s)'):
                refused(f % e)


SPACES = [Space('truth', g_truth, c_truth, 'all chains of up to 4 operands and all formulas of depth 2 (3 on one side) over truth, falsehood and errors of every kind'),
          Space('conditionals', g_cond, c_cond, 'every condition with every pair of branches of every kind, in every position, nested to depth 3'),
          Space('comparisons', g_cmp, c_cmp, 'all pairs of values in all representations and units under the six comparisons'),
          Space('errors', g_err, c_err, 'an error of every kind in every operand of every operator, argument of every function and place of a value')]
