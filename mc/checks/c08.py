"""C08 User function calls are isolated from the caller.

Reference: the body's statements run one at a time at the top level of another calculator that holds copies of the variables
the body may see (the caller's for an inline function, none for an external one) plus PARAM1, PARAM2, ...
"""
import itertools
import os
import shutil
import tempfile

from mc.core import Space
from mc import calc

ASSUMPTIONS = ['a body statement means at top level what it means inside a function (top-level meaning is the subject of the other properties)']

SETUP = ['x = 4', 'y = 2.5 m', 'a = [10, 20]', 'PARAM1 = 77', 'k_ = {PARAM1 + x}', 'b_ = 0b0101']
BODY = ['PARAM1 + 1', 'PARAM1 = 9', 'x = PARAM1', 'x += 1', 'PARAM2', 'x', '1 / 0', 'delete(x)', 'reset()', 'PARAM1 * y', 'y ||= 5', 'a = a * 2',
        '(x = 3) / 0', 'u_ = PARAM1 + 2', 'u_ * 2', '# note = 1', '', 'nosuch + 1', 'PARAM1 = {3}', '[PARAM1, PARAM1 = 5]', 'a', 'PARAM1 +\n 2', 'element(a, 1)',
        'max(PARAM1, 0b1)', '[PARAM1, 1/0]', "'t' +$ PARAM1", 'b_ + 0x1']
ARGS = [['5'], ['5', '6'], ['2 m'], ['[1, 2]'], ['[3, 1/0]'], ["'s'"], ['x'], ['a'], ['[1, 2]', '3'], ['[1, 2]', '[3, 4]'], ['[1, 2]', '[3, 4, 5]'], ['0b11'],
        [], ['(x = 8)'], ['1 / 0'], ['x', 'y', 'a'], ['nosuch'], ['[[1, 2], 3]']]
FORMS = ['@f(%s)', '(@f(%s))', 'y = @f(%s)', '[@f(%s)]', '[1, @f(%s), 2]', 'true then @f(%s) else 0', 'false then 0 else @f(%s)', 'z = y\n@f(%s)',
         '@f( %s )', '@f_s(%s)', 'element([0, @f(%s)], 2)']

_refs = {}


def ref_calc():
    return calc._cache.setdefault('__ref', calc.new())


def reference(kind, body, args, setup):
    """('ok', obs) or ('err',) of one call whose arguments are scalars (texts without variables, or caller variables)"""
    key = (kind, tuple(body), tuple(args), tuple(setup))
    if key in _refs:
        return _refs[key]
    r = ref_calc()
    calc.run(r, 'reset()')
    for s in setup:
        calc.run(r, s)
    vals = []
    for i, t in enumerate(args):
        # arguments are evaluated where the caller is
        if not calc.run(r, 'ARG%d = %s' % (i + 1, t)).ok():
            _refs[key] = ('err',)
            return ('err',)
    keep = calc.state_of(r)
    if kind == 'ext':
        for n in {s.split(' ')[0] for s in setup}:
            calc.run(r, 'delete(%s)' % n)
    for i in range(len(args)):
        calc.run(r, 'PARAM%d = ARG%d' % (i + 1, i + 1))
    out = ('err',)
    any_ = False
    for s in body:
        o = calc.run(r, s.replace('\n', ' '))
        if not o.ok():
            out = ('err',)
            any_ = True
            break
        if o.last() is not None:
            any_ = True
            out = ('ok', calc.res_obs(o.last(), r, True))
        elif o.results and any(i.functional() for i in o.results[-1].items):
            any_ = True
            out = ('ok', (('none',), None))
    del keep
    _refs[key] = out
    return out


def split_array(t):
    """elements of a one-level array literal text"""
    t = t[1:-1]
    out, depth, cur = [], 0, ''
    for ch in t:
        if ch == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            depth += ch in '(['
            depth -= ch in ')]'
            cur += ch
    return out + [cur.strip()]


def expected(kind, body, args, setup, depth=0):
    args = [{'a': '[10, 20]'}.get(t, t) for t in args]
    if any('1/0' in t or '1 / 0' in t for t in args):
        return ('err',)
    arrs = [split_array(t) for t in args if t.startswith('[')]
    if not arrs:
        return reference(kind, body, args, setup)
    if len({len(x) for x in arrs}) > 1:
        return ('err',)
    out = []
    for i in range(len(arrs[0])):
        row = [split_array(t)[i] if t.startswith('[') else t for t in args]
        e = expected(kind, body, row, setup, depth + 1)
        out.append(e[1] if e[0] == 'ok' else (('err',), None))
    return ('ok', (('a', tuple(out)), None))


SCRATCH = []


def scratch():
    d = tempfile.mkdtemp(prefix='c08_')
    return d


def define(c, kind, body, d, name='f'):
    if kind == 'inline':
        o = calc.run(c, '%s = {%s}' % (name, '\n'.join(body)))
    elif kind == 'inline1':
        o = calc.run(c, '%s = {\n  %s\n}' % (name, '\n  '.join(body)))
    else:
        path = os.path.join(d, name)
        with open(path, 'w') as fh:
            fh.write('\n'.join(body))
        o = calc.run(c, "%s = '%s'" % (name, path))
    return o


def gen_bodies(tier):
    for kind in ('inline', 'inline1', 'ext'):
        for k in (1, 2):
            for body in itertools.product(BODY, repeat=k):
                how = 'all' if k == 1 or tier != 'quick' else 'one' if kind == 'inline1' else 'few'
                yield [kind, list(body), how]
        if kind != 'inline1':
            pool = BODY[:9] + BODY[13:15] if tier == 'quick' else BODY
            for body in itertools.product(pool, repeat=3):
                yield [kind, list(body), 'one']


def case_bodies(case, rec):
    kind, body, how = case
    argss = {'all': ARGS, 'few': ARGS[:5] + ARGS[13:15], 'one': ARGS[:1] + ARGS[3:4]}[how]
    forms = FORMS if how == 'all' else FORMS[:3]
    if kind == 'inline' and '#' in body[-1]:
        kind = 'inline1'                          # the closing bracket would be part of the comment
    d = scratch()
    try:
        if how == 'all':
            combos = [(f, ARGS[i]) for f in FORMS for i in (0, 3, 13)] + [(FORMS[0], a) for a in ARGS]
        else:
            combos = [(FORMS[0], a) for a in argss] + [(f, argss[0]) for f in forms[1:]]
        c = calc.shared()
        parsed = True
        for form, args in combos:
            calc.run(c, 'reset()')
            for s in SETUP:
                calc.run(c, s)
            o = define(c, kind, body, d)
            if not o.ok():
                parsed = False
                rec.bad('defining the function', None, o.message)
                return
            calc.run(c, 'f_s = [f, f]')
            before = dict((n, (v, u)) for n, v, u in calc.state_of(c))
            kinds = 'inline' if kind == 'inline1' else kind
            exp = expected(kinds, body, args, SETUP)
            text = form % ', '.join(args)
            want_state = dict(before)
            if args == ['(x = 8)']:
                want_state['x'] = (('n', '8', '8'), None)
                exp = expected(kinds, body, ['8'], ['x = 8'] + SETUP[1:])
            if form.startswith('z = y'):
                want_state['z'] = None
                text = 'y = 3\n' + text.split('\n')[1]
                want_state.pop('z')
                want_state['y'] = (('n', '3', '3'), None)
                exp = expected(kinds, body, args, SETUP[:1] + ['y = 3'] + SETUP[2:]) if args != ['(x = 8)'] else \
                    expected(kinds, body, ['8'], ['x = 8', 'y = 3'] + SETUP[2:])
            for again in range(2):
                o = calc.run(c, text)
                rec.step()
                if o.kind == 'crash':
                    rec.bad('crash', text, repr(o.exc)[:200])
                    return
                want = result_of(form, exp)
                if want == ('err',):
                    got = ('err',) if o.err() else o.obs(c, True)
                else:
                    got = ('ok', calc.res_obs(o.results[-1], c, True)) if o.ok() else ('err', o.message)
                if not rec.check(got == want, 'value of the call', [text, want], got):
                    return
                st = dict((n, (v, u)) for n, v, u in calc.state_of(c))
                if form.startswith('y =') and want[0] == 'ok':
                    if not rec.check('y' in st, 'assigned', text, st):
                        return
                    st['y'] = before['y']
                    calc.run(c, SETUP[1])
                if not rec.check(st == want_state, 'variables of the caller', [text, want_state], st):
                    return
                if args == ['(x = 8)'] or form.startswith('z ='):
                    break
            rec.state((want, text))
            rec.trace()
    finally:
        shutil.rmtree(d)


def result_of(form, exp):
    if exp[0] != 'ok':
        return exp
    if form == '[@f(%s)]':
        return ('ok', (('a', (exp[1],)), None))
    if form == '[1, @f(%s), 2]':
        return ('ok', (('a', ((('n', '1', '1'), None), exp[1], (('n', '2', '2'), None))), None))
    if form == '@f_s(%s)':
        return ('ok', (('a', (exp[1], exp[1])), None)) if exp[0] == 'ok' else exp
    return exp


# --- nesting ------------------------------------------------------------------------------------------------------

def gen_nested(tier):
    kinds = ('inline', 'ext')
    inner = ['PARAM1 * 2', 'x = PARAM1\nx + 1', 'PARAM1 = 3\nPARAM1', '1 / 0', 'u_ = 5\nu_ + PARAM1', 'reset()\n6', 'x', '(x = 2) / 0']
    outer = ['@g_(PARAM1)', 'x = 50\n@g_(x) + PARAM1', '@g_(@g_(PARAM1))', '@g_(1)\nPARAM1', 'u_ = 1\nv_ = @g_(2)\nu_ + v_', '@PARAM2(PARAM1)', '[@g_(PARAM1), PARAM1]',
             'g_ = {100}\n@g_(1)', '@g_(PARAM1) + @g_(PARAM1)', 'true then 1 else @g_(1)', 'delete(g_)\n@g_(1)', 'PARAM1 = @g_(4)\nPARAM1', '@PARAM2(@PARAM2(2))']
    for a, b in itertools.product(kinds, repeat=2):
        for i in inner:
            for o in outer:
                for call in ('@f(7, g_)', '@f(@f(7, g_), g_)', '1 + @f(7, g_)', '@f([1, 2], g_)', '@f(@g_(7), g_)', '[@f(1, g_), @g_(2)]'):
                    yield [a, b, o, i, call]


class Ref:
    """A small interpreter for the nested bodies, on numbers."""

    class Fail(Exception):
        pass

    def __init__(self, funcs):
        self.funcs = funcs                      # name -> (kind, body)

    def call(self, fn, args, env):
        kind, body = fn
        e = dict(env) if kind == 'inline' else {}
        for i, v in enumerate(args):
            e['PARAM%d' % (i + 1)] = v
        val = None
        for s in body.split('\n'):
            val = self.stmt(s, e)
        return val

    def stmt(self, s, e):
        import re
        m = re.match(r'(\w+) = (.*)$', s)
        if m and not s.startswith('('):
            e[m.group(1)] = self.expr(m.group(2), e)
            return e[m.group(1)]
        return self.expr(s, e)

    def expr(self, t, e):
        t = t.strip()
        if t.startswith('{'):
            return ('inline', t[1:-1])
        if t == '(x = 2) / 0':
            e['x'] = 2
            raise Ref.Fail()
        if t == 'reset()':
            e.clear()
            return None
        if t.startswith('delete('):
            n = t[7:-1]
            if n not in e:
                raise Ref.Fail()
            del e[n]
            return None
        if t.startswith('['):
            return [self.expr(p, e) for p in split_array(t)]
        if t.startswith('true then '):
            return self.expr(t[10:].split(' else ')[0], e)
        parts = self.split_plus(t)
        if len(parts) == 2:
            a, b = self.expr(parts[0], e), self.expr(parts[1], e)
            return self.add(a, b)
        if t.endswith(' * 2'):
            return self.mul(self.expr(t[:-4], e))
        if t == '1 / 0':
            raise Ref.Fail()
        if t.startswith('@'):
            n, rest = t[1:].split('(', 1)
            args = [self.expr(p, e) for p in split_array('[' + rest[:-1] + ']')]
            if n not in e or not isinstance(e[n], tuple):
                raise Ref.Fail()
            if any(isinstance(a, list) for a in args):
                k = {len(a) for a in args if isinstance(a, list)}
                if len(k) > 1:
                    raise Ref.Fail()
                out = []
                for i in range(k.pop()):
                    row = [a[i] if isinstance(a, list) else a for a in args]
                    try:
                        if 'err' in row:
                            raise Ref.Fail()
                        out.append(self.call(e[n], row, e))
                    except Ref.Fail:
                        out.append('err')
                return out
            return self.call(e[n], args, e)
        if t.isdigit():
            return int(t)
        return e.get(t)

    def add(self, a, b):
        if isinstance(a, list) or isinstance(b, list):
            n = len(a) if isinstance(a, list) else len(b)
            if isinstance(a, list) and isinstance(b, list) and len(a) != len(b):
                raise Ref.Fail()
            return [self.elem(self.add, a[i] if isinstance(a, list) else a, b[i] if isinstance(b, list) else b) for i in range(n)]
        if not isinstance(a, int) or not isinstance(b, int):
            raise Ref.Fail()
        return a + b

    def mul(self, a):
        if isinstance(a, list):
            return [self.elem(lambda x, y: self.mul(x), v, 0) for v in a]
        if not isinstance(a, int):
            raise Ref.Fail()
        return a * 2

    @staticmethod
    def elem(f, a, b):
        try:
            return f(a, b)
        except Ref.Fail:
            return 'err'

    @staticmethod
    def split_plus(t):
        depth = 0
        for i in range(len(t) - 1, 0, -1):
            depth += t[i] in ')]}'
            depth -= t[i] in '([{'
            if depth == 0 and t[i] == '+':
                return [t[:i], t[i + 1:]]
        return [t]


def obs_ref(v):
    if v == 'err':
        return (('err',), None)
    if isinstance(v, list):
        return (('a', tuple(obs_ref(x) for x in v)), None)
    if isinstance(v, int):
        return (('n', str(v)), None)
    if v is None:
        return (('none',), None)
    return (('f', '{%s}' % v[1]), None)


def case_nested(case, rec):
    a, b, outer, inner, call = case
    d = scratch()
    try:
        c = calc.shared()
        calc.run(c, 'reset()')
        calc.run(c, 'x = 4')
        define(c, a, outer.split('\n'), d, 'f')
        define(c, b, inner.split('\n'), d, 'g_')
        before = calc.state_of(c)
        ref = Ref({})
        env = {'x': 4, 'f': (a, outer), 'g_': (b, inner)}
        try:
            want = ('ok', obs_ref(ref.expr(call, env)))
        except Ref.Fail:
            want = ('err',)
        for _ in range(2):
            o = calc.run(c, call)
            rec.step()
            if o.kind == 'crash':
                rec.bad('crash', call, repr(o.exc)[:200])
                return
            if o.ok():
                got = ('ok', calc.res_obs(o.results[-1], c))
            else:
                got = ('err',)
            if want[0] == 'ok' and want[1][0][0] == 'f' and b == 'ext':
                return
            rec.check(got == want, 'value of nested calls', want, [got, o.message])
            rec.check(calc.state_of(c) == before, 'variables of the caller', before, calc.state_of(c))
        rec.state((want, a, b))
        rec.trace()
    finally:
        shutil.rmtree(d)


# --- declared inputs of external functions ------------------------------------------------------------------------

DECL = {
    'number': (['5', '0b1', "'5'", 'true', '2 m'], ["'s'", '{1}']),
    'array': (['[1, 2]', '[1]'], ['5', "'s'"]),
    'string': (["'s'", '5'], []),
    'number:distance': (['5 m', '2 ft'], ['5', '5 s', '5 m^2', "'s'"]),
    'number:distance^2': (['5 m^2', '2 ft m'], ['5 m', '5', '5 s^2']),
    'number:distance^1,time^-1': (['5 m/s', '2 miles/hour'], ['5 m', '5 s', '5 m s']),
    'number:time^-1,distance^1': (['5 m/s', '2 miles/hour'], ['5 m', '5 s']),
    'number:force': (['5 N', '2 kg m/s^2'], ['5 J', '5', '5 kg']),
    'boolean': (['true', '1 == 1'], ["'s'", '{1}']),
    'date': (["'2020-01-01'"], ["'s'"]),
}


def gen_inputs(tier):
    for d in DECL:
        for e in [None] + list(DECL):
            yield [d, e]


def case_inputs(case, rec):
    d1, d2 = case
    d = scratch()
    try:
        path = os.path.join(d, 'f')
        with open(path, 'w') as fh:
            fh.write('#INPUT ' + ' '.join(x for x in case if x) + '\n[PARAM1, PARAM2]\n[PARAM1, PARAM2]' if d2 else '#INPUT %s\nPARAM1' % d1)
        c = calc.shared()
        calc.run(c, "reset()\nx = 4\nf = '%s'" % path)
        before = calc.state_of(c)
        for good1, t1 in [(True, t) for t in DECL[d1][0]] + [(False, t) for t in DECL[d1][1]]:
            for good2, t2 in ([(True, t) for t in DECL[d2][0]] + [(False, t) for t in DECL[d2][1]]) if d2 else [(True, None)]:
                args = [t for t in (t1, t2) if t is not None]
                o = calc.run(c, '@f(%s)' % ', '.join(args))
                rec.step()
                if o.kind == 'crash':
                    rec.bad('crash', args, repr(o.exc)[:200])
                    return
                if not (good1 and good2):
                    rec.check(o.err(), 'an argument of another type than declared is refused', args, o.obs(c))
                else:
                    # arguments arrive exactly as given
                    want = [calc.run(c, t).results[-1] for t in args]
                    want = [calc.res_obs(w, c, True) for w in want]
                    if o.ok():
                        r = calc.res_obs(o.results[-1], c, True)
                        got = list(r[0][1]) if d2 else [r]
                    else:
                        got = o.message
                    rec.check(got == want, 'arguments arrive as given', [args, want], got)
                rec.check(calc.state_of(c) == before, 'variables of the caller', before, calc.state_of(c))
                rec.trace()
                rec.state((args, o.kind))
        for bad in ('@f()', '@f(1 / 0)', '@f(nosuch +)'):
            o = calc.run(c, bad)
            rec.check(o.kind in ('exec', 'parse') or bad == '@f()', 'bad call', bad, o.kind)
            rec.check(calc.state_of(c) == before, 'variables of the caller', before, calc.state_of(c))
    finally:
        shutil.rmtree(d)


# --- histories of definitions and calls ---------------------------------------------------------------------------

HOPS = ['x = 1', 'x = 2', 'f = {x + PARAM1}', 'f = {x = PARAM1\nx * 10}', 'f = {1 / 0}', 'g_ = f', 'y = @f(3)', '@f(4)', '@g_(5)', 'x = @f(x)', 'delete(x)', 'delete(f)',
        'f = {@g_(PARAM1)}', '@f(1', 'f = {PARAM2 = 3\nPARAM1 + PARAM2}', 'y', '@f(nosuch)', 'f = 5']


def gen_hist(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for h in itertools.product(HOPS, repeat=k):
            yield list(h)


def case_hist(hist, rec):
    c = calc.shared()
    calc.run(c, 'reset()')
    env = {}
    ref = Ref({})
    for s in hist:
        o = calc.run(c, s)
        rec.step()
        if o.kind == 'crash':
            rec.bad('crash', s, repr(o.exc)[:200])
            return
        try:
            if s == '@f(1' or s == '@f(nosuch)' and depth_of(env):
                raise Ref.Fail()
            if depth_of(env) and '@' in s and '{' not in s:
                raise Ref.Fail()                       # calls itself without end: refused
            e = dict(env)
            if s == 'f = 5':
                e['f'] = 5
                v = 5
            elif ' = {' in s:
                e['f'] = ('inline', s[5:-1])
                v = e['f']
            else:
                v = HRef({}).stmt(s, e)
            want = ('ok', obs_ref(v))
            env = e
        except Ref.Fail:
            want = ('err',)
        got = ('ok', calc.res_obs(o.results[-1], c)) if o.ok() else ('err',)
        if not rec.check(got == want, 'result', [s, want], got):
            return
        st = tuple((n, (v[:2] if v[0] == 'n' else v)) for n, v, u in calc.state_of(c))
        ws = tuple(sorted((n, obs_ref(v)[0]) for n, v in env.items()))
        if not rec.check(st == ws, 'variables', [s, ws], st):
            return
    rec.state(tuple(sorted((n, obs_ref(v)[0]) for n, v in env.items())))
    rec.trace()


class HRef(Ref):
    def expr(self, t, e):
        t = t.strip()
        if t.endswith(' * 10'):
            v = self.expr(t[:-5], e)
            if not isinstance(v, int):
                raise Ref.Fail()
            return v * 10
        return super().expr(t, e)


def depth_of(env):
    """f calls g calls f ..."""
    f, g = env.get('f'), env.get('g_')
    return isinstance(f, tuple) and '@g_' in f[1] and isinstance(g, tuple) and '@g_' in g[1]


# --- functions that cannot be run at all --------------------------------------------------------------------------

BROKEN = ['1 + )', '(1', "'abc", '1 +\n2 )', 'x = 3\n)', 'x = 3\ny = )\nz = 4', '{1', '[1, 2', 'max(1', '1 $ 2', '1 2 3 )', '', '# only a comment', '\n\n', ' ', 'x = 5\n1 +', '1 +', '+', '= 3',
          '#INPUT nosuchtype\nPARAM1', '#INPUT number:length\nPARAM1', '#INPUT number:nosuchdim\nPARAM1', '#INPUT number:length^x\nPARAM1',
          '#INPUT number:a:b\nPARAM1', '#INPUT number number\nPARAM1', 'nosuch(1)', '@nosuch(1)', '@f(1)', "f = 'nosuchfile'\n@f(1)", 'PARAM1()', 'PARAM2 + 1', '1 / 0', 'x += 1',
          'delete(x)', 'reset()\n1 / 0', "x = 1\n'a' + 1", '[1, 1/0] + )', '(' * 400 + '1' + ')' * 400, '(x = 9) + (1 / 0)', 'x = [1, 2\n]\nx +']
RAW = [b'\xff\xfe\x00', b'x = 1\n\x00', b'\xc3(', None, 'dir']
BFORMS = ['@f(5)', 'y = @f(5)', '[1, @f(5)]', '@f([1, 2])', '@f(1 m)', 'true then @f(5) else 0', '@f(@f(5))', '@g_(f, 5)', 'max(@f(5), 1)', '@f()', '@g_(f, [1, 2])', '@f(x, y)']
AFTER = ['x', 'y', 'x + 1', 'a', '@k_(3)', 'f == f', 'x = 8\nx']


def gen_broken(tier):
    for kind in ('ext', 'ext2', 'inline'):
        for k in range(len(BROKEN) + (len(RAW) if kind != 'inline' else 0)):
            yield [kind, k]


def case_broken(case, rec):
    """However a call fails, the caller goes on as if it had not been made; a call that works gives the same twice."""
    kind, k = case
    d = scratch()
    try:
        c = calc.shared()
        path = os.path.join(d, 'f')
        body = BROKEN[k] if k < len(BROKEN) else RAW[k - len(BROKEN)]
        if body == 'dir':
            os.mkdir(path)
        elif body is not None:
            with open(path, 'wb') as fh:
                fh.write(body if isinstance(body, bytes) else body.encode())
        calc.run(c, 'reset()')
        after0 = None
        for form in BFORMS:
            calc.run(c, 'reset()')
            for s in SETUP + ['g_ = {@PARAM1(PARAM2)}']:
                calc.run(c, s)
            if kind == 'inline':
                o = calc.run(c, 'f = {' + body + '\n}')
                if not o.ok():
                    return                                   # not a function at all
            else:
                calc.run(c, "f = '%s'" % path)
            if kind == 'ext2':
                with open(os.path.join(d, 'h'), 'w') as fh:
                    fh.write("f = '%s'\nx = 3\n@f(PARAM1)" % path)
                calc.run(c, "f = '%s'" % os.path.join(d, 'h'))
            before = calc.state_of(c)
            seen = []
            for again in range(2):
                o = calc.run(c, form)
                rec.step()
                if o.kind == 'crash':
                    rec.bad('crash', form, repr(o.exc)[:200])
                    return
                seen.append((o.kind, o.message, calc.res_obs(o.results[-1], c, True) if o.ok() else None))
                st = calc.state_of(c)
                if form.startswith('y =') and o.ok():
                    calc.run(c, 'y = 2.5 m')
                    st = calc.state_of(c)
                if not rec.check(st == before, 'variables of the caller', [form, before], st):
                    return
            rec.check(seen[0] == seen[1], 'the same call twice', [form, seen[0]], seen[1])
            got = [calc.obs1(c, t, True) for t in AFTER]
            rec.step(len(AFTER))
            got[5] = None
            if after0 is None:
                r = ref_calc()
                calc.run(r, 'reset()')
                for s in SETUP:
                    calc.run(r, s)
                after0 = [calc.obs1(r, t, True) for t in AFTER]
                after0[5] = None
            rec.check(got == after0, 'what works after the call', [form, after0], got)
            rec.state((kind, k, form, seen[0]))
        rec.trace()
    finally:
        shutil.rmtree(d)


# --- what a file holds when it is called --------------------------------------------------------------------------

# text of the file, and what it does with one number (None: the call fails)
TEXTS = [('PARAM1 + 1', lambda n: n + 1), ('PARAM1 + 2', lambda n: n + 2), ('x = PARAM1\nx * x', lambda n: n * n), ('PARAM1 + )', None),
         ('#INPUT number:distance\nPARAM1', None), ('#INPUT number\nPARAM1 + 3', lambda n: n + 3)]
FOPS = [('write', 'A', k) for k in range(len(TEXTS))] + [('write', 'B', k) for k in (0, 2)] + [('remove', 'A', 0), ('point', 'abs', 0), ('point', 'rel', 0), ('point', 'home', 0),
        ('point', 'inner', 0), ('go', 'A', 0), ('go', 'B', 0), ('swap', 'A', 0)]
FCALLS = [('@f(3)', lambda f: f(3)), ('@f(@f(2))', lambda f: f(f(2))), ('@g_(4)', lambda f: f(f(4)))]


def gen_files(tier):
    n = 3 if tier == 'quick' else 4
    for k in range(1, n + 1):
        for h in itertools.product(range(len(FOPS)), repeat=k):
            yield list(h)


def case_files(hist, rec):
    """A call runs what the named file holds at that time: every history of writes, removals, renames and changes of folder, with all calls after each step"""
    d = scratch()
    back = os.getcwd()
    home = os.environ.get('HOME')
    try:
        for n in 'AB':
            os.mkdir(os.path.join(d, n))
        with open(os.path.join(d, 'inner'), 'w') as fh:
            fh.write("f = '%s'\n@f(PARAM1)" % os.path.join(d, 'A', 'f'))
        os.environ['HOME'] = d
        os.chdir(os.path.join(d, 'A'))
        c = calc.shared()
        calc.run(c, "reset()\ng_ = {@f(@f(PARAM1))}\nf = '%s'" % os.path.join(d, 'A', 'f'))
        held = {'A': None, 'B': None}
        cwd, ptr = 'A', 'abs'
        for i in hist:
            op, arg, k = FOPS[i]
            if op == 'write':
                with open(os.path.join(d, arg, 'f'), 'w') as fh:
                    fh.write(TEXTS[k][0])
                os.utime(os.path.join(d, arg, 'f'), (10 ** 9, 10 ** 9))
                held[arg] = k
            elif op == 'remove':
                if held[arg] is not None:
                    os.remove(os.path.join(d, arg, 'f'))
                held[arg] = None
            elif op == 'swap':
                for a, b in (('A', 'T'), ('B', 'A'), ('T', 'B')):
                    a, b = os.path.join(d, a, 'f') if a != 'T' else os.path.join(d, 't'), os.path.join(d, b, 'f') if b != 'T' else os.path.join(d, 't')
                    if os.path.exists(a):
                        os.replace(a, b)
                held = {'A': held['B'], 'B': held['A']}
            elif op == 'go':
                os.chdir(os.path.join(d, arg))
                cwd = arg
            else:
                ptr = arg
                calc.run(c, "f = '%s'" % {'abs': os.path.join(d, 'A', 'f'), 'rel': './f', 'home': '~/B/f', 'inner': os.path.join(d, 'inner')}[arg])
            k = held[{'abs': 'A', 'rel': cwd, 'home': 'B', 'inner': 'A'}[ptr]]
            fn = TEXTS[k][1] if k is not None else None
            for text, how in FCALLS:
                o = calc.run(c, text)
                rec.step()
                got = calc.res_obs(o.results[-1], c) if o.ok() else o.kind
                want = 'exec' if fn is None else obs_ref(how(fn))
                if not rec.check(got == want, 'what the file holds at the time of the call', [[FOPS[j] for j in hist], FOPS[i], text, want], got):
                    return
        rec.state((cwd, ptr, sorted(held.items(), key=str)))
        rec.trace()
    finally:
        os.chdir(back)
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home
        shutil.rmtree(d)


SPACES = [
    Space('bodies', gen_bodies, case_bodies, 'all function bodies up to the length, inline and external, in all calling forms'),
    Space('nested', gen_nested, case_nested, 'functions calling functions, inline and external in every combination'),
    Space('inputs', gen_inputs, case_inputs, 'declared input types and dimensions of external functions'),
    Space('histories', gen_hist, case_hist, 'all histories of definitions, redefinitions, calls and assignments up to the length'),
    Space('broken', gen_broken, case_broken, 'functions that cannot be read, parsed or completed, in every calling form'),
    Space('files', gen_files, case_files, 'all histories of writing, removing, exchanging and naming the files of external functions, with calls after each step'),
]
