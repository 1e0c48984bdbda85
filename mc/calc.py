"""Driving the calculator through its public interface, and canonical observations of what it answers."""
import datetime
import io
import contextlib
from fractions import Fraction

from modularcalculator.modularcalculator import ModularCalculator
from modularcalculator.objects.exceptions import (CalculatorException, CalculatingException, ParsingException,
                                                  ExecutionException)
from modularcalculator.objects.items import OperandResult
from modularcalculator.objects.number import Number
from modularcalculator.objects.units import UnitPowerList

_cache = {}


def new(preset='Computing'):
    return ModularCalculator(preset)


def shared(preset='Computing'):
    """A calculator reused for expressions that touch no state."""
    if preset not in _cache:
        _cache[preset] = ModularCalculator(preset)
    return _cache[preset]


def fresh_shared(preset='Computing'):
    _cache.pop(preset, None)
    return shared(preset)


def frac(n):
    return Fraction(int(n.num), int(n.den))


def unit_obs(unit):
    """{unit plural name: power} in canonical order; None for no unit"""
    if unit is None:
        return None
    return tuple(sorted((up.unit.names()[0], _fr(frac(up.power))) for up in unit.list()))


def _fr(f):
    if f.numerator.bit_length() > 14000 or f.denominator.bit_length() > 14000:
        return '%x/%x' % (f.numerator, f.denominator)      # beyond the interpreter's limit on decimal conversion
    return '%d/%d' % (f.numerator, f.denominator) if f.denominator != 1 else str(f.numerator)


def val_obs(value, c=None, text=False):
    if isinstance(value, bool):
        return ('b', value)
    if value is None:
        return ('none',)
    if isinstance(value, Number):
        if text:
            return ('n', _fr(frac(value)), num_text(value, c))
        return ('n', _fr(frac(value)))
    if isinstance(value, str):
        return ('s', value)
    if isinstance(value, list):
        return ('a', tuple(res_obs(v, c, text) for v in value))
    if isinstance(value, UnitPowerList):
        return ('u', unit_obs(value))
    if isinstance(value, Exception):
        return ('err',)
    if isinstance(value, (datetime.datetime, datetime.date)):
        return ('d', value.isoformat())
    if isinstance(value, OperandResult):
        return res_obs(value, c, text)
    if hasattr(value, 'text') and hasattr(value, 'items'):
        return ('f', value.text)
    return ('?', repr(type(value)), str(value))


def num_text(n, c=None):
    try:
        return n.to_string(c)
    except CaseAbort:
        raise
    except Exception as e:
        return '!' + type(e).__name__


class CaseAbort(Exception):
    pass


def res_obs(r, c=None, text=False):
    """(value, unit) of anything with .value and .unit"""
    return (val_obs(r.value, c, text), unit_obs(r.unit))


class Out:
    """What one calculate() call did."""

    __slots__ = ('kind', 'results', 'exc', 'message', 'response', 'next')

    def __init__(self, kind, results=None, exc=None, response=None):
        self.kind = kind            # 'ok', 'parse', 'exec', 'crash'
        self.results = results
        self.exc = exc
        self.message = getattr(exc, 'message', None) if exc is not None else None
        self.response = response

    def ok(self):
        return self.kind == 'ok'

    def err(self):
        return self.kind in ('parse', 'exec')

    def obs(self, c=None, text=False):
        """canonical observation: kind and all results with a value"""
        rs = self.results if self.results is not None else []
        return (self.kind, tuple(res_obs(r, c, text) for r in rs if r.has_result()))

    def last(self):
        rs = [r for r in self.results if r.has_result()]
        return rs[-1] if rs else None


def run(c, expr, **flags):
    try:
        r = c.calculate(expr, flags or None)
        return Out('ok', r.results, None, r)
    except ParsingException as e:
        return Out('parse', _partial(e), e)
    except ExecutionException as e:
        return Out('exec', _partial(e), e)
    except CalculatingException as e:
        return Out('exec', _partial(e), e)
    except RecursionError as e:
        return Out('crash', None, e)
    except Exception as e:
        return Out('crash', None, e)


def _partial(e):
    return e.response.results if e.has_response() else None


def value(c, expr):
    """single-statement convenience: ('ok', value, unit) / ('err',) / ('crash', repr)"""
    o = run(c, expr)
    if o.ok():
        r = o.last()
        if r is None:
            return ('empty',)
        return ('ok', r.value, r.unit)
    if o.err():
        return ('err',)
    return ('crash', repr(o.exc))


def obs1(c, expr, text=False):
    """canonical observation of a single-statement expression"""
    o = run(c, expr)
    if o.ok():
        r = o.last()
        return ('empty',) if r is None else ('ok',) + res_obs(r, c, text)
    if o.err():
        return ('err',)
    return ('crash', type(o.exc).__name__)


def state_of(c):
    """Variables of a calculator through the documented include_state flag, without executing anything."""
    o = run(c, '1', include_state=True)
    if not o.ok():
        return ('no state', o.kind)
    return vars_obs(o.results[-1].state, c)


def vars_obs(state, c=None, text=True):
    return tuple(sorted((k, val_obs(v[0], c, text), unit_obs(v[1])) for k, v in state.items()))


@contextlib.contextmanager
def captured():
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf):
        yield buf


def lit(f):
    """A decimal literal for a rational with a finite decimal expansion, or a division."""
    f = Fraction(f)
    d = f.denominator
    while d % 2 == 0:
        d //= 2
    while d % 5 == 0:
        d //= 5
    if d != 1:
        return '(%d/%d)' % (f.numerator, f.denominator)
    n = 0
    while (f * 10 ** n).denominator != 1:
        n += 1
    i = int(f * 10 ** n)
    s = str(abs(i)).rjust(n + 1, '0')
    s = s[:len(s) - n] + ('.' + s[len(s) - n:] if n else '')
    return ('-' if i < 0 else '') + s


def num(f):
    f = Fraction(f)
    return Number(str(f.numerator), str(f.denominator))
