"""Reference semantics over fractions.Fraction, independent of the code under test."""
from fractions import Fraction
import math


class RefErr(Exception):
    pass


def trunc_div(a, b):
    q = a / b
    return Fraction(math.floor(q) if q >= 0 else -math.floor(-q))


def binop(op, a, b):
    if op == '+':
        return a + b
    if op == '-':
        return a - b
    if op == '*':
        return a * b
    if op == '/':
        if b == 0:
            raise RefErr('div0')
        return a / b
    if op == '%':
        if b == 0:
            raise RefErr('div0')
        return a - b * trunc_div(a, b)
    if op == '\\':
        if b == 0:
            raise RefErr('div0')
        return trunc_div(a, b)
    if op == '^':
        if b.denominator != 1:
            raise Unmodelled()
        if b < 0 and a == 0:
            raise RefErr('0^-n')
        if a == 0 and b == 0:
            raise Unmodelled()
        if abs(b) > 400:
            raise Unmodelled()
        return a ** int(b)
    raise AssertionError(op)


class Unmodelled(Exception):
    """Outside the domain the reference decides."""


def digits(f):
    return max(len(str(abs(f.numerator))), len(str(f.denominator)))


def cmpop(op, a, b):
    return {'<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
