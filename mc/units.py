"""Independent table of units, taken from the standards (SI brochure, international yard and pound, UK and US measures, IEC 80000).

Sizes are exact rationals in coherent SI units.  The dimension vector is over (m, kg, s, A, K, mol, cd, rad, sr, bit).
"""
from fractions import Fraction as F
import itertools

BASE = ('m', 'kg', 's', 'A', 'K', 'mol', 'cd', 'rad', 'sr', 'bit')


def vec(**kw):
    return tuple(kw.get(b, 0) for b in BASE)


DIM = {
    'distance': vec(m=1), 'mass': vec(kg=1), 'time': vec(s=1), 'electriccurrent': vec(A=1), 'temperature': vec(K=1), 'substance': vec(mol=1),
    'luminousintensity': vec(cd=1), 'angle': vec(rad=1), 'solidangle': vec(sr=1), 'data': vec(bit=1),
    'area': vec(m=2), 'volume': vec(m=3), 'velocity': vec(m=1, s=-1), 'acceleration': vec(m=1, s=-2), 'frequency': vec(s=-1), 'radioactivity': vec(s=-1),
    'force': vec(kg=1, m=1, s=-2), 'energy': vec(kg=1, m=2, s=-2), 'power': vec(kg=1, m=2, s=-3), 'pressure': vec(kg=1, m=-1, s=-2),
    'electriccharge': vec(A=1, s=1), 'electricalpotential': vec(kg=1, m=2, s=-3, A=-1), 'resistance': vec(kg=1, m=2, s=-3, A=-2),
    'electricalconductance': vec(kg=-1, m=-2, s=3, A=2), 'capacitance': vec(kg=-1, m=-2, s=4, A=2), 'inductance': vec(kg=1, m=2, s=-2, A=-2),
    'magneticflux': vec(kg=1, m=2, s=-2, A=-1), 'magneticfluxdensity': vec(kg=1, s=-2, A=-1), 'luminousflux': vec(cd=1, sr=1),
    'illuminance': vec(cd=1, sr=1, m=-2), 'absorbeddose': vec(m=2, s=-2), 'equivalentdose': vec(m=2, s=-2), 'catalyticactivity': vec(mol=1, s=-1),
}

PREFIX = {'atto': ('a', -18), 'femto': ('f', -15), 'pico': ('p', -12), 'nano': ('n', -9), 'micro': ('µ', -6), 'milli': ('m', -3), 'centi': ('c', -2),
          '': ('', 0), 'kilo': ('k', 3), 'mega': ('M', 6), 'giga': ('G', 9), 'tera': ('T', 12), 'peta': ('P', 15), 'exa': ('E', 18),
          'zetta': ('Z', 21), 'yotta': ('Y', 24)}
IEC = {'kibi': ('ki', 1), 'mebi': ('Mi', 2), 'gibi': ('Gi', 3), 'tebi': ('Ti', 4), 'pebi': ('Pi', 5), 'exbi': ('Ei', 6), 'zebi': ('Zi', 7), 'yobi': ('Yi', 8)}

ALLP = ('atto', 'femto', 'pico', 'nano', 'micro', 'milli', '', 'kilo', 'mega', 'giga', 'tera', 'peta', 'exa')


def upto(p, extra=()):
    return ALLP[:ALLP.index(p) + 1] + tuple(extra)


def from_(p):
    return ALLP[ALLP.index(p):]


PI50 = F('3.14159265358979323846264338327950288419716939937510582097494459')

# (dimension, names plural first, symbols, size, prefixes)
TABLE = [
    ('distance', 'meters meter metres metre', 'm', 1, upto('kilo', ['centi'])),
    ('distance', 'lightyears lightyear', '', 299792458 * 86400 * F('365.25'), ('',)),
    ('distance', 'lightweeks lightweek', '', 299792458 * 86400 * 7, ('',)),
    ('distance', 'lightdays lightday', '', 299792458 * 86400, ('',)),
    ('distance', 'lighthours lighthour', '', 299792458 * 3600, ('',)),
    ('distance', 'lightminutes lightminute', '', 299792458 * 60, ('',)),
    ('distance', 'lightseconds lightsecond', '', 299792458, ('',)),
    ('distance', 'astronomical_units astronomical_unit', 'au', 149597870700, ('',)),
    ('distance', 'parsecs parsec', 'pc', F('30856775814913673'), from_('')),
    ('distance', 'inches inch', 'in', F('0.0254'), ('',)),
    ('distance', 'feet foot', 'ft', F('0.3048'), ('',)),
    ('distance', 'yards yard', 'yd', F('0.9144'), ('',)),
    ('distance', 'miles mile', 'mi', F('0.9144') * 1760, ('',)),
    ('distance', 'nautical_miles nautical_mile', 'nmi', 1852, ('',)),
    ('mass', 'grams gram', 'g', F(1, 1000), upto('kilo')),
    ('mass', 'tonnes tonne', '', 1000, from_('')),
    ('mass', 'grains grain', 'gr', F('0.45359237') / 7000, ('',)),
    ('mass', 'ounces ounce', 'oz', F('0.45359237') / 16, ('',)),
    ('mass', 'pounds pound', 'lb', F('0.45359237'), ('',)),
    ('mass', 'stone stone', 'st', F('0.45359237') * 14, ('',)),
    ('mass', 'short_tons short_ton', '', F('0.45359237') * 2000, ('',)),
    ('mass', 'long_tons long_ton', '', F('0.45359237') * 2240, ('',)),
    ('time', 'seconds second', 's', 1, upto('')),
    ('time', 'minutes minute', '', 60, ('',)),
    ('time', 'hours hour', 'h', 3600, ('',)),
    ('time', 'days day', '', 86400, ('',)),
    ('time', 'weeks week', '', 604800, ('',)),
    ('time', 'months month', '', F('365.2425') * 86400 / 12, ('',)),
    ('time', 'years year', 'yr', F('365.2425') * 86400, ('',)),
    ('temperature', 'kelvin kelvin', 'K', 1, ALLP),
    ('electriccurrent', 'amperes ampere', 'A', 1, ALLP),
    ('substance', 'moles mole', 'mol', 1, ALLP),
    ('luminousintensity', 'candelas candela', 'cd', 1, ALLP),
    ('angle', 'radians radian', 'rad', 1, ('',)),
    ('angle', 'degrees degree', '° deg', PI50 / 180, ('',)),
    ('solidangle', 'steradians steradian', 'sr', 1, ('',)),
    ('data', 'bits bit', 'bit', 1, from_('') + ('zetta', 'yotta') + tuple(IEC)),
    ('data', 'bytes byte', 'B', 8, from_('') + ('zetta', 'yotta') + tuple(IEC)),
    ('area', 'acres acre', 'ac', 4840 * F('0.9144') ** 2, ('',)),
    ('area', 'hectares hectare', 'ha', 10000, ('',)),
    ('volume', 'liters liter litres litre', 'l', F(1, 1000), upto('', ['centi'])),
    ('volume', 'UK_fluid_ounces UK_fluid_ounce', '', F('0.00454609') / 160, ('',)),
    ('volume', 'UK_gills UK_gill', '', F('0.00454609') / 32, ('',)),
    ('volume', 'UK_pints UK_pint', '', F('0.00454609') / 8, ('',)),
    ('volume', 'UK_quarts UK_quart', '', F('0.00454609') / 4, ('',)),
    ('volume', 'UK_gallons UK_gallon', '', F('0.00454609'), ('',)),
    ('volume', 'US_drams US_dram', '', 231 * F('0.0254') ** 3 / 1024, ('',)),
    ('volume', 'US_fluid_ounces US_fluid_ounce', '', 231 * F('0.0254') ** 3 / 128, ('',)),
    ('volume', 'US_gills US_gill', '', 231 * F('0.0254') ** 3 / 32, ('',)),
    ('volume', 'US_cups US_cup', '', 231 * F('0.0254') ** 3 / 16, ('',)),
    ('volume', 'US_pints US_pint', '', 231 * F('0.0254') ** 3 / 8, ('',)),
    ('volume', 'US_quarts US_quart', '', 231 * F('0.0254') ** 3 / 4, ('',)),
    ('volume', 'US_gallons US_gallon', '', 231 * F('0.0254') ** 3, ('',)),
    ('velocity', 'knots knot', 'kn kt', F(1852, 3600), ('',)),
    ('acceleration', 'gees gee', '', F('9.80665'), ('',)),
    ('pressure', 'pascals pascal', 'Pa', 1, ALLP),
    ('pressure', 'atmospheres atmosphere', 'atm', 101325, ('',)),
    ('pressure', 'pound-force_per_square_inch pound-force_per_square_inch', 'psi', F('0.45359237') * F('9.80665') / F('0.0254') ** 2, ('',)),
    ('frequency', 'hertz hertz', 'Hz', 1, ALLP),
    ('radioactivity', 'becquerels becquerel', 'Bq', 1, ALLP),
    ('force', 'newtons newton', 'N', 1, ALLP),
    ('energy', 'joules joule', 'J', 1, ALLP),
    ('power', 'watts watt', 'W', 1, ALLP),
    ('electriccharge', 'coulombs coulomb', 'C', 1, ALLP),
    ('electricalpotential', 'volts volt', 'V', 1, ALLP),
    ('resistance', 'ohms ohm', 'Ω', 1, ALLP),
    ('electricalconductance', 'siemens siemens', 'S', 1, ALLP),
    ('capacitance', 'farads farad', 'F', 1, ALLP),
    ('inductance', 'henries henry', 'H', 1, ALLP),
    ('magneticflux', 'webers weber', 'Wb', 1, ALLP),
    ('magneticfluxdensity', 'teslas tesla', 'T', 1, ALLP),
    ('luminousflux', 'lumens lumen', 'lm', 1, ALLP),
    ('illuminance', 'lux lux', 'lx', 1, ALLP),
    ('absorbeddose', 'grays gray', 'Gy', 1, ALLP),
    ('equivalentdose', 'sieverts sievert', 'Sv', 1, ALLP),
    ('catalyticactivity', 'katals katal', 'kat', 1, ALLP),
]

AMBIGUOUS = [
    ('tons ton', '', 'short ton', 'long ton'),
    ('fluid_ounces fluid_ounce', 'floz fl.oz', 'US fluid ounce', 'UK fluid ounce'),
    ('pints pint', 'pt', 'US pint', 'UK pint'),
    ('quarts quart', '', 'US quart', 'UK quart'),
    ('gallons gallon', 'gal', 'US gallon', 'UK gallon'),
]

# temperature scales: kelvin = (value + offset) * size
SCALES = {'Celsius': (F('273.15'), F(1)), 'Fahrenheit': (F('459.67'), F(5, 9))}
SCALE_NAMES = {'Celsius': ('Celsius', 'deg C', '°C'), 'Fahrenheit': ('Fahrenheit', 'deg F', '°F')}


class Unit:
    __slots__ = ('dim', 'names', 'symbols', 'size', 'vec', 'prefix', 'plain')

    def __init__(self, dim, names, symbols, size, prefix):
        self.dim, self.names, self.symbols, self.size, self.prefix = dim, names, symbols, size, prefix
        self.vec = DIM[dim]


def _build():
    out = []
    for dim, names, symbols, size, prefixes in TABLE:
        for p in prefixes:
            if p in IEC:
                ps, scale = IEC[p][0], F(1024) ** IEC[p][1]
            else:
                ps, scale = PREFIX[p][0], F(10) ** PREFIX[p][1]
            u = Unit(dim, [p + n.replace('_', ' ') for n in names.split()], [ps + s for s in symbols.split()], F(size) * scale, p)
            u.plain = names.split()[0].replace('_', ' ')
            out.append(u)
    return out


UNITS = _build()
BYNAME = {}
for _u in UNITS:
    for _n in _u.names:
        BYNAME[_n] = _u
for _n in SCALES:
    _u = Unit('temperature', [_n], list(SCALE_NAMES[_n][2:]), SCALES[_n][1], '')
    _u.plain = _n
    BYNAME[_n] = _u
BYSYMBOL = {s: u for u in UNITS for s in u.symbols}


def size_vec(unit):
    """(size, dimension vector) of a calculator's unit (UnitPowerList or None), through the names it shows"""
    if unit is None:
        return F(1), (0,) * len(BASE)
    size, v = F(1), [F(0)] * len(BASE)
    for up in unit.list():
        u = BYNAME[up.unit.names()[0]]
        p = F(up.power.num) / F(up.power.den) if not isinstance(up.power, int) else F(up.power)
        if p.denominator == 1:
            size *= u.size ** int(p)
        else:
            size *= F(float(u.size) ** float(p))
        v = [a + b * p for a, b in zip(v, u.vec)]
    return size, tuple(v)


def size_of(pairs):
    """size and vector of [(name or symbol, power), ...]"""
    size, v = F(1), [0] * len(BASE)
    for n, p in pairs:
        u = BYNAME.get(n) or BYSYMBOL[n]
        size *= u.size ** p
        v = [a + b * p for a, b in zip(v, u.vec)]
    return size, tuple(v)


def text_of(pairs):
    return ' '.join(n if p == 1 else '%s^%d' % (n, p) for n, p in pairs)
