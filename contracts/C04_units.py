"""C04: units of measure (resqpy.weights_and_measures)"""

import json
import os

from vcpy.harness import contract

W = 'resqpy.weights_and_measures.weights_and_measures.'
E = 'resqpy.olio.exceptions.'
TABLE = 'one obligation for each entry of the table of units shipped with the code'


def table(c):
    """the data file which is part of the code"""
    f = os.path.join(os.path.dirname(c.mod('resqpy').__file__), 'olio', 'data', 'properties.json')
    with open(f) as g:
        return json.load(g)


def factors(c, name, offset = True):
    """factors for a unit: base value = (a + b x) / q"""
    a = c.real(name + '_a') if offset else 0
    b, q = c.real(name + '_b'), c.real(name + '_q')
    c.apart(b * 1.0e-3, q * 1.0e-3)
    c.assume(b != 0.0, q != 0.0)
    return a, b, q


def arbitrary(c, names, offset = True, base = None, dim = None):
    """gives units arbitrary conversion factors"""
    f = {n: factors(c, 'f%d' % i, offset) for i, n in enumerate(names)}

    def get_conversion_factors(uom):
        a, b, q = f[uom]
        return (base or {}).get(uom, 'base'), (dim or {}).get(uom, 'D'), (a, b, q, 0)
    c.replace(W[:-1], 'get_conversion_factors', get_conversion_factors)
    return f


def value(c, name = 'x'):
    """a number or an array of any length"""
    if c.choice(name + '_array', [False, True]):
        n = c.int('n', 1)
        return c.array(name, (n,), float, nan = True), c.int('k', 0, n - 1)
    return c.real(name), None


def at(x, k):
    return x if k is None else x[k]


@contract('C04', 'convert_formula')
def convert_formula(c):
    """a converted value stands for the same value in the base unit, whatever the factors of the two units"""
    f = arbitrary(c, ['m', 'ft'])
    x, k = value(c)
    x0 = at(x, k)
    r = at(c.fn(W + 'convert')(x, 'm', 'ft'), k)
    c.check('input kept', c.eq(at(x, k), x0))
    (a1, b1, q1), (a2, b2, q2) = f['m'], f['ft']
    if c.isnan(x0):
        c.check('nan', c.isnan(r))
    else:
        c.check('number', c.Not(c.isnan(r)))
        c.check('same base value', c.eq((a2 + b2 * r) * q1, (a1 + b1 * x0) * q2))


@contract('C04', 'convert_inverse')
def convert_inverse(c):
    """converting there and back returns the original value"""
    arbitrary(c, ['m', 'ft'])
    x = c.real('x')
    conv = c.fn(W + 'convert')
    c.check('round trip', c.eq(conv(conv(x, 'm', 'ft'), 'ft', 'm'), x))


@contract('C04', 'convert_composes')
def convert_composes(c):
    """converting by way of another unit is the same as converting directly"""
    arbitrary(c, ['m', 'ft', 'cm'])
    x = c.real('x')
    conv = c.fn(W + 'convert')
    c.check('composes', c.eq(conv(conv(x, 'm', 'cm'), 'cm', 'ft'), conv(x, 'm', 'ft')))


@contract('C04', 'convert_in_place')
def convert_in_place(c):
    """in place conversion gives the same values as conversion to a new array, in the array passed; units which do not share a
    zero are refused, leaving the array alone"""
    offset = c.choice('offset', [False, True])
    f = arbitrary(c, ['m', 'ft'], offset)
    n = c.int('n', 1)
    k = c.int('k', 0, n - 1)
    x = c.array('x', (n,), float, nan = True)
    x0 = x[k]
    conv = c.fn(W + 'convert')
    want = conv(x.copy(), 'm', 'ft')[k]
    r, e = c.attempt(NotImplementedError, conv, x, 'm', 'ft', None, True)
    if e is not None:
        c.check('refused', c.Or(f['m'][0] != 0.0, f['ft'][0] != 0.0), c.eq(x[k], x0))
    else:
        c.check('result', c.eq(r[k], want))
        c.check('in place', c.eq(x[k], want))


@contract('C04', 'same_unit')
def same_unit(c):
    """conversion between two names of one unit leaves values alone"""
    arbitrary(c, ['m', 'ft'])
    x, k = value(c)
    x0 = at(x, k)
    a, b = c.choice('names', [('m', 'metres'), ('ft', 'FEET'), ('foot', 'ft')])
    c.check('unchanged', c.eq(at(c.fn(W + 'convert')(x, a, b, None, c.choice('inplace', [False, True])), k), x0))


@contract('C04', 'incompatible')
def incompatible(c):
    """units of different dimensions are never converted; those of the same dimension with different bases are"""
    other = c.choice('dim', ['D', 'E'])
    f = arbitrary(c, ['m', 'ft'], True, {'m': 'p', 'ft': 'q'}, {'m': 'D', 'ft': other})
    x = c.real('x')
    r, e = c.attempt(c.fn(E + 'IncompatibleUnitsError'), c.fn(W + 'convert'), x, 'm', 'ft')
    c.check('refused', (e is not None) == (other != 'D'))
    if e is None:
        (a1, b1, q1), (a2, b2, q2) = f['m'], f['ft']
        c.check('converted', c.eq((a2 + b2 * r) * q1, (a1 + b1 * x) * q2))


@contract('C04', 'table_sound', assumptions = [TABLE])
def table_sound(c):
    """every unit of the table has factors which can be applied and inverted, and a base unit, of the same dimension, which has the
    factors of a base unit"""
    units = table(c)['units']
    u = c.choice('unit', sorted(units))
    base, dim, (a, b, q, d) = c.fn(W + 'get_conversion_factors')(u)
    c.check('invertible', b != 0, q != 0, d == 0)
    c.check('dimension', dim == units[u]['dimension'])
    base2, dim2, f2 = c.fn(W + 'get_conversion_factors')(base)
    c.check('base', base2 == base, dim2 == dim, tuple(f2) == (0, 1, 1, 0))
    c.check('table', base == units[u].get('baseUnit', u), 'A' not in units[u] or (a, b, q) == tuple(units[u][i] for i in 'ABC'))


@contract('C04', 'every_unit_converts', assumptions = [TABLE])
def every_unit_converts(c):
    """every unit converts to the base unit of its dimension, by its factors, and back; and to another unit with that base"""
    units = table(c)['units']
    names = sorted(units)
    k = c.choice('unit', list(range(len(names))))
    u = names[k]
    base = units[u].get('baseUnit', u)
    same = [v for v in names if units[v].get('baseUnit', v) == base]
    v = same[(same.index(u) + 1) % len(same)]
    a, b, q = [units[u].get(i, z) for i, z in zip('ABC', (0, 1, 1))]
    x = c.real('x', 0.5, 2.0)
    conv = c.fn(W + 'convert')
    y = conv(x, u, base)
    c.check('to base', c.eq(y * q / b, (a + b * x) / b))
    c.check('back', c.eq(conv(y, base, u), x))
    w = conv(x, u, v)
    c.check('other and back', c.eq(conv(w, v, u), x))
    c.check('by way of base', c.eq(conv(conv(w, v, base), base, u), x))


@contract('C04', 'known_factors')
def known_factors(c):
    """values of well known conversions"""
    x = c.real('x')
    u, v, m, d = c.choice('pair', [('ft', 'm', 0.3048, 0.0), ('ft[US]', 'm', 1200.0 / 3937.0, 0.0), ('in', 'm', 0.0254, 0.0),
                                   ('km', 'm', 1000.0, 0.0), ('cm', 'm', 0.01, 0.0), ('bbl', 'm3', 0.158987294928, 0.0),
                                   ('ft3', 'm3', 0.028316846592, 0.0), ('L', 'm3', 0.001, 0.0),
                                   ('psi', 'kPa', 44.482216152605 / 6.4516, 0.0), ('bar', 'kPa', 100.0, 0.0),
                                   ('d', 's', 86400.0, 0.0), ('h', 's', 3600.0, 0.0), ('min', 's', 60.0, 0.0),
                                   ('wk', 'd', 7.0, 0.0), ('ms', 's', 0.001, 0.0), ('%', 'Euc', 0.01, 0.0),
                                   ('degC', 'K', 1.0, 273.15), ('degF', 'degC', 5.0 / 9.0, -160.0 / 9.0),
                                   ('bbl/d', 'm3/d', 0.158987294928, 0.0), ('1000 ft3', 'm3', 28.316846592, 0.0),
                                   ('cP', 'Pa.s', 0.001, 0.0), ('g/cm3', 'kg/m3', 1000.0, 0.0)])
    r = c.fn(W + 'convert')(x, u, v)
    tol = 1.0e-9 * (c.abs(x * m) + abs(d) + c.abs(x) + 1.0e-12)
    c.check('factor', c.abs(r - (m * x + d)) <= tol)


def variants(u):
    return [u, ' ' + u + '\t', u.upper(), u.lower(), u.title(), '(' + u + ')']


@contract('C04', 'aliases', assumptions = [TABLE])
def aliases(c):
    """every known name of a unit, in any case, resolves to the unit; resolution of a resolved unit is itself"""
    al = c.fn(W + 'UOM_ALIASES')
    units = table(c)['units']
    pairs = [(u, a) for u in sorted(al) for a in sorted(al[u])]
    k = c.choice('alias', list(range(len(pairs))))
    u, a = pairs[k]
    rq = c.fn(W + 'rq_uom')
    c.check('unit', u in units)
    c.check('alias', rq(a) == u or a in units)
    c.check('idempotent', rq(rq(a)) == rq(a))
    for v in variants(a):
        c.check('valid', rq(v) in units)
        c.check('space ignored', rq(' ' + v + ' ') == rq(v))
        if v not in units and v[0] != '(' and v.lower() not in c.fn(W + 'CASE_INSENSITIVE_UOMS'):
            c.check('case', rq(v) == u)


@contract('C04', 'units_resolve', assumptions = [TABLE])
def units_resolve(c):
    """every unit of the table resolves to itself, with or without brackets and spaces, and is accepted for the quantities that
    list it and no others"""
    t = table(c)
    names = sorted(t['units'])
    u = c.choice('unit', names)
    rq = c.fn(W + 'rq_uom')
    c.check('itself', rq(u) == u, rq('  ' + u) == u)
    if u[0] != '(':
        c.check('brackets', rq('(' + u + ')') == u if '(' not in u else True)
    if u == u.lower() and u not in c.fn(W + 'UOM_ALIAS_MAP') and u.upper() not in t['units']:
        c.check('upper case', rq(u.upper()) == u)
    for q in sorted(t['quantities'])[::(1 if len(u) % 7 == 0 else 11)]:
        r, e = c.attempt(c.fn(E + 'InvalidUnitError'), rq, u, q)
        c.check('quantity', (e is None) == (u in t['quantities'][q]['members']), e is not None or r == u)
    c.check('refused', c.attempt(c.fn(E + 'InvalidUnitError'), rq, u + '~')[1] is not None)


@contract('C04', 'ratios_resolve', assumptions = [TABLE])
def ratios_resolve(c):
    """a ratio of two names of units resolves to the ratio of the units, where that is a unit"""
    al = c.fn(W + 'UOM_ALIASES')
    units = table(c)['units']
    pairs = [(u, a) for u in sorted(al) for a in sorted(al[u]) if '/' not in a and a not in units and a.lower() not in units]
    k = c.choice('first', list(range(len(pairs))))
    u, a = pairs[k]
    rq = c.fn(W + 'rq_uom')
    for v, b in pairs:
        if b + '/' + a in units or (b + '/' + a).lower() in units or (b + '/' + a).lower() in c.fn(W + 'UOM_ALIAS_MAP'):
            continue
        r, e = c.attempt(c.fn(E + 'InvalidUnitError'), rq, b + '/' + a)
        if v + '/' + u in units:
            c.check('ratio', r == v + '/' + u)
        else:
            c.check('no such unit', e is not None)


WRAPPERS = {'convert_times': ('time', 'd', 's'), 'convert_lengths': ('length', 'm', 'ft'),
            'convert_pressures': ('pressure', 'kPa', 'psi'), 'convert_volumes': ('volume', 'm3', 'bbl'),
            'convert_flow_rates': ('volume per time', 'm3/d', 'ft3/d')}


@contract('C04', 'by_quantity')
def by_quantity(c):
    """the functions for a given quantity convert, in place, as the general function does, and refuse units of other quantities"""
    name = c.choice('function', sorted(WRAPPERS))
    q, u, v = WRAPPERS[name]
    f = arbitrary(c, [u, v], False)
    n = c.int('n', 1)
    k = c.int('k', 0, n - 1)
    x = c.array('x', (n,), float)
    x0 = x[k]
    fn = c.fn(W + name)
    inv = name == 'convert_times' and c.choice('invert', [False, True])
    r = fn(x, u, v, invert = inv) if name == 'convert_times' else fn(x, u, v)
    (_, b1, q1), (_, b2, q2) = (f[v], f[u]) if inv else (f[u], f[v])
    c.check('converted', c.eq(x[k] * b2 * q1, b1 * x0 * q2))
    c.check('returned', c.eq(r[k], x[k]))
    if c.choice('scalar', [True, False]):
        y = c.real('y')
        c.check('scalar', c.eq((fn(y, v, u, invert = True) if inv else fn(y, u, v)) * f[v][1] * f[u][2], f[u][1] * y * f[v][2]))
    for w in ('mol', 'gAPI'):
        _, e = c.attempt(c.fn(E + 'InvalidUnitError'), fn, 1.0, u, w)
        c.check('refused', e is not None)


@contract('C04', 'transmissibilities')
def transmissibilities(c):
    """transmissibility conversion applies the volume and viscosity factors and divides by those for pressure and time"""
    vol = (('m3', 'bbl'), ('m3', 'm3'))
    vis = (('cP', 'Pa.s'), ('cP', 'cP'))
    pre = (('kPa', 'psi'), ('psi', 'psi'))
    tim = (('d', 's'), ('d', 'd'))
    parts = [c.choice(n, o) for n, o in (('vol', vol), ('vis', vis), ('pre', pre), ('tim', tim))]
    f = arbitrary(c, ['m3', 'bbl', 'cP', 'Pa.s', 'kPa', 'psi', 'd', 's'], False)
    form = lambda i: f'{parts[0][i]}.{parts[1][i]}/({parts[2][i]}.{parts[3][i]})'
    n = c.int('n', 1)
    k = c.int('k', 0, n - 1)
    x = c.array('x', (n,), float)
    x0 = x[k]
    r = c.fn(W + 'convert_transmissibilities')(x, form(0), form(1))
    num, den = 1.0, 1.0
    for i, (u, v) in enumerate(parts):
        if u == v:
            continue
        (_, b1, q1), (_, b2, q2) = f[u], f[v]
        if i < 2:
            num, den = num * b1 * q2, den * q1 * b2
        else:
            num, den = num * q1 * b2, den * b1 * q2
    c.check('factor', c.eq(x[k] * den, x0 * num))
    c.check('returned', c.eq(r[k], x[k]))


@contract('C04', 'transmissibility_units')
def transmissibility_units(c):
    """a transmissibility unit with any component not of the right quantity, or not of the expected form, is refused"""
    x = c.real('x')
    good = 'm3.cP/(kPa.d)'
    bad = c.choice('units', ['ft.cP/(kPa.d)', 'm3.m/(kPa.d)', 'm3.cP/(m.d)', 'm3.cP/(kPa.ft)', 'm3.cP/kPa.d', 'm3/(kPa.d)',
                             'm3.cP/(kPa.d', 'cP.m3/(kPa.d)', 'm3.cP/(d.kPa)', 'rb.cP/(kPa.d)'])
    f = c.fn(W + 'convert_transmissibilities')
    for a, b in ((good, bad), (bad, good), (bad, bad)):
        _, e = c.attempt(AssertionError, f, x, a, b)
        c.check('refused', e is not None)
