"""C03: conversion of points between coordinate reference systems (resqpy.crs)"""

from vcpy.harness import contract

CRS = 'resqpy.crs'
ORDERS = ['easting northing', 'northing easting', 'westing southing', 'southing westing', 'northing westing',
          'westing northing']
ROT = 'a rotation is exactly zero, or differs by more than a millionth of a degree from zero and from 360 degrees'
# rows: easting and northing, in terms of the first and second axis
EN = {'easting northing': ((1, 0), (0, 1)), 'northing easting': ((0, 1), (1, 0)), 'westing southing': ((-1, 0), (0, -1)),
      'southing westing': ((0, -1), (-1, 0)), 'northing westing': ((0, -1), (1, 0)), 'westing northing': ((-1, 0), (0, 1))}
SCALE = {'m': 1.0, 'ft': 0.3048, 'km': 1000.0}


def to_en(order, x, y):
    (a, b), (d, e) = EN[order]
    return a * x + b * y, d * x + e * y


def from_en(order, e, n):
    (a, b), (d, f) = EN[order]
    return a * e + d * n, b * e + f * n  # inverse is transpose


def make_crs(c, tag, orders = ORDERS, zdown = (True, False), offsets = 'any', rotated = (False, True), units = None,
             time = None, **kw):
    order = c.choice('order' + tag, orders)
    zd = c.choice('zdown' + tag, list(zdown))
    o = [c.real(n + 'off' + tag) for n in 'xyz']
    if offsets == 'nonzero':
        for v in o:
            c.assume(c.Or(v > 0.01, v < -0.01))
    elif offsets == 'zero':
        o = [0.0, 0.0, 0.0]
    rot = 0.0
    if c.choice('rotated' + tag, list(rotated)):
        rot = c.real('rot' + tag, -720.0, 720.0)
        c.assume(c.And(c.Or(rot > 1.0e-6, rot < -1.0e-6), c.Or(rot > 360.000001, rot < 359.999999)))
    xyu, zu = units or ('m', 'm')
    cr = c.fn(CRS + '.Crs')(None, x_offset = o[0], y_offset = o[1], z_offset = o[2], rotation = rot, xy_units = xyu,
                            z_units = zu, z_inc_down = zd, axis_order = order, time_units = time, **kw)
    cr.vc_def = (order, zd, o, rot)
    return cr


def to_parent(c, cr, p, gz = True, gorder = 'easting northing'):
    """independent statement of the conversion from local to parent coordinates"""
    order, zd, o, rot = cr.vc_def
    # the projection is rotated by the angle clockwise, when viewed from above, from the parent
    e, n = to_en(order, p[0], p[1])
    a = rot * c.pi / 180.0
    e, n = e * c.cos(a) + n * c.sin(a), -e * c.sin(a) + n * c.cos(a)
    x, y = from_en(order, e, n)
    x, y, z = x + o[0], y + o[1], p[2] + o[2]
    x, y = from_en(gorder, *to_en(order, x, y))
    return x, y, z if gz == zd else -z


def same(c, a, b):
    return c.And(c.eq(a[0], b[0]), c.eq(a[1], b[1]), c.eq(a[2], b[2]))


@contract('C03', 'switch_axes')
def switch_axes(c):
    """x, y pairs are converted between every pair of axis orders as the names of the axes say"""
    a, b = c.choice('from', ORDERS), c.choice('to', ORDERS)
    x, y = c.real('x'), c.real('y')
    e = from_en(b, *to_en(a, x, y))
    r = c.fn(CRS + '.switch_axes')(a, b, x, y)
    c.check('point', c.eq(r[0], e[0]), c.eq(r[1], e[1]))
    n = c.int('n', 1)
    pts = c.array('pts', (n, 3))
    old = pts.copy()
    c.fn(CRS + '.switch_axes_array')(a, b, pts)
    k = c.int('k', 0, n - 1)
    e = from_en(b, *to_en(a, old[k, 0], old[k, 1]))
    c.check('array', c.eq(pts[k, 0], e[0]), c.eq(pts[k, 1], e[1]), c.eq(pts[k, 2], old[k, 2]))


@contract('C03', 'local_to_global', assumptions = [ROT])
def local_to_global(c):
    """local points go to the parent by undoing the clockwise rotation, adding the offsets (in local axes), and changing the
    z sense and axes"""
    cr = make_crs(c, '')
    gz = c.choice('gz', [True, False])
    go = c.choice('gorder', ['easting northing', 'northing westing'])
    p = c.vec('p')
    g = cr.local_to_global((p[0], p[1], p[2]), global_z_inc_down = gz, global_axis_order = go)
    c.check('definition', same(c, g, to_parent(c, cr, p, gz, go)))


@contract('C03', 'global_to_local', assumptions = [ROT])
def global_to_local(c):
    """conversion to local is the inverse of the conversion to the parent"""
    cr = make_crs(c, '')
    gz = c.choice('gz', [True, False])
    go = c.choice('gorder', ['easting northing', 'northing westing'])
    p = c.vec('p')
    g = to_parent(c, cr, p, gz, go)
    l = cr.global_to_local(g, global_z_inc_down = gz, global_axis_order = go)
    c.check('inverse', same(c, l, p))


@contract('C03', 'defaults', assumptions = [ROT])
def defaults(c):
    """the parent is taken to be easting northing with z increasing downwards unless otherwise stated, for points and arrays"""
    cr = make_crs(c, '', orders = ['northing westing', 'easting northing'], offsets = 'nonzero')
    p = c.vec('p')
    g = to_parent(c, cr, p)
    c.check('to parent', same(c, cr.local_to_global((p[0], p[1], p[2])), g))
    c.check('from parent', same(c, cr.global_to_local(g), p))
    a = c.np.array([[p[0], p[1], p[2]]])
    cr.local_to_global_array(a)
    c.check('array to parent', same(c, a[0], g))
    cr.global_to_local_array(a)
    c.check('array from parent', same(c, a[0], p))


@contract('C03', 'arrays', assumptions = [ROT])
def arrays(c):
    """an array of points, of any length, is converted in place, each point as it would be converted on its own"""
    cr = make_crs(c, '', zdown = (True,), offsets = c.choice('offsets', ['nonzero', 'zero']))
    gz = c.choice('gz', [True, False])
    go = c.choice('gorder', ['easting northing', 'southing westing'])
    n = c.int('n', 1)
    pts = c.array('pts', (n, 3))
    old = pts.copy()
    k = c.int('k', 0, n - 1)
    if c.choice('way', ['to', 'from']) == 'to':
        cr.local_to_global_array(pts, global_z_inc_down = gz, global_axis_order = go)
        e = cr.local_to_global((old[k, 0], old[k, 1], old[k, 2]), global_z_inc_down = gz, global_axis_order = go)
    else:
        cr.global_to_local_array(pts, global_z_inc_down = gz, global_axis_order = go)
        e = cr.global_to_local((old[k, 0], old[k, 1], old[k, 2]), global_z_inc_down = gz, global_axis_order = go)
    c.check('each point', same(c, pts[k], e))


# units of xy and z in each system, time units
UNITS = [(('m', 'm'), ('m', 'm'), (None, None)), (('m', 'm'), ('ft', 'ft'), (None, None)),
         (('ft', 'm'), ('m', 'm'), (None, None)), (('m', 'ft'), ('km', 'm'), (None, None)),
         (('ft', 'ft'), ('m', 'ft'), (None, None)), (('m', 'm'), ('ft', 'ft'), ('s', 's')),
         (('ft', 'm'), ('ft', 'm'), ('s', 'ms'))]


def pair(c, **kw):
    ua, ub, time = UNITS[c.choice('units', list(range(len(UNITS))))]
    kw = dict(dict(orders = ['easting northing', 'northing westing'], offsets = 'nonzero'), **kw)
    a = make_crs(c, 'a', units = ua, time = time[0], **kw)
    b = make_crs(c, 'b', units = ub, time = time[1], **kw)
    return a, b, ua, ub, time


def expected(c, a, b, ua, ub, time, p):
    """the point in b which has the same parent coordinates, units allowed for"""
    g = to_parent(c, a, p)
    fx = SCALE[ua[0]] / SCALE[ub[0]]
    fz = SCALE[ua[1]] / SCALE[ub[1]] if time[0] is None else 1.0 if time[0] == time[1] else 1000.0
    return g[0] * fx, g[1] * fx, g[2] * fz


@contract('C03', 'convert_to', assumptions = [ROT], budget_s = 300)
def convert_to(c):
    """a point converted to another system is the same point of the parent, units allowed for; convert_from is the same
    conversion seen from the other system"""
    a, b, ua, ub, time = pair(c)
    p = c.vec('p')
    x = (p[0], p[1], p[2])
    q = a.convert_to(b, x) if c.choice('way', ['to', 'from']) == 'to' else b.convert_from(a, x)
    c.check('same place', c.eq(to_parent(c, b, q), expected(c, a, b, ua, ub, time, p)))


@contract('C03', 'convert_array', assumptions = [ROT], budget_s = 300)
def convert_array(c):
    """an array of points is converted in place, as the points would be on their own, and returned"""
    a, b, ua, ub, time = pair(c, zdown = (True,), orders = ['northing westing'])
    n = c.int('n', 1)
    pts = c.array('pts', (n, 3))
    old = pts.copy()
    k = c.int('k', 0, n - 1)
    to = c.choice('way', ['to', 'from']) == 'to'
    same_crs = a.is_equivalent(b)
    r = a.convert_array_to(b, pts) if to else b.convert_array_from(a, pts)
    c.check('returned', r is pts)
    if same_crs:
        c.check('unchanged', same(c, pts[k], old[k]))
    else:
        q = a.convert_to(b, (old[k, 0], old[k, 1], old[k, 2]))
        c.check('each point', same(c, pts[k], q))


@contract('C03', 'to_itself', assumptions = [ROT])
def to_itself(c):
    """conversion to the very same system leaves a point unchanged"""
    a = make_crs(c, 'a', orders = ['northing westing'])
    p = c.vec('p')
    c.check('unchanged', same(c, a.convert_to(a, (p[0], p[1], p[2])), p), same(c, a.convert_from(a, p), p))
    q = c.np.array([[p[0], p[1], p[2]]])
    c.check('array unchanged', same(c, a.convert_array_to(a, q)[0], p), same(c, a.convert_array_from(a, q)[0], p))


@contract('C03', 'mixed_kinds_rejected')
def mixed_kinds_rejected(c):
    """depth and time systems do not mix"""
    a = make_crs(c, 'a', orders = ['easting northing'], rotated = (False,))
    b = make_crs(c, 'b', orders = ['easting northing'], rotated = (False,), time = 's')
    p = (1.0, 2.0, 3.0)
    q = c.np.array([[1.0, 2.0, 3.0]])
    for f, args in ((a.convert_to, (b, p)), (a.convert_from, (b, p)), (a.convert_array_to, (b, q)), (b.convert_array_from, (a, q))):
        _, e = c.attempt(AssertionError, f, *args)
        c.check('rejected', e is not None)


@contract('C03', 'equivalence', assumptions = [ROT])
def equivalence(c):
    """systems are reported equivalent only if conversion between them moves no point by more than the tolerance on the
    offsets, and whenever all their attributes are the same; the relation is symmetric"""
    same_units = c.choice('units', [0, 1, 2, 3])
    ua, ub = [(('m', 'm'), ('m', 'm')), (('m', 'm'), ('ft', 'm')), (('m', 'm'), ('m', 'ft')), (('ft', 'm'), ('ft', 'm'))][same_units]
    kw = dict(orders = ['easting northing', 'northing westing'], rotated = (False, True))
    epsg = c.choice('epsg', [(None, None), ('1', '1'), ('1', '2'), ('1', None)])
    a = make_crs(c, 'a', units = ua, epsg_code = epsg[0], **kw)
    b = make_crs(c, 'b', units = ub, epsg_code = epsg[1], **kw)
    r = a.is_equivalent(b)
    c.check('symmetric', c.Iff(r, b.is_equivalent(a)))
    da, db = a.vc_def, b.vc_def
    alike = ua == ub and da[0] == db[0] and da[1] == db[1] and not (epsg[0] and epsg[1] and epsg[0] != epsg[1])
    off = [c.abs(x - y) for x, y in zip(da[2], db[2])]
    rot = c.abs(da[3] - db[3])
    big = c.max(*[c.abs(x) for x in da[2] + db[2] + [da[3], db[3]]])
    tol = 1.0001e-4 + 1.0e-9 * big
    c.check('equivalent only when close', c.Implies(r, c.And(alike, c.And(*[d <= tol for d in off]), rot <= tol)))
    c.check('equivalent when same', c.Implies(c.And(alike, c.And(*[d == 0.0 for d in off]), rot == 0.0), r))


@contract('C03', 'equivalence_rotation_units', assumptions = [ROT])
def equivalence_rotation_units(c):
    """rotations given in different units are compared as angles"""
    Crs = c.fn(CRS + '.Crs')
    x = c.real('xoff', 1.0)
    u, v = c.choice('units', [('dega', 'rad'), ('rad', 'dega'), ('rad', 'rad')])
    ra, rb = c.real('ra', 0.1, 3.0), c.real('rb', 0.1, 3.0)
    a = Crs(None, x_offset = x, rotation = ra, rotation_units = u)
    b = Crs(None, x_offset = x, rotation = rb, rotation_units = v)
    deg = {'dega': 1.0, 'rad': 180.0 / c.pi}
    d = c.abs(ra * deg[u] - rb * deg[v])
    r = a.is_equivalent(b)
    c.check('equivalent only when close', c.Implies(r, d <= 0.01))
    c.check('equivalent when close', c.Implies(d <= 1.0e-6, r))


@contract('C03', 'handedness')
def handedness(c):
    """the xy axes are right handed when the y axis is a quarter turn anticlockwise from the x axis seen from below, as the
    code names it, and xyz handedness combines that with the z sense"""
    o = c.choice('order', ORDERS)
    zd = c.choice('zdown', [True, False])
    a = c.fn(CRS + '.Crs')(None, axis_order = o, z_inc_down = zd)
    m = EN[o]
    det = m[0][0] * m[1][1] - m[0][1] * m[1][0]
    c.check('xy', a.is_right_handed_xy() == (det < 0))
    c.check('xyz', a.is_right_handed_xyz() == ((det < 0) == zd))
