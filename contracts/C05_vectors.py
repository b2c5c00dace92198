"""C05: vectors, directions and rotations (resqpy.olio.vector_utilities)"""

from vcpy.harness import contract

V = 'resqpy.olio.vector_utilities.'


def rows(c, m):
    return [[m[i, j] for j in range(3)] for i in range(3)]


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def proper(c, m):
    """m is a rotation: orthonormal rows, determinant one"""
    r = rows(c, m)
    for i in range(3):
        for j in range(3):
            c.check('orthonormal', c.eq(dot(r[i], r[j]), 1.0 if i == j else 0.0))
    c.check('determinant one', c.eq(dot(r[0], cross(r[1], r[2])), 1.0))


def apply(m, p):
    return [m[i, 0] * p[0] + m[i, 1] * p[1] + m[i, 2] * p[2] for i in range(3)]


def rad(c, deg):
    return deg * c.pi / 180.0


def same(c, a, b):
    return c.And(*[c.eq(a[i], b[i]) for i in range(3)])


def nonzero(c, v, n = 3):
    ss = sum(v[i] * v[i] for i in range(n))
    c.apart(ss)
    c.assume(ss > 0.0)
    return c.sqrt(ss)


@contract('C05', 'unit_vector')
def unit_vector(c):
    """the unit vector has length one and the direction of the vector; zero stays zero; 2D vectors are accepted"""
    n = c.choice('n', [2, 3])
    v = c.vec('v', n)
    ss = sum(v[i] * v[i] for i in range(n))
    c.apart(ss)
    which = c.choice('which', ['unit_vector', 'unit_vector_njit'])
    keep = [v[i] for i in range(n)]
    u = c.fn(V + which)(v)
    if c.is_true(ss == 0.0):
        c.check('zero stays zero', *[c.eq(u[i], 0.0) for i in range(n)])
    else:
        c.check('length one', c.eq(sum(u[i] * u[i] for i in range(n)), 1.0))
        for i in range(n):
            c.check('direction', c.eq(u[i] * c.sqrt(ss), keep[i]))
    c.check('argument unchanged', *[c.eq(v[i], keep[i]) for i in range(n)])


@contract('C05', 'unit_vectors')
def unit_vectors(c):
    """arrays of vectors, of any extent, are normalised one by one; a vector with a NaN gives NaN without affecting others"""
    n, m = c.int('n', 1), c.int('m', 1)
    nan = c.choice('nan', [False, True])
    shape = c.choice('shape', [(n,), (n, m)])
    a = c.array('a', shape + (3,), float, nan = nan)
    u = c.fn(V + ('nan_unit_vectors' if nan else 'unit_vectors'))(a)
    ix = tuple(c.int(f'i{k}', 0, d - 1) for k, d in enumerate(shape))
    v, w = a[ix], u[ix]
    x, y = [v[k] for k in range(3)], [w[k] for k in range(3)]
    ss = dot(x, x)
    c.check('shape', u.shape == a.shape)
    if nan:
        for k in range(3):
            c.check('NaN kept', c.Implies(c.isnan(x[k]), c.isnan(y[k])))
        if c.is_true(c.Or(*[c.isnan(z) for z in x])):
            return
        c.check('no new NaN', *[c.Not(c.isnan(z)) for z in y])
    c.apart(ss)
    if c.is_true(ss == 0.0):
        c.check('zero stays zero', same(c, y, [0.0, 0.0, 0.0]))
    else:
        c.check('length one', c.eq(dot(y, y), 1.0))
        c.check('direction', same(c, [z * c.sqrt(ss) for z in y], x))


@contract('C05', 'lengths')
def lengths(c):
    """lengths of arrays of vectors, full and in plan, are those of each vector; unit correction scales components first"""
    n = c.int('n', 1)
    a = c.array('a', (n, 3), float)
    k = c.int('k', 0, n - 1)
    x = [a[k, 0], a[k, 1], a[k, 2]]
    l3 = c.sqrt(dot(x, x))
    l2 = c.sqrt(x[0] * x[0] + x[1] * x[1])
    c.check('3D', c.eq(c.fn(V + 'naive_lengths')(a)[k], l3), c.eq(c.fn(V + 'naive_length')(a[k]), l3))
    c.check('2D', c.eq(c.fn(V + 'naive_2d_lengths')(a)[k], l2), c.eq(c.fn(V + 'naive_2d_length')(a[k]), l2))
    s = c.vec('s')
    y = [x[i] * s[i] for i in range(3)]
    c.check('unit corrected', c.eq(c.fn(V + 'unit_corrected_length')(a[k], s), c.sqrt(dot(y, y))))
    b = c.vec('b')
    d = sum(c.abs(x[i] - b[i]) for i in range(3))
    c.check('manhattan', c.eq(c.fn(V + 'manhattan_distance')(a[k], b), d), c.eq(c.fn(V + 'manhatten_distance')(b, a[k]), d))


@contract('C05', 'products')
def products(c):
    """dot and cross products, elementwise for arrays; determinants are triple products"""
    a, b, d = c.vec('a'), c.vec('b'), c.vec('d')
    x, y, z = [[v[i] for i in range(3)] for v in (a, b, d)]
    c.check('dot', c.eq(c.fn(V + 'dot_product')(a, b), dot(x, y)))
    c.check('cross', same(c, c.fn(V + 'cross_product')(a, b), cross(x, y)))
    t = dot(x, cross(y, z))
    c.check('determinant', c.eq(c.fn(V + 'determinant')(a, b, d), t),
            c.eq(c.fn(V + 'determinant_3x3')(c.np.array([[*x], [*y], [*z]])), t))
    n = c.int('n', 1)
    p, q = c.array('p', (n, 3), float), c.array('q', (n, 3), float)
    k = c.int('k', 0, n - 1)
    c.check('dot products', c.eq(c.fn(V + 'dot_products')(p, q)[k], dot([p[k, i] for i in range(3)], [q[k, i] for i in range(3)])))
    c.check('sums', same(c, c.fn(V + 'add')(a, b), [x[i] + y[i] for i in range(3)]),
            same(c, c.fn(V + 'subtract')(a, b), [x[i] - y[i] for i in range(3)]),
            same(c, c.fn(V + 'elemental_multiply')(a, b), [x[i] * y[i] for i in range(3)]))


@contract('C05', 'azimuth')
def azimuth(c):
    """the azimuth of a vector is the compass bearing of its plan direction, from 0 up to 360; vertical vectors get zero"""
    n = c.choice('n', [2, 3])
    v = c.vec('v', n)
    c.apart(v[0], v[1], c.abs(v[0]) - c.abs(v[1]))
    a = c.fn(V + 'azimuth')(v)
    h = c.sqrt(v[0] * v[0] + v[1] * v[1])
    c.check('range', c.le(0.0, a), c.lt(a, 360.0))
    if c.is_true(c.And(v[0] == 0.0, v[1] == 0.0)):
        c.check('vertical', c.eq(a, 0.0))
    else:
        c.check('bearing', c.eq(h * c.sin(rad(c, a)), v[0]), c.eq(h * c.cos(rad(c, a)), v[1]))


@contract('C05', 'azimuths', budget_s = 400)
def azimuths(c):
    """azimuths of arrays of vectors are those of each vector"""
    n = c.int('n', 1)
    a = c.array('a', (n, 3), float)
    k = c.int('k', 0, n - 1)
    x, y = a[k, 0], a[k, 1]
    c.apart(x, y, c.abs(x) - c.abs(y))
    c.assume(c.Or(x != 0.0, y != 0.0))
    r = c.fn(V + 'azimuths')(a)[k]
    c.check('z ignored', c.eq(c.fn(V + 'azimuths')(a[:, :2])[k], r))
    h = c.sqrt(x * x + y * y)
    c.check('range', c.le(0.0, r), c.lt(r, 360.0))
    c.check('bearing', c.eq(h * c.sin(rad(c, r)), x), c.eq(h * c.cos(rad(c, r)), y))


@contract('C05', 'inclination')
def inclination(c):
    """the inclination is the angle from the positive z axis, for single vectors and arrays, NaN giving NaN"""
    way = c.choice('way', ['one', 'array', 'nan', 'unit'])
    if way == 'one':
        v = c.vec('v')
        x = [v[i] for i in range(3)]
        l = nonzero(c, x)
        r = c.fn(V + 'inclination')(v)
    else:
        n = c.int('n', 1)
        k = c.int('k', 0, n - 1)
        a = c.array('a', (n, 3), float, nan = (way != 'array'))
        x = [a[k, i] for i in range(3)]
        if way == 'array':
            l = nonzero(c, x)
            r = c.fn(V + 'inclinations')(a)[k]
        elif way == 'nan':
            r = c.fn(V + 'nan_inclinations')(a)[k]
            if c.is_true(c.isnan(x[2])):
                c.check('NaN kept', c.isnan(r))
                return
            c.assume(c.Not(c.isnan(x[0])), c.Not(c.isnan(x[1])))
            l = nonzero(c, x)
        else:
            c.assume(c.Implies(c.Not(c.isnan(x[2])), c.And(x[2] >= -1.0, x[2] <= 1.0)))
            r = c.fn(V + 'nan_inclinations')(a, already_unit_vectors = True)[k]
            c.check('NaN kept', c.Iff(c.isnan(x[2]), c.isnan(r)))
            if c.is_true(c.isnan(x[2])):
                return
            l = 1.0
    c.check('range', c.le(0.0, r), c.le(r, 180.0))
    c.check('angle', c.eq(l * c.cos(rad(c, r)), x[2]))


@contract('C05', 'from_azimuth')
def from_azimuth(c):
    """unit vectors built from azimuth, and from azimuth and inclination, have those directions"""
    a, i = c.real('a', -720.0, 720.0), c.real('i', -180.0, 180.0)
    u = c.fn(V + 'unit_vector_from_azimuth')(a)
    c.check('horizontal', same(c, u, [c.sin(rad(c, a)), c.cos(rad(c, a)), 0.0]))
    w = c.fn(V + 'unit_vector_from_azimuth_and_inclination')(a, i)
    s = c.sin(rad(c, i))
    c.check('inclined', same(c, w, [s * c.sin(rad(c, a)), s * c.cos(rad(c, a)), c.cos(rad(c, i))]))


@contract('C05', 'angle_between', budget_s = 300)
def angle_between(c):
    """the angle between two vectors has the cosine given by their dot product, in radians and in degrees"""
    a, b = c.vec('a'), c.vec('b')
    x, y = [a[i] for i in range(3)], [b[i] for i in range(3)]
    la, lb = nonzero(c, x), nonzero(c, y)
    d = dot(x, y)
    r = c.fn(V + 'radians_difference')(a, b)
    deg = c.fn(V + 'degrees_difference')(a, b)
    if c.symbolic:  # the Cauchy-Schwarz inequality, by Lagrange's identity
        cr = cross(x, y)
        c.lemma('Lagrange', dot(x, x) * dot(y, y) - d * d == dot(cr, cr))
        c.lemma('Cauchy Schwarz squared', d * d <= (la * lb) * (la * lb))
        c.lemma('Cauchy Schwarz', c.And(d <= la * lb, -d <= la * lb))
    c.check('range', c.le(0.0, r), c.le(r, c.pi))
    c.check('cosine', c.eq(la * lb * c.cos(r), d))
    c.check('degrees', c.eq(rad(c, deg), r))


@contract('C05', 'axial_rotation')
def axial_rotation(c):
    """rotation about a coordinate axis turns the next axis towards the one after by the angle, and is a rotation"""
    axis = c.choice('axis', [0, 1, 2])
    a = c.real('angle', -720.0, 720.0)
    m = c.fn(V + 'rotation_matrix_3d_axial')(axis, a)
    proper(c, m)
    b, d = (axis + 1) % 3, (axis + 2) % 3
    e = [0.0, 0.0, 0.0]
    e[axis] = 1.0
    c.check('axis fixed', same(c, apply(m, e), e))
    p = [0.0, 0.0, 0.0]
    p[b] = 1.0
    q = [0.0, 0.0, 0.0]
    q[b], q[d] = c.cos(rad(c, a)), c.sin(rad(c, a))
    c.check('turned', same(c, apply(m, p), q))
    c.check('identity', c.eq(c.fn(V + 'no_rotation_matrix')(), c.np.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])))


@contract('C05', 'composed_rotation')
def composed_rotation(c):
    """the three angle matrix rotates about x, then z, then y; the reverse matrix is its inverse"""
    g = [c.real('g' + s, -360.0, 360.0) for s in 'xzy']
    which = c.choice('which', ['rotation_3d_matrix', 'rotation_3d_matrix_njit'])
    arg = tuple(g) if which == 'rotation_3d_matrix' else c.np.array([*g])
    m = c.fn(V + which)(arg)
    proper(c, m)
    ax = c.fn(V + 'rotation_matrix_3d_axial')
    p = c.vec('p')
    step = [p[0], p[1], p[2]]
    for axis, angle in ((0, g[0]), (2, g[1]), (1, g[2])):
        step = apply(ax(axis, angle), step)
    c.check('x then z then y', same(c, apply(m, p), step))
    r = c.fn(V + 'reverse_rotation_3d_matrix')(arg)
    c.check('reverse', same(c, apply(r, apply(m, p)), p))


@contract('C05', 'rotate_arrays')
def rotate_arrays(c):
    """arrays of points, of any extent, are rotated point by point into a new array"""
    n, l = c.int('n', 1), c.int('l', 1)
    m = c.array('m', (3, 3), float)
    shape = c.choice('shape', [(n,), (n, l)])
    a = c.array('a', shape + (3,), float)
    keep = a.copy()
    r = c.fn(V + c.choice('which', ['rotate_array', 'rotate_array_njit']))(m, a)
    ix = tuple(c.int(f'i{k}', 0, d - 1) for k, d in enumerate(shape))
    c.check('shape', r.shape == a.shape)
    c.check('each point', same(c, r[ix], apply(m, keep[ix])))
    c.check('argument unchanged', same(c, a[ix], keep[ix]))
    v = c.vec('v')
    c.check('vector', same(c, c.fn(V + 'rotate_vector')(m, v), apply(m, v)))


@contract('C05', 'to_section')
def to_section(c):
    """points presented on a vertical section: the target direction becomes the positive x direction, z being kept"""
    t = c.vec('t', 2)
    c.apart(t[0], t[1], c.abs(t[0]) - c.abs(t[1]))
    h = nonzero(c, t, 2)
    n = c.int('n', 1)
    a = c.array('a', (n, 3), float)
    k = c.int('k', 0, n - 1)
    stub_azimuth(c)
    r = c.fn(V + 'rotate_xyz_array_around_z_axis')(a, t)
    x, y = a[k, 0], a[k, 1]
    c.check('along', c.eq(r[k, 0] * h, x * t[0] + y * t[1]))
    c.check('across', c.eq(r[k, 1] * h, y * t[0] - x * t[1]))
    c.check('height', c.eq(r[k, 2], a[k, 2]))


def stub_azimuth(c):
    """callers of azimuth are checked against its contract"""

    def az(v):
        a = c.c.fresh_real('azimuth')
        c.c.assume(c.And(a >= 0.0, a < 360.0))
        h = c.sqrt(v[0] * v[0] + v[1] * v[1])
        zero = c.And(v[0] == 0.0, v[1] == 0.0)
        c.c.assume(c.ite(zero, a == 0.0, c.And(h * c.sin(rad(c, a)) == v[0], h * c.cos(rad(c, a)) == v[1])))
        return a

    c.stub('resqpy.olio.vector_utilities', 'azimuth', az)


def stub_inclination(c):

    def incl(v):
        a = c.c.fresh_real('inclination')
        c.c.assume(c.And(a >= 0.0, a <= 180.0))
        l = c.sqrt(dot(v, v))
        c.c.assume(c.And(l * c.cos(rad(c, a)) == v[2], c.sin(rad(c, a)) >= 0.0))
        return a

    c.stub('resqpy.olio.vector_utilities', 'inclination', incl)


@contract('C05', 'tilt')
def tilt(c):
    """tilting by a dip in an azimuth is a rotation which keeps the horizontal strike direction and deepens the azimuth
    direction by the sine of the dip; points are tilted in place about the pivot"""
    az, dip = c.real('az', -720.0, 720.0), c.real('dip', -180.0, 180.0)
    m = c.fn(V + 'tilt_3d_matrix')(az, dip)
    proper(c, m)
    sa, ca, sd, cd = c.sin(rad(c, az)), c.cos(rad(c, az)), c.sin(rad(c, dip)), c.cos(rad(c, dip))
    c.check('strike kept', same(c, apply(m, [ca, -sa, 0.0]), [ca, -sa, 0.0]))
    c.check('dip', same(c, apply(m, [sa, ca, 0.0]), [sa * cd, ca * cd, sd]))
    n = c.int('n', 1)
    pts = c.array('pts', (n, 3), float)
    pv = c.vec('pivot')
    old = pts.copy()
    k = c.int('k', 0, n - 1)
    c.fn(V + 'tilt_points')(pv, az, dip, pts)
    e = apply(m, [old[k, i] - pv[i] for i in range(3)])
    c.check('about pivot', same(c, pts[k], [e[i] + pv[i] for i in range(3)]))


def projected(c, nv, o):
    c.apart(nv[0], nv[1], c.abs(nv[0]) - c.abs(nv[1]))
    nonzero(c, nv)
    n = c.int('n', 1)
    pts = c.array('pts', (n, 3), float)
    old = pts.copy()
    k = c.int('k', 0, n - 1)
    stub_azimuth(c)
    stub_inclination(c)
    c.fn(V + 'project_points_onto_plane')(o, c.np.array([*nv]), pts)
    return [pts[k, i] - o[i] for i in range(3)], [pts[k, i] - old[k, i] for i in range(3)]


@contract('C05', 'project_onto_upright_plane')
def project_onto_upright_plane(c):
    """points are moved in place along the normal of a vertical or horizontal plane onto the plane"""
    o = c.vec('o')
    if c.choice('upright', [False, True]):
        nv = [c.real('nx'), c.real('ny'), 0.0]
    else:
        nv = [0.0, 0.0, c.real('nz')]
    d, m = projected(c, nv, o)
    c.check('on plane', c.eq(dot(d, nv), 0.0))
    c.check('along normal', same(c, cross(m, nv), [0.0, 0.0, 0.0]))


@contract('C05', 'project_onto_inclined_plane')
def project_onto_inclined_plane(c):
    """points are moved in place along the normal of an inclined plane onto the plane"""
    o = c.vec('o')
    nv = [c.real('nx'), c.real('ny'), c.real('nz')]
    d, m = projected(c, nv, o)
    r = [nv[0], nv[1], -nv[2]]
    c.check('on the plane, if need be with its normal reflected in z', c.Or(c.eq(dot(d, r), 0.0), c.eq(dot(d, nv), 0.0)))
    c.check('along the normal, if need be reflected in z', c.Or(same(c, cross(m, r), [0.0, 0.0, 0.0]), same(c, cross(m, nv), [0.0, 0.0, 0.0])))
    if c.is_true(c.And(nv[2] != 0.0, c.Or(nv[0] != 0.0, nv[1] != 0.0))):
        c.check('on plane', c.eq(dot(d, nv), 0.0))


@contract('C05', 'vector_to_z')
def vector_to_z(c):
    """the matrix for a vector is a rotation which takes the vector to the z axis and the z axis to the vector"""
    v = c.vec('v')
    x = [v[i] for i in range(3)]
    l = nonzero(c, x)
    c.apart(l + x[2])
    c.assume(l + x[2] > 1.0e-3 * l)
    m = c.fn(V + c.choice('which', ['rotation_matrix_3d_vector', 'rotation_matrix_3d_vector_njit']))(v)
    proper(c, m)
    c.check('to z axis', same(c, apply(m, x), [0.0, 0.0, l]))
    c.check('z axis to vector', same(c, [l * e for e in apply(m, [0.0, 0.0, 1.0])], x))


@contract('C05', 'perspective')
def perspective(c):
    """perspective keeps the view axis value and shrinks the others towards the mid line in proportion to the distance"""
    b = c.array('box', (2, 3), float)
    ax = c.choice('axis', [0, 1, 2])
    vd = c.real('vd', 0.1)
    v = c.vec('v')
    r = b[1, ax] - b[0, ax]
    c.apart(r)
    c.assume(r > 0.0)
    p = c.fn(V + 'perspective_vector')(b, ax, vd, v)
    for i in range(3):
        if i == ax:
            c.check('view axis', c.eq(p[i], v[i]))
        else:
            mid = (b[0, i] + b[1, i]) / 2.0
            c.check('proportion', c.eq((p[i] - mid) * vd * r, (v[i] - mid) * (vd * r - (v[ax] - b[0, ax]))))


@contract('C05', 'triangle_normal')
def triangle_normal(c):
    """the normal of a triangle is a unit vector perpendicular to its edges, in the order of its points"""
    t = c.array('t', (3, 3), float)
    p = [[t[i, k] for k in range(3)] for i in range(3)]
    e1, e2 = [p[0][k] - p[1][k] for k in range(3)], [p[0][k] - p[2][k] for k in range(3)]
    cr = cross(e1, e2)
    l = nonzero(c, cr)
    for f in ('triangle_normal_vector', 'triangle_normal_vector_numba'):
        n = c.fn(V + f)(t)
        c.check('normal', same(c, [n[k] * l for k in range(3)], cr))


@contract('C05', 'points_direction')
def points_direction(c):
    """the direction of a line of points is from its first to its last point having any number which is not NaN"""
    n = c.choice('n', [2, 3, 4])
    a = c.array('a', (n, 3), float, nan = True)
    r = c.fn(V + 'points_direction_vector')(a, 0)
    has = [c.Not(c.And(*[c.isnan(a[i, k]) for k in range(3)])) for i in range(n)]
    for i in range(n):
        for j in range(n):
            here = c.And(has[i], has[j], *([c.Not(has[k]) for k in range(i)] + [c.Not(has[k]) for k in range(j + 1, n)]))
            if i < j:
                if c.is_true(here):
                    c.check('first to last', r is not None, same(c, r, [a[j, k] - a[i, k] for k in range(3)]))
                    return
            elif i == j and c.is_true(here):
                c.check('one point only', r is None)
                return
    c.check('no points', r is None)


@contract('C05', 'planar_face_points')
def planar_face_points(c):
    """a face which is planar is its own planar approximation; in the xy plane it is flattened about its centre keeping
    distances from the centre"""
    n = c.int('n', 1)
    nodes = c.int('node_count', 1)
    pts = c.array('points', (nodes, 3), float)
    ix = c.array('indices', (n,), int, lo = 0, hi = nodes - 1)
    nv = c.vec('normal')
    x = [nv[i] for i in range(3)]
    c.apart(x[0], x[1], c.abs(x[0]) - c.abs(x[1]))
    nonzero(c, x)
    o = c.vec('centre')
    centre = [o[i] for i in range(3)]
    k = c.int('k', 0, n - 1)
    d = [pts[ix[k], i] - centre[i] for i in range(3)]

    class Crs:
        xy_units, z_units = 'm', 'm'

        def __init__(self, *a, **kw):
            pass

    g = c.obj('resqpy.unstructured.UnstructuredGrid', points_cached = pts, node_count = nodes, model = None, crs_uuid = None,
              cache_all_geometry_arrays = lambda: None, node_indices_for_face = lambda f: ix,
              face_normal = lambda f: nv, face_centre_point = lambda f: o)
    c.replace('resqpy.crs', 'Crs', Crs)
    stub_azimuth(c)
    stub_inclination(c)
    if c.choice('flat', [False, True]):
        p = g.planar_face_points(0, xy_plane = True)
        f = [p[k, 0] - centre[0], p[k, 1] - centre[1]]
        c.check('flat', c.eq(p[k, 2], 0.0))
        t = dot(d, x)
        c.check('distance', c.eq((f[0] * f[0] + f[1] * f[1]) * dot(x, x), dot(d, d) * dot(x, x) - t * t))
    else:
        c.assume(c.eq(dot(d, x), 0.0))
        p = g.planar_face_points(0)
        c.check('unmoved', same(c, p[k], [d[i] + centre[i] for i in range(3)]))
