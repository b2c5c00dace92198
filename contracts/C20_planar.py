"""C20: points, triangles and polygons in a plane (resqpy.olio.vector_utilities)"""

from vcpy.harness import contract
from vcpy.registry import invariant

M = 'resqpy.olio.vector_utilities'
V = M + '.'


def orient(a, b, d):
    """positive if a, b, d are anticlockwise: twice the area of the triangle"""
    return (b[0] - a[0]) * (d[1] - a[1]) - (b[1] - a[1]) * (d[0] - a[0])


def xy(v):
    return [v[0], v[1]]


AXES = {'xy': (0, 1), 'xz': (0, 2), 'yz': (1, 2)}


@contract('C20', 'clockwise')
def clockwise(c):
    """the sense of three points is positive if clockwise, negative if anticlockwise, zero if in line; elementwise for sets of
    triangles, in any of the three projections"""
    a, b, d = c.vec('a', 2), c.vec('b', 2), c.vec('d', 2)
    c.check('sense', c.eq(c.fn(V + 'clockwise')(a, b, d), -orient(a, b, d)))
    n, m = c.int('n', 1), c.int('m', 1)
    k = c.int('k', 0, m - 1)
    pr = c.choice('projection', sorted(AXES))
    p = c.array('p', (n, 3), float)
    t = c.array('t', (m, 3), int, lo = 0, hi = n - 1)
    r = c.fn(V + 'clockwise_triangles')(p, t, projection = pr)
    i, j = AXES[pr]
    q = [[p[t[k, v], i], p[t[k, v], j]] for v in range(3)]
    c.check('shape', r.shape == (m,))
    c.check('each', c.eq(r[k], -orient(*q)))


def bary(c, anticlockwise = True):
    """a triangle, and a point at given fractions along two of its sides"""
    a, e, f = c.vec('a', 2), c.vec('e', 2), c.vec('f', 2)
    u, v = c.real('u'), c.real('v')
    w = c.choice('w', [2, 3])
    z = [7.0] * (w - 2)
    area = e[0] * f[1] - e[1] * f[0]
    c.apart(area, area * 1.0e-2, u, v, 1.0 - u, 1.0 - v, 1.0 - u - v)
    c.assume(area > 0.0 if anticlockwise else area != 0.0)
    mk = lambda s, t: c.np.array([a[0] + s * e[0] + t * f[0], a[1] + s * e[1] + t * f[1]] + z)
    return mk(0.0, 0.0), mk(1.0, 0.0), mk(0.0, 1.0), mk(u, v), u, v


@contract('C20', 'in_triangle')
def in_triangle(c):
    """a point is in a triangle exactly when it is strictly between the sides; or between or on them for the edged form"""
    a, b, d, p, u, v = bary(c)
    c.check('within', c.Iff(c.fn(V + 'in_triangle')(a, b, d, p), c.And(u > 0.0, v > 0.0, u + v < 1.0)))
    c.check('within or on', c.Iff(c.fn(V + 'in_triangle_edged')(a, b, d, p), c.And(u >= 0.0, v >= 0.0, u + v <= 1.0)))


@contract('C20', 'points_in_triangles')
def points_in_triangles(c):
    """the table of points against triangles has, for each pair, whether the point is in the triangle, taken anticlockwise"""
    n, m, q = c.int('n', 1), c.int('m', 1), c.int('q', 1)
    k, l = c.int('k', 0, m - 1), c.int('l', 0, q - 1)
    pr = c.choice('projection', sorted(AXES))
    edged = c.choice('edged', [False, True])
    p = c.array('p', (n, 3), float)
    t = c.array('t', (m, 3), int, lo = 0, hi = n - 1)
    da = c.array('da', (q, 3), float)
    r = c.fn(V + 'points_in_triangles')(p, t, da, projection = pr, edged = edged)
    c.check('shape', r.shape == (m, q))
    i, j = AXES[pr]
    o, e, f = [[p[t[k, v], i], p[t[k, v], j]] for v in range(3)]
    d = [da[l, i], da[l, j]]
    s = orient(o, e, f)
    parts = [orient(o, e, d), orient(e, f, d), orient(f, o, d)]
    c.apart(s, *parts)
    g = (lambda x: x >= 0.0) if edged else (lambda x: x > 0.0)
    pos, neg = c.And(*[g(x) for x in parts]), c.And(*[g(-x) for x in parts])
    c.check('anticlockwise', c.Implies(s > 0.0, c.Iff(r[k, l], pos)))
    c.check('clockwise', c.Implies(s < 0.0, c.Iff(r[k, l], neg)))


def crosses(c, x, y, p, q):
    """the ray from x, y in the positive x direction passes the edge from p to q; lower end excluded, upper end included"""
    return c.Or(c.And(p[1] < y, y <= q[1], (q[0] - p[0]) * (y - p[1]) >= (x - p[0]) * (q[1] - p[1])),
                c.And(q[1] < y, y <= p[1], (p[0] - q[0]) * (y - q[1]) >= (x - q[0]) * (p[1] - q[1])))


def edge_crossed(c, x, y, poly, n):
    """function of k: is the edge from vertex k to the next crossed; the last edge is from the last vertex to the first"""

    def crossed(k):
        q = poly[0] if c.is_true(k == n - 1) else poly[k + 1]
        return crosses(c, x, y, poly[k], q)
    return c.opaque('crossed', 'i', crossed)


@contract('C20', 'point_in_polygon')
def point_in_polygon(c):
    """a point is in a polygon when a ray from it crosses an odd number of edges, any number of vertices"""
    n = c.int('n', 3)
    poly = c.array('poly', (n, 2), float)
    x, y = c.real('x'), c.real('y')
    if not c.symbolic:
        for k in range(n):
            p, q = poly[k], poly[(k + 1) % n]
            c.apart((q[0] - p[0]) * (y - p[1]) - (x - p[0]) * (q[1] - p[1]))
    f = c.ghost['crossed'] = edge_crossed(c, x, y, poly, n)
    r = c.fn(V + 'point_in_polygon')(x, y, poly)
    c.check('parity', c.Iff(r, c.sum(n, lambda k: c.ite(f(k), 1, 0)) % 2 == 1))


@invariant(M, 'point_in_polygon', names = ('polygon', 'inside', 'p1x', 'p1y'))
def polygon_invariant(c, L):
    n = c.length(L.polygon)
    f = c.ghost['crossed']
    if c.is_true(L._i == 0):
        return [('first', c.And(c.eq(L.p1x, L.polygon[0, 0]), c.eq(L.p1y, L.polygon[0, 1]), c.Not(L.inside)))]
    k = L._i - 1
    if c.is_true(k < n):
        f(k)
        p = L.polygon[k]
        at = c.And(c.eq(L.p1x, p[0]), c.eq(L.p1y, p[1]))
    else:
        at = True
    return [('vertex', at), ('parity', c.Iff(L.inside, c.sum(k, lambda j: c.ite(f(j), 1, 0)) % 2 == 1))]


@contract('C20', 'triangle_as_polygon')
def triangle_as_polygon(c):
    """the function for a triangle agrees with that for polygons, wherever the point"""
    t = c.array('t', (3, 2), float)
    x, y = c.real('x'), c.real('y')
    if not c.symbolic:
        for k in range(3):
            p, q = t[k], t[(k + 1) % 3]
            c.apart((q[0] - p[0]) * (y - p[1]) - (x - p[0]) * (q[1] - p[1]))
    r = c.fn(V + 'point_in_triangle')(x, y, t)
    odd = crosses(c, x, y, t[0], t[1])
    for k in (1, 2):
        odd = c.Not(c.Iff(odd, crosses(c, x, y, t[k], t[(k + 1) % 3])))
    c.check('parity', c.Iff(r, odd))


@contract('C20', 'point_in_triangle')
def point_in_triangle(c):
    """a point strictly inside a triangle, of either sense, is found to be; one strictly outside is not"""
    a, b, d, p, u, v = bary(c, False)
    t = c.np.array([[a[0], a[1]], [b[0], b[1]], [d[0], d[1]]])
    if not c.symbolic:
        c.assume(abs(u) > 1.0e-5, abs(v) > 1.0e-5, abs(1.0 - u - v) > 1.0e-5)
    r = c.fn(V + 'point_in_triangle')(p[0], p[1], t)
    if c.is_true(r):
        c.check('not outside', c.And(u >= 0.0, v >= 0.0, u + v <= 1.0))
    else:
        c.check('not inside', c.Or(u <= 0.0, v <= 0.0, u + v >= 1.0))


def membership(c, name):
    """a stand-in for the function deciding membership, which is under contract itself"""
    if not c.symbolic:
        f = c.fn(V + name)
        return lambda x, y, shape: bool(f(x, y, shape))
    g = c.function('member', 'ff', 'b')
    c.stub(M, name, lambda x, y, shape: g(x, y))
    return lambda x, y, shape: g(x, y)


@contract('C20', 'points_in_one')
def points_in_one(c):
    """the list of points in a polygon, or triangle, has a row for each point which is, in order, and no others"""
    which = c.choice('which', ['polygon', 'triangle'])
    n, w = c.int('n', 1), c.int('w', 1)
    num = c.int('num', 0, 1000)
    pts = c.array('pts', (n, 2), float)
    shape = c.array('shape', (3, 2), float)
    inside = c.ghost['inside'] = membership(c, f'point_in_{which}')
    r = c.fn(V + f'points_in_{which}')(pts, shape, w, num)
    q = r.shape[0]
    c.check('columns', r.shape[1] == 3)
    flat = lambda i: r[i, 1] * w + r[i, 2]
    i = c.int('i', 0, q - 1)
    c.check('number', r[i, 0] == num)
    c.check('valid', flat(i) >= 0, flat(i) < n, r[i, 2] >= 0, r[i, 2] < w)
    c.check('inside', inside(pts[flat(i), 0], pts[flat(i), 1], shape))
    if c.is_true(i + 1 < q):
        c.check('in order', flat(i) < flat(i + 1))


@contract('C20', 'points_in_one_complete')
def points_in_one_complete(c):
    """every point which is in a polygon, or triangle, is listed"""
    which = c.choice('which', ['polygon', 'triangle'])
    n, w = c.int('n', 1), c.int('w', 1)
    num = c.int('num', 0, 1000)
    pts = c.array('pts', (n, 2), float)
    shape = c.array('shape', (3, 2), float)
    inside = c.ghost['inside'] = membership(c, f'point_in_{which}')
    k = c.int('k', 0, n - 1)
    c.assume(inside(pts[k, 0], pts[k, 1], shape))
    r = c.fn(V + f'points_in_{which}')(pts, shape, w, num)
    c.check('listed', c.exists((r.shape[0],), lambda i: c.And(r[i, 1] == k // w, r[i, 2] == k % w)))


def rows_so_far(c, rows, points, shape, num, w, upto):
    n = c.length(points)
    inside = lambda k: c.ghost['inside'](points[k, 0], points[k, 1], shape)
    return [('in', c.forall((n,), lambda k: c.Implies(c.And(k < upto, inside(k)),
                                                      lambda: c.And(rows[k, 0] == num, rows[k, 1] * w + rows[k, 2] == k,
                                                                    rows[k, 2] >= 0, rows[k, 2] < w)))),
            ('not in', c.forall((n,), lambda k: c.Implies(c.Or(k >= upto, c.Not(inside(k))), lambda: rows[k, 0] == -1)))]


@invariant(M, 'points_in_polygon', names = ('polygon_points', 'points', 'polygon'))
def polygon_rows(c, L):
    return rows_so_far(c, L.polygon_points, L.points, L.polygon, L.polygon_num, L.points_xlen, L._i)


@invariant(M, 'points_in_triangle', names = ('triangle_points', 'points', 'triangle'))
def triangle_rows(c, L):
    return rows_so_far(c, L.triangle_points, L.points, L.triangle, L.triangle_num, L.points_xlen, L._i)


@contract('C20', 'intercepts')
def intercepts(c):
    """the value at x on the straight line between two points, and none (or NaN) beyond them; at equal x, of the first point"""
    x0, x1, y0, y1, z0, z1 = [c.real(n) for n in ('x0', 'x1', 'y0', 'y1', 'z0', 'z1')]
    x = c.real('x', near = lambda: [x0, x1])
    c.apart(x0 - x1, x - x0, x - x1)
    span = c.Or(c.And(x0 <= x, x <= x1), c.And(x1 <= x, x <= x0))
    on = lambda r, a, b: c.And(c.eq((r - a) * (x1 - x0), (x - x0) * (b - a)), c.Implies(c.And(x0 == x1), c.Or(c.eq(r, a), c.eq(r, b))))
    r = c.fn(V + 'vertical_intercept')(x, c.np.array([x0, x1]), c.np.array([y0, y1]))
    if r is None:
        c.check('outside', c.Not(span))
    else:
        c.check('within', span)
        c.check('on line', on(r, y0, y1))
    r = c.fn(V + 'vertical_intercept_nan')(x, x0, x1, y0, y1)
    if c.is_true(c.isnan(r)):
        c.check('outside', c.Not(span))
    else:
        c.check('within', span)
        c.check('on line', on(r, y0, y1))
    y, z = c.fn(V + 'vertical_intercept_nan_yz')(x, x0, x1, y0, y1, z0, z1)
    c.check('both', c.Iff(c.isnan(y), c.isnan(z)))
    if c.is_true(c.isnan(y)):
        c.check('outside', c.Not(span))
    else:
        c.check('within', span)
        c.check('on line', on(y, y0, y1), on(z, z0, z1))
        c.check('same point', c.Implies(x0 == x1, c.Or(c.And(c.eq(y, y0), c.eq(z, z0)), c.And(c.eq(y, y1), c.eq(z, z1)))))


@contract('C20', 'box_and_mesh')
def box_and_mesh(c):
    """the box of a triangle is that of its corners; the coordinate matrices have every pairing of the coordinates"""
    t = c.array('t', (3, 2), float)
    b = c.fn(V + 'triangle_box')(t)
    for a in range(2):
        lo, hi = b[2 * a], b[2 * a + 1]
        c.check('box', *[c.And(lo <= t[k, a], t[k, a] <= hi) for k in range(3)])
        c.check('tight', c.Or(*[lo == t[k, a] for k in range(3)]), c.Or(*[hi == t[k, a] for k in range(3)]))
    n, m = c.int('n', 1), c.int('m', 1)
    x, y = c.array('x', (n,), float), c.array('y', (m,), float)
    j, i = c.int('j', 0, m - 1), c.int('i', 0, n - 1)
    c.ghost['xy'] = (x, y)
    xx, yy = c.fn(V + 'meshgrid')(x, y)
    c.check('shape', xx.shape == (m, n), yy.shape == (m, n))
    c.check('matrices', xx[j, i] == x[i], yy[j, i] == y[j])


@invariant(M, 'meshgrid', names = ('xx', 'yy', 'x', 'y'), target = 'i')
def meshgrid_rows(c, L):
    n = c.length(L.x)
    return [('rows', c.forall((L._i, n), lambda j, i: c.And(L.xx[j, i] == L.x[i], L.yy[j, i] == L.y[j])))]


@invariant(M, 'meshgrid', names = ('xx', 'yy', 'x', 'y'), target = 'j')
def meshgrid_row(c, L):
    n = c.length(L.x)
    return [('rows', c.forall((L.i, n), lambda j, i: c.And(L.xx[j, i] == L.x[i], L.yy[j, i] == L.y[j]))),
            ('row', c.forall((L._i,), lambda i: c.And(L.xx[L.i, i] == L.x[i], L.yy[L.i, i] == L.y[L.i])))]


@contract('C20', 'line_distance')
def line_distance(c):
    """the distance of a point from a line in plan is that along the perpendicular"""
    w = c.choice('w', [2, 3])
    p, a, b = c.vec('p', w), c.vec('a', w), c.vec('b', w)
    d = [b[0] - a[0], b[1] - a[1]]
    e = [p[0] - a[0], p[1] - a[1]]
    ll, x = d[0] * d[0] + d[1] * d[1], e[0] * d[1] - e[1] * d[0]
    c.apart(ll)
    c.assume(ll > 0.0)
    r = c.fn(V + 'point_distance_to_line_2d')(p, a, b)
    c.check('not negative', c.le(0.0, r))
    c.check('line', c.eq(r * r * ll, x * x, 1.0e-6))



@contract('C20', 'obtuse_and_close')
def obtuse_and_close(c):
    """an angle is obtuse when the vectors to the others have a negative product; points are close when every component is"""
    p, a, b = c.vec('p'), c.vec('a'), c.vec('b')
    q = (a[0] - p[0]) * (b[0] - p[0]) + (a[1] - p[1]) * (b[1] - p[1])
    c.apart(q)
    c.check('obtuse', c.Iff(c.fn(V + 'is_obtuse_2d')(p, a, b), q < 0.0))
    tol = c.real('tol', 0.0)
    d = [c.abs(a[i] - b[i]) for i in range(3)]
    c.apart(*[x - tol for x in d])
    want = c.And(*[x <= tol for x in d])
    c.check('close', c.Iff(c.fn(V + 'isclose')(a, b, tol), want), c.Iff(c.fn(V + 'is_close')(a, b, tolerance = tol), want))


@contract('C20', 'squared_distances')
def squared_distances(c):
    """projected squared distances to a set of points"""
    n = c.int('n', 1)
    pr = c.choice('projection', sorted(AXES))
    i, j = AXES[pr]
    p = c.vec('p')
    two = c.choice('two', [False, True])
    m = c.int('m', 1) if two else 1
    pts = c.array('pts', (n, m, 3) if two else (n, 3), float)
    ix = (c.int('k', 0, n - 1), c.int('l', 0, m - 1)) if two else (c.int('k', 0, n - 1),)
    f = lambda e: (e[i] - p[i]) * (e[i] - p[i]) + (e[j] - p[j]) * (e[j] - p[j])
    d2 = c.fn(V + 'point_distance_sqr_to_points_projected')(p, pts, pr)
    c.check('shape', d2.shape == ((n, m) if two else (n,)))
    c.check('squared distance', c.eq(d2[ix], f(pts[ix])))
    _, e = c.attempt(ValueError, c.fn(V + 'point_distance_sqr_to_points_projected'), p, pts, 'zx')
    c.check('bad projection refused', e is not None)


@contract('C20', 'nan_extremes')
def nan_extremes(c):
    """the greatest and least of each column, NaN ignored wherever it is"""
    n = c.int('n', 1)
    which = c.choice('which', ['_nanmax', '_nanmin'])
    a = c.array('a', (n, 2), float, nan = True)
    s = c.ghost['sign'] = 1.0 if which == '_nanmax' else -1.0
    r = c.fn(V + which)(a)
    k = c.int('k', 0, n - 1)
    c.check('shape', r.shape == (2,))
    for j in range(2):
        c.check('bounds', c.Implies(c.Not(c.isnan(a[k, j])), lambda: c.And(c.Not(c.isnan(r[j])), s * r[j] >= s * a[k, j])))
        c.check('attained', c.Implies(c.Not(c.isnan(r[j])), lambda: c.exists((n,), lambda i: c.And(c.Not(c.isnan(a[i, j])), r[j] == a[i, j]))))


def extreme_so_far(c, x, col, s, upto):
    n = c.length(col)
    return [('bounds', c.forall((n,), lambda i: c.Implies(c.And(i < upto, c.Not(c.isnan(col[i]))),
                                                          lambda: c.And(c.Not(c.isnan(x)), s * x >= s * col[i])))),
            ('attained', c.Implies(c.Not(c.isnan(x)), lambda: c.exists((n,), lambda i: c.And(c.Not(c.isnan(col[i])), x == col[i]))))]


@invariant(M, '_nanmax', names = ('max_val', 'col_array'), target = 'val')
def max_so_far(c, L):
    return extreme_so_far(c, L.max_val, L.col_array, 1.0, L._i)


@invariant(M, '_nanmin', names = ('min_val', 'col_array'), target = 'val')
def min_so_far(c, L):
    return extreme_so_far(c, L.min_val, L.col_array, -1.0, L._i)
