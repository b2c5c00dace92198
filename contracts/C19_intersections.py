"""C19: intersections of lines with planes, triangles and lines (resqpy.olio.intersection)"""

from vcpy.harness import contract
from vcpy.registry import invariant

X = 'resqpy.olio.intersection.'


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def xyz(v):
    return [v[0], v[1], v[2]]


def corners(t):
    """first corner and the two edge vectors from it"""
    o = [t[0, i] for i in range(3)]
    return o, [t[1, i] - o[i] for i in range(3)], [t[2, i] - o[i] for i in range(3)]


def same(c, a, b):
    return c.And(*[c.eq(x, y) for x, y in zip(a, b)])


def crossing(c, ext, unbounded = False):
    """a line which crosses the plane of a triangle at given fractions (t along the line vector, u and v along the edges)"""
    tri = c.array('tri', (3, 3), float)
    v = c.vec('line_v')
    t, a, b = c.real('t'), c.real('u'), c.real('v')
    o, e1, e2 = corners(tri)
    n = cross(e1, e2)
    d = dot(v, n)
    c.apart(d, d * 1.0e-3)
    c.assume(d != 0.0)
    c.apart(t, 1.0 - t, a, 1.0 - a, b, 1.0 - a - b)
    hit = [o[i] + a * e1[i] + b * e2[i] for i in range(3)]
    p = c.np.array([hit[i] - t * v[i] for i in range(3)])
    return tri, p, v, t, a, b, hit


@contract('C19', 'plane_point')
def plane_point(c):
    """the intersection of a line and a plane is on both; there is none only when they are parallel"""
    tri = c.array('tri', (3, 3), float)
    p, v = c.vec('p'), c.vec('v')
    o, e1, e2 = corners(tri)
    n = cross(e1, e2)
    c.apart(dot(v, n))
    r = c.fn(X + 'line_plane_intersect')(p, v, tri)
    if r is None:
        c.check('parallel', c.eq(dot(v, n), 0.0))
    else:
        c.check('not parallel', dot(v, n) != 0.0)
        c.check('in plane', c.eq(dot(n, sub(xyz(r), o)), 0.0))
        c.check('on line', same(c, cross(sub(xyz(r), xyz(p)), xyz(v)), [0.0, 0.0, 0.0]))


@contract('C19', 'triangle_found')
def triangle_found(c):
    """a line through a point of a triangle is found to intersect there; one through a point outside it, or beyond the ends of
    a segment, is not"""
    found(c, 'line_triangle_intersect')


@contract('C19', 'triangle_found_numba')
def triangle_found_numba(c):
    """a line through a point of a triangle is found to intersect there; one through a point outside it, or beyond the ends of
    a segment, is not (compiled form)"""
    found(c, 'line_triangle_intersect_numba')


def found(c, name):
    tri, p, v, t, a, b, hit = crossing(c, 0.0)
    seg = c.choice('segment', [False, True])
    tol = c.choice('tol', [False, True])
    lt, tt = (c.real('l_tol', 0.0, 0.5), c.real('t_tol', 0.0, 0.5)) if tol else (0.0, 0.0)
    c.apart(t + lt, t - 1.0 - lt, a + tt, b + tt, a + b - 1.0 - tt, a - 1.0 - tt)
    r = c.fn(X + name)(p, v, tri, seg, lt, tt) if tol else c.fn(X + name)(p, v, tri, seg)
    on = c.And(a >= -tt, b >= -tt, a <= 1.0 + tt, a + b <= 1.0 + tt)
    if seg:
        on = c.And(on, t >= -lt, t <= 1.0 + lt)
    if r is None:
        c.check('outside', c.Not(on))
    else:
        c.check('inside', on)
        c.check('point', same(c, xyz(r), hit))


@contract('C19', 'triangle_parallel')
def triangle_parallel(c):
    """a line parallel to the plane of a triangle has no intersection"""
    tri = c.array('tri', (3, 3), float)
    o, e1, e2 = corners(tri)
    f, g = c.real('f'), c.real('g')
    p = c.vec('p')
    v = c.np.array([f * e1[i] + g * e2[i] for i in range(3)])
    c.apart(dot(xyz(v), cross(e1, e2)))
    seg = c.choice('segment', [False, True])
    which = c.choice('which', ['line_triangle_intersect', 'line_triangle_intersect_numba', 'line_triangles_intersects'])
    if which == 'line_triangles_intersects':
        r = c.fn(X + which)(p, v, tri.reshape((1, 3, 3)), seg)
        c.check('none', c.isnan(r[0, 0]), c.isnan(r[0, 1]), c.isnan(r[0, 2]))
    else:
        c.check('none', c.fn(X + which)(p, v, tri, seg) is None)


@contract('C19', 'triangles_elementwise')
def triangles_elementwise(c):
    """intersections with a set of triangles are those with each triangle alone, NaN where there is none"""
    n = c.int('n', 1)
    k = c.int('k', 0, n - 1)
    tris = c.array('tris', (n, 3, 3), float)
    p, v = c.vec('p'), c.vec('v')
    seg = c.choice('segment', [False, True])
    rs = c.fn(X + 'line_triangles_intersects')(p, v, tris, line_segment = seg)
    c.check('shape', rs.shape[0] == n, rs.shape[1] == 3)
    compare(c, rs[k], p, v, tris[k], seg)


def compare(c, r, p, v, tri, seg):
    one = c.fn(X + 'line_triangle_intersect')(p, v, tri, line_segment = seg)
    if one is None:
        c.check('none', *[c.isnan(r[i]) for i in range(3)])
    else:
        c.check('found', *[c.Not(c.isnan(r[i])) for i in range(3)])
        c.check('same', *[c.eq(r[i], one[i]) for i in range(3)])


@contract('C19', 'line_set_elementwise')
def line_set_elementwise(c):
    """intersections of a set of lines with a set of triangles are those of each line with each triangle"""
    n, m = c.int('n', 1), c.int('m', 1)
    k, l = c.int('k', 0, n - 1), c.int('l', 0, m - 1)
    tris = c.array('tris', (n, 3, 3), float)
    ps = c.array('ps', (m, 3), float)
    common = c.choice('common', [False, True])
    vs = c.vec('v') if common else c.array('vs', (m, 3), float)
    seg = c.choice('segment', [False, True])
    rs = c.fn(X + 'line_set_triangles_intersects')(ps, vs, tris, line_segment = seg)
    c.check('shape', rs.shape[0] == m, rs.shape[1] == n, rs.shape[2] == 3)
    compare(c, rs[l, k], ps[l], vs if common else vs[l], tris[k], seg)


@contract('C19', 'poly_line_elementwise')
def poly_line_elementwise(c):
    """intersections of a polyline with triangles are those of its segments"""
    n, m = c.int('n', 1), c.int('m', 2)
    k, l = c.int('k', 0, n - 1), c.int('l', 0, m - 2)
    tris = c.array('tris', (n, 3, 3), float)
    ps = c.array('ps', (m, 3), float)
    rs = c.fn(X + 'poly_line_triangles_intersects')(ps, tris)
    c.check('shape', rs.shape[0] == m - 1, rs.shape[1] == n)
    compare(c, rs[l, k], ps[l], ps[l + 1] - ps[l], tris[k], True)


def segment_hits(c, p, d, tris):
    return c.fn(X + 'line_triangles_intersects')(p, d, tris, line_segment = True)


def misses(c, ps, tris, n, l):
    """no triangle is intersected by segment l of the polyline"""
    q = segment_hits(c, ps[l], ps[l + 1] - ps[l], tris)
    return c.forall((n,), lambda t: c.isnan(q[t, 0]))


@contract('C19', 'first_intersect')
def first_intersect(c):
    """the first segment of a polyline to intersect is the lowest numbered, with a point where it does"""
    n, m = c.int('n', 1), c.int('m', 1)
    tris = c.array('tris', (n, 3, 3), float)
    ps = c.array('ps', (m, 3), float)
    start = c.int('start', 0)
    if c.symbolic:  # the callee by its contract (triangles_elementwise): NaN in all of x, y and z together
        f, g = c.function('hit', 'ffffffii'), c.function('missed', 'ffffffi', 'b')

        def stub(line_p, line_v, triangles, line_segment = False):
            if triangles is not tris or line_segment is not True:
                raise c.mismatch('triangles or line_segment differ')
            a = [line_p[0], line_p[1], line_p[2], line_v[0], line_v[1], line_v[2]]
            return c.lazy((n, 3), 'f', lambda t, i: f(*a, t, i), lambda t, i: g(*a, t))
        c.stub('resqpy.olio.intersection', 'line_triangles_intersects', stub)
    c.ghost['start'] = start
    seg, r = c.fn(X + 'poly_line_triangles_first_intersect')(ps, tris, start = start)
    if seg is None:
        c.check('no point', r is None)
        c.check('none', c.forall((m,), lambda l: c.Implies(c.And(l >= start, l < m - 1), lambda: misses(c, ps, tris, n, l))))
    else:
        c.check('range', seg >= start, seg < m - 1)
        q = segment_hits(c, ps[seg], ps[seg + 1] - ps[seg], tris)
        c.check('none before', c.forall((m,), lambda l: c.Implies(c.And(l >= start, l < seg), lambda: misses(c, ps, tris, n, l))))
        c.check('there', c.exists((n,), lambda t: c.And(c.Not(c.isnan(q[t, 0])), *[c.eq(r[i], q[t, i]) for i in range(3)])))


@invariant('resqpy.olio.intersection', 'poly_line_triangles_first_intersect', names = ('line_ps', 'triangles'))
def searched_invariant(c, L):
    n, m = c.length(L.triangles), c.length(L.line_ps)
    return [('none so far', c.forall((m,), lambda l: c.Implies(c.And(l >= c.ghost['start'], l < L._i, l < m - 1),
                                                               lambda: misses(c, L.line_ps, L.triangles, n, l))))]


def table(c):
    n, m = c.int('n', 1), c.int('m', 1)
    e = c.array('e', (m, n, 3), float, nan = True)
    return n, m, e


@contract('C19', 'distilled')
def distilled(c):
    """the distilled lists have every pair of line and triangle which intersect once, and the points"""
    n, m, e = table(c)
    ls, ts, pts = c.fn(X + 'distilled_intersects')(e)
    q = c.length(ls)
    c.check('lengths', c.length(ts) == q, c.length(pts) == q)
    c.check('valid', c.forall((q,), lambda i: c.And(ls[i] >= 0, ls[i] < m, ts[i] >= 0, ts[i] < n)))
    c.check('intersecting', c.forall((q,), lambda i: c.Not(c.isnan(e[ls[i], ts[i], 0]))))
    c.check('points', c.forall((q, 3), lambda i, j: c.Or(c.eq(pts[i, j], e[ls[i], ts[i], j]),
                                                         c.And(c.isnan(pts[i, j]), c.isnan(e[ls[i], ts[i], j])))))
    l, k = c.int('l', 0, m - 1), c.int('k', 0, n - 1)
    c.check('all', c.Implies(c.Not(c.isnan(e[l, k, 0])), lambda: c.exists((q,), lambda i: c.And(ls[i] == l, ts[i] == k))))
    a, b = c.int('a', 0), c.int('b', 0)
    c.assume(a < b, b < q)
    c.check('in order', c.Or(ls[a] < ls[b], c.And(ls[a] == ls[b], ts[a] < ts[b])))


@contract('C19', 'last')
def last(c):
    """each line is given its intersection with the highest numbered of the triangles it intersects, or NaN"""
    n, m, e = table(c)
    l, k = c.int('l', 0, m - 1), c.int('k', 0, n - 1)
    r = c.fn(X + 'last_intersects')(e)
    c.check('shape', r.shape[0] == m, r.shape[1] == 3)
    none = c.forall((n,), lambda t: c.isnan(e[l, t, 0]))
    c.check('none', c.Implies(none, c.isnan(r[l, 0])))
    lastk = c.And(c.Not(c.isnan(e[l, k, 0])), c.forall((n,), lambda t: c.Implies(t > k, c.isnan(e[l, t, 0]))))
    for i in range(3):
        c.check('last', c.Implies(lastk, c.Or(c.eq(r[l, i], e[l, k, i]), c.And(c.isnan(r[l, i]), c.isnan(e[l, k, i])))))


@contract('C19', 'for_one')
def for_one(c):
    """lists of triangles for a line, and of lines for a triangle, are complete, in order and with their points"""
    n, m, e = table(c)
    l, k = c.int('l', 0, m - 1), c.int('k', 0, n - 1)
    which = c.choice('which', ['line', 'triangle', 'indices'])
    if which == 'line':
        ix, pts = c.fn(X + 'triangles_for_line')(e, l)
        top, at, want = n, (lambda i: e[l, i]), k
    elif which == 'triangle':
        ix, pts = c.fn(X + 'lines_for_triangle')(e, k)
        top, at, want = m, (lambda i: e[i, k]), l
    else:
        ix, pts = c.fn(X + 'intersects_indices')(e[l]), None
        top, at, want = n, (lambda i: e[l, i]), k
    q = c.length(ix)
    c.check('valid', c.forall((q,), lambda i: c.And(ix[i] >= 0, ix[i] < top, c.Not(c.isnan(at(ix[i])[0])))))
    c.check('all', c.Implies(c.Not(c.isnan(at(want)[0])), lambda: c.exists((q,), lambda i: ix[i] == want)))
    c.check('in order', c.forall((q,), lambda i: c.Implies(i > 0, lambda: ix[i] > ix[i - 1])))
    if pts is not None:
        c.check('lengths', c.length(pts) == q)
        c.check('points', c.forall((q,), lambda i: c.eq(pts[i, 0], at(ix[i])[0])))
        c.check('y of points', c.forall((q,), lambda i: c.Or(c.isnan(pts[i, 1]), c.eq(pts[i, 1], at(ix[i])[1]))))


@contract('C19', 'lines_meet')
def lines_meet(c):
    """two lines in a plane meet at the point on both, if they are not parallel and it is within any bounds which apply"""
    x1, y1, dx, dy = c.real('x1'), c.real('y1'), c.real('dx'), c.real('dy')
    ex, ey, t, u = c.real('ex'), c.real('ey'), c.real('t'), c.real('u')
    div = dx * ey - dy * ex
    c.apart(div, div * 1.0e-3, t, u, 1.0 - t, 1.0 - u)
    c.assume(div != 0.0)
    hx, hy = x1 + t * dx, y1 + t * dy  # the point at fraction t of the first line and u of the second
    x3, y3 = hx - u * ex, hy - u * ey
    mode = c.choice('mode', ['unbounded', 'half ignored', 'segments', 'half'])
    x, y = c.fn(X + 'line_line_intersect')(x1, y1, x1 + dx, y1 + dy, x3, y3, x3 + ex, y3 + ey,
                                           line_segment = mode in ('segments', 'half'),
                                           half_segment = mode in ('half', 'half ignored'))
    ok = True
    if mode == 'segments':
        ok = c.And(t >= 0.0, t <= 1.0, u >= 0.0, u <= 1.0)
    elif mode == 'half':
        ok = c.And(t >= 0.0, u >= 0.0, u <= 1.0)
    if x is None:
        c.check('none', y is None)
        c.check('beyond bounds', c.Not(ok))
    else:
        c.check('within bounds', ok)
        c.check('point', c.eq(x, hx), c.eq(y, hy))


@contract('C19', 'parallel_lines')
def parallel_lines(c):
    """parallel lines in a plane have no intersection point"""
    x1, y1, dx, dy = c.int('x1', -20, 20), c.int('y1', -20, 20), c.int('dx', -20, 20), c.int('dy', -20, 20)
    x3, y3, f = c.int('x3', -20, 20), c.int('y3', -20, 20), c.int('f', -20, 20)
    s, h = c.choice('s', [False, True]), c.choice('h', [False, True])
    r = c.fn(X + 'line_line_intersect')(x1, y1, x1 + dx, y1 + dy, x3, y3, x3 + f * dx, y3 + f * dy, s, h)
    c.check('none', r[0] is None, r[1] is None)


@contract('C19', 'projected_2d')
def projected_2d(c):
    """a point is projected onto a line in plan perpendicularly; snapped to a segment it goes to the closest point of it"""
    w = c.choice('w', [2, 3])
    p, a, b = c.vec('p', w), c.vec('a', w), c.vec('b', w)
    d = [b[0] - a[0], b[1] - a[1]]
    ll = d[0] * d[0] + d[1] * d[1]
    c.apart(ll)
    c.assume(ll > 0.0)
    f = (p[0] - a[0]) * d[0] + (p[1] - a[1]) * d[1]
    c.apart(f, f - ll)
    snap = c.choice('snap', [False, True])
    r = c.fn(X + ('point_snapped_to_line_segment_2d' if snap else 'point_projected_to_line_2d'))(p, a, b)
    x, y = r[0], r[1]
    if snap:
        c.check('before', c.Implies(f < 0.0, c.And(c.eq(x, a[0]), c.eq(y, a[1]))))
        c.check('after', c.Implies(f > ll, c.And(c.eq(x, b[0]), c.eq(y, b[1]))))
    if not snap or c.is_true(c.And(f >= 0.0, f <= ll)):
        c.check('on line', c.eq((x - a[0]) * d[1], (y - a[1]) * d[0]))
        c.check('perpendicular', c.eq((x - p[0]) * d[0] + (y - p[1]) * d[1], 0.0))
