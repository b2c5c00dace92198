"""C17: transmissibilities (resqpy.olio.transmission, resqpy.grid, resqpy.fault)"""

from vcpy.harness import contract
from vcpy.registry import invariant
from vcpy import gridobj
from C09_regular import Regular
from C10_grid_points import Points

T = 'resqpy.olio.transmission.'
V = 'resqpy.olio.vector_utilities.'
DEFINED = 'all points are defined (not NaN)'


def det2(a, b):
    return a[0] * b[1] - a[1] * b[0]


def projected(c, p, q, r):
    """areas of a triangle as seen along each of the axes"""
    e, f = [q[x] - p[x] for x in range(3)], [r[x] - p[x] for x in range(3)]
    return [0.5 * c.abs(e[(x + 1) % 3] * f[(x + 2) % 3] - e[(x + 2) % 3] * f[(x + 1) % 3]) for x in range(3)]


@contract('C17', 'projected_area')
def projected_area(c):
    """the areas of triangles as seen along each axis: half the size of the cross product of two sides in that projection"""
    n = c.int('n', 1)
    k = c.int('k', 0, n - 1)
    a, b, d = [c.array(x, (n, 3)) for x in 'abd']
    r = c.fn(T + 'projected_tri_area')(a, b, d)
    c.check('shape', r.shape == (n, 3))
    w = projected(c, a[k], b[k], d[k])
    for x in range(3):
        c.check('squared', c.eq(r[k, x] * r[k, x], w[x] * w[x], 1.0e-3))
        c.check('not negative', r[k, x] >= 0.0)


@contract('C17', 'triangle_areas')
def triangle_areas(c):
    """the area of triangles, in space or in plan: half the size of the cross product of two sides; zero, not NaN nor an
    exception, for points in line"""
    n, m = c.int('n', 1), c.int('m', 1)
    k = c.int('k', 0, m - 1)
    p = c.array('p', (n, 3))
    t = c.array('t', (m, 3), int, lo = 0, hi = n - 1)
    tri = [p[t[k, x]] for x in range(3)]
    w = projected(c, *tri)
    r = c.fn(V + 'area_of_triangles')(p, t, xy_projection = True)
    c.check('plan shape', r.shape == (m,))
    c.check('plan', c.eq(r[k], w[2]))
    r = c.fn(V + 'area_of_triangles')(p, t)
    c.check('space shape', r.shape == (m,))
    square = w[0] * w[0] + w[1] * w[1] + w[2] * w[2]
    c.check('space', c.And(r[k] >= 0.0, c.eq(r[k] * r[k], square)))
    one = c.fn(V + 'area_of_triangle')(*tri)
    c.check('one', c.And(one >= 0.0, c.eq(one * one, square)))


class Inputs:
    """permeabilities, net to gross (or a single value for it) and Darcy constant for cells of a grid"""

    def __init__(self, c, n):
        self.k = [c.array('perm_' + x, tuple(n), lo = 0.0) for x in 'kji']
        self.dc = c.real('darcy', 0.0)
        how = c.choice('ntg', ['none', 'one', 'array'])
        self.ntg = {'none': lambda: None, 'one': lambda: c.real('ntg', 0.0), 'array': lambda: c.array('ntg_a', tuple(n), lo = 0.0)}[how]()
        self.how = how

    def args(self):
        return dict(perm_k = self.k[0], perm_j = self.k[1], perm_i = self.k[2], ntg = self.ntg)

    def at(self, axis, cell):
        """Darcy constant by permeability, by net to gross except vertically"""
        g = self.dc * self.k[axis][cell]
        if axis == 0 or self.how == 'none':
            return g
        return g * (self.ntg if self.how == 'one' else self.ntg[cell])


@contract('C17', 'regular')
def regular(c):
    """half cell transmissibilities of a regular grid: permeability by face area over half the length of the cell, net to gross
    applying to J and I only"""
    g = Regular(c, aligned = (False, ), origin = False)
    d = c.fn(V + 'naive_lengths')(g.steps)  # by its contract (C05)
    c.assume(c.And(*[d[x] > 0.1 for x in range(3)]))
    cell = g.cell(c)
    f = Inputs(c, g.n)
    h = c.fn(T + 'half_cell_t_regular')(g.grid, darcy_constant = f.dc, **f.args())
    c.check('shape', h.shape == tuple(g.n) + (3,))
    area = [d[1] * d[2], d[2] * d[0], d[0] * d[1]]
    for a in range(3):
        c.check('axis', c.eq(h[cell + (a,)], f.at(a, cell) * area[a] / (0.5 * d[a]), 1.0e-6))


class Block:
    """the definition for a cell with corners cp(kp, jp, ip)"""

    def __init__(self, c, cp):
        self.c, self.cp = c, cp
        if c.symbolic:  # areas of triangles by contract (projected_area)
            f = c.function('area', 'f' * 9 + 'i', 'f')
            self.area = lambda p, q, r: [f(*[v[x] for v in (p, q, r) for x in range(3)], axis) for axis in range(3)]

            def areas(pa, pb, pc):
                for q in (pb, pc):
                    c.check('same shape', *[m == n for m, n in zip(pa.shape, q.shape)])
                return c.lazy(pa.shape, 'f', lambda *i: f(*[v[i[:-1] + (x,)] for v in (pa, pb, pc) for x in range(3)], i[-1]))
            c.stub(T[:-1], 'projected_tri_area', areas)
        else:
            self.area = lambda p, q, r: projected(c, p, q, r)

    def pick(self, axis, p, q, r):
        """corner on side p of an axis, and sides q, r of the other two (in k, j, i order)"""
        n = [q, r]
        n.insert(axis, p)
        return self.cp(*n)

    def half_axis(self, axis):
        """components (sizes) of the vector from the middle of the cell to that of a face"""
        e = [[self.pick(axis, 1, q, r)[x] - self.pick(axis, 0, q, r)[x] for x in range(3)] for q in range(2) for r in range(2)]
        return [0.125 * self.c.abs(e[0][x] + e[1][x] + e[2][x] + e[3][x]) for x in range(3)]

    def areas(self, axis, polarity):
        """areas of the two triangles of a face as seen along each axis"""
        f = lambda q, r: self.pick(axis, polarity, q, r)
        a, b = self.area(f(0, 0), f(0, 1), f(1, 1)), self.area(f(0, 0), f(1, 1), f(1, 0))
        return [a[x] + b[x] for x in range(3)]


@contract('C17', 'irregular', assumptions = [DEFINED])
def irregular(c):
    """half cell transmissibilities of any other grid, with or without split pillars and gaps between layers: the permeability by
    the face area as seen along the axis over the length of half the axis; NaN if that length is less than the tolerance"""
    p = Points(c)
    cell = p.cell()
    f = Inputs(c, p.n)
    tol = c.real('tolerance', 0.001)
    p.grid.points_ref = lambda masked = True: p.points
    p.grid.create_column_pillar_mapping = lambda: p.pfc
    b = Block(c, lambda kp, jp, ip: p.corner(*cell, kp, jp, ip))
    axis, polarity = c.choice('axis', [0, 1, 2]), c.choice('polarity', [0, 1])
    h = b.half_axis(axis)
    square = h[0] * h[0] + h[1] * h[1] + h[2] * h[2]
    c.apart(square - tol * tol)
    r = c.fn(T + 'half_cell_t_irregular')(p.grid, darcy_constant = f.dc, tolerance = tol, **f.args())
    c.check('shape', r.shape == tuple(p.n) + (3, 2))
    t = r[cell + (axis, polarity)]
    none = square < tol * tol
    c.check('none', c.Iff(none, c.isnan(t)))
    a = b.areas(axis, polarity)
    want = f.k[axis][cell] * (h[0] * a[0] + h[1] * a[1] + h[2] * a[2]) / square
    if axis and f.how != 'none':
        want = want * (f.ntg if f.how == 'one' else f.ntg[cell])
    c.check('transmissibility', c.Or(none, c.eq(t, c.abs(f.dc * want), 1.0e-6)))


@contract('C17', 'same_for_box')
def same_for_box(c):
    """for a cell which is a box along the axes, the definition for irregular grids is that for regular ones"""
    d = [c.real('d' + x, 0.1) for x in 'kji']
    o = c.vec('o')
    b = Block(c, lambda kp, jp, ip: [o[0] + ip * d[2], o[1] + jp * d[1], o[2] + kp * d[0]])
    b.area = lambda p, q, r: projected(c, p, q, r)
    for axis in range(3):
        h = b.half_axis(axis)
        square = h[0] * h[0] + h[1] * h[1] + h[2] * h[2]
        for polarity in range(2):
            a = b.areas(axis, polarity)
            full = d[0] * d[1] * d[2]
            c.check('same', c.eq((h[0] * a[0] + h[1] * a[1] + h[2] * a[2]) * d[axis] * d[axis], square * 2.0 * full, 1.0e-6))


DARCY = {'m': 8.527017e-5, 'ft': 1.127116e-3, 'ft[US]': 1.127116e-3}


@contract('C17', 'dispatch')
def dispatch(c):
    """half cell transmissibilities use the method for the class of grid, the arrays given or else those of the property
    collection, and the Darcy constant given or else that for the units of length"""
    n = [c.int('n' + x, 1) for x in 'kji']
    kind = c.choice('class', ['Grid', 'RegularGrid'])
    units = c.choice('units', sorted(DARCY))
    g = gridobj.blank(c, n, cls = 'resqpy.grid.' + kind, xy_units = lambda: units, z_units = lambda: units)
    names = ['ntg', 'poro', 'perm_i', 'perm_j', 'perm_k']
    stored, given = {x: f'stored {x}' for x in names}, {x: f'given {x}' for x in names}
    has = c.choice('stored', [(), ('ntg', 'perm_i', 'perm_j', 'perm_k'), ('perm_i', 'perm_k')])
    gave = c.choice('gave', [(), ('perm_i', 'perm_j', 'perm_k'), ('perm_j',), ('ntg', 'perm_i', 'perm_j', 'perm_k')])
    real = c.choice('realization', [None, 3])
    calls = []

    class Collection:

        def basic_static_property_parts(self, realization = None, share_perm_parts = False, **kw):
            calls.append(('parts', realization, share_perm_parts))
            return tuple(x if x in has else None for x in names)

        def cached_part_array_ref(self, part, **kw):
            return stored[part]
    g.extract_property_collection = Collection
    for m in ('regular', 'irregular'):
        c.replace(T[:-1], 'half_cell_t_' + m, lambda grid, m = m, **kw: (m, grid, kw))
    kw = {x: given[x] for x in gave}
    dc = c.choice('darcy', [None, 2.5])
    if dc is not None:
        kw['darcy_constant'] = dc
    if real is not None:
        kw['realization'] = real
    tol = c.choice('tolerance', [None, 0.25])
    if tol is not None:
        kw['tolerance'] = tol
    r, e = c.attempt(AssertionError, c.fn(T + 'half_cell_t'), g, **kw)
    want = {x: given[x] if x in gave else stored[x] if x in has else None for x in ('perm_k', 'perm_j', 'perm_i', 'ntg')}
    if None in (want['perm_k'], want['perm_j'], want['perm_i']):
        c.check('missing', e is not None)
        return
    c.check('found', e is None)
    m, grid, args = r
    c.check('method', m == ('regular' if kind == 'RegularGrid' else 'irregular'), grid is g)
    c.check('arrays', *[args.get(x) == y for x, y in want.items()])
    c.check('realization', *[x[1] == real and x[2] is True for x in calls])
    c.check('Darcy constant', c.eq(args['darcy_constant'], DARCY[units] if dc is None else dc))
    if m == 'irregular':
        c.check('tolerance', c.eq(args.get('tolerance', 1.0e-6), 1.0e-6 if tol is None else tol))


@contract('C17', 'mixed_units')
def mixed_units(c):
    """without a Darcy constant, units of length must be metres or feet, the same vertically"""
    n = [c.int('n' + x, 1) for x in 'kji']
    xy, z = c.choice('xy', ['m', 'ft', 'km']), c.choice('z', ['m', 'ft', 'km'])
    g = gridobj.blank(c, n, xy_units = lambda: xy, z_units = lambda: z)
    for m in ('regular', 'irregular'):
        c.replace(T[:-1], 'half_cell_t_' + m, lambda grid, **kw: 'done')
    r, e = c.attempt(AssertionError, c.fn(T + 'half_cell_t'), g, perm_k = 'k', perm_j = 'j', perm_i = 'i', ntg = 1.0)
    c.check('refused', (e is None) == (xy == z and xy != 'km'))


@contract('C17', 'prism_precursor')
def prism_precursor(c):
    """for flow to each side of a triangle in plan: distance from its centre to the middle of the side, and length of the side as
    seen along that direction; sides are numbered by the opposite corner"""
    n, m, w = c.int('n', 1), c.int('m', 1), c.choice('w', [2, 3])
    k, s = c.int('k', 0, m - 1), c.choice('side', [0, 1, 2])
    p = c.array('p', (n, w))
    t = c.array('t', (m, 3), int, lo = 0, hi = n - 1)
    v = [[p[t[k, x], 0], p[t[k, x], 1]] for x in range(3)]
    a, b = v[(s + 1) % 3], v[(s + 2) % 3]
    g = [0.5 * (a[x] + b[x]) - (v[0][x] + v[1][x] + v[2][x]) / 3.0 for x in range(2)]
    sq = g[0] * g[0] + g[1] * g[1]
    c.assume(sq > 0.01)
    normal, flow = c.fn(T + 'half_cell_t_2d_triangular_precursor')(p, t)
    c.check('shape', normal.shape == (m, 3), flow.shape == (m, 3))
    f = c.sqrt(sq)
    c.check('flow', c.eq(flow[k, s], f, 1.0e-6))
    across = (b[0] - a[0]) * (g[1] / f) + (b[1] - a[1]) * (-g[0] / f)
    c.check('across', c.eq(normal[k, s], c.abs(across), 1.0e-6))


class Prisms(dict):
    """stand in for a grid of vertical prisms"""
    __getattr__ = dict.__getitem__


@contract('C17', 'prisms', assumptions = [DEFINED])
def prisms(c):
    """half cell transmissibilities of vertical prisms: top and base by area in plan over half the thickness; vertical faces,
    each along the side of the triangle up to the vertex of the same number, by the length across the flow and the thickness over
    the distance from the centre; net to gross on the latter only; NaN where that distance is less than the tolerance"""
    n, m, nk = c.int('n', 1), c.int('m', 1), c.int('nk', 1)
    l, k, s = c.int('l', 0, nk - 1), c.int('k', 0, m - 1), c.choice('face', [0, 1, 2, 3, 4])
    p = c.array('p', (n, 3))
    t = c.array('t', (m, 3), int, lo = 0, hi = n - 1)
    count = nk * m
    thick = c.array('thick', (count,), lo = 0.0)
    triple, dc, tol = c.array('triple', (count, 3), lo = 0.0), c.real('darcy', 0.0), c.real('tolerance', 0.001)
    perm_k = c.array('perm_k', (count,), lo = 0.0) if c.choice('perm_k', [False, True]) else None
    ntg = c.array('ntg', (count,), lo = 0.0) if c.choice('ntg', [False, True]) else None
    cross, away = c.array('cross', (m, 3), lo = 0.0), c.array('away', (m, 3), lo = 0.0)
    area = c.array('area', (m,), lo = 0.0)
    # the functions for triangles by their contracts (prism_precursor, triangle_areas)

    def precursor(points, triangles):
        if points is not p or triangles is not t:
            raise c.mismatch('points or triangles differ')
        return cross.copy(), away.copy()

    def areas(points, triangles, xy_projection = False):
        if points is not p or triangles is not t or xy_projection is not True:
            raise c.mismatch('points or triangles differ')
        return area
    c.replace(T[:-1], 'half_cell_t_2d_triangular_precursor', precursor)
    c.replace(V[:-1], 'area_of_triangles', areas)
    units = c.choice('units', ['m', 'ft', None])
    g = Prisms(nk = nk, cell_count = count, points_ref = lambda: p, triangulation = lambda: t, corner_points = lambda: None,
               thickness = lambda: thick, xy_units = lambda: units, z_units = lambda: units)
    kw = {} if units else {'darcy_constant': dc}
    d = DARCY[units] if units else dc
    r = c.fn(T + 'half_cell_t_vertical_prism')(g, triple_perm_horizontal = triple, perm_k = perm_k, ntg = ntg, tolerance = tol, **kw)
    c.check('shape', r.shape == (count, 5))
    cell = l * m + k
    v = r[cell, s]
    h = 0.5 * thick[cell]
    if s < 2:
        pk = (triple[cell, 0] + triple[cell, 1] + triple[cell, 2]) / 3.0 if perm_k is None else perm_k[cell]
        c.check('none', c.Iff(c.isnan(v), h < tol))
        c.check('vertical', c.Or(h < tol, c.eq(v, d * (pk * area[k] / h), 1.0e-6)))
        return
    f = s - 2
    opposite = (f + 1) % 3  # the side from vertex f - 1 to vertex f
    dist = away[k, opposite]
    want = triple[cell, f] * cross[k, opposite] * thick[cell] / dist
    if ntg is not None:
        want = want * ntg[cell]
    c.check('none', c.Iff(c.isnan(v), dist < tol))
    c.check('horizontal', c.Or(dist < tol, c.eq(v, d * want, 1.0e-6)))


class Neighbours:
    """grid of any extent, with or without split pillars and gaps, any half cell transmissibilities (NaN among them) and a
    collection of the given properties: (kind, indexable, facet) to array"""

    def __init__(self, c, split = (False,), gaps = (False,)):
        self.c = c
        self.n = n = [c.int('n' + x, 1) for x in 'kji']
        nk, nj, ni = n
        self.half = c.array('half', (nk, nj, ni, 3, 2), lo = 0.0, nan = True)
        self.tol = c.real('tolerance', 0.001)
        self.split = c.choice('split', list(split))
        self.gaps = self.split if gaps is None else c.choice('gaps', list(gaps))
        kw = {}
        if self.gaps:
            self.gap = c.array('gap', (nk - 1,), bool)
            kw.update(k_gaps = 1, k_gap_after_array = self.gap)
        self.split_j, self.split_i = None, None
        if self.split:
            self.split_j, self.split_i = c.array('split_j', (nj - 1, ni), bool), c.array('split_i', (nj, ni - 1), bool)
        self.props, self.asked, self.args = {}, [], []
        self.grid = gridobj.blank(c, n, has_split_coordinate_lines = self.split, split_column_faces = lambda: (self.split_j, self.split_i),
                                  extract_property_collection = lambda: self, half_cell_transmissibility = self.halves, **kw)

    def halves(self, use_property = True, realization = None, tolerance = 1.0e-6):
        self.args.append((use_property, realization))
        return self.half

    def single_array_ref(self, property_kind = None, indexable = None, facet_type = None, facet = None, realization = None, **kw):
        self.asked.append(realization)
        assert facet_type is None or (facet_type == 'none') == (facet == 'none')
        return self.props.get((property_kind, indexable, facet))

    def combobulated_face_array(self, a):
        if a is not self.props.get(('transmissibility multiplier', 'faces per cell', None)):
            raise self.c.mismatch('not the multiplier')
        return self.combobulated

    def shape(self, axis):
        return tuple(m + (1 if x == axis else 0) for x, m in enumerate(self.n))

    def size(self, axis):
        s = self.shape(axis)
        return s[0] * s[1] * s[2]

    def face(self, axis):
        """any face of an axis, whether it is internal, and the cells before and after it"""
        f = tuple(self.c.int('f' + x, 0, m - 1) for x, m in zip('kji', self.shape(axis)))
        before = tuple(q - 1 if x == axis else q for x, q in enumerate(f))
        return f, self.c.And(f[axis] > 0, f[axis] < self.n[axis]), before

    def closed(self, axis, f):
        """no connection, because of a gap or a split"""
        if axis == 0:
            return self.gap[f[0] - 1] if self.gaps else False
        if not self.split:
            return False
        return self.split_j[f[1] - 1, f[2]] if axis == 1 else self.split_i[f[1], f[2] - 1]

    def check(self, results, axis, mult = None, absolute = None, half = None):
        c = self.c
        half = self.half if half is None else half
        for x in range(3):
            c.check('shape', *[p == q for p, q in zip(results[x].shape, self.shape(x))])
        f, internal, before = self.face(axis)
        v = results[axis][f]
        c.check('outer', c.Or(internal, c.eq(v, 0.0)))
        if not c.is_true(internal):
            return
        a, b = half[before + (axis, 1)], half[f + (axis, 0)]
        zero = c.Or(c.isnan(a), a < self.tol, c.isnan(b), b < self.tol, self.closed(axis, f))
        extra, times = 0.0, 1.0
        if mult is not None:
            times = mult(f)
            zero = c.Or(zero, c.isnan(times))
        if absolute is not None:
            t = absolute[f]
            zero = c.Or(zero, c.And(c.Not(c.isnan(t)), t <= 0.0))
            extra = c.ite(c.isnan(t), 0.0, 1.0 / t)
        c.check('none', c.Implies(zero, lambda: c.eq(v, 0.0)))
        c.check('combined', c.Or(zero, c.eq(v, times / (1.0 / a + extra + 1.0 / b), 1.0e-6)))


R = 'resqpy.grid.Grid.transmissibility'


@contract('C17', 'neighbours')
def neighbours(c):
    """the transmissibility between neighbouring cells is the inverse of the sum of the inverses of those of the halves which
    meet; zero if either is less than the tolerance or NaN, across gaps and splits, and for outer faces; kept for next time"""
    g = Neighbours(c, split = (False, True), gaps = (False, True))
    axis = c.choice('axis', [0, 1, 2])
    use, real = c.choice('use', [False, True]), c.choice('realization', [None, 4])
    r = g.grid.transmissibility(tolerance = g.tol, use_tr_properties = use, realization = real)
    g.check(r, axis)
    c.check('asked', *[x == real for x in g.asked], *[x == (use, real) for x in g.args])
    again = g.grid.transmissibility(tolerance = g.tol, use_tr_properties = use, realization = real)
    c.check('again', *[(x is y) == (real is None) for x, y in zip(r, again)])


@contract('C17', 'stored_neighbours')
def stored_neighbours(c):
    """transmissibilities held as properties are used as they are: one for each direction, or one for all with the K faces, then
    J, then I; unless not wanted"""
    g = Neighbours(c)
    axis = c.choice('axis', [0, 1, 2])
    s = [g.shape(x) for x in range(3)]
    directions = c.choice('directions', [(), (0, 1, 2), (0,), (1,), (2,)])
    for x in directions:
        g.props['transmissibility', 'faces', 'KJI'[x]] = c.array('tr_' + 'kji'[x], s[x])
    composite = None
    if c.choice('composite', [False, True]):
        composite = g.props['transmissibility', 'faces', 'none'] = c.array('composite', (g.size(0) + g.size(1) + g.size(2),))
    if c.choice('used', [True, False]) is False:
        g.check(g.grid.transmissibility(tolerance = g.tol, use_tr_properties = False), axis)
        return
    r = g.grid.transmissibility(tolerance = g.tol)
    if axis in directions:
        c.check('direction', r[axis] is g.props['transmissibility', 'faces', 'KJI'[axis]])
    elif composite is not None:
        f, _, _ = g.face(axis)
        start = [0, g.size(0), g.size(0) + g.size(1)][axis]
        c.check('shape', *[p == q for p, q in zip(r[axis].shape, s[axis])])
        c.check('part', c.eq(r[axis][f], composite[start + (f[0] * s[axis][1] + f[1]) * s[axis][2] + f[2]]))
    else:
        g.check(r, axis)


@contract('C17', 'face_multipliers')
def face_multipliers(c):
    """multipliers for faces, by direction or all in one, apply to the faces they are for; NaN closes a face; the results are not
    kept for use without them"""
    g = Neighbours(c, split = (False, True), gaps = (False, True))
    axis = c.choice('axis', [0, 1, 2])
    how = c.choice('how', ['none', 'direction', 'composite'])
    mult = None
    if how == 'direction':
        a = g.props['transmissibility multiplier', 'faces', 'KJI'[axis]] = c.array('mult', g.shape(axis), lo = 0.0, nan = True)
        mult = lambda f: a[f]
    elif how == 'composite':
        b = g.props['transmissibility multiplier', 'faces', 'none'] = c.array('mult', (g.size(0) + g.size(1) + g.size(2),), lo = 0.0, nan = True)
        s, start = g.shape(axis), [0, g.size(0), g.size(0) + g.size(1)][axis]
        mult = lambda f: b[start + (f[0] * s[1] + f[1]) * s[2] + f[2]]
    r = g.grid.transmissibility(tolerance = g.tol, use_tr_properties = False, modifier_mode = 'faces multiplier')
    g.check(r, axis, mult = mult)
    c.check('not kept', *[getattr(g.grid, f'array_{x}_transmissibility', None) is None for x in 'kji'])


@contract('C17', 'cell_multipliers')
def cell_multipliers(c):
    """multipliers for the faces of each cell apply to its half cell transmissibilities, where not NaN"""
    g = Neighbours(c, split = (False, True), gaps = None)
    axis = c.choice('axis', [0, 1, 2])
    half = None
    if c.choice('present', [True, False]):
        g.props['transmissibility multiplier', 'faces per cell', None] = c.array('mult', tuple(g.n) + (6,))
        g.combobulated = m = c.array('combobulated', tuple(g.n) + (3, 2), lo = 0.0, nan = True)

        class Half:

            def __getitem__(self, i):
                return g.half[i] if c.is_true(c.isnan(m[i])) else g.half[i] * m[i]
        half = Half()
    r = g.grid.transmissibility(tolerance = g.tol, use_tr_properties = False, modifier_mode = 'faces per cell multiplier')
    g.check(r, axis, half = half)


@contract('C17', 'absolute_modifiers')
def absolute_modifiers(c):
    """the transmissibility of a fault (or of a mat, for K faces, which comes first) is a third term; none where it is NaN"""
    g = Neighbours(c, split = (False, True), gaps = None)
    axis = c.choice('axis', [0, 1, 2])
    held = c.choice('held', [(), ('fault', ), ('mat', ), ('mat all', ), ('fault', 'mat'), ('fault', 'mat all'), ('mat', 'mat all')])
    if axis and 'mat all' in held:
        return
    arrays = {x: c.array(x.replace(' ', '_'), g.shape(axis), nan = True) for x in held}
    for x, a in arrays.items():
        g.props[x.split()[0] + ' transmissibility', 'faces', None if 'all' in x else 'KJI'[axis]] = a
    order = ['mat', 'mat all', 'fault'] if axis == 0 else ['fault']
    use = [arrays[x] for x in order if x in held]
    r = g.grid.transmissibility(tolerance = g.tol, use_tr_properties = False, modifier_mode = 'absolute')
    g.check(r, axis, absolute = use[0] if use else None)


@contract('C17', 'half_cell_property')
def half_cell_property(c):
    """half cell transmissibilities held as a property are used, rearranged; else they are computed, with the tolerance; kept for
    next time if not for a realization"""
    n = [c.int('n' + x, 1) for x in 'kji']
    kind = c.choice('class', ['Grid', 'RegularGrid'])
    use, real = c.choice('use', [True, False]), c.choice('realization', [None, 4])
    stored = c.array('stored', tuple(n) + (6,)) if c.choice('stored', [True, False]) else None
    cell = tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n))
    axis, polarity = c.choice('axis', [0, 1, 2]), c.choice('polarity', [0, 1])
    pc = c.obj('resqpy.property.GridPropertyCollection', face_index_map = c.const_array([[0, 1], [2, 4], [5, 3]]),
               face_index_inverse_map = c.const_array([[0, 0], [0, 1], [1, 0], [2, 1], [1, 1], [2, 0]]))
    asked = []

    def find(**kw):
        asked.append((kw.get('property_kind'), kw.get('indexable'), kw.get('realization')))
        return stored
    pc.single_array_ref = find
    regular = kind == 'RegularGrid'
    computed = c.array('computed', tuple(n) + ((3,) if regular else (3, 2)))
    calls = []

    def compute(grid, **kw):
        calls.append(kw)
        return computed
    c.replace(T[:-1], 'half_cell_t', compute)
    g = gridobj.blank(c, n, cls = 'resqpy.grid.' + kind, extract_property_collection = lambda: pc)
    tol = c.choice('tolerance', [None, 0.25])
    kw = {} if tol is None else {'tolerance': tol}
    r = g.half_cell_transmissibility(use_property = use, realization = real, **kw)
    c.check('shape', *[p == q for p, q in zip(r.shape, tuple(n) + (3, 2))], len(r.shape) == 5)
    at = cell + (axis, polarity)
    if use and stored is not None and not regular:
        c.check('stored', c.eq(r[at], stored[cell + ([[0, 1], [2, 4], [5, 3]][axis][polarity],)]))
        c.check('asked', asked == [('transmissibility', 'faces per cell', real)], not calls)
    else:
        c.check('computed', c.eq(r[at], computed[at[:-1] if regular else at]))
        c.check('once', len(calls) == 1 and calls[0].get('realization') == real)
        if not regular:
            c.check('tolerance', calls[0].get('tolerance', 1.0e-6) == (1.0e-6 if tol is None else tol))
    before = len(calls) + len(asked)
    again = g.half_cell_transmissibility(use_property = use, realization = real, **kw)
    c.check('again', (len(calls) + len(asked) == before) == (real is None), c.eq(again[at], r[at]))


@contract('C17', 'face_order')
def face_order(c):
    """arrays for the six faces of cells are in the order K-, K+, J-, I+, J+, I- and go to and from axes and polarities unchanged"""
    n, m = c.int('n', 1), c.int('m', 1)
    k, l, axis, polarity = c.int('k', 0, n - 1), c.int('l', 0, m - 1), c.choice('axis', [0, 1, 2]), c.choice('polarity', [0, 1])
    pc = c.fn('resqpy.property.GridPropertyCollection')()
    a = c.array('a', (n, m, 6))
    r = pc.combobulated_face_array(a)
    c.check('shape', r.shape == (n, m, 3, 2))
    face = [[0, 1], [2, 4], [5, 3]][axis][polarity]
    c.check('to', c.eq(r[k, l, axis, polarity], a[k, l, face]))
    b = pc.discombobulated_face_array(r)
    c.check('back', b.shape == (n, m, 6), c.eq(b[k, l, face], a[k, l, face]))



S = 'resqpy.fault.GridConnectionSet'
FACES = [(0, 0), (0, 1), (1, 0), (2, 1), (1, 1), (2, 0)]


@contract('C17', 'connections', assumptions = ['half cell transmissibilities are not NaN'],
          bounded = 'two connections, of one grid')
def connections(c):
    """the transmissibility of a connection is the inverse of the sum of the inverses of those of its two half cells, each for the
    face of its own cell and by the fraction of the face which is shared; zero if either half or fraction is less than its
    tolerance; with the multiplier of the connection, or of its feature"""
    count = 2
    e = c.choice('e', [0, 1])
    grids, partial, mode = c.choice('case', [(1, False, 'off'), (1, True, 'off'), (1, False, 'none'), (1, False, 'connection'), (1, True, 'feature')])
    n = [[c.int(f'n{x}{g}', 1) for x in 'kji'] for g in range(grids)]
    size = [q[0] * q[1] * q[2] for q in n]
    half = [c.array(f'half{g}', tuple(n[g]) + (3, 2), lo = 0.0) for g in range(grids)]
    gl = [gridobj.blank(c, n[g], half_cell_transmissibility = lambda g = g: half[g]) for g in range(grids)]
    faces = c.array('faces', (count, 2), int, lo = 0, hi = 5)
    which = None
    if grids == 1:
        cells = c.array('cells', (count, 2), int, lo = 0, hi = size[0] - 1)
    else:
        first = c.array('which', (count, 2), int, lo = 0, hi = 1)

        class Which:
            """a choice of grids, each one a plain integer"""

            def __getitem__(self, i):
                return 1 if c.is_true(first[i] == 1) else 0
        which = Which()
        if c.symbolic:
            cells = c.array('cells', (count, 2), int, lo = 0)
            c.assume(c.forall((count, 2), lambda q, s: cells[q, s] < c.ite(first[q, s] == 0, size[0], size[1])))
        else:
            cells = c.array('cells', (count, 2), int, lo = 0, hi = c.min(size[0], size[1]) - 1)
    fa = c.array('fa', (count, 2), lo = 0.0, hi = 1.0) if partial else None
    mult = c.array('mult', (count,), lo = 0.0) if mode == 'connection' else None
    by_feature, feature = None, None
    if mode == 'feature':
        by_feature = c.array('by_feature', (2,), lo = 0.0)
        feature = c.array('feature', (count,), int, lo = 0, hi = 1)
    inverse = c.const_array(FACES)
    if c.symbolic:  # natural order of cells, as proved for C01
        for g in range(grids):
            nk, nj, ni = n[g]
            at = lambda i, x, nj = nj, ni = ni: [i // (nj * ni), (i % (nj * ni)) // ni, (i % (nj * ni)) % ni][x]
            gl[g].denaturalized_cell_indices = lambda a, at = at: c.lazy((count, 2, 3), 'i', lambda q, s, x: c.ite(x == 0, at(a[q, s], 0), c.ite(x == 1, at(a[q, s], 1), at(a[q, s], 2))))
            gl[g].denaturalized_cell_index = lambda i, at = at: tuple(at(i, x) for x in range(3))
    g = c.obj(S, count = count, grid_list = gl, grid_index_pairs = which, cell_index_pairs = cells, face_index_pairs = faces, feature_indices = feature,
              face_index_inverse_map = inverse, number_of_grids = lambda: grids, get_property_by_feature_index_list = lambda *a, **k: by_feature)
    g.extract_property_collection = lambda: c.obj('resqpy.property.PropertyCollection', single_array_ref = lambda **kw: mult)
    tf, th = c.real('tol_fa', 0.0001), c.real('tol_half_t', 0.0001)

    def value(q):
        """expected"""
        h = []
        for s in range(2):
            w = 0 if grids == 1 else which[q, s]
            nk, nj, ni = n[w]
            i = cells[q, s]
            k, ji = i // (nj * ni), i % (nj * ni)
            f = faces[q, s]
            h.append(half[w][k, ji // ni, ji % ni, inverse[f, 0], inverse[f, 1]])
        zero = c.Or(h[0] < th, h[1] < th)
        if fa is not None:
            zero = c.Or(zero, fa[q, 0] < tf, fa[q, 1] < tf)
        f = [1.0, 1.0] if fa is None else [fa[q, 0], fa[q, 1]]
        m = mult[q] if mode == 'connection' else by_feature[feature[q]] if mode == 'feature' else 1.0
        return zero, lambda: m / (1.0 / (h[0] * f[0]) + 1.0 / (h[1] * f[1]))

    zero, want = value(e)
    c.ghost.update(e = e, value = (want, zero))
    r = g.tr_property_array(fa = fa, tol_fa = tf, tol_half_t = th, apply_multipliers = mode != 'off')
    c.check('shape', r.shape == (count,))
    c.check('closed', c.Implies(zero, lambda: c.eq(r[e], 0.0)))
    c.check('open', c.Implies(c.Not(zero), lambda: c.eq(r[e], want(), 1.0e-6)))


@contract('C17', 'connections_of_grids', assumptions = ['half cell transmissibilities are not NaN'], bounded = 'one connection, of two grids')
def connections_of_grids(c):
    """where a connection is between grids, the half cells are those of the grid of each of the two cells"""
    which = c.choice('which', [(0, 1), (1, 0), (1, 1)])
    n = [[c.int(f'n{x}{g}', 1) for x in 'kji'] for g in range(2)]
    half = [c.array(f'half{g}', tuple(n[g]) + (3, 2), lo = 0.0) for g in range(2)]
    at = [[c.int(f'{x}{s}', 0, n[which[s]]['kji'.index(x)] - 1) for x in 'kji'] for s in range(2)]
    inverse = c.const_array(FACES)
    cells = c.const_array([[10, 20]])
    gl = [gridobj.blank(c, n[g], half_cell_transmissibility = lambda g = g: half[g],
                        denaturalized_cell_index = lambda i, g = g: tuple(at[0 if int(i) == 10 else 1]) if which[0 if int(i) == 10 else 1] == g else None)
          for g in range(2)]
    faces = c.array('faces', (1, 2), int, lo = 0, hi = 5)
    face = [faces[0, 0], faces[0, 1]]
    g = c.obj(S, count = 1, grid_list = gl, grid_index_pairs = c.const_array([list(which)]), cell_index_pairs = cells, face_index_pairs = faces,
              feature_indices = None, face_index_inverse_map = inverse, number_of_grids = lambda: 2)
    h = [half[which[s]][at[s][0], at[s][1], at[s][2], inverse[face[s], 0], inverse[face[s], 1]] for s in range(2)]
    zero = c.Or(h[0] < 1.0e-5, h[1] < 1.0e-5)
    r = g.tr_property_array()
    c.check('shape', r.shape == (1,))
    c.check('closed', c.Implies(zero, lambda: c.eq(r[0], 0.0)))
    c.check('open', c.Implies(c.Not(zero), lambda: c.eq(r[0], 1.0 / (1.0 / h[0] + 1.0 / h[1]), 1.0e-6)))
