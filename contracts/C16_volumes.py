"""C16: bulk volume and thickness of grid cells (resqpy.olio.volume, resqpy.grid)"""

from vcpy.harness import contract
from vcpy.registry import invariant
from vcpy import gridobj

V = 'resqpy.olio.volume.'


def det(a, b, c):
    return (a[0] * (b[1] * c[2] - b[2] * c[1]) + a[1] * (b[2] * c[0] - b[0] * c[2]) + a[2] * (b[0] * c[1] - b[1] * c[0]))


def sub(a, b):
    return [a[x] - b[x] for x in range(3)]


def jacobian_integral(cp):
    """integral over the unit cube of the determinant of the derivative of the trilinear map with the given corners; it is a
    polynomial of degree at most two in each of the fractions, which Simpson's rule integrates exactly"""
    nodes = ((0.0, 1.0), (0.5, 4.0), (1.0, 1.0))
    w = lambda p, t: t if p else 1.0 - t
    total = 0.0
    # edges in each direction, at the four corners of the other two
    edge = [[[sub(cp(1, p, q), cp(0, p, q)) for q in range(2)] for p in range(2)],
            [[sub(cp(p, 1, q), cp(p, 0, q)) for q in range(2)] for p in range(2)],
            [[sub(cp(p, q, 1), cp(p, q, 0)) for q in range(2)] for p in range(2)]]
    at = lambda e, s, t: [sum(w(p, s) * w(q, t) * e[p][q][x] for p in range(2) for q in range(2)) for x in range(3)]
    for u, wu in nodes:
        for v, wv in nodes:
            for t, wt in nodes:
                total = total + wu * wv * wt * det(at(edge[2], u, v), at(edge[1], u, t), at(edge[0], v, t))
    return total / 216.0


@contract('C16', 'cell_volume')
def cell_volume(c):
    """the volume of a cell is the integral of the Jacobian of the trilinear map between its corners; it does not depend on
    the centre used; the sign is reversed for the other handedness"""
    cp = c.array('cp', (2, 2, 2, 3))
    hand = c.choice('off_hand', [False, True])
    centre = c.vec('centre') if c.choice('centre', [False, True]) else None
    v = c.fn(V + 'tetra_cell_volume')(cp, centre = centre, off_hand = hand)
    e = jacobian_integral(lambda k, j, i: cp[k, j, i])
    c.check('integral', c.eq(v, -e if hand else e, 1.0e-6))


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


@contract('C16', 'pyramid_volume')
def pyramid_volume(c):
    """the volume of a pyramid with a quadrilateral base is the mean of those from the two ways of splitting its base into
    triangles; positive for a base which is clockwise from the apex in left handed axes; reversed in right handed axes"""
    apex, p = c.vec('apex'), [c.vec(n) for n in 'abcd']
    right = c.choice('right', [False, True])
    kw = {'crs_is_right_handed': right} if right or c.choice('explicit', [False, True]) else {}
    v = c.fn(V + 'pyramid_volume')(apex, *p, **kw)
    r = [sub(q, apex) for q in p]
    both = det(r[0], r[1], r[2]) + det(r[0], r[2], r[3]) + det(r[0], r[1], r[3]) + det(r[1], r[2], r[3])
    e = both / 12.0
    c.check('mean of two', c.eq(v, e if right else -e, 1.0e-6))


@contract('C16', 'tetrahedron_volume')
def tetrahedron_volume(c):
    """the volume of a tetrahedron is a sixth of the size of the determinant of its edges from any corner"""
    p = [c.vec(n) for n in 'abcd']
    v = c.fn(V + 'tetrahedron_volume')(*p)
    c.check('volume', c.eq(v, c.abs(det(sub(p[1], p[0]), sub(p[2], p[0]), sub(p[3], p[0]))) / 6.0, 1.0e-6))


def grid_cp(c):
    n = [c.int('n' + x, 1) for x in 'kji']
    at = [c.int(x, 0, m - 1) for x, m in zip('kji', n)]
    return n, at, c.array('cp', tuple(n) + (2, 2, 2, 3))


@contract('C16', 'cell_volumes')
def cell_volumes(c):
    """the volumes of all the cells of a grid, of any extent, are those of the cells one by one"""
    n, (k, j, i), cp = grid_cp(c)
    hand = c.choice('off_hand', [False, True])
    centres = c.array('centres', tuple(n) + (3,)) if c.choice('centres', [False, True]) else None
    v = c.fn(V + 'tetra_volumes')(cp, centres = centres, off_hand = hand)
    c.check('shape', v.shape == tuple(n))
    e = jacobian_integral(lambda p, q, r: cp[k, j, i, p, q, r])
    c.check('integral', c.eq(v[k, j, i], -e if hand else e, 1.0e-6))


@contract('C16', 'cell_volumes_by_loop')
def cell_volumes_by_loop(c):
    """the form which loops over cells gives each cell the volume of the function for one cell, with its centre"""
    n = [c.int('n' + x, 1) for x in 'kji']
    cp = c.array('cp', tuple(n) + (2, 2, 2, 3))
    hand = c.choice('off_hand', [False, True])
    centres = c.array('centres', tuple(n) + (3,)) if c.choice('centres', [False, True]) else None
    at = c.int('at', 0, n[0] * n[1] * n[2] - 1)
    k, j, i = at // n[2] // n[1], (at // n[2]) % n[1], at % n[2]
    if c.symbolic:
        f = c.function('volume', 'f' * 28, 'f')
        mid = lambda a: [sum(a(p, q, r)[x] for p in range(2) for q in range(2) for r in range(2)) / 8.0 for x in range(3)]

        def one(cp, centre = None, off_hand = False):
            if centre is None:
                centre = mid(lambda p, q, r: cp[p, q, r])
            return f(*[cp[p, q, r, x] for p in range(2) for q in range(2) for r in range(2) for x in range(3)],
                     *[centre[x] for x in range(3)], c.ite(off_hand, 1.0, 0.0))
        c.stub(V[:-1], 'tetra_cell_volume', one)
    e = lambda: c.fn(V + 'tetra_cell_volume')(cp[k, j, i], centre = None if centres is None else centres[k, j, i], off_hand = hand)
    c.ghost['at'] = at, e
    v = c.fn(V + 'tetra_volumes_slow')(cp, centres = centres, off_hand = hand)
    c.check('shape', v.shape == tuple(n))
    c.check('same', c.eq(v[k, j, i], e(), 1.0e-6))


@invariant(V[:-1], 'tetra_volumes_slow', names = ('volumes', 'off_hand'), target = 'cell')
def volumes_so_far(c, L):
    at, e = c.ghost['at']
    return [('so far', c.Implies(at < L._i, lambda: L.volumes[at] == e()))]


W = 'resqpy.weights_and_measures.'


def units(c, wanted = ('ft', 'km', 'bbl')):
    """sizes of the units; conversion by its contract (C04) for units of any size"""
    if not c.symbolic:
        return {'m': 1.0, 'ft': 0.3048, 'km': 1000.0, 'm3': 1.0, 'ft3': 0.3048**3, 'bbl': 0.158987294928}
    u = {'m': 1.0, 'm3': 1.0}
    for n in wanted:
        u[n] = c.real('unit_' + n)
        c.assume(u[n] > 0.0)
    if 'ft' in u:
        u['ft3'] = u['ft'] * u['ft'] * u['ft']

    def convert(a, from_units, to_units, inplace = False):
        if hasattr(a, 'shape') and len(a.shape):
            r = a if inplace else a.copy()
            if from_units != to_units:
                r[:] = r * u[from_units] / u[to_units]
            return r
        return a if from_units == to_units else a * u[from_units] / u[to_units]

    c.stub(W[:-1], 'convert', lambda x, unit_from, unit_to, quantity = None, inplace = False: convert(x, unit_from, unit_to, inplace))
    for n in ('lengths', 'volumes'):
        c.stub(W[:-1], 'convert_' + n, lambda a, from_units, to_units: convert(a, from_units, to_units, True))
    return u


def cell_grid(c, crs = None, **kw):
    """grid of any extent with its corner points cached"""
    n, at, cp = grid_cp(c)
    return gridobj.blank(c, n, array_corner_points = cp, crs = crs or gridobj.crs(c), **kw), n, at, cp


@contract('C16', 'grid_volume')
def grid_volume(c):
    """the volume of a cell, or of all the cells, of a grid is positive for a right way round cell whatever the handedness of
    the grid and its axes; it is in the required units"""
    xy, z, uom, unit = c.choice('units', [('m', 'm', None, 'm3'), ('ft', 'ft', None, 'ft3'), ('m', 'ft', None, 'ft3'), ('ft', 'm', None, 'm3'),
                                          ('m', 'm', 'bbl', 'bbl'), ('ft', 'ft', 'ft3', 'ft3'), ('m', 'ft', 'm3', 'm3'), ('km', 'km', 'm3', 'm3')])
    UNIT = units(c, [x for x in ('ft', 'km', 'bbl') if x in (xy, z, uom) or unit == x + '3'])
    down, right = (c.choice('down', [True, False]), c.choice('right', [True, False])) if xy == z == 'm' else (True, True)
    g, n, at, cp = cell_grid(c, gridobj.crs(c, xy, z, down), grid_is_right_handed = right)
    e = jacobian_integral(lambda p, q, r: cp[at[0], at[1], at[2], p, q, r])
    e = (-e if down == right else e) * (UNIT[xy] * UNIT[xy] * UNIT[z])
    way = c.choice('way', ['all', 'one', 'one cached', 'one kept'])
    kw = {'required_uom': uom} if uom or c.choice('explicit', [False, True]) else {}
    if way == 'one':
        v = g.volume(cell_kji0 = tuple(at), points_root = 'x', cache_volume_array = False, **kw)
    elif way == 'one kept':
        v = g.volume(cell_kji0 = tuple(at), points_root = 'x', cache_centre_array = True, **kw)
    elif way == 'one cached':
        g.volume(points_root = 'x', **kw)
        v = g.volume(cell_kji0 = tuple(at), **kw)
    else:
        v = g.volume(points_root = 'x', **kw)
        c.check('shape', v.shape == tuple(n))
        v = v[at[0], at[1], at[2]]
    c.check('volume', c.eq(v * UNIT[unit], e, 1.0e-6))


@contract('C16', 'volume_units')
def volume_units(c):
    """cached volumes are converted when asked for in other units, and the array last returned keeps being consistent"""
    UNIT = units(c, ('ft', 'bbl'))
    n, at, cp = grid_cp(c)
    k, j, i = at
    a = c.array('a', tuple(n))
    first, then = c.choice('uom', [('m3', 'ft3'), ('ft3', 'bbl'), ('bbl', 'bbl')])
    g = gridobj.blank(c, n, array_volume = a, array_volume_uom = first, crs = gridobj.crs(c))
    x = a[k, j, i]
    x = x + 0.0
    v = g.volume(required_uom = then)
    c.check('converted', c.eq(v[k, j, i] * UNIT[then], x * UNIT[first], 1.0e-6))
    w = g.volume(cell_kji0 = (k, j, i), required_uom = first)
    c.check('and back', c.eq(w, x, 1.0e-6))


@contract('C16', 'volume_from_property')
def volume_from_property(c):
    """volumes may be taken from a property, which is itself left alone; they are converted to the units required"""
    UNIT = units(c, ('ft', 'bbl'))
    n, at, cp = grid_cp(c)
    k, j, i = at
    a = c.array('a', tuple(n))
    x = a[k, j, i] + 0.0
    uom = c.choice('uom', ['m3', 'ft3'])
    net = c.choice('facet', ['gross', 'none', 'net'])

    class Collection:

        def selective_parts_list(self, property_kind = None, facet_type = None, facet = None, **kw):
            assert property_kind == 'rock volume'
            return [] if net != 'gross' and facet_type else ['p']

        def cached_part_array_ref(self, part, *args, **kw):
            return a

        def uom_for_part(self, part):
            return uom

        def facet_for_part(self, part):
            return None if net == 'none' else net
    g = gridobj.blank(c, n, crs = gridobj.crs(c), array_corner_points = cp)
    pc = Collection()
    cache = c.choice('cache', [True, False])
    one = c.choice('one', [True, False])
    if net == 'net':
        c.assume(one, not cache)
    kw = {} if one is None else {'cell_kji0': (k, j, i)} if one else {}
    ask = c.choice('ask', ['m3', 'ft3', 'bbl'])
    v = g.volume(property_collection = pc, points_root = 'x', cache_volume_array = cache, required_uom = ask, **kw)
    v = v if one else v[k, j, i]
    if net == 'net':
        e = -jacobian_integral(lambda p, q, r: cp[k, j, i, p, q, r])
    else:
        e = x * UNIT[uom]
    c.check('value', c.eq(v * UNIT[ask], e, 1.0e-6))
    again = c.choice('again', ['m3', 'bbl'])
    if cache:
        v = g.volume(required_uom = again)[k, j, i]
        c.check('value again', c.eq(v * UNIT[again], e, 1.0e-6))
    c.check('property unchanged', c.eq(a[k, j, i], x))


def z_thickness(c, cp, k, j, i):
    z = lambda p: sum(cp[k, j, i, p, q, r, 2] for q in range(2) for r in range(2)) / 4.0
    return c.abs(z(1) - z(0))


@contract('C16', 'thickness')
def thickness(c):
    """the thickness of a cell is the difference in depth of the centres of its top and base faces, whether for one cell or all,
    cached or not"""
    g, n, at, cp = cell_grid(c)
    e = z_thickness(c, cp, *at)
    way = c.choice('way', ['all', 'one', 'one cached', 'one kept'])
    if way == 'one':
        v = g.thickness(cell_kji0 = tuple(at), points_root = 'x', cache_thickness_array = False)
        c.check('not cached', not hasattr(g, 'array_thickness'))
    elif way == 'one kept':
        v = g.thickness(cell_kji0 = tuple(at), points_root = 'x')
    else:
        v = g.thickness(points_root = 'x')
        c.check('shape', v.shape == tuple(n))
        v = v[at[0], at[1], at[2]] if way == 'all' else g.thickness(cell_kji0 = tuple(at))
    c.check('thickness', c.eq(v, e))


@contract('C16', 'thickness_from_property')
def thickness_from_property(c):
    """thickness may be taken from a property, which is copied if kept"""
    n, at, cp = grid_cp(c)
    k, j, i = at
    a = c.array('a', tuple(n))
    found = c.choice('found', ['gross', 'cell length', 'plain', 'faceted', 'none'])

    class Collection:

        def selective_parts_list(self, property_kind = None, facet_type = None, facet = None, **kw):
            if property_kind == 'cell length':
                return ['p'] if found == 'cell length' and facet == 'K' else []
            return ['p'] if found == 'gross' or (facet is None and found in ('plain', 'faceted')) else []

        def cached_part_array_ref(self, part, *args, **kw):
            return a

        def facet_for_part(self, part):
            return None if found == 'plain' else 'net'
    g = gridobj.blank(c, n, crs = gridobj.crs(c), array_corner_points = cp)
    cache = c.choice('cache', [True, False])
    one = not cache or c.choice('one', [True, False])
    kw = {'cell_kji0': (k, j, i)} if one else {}
    v = g.thickness(property_collection = Collection(), points_root = 'x', cache_thickness_array = cache, **kw)
    v = v if one else v[k, j, i]
    c.check('value', c.eq(v, z_thickness(c, cp, k, j, i) if found in ('none', 'faceted') else a[k, j, i]))
    if cache:
        c.check('kept', g.array_thickness is not a)
        c.check('value again', c.eq(g.thickness(cell_kji0 = (k, j, i)), v))


@contract('C16', 'pinched_out')
def pinched_out(c):
    """a cell is pinched out if its thickness is not greater than the tolerance, or is undefined"""
    n = [c.int('n' + x, 1) for x in 'kji']
    k, j, i = [c.int(x, 0, m - 1) for x, m in zip('kji', n)]
    t = c.array('t', tuple(n), lo = 0.0, nan = True)
    kw = {}
    tol = 0.001
    if c.choice('given', [True, False]):
        tol = c.real('tol', 0.0)
        kw['tolerance'] = tol
    g = gridobj.blank(c, n, array_thickness = t)
    x = t[k, j, i]
    thin = c.Or(c.isnan(x), c.Not(x > tol))
    way = c.choice('way', ['all', 'one', 'one kept', 'one after'])
    if way == 'one':
        r = g.pinched_out(cell_kji0 = (k, j, i), points_root = 'x', **kw)
        c.check('not kept', g.pinchout is None)
    elif way == 'one kept':
        r = g.pinched_out(cell_kji0 = (k, j, i), points_root = 'x', cache_pinchout_array = True, **kw)
    else:
        r = g.pinched_out(points_root = 'x', **kw)
        c.check('shape', r.shape == tuple(n))
        r = r[k, j, i] if way == 'all' else g.pinched_out(cell_kji0 = (k, j, i))
    c.check('pinched out', c.Iff(r, thin))


@contract('C16', 'inactive')
def inactive(c):
    """cells are inactive as the mask says; or, without one, if the pore volume is not more than the tolerance or is undefined;
    or else if they are pinched out"""
    n = [c.int('n' + x, 1) for x in 'kji']
    k, j, i = [c.int(x, 0, m - 1) for x, m in zip('kji', n)]
    way = c.choice('way', ['mask', 'pore volume', 'thickness'])
    t = c.array('t', tuple(n), lo = 0.0)
    pv = c.array('pv', tuple(n), nan = True)
    m = c.array('m', tuple(n), bool)
    g = gridobj.blank(c, n, array_thickness = t, inactive = m if way == 'mask' else None, extract_inactive_mask = lambda: None,
                      resolve_geometry_child = lambda *args, **kw: 'x')
    kw = {}
    tol = 0.01
    if c.choice('given', [True, False]):
        tol = c.real('tol', 0.0)
        kw['pv_tol'] = tol
    r = g.cell_inactive((k, j, i), pv_array = pv if way == 'pore volume' else None, **kw)
    if way == 'mask':
        e = m[k, j, i]
    elif way == 'pore volume':
        e = c.Or(c.isnan(pv[k, j, i]), c.Not(pv[k, j, i] > tol))
    else:
        e = c.Not(t[k, j, i] > 0.001)
    c.check('inactive', c.Iff(r, e))


def face_mid(cp, at, axis, side):
    idx = lambda p, q: at + ((side, p, q) if axis == 0 else (p, side, q) if axis == 1 else (p, q, side))
    return [sum(cp[idx(p, q) + (x,)] for p in range(2) for q in range(2)) / 4.0 for x in range(3)]


@contract('C16', 'interfaces')
def interfaces(c):
    """the length of a cell along an axis is that between the centres of opposite faces, in the units of x and y or as required"""
    xy, z, uom = c.choice('units', [('m', 'm', None), ('m', 'ft', None), ('ft', 'm', None), ('m', 'ft', 'ft'), ('ft', 'ft', 'm')])
    UNIT = units(c, ('ft',))
    g, n, at, cp = cell_grid(c, gridobj.crs(c, xy, z))
    at = tuple(at)
    ax = c.choice('axis', [0, 1, 2])
    kw = {'required_uom': uom} if uom else {}
    e = sub(face_mid(cp, at, ax, 1), face_mid(cp, at, ax, 0))
    c.check('vector', c.eq(g.interface_vector(at, ax), c.np.array(e)))
    c.check('vectors', c.eq(g.interface_vectors_kji(at)[ax], c.np.array(e)))
    e[2] = e[2] * UNIT[z] / UNIT[xy]
    f = UNIT[xy] / UNIT[uom or xy]
    ll = dot(e, e) * f * f
    c.apart(ll)
    for v in (g.interface_length(at, ax, **kw), g.interface_lengths_kji(at, **kw)[ax]):
        c.check('not negative', v >= 0.0)
        c.check('length', c.eq(v * v, ll, 1.0e-6))


U = 'resqpy.unstructured.'
# rings of corners (kp, jp, ip) around the faces of a hexahedron, all in the same sense seen from within
RINGS = [[(0, 0, 0), (0, 1, 0), (0, 1, 1), (0, 0, 1)], [(1, 0, 0), (1, 0, 1), (1, 1, 1), (1, 1, 0)],
         [(0, 0, 0), (0, 0, 1), (1, 0, 1), (1, 0, 0)], [(0, 1, 0), (1, 1, 0), (1, 1, 1), (0, 1, 1)],
         [(0, 0, 0), (1, 0, 0), (1, 1, 0), (0, 1, 0)], [(0, 0, 1), (0, 1, 1), (1, 1, 1), (1, 0, 1)]]


def unstructured(c, cls, faces, hands, rings, pts, right, xy = 'm', z = 'm'):
    """unstructured grid in which one cell has the given faces, each with a ring of nodes"""
    cr = gridobj.crs(c, xy, z)
    c.replace('resqpy.crs', 'Crs', lambda model, uuid = None, **kw: cr)
    if c.symbolic:
        kw = dict(face_indices_for_cell = lambda cell: c.np.array(faces), node_indices_for_face = lambda f: c.np.array(rings(f)),
                  face_indices_and_handedness_for_cell = lambda cell: (c.np.array(faces), c.np.array(hands)),
                  cache_all_geometry_arrays = lambda: None)
    else:
        n = max(faces) + 1
        order = [rings(f) if f in faces else [0, 1, 2] for f in range(n)]
        kw = dict(faces_per_cell = c.np.array(faces), faces_per_cell_cl = c.np.array([len(faces)]), nodes_per_face = c.np.array(sum(order, [])),
                  nodes_per_face_cl = c.np.cumsum([len(r) for r in order]), cell_face_is_right_handed = c.np.array(hands),
                  cache_all_geometry_arrays = lambda: None)
    return c.obj(U + cls, model = None, crs_uuid = 'x', points_cached = pts, crs_is_right_handed = right, title = None, extra_metadata = {}, **kw)


def turned(ring, by, back):
    r = ring[by:] + ring[:by]
    return r[::-1] if back else r


@contract('C16', 'hexahedron')
def hexahedron(c):
    """the volume of a hexahedral cell of an unstructured grid is that of the same cell of a regular grid, whichever way round
    each face is listed, as long as its handedness is noted"""
    n = c.int('n', 8)
    pts = c.array('pts', (n, 3))
    nodes = list(range(8)) if not c.symbolic else [c.int(f'n{i}', 0, n - 1) for i in range(8)]
    node = {q: nodes[4 * q[0] + 2 * q[1] + q[2]] for r in RINGS for q in r}
    back = c.choice('back', [(0, 0, 0, 0, 0, 0), (1, 1, 1, 1, 1, 1), (0, 1, 1, 0, 0, 1)])
    by = c.choice('by', [(0, 0, 0, 0, 0, 0), (1, 2, 3, 0, 1, 2)])
    right = c.choice('right', [False, True])
    faces = [3, 0, 5, 1, 4, 2]
    g = unstructured(c, 'HexaGrid', faces, [bool(back[f]) for f in faces],
                     lambda f: [node[q] for q in turned(RINGS[int(f)], by[int(f)], back[int(f)])], pts, right)
    v = g.volume(0)
    e = jacobian_integral(lambda p, q, r: pts[node[p, q, r]])
    c.check('integral', c.eq(v, -e if right else e, 1.0e-6))


@contract('C16', 'pyramid_cell')
def pyramid_cell(c):
    """the volume of a pyramidal cell is that of the pyramid on its base, in the right units"""
    UNIT = units(c, ('ft',))
    xy, z, uom, unit = c.choice('units', [('m', 'm', None, 'm3'), ('ft', 'ft', None, 'ft3'), ('m', 'ft', None, 'm3'), ('ft', 'm', 'ft3', 'ft3'),
                                          ('m', 'm', 'ft3', 'ft3')])
    pts = c.array('pts', (5, 3))
    base = c.choice('base', [[0, 1, 2, 3], [3, 1, 4, 0], [4, 2, 3, 1]])
    apex = [k for k in range(5) if k not in base][0]
    right = c.choice('right', [False, True])
    hand = c.choice('hand', [False, True])
    rings = [base] + [[base[k], base[(k + 1) % 4], apex] for k in range(4)]
    g = unstructured(c, 'PyramidGrid', [0, 1, 2, 3, 4], [hand] * 5, lambda f: rings[int(f)], pts, right, xy, z)
    v = g.volume(0, required_uom = uom) if uom else g.volume(0)
    e = c.fn(V + 'pyramid_volume')(pts[apex], *[pts[b] for b in base], crs_is_right_handed = (right == hand))
    c.check('volume', c.eq(v * UNIT[unit], e * UNIT[xy] * UNIT[xy] * UNIT[z], 1.0e-6))


@contract('C16', 'tetrahedral_cell')
def tetrahedral_cell(c):
    """the volume of a tetrahedral cell does not depend on the order of its nodes; that of a grid is the sum over its cells"""
    UNIT = units(c, ('ft',))
    xy, z, uom, unit = c.choice('units', [('m', 'm', None, 'm3'), ('ft', 'ft', None, 'ft3'), ('m', 'ft', None, 'm3'), ('ft', 'm', 'ft3', 'ft3'),
                                          ('m', 'm', 'ft3', 'ft3')])
    pts = c.array('pts', (4, 3))
    p = c.choice('order', [[0, 1, 2, 3], [3, 1, 0, 2]])
    rings = [[p[0], p[1], p[2]], [p[1], p[3], p[2]], [p[0], p[3], p[1]], [p[2], p[3], p[0]]]
    g = unstructured(c, 'TetraGrid', [0, 1, 2, 3], [True] * 4, lambda f: rings[int(f)], pts, False, xy, z)
    v = g.volume(0, required_uom = uom) if uom else g.volume(0)
    e = c.fn(V + 'tetrahedron_volume')(pts[0], pts[1], pts[2], pts[3])
    c.check('volume', c.eq(v * UNIT[unit], e * UNIT[xy] * UNIT[xy] * UNIT[z], 1.0e-6))


@contract('C16', 'grid_of_tetrahedra')
def grid_of_tetrahedra(c):
    """the volume of a grid of tetrahedra is the sum of those of its cells"""
    n = c.int('n', 1)
    v = c.array('v', (n,))
    g = c.obj(U + 'TetraGrid', model = None, cell_count = n, volume = lambda cell: v[cell], title = None, extra_metadata = {})
    c.check('sum', c.eq(g.grid_volume(), c.sum(n, lambda k: v[k])))


@invariant(U + '_tetra_grid', 'TetraGrid.grid_volume', names = ('v',))
def sum_so_far(c, L):
    return [('sum so far', c.eq(L.v, c.sum(L._i, lambda k: L.self.volume(k))))]
