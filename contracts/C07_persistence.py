"""C07: what is written to a model is what is read back"""

from vcpy.harness import contract
from vcpy.registry import invariant

ORDERS = ["easting northing", "northing easting", "westing southing", "southing westing", "northing westing", "westing northing"]


def near(c, a, b, tol):
    return c.And(a - b <= tol, b - a <= tol)


def same_citation(c, a, b):
    c.check('title', a.title == b.title)
    c.check('originator', a.originator is None or a.originator == b.originator)
    c.check('extra metadata', a.extra_metadata == b.extra_metadata)
    c.check('uuid', str(a.uuid) == str(b.uuid))


def read(c, model, cls, o, reopen = True, **kw):
    """(object as read from the same model, object as read from the model stored and loaded)"""
    again = c.fn(cls)(model, uuid = o.uuid, **kw)
    m = c.reopened(model)
    c.check('listed once', len([u for u in m.uuids() if u == o.uuid]) == 1)
    return again, c.fn(cls)(m, uuid = o.uuid, **kw)


@contract('C07', 'crs')
def crs(c):
    """a coordinate reference system read back has the same axes, units and, to the decimals written, offsets and rotation"""
    model = c.new_model()
    x, y, z, r = c.real('x'), c.real('y'), c.real('z'), c.real('r')
    order = c.choice('order', ORDERS)
    down = c.choice('down', [True, False])
    tu = c.choice('tu', [None, 'ms'])
    ru = c.choice('ru', ['dega', 'rad'])
    epsg, title, em = [(None, 'plain', None), ('27700', 'a & b <c> "d"', {'k': 'v & w', 'n': 5})][c.choice('rest', [0, 1])]
    o = c.fn('resqpy.crs.Crs')(model, x_offset = x, y_offset = y, z_offset = z, rotation = r, rotation_units = ru, xy_units = 'ft',
                               z_units = 'm', z_inc_down = down, axis_order = order, time_units = tu, epsg_code = epsg,
                               title = title, extra_metadata = em, originator = 'someone')
    o.create_xml()
    for p in read(c, model, 'resqpy.crs.Crs', o):
        same_citation(c, o, p)
        c.check('offsets', near(c, p.x_offset, x, 0.0005001), near(c, p.y_offset, y, 0.0005001), near(c, p.z_offset, z, 0.0000501))
        c.check('rotation', near(c, p.rotation, r, 0.0000005001), p.rotation_units == ru)
        c.check('axes', p.axis_order == order, p.z_inc_down is down)
        c.check('units', p.xy_units == 'ft', p.z_units == 'm', p.time_units == tu)
        c.check('epsg', p.epsg_code == epsg)
        c.check('type', p.resqml_type == o.resqml_type)


EM = {'k': 'v & w', 'n': 5}


def a_crs(c, model, **kw):
    o = c.fn('resqpy.crs.Crs')(model, title = 'a crs', originator = 'someone', **kw)
    o.create_xml()
    return o


def same_rows(c, label, a, b, at):
    """a and b have the same shape, and the same values at a given row"""
    c.check(label + ': shape', a.shape == b.shape)
    c.check(label + ': values', *[c.eq(a[at, j], b[at, j]) for j in range(b.shape[1])])


def rows(c, name, shape, lo = 1, **kw):
    """an array of any number of rows, and any one of its row indices"""
    n = c.int('n' + name, lo)
    return c.array(name, (n,) + shape, **kw), c.int('at' + name, 0, n - 1)


@contract('C07', 'point_set')
def point_set(c):
    """a point set read back has the same patches, in the same order, any number of points in each"""
    model = c.new_model()
    crs = a_crs(c, model)
    k = c.choice('patches', [1, 2, 3])
    pa = [rows(c, f'p{i}', (3,)) for i in range(k)]
    ps = [p for p, _ in pa]
    o = c.fn('resqpy.surface.PointSet')(model, points_array = ps[0], crs_uuid = crs.uuid, title = 'a <set>', originator = 'someone',
                                        extra_metadata = EM)
    for p in ps[1:]:
        o.add_patch(p)
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, 'resqpy.surface.PointSet', o):
        same_citation(c, o, r)
        c.check('crs', str(r.crs_uuid) == str(crs.uuid))
        c.check('patches', r.patch_count == k)
        for i, (p, q) in enumerate(pa):
            same_rows(c, f'patch {i}', r.single_patch_array_ref(i), p, q)
        full = r.full_array_ref()
        at = 0
        for i, (p, q) in enumerate(pa):
            same_rows(c, f'full {i}', full[at:at + p.shape[0]], p, q)
            at = at + p.shape[0]
        c.check('full: length', full.shape[0] == at)


@contract('C07', 'polyline')
def polyline(c):
    """a polyline read back has the same points and is closed if it was"""
    model = c.new_model()
    crs = a_crs(c, model)
    a_crs(c, model, z_inc_down = False)
    p, q = rows(c, 'p', (3,), lo = 2)
    n = p.shape[0]
    closed = c.choice('closed', [False, True])
    o = c.fn('resqpy.lines.Polyline')(model, set_coord = p, set_crs = crs.uuid, is_closed = closed, title = 'a line', originator = 'someone',
                                      extra_metadata = EM)
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, 'resqpy.lines.Polyline', o):
        same_citation(c, o, r)
        c.check('crs', str(r.crs_uuid) == str(crs.uuid))
        c.check('closed', r.isclosed is closed)
        c.check('count', r.nodepatch[1] == n)
        same_rows(c, 'points', r.coordinates, p, q)


@contract('C07', 'polyline_set')
def polyline_set(c):
    """a set of polylines read back has the same polylines, in the same order, each closed if it was"""
    model = c.new_model()
    crs = a_crs(c, model)
    flags = c.choice('closed', [(False,), (True,), (True, True), (False, True), (True, False, True), (False, True, False), (False, False, False)])
    pa = [rows(c, f'p{i}', (3,), lo = 3) for i in range(len(flags))]
    ps = [p for p, _ in pa]
    for p in ps:
        n = p.shape[0]
        c.assume(c.Or(p[0, 0] - p[n - 1, 0] > 0.1 + c.abs(p[n - 1, 0]), p[n - 1, 0] - p[0, 0] > 0.1 + c.abs(p[n - 1, 0])))
    lines = [c.fn('resqpy.lines.Polyline')(model, set_coord = p, set_crs = crs.uuid, is_closed = f, title = f'line {i}', originator = 'someone')
             for i, (p, f) in enumerate(zip(ps, flags))]
    o = c.fn('resqpy.lines.PolylineSet')(model, polylines = lines, title = 'a set', originator = 'someone', extra_metadata = EM)
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, 'resqpy.lines.PolylineSet', o):
        same_citation(c, o, r)
        c.check('crs', str(r.crs_uuid) == str(crs.uuid))
        c.check('number', len(r.polys) == len(ps))
        for i, ((p, q), f) in enumerate(zip(pa, flags)):
            c.check(f'closed {i}', r.polys[i].isclosed == f)
            same_rows(c, f'points {i}', r.polys[i].coordinates, p, q)


def same_grid(c, label, a, b, at, tol = None):
    """a and b have the same shape, and the same values at given leading indices"""
    c.check(label + ': shape', a.shape == b.shape)
    k = b.ndim - len(at)
    tails = [()] if k == 0 else [(j,) for j in range(b.shape[-1])]
    c.check(label + ': values', *[c.eq(a[at + t], b[at + t]) for t in tails])


@contract('C07', 'surface')
def surface(c):
    """a triangulated surface read back has the same triangles, points and role, any number of either in any patch"""
    model = c.new_model()
    crs = a_crs(c, model)
    k = c.choice('patches', [1, 2, 3])
    role = c.choice('role', ['map', 'pick'])
    ts, ps = [], []
    for i in range(k):
        p, a = rows(c, f'p{i}', (3,))
        ps.append((p, a))
        ts.append(rows_of(c, f't{i}', p.shape[0]))
    o = c.fn('resqpy.surface.Surface')(model, surface_role = role, crs_uuid = crs.uuid, title = 'a <surface>', originator = 'someone',
                                       extra_metadata = EM)
    if k == 1:
        o.set_from_triangles_and_points(ts[0][0], ps[0][0])
    else:
        o.set_multi_patch_from_triangles_and_points([(t[0], p[0]) for t, p in zip(ts, ps)])
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, 'resqpy.surface.Surface', o):
        same_citation(c, o, r)
        c.check('crs', str(r.crs_uuid) == str(crs.uuid))
        c.check('role', r.surface_role == role)
        c.check('patches', r.number_of_patches() == k)
        c.check('counts', r.triangle_count() == sum(t.shape[0] for t, _ in ts), r.node_count() == sum(p.shape[0] for p, _ in ps))
        ft, fp = r.triangles_and_points()
        it = ip = 0
        for i in range(k):
            (p, a), (t, b) = ps[i], ts[i]
            rt, rp = r.triangles_and_points(patch = i)
            same_rows(c, f'points {i}', rp, p, a)
            same_rows(c, f'triangles {i}', rt, t, b)
            same_rows(c, f'all points {i}', fp[ip:ip + p.shape[0]], p, a)
            c.check(f'all triangles {i}', *[ft[it + b, j] == t[b, j] + ip for j in range(3)])
            it, ip = it + t.shape[0], ip + p.shape[0]
        c.check('all: lengths', ft.shape[0] == it, fp.shape[0] == ip)


def rows_of(c, name, n):
    """any number of triangles of n points"""
    m = c.int('n' + name, 1)
    return c.array(name, (m, 3), int, lo = 0, hi = n - 1), c.int('at' + name, 0, m - 1)


@contract('C07', 'mesh')
def mesh(c):
    """a mesh of any flavour, of any extent, read back has the same points"""
    model = c.new_model()
    crs = a_crs(c, model)
    flavour = c.choice('flavour', ['explicit', 'regular', 'reg&z', 'ref&z'])
    role = c.choice('role', ['map', 'pick'])
    nj, ni = c.int('nj', 2), c.int('ni', 2)
    j, i = c.int('j', 0, nj - 1), c.int('i', 0, ni - 1)
    Mesh = c.fn('resqpy.surface.Mesh')
    kw = dict(crs_uuid = crs.uuid, title = 'a mesh', originator = 'someone', extra_metadata = EM, surface_role = role)
    if flavour == 'explicit':
        xyz = c.array('xyz', (nj, ni, 3))
        o = Mesh(model, xyz_values = xyz, **kw)
        want = [xyz[j, i, x] for x in range(3)]
    else:
        origin, d = [c.real(f'o{x}') for x in range(3)], c.array('d', (2, 3))
        for a in range(2):
            c.assume(d[a, 0] * d[a, 0] + d[a, 1] * d[a, 1] + d[a, 2] * d[a, 2] > 0.01)
        want = [origin[x] + i * d[0, x] + j * d[1, x] for x in range(3)]
        reg = dict(nj = nj, ni = ni, origin = tuple(origin), dxyz_dij = d)
        if flavour != 'regular':
            z = c.array('z', (nj, ni))
            want[2] = z[j, i]
        if flavour == 'regular':
            o = Mesh(model, **reg, **kw)
        elif flavour == 'reg&z':
            o = Mesh(model, z_values = z, **reg, **kw)
        else:
            s = Mesh(model, **reg, crs_uuid = crs.uuid, title = 'support', originator = 'someone')
            s.create_xml()
            o = Mesh(model, nj = nj, ni = ni, z_values = z, z_supporting_mesh_uuid = s.uuid, **kw)
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, 'resqpy.surface.Mesh', o):
        same_citation(c, o, r)
        c.check('crs', str(r.crs_uuid) == str(crs.uuid))
        c.check('role and flavour', r.surface_role == role, r.flavour == flavour)
        c.check('extent', r.nj == nj, r.ni == ni)
        p = r.full_array_ref()
        c.check('shape', p.shape == (nj, ni, 3))
        c.check('points', *[c.eq(p[j, i, x], want[x], 1.0e-6) for x in range(3)])


@contract('C07', 'tri_mesh')
def tri_mesh(c):
    """a triangular mesh read back has the same points, triangle side and origin"""
    model = c.new_model()
    crs = a_crs(c, model)
    nj, ni = c.int('nj', 2), c.int('ni', 2)
    j, i = c.int('j', 0, nj - 1), c.int('i', 0, ni - 1)
    z, side = c.array('z', (nj, ni)), c.real('side', 0.01)
    ox, oy, oz = c.real('ox', 1.0), c.real('oy', 1.0), c.real('oz')
    uom = c.choice('uom', [None, 'ms'])
    TriMesh = c.fn('resqpy.surface.TriMesh')
    o = TriMesh(model, t_side = side, nj = nj, ni = ni, origin = (ox, oy, oz), z_values = z, z_uom = uom, crs_uuid = crs.uuid,
                title = 'a mesh', originator = 'someone', extra_metadata = EM)
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, 'resqpy.surface.TriMesh', o):
        same_citation(c, o, r)
        c.check('side and unit', c.eq(r.t_side, side), r.z_uom == uom)
        c.check('extent', r.nj == nj, r.ni == ni)
        c.check('origin', c.eq(r.origin[0], ox), c.eq(r.origin[1], oy), c.eq(r.origin[2], o.origin[2]))
        p = r.full_array_ref()
        half = c.ite(j % 2 == 1, 0.5, 0.0)
        c.check('points', c.eq(p[j, i, 0], ox + (i + half) * side), c.eq(p[j, i, 1], oy + j * c.sqrt(3.0) / 2.0 * side, 1.0e-6),
                c.eq(p[j, i, 2], oz + z[j, i]))


def a_regular_grid(c, model, crs, extent, title = 'a grid', **kw):
    g = c.fn('resqpy.grid.RegularGrid')(model, extent_kji = extent, origin = (0.0, 0.0, 0.0), dxyz = (1.0, 1.0, 1.0), crs_uuid = crs.uuid,
                                        title = title, originator = 'someone', **kw)
    g.create_xml(write_active = False, write_geometry = False)
    return g
