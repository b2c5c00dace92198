"""C08: grids which are written to a model are what is read back"""

from vcpy.harness import contract
from vcpy.registry import invariant
from C07_persistence import same_citation, a_crs, same_grid, EM
import C09_regular  # for its invariants

G = 'resqpy.grid.'

GRIDS = {
    'plain': {},
    'split': dict(split = True),
    'gaps': dict(gaps = True),
    'split and gaps': dict(split = True, gaps = True),
    'undefined cells': dict(cells = True),
    'undefined cells and pillars': dict(cells = True, pillars = True),
    'time': dict(time = True),
    'strata': dict(strata = True),
}


def again(c, model, cls, o, **kw):
    a = c.fn(cls)(model, uuid = o.uuid, **kw)
    m = c.reopened(model)
    c.check('listed once', len([u for u in m.uuids() if u == o.uuid]) == 1)
    return a, c.fn(cls)(m, uuid = o.uuid, **kw)


def gaps_before(c, gap, k):
    """number of gaps above a layer"""
    return c.sum(k, lambda q: c.ite(gap[q], 1, 0))


@invariant('resqpy.grid._grid', 'Grid._set_k_raw_index_array', names = ('self',), target = 'k')
def raw_indices(c, L):
    g, k = L.self, c.ghost['layer']
    n = g.nk
    return [('gaps so far', L.gap_count == gaps_before(c, g.k_gap_after_array, c.ite(L._i < n, L._i, n - 1))),
            ('raw index', c.Implies(k < L._i, lambda: g.k_raw_index_array[k] == k + gaps_before(c, g.k_gap_after_array, k)))]


@contract('C08', 'ijk_grid')
def ijk_grid(c):
    """a grid read back has the same extent, points, split pillars, gaps, directions, undefined cells and pillars, times and strata"""
    model = c.new_model()
    a_crs(c, model, z_inc_down = False)
    crs = a_crs(c, model)
    name = c.choice('variant', sorted(GRIDS))
    v = GRIDS[name]
    nk, nj, ni = c.int('nk', 2 if v.get('gaps') else 1), c.int('nj', 1), c.int('ni', 1)
    k, j, i = c.int('k', 0, nk - 1), c.int('j', 0, nj - 1), c.int('i', 0, ni - 1)
    down, right, shape = c.choice('directions', [(True, True, 'curved'), (False, True, 'straight'), (True, False, 'vertical')]) \
        if name == 'plain' else (True, True, 'curved')
    c.ghost['layer'] = k
    g = c.fn(G + 'Grid')(model, title = 'a <grid>', originator = 'someone', extra_metadata = EM)
    g.extent_kji = c.np.array((nk, nj, ni))
    g.nk, g.nj, g.ni = nk, nj, ni
    g.grid_representation = 'IjkGrid'
    g.crs_uuid = crs.uuid
    g.crs = crs
    g.k_direction_is_down, g.grid_is_right_handed, g.pillar_shape = down, right, shape
    levels = nk + 1
    if v.get('gaps'):
        g.k_gaps = c.int('gaps', 1, nk - 1)
        levels = levels + g.k_gaps
        g.k_gap_after_array = c.array('gap', (nk - 1,), bool)
        c.assume(gaps_before(c, g.k_gap_after_array, nk - 1) == g.k_gaps)
    l = c.int('l', 0, levels - 1)
    g.has_split_coordinate_lines = bool(v.get('split'))
    if g.has_split_coordinate_lines:
        n, m = c.int('n', 1), c.int('m', 1)
        s, e = c.int('s', 0, n - 1), c.int('e', 0, m - 1)
        g.split_pillars_count = n
        g.split_pillar_indices_cached = c.array('split', (n,), int, lo = 0, hi = (nj + 1) * (ni + 1) - 1)
        g.cols_for_split_pillars = c.array('cols', (m,), int, lo = 0, hi = nj * ni - 1)
        g.cols_for_split_pillars_cl = c.array('cl', (n,), int, lo = 1, hi = m)
        pi = c.int('pi', 0, (nj + 1) * (ni + 1) + n - 1)
        at = (l, pi)
        p = c.array('points', (levels, (nj + 1) * (ni + 1) + n, 3))
    else:
        pj, pi = c.int('pj', 0, nj), c.int('pi', 0, ni)
        at = (l, pj, pi)
        p = c.array('points', (levels, nj + 1, ni + 1, 3))
    g.points_cached = p
    cells = pillars = None
    if v.get('cells'):
        cells = c.array('cells', (nk, nj, ni), bool)
        g.array_cell_geometry_is_defined = cells
    else:
        g.geometry_defined_for_all_cells_cached = True
    if v.get('pillars'):
        pillars = c.array('pillars', (nj + 1, ni + 1), bool)
        g.array_pillar_geometry_is_defined = pillars
    else:
        g.geometry_defined_for_all_pillars_cached = True
    ts = None
    if v.get('time'):
        ts = c.fn('resqpy.time_series.TimeSeries')(model, first_timestamp = '2020-01-01Z', yearly = 3, title = 'times', originator = 'someone')
        ts.create_xml()
        g.time_index, g.time_series_uuid = 2, ts.uuid
    g.write_hdf5()
    g.create_xml()
    for r in again(c, model, G + 'Grid', g):
        same_citation(c, g, r)
        c.check('extent', r.nk == nk, r.nj == nj, r.ni == ni, *[r.extent_kji[x] == y for x, y in enumerate((nk, nj, ni))])
        c.check('crs', str(r.crs_uuid) == str(crs.uuid), r.crs == crs)
        c.check('directions', r.k_direction_is_down == down, r.grid_is_right_handed == right, r.pillar_shape == shape)
        r.cache_all_geometry_arrays()
        same_grid(c, 'points', r.points_ref(masked = False), p, at)
        c.check('gaps', (not r.k_gaps) if not g.k_gaps else r.k_gaps == g.k_gaps)
        if v.get('gaps'):
            b = c.int('b', 0, nk - 2)
            c.check('gap after', r.k_gap_after_array.shape == (nk - 1,), c.Iff(r.k_gap_after_array[b], g.k_gap_after_array[b]))
            c.check('raw index', r.k_raw_index_array[k] == k + gaps_before(c, g.k_gap_after_array, k))
        c.check('split', r.has_split_coordinate_lines is g.has_split_coordinate_lines)
        if v.get('split'):
            c.check('split: count', r.split_pillars_count == n)
            same_grid(c, 'split: pillars', r.split_pillar_indices_cached, g.split_pillar_indices_cached, (s,))
            same_grid(c, 'split: columns', r.cols_for_split_pillars, g.cols_for_split_pillars, (e,))
            same_grid(c, 'split: lengths', r.cols_for_split_pillars_cl, g.cols_for_split_pillars_cl, (s,))
        if cells is not None:
            d = r.cell_geometry_is_defined_ref()
            c.check('defined', c.Iff(True if d is None else d[k, j, i], cells[k, j, i]))
            c.check('defined: cell', c.Iff(r.cell_geometry_is_defined(cell_kji0 = (k, j, i)), cells[k, j, i]))
        else:
            c.check('all defined', r.geometry_defined_for_all_cells())
        if pillars is not None:
            c.check('pillars', c.Iff(r.pillar_geometry_is_defined([at[1], at[2]]), pillars[at[1], at[2]]))
        else:
            c.check('all pillars', r.geometry_defined_for_all_pillars())
        c.check('time', r.time_index == g.time_index, (r.time_series_uuid is None) if ts is None else str(r.time_series_uuid) == str(ts.uuid))


def a_grid(c, model, crs, nk, nj, ni, p, title = 'a <grid>', **kw):
    """grid of the given extent, all of it defined"""
    g = c.fn(G + 'Grid')(model, title = title, originator = 'someone', extra_metadata = EM)
    g.extent_kji = c.np.array((nk, nj, ni))
    g.nk, g.nj, g.ni = nk, nj, ni
    g.grid_representation = 'IjkGrid'
    g.crs_uuid = crs.uuid
    g.crs = crs
    g.k_direction_is_down, g.grid_is_right_handed, g.pillar_shape = True, True, 'curved'
    g.has_split_coordinate_lines = False
    g.points_cached = p
    g.geometry_defined_for_all_cells_cached = g.geometry_defined_for_all_pillars_cached = True
    for k, v in kw.items():
        setattr(g, k, v)
    return g


def extent(c, lo = 1):
    n = [c.int('n' + x, lo) for x in 'kji']
    return n, tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n))


@contract('C08', 'parametric_grid')
def parametric_grid(c):
    """a grid stored with its pillars as straight lines is read back with the same points, those of split pillars too"""
    model = c.new_model()
    crs = a_crs(c, model)
    (nk, nj, ni), (k, j, i) = extent(c)
    split = c.choice('split', [False, True])
    np = c.np
    primary = (nj + 1) * (ni + 1)
    t2, b2 = c.array('top', (primary, 3)), c.array('base', (primary, 3))
    l = c.int('l', 0, nk)
    n = c.int('n', 1) if split else 0
    pi = c.int('pi', 0, primary + n - 1)
    t = np.empty((nk + 1, primary + n), dtype = float)
    t[:] = c.array('t', (nk + 1, primary + n))
    t[0], t[-1] = 0.0, 1.0
    b2[:, 2] = t2[:, 2] + c.array('height', (primary,), lo = 0.1)
    lines = c.np.arange(primary, dtype = int)
    if split:
        s = c.array('split', (n,), int, lo = 0, hi = primary - 1)
        lines = np.concatenate((lines, s))
    p = np.empty((nk + 1, primary + n, 3), dtype = float)
    f = np.expand_dims(t, axis = -1)
    p[:] = np.expand_dims(t2[lines], axis = 0) * (1.0 - f) + np.expand_dims(b2[lines], axis = 0) * f
    g = a_grid(c, model, crs, nk, nj, ni, p if split else p.reshape((nk + 1, nj + 1, ni + 1, 3)))
    if split:
        g.has_split_coordinate_lines = True
        g.split_pillars_count = n
        g.split_pillar_indices_cached = s
        g.cols_for_split_pillars = c.array('cols', (c.int('m', 1),), int, lo = 0, hi = nj * ni - 1)
        g.cols_for_split_pillars_cl = c.array('cl', (n,), int, lo = 1)
    g.write_hdf5(use_parametric_lines = True)
    g.create_xml(use_parametric_lines = True)
    for r in again(c, model, G + 'Grid', g):
        same_citation(c, g, r)
        q = r.points_ref(masked = False)
        want = p[l, pi]
        got = q[l, pi] if split else q.reshape((nk + 1, primary, 3))[l, pi]
        c.check('shape', q.shape == ((nk + 1, primary + n, 3) if split else (nk + 1, nj + 1, ni + 1, 3)))
        c.check('points', *[c.eq(got[x], want[x], 1.0e-6) for x in range(3)])


@contract('C08', 'active_cells')
def active_cells(c):
    """a grid read back has the same cells inactive"""
    model = c.new_model()
    crs = a_crs(c, model)
    (nk, nj, ni), at = extent(c)
    out = c.array('inactive', (nk, nj, ni), bool)
    g = a_grid(c, model, crs, nk, nj, ni, c.array('points', (nk + 1, nj + 1, ni + 1, 3)), inactive = out)
    some = c.choice('some undefined', [False, True])
    if some:
        cells = c.array('cells', (nk, nj, ni), bool)
        g.array_cell_geometry_is_defined = cells
        g.geometry_defined_for_all_cells_cached = None
    g.write_hdf5()
    g.create_xml()
    for r in again(c, model, G + 'Grid', g):
        want = c.Or(out[at], c.Not(cells[at])) if some else out[at]
        c.check('inactive', c.Iff(r.inactive[at], want))
        c.check('none inactive', c.Implies(r.all_inactive, want))
        c.check('kept', str(r.active_property_uuid) == str(g.active_property_uuid))
        c.check('one property', len(model.uuids(obj_type = 'DiscreteProperty')) == 1)


@contract('C08', 'active_at_times')
def active_at_times(c):
    """a grid which is for a time has the cells inactive which are so at that time"""
    model = c.new_model()
    crs = a_crs(c, model)
    (nk, nj, ni), at = extent(c)
    ts = c.fn('resqpy.time_series.TimeSeries')(model, first_timestamp = '2020-01-01Z', yearly = 3, title = 'times', originator = 'someone')
    ts.create_xml()
    when = c.choice('when', [0, 1, None])
    g = a_grid(c, model, crs, nk, nj, ni, c.array('points', (nk + 1, nj + 1, ni + 1, 3)))
    if when is not None:
        g.time_index, g.time_series_uuid = when, ts.uuid
    g.write_hdf5()
    g.create_xml()
    P = c.fn('resqpy.property.Property')
    a = {}
    for t in (0, 1, None):
        a[t] = c.array(f'active{t}', (nk, nj, ni), bool)
        P.from_array(model, a[t], 'a source', 'ACTIVE', g.uuid, property_kind = 'active', discrete = True, time_index = t,
                     time_series_uuid = None if t is None else ts.uuid)
    for r in again(c, model, G + 'Grid', g):
        c.check('inactive', c.Iff(r.inactive[at], c.Not(a[when][at])))


@contract('C08', 'strata')
def strata(c):
    """a grid read back has the same stratigraphic units for its layers"""
    model = c.new_model()
    crs = a_crs(c, model)
    (nk, nj, ni), (k, j, i) = extent(c)
    S = 'resqpy.strata.'
    earth = c.fn('resqpy.organize.OrganizationFeature')(model, feature_name = 'earth', organization_kind = 'earth model')
    earth.create_xml()
    f = c.fn(S + 'StratigraphicUnitFeature')(model, title = 'a unit')
    f.create_xml()
    u = c.fn(S + 'StratigraphicUnitInterpretation')(model, title = 'a unit', stratigraphic_unit_feature = f)
    u.create_xml()
    column = c.fn(S + 'StratigraphicColumnRank')(model, domain = 'depth', rank_index = 0, earth_model_feature_uuid = earth.uuid,
                                                 strata_uuid_list = [u.uuid], title = 'a rank')
    column.create_xml()
    g = a_grid(c, model, crs, nk, nj, ni, c.array('points', (nk + 1, nj + 1, ni + 1, 3)))
    g.stratigraphic_column_rank_uuid = column.uuid
    g.stratigraphic_units = c.array('units', (nk,), int, lo = 0, hi = 100)
    g.write_hdf5()
    g.create_xml()
    for r in again(c, model, G + 'Grid', g):
        c.check('column', str(r.stratigraphic_column_rank_uuid) == str(column.uuid))
        c.check('units', r.stratigraphic_units.shape == (nk,), r.stratigraphic_units[k] == g.stratigraphic_units[k])


@contract('C08', 'regular_grid')
def regular_grid(c):
    """an aligned regular grid read back has the same extent, steps and place, stored as a lattice or by its cell lengths"""
    model = c.new_model()
    base = a_crs(c, model, x_offset = 100.0, z_inc_down = c.choice('down', [True, False]))
    (nk, nj, ni), at = extent(c)
    lattice = c.choice('lattice', [True, False])
    step = [c.real('d' + x, 0.001 if not lattice else None) for x in 'xyz']
    for d in step:
        c.assume(c.abs(d) > 0.0001)
    origin = [c.real('o' + x) for x in 'xyz']
    g = c.fn(G + 'RegularGrid')(model, extent_kji = (nk, nj, ni), dxyz = tuple(step), origin = tuple(origin), crs_uuid = base.uuid,
                                title = 'a <grid>', originator = 'someone', extra_metadata = EM)
    g.create_xml(use_lattice = lattice)
    for r in again(c, model, G + 'RegularGrid', g):
        c.check('title', r.title == g.title, r.originator == 'someone')
        c.check('extra metadata', *[r.extra_metadata.get(k) == str(v) for k, v in EM.items()])
        c.check('extent', r.nk == nk, r.nj == nj, r.ni == ni, *[r.extent_kji[x] == y for x, y in enumerate((nk, nj, ni))])
        c.check('kind', r.is_aligned, r.grid_representation == 'IjkBlockGrid')
        for a in range(3):
            c.check('steps', *[c.eq(r.block_dxyz_dkji[a, x], step[x] if x == 2 - a else 0.0) for x in range(3)])
        c.check('crs', str(r.crs_uuid) == str(g.crs_uuid), str(r.crs.uuid) == str(g.crs_uuid))
        for got, was, tol in ((r.crs.x_offset, 100.0 + origin[0], 0.001), (r.crs.y_offset, origin[1], 0.001), (r.crs.z_offset, origin[2], 0.001)):
            c.check('place', c.abs(got - was) <= tol)
        c.check('z direction', r.crs.z_inc_down == base.z_inc_down)


@contract('C08', 'regular_as_irregular')
def regular_as_irregular(c):
    """a regular grid stored as an irregular one is read back as a grid with the points of the regular grid"""
    model = c.new_model()
    base = a_crs(c, model)
    (nk, nj, ni), at = extent(c)
    k, j, i = c.int('pk', 0, nk), c.int('pj', 0, nj), c.int('pi', 0, ni)
    step = [c.real('d' + x) for x in 'xyz']
    origin = [c.real('o' + x) for x in 'xyz']
    c.ghost['point'] = k, j, i
    g = c.fn(G + 'RegularGrid')(model, extent_kji = (nk, nj, ni), dxyz = tuple(step), origin = tuple(origin), crs_uuid = base.uuid,
                                as_irregular_grid = True, title = 'a <grid>', originator = 'someone')
    g.write_hdf5()
    g.create_xml(add_cell_length_properties = False)
    for r in again(c, model, G + 'Grid', g):
        c.check('extent', r.nk == nk, r.nj == nj, r.ni == ni)
        c.check('crs', str(r.crs_uuid) == str(base.uuid))
        p = r.points_ref(masked = False)
        c.check('shape', p.shape == (nk + 1, nj + 1, ni + 1, 3))
        c.check('points', *[c.eq(p[k, j, i, x], origin[x] + n * step[x]) for x, n in enumerate((i, j, k))])


def same_window(c, r, was, fine):
    """the mapping of coarse to fine cells is the same at any given fine cell"""
    c.check('window: extents', *[a == b for a, b in zip(r.fine_extent_kji, was.fine_extent_kji)], *[a == b for a, b in zip(r.coarse_extent_kji, was.coarse_extent_kji)])
    for a in range(3):
        c.check('window: equal', r.equal_proportions[a] == was.equal_proportions[a])


def a_local_grid(c, model, crs, refine, axis, size, fine, constant = True, v = None):
    """(parent grid, local grid, box of the parent) for a window of given extent in coarse cells and in fine cells"""
    lo = [c.int('lo' + x, 0) for x in 'kji']
    more = [c.int('more' + x, 0) for x in 'kji']
    inner, outer = (size, fine) if refine else (fine, size)  # of parent's cells; of local cells
    pn = [l + s + m for l, s, m in zip(lo, inner, more)]
    parent = a_grid(c, model, crs, *pn, c.array('points', tuple(m + 1 for m in pn) + (3,)), title = 'parent')
    parent.write_hdf5()
    parent.create_xml()
    g = a_grid(c, model, crs, *outer, c.array('local points', tuple(m + 1 for m in outer) + (3,)))
    box = c.np.zeros((2, 3), dtype = int)
    for a in range(3):
        box[0, a], box[1, a] = lo[a], lo[a] + inner[a] - 1
    f = c.fn('resqpy.olio.fine_coarse.FineCoarse')(tuple(fine), tuple(size), **{'within_coarse_box' if refine else 'within_fine_box': box})
    for a in range(3):
        if a == axis and v is not None:
            f.set_ratio_vector(a, v)
        else:
            f.set_constant_ratio(a)
    g.set_parent(parent.uuid, refine, f)
    return parent, g, f, box


def same_local(c, r, parent, g, f, box, refine, even = False):
    c.check('parent', str(r.parent_grid_uuid) == str(parent.uuid))
    c.check('refinement', even or c.Iff(r.is_refinement, refine))
    w = r.parent_window
    if even and not refine:  # taken to be a refinement
        return None
    b = w.within_coarse_box if refine else w.within_fine_box
    c.check('box', *[b[e, a] == box[e, a] for e in range(2) for a in range(3)])
    c.check('extents', *[a == b for a, b in zip(w.fine_extent_kji, f.fine_extent_kji)], *[a == b for a, b in zip(w.coarse_extent_kji, f.coarse_extent_kji)])
    c.check('equal proportions', w.equal_proportions == f.equal_proportions)
    return w


@contract('C08', 'local_grid')
def local_grid(c):
    """a local refinement, or coarsening, read back has the same parent, box within it, and ratio, one axis at a time being other than 1:1"""
    model = c.new_model()
    crs = a_crs(c, model)
    axis = c.choice('axis', [0, 1, 2])
    refine = c.choice('refine', [True, False])
    even = c.choice('even', [False, True])
    size = [c.int('size' + x, 1) for x in 'kji']  # coarse extent of the window
    ratio = 1 if even else c.int('ratio', 2)
    fine = [s * (ratio if a == axis else 1) for a, s in enumerate(size)]
    parent, g, f, box = a_local_grid(c, model, crs, refine, axis, size, fine)
    at = [c.int('c' + 'kji'[a], 0, size[a] - 1) for a in range(3)]
    g.write_hdf5()
    g.create_xml()
    for r in again(c, model, G + 'Grid', g):
        w = same_local(c, r, parent, g, f, box, refine, even)
        if w is not None:
            c.check('ratio', *[w.ratio(a, k) == (ratio if a == axis else 1) for a, k in enumerate(at)])
    c.check('child listed', [str(u) for u in c.fn(G + 'Grid')(model, uuid = parent.uuid).local_grid_uuid_list] == [str(g.uuid)])


UNEVEN = [[2, 1], [1, 3], [3, 3], [1, 2, 2], [2, 1, 3], [4]]


@contract('C08', 'local_grid_uneven', bounded = 'a few lists of ratios, of up to three coarse slices')
def local_grid_uneven(c):
    """a local refinement, or coarsening, with uneven ratios or proportions read back has the same ones"""
    model = c.new_model()
    crs = a_crs(c, model)
    axis = c.choice('axis', [0, 1, 2])
    refine = c.choice('refine', [True, False])
    v = c.choice('ratios', UNEVEN)
    size = [c.int('size' + x, 1) for x in 'kji']
    size[axis] = len(v)
    fine = list(size)
    fine[axis] = sum(v)
    parent, g, f, box = a_local_grid(c, model, crs, refine, axis, size, fine, v = c.np.array(v, dtype = int))
    parts = None
    if refine and len(set(v)) > 1 and c.choice('proportions', [False, True]):
        parts = [c.np.array([(p + 1.0) * 2.0 / (m * (m + 1.0)) for p in range(m)]) for m in v]
        f.set_proportions_list_of_vectors(axis, parts)
    g.write_hdf5()
    g.create_xml()
    for r in again(c, model, G + 'Grid', g):
        w = same_local(c, r, parent, g, f, box, refine)
        if w is not None:
            c.check('ratio', *[w.ratio(axis, k) == m for k, m in enumerate(v)])
            if parts is not None:
                for k, m in enumerate(v):
                    c.check('proportions', *[c.eq(w.proportion(axis, k)[p], parts[k][p], 1.0e-6) for p in range(m)])
