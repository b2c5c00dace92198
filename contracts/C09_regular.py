"""C09: regular grids (resqpy.grid.RegularGrid)"""

from vcpy.harness import contract
from vcpy.registry import invariant
from vcpy import gridobj

R = 'resqpy.grid._regular_grid'
G = 'resqpy.grid.'


def place(steps, n, plus = (0.0, 0.0, 0.0)):
    """the definition: n steps (k, j, i) from a place"""
    return [plus[x] + n[0] * steps[0, x] + n[1] * steps[1, x] + n[2] * steps[2, x] for x in range(3)]


def same3(c, a, b):
    return c.And(*[c.eq(a[x], b[x]) for x in range(3)])


def loops(module, qualname, array, steps, names):
    """invariants of the loops which fill an array of nodes along k, then j, then i, each from the node before"""

    @invariant(module, qualname, names = names, target = 'k')
    def ks(c, L):
        k, j, i = c.ghost['point']
        return [('node', same3(c, array(L)[L._i, 0, 0], place(steps(L), (L._i, 0, 0)))),
                ('nodes so far', c.Implies(k <= L._i, lambda: same3(c, array(L)[k, 0, 0], place(steps(L), (k, 0, 0)))))]

    @invariant(module, qualname, names = names, target = 'j')
    def js(c, L):
        k, j, i = c.ghost['point']
        return [('node', same3(c, array(L)[k, L._i, 0], place(steps(L), (k, L._i, 0)))),
                ('nodes so far', c.Implies(j <= L._i, lambda: same3(c, array(L)[k, j, 0], place(steps(L), (k, j, 0)))))]

    @invariant(module, qualname, names = names, target = 'i')
    def is_(c, L):
        k, j, i = c.ghost['point']
        return [('node', same3(c, array(L)[k, j, L._i], place(steps(L), (k, j, L._i)))),
                ('nodes so far', c.Implies(i <= L._i, lambda: same3(c, array(L)[k, j, i], place(steps(L), (k, j, i)))))]


loops(R, 'RegularGrid.make_regular_points_cached', lambda L: L.self.points_cached, lambda L: L.self.block_dxyz_dkji, ('self',))
loops(R, 'RegularGrid.centre_point', lambda L: L.centres, lambda L: L.self.block_dxyz_dkji, ('self', 'centres'))


class Regular:
    """regular grid of any extent, aligned or not"""

    def __init__(self, c, aligned = (True, False), origin = True):
        self.n = n = [c.int('n' + x, 1) for x in 'kji']
        self.aligned = c.choice('aligned', list(aligned))
        self.steps = c.np.zeros((3, 3))
        if self.aligned:
            for a in range(3):
                self.steps[a, 2 - a] = c.real('d' + 'kji'[a])
        else:
            self.steps[:] = c.array('steps', (3, 3))
        self.origin = c.np.zeros(3)
        if origin:
            self.origin[:] = c.array('origin', (3,))
        self.grid = gridobj.blank(c, n, cls = G + 'RegularGrid', block_origin = self.origin, block_dxyz_dkji = self.steps, is_aligned = self.aligned,
                                  crs = gridobj.crs(c), grid_representation = 'IjkBlockGrid')

    def cell(self, c):
        return tuple(c.int(x, 0, m - 1) for x, m in zip('kji', self.n))

    def point(self, c):
        return tuple(c.int('p' + x, 0, m) for x, m in zip('kji', self.n))


CORNERS = [(p, q, r) for p in range(2) for q in range(2) for r in range(2)]


@contract('C09', 'points')
def points(c):
    """the nodes of a regular grid are whole numbers of steps from its origin"""
    g = Regular(c)
    at = c.ghost['point'] = g.point(c)
    want = place(g.steps, at, g.origin)
    c.check('uncached', same3(c, g.grid.point_raw(index = at, cache_array = False), want))
    p = g.grid.points_ref(masked = False)
    c.check('shape', p.shape == tuple(m + 1 for m in g.n) + (3,))
    c.check('nodes', same3(c, p[at], want))
    c.check('node', same3(c, g.grid.point_raw(index = at), want))


@contract('C09', 'points_without_origin')
def points_without_origin(c):
    """nodes without the origin, when asked for so"""
    g = Regular(c)
    at = c.ghost['point'] = g.point(c)
    g.grid.make_regular_points_cached(apply_origin_offset = False)
    c.check('nodes', same3(c, g.grid.points_cached[at], place(g.steps, at)))


@contract('C09', 'corner_points')
def corner_points(c):
    """corner points of an aligned regular grid, for one cell or all, are its nodes"""
    g = Regular(c, aligned = (True,))
    cell = g.cell(c)
    want = {q: place(g.steps, tuple(a + b for a, b in zip(cell, q)), g.origin) for q in CORNERS}
    for how in (dict(cell_kji0 = cell), dict(cell_kji0 = cell, cache_cp_array = True), dict(cell_kji0 = cell)):
        a = g.grid.corner_points(**how)
        c.check('cell', a.shape == (2, 2, 2, 3), c.And(*[same3(c, a[q], want[q]) for q in CORNERS]))
    a = g.grid.corner_points()
    c.check('shape', a.shape == tuple(g.n) + (2, 2, 2, 3))
    c.check('all', c.And(*[same3(c, a[cell][q], want[q]) for q in CORNERS]))


@contract('C09', 'centres')
def centres(c):
    """the centre of a cell, for one cell or all, is half a step each way from its first corner"""
    g = Regular(c)
    cell = c.ghost['point'] = g.cell(c)
    half = [0.5 * (g.steps[0, x] + g.steps[1, x] + g.steps[2, x]) for x in range(3)]
    bare = [a + b for a, b in zip(place(g.steps, cell), half)]
    want = [a + g.origin[x] for x, a in enumerate(bare)]
    c.check('cell', same3(c, g.grid.centre_point(cell), want))
    c.check('cell without origin', same3(c, g.grid.centre_point(cell, use_origin = False), bare))
    without = c.choice('all without origin first', [False, True])
    if without:
        c.check('all without origin', same3(c, g.grid.centre_point(use_origin = False)[cell], bare))
    a = g.grid.centre_point()
    c.check('shape', a.shape == tuple(g.n) + (3,))
    c.check('all', same3(c, a[cell], want))
    c.check('kept', same3(c, g.grid.centre_point()[cell], want), same3(c, g.grid.centre_point(cell), want),
            same3(c, g.grid.centre_point(cell, use_origin = False), bare))
    if g.aligned:
        b = g.grid.aligned_column_centres()
        c.check('columns', b.shape == (g.n[1], g.n[2], 2), *[c.eq(b[cell[1], cell[2], x], want[x]) for x in range(2)])


@contract('C09', 'sizes')
def sizes(c):
    """steps of the axes, volume and thickness of cells"""
    g = Regular(c)
    cell = g.cell(c)
    s = g.steps
    length = g.grid.axial_lengths_kji()
    for a in range(3):
        c.check('lengths', length[a] >= 0.0, c.eq(length[a] * length[a], s[a, 0] * s[a, 0] + s[a, 1] * s[a, 1] + s[a, 2] * s[a, 2]))
    t = g.grid.thickness()
    c.check('thickness', t.shape == tuple(g.n), c.eq(t[cell], length[0]), c.eq(g.grid.thickness(cell), length[0]))
    v = g.grid.volume(required_uom = 'm3')
    c.check('volume', v.shape == tuple(g.n), c.eq(v[cell], length[0] * length[1] * length[2]), c.eq(g.grid.volume(cell, required_uom = 'm3'), v[cell]))
    if g.aligned:
        c.check('aligned', *[c.eq(x, s[2 - a, a]) for a, x in enumerate(g.grid.aligned_dxyz())])
    c.check('pinched', not g.grid.pinched_out(cell), c.Not(g.grid.pinched_out()[cell]))
    vertical = c.And(c.eq(s[0, 0], 0.0), c.eq(s[0, 1], 0.0))
    c.check('pillars', c.Iff(g.grid.actual_pillar_shape() == 'vertical', vertical))


@contract('C09', 'alignment')
def alignment(c):
    """a grid is taken to be aligned exactly when each axis has a step in its own direction only"""
    g = Regular(c)
    g.grid._set_is_aligned()
    s = g.steps
    own = c.And(*[c.Or(x == 2 - a, s[a, x] == 0.0) for a in range(3) for x in range(3)])
    c.check('aligned', c.Iff(g.grid.is_aligned, own))


@contract('C09', 'box', assumptions = ['the origin of the grid is that of its crs, as it is for any which has been loaded'])
def box(c):
    """every node is within the box, each side of which is at some corner of the grid"""
    g = Regular(c, origin = False)
    n = g.n
    at = g.point(c)
    b = g.grid.xyz_box(local = True)
    ends = [place(g.steps, (p * n[0], q * n[1], r * n[2])) for p, q, r in CORNERS]
    for x in range(3):
        c.check('corners within', *[c.And(c.le(b[0, x], e[x]), c.le(e[x], b[1, x])) for e in ends])
        c.check('attained', c.Or(*[c.eq(b[0, x], e[x]) for e in ends]), c.Or(*[c.eq(b[1, x], e[x]) for e in ends]))
    if g.aligned:
        p = place(g.steps, at)
        for x in range(3):
            c.check('nodes within', c.le(b[0, x], p[x]), c.le(p[x], b[1, x]))


@contract('C09', 'find_cell', assumptions = ['the origin of the grid is that of its crs, as it is for any which has been loaded'])
def find_cell(c):
    """the column found for a point of an aligned grid holds it; none is found only for a point within none"""
    g = Regular(c, aligned = (True,), origin = False)
    x, y = c.real('x'), c.real('y')
    dx, dy = g.steps[2, 0], g.steps[1, 1]
    c.assume(dx > 0.01, dy > 0.01)
    c.apart(*[x - m * dx for m in range(4)], *[y - m * dy for m in range(4)])
    j, i = g.grid.find_cell_for_point_xy(x, y)
    if j is None:
        c.check('none', i is None, c.Or(x < 0.0, y < 0.0, x >= g.n[2] * dx, y >= g.n[1] * dy))
    else:
        c.check('within grid', j >= 0, i >= 0, j < g.n[1], i < g.n[2])
        c.check('within', c.le(i * dx, x), x < (i + 1) * dx, c.le(j * dy, y), y < (j + 1) * dy)


def sliced(c, L, a, b):
    ax, ref, other = c.ghost['slice']
    s = L.self.block_dxyz_dkji
    n = [0, 0, 0]
    n[ax], n[other[0]], n[other[1]] = ref, a, b
    return same3(c, L.p[a, b], place(s, n))


@invariant(R, 'RegularGrid.slice_points', names = ('self', 'p'), target = 'a')
def slice_a(c, L):
    a, b = c.ghost['at']
    return [('first', sliced(c, L, 0, 0)), ('so far', c.Implies(a < L._i, lambda: sliced(c, L, a, 0)))]


@invariant(R, 'RegularGrid.slice_points', names = ('self', 'p'), target = 'b')
def slice_b(c, L):
    a, b = c.ghost['at']
    return [('first', sliced(c, L, a, 0)), ('so far', c.Implies(b < L._i, lambda: sliced(c, L, a, b)))]


@contract('C09', 'slice_points', assumptions = ['the origin of the grid is that of its crs, as it is for any which has been loaded'])
def slice_points(c):
    """points of a slice of any axis are the nodes with that index"""
    g = Regular(c, origin = False)
    axis = c.choice('axis', [0, 1, 2])
    other = [x for x in range(3) if x != axis]
    ref = c.int('ref', 0, g.n[axis])
    a, b = c.int('a', 0, g.n[other[0]]), c.int('b', 0, g.n[other[1]])
    c.ghost.update(slice = (axis, ref, other), at = (a, b))
    local = c.choice('local', [True, False])
    p = g.grid.slice_points(axis, ref, local = local)
    n = [0, 0, 0]
    n[axis], n[other[0]], n[other[1]] = ref, a, b
    c.check('shape', p.shape == (g.n[other[0]] + 1, g.n[other[1]] + 1, 3))
    c.check('points', same3(c, p[a, b], place(g.steps, n)))


@contract('C09', 'made')
def made(c):
    """steps of a new regular grid are those given, or of the mesh it is made from"""
    model = c.new_model()
    crs = c.fn('resqpy.crs.Crs')(model, title = 'a crs', originator = 'someone')
    crs.create_xml()
    n = [c.int('n' + x, 1) for x in 'kji']
    how = c.choice('how', ['dxyz', 'dxyz_dkji', 'mesh', 'default'])
    kw = {}
    want = c.np.zeros((3, 3))
    origin = [c.real('o' + x) for x in 'xyz']
    if how == 'dxyz':
        d = [c.real('d' + x) for x in 'xyz']
        for x in range(3):
            want[2 - x, x] = d[x]
        kw['dxyz'] = tuple(d)
    elif how == 'dxyz_dkji':
        want[:] = c.array('steps', (3, 3))
        kw['dxyz_dkji'] = want.copy()
    elif how == 'mesh':
        d, dz = c.array('dij', (2, 3)), c.real('dz')
        for a in range(2):
            c.assume(d[a, 0] * d[a, 0] + d[a, 1] * d[a, 1] + d[a, 2] * d[a, 2] > 0.01)
        want[2, :], want[1, :] = d[0], d[1]
        want[0, 2] = dz
        kw['mesh'] = c.fn('resqpy.surface.Mesh')(model, nj = n[1] + 1, ni = n[2] + 1, origin = tuple(origin), dxyz_dij = d, crs_uuid = crs.uuid,
                                                 title = 'a mesh', originator = 'someone')
        kw['mesh_dz_dk'] = dz
    else:
        for x in range(3):
            want[2 - x, x] = 1.0
    if how != 'mesh':
        kw.update(origin = tuple(origin), crs_uuid = crs.uuid)
    g = c.fn(G + 'RegularGrid')(model, extent_kji = tuple(n), title = 'a grid', originator = 'someone', **kw)
    c.check('extent', g.nk == n[0], g.nj == n[1], g.ni == n[2])
    for a in range(3):
        c.check('steps', same3(c, g.block_dxyz_dkji[a], want[a]))
    c.check('origin', same3(c, g.block_origin, origin))
    c.check('aligned', c.Iff(g.is_aligned, c.And(*[c.Or(x == 2 - a, want[a, x] == 0.0) for a in range(3) for x in range(3)])))
    c.check('crs', str(g.crs_uuid) == str(g.crs.uuid))
    for x, (m, p) in enumerate(zip((crs.x_offset, crs.y_offset, crs.z_offset), (g.crs.x_offset, g.crs.y_offset, g.crs.z_offset))):
        c.check('moved by its origin', c.eq(p, m + origin[x]))
