"""C10: which points are the corners of which cells of a grid (resqpy.grid)"""

from vcpy.harness import contract
from vcpy.registry import invariant
from vcpy import gridobj

P = 'resqpy.grid._points_functions'
DEFINED = 'all points are defined (not NaN)'


class Points:
    """grid of any extent, with or without split pillars and k gaps, with its points cached; any mapping of columns to pillars"""

    def __init__(self, c, split = (False, True), gaps = (False, True), nan = False, primary = False, **kw):
        self.c = c
        self.split, self.gaps = c.choice('split', list(split)), c.choice('gaps', list(gaps))
        self.n = [c.int('n' + x, 1) for x in 'kji']
        nk, nj, ni = self.n
        g = 0
        if self.gaps:
            g = c.int('gap_count', 1)
            self.raw = c.array('raw', (nk,), int, lo = 0, hi = nk + g - 1)
            kw.update(k_gaps = g, k_raw_index_array = self.raw, k_gap_after_array = 'x')
        elif c.choice('raw kept', [True, False]):
            kw.update(k_raw_index_array = c.np.arange(nk, dtype = int))
        self.levels = nk + g + 1
        if self.split:
            self.np = c.int('np', 1) + ((nj + 1) * (ni + 1) if primary else 0)
            self.pfc = c.array('pfc', (nj, ni, 2, 2), int, lo = 0, hi = self.np - 1)
            self.points = c.array('points', (self.levels, self.np, 3), nan = nan)
            kw.update(has_split_coordinate_lines = True, pillars_for_column = self.pfc)
        else:
            self.points = c.array('points', (self.levels, nj + 1, ni + 1, 3), nan = nan)
        self.grid = gridobj.blank(c, self.n, points_cached = self.points, resolve_geometry_child = lambda *a, **k: 'x',
                                  extract_k_gaps = self.extract_k_gaps, cache_all_geometry_arrays = lambda: None, **kw)

    def extract_k_gaps(self):
        self.grid.k_raw_index_array = self.c.np.arange(self.n[0], dtype = int)

    def cell(self):
        return tuple(self.c.int(x, 0, m - 1) for x, m in zip('kji', self.n))

    def level(self, k, kp):
        return (self.raw[k] if self.gaps else k) + kp

    def at(self, level, j, i, jp, ip):
        """the definition: point of a horizon at the corner of a column"""
        if self.split:
            return self.points[level, self.pfc[j, i, jp, ip]]
        return self.points[level, j + jp, i + ip]

    def corner(self, k, j, i, kp, jp, ip):
        return self.at(self.level(k, kp), j, i, jp, ip)


CORNERS = [(p, q, r) for p in range(2) for q in range(2) for r in range(2)]
COLUMN = [(q, r) for q in range(2) for r in range(2)]


def loops(qualname, names, value):
    """invariants of loops over j and i which set the values for a column at a time; value(c, L): what must hold for the column
    in c.ghost['column'] once it has been dealt with"""

    @invariant(P, qualname, names = names, target = 'j')
    def rows(c, L):
        j, i = c.ghost['column']
        return [('rows so far', c.Implies(j < L._i, lambda: value(c, L)))]

    @invariant(P, qualname, names = names, target = 'i')
    def row(c, L):
        j, i = c.ghost['column']
        return [('columns so far', c.Implies(c.Or(j < L.j, c.And(j == L.j, i < L._i)), lambda: value(c, L)))]


def same3(c, a, b):
    return c.And(*[c.eq(a[x], b[x]) for x in range(3)])


def all_corners(c, a, p, cell):
    return c.And(*[same3(c, a[q], p.corner(*cell, *q)) for q in CORNERS])


loops('corner_points', ('grid',), lambda c, L: all_corners(c, L.grid.array_corner_points[c.ghost['cell']], c.ghost['points'], c.ghost['cell']))


def setup(c, **kw):
    p = Points(c, **kw)
    cell = p.cell()
    c.ghost.update(points = p, cell = cell, column = cell[1:])
    return p, p.grid, cell


@contract('C10', 'corner_points', assumptions = [DEFINED])
def corner_points(c):
    """the corner points of all the cells of a grid are those of the levels above and below the layer, on the four pillars of the
    column"""
    p, g, cell = setup(c)
    cp = g.corner_points()
    c.check('shape', cp.shape == tuple(p.n) + (2, 2, 2, 3))
    c.check('corners', all_corners(c, cp[cell], p, cell))
    c.check('kept', all_corners(c, g.corner_points(cell), p, cell))


@contract('C10', 'cell_corner_points', assumptions = [DEFINED])
def cell_corner_points(c):
    """corner points of one cell, with nothing cached, are those same points"""
    p, g, cell = setup(c)
    cp = g.corner_points(cell_kji0 = cell)
    c.check('corners', all_corners(c, cp, p, cell))
    c.check('not kept', not hasattr(g, 'array_corner_points'))
    q = tuple(c.choice('corner', CORNERS))
    c.check('point', same3(c, g.point(cell_kji0 = cell, corner_index = q), p.corner(*cell, *q)))


@contract('C10', 'point_once_cached', assumptions = [DEFINED])
def point_once_cached(c):
    """a point asked for by cell, or by its place in the points array, once all corner points are kept, is the same"""
    p, g, cell = setup(c)
    if c.choice('by raw index', [False, True]):
        l, j, i = c.int('l', 0, p.levels - 1), c.int('pj', 0, p.n[1]), c.int('pi', 0, p.n[2])
        if p.split:
            n = c.int('pn', 0, p.np - 1)
            c.check('raw point', same3(c, g.point_raw(index = (l, n)), p.points[l, n]))
        else:
            c.check('raw point', same3(c, g.point_raw(index = (l, j, i)), p.points[l, j, i]))
        return
    g.array_corner_points = c.array('kept', tuple(p.n) + (2, 2, 2, 3))
    c.check('corners', c.And(*[same3(c, g.corner_points(cell_kji0 = cell)[q], g.array_corner_points[cell][q]) for q in CORNERS]))
    g.invalidate_corner_points()
    c.check('fresh corners', all_corners(c, g.corner_points(cell), p, cell))


class Horizon:
    """a horizon of a grid"""

    def __init__(self, c, p):
        self.k = c.int('ref_k0', 0, p.n[0] - (1 if p.gaps else 0))
        self.kp = c.int('kp', 0, 1)
        if not p.gaps:
            c.assume(self.k + self.kp <= p.n[0])
        self.level = (p.raw[self.k] if p.gaps else self.k) + self.kp


def horizon_set(c, L):
    p, h = c.ghost['points'], c.ghost['level']
    j, i = c.ghost['column']
    return c.And(*[same3(c, L.hp[(j, i) + q], p.at(h, j, i, *q)) for q in COLUMN])


def horizons_set(c, L):
    p, h = c.ghost['points'], c.ghost['level']
    j, i = c.ghost['column']
    return c.And(*[same3(c, L.hp[(h, j, i) + q], p.at(h + L.min_k0, j, i, *q)) for q in COLUMN])


loops('split_horizon_points', ('hp',), horizon_set)
loops('split_horizons_points', ('hp',), horizons_set)


@contract('C10', 'split_horizon_points', assumptions = [DEFINED])
def split_horizon_points(c):
    """the points of a horizon, at the corners of all columns, are those of its level on their pillars"""
    p, g, (k, j, i) = setup(c)
    h = Horizon(c, p)
    c.ghost['level'] = h.level
    hp = g.split_horizon_points(ref_k0 = h.k, kp = h.kp, masked = c.choice('masked', [False, True]))
    c.check('shape', hp.shape == (p.n[1], p.n[2], 2, 2, 3))
    c.check('points', c.And(*[same3(c, hp[(j, i) + q], p.at(h.level, j, i, *q)) for q in COLUMN]))


@contract('C10', 'split_horizons_points', assumptions = [DEFINED])
def split_horizons_points(c):
    """the points of a range of horizons are those of its levels"""
    p, g, (k, j, i) = setup(c)
    top, base, kw = 0, p.levels - 1, {}
    if c.choice('from', [False, True]):
        top = kw['min_k0'] = c.int('min_k0', 0, p.levels - 1)
    if c.choice('to', [False, True]):
        base = kw['max_k0'] = c.int('max_k0', 0, p.levels - 1)
        c.assume(top <= base)
    c.ghost['level'] = h = c.int('h', 0)
    c.assume(h <= base - top)
    hp = g.split_horizons_points(**kw)
    c.check('shape', hp.shape == (base - top + 1, p.n[1], p.n[2], 2, 2, 3))
    c.check('points', c.And(*[same3(c, hp[(h, j, i) + q], p.at(h + top, j, i, *q)) for q in COLUMN]))


@contract('C10', 'horizon_points', assumptions = [DEFINED])
def horizon_points(c):
    """the points of a horizon, one for each place in the areal grid, are those of the primary pillars (the healed ones if wanted)"""
    p, g, (k, j, i) = setup(c, primary = True)
    h = Horizon(c, p)
    pj, pi = c.int('pj', 0, p.n[1]), c.int('pi', 0, p.n[2])
    heal = c.choice('heal_faults', [False, True])
    if heal:
        g.array_unsplit_points = healed = c.array('healed', (p.levels, p.n[1] + 1, p.n[2] + 1, 3))
    hp = g.horizon_points(ref_k0 = h.k, kp = h.kp, heal_faults = heal)
    c.check('shape', hp.shape == (p.n[1] + 1, p.n[2] + 1, 3))
    if p.split and heal:
        want = healed[h.level, pj, pi]
    elif p.split:
        want = p.points[h.level, pj * (p.n[2] + 1) + pi]
    else:
        want = p.points[h.level, pj, pi]
    c.check('points', same3(c, hp[pj, pi], want))


@contract('C10', 'coordinate_line_end_points', assumptions = [DEFINED])
def coordinate_line_end_points(c):
    """the ends of the coordinate lines are the top and bottom points of the primary pillars"""
    p, g, (k, j, i) = setup(c, primary = True)
    pj, pi = c.int('pj', 0, p.n[1]), c.int('pi', 0, p.n[2])
    e = g.coordinate_line_end_points()
    c.check('shape', e.shape == (p.n[1] + 1, p.n[2] + 1, 2, 3))
    at = (pj * (p.n[2] + 1) + pi,) if p.split else (pj, pi)
    c.check('top', same3(c, e[pj, pi, 0], p.points[(0,) + at]))
    c.check('base', same3(c, e[pj, pi, 1], p.points[(p.levels - 1,) + at]))


def z_set(c, L):
    p, cell = c.ghost['points'], c.ghost['cell']
    return c.And(*[c.eq(L.z_cp[cell][q], p.corner(*cell, *q)[2]) for q in CORNERS])


loops('z_corner_point_depths', ('z_cp',), z_set)


@contract('C10', 'z_corner_point_depths', assumptions = [DEFINED])
def z_corner_point_depths(c):
    """the depths of the corners of cells are those of their corner points, in either order of indices"""
    p, g, (k, j, i) = setup(c)
    order = c.choice('order', ['cellular', 'linear'])
    z = g.z_corner_point_depths(order = order)
    nk, nj, ni = p.n
    c.check('shape', z.shape == ((nk, nj, ni, 2, 2, 2) if order == 'cellular' else (nk, 2, nj, 2, ni, 2)))
    at = (lambda q: (k, j, i) + q) if order == 'cellular' else (lambda q: (k, q[0], j, q[1], i, q[2]))
    c.check('depths', c.And(*[c.eq(z[at(q)], p.corner(k, j, i, *q)[2]) for q in CORNERS]))


def mean_corner(c, p, cell, x):
    return sum((p.corner(*cell, *q)[x] for q in CORNERS[1:]), p.corner(*cell, *CORNERS[0])[x]) / 8


def is_centre(c, a, p, cell):
    return c.And(*[c.eq(a[x], mean_corner(c, p, cell, x)) for x in range(3)])


loops('centre_point', ('grid',),
      lambda c, L: is_centre(c, L.grid.array_centre_point[c.ghost['cell']], c.ghost['points'], c.ghost['cell']))


@contract('C10', 'centre_point', assumptions = [DEFINED])
def centre_point(c):
    """the centre of a cell is the mean of its corner points, however it is come by"""
    p, g, cell = setup(c)
    how = c.choice('how', ['all', 'one', 'one of all', 'kept', 'kept corners'])
    if how == 'all':
        cc = g.centre_point()
        c.check('shape', cc.shape == tuple(p.n) + (3,))
        c.check('centre', is_centre(c, cc[cell], p, cell))
        c.check('kept for later', same3(c, g.centre_point(cell), cc[cell]))
    elif how == 'one':
        c.check('centre', is_centre(c, g.centre_point(cell), p, cell))
    elif how == 'one of all':
        c.check('centre', is_centre(c, g.centre_point(cell, cache_centre_array = True), p, cell))
    elif how == 'kept':
        g.array_centre_point = c.array('kept', tuple(p.n) + (3,))
        c.check('centre', same3(c, g.centre_point(cell), g.array_centre_point[cell]))
    else:
        g.array_corner_points = cp = c.array('cp', tuple(p.n) + (2, 2, 2, 3))
        cc = g.centre_point()
        c.check('centre', c.And(*[c.eq(cc[cell][x], sum((cp[cell][q][x] for q in CORNERS[1:]), cp[cell][CORNERS[0]][x]) / 8)
                                  for x in range(3)]))


@invariant(P, 'centre_point_list', names = ('centres_list',), target = 'cell')
def list_so_far(c, L):
    g = c.ghost['list']
    return [('so far', c.Implies(g['n'] < L._i, lambda: same3(c, L.centres_list[g['n']], g['centre'](g['n']))))]


@contract('C10', 'centre_point_list')
def centre_point_list(c):
    """the centres for a list of cells are those of the cells, in order"""
    n = [c.int('n' + x, 1) for x in 'kji']
    g = gridobj.blank(c, n)
    g.array_centre_point = cc = c.array('cc', tuple(n) + (3,))
    m = c.int('m', 0)
    cells = c.array('cells', (m, 3), int, lo = 0, where = lambda ix, v: c.And(*[c.Implies(c.eq(ix[1], x), v < n[x]) for x in range(3)]))
    at = c.int('at', 0)
    c.assume(at < m)
    want = lambda r: cc[cells[r, 0], cells[r, 1], cells[r, 2]]
    c.ghost['list'] = dict(n = at, centre = want)
    got = g.centre_point_list(cells)
    c.check('shape', got.shape == (m, 3))
    c.check('centre', same3(c, got[at], want(at)))


class Pillar:
    """a place in the areal grid, and what the columns about it have there"""

    def __init__(self, c, p):
        self.c, self.p = c, p
        self.zone = tuple(c.choice(x, ['first', 'inner', 'last']) for x in ('row', 'column'))
        self.at = tuple(0 if z == 'first' else m if z == 'last' else c.int(n, 1, m - 1)
                        for z, m, n in zip(self.zone, p.n[1:], ('pj', 'pi')))
        self.level = c.int('level', 0, p.levels - 1)
        sides = [{'first': (0,), 'inner': (0, 1), 'last': (1,)}[z] for z in self.zone]
        self.columns = [(jp, ip) for jp in sides[0] for ip in sides[1]]

    def is_mean(self, a):
        """mean of the points, on the level, of those of the four columns about the pillar which exist"""
        c, p = self.c, self.p
        pj, pi = self.at
        points = [p.at(self.level, pj - jp, pi - ip, jp, ip) for jp, ip in self.columns]
        return c.And(*[c.eq(a[x] * len(points), sum([q[x] for q in points[1:]], points[0][x])) for x in range(3)])


def unsplit_done(which):

    def value(c, L):
        q = c.ghost['pillar']
        inner = [z == 'inner' for z in q.zone]
        if all(inner) or (which == 'i' and inner[0]):
            done = True
        elif which == 'j':
            done = inner[0] and q.at[0] < L._i
        else:
            done = inner[1] and q.at[1] < L._i
        return [('so far', c.Implies(done, lambda: q.is_mean(L.result[(q.level,) + q.at])))]

    return value


invariant(P, 'unsplit_points_ref', names = ('result',), target = 'j')(unsplit_done('j'))
invariant(P, 'unsplit_points_ref', names = ('result',), target = 'i')(unsplit_done('i'))


@contract('C10', 'unsplit_points', assumptions = [DEFINED])
def unsplit_points(c):
    """the healed points of a grid are the means, at each pillar, of those of the columns around it"""
    p, g, (k, j, i) = setup(c)
    c.ghost['pillar'] = q = Pillar(c, p)
    level, pj, pi = at = (q.level,) + q.at
    keep = c.choice('cache_array', [False, True])
    a = g.unsplit_points_ref(cache_array = keep)
    c.check('shape', a.shape == (p.levels, p.n[1] + 1, p.n[2] + 1, 3))
    if p.split:
        c.check('mean', q.is_mean(a[at]))
    else:
        c.check('same', same3(c, a[level, pj, pi], p.points[level, pj, pi]))
    if keep:
        b = g.unsplit_points_ref()
        c.check('kept', same3(c, a[level, pj, pi], b[level, pj, pi]))
        if not p.split:
            was = p.points[level, pj, pi, 0]
            b[level, pj, pi, 0] = 0.0
            c.check('kept apart', c.eq(p.points[level, pj, pi, 0], was))
    else:
        c.check('not kept', not hasattr(g, 'array_unsplit_points'))


class Section:
    """a cross section of a grid"""

    def __init__(self, c, p):
        self.axis = c.choice('axis', ['I', 'J', 'i', 'j'])
        self.is_i = self.axis in 'Ii'
        self.ref = c.int('ref_slice0', 0, p.n[2 if self.is_i else 1] - 1)
        self.plus = c.choice('plus_face', [False, True])
        self.n = p.n[1 if self.is_i else 2]
        self.m = c.int('col', 0, self.n - 1)
        self.k = c.int('layer', 0, p.n[0] - 1)
        self.kw = dict(ref_slice0 = self.ref, plus_face = self.plus, masked = c.choice('masked', [False, True]))

    def column(self, side):
        """column and corner"""
        face = 1 if self.plus else 0
        return (self.m, self.ref, side, face) if self.is_i else (self.ref, self.m, face, side)


@contract('C10', 'x_section_points', assumptions = [DEFINED])
def x_section_points(c):
    """the points of a cross section are those of the face of the slice which was asked for, on every level"""
    p, g, cell = setup(c, gaps = (False,))
    s = Section(c, p)
    level = c.int('level', 0, p.levels - 1)
    if p.split:
        a = g.split_x_section_points(s.axis, **s.kw)
        c.check('shape', a.shape == (p.levels, s.n, 2, 3))
        c.check('points', c.And(*[same3(c, a[level, s.m, q], p.at(level, *s.column(q))) for q in range(2)]))
    else:
        a = g.unsplit_x_section_points(s.axis, **s.kw)
        c.check('shape', a.shape == (p.levels, s.n + 1, 3))
        c.check('points', c.And(*[same3(c, a[level, s.m + q], p.at(level, *s.column(q))) for q in range(2)]))


@contract('C10', 'x_section_corner_points', assumptions = [DEFINED])
def x_section_corner_points(c):
    """the corners of cells on a cross section are the corner points of the cells of the slice, on the face asked for"""
    p, g, cell = setup(c)
    s = Section(c, p)
    if not p.split and p.gaps:  # as for a grid which is not split: the natural pillar numbers
        axis = lambda x, m: c.np.arange(m, dtype = int).reshape(tuple(m if y == x else 1 for y in range(4)))
        g.pillars_for_column = (axis(0, p.n[1]) + axis(2, 2)) * (p.n[2] + 1) + axis(1, p.n[2]) + axis(3, 2)
    if c.choice('general', [True, False]) or not p.split:
        a = g.x_section_corner_points(s.axis, **s.kw)
    else:
        a = g.split_gap_x_section_points(s.axis, **s.kw)
    c.check('shape', a.shape == (p.n[0], s.n, 2, 2, 3))
    for kp, q in COLUMN:
        c.check('points', same3(c, a[s.k, s.m, kp, q], p.at(p.level(s.k, kp) if p.gaps else s.k + kp, *s.column(q))))


@contract('C10', 'undefined_pillars')
def undefined_pillars(c):
    """a corner of a cell is undefined where the pillar which it is on is noted as undefined, and otherwise has its point"""
    p, g, cell = setup(c, primary = True)
    nk, nj, ni = p.n
    g.geometry_defined_for_all_pillars_cached = False
    g.geometry_defined_for_all_cells_cached = True
    g.array_pillar_geometry_is_defined = defined = c.array('defined', (nj + 1, ni + 1), bool)
    q = tuple(c.choice('corner', CORNERS))
    k, j, i = cell
    if p.split:
        n = p.pfc[(j, i) + q[1:]]
        level = p.level(k, q[0])
        got = g.point(cell_kji0 = cell, corner_index = q)
        primary = n < (nj + 1) * (ni + 1)
        if got is None:
            c.check('undefined', primary)
            pj = c.int('pj', 0, nj)
            pi = c.int('pi', 0, ni)
            c.assume(c.eq(pj * (ni + 1) + pi, n))
            c.check('noted', c.Not(defined[pj, pi]))
        else:
            c.check('point', same3(c, got, p.points[level, n]))
            pj, pi = c.int('pj', 0, nj), c.int('pi', 0, ni)
            c.assume(c.eq(pj * (ni + 1) + pi, n))
            c.check('defined', defined[pj, pi])
    else:
        got = g.point(cell_kji0 = cell, corner_index = q)
        c.check('undefined', c.Iff(got is None, c.Not(defined[j + q[1], i + q[2]])))
        if got is not None:
            c.check('point', same3(c, got, p.corner(*cell, *q)))


def trilinear(c, p, cell, f, x):
    w = lambda a, s: f[a] if s else 1 - f[a]
    return sum(p.corner(*cell, *q)[x] * w(0, q[0]) * w(1, q[1]) * w(2, q[2]) for q in CORNERS)


@contract('C10', 'interpolated_point', assumptions = [DEFINED])
def interpolated_point(c):
    """a point interpolated within a cell has its corner points weighted by the fractions, each held to the range 0 to 1"""
    p, g, cell = setup(c, gaps = (False,))
    f = [c.real('f' + x) for x in 'kji']
    h = [c.max(c.min(x, 1.0), 0.0) for x in f]
    a = g.interpolated_point(cell, f)
    c.check('point', c.And(*[c.eq(a[x], trilinear(c, p, cell, h, x)) for x in range(3)]))


@contract('C10', 'interpolated_points', assumptions = [DEFINED])
def interpolated_points(c):
    """points interpolated over a lattice of fractions are each the corner points weighted by its three fractions"""
    p, g, cell = setup(c, gaps = (False,))
    n = [c.int('m' + x, 1) for x in 'kji']
    f = [c.array('f' + x, (m,)) for x, m in zip('kji', n)]
    a = g.interpolated_points(cell, f)
    c.check('shape', a.shape == tuple(n) + (3,))
    at = tuple(c.int('a' + x, 0, m - 1) for x, m in zip('kji', n))
    ff = [f[x][at[x]] for x in range(3)]
    c.check('points', c.And(*[c.eq(a[at][x], trilinear(c, p, cell, ff, x)) for x in range(3)]))


@contract('C10', 'point_areally', assumptions = [DEFINED])
def point_areally(c):
    """a cell is reduced to a point areally where no edge of its top or base is longer, along any axis, than the tolerance"""
    p, g, cell = setup(c)
    tol = c.real('tolerance', 0)
    k, j, i = cell
    a = g.point_areally(tolerance = tol)
    c.check('shape', a.shape == tuple(p.n))

    def small(u, v):
        return c.And(*[c.abs(u[x] - v[x]) <= tol for x in range(3)])

    edges = []
    for kp in range(2):
        for s in range(2):
            edges.append(small(p.corner(k, j, i, kp, 0, s), p.corner(k, j, i, kp, 1, s)))
            edges.append(small(p.corner(k, j, i, kp, s, 0), p.corner(k, j, i, kp, s, 1)))
    c.check('reduced', c.Iff(a[cell], c.And(*edges)))


@contract('C10', 'bounding_box', assumptions = [DEFINED])
def bounding_box(c):
    """the box of a cell is the least which holds its corners"""
    p, g, cell = setup(c, gaps = (False,))
    b = g.bounding_box(cell)
    for x in range(3):
        vs = [p.corner(*cell, *q)[x] for q in CORNERS]
        c.check('holds', c.And(*[c.And(b[0, x] <= v, v <= b[1, x]) for v in vs]))
        c.check('least', c.And(c.Or(*[c.eq(b[0, x], v) for v in vs]), c.Or(*[c.eq(b[1, x], v) for v in vs])))


@contract('C10', 'composite_bounding_box')
def composite_bounding_box(c):
    """the box of several boxes is the least which holds them, and they are left as they were"""
    g = gridobj.blank(c, (1, 1, 1))
    n = c.choice('n', [1, 2, 3])
    boxes = [c.array(f'b{x}', (2, 3)) for x in range(n)]
    was = [[[b[q, x] for x in range(3)] for q in range(2)] for b in boxes]
    r = g.composite_bounding_box(boxes)
    for x in range(3):
        c.check('holds', c.And(*[c.And(r[0, x] <= w[0][x], w[1][x] <= r[1, x]) for w in was]))
        c.check('least', c.And(c.Or(*[c.eq(r[0, x], w[0][x]) for w in was]), c.Or(*[c.eq(r[1, x], w[1][x]) for w in was])))
        c.check('left', c.And(*[c.And(c.eq(b[q, x], w[q][x])) for b, w in zip(boxes, was) for q in range(2)]))


Q = 'resqpy.grid._pillars'


class Splits:
    """valid split pillar data for a grid: each extra pillar has some of the columns about a primary one, each of them once"""

    def __init__(self, c, n):
        self.c, self.n = c, n
        nj, ni = n[1:]
        self.column = c.int('j', 0, nj - 1), c.int('i', 0, ni - 1), c.choice('jp', [0, 1]), c.choice('ip', [0, 1])
        j, i, jp, ip = self.column
        self.primary = (j + jp) * (ni + 1) + i + ip
        self.hit = c.choice('column is split here', [True, False])
        if c.symbolic:
            self.count, self.m = c.int('extras', 1), c.int('m', 0)
            m = self.m
            self.pj, self.pi = c.array('spj', (self.count,), int, lo = 0, hi = nj), c.array('spi', (self.count,), int, lo = 0, hi = ni)
            self.cj, self.ci = c.array('cj', (m,), int, lo = 0, hi = nj - 1), c.array('ci', (m,), int, lo = 0, hi = ni - 1)
            self.cl = c.array('cl', (self.count,), int, lo = 0, hi = m)
            self.spi = c.lazy((self.count,), 'i', lambda e: self.pj[e] * (ni + 1) + self.pi[e])
            self.cols = c.lazy((m,), 'i', lambda x: self.cj[x] * ni + self.ci[x])
            if self.hit:
                self.e, self.x = c.int('e', 0), c.int('x', 0)
                c.assume(self.e < self.count, self.x < m)
            if c.unrolling:
                c.assume(c.forall((self.count, m), self.valid))
            if self.hit:
                c.assume(self.listed(self.e, self.x), self.here(self.e, self.x))
                self.instance(self.e, self.x)
        else:
            taken, pj, pi, cj, ci, cl = {}, [], [], [], [], []
            for a in range(c.int('extras', 1)):
                p = c.int(f'pj{a}', 0, nj), c.int(f'pi{a}', 0, ni)
                some = [q for q in COLUMN if 0 <= p[0] - q[0] < nj and 0 <= p[1] - q[1] < ni and (p, q) not in taken and c.bool(f'in{a}{q}')]
                for q in some:
                    taken[(p, q)] = a
                    cj.append(p[0] - q[0])
                    ci.append(p[1] - q[1])
                pj.append(p[0])
                pi.append(p[1])
                cl.append(len(cj))
            self.count = len(pj)
            self.spi = c.np.array(pj, dtype = int) * (ni + 1) + c.np.array(pi, dtype = int)
            self.cols = c.np.array(cj, dtype = int) * ni + c.np.array(ci, dtype = int)
            self.cl = c.np.array(cl, dtype = int)
            self.e = taken.get(((j + jp, i + ip), (jp, ip)))
            c.assume(self.hit == (self.e is not None))
        self.expected = (nj + 1) * (ni + 1) + self.e if self.hit else self.primary

    def listed(self, e, x):
        """x is in the range of columns of extra pillar e"""
        c = self.c
        return c.And(x < self.cl[e], c.Implies(e > 0, lambda: x >= self.cl[e - 1]))

    def here(self, e, x):
        """extra pillar e takes, for its column x, the place of the pillar of interest"""
        c = self.c
        j, i, jp, ip = self.column
        return c.And(c.eq(self.cj[x], j), c.eq(self.ci[x], i), c.eq(self.pj[e], j + jp), c.eq(self.pi[e], i + ip))

    def valid(self, e, x):
        """what valid data has for each column x listed for an extra pillar e"""
        c = self.c
        near = c.And(self.pj[e] - self.cj[x] >= 0, self.pj[e] - self.cj[x] <= 1, self.pi[e] - self.ci[x] >= 0, self.pi[e] - self.ci[x] <= 1)
        only = c.And(c.eq(e, self.e), c.eq(x, self.x)) if self.hit else False
        return c.Implies(self.listed(e, x), c.And(near, c.Implies(self.here(e, x), only)))

    def instance(self, e, x):
        if self.c.is_true(x < self.m):
            self.c.assume(self.valid(e, x))


@invariant(Q, 'create_column_pillar_mapping', names = ('grid',), target = 'j')
def mapping_rows(c, L):
    s = c.ghost['splits']
    return [('rows so far', c.Implies(s.column[0] < L._i, lambda: c.eq(L.grid.pillars_for_column[s.column], s.primary)))]


@invariant(Q, 'create_column_pillar_mapping', names = ('grid',), target = 'extra_index')
def mapping_extras(c, L):
    s = c.ghost['splits']
    done = s.hit and s.e < L._i
    v = L.grid.pillars_for_column[s.column]
    return [('extras so far', c.And(c.Implies(done, lambda: c.eq(v, s.expected)), c.Implies(c.Not(done), lambda: c.eq(v, s.primary))))]


@invariant(Q, 'create_column_pillar_mapping', names = ('grid',), target = 'cpscl_index')
def mapping_columns(c, L):
    s = c.ghost['splits']
    e = L.extra_index
    s.instance(e, L._i)
    done = s.hit and c.Or(s.e < e, c.And(c.eq(s.e, e), s.x < L._i))
    v = L.grid.pillars_for_column[s.column]
    return [('columns so far', c.And(c.Implies(done, lambda: c.eq(v, s.expected)), c.Implies(c.Not(done), lambda: c.eq(v, s.primary))))]


@contract('C10', 'column_pillar_mapping', assumptions = ['split pillar data is valid RESQML: columns adjacent to their pillar, each once'])
def column_pillar_mapping(c):
    """a corner of a column is on the extra pillar which lists the column, if one does, and on the primary pillar if not"""
    n = [c.int('n' + x, 1) for x in 'kji']
    split = c.choice('split', [False, True])
    c.ghost['splits'] = s = Splits(c, n)
    kw = dict(has_split_coordinate_lines = True, split_pillar_indices_cached = s.spi, cols_for_split_pillars = s.cols,
              cols_for_split_pillars_cl = s.cl, split_pillars_count = s.count) if split else {}
    g = gridobj.blank(c, n, cache_all_geometry_arrays = lambda: None, **kw)
    a = g.create_column_pillar_mapping()
    c.check('shape', a.shape == (n[1], n[2], 2, 2))
    c.check('pillar', c.eq(a[s.column], s.expected if split else s.primary))
    b = g.create_column_pillar_mapping()
    c.check('kept', c.eq(b[s.column], a[s.column]))


F = 'resqpy.grid._face_functions'


class Face:
    """a face between neighbouring columns of a split grid"""

    def __init__(self, c):
        self.c = c
        self.n = [1] + [c.int('n' + x, 1) for x in 'ji']
        nk, nj, ni = self.n
        self.pfc = c.array('pfc', (nj, ni, 2, 2), int, lo = 0)
        self.axis = c.choice('axis', [1, 2])
        c.assume(self.n[self.axis] > 1)
        self.j = c.int('j', 0, nj - (2 if self.axis == 1 else 1))
        self.i = c.int('i', 0, ni - (2 if self.axis == 2 else 1))
        pairs = self.pairs(self.j, self.i)
        self.apart = [c.Not(c.eq(self.pfc[a], self.pfc[b])) for a, b in pairs]
        self.split = c.Or(*self.apart)
        if c.symbolic:
            self.count = c.int('count', 0)
            pj, pi = c.array('spj', (self.count,), int, lo = 0, hi = nj), c.array('spi', (self.count,), int, lo = 0, hi = ni)
            self.spi = c.lazy((self.count,), 'i', lambda e: pj[e] * (ni + 1) + pi[e])
            self.e = []
            for s in range(2):
                at = (self.j + 1, self.i + s) if self.axis == 1 else (self.j + s, self.i + 1)
                if c.is_true(self.apart[s]):  # then the pillar is listed as split
                    e = c.int(f'e{s}', 0)
                    c.assume(e < self.count)
                    c.assume(c.eq(pj[e], at[0]), c.eq(pi[e], at[1]))
                    self.e.append(e)
        else:
            some = set()
            for axis, nn in ((1, (nj - 1, ni)), (2, (nj, ni - 1))):
                for j in range(nn[0]):
                    for i in range(nn[1]):
                        for s, (a, b) in enumerate(self.pairs(j, i, axis)):
                            if self.pfc[a] != self.pfc[b]:
                                some.add((j + 1) * (ni + 1) + i + s if axis == 1 else (j + s) * (ni + 1) + i + 1)
            self.spi = c.np.array(sorted(some), dtype = int)
        self.grid = gridobj.blank(c, self.n, has_split_coordinate_lines = True, pillars_for_column = self.pfc,
                                  split_pillar_indices_cached = self.spi)

    def pairs(self, j, i, axis = None):
        """corners of the two columns which meet at the ends of the face"""
        if (axis or self.axis) == 1:
            return [((j, i, 1, s), (j + 1, i, 0, s)) for s in range(2)]
        return [((j, i, s, 1), (j, i + 1, s, 0)) for s in range(2)]

    def found(self, g):
        return (g.array_j_column_face_split if self.axis == 1 else g.array_i_column_face_split)[self.j, self.i]


@invariant(F, 'split_column_faces', names = ('grid',), target = 'spi')
def faces_so_far(c, L):
    f = c.ghost['face']
    v = f.found(L.grid)
    return [('only split', c.Implies(v, f.split)), ('so far', c.Implies(c.Or(*[e < L._i for e in f.e]), v))]


@contract('C10', 'split_column_faces', assumptions = ['pillars which differ between columns are listed as split'])
def split_column_faces(c):
    """a face between columns is split where they use different pillars at either of its ends"""
    c.ghost['face'] = f = Face(c)
    g = f.grid
    p = c.choice('polarity', [0, 1])
    j, i = (f.j + (1 - p), f.i) if f.axis == 1 else (f.j, f.i + (1 - p))
    c.check('one', c.Iff(g.is_split_column_face(j, i, f.axis, p), f.split))
    a, b = g.split_column_faces()
    if a is not None:
        c.check('shape', a.shape == (f.n[1] - 1, f.n[2]))
    if b is not None:
        c.check('shape', b.shape == (f.n[1], f.n[2] - 1))
    c.check('all', c.Iff(f.found(g), f.split))
    a2, b2 = g.split_column_faces()
    c.check('kept', (a2 is a and b2 is b) or a is None or b is None)


@contract('C10', 'outer_faces')
def outer_faces(c):
    """a face on the outside of a grid, or of a grid without split pillars, is not split"""
    n = [1] + [c.int('n' + x, 1) for x in 'ji']
    split = c.choice('split', [False, True])
    g = gridobj.blank(c, n, has_split_coordinate_lines = split)
    if split:
        g.pillars_for_column = c.array('pfc', (n[1], n[2], 2, 2), int, lo = 0)
    axis, p = c.choice('axis', [1, 2]), c.choice('polarity', [0, 1])
    at = [c.int('j', 0, n[1] - 1), c.int('i', 0, n[2] - 1)]
    if split:
        at[axis - 1] = n[axis] - 1 if p else 0
    c.check('not split', not g.is_split_column_face(at[0], at[1], axis, p))


D = 'resqpy.grid._defined_geometry'


def pillars_so_far(rows):

    def value(c, L):
        defined, (pj, pi) = c.ghost['pillars'], c.ghost['at']
        done = pj < L._i if rows else c.Or(pj < L.pillar_j, c.And(c.eq(pj, L.pillar_j), pi < L._i))
        return [('all so far', L.grid.geometry_defined_for_all_pillars_cached), ('defined', c.Implies(done, lambda: defined[pj, pi]))]

    return value


invariant(D, 'geometry_defined_for_all_pillars', names = ('grid',), target = 'pillar_j')(pillars_so_far(True))
invariant(D, 'geometry_defined_for_all_pillars', names = ('grid',), target = 'pillar_i')(pillars_so_far(False))


def cells_so_far(depth):

    def value(c, L):
        defined, (k, j, i) = c.ghost['cells'], c.ghost['at']
        if depth == 0:
            done = k < L._i
        elif depth == 1:
            done = c.Or(k < L.k0, c.And(c.eq(k, L.k0), j < L._i))
        else:
            done = c.Or(k < L.k0, c.And(c.eq(k, L.k0), c.Or(j < L.j0, c.And(c.eq(j, L.j0), i < L._i))))
        return [('defined', c.Implies(done, lambda: defined[k, j, i]))]

    return value


for _d, _t in enumerate(('k0', 'j0', 'i0')):
    invariant(D, 'geometry_defined_for_all_cells', names = ('grid',), target = _t)(cells_so_far(_d))


@contract('C10', 'all_defined')
def all_defined(c):
    """geometry is defined for all pillars, or cells, when it is defined for each one, which is then noted"""
    n = [c.int('n' + x, 1) for x in 'kji']
    what = c.choice('what', ['pillars', 'cells'])
    if what == 'pillars':
        defined = c.array('defined', (n[1] + 1, n[2] + 1), bool)
        c.ghost.update(pillars = defined, at = (c.int('j', 0, n[1]), c.int('i', 0, n[2])))
        kw = dict(pillar_geometry_is_defined = lambda ji, **k: defined[ji[0], ji[1]])
    else:
        defined = c.array('defined', tuple(n), bool)
        c.ghost.update(cells = defined, at = tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n)))
        kw = dict(cell_geometry_is_defined = lambda cell_kji0, **k: defined[tuple(cell_kji0)])
    g = gridobj.blank(c, n, resolve_geometry_child = lambda *a, **k: 'x', geometry_defined_for_all_pillars_cached = None,
                      geometry_defined_for_all_cells_cached = None, **kw)
    r = g.geometry_defined_for_all_pillars(cache_array = False) if what == 'pillars' else g.geometry_defined_for_all_cells(cache_array = False)
    kept = g.geometry_defined_for_all_pillars_cached if what == 'pillars' else g.geometry_defined_for_all_cells_cached
    at = c.ghost['at']
    if c.is_true(r):
        c.check('each', defined[at])
        c.check('noted', kept)
    else:
        c.check('noted', c.Not(kept))
        if what == 'pillars':
            c.check('one is not', c.Not(c.forall((n[1] + 1, n[2] + 1), lambda j, i: defined[j, i])))
        else:
            c.check('one is not', c.Not(c.forall(tuple(n), lambda k, j, i: defined[k, j, i])))
