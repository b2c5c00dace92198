"""C01: algebra of logical boxes of cells (resqpy.olio.box_utilities)"""

from vcpy.harness import contract
from vcpy.registry import invariant

BU = 'resqpy.olio.box_utilities'


def box(c, name, base = 0):
    """a well formed zero based box"""
    lo = c.array(name + '_lo', (3,), int, lo = base)
    more = c.array(name + '_more', (3,), int, lo = 0)
    return c.np.array([[lo[d] for d in range(3)], [lo[d] + more[d] for d in range(3)]], dtype = int)


def inside(c, cell, b):
    return c.And(*[c.And(b[0, d] <= cell[d], cell[d] <= b[1, d]) for d in range(3)])


def cell(c, name = 'cell'):
    """an arbitrary cell: universally quantified"""
    return c.array(name, (3,), int, lo = 0)


@contract('C01', 'extent_and_volume')
def extent_and_volume(c):
    """extent is the per axis cell count and volume the product of the extents"""
    b = box(c, 'box')
    e = c.fn(BU + '.extent_of_box')(b)
    v = c.fn(BU + '.volume_of_box')(b)
    for d in range(3):
        c.check('extent', e[d] == b[1, d] - b[0, d] + 1)
    c.check('volume', v == (b[1, 0] - b[0, 0] + 1) * (b[1, 1] - b[0, 1] + 1) * (b[1, 2] - b[0, 2] + 1))
    c.check('volume positive', v >= 1)


@contract('C01', 'central_cell')
def central_cell(c):
    """the central cell lies in the box, as far from the lower as from the upper face within one cell"""
    b = box(c, 'box')
    m = c.fn(BU + '.central_cell')(b)
    c.check('central cell within box', inside(c, m, b))
    for d in range(3):
        a, z = m[d] - b[0, d], b[1, d] - m[d]
        c.check('central', c.And(a - z <= 1, z - a <= 1))


@contract('C01', 'cell_in_box')
def cell_in_box(c):
    """cell_in_box is true exactly for the cells between the lower and upper corners inclusive"""
    b, x = box(c, 'box'), cell(c)
    c.check('membership', c.Iff(c.fn(BU + '.cell_in_box')(x, b), inside(c, x, b)))


@contract('C01', 'single_cell_box')
def single_cell_box(c):
    """a single cell box contains that cell and no other"""
    x, y = cell(c), cell(c, 'other')
    b = c.fn(BU + '.single_cell_box')(x)
    c.check('membership', c.Iff(inside(c, y, b), c.And(*[x[d] == y[d] for d in range(3)])))
    c.check('one cell', c.fn(BU + '.volume_of_box')(b) == 1)


@contract('C01', 'full_extent_box')
def full_extent_box(c):
    """the full extent box is valid, contains every cell of the grid, and has the extent of the grid"""
    e = c.array('extent', (3,), int, lo = 1)
    b = c.fn(BU + '.full_extent_box0')(e)
    x = cell(c)
    c.check('covers', c.Iff(inside(c, x, b), c.And(*[x[d] < e[d] for d in range(3)])))
    c.check('valid', c.fn(BU + '.valid_box')(b, e))
    c.check('extent', c.eq(c.fn(BU + '.extent_of_box')(b), e))


@contract('C01', 'valid_box')
def valid_box(c):
    """valid_box is true exactly when the box is ordered and every cell lies within the host grid"""
    b = c.array('box', (2, 3), int, lo = -3)
    e = c.array('extent', (3,), int, lo = 1)
    r = c.fn(BU + '.valid_box')(b, e)
    c.check('validity', c.Iff(r, c.And(*[c.And(b[0, d] >= 0, b[0, d] <= b[1, d], b[1, d] < e[d]) for d in range(3)])))


@contract('C01', 'union')
def union(c):
    """the union box contains both boxes and is the smallest such box"""
    a, b = box(c, 'a'), box(c, 'b')
    u = c.fn(BU + '.union')(a, b)
    x = cell(c)
    c.check('contains both', c.Implies(c.Or(inside(c, x, a), inside(c, x, b)), inside(c, x, u)))
    for d in range(3):
        c.check('minimal', c.Or(u[0, d] == a[0, d], u[0, d] == b[0, d]), c.Or(u[1, d] == a[1, d], u[1, d] == b[1, d]))
        c.check('ordered', u[0, d] <= u[1, d])


@contract('C01', 'union_with_none')
def union_with_none(c):
    """the union with no box is an independent copy of the other box"""
    f = c.fn(BU + '.union')
    a = box(c, 'a')
    keep = a.copy()
    left = c.choice('left', [True, False])
    u = f(None, a) if left else f(a, None)
    c.check('same box', c.eq(u, keep))
    u[0, 0] = u[0, 0] - 1
    c.check('independent of argument', c.eq(a, keep))
    c.check('none', f(None, None) is None)


@contract('C01', 'local_parent_round_trip')
def local_parent_round_trip(c):
    """local and parent cell indices convert back and forth, for either base; cells outside the box give None"""
    base = c.choice('base', [0, 1])
    b = box(c, 'box', base)
    x = c.array('cell', (3,), int, lo = base)
    l = c.fn(BU + '.local_box_cell_from_parent_cell')(b, x, based_0_or_1 = base)
    c.check('none iff outside', c.Iff(l is None, c.Not(inside(c, x, b))))
    if l is not None:
        for d in range(3):
            c.check('local in range', l[d] >= base, l[d] <= b[1, d] - b[0, d] + base)
        p = c.fn(BU + '.parent_cell_from_local_box_cell')(b, l, based_0_or_1 = base)
        c.check('round trip', c.eq(p, x))


@contract('C01', 'parent_local_round_trip')
def parent_local_round_trip(c):
    """every local cell of a box converts to a parent cell in the box and back again"""
    base = c.choice('base', [0, 1])
    b = box(c, 'box', base)
    l = c.array('local', (3,), int, lo = base, hi = lambda i: b[1, i[0]] - b[0, i[0]] + base)
    p = c.fn(BU + '.parent_cell_from_local_box_cell')(b, l, based_0_or_1 = base)
    c.check('parent in box', inside(c, p, b))
    q = c.fn(BU + '.local_box_cell_from_parent_cell')(b, p, based_0_or_1 = base)
    c.check('not none', q is not None)
    if q is not None:
        c.check('round trip', c.eq(q, l))


@contract('C01', 'boxes_overlap')
def boxes_overlap(c):
    """two boxes overlap exactly when some cell lies in both"""
    a, b = box(c, 'a'), box(c, 'b')
    r = c.fn(BU + '.boxes_overlap')(a, b)
    x = cell(c)
    c.check('shared cell implies overlap', c.Implies(c.And(inside(c, x, a), inside(c, x, b)), r))
    # witness: the cell with the larger of the lower corners
    w = [c.max(a[0, d], b[0, d]) for d in range(3)]
    c.check('overlap implies shared cell', c.Implies(r, c.And(inside(c, w, a), inside(c, w, b))))
    c.check('symmetric', c.Iff(r, c.fn(BU + '.boxes_overlap')(b, a)))


@contract('C01', 'overlapping_boxes')
def overlapping_boxes(c):
    """the trim box is a slab of the new box across its full section, holds every shared cell, and is the smallest such slab"""
    e, n = box(c, 'established'), box(c, 'new')
    e0, n0 = e.copy(), n.copy()
    t = c.array('trim', (2, 3), int, lo = -3, hi = 10)
    r = c.fn(BU + '.overlapping_boxes')(e, n, t)
    c.check('arguments unchanged', c.eq(e, e0), c.eq(n, n0))
    lap = c.And(*[c.And(e[0, d] <= n[1, d], n[0, d] <= e[1, d]) for d in range(3)])
    c.check('reports overlap', c.Iff(r, lap))
    if not r:
        c.check('zero trim when no overlap', c.eq(t, c.const_array([[0, 0, 0], [0, 0, 0]], dtype = int)))
        return
    x = cell(c)
    c.check('trim within new box', c.Implies(inside(c, x, t), inside(c, x, n)))
    c.check('trim covers shared cells', c.Implies(c.And(inside(c, x, e), inside(c, x, n)), inside(c, x, t)))
    full = [c.And(t[0, d] == n[0, d], t[1, d] == n[1, d]) for d in range(3)]
    c.check('full cross section', c.Or(c.And(full[0], full[1]), c.And(full[0], full[2]), c.And(full[1], full[2])))
    ext = [n[1, d] - n[0, d] + 1 for d in range(3)]
    vol = (t[1, 0] - t[0, 0] + 1) * (t[1, 1] - t[0, 1] + 1) * (t[1, 2] - t[0, 2] + 1)
    for d in range(3):
        lo, hi = c.max(e[0, d], n[0, d]), c.min(e[1, d], n[1, d])
        c.check('fewest cells', vol <= (hi - lo + 1) * ext[(d + 1) % 3] * ext[(d + 2) % 3])


@contract('C01', 'words_round_trip')
def words_round_trip(c):
    """a box written as one based ijk words is read back as the same zero based kji box"""
    b = box(c, 'box')
    words = [b[0, 2] + 1, b[1, 2] + 1, b[0, 1] + 1, b[1, 1] + 1, b[0, 0] + 1, b[1, 0] + 1]
    r = c.fn(BU + '.box_kji0_from_words_iijjkk1')(words)
    c.check('round trip', c.eq(r, b))


@contract('C01', 'text')
def text(c):
    """the two text forms hold the one based ijk bounds in the order of the simulator protocol"""
    b = box(c, 'box')
    s = c.fn(BU + '.string_iijjkk1_for_box_kji0')(b)
    t = c.fn(BU + '.spaced_string_iijjkk1_for_box_kji0')(b)
    w = [b[0, 2] + 1, b[1, 2] + 1, b[0, 1] + 1, b[1, 1] + 1, b[0, 0] + 1, b[1, 0] + 1]
    c.check_text('bracketed form', s, ['[', w[0], ':', w[1], ', ', w[2], ':', w[3], ', ', w[4], ':', w[5], ']'])
    c.check_text('spaced form', t, [w[0], ' ', w[1], '  ', w[2], ' ', w[3], '  ', w[4], ' ', w[5]])


@contract('C01', 'trim_box_by_box')
def trim_box_by_box(c):
    """trimming removes exactly the trim box from the box, and the mask returned is the mask over the cells which remain"""
    b = box(c, 'box')
    b0 = b.copy()
    axis = c.choice('axis', [0, 1, 2])
    low = c.choice('low', [True, False])
    cut = c.int('cut', b[0, axis], b[1, axis])
    t = b.copy()
    if low:
        c.assume(cut < b[1, axis])
        t[1, axis] = cut
    else:
        c.assume(cut > b[0, axis])
        t[0, axis] = cut
    t0 = t.copy()
    mask = c.array('mask', tuple(b[1, d] - b[0, d] + 1 for d in range(3)), bool)
    r = c.fn(BU + '.trim_box_by_box_returning_new_mask')(b, t, mask)
    x = cell(c)
    c.check('trim box unchanged', c.eq(t, t0))
    c.check('cells remaining', c.Iff(inside(c, x, b), c.And(inside(c, x, b0), c.Not(inside(c, x, t0)))))
    for d in range(3):
        c.check('mask extent', r.shape[d] == b[1, d] - b[0, d] + 1)
    if c.is_true(inside(c, x, b)):
        c.check('mask values', c.Iff(r[x[0] - b[0, 0], x[1] - b[0, 1], x[2] - b[0, 2]],
                                     mask[x[0] - b0[0, 0], x[1] - b0[0, 1], x[2] - b0[0, 2]]))


@contract('C01', 'trim_box_to_mask')
def trim_box_to_mask(c):
    """the box shrinks to the smallest box which holds every true cell of the mask, with the mask cut to match"""
    b = box(c, 'box')
    b0 = b.copy()
    mask = c.array('mask', tuple(b[1, d] - b[0, d] + 1 for d in range(3)), bool)
    w = c.array('w', (3,), int, lo = 0, hi = lambda i: b[1, i[0]] - b[0, i[0]])  # some true cell
    c.assume(mask[w[0], w[1], w[2]])
    r = c.fn(BU + '.trim_box_to_mask_returning_new_mask')(b, mask)
    x = cell(c)
    for d in range(3):
        c.check('within original box', b0[0, d] <= b[0, d], b[0, d] <= b[1, d], b[1, d] <= b0[1, d])
        c.check('mask extent', r.shape[d] == b[1, d] - b[0, d] + 1)
    if c.is_true(inside(c, x, b0)):
        m = mask[x[0] - b0[0, 0], x[1] - b0[0, 1], x[2] - b0[0, 2]]
        c.check('every true cell is kept', c.Implies(m, inside(c, x, b)))
        if c.is_true(inside(c, x, b)):
            c.check('mask values', c.Iff(r[x[0] - b[0, 0], x[1] - b[0, 1], x[2] - b[0, 2]], m))
    n = r.shape
    for f in (0, 1):
        c.check('true cell on k face', c.exists((n[1], n[2]), lambda j, i: r[0 if f == 0 else n[0] - 1, j, i]))
        c.check('true cell on j face', c.exists((n[0], n[2]), lambda k, i: r[k, 0 if f == 0 else n[1] - 1, i]))
        c.check('true cell on i face', c.exists((n[0], n[1]), lambda k, j: r[k, j, 0 if f == 0 else n[2] - 1]))


def _trim_invariant(axis, name):

    @invariant(BU, 'trim_box_to_mask_returning_new_mask', names = ('local_box', 'mask_kji0', 'box_extent'), target = name)
    def inv(c, L):
        lb, m, ext = L.local_box, L.mask_kji0, L.box_extent
        o = [d for d in range(3) if d != axis]

        def at(s, p, q):
            i = [None] * 3
            i[axis], i[o[0]], i[o[1]] = s, p, q
            return m[tuple(i)]

        none = lambda lo, hi: c.forall((m.shape[axis], m.shape[o[0]], m.shape[o[1]]),
                                       lambda s, p, q: c.Implies(c.And(s >= lo, s < hi), c.Not(at(s, p, q))))
        lo, hi = lb[0, axis], lb[1, axis]
        out = [('nothing yet', c.Or(lo != ext[axis], c.And(hi == -1, none(0, L._i)))),
               ('found', c.Or(lo == ext[axis], c.And(lo >= 0, lo <= hi, hi < L._i, none(0, lo), none(hi + 1, L._i)))),
               ('lower face', c.Implies(lo != ext[axis], lambda: some_at(c, m, axis, o, lo))),
               ('upper face', c.Implies(lo != ext[axis], lambda: some_at(c, m, axis, o, hi)))]
        for d in o:
            out.append(('other axes', c.And(lb[0, d] == L._entry.local_box[0, d], lb[1, d] == L._entry.local_box[1, d])))
        return out


def some_at(c, m, axis, o, s):

    def at(p, q):
        i = [None] * 3
        i[axis], i[o[0]], i[o[1]] = s, p, q
        return m[tuple(i)]

    return c.And(s >= 0, s < m.shape[axis], c.exists((m.shape[o[0]], m.shape[o[1]]), at))


for _a, _n in enumerate('kji'):
    _trim_invariant(_a, _n)
