"""C02: mapping between fine and coarse grids (resqpy.olio.fine_coarse)"""

from vcpy.harness import contract
from vcpy.registry import invariant

FC = 'resqpy.olio.fine_coarse'
FIX = 'the axes other than the one under test have a constant ratio'


class Axis:
    """ghost view of one axis: ratio of each coarse slice, and the prefix sum of the ratios"""

    def __init__(self, c, axis, vector, max_coarse = None):
        n = 'kji'[axis]
        self.c, self.axis, self.vector = c, axis, vector
        self.nc = c.int('nc' + n, 1, max_coarse)
        if vector:
            self.v = c.array('ratios' + n, (self.nc,), int, lo = 1)
            self.nf = c.sum(self.nc, lambda k: self.v[k])
        else:
            self.r = c.int('ratio' + n, 1)
            self.nf = self.nc * self.r

    def ratio(self, c0):
        return self.v[c0] if self.vector else self.r

    def base(self, c0):
        return self.c.sum(c0, lambda k: self.v[k]) if self.vector else c0 * self.r

    def holds(self, c0, x):
        """fine slice x is within coarse slice c0"""
        c = self.c
        return c.And(c0 >= 0, c0 < self.nc, self.base(c0) <= x, x < self.base(c0 + 1))


def make(c, axis = None, vector = None):
    """a fine coarse object with established ratios; one axis may have a vector of ratios"""
    if axis is None:
        axis = c.choice('axis', [0, 1, 2])
    if vector is None:
        vector = c.choice('vector', [False, True])
    ax = [Axis(c, a, vector and a == axis) for a in range(3)]
    f = c.fn(FC + '.FineCoarse')(tuple(a.nf for a in ax), tuple(a.nc for a in ax))
    for a in range(3):
        if ax[a].vector:
            f.set_ratio_vector(a, ax[a].v)
        else:
            f.set_constant_ratio(a)
    c.ghost['axes'] = ax
    return f, ax, axis


@contract('C02', 'ratios', assumptions = [FIX])
def ratios(c):
    """the ratio reported for every coarse slice is the one set, including when a vector of ratios is all equal"""
    f, ax, axis = make(c)
    f.assert_valid()
    co = [c.int('c' + 'kji'[a], 0, ax[a].nc - 1) for a in range(3)]
    r = f.ratios(tuple(co))
    for a in range(3):
        c.check('ratio', f.ratio(a, co[a]) == ax[a].ratio(co[a]), r[a] == ax[a].ratio(co[a]))


@contract('C02', 'vector_independent', assumptions = [FIX])
def vector_independent(c):
    """changing the caller's vector after setting the ratios does not change the mapping"""
    a = Axis(c, 0, True)
    f = c.fn(FC + '.FineCoarse')((a.nf, 1, 1), (a.nc, 1, 1))
    v = a.v.copy()
    f.set_ratio_vector(0, v)
    i = c.int('i', 0, a.nc - 1)
    v[i] = v[i] + 1
    c.check('unchanged', f.ratio(0, i) == a.ratio(i))


@contract('C02', 'ratio_mismatch_rejected')
def ratio_mismatch_rejected(c):
    """ratios which do not account for every fine cell, or are not positive, are rejected"""
    nc, nf = c.int('nc', 1), c.int('nf', 1)
    c.assume(nc <= nf)
    v = c.array('v', (nc,), int, lo = -1)
    axis = c.choice('axis', [0, 1, 2])
    fe, ce = [1, 1, 1], [1, 1, 1]
    fe[axis], ce[axis] = nf, nc
    f = c.fn(FC + '.FineCoarse')(tuple(fe), tuple(ce))
    if c.choice('vector', [True, False]):
        _, e = c.attempt(AssertionError, f.set_ratio_vector, axis, v)
        total = c.sum(nc, lambda k: v[k])
        c.check('sum must match', c.Implies(e is None, total == nf))
        k = c.int('k', 0, nc - 1)
        c.check('must be positive', c.Implies(e is None, v[k] >= 1))
        c.check('valid vector accepted', c.Implies(e is not None, c.Or(total != nf, c.exists(nc, lambda i: v[i] < 1))))
    else:
        _, e = c.attempt(AssertionError, f.set_constant_ratio, axis)
        c.check('multiple', c.Iff(e is None, nf % nc == 0))
        if e is None:
            c.check('ratio', f.ratio(axis, 0) * nc == nf)


@contract('C02', 'fine_base_and_box', assumptions = [FIX])
def fine_base_and_box(c):
    """the first fine cell of a coarse cell is the sum of the preceding ratios, and its fine box spans the ratios"""
    f, ax, axis = make(c)
    co = [c.int('c' + 'kji'[a], 0, ax[a].nc - 1) for a in range(3)]
    b = f.fine_base_for_coarse(tuple(co))
    bx = f.fine_box_for_coarse(tuple(co))
    for a in range(3):
        lo = ax[a].base(co[a])
        c.check('base', b[a] == lo, f.fine_base_for_coarse_axial(a, co[a]) == lo)
        c.check('box', bx[0, a] == lo, bx[1, a] == lo + ax[a].ratio(co[a]) - 1)


@contract('C02', 'boxes_partition', assumptions = [FIX])
def boxes_partition(c):
    """fine boxes of different coarse cells are disjoint and lie within the fine grid"""
    f, ax, axis = make(c)
    p = [c.int('p' + 'kji'[a], 0, ax[a].nc - 1) for a in range(3)]
    q = [c.int('q' + 'kji'[a], 0, ax[a].nc - 1) for a in range(3)]
    bp, bq = f.fine_box_for_coarse(tuple(p)), f.fine_box_for_coarse(tuple(q))
    for a in range(3):
        ax[a].base(p[a] + 1)
        c.check('within fine grid', bp[0, a] >= 0, bp[0, a] <= bp[1, a], bp[1, a] < ax[a].nf)
        c.check('ordered and disjoint', c.Implies(p[a] < q[a], bp[1, a] < bq[0, a]))


@contract('C02', 'coarse_for_fine', assumptions = [FIX])
def coarse_for_fine(c):
    """each fine cell is mapped to the coarse cell whose fine box holds it, by each of the four ways of asking"""
    f, ax, axis = make(c)
    fi = [c.int('f' + 'kji'[a], 0, ax[a].nf - 1) for a in range(3)]
    c.ghost['fine'] = fi
    way = c.choice('way', ['vectors', 'kji0', 'axial', 'axial_vector'])
    if way == 'vectors':
        m = f.coarse_for_fine()
        co = [m[a][fi[a]] for a in range(3)]
        for a in range(3):
            c.check('length', m[a].shape[0] == ax[a].nf)
    elif way == 'kji0':
        co = f.coarse_for_fine_kji0(tuple(fi))
    elif way == 'axial':
        co = [f.coarse_for_fine_axial(a, fi[a]) for a in range(3)]
    else:
        co = [f.coarse_for_fine_axial_vector(a)[fi[a]] for a in range(3)]
    for a in range(3):
        c.check('coarse in range', co[a] >= 0, co[a] < ax[a].nc)
        c.check('coarse holds fine', ax[a].holds(co[a], fi[a]))


@invariant(FC, 'FineCoarse._set_fine_to_coarse_mapping', names = ('axis', 'f0'), target = 'c0')
def mapping_invariant(c, L):
    a = c.ghost['axes'][L.axis]
    out = [('fine base', L.f0 == a.base(L._i))]
    if 'fine' in c.ghost:
        x = c.ghost['fine'][L.axis]
        m = L.self.fine_to_coarse_mapping[L.axis][x]
        out.append(('mapped so far', c.Implies(x < L.f0, c.And(m < L._i, a.holds(m, x)))))
        for b in range(L.axis):
            y, n = c.ghost['fine'][b], L.self.fine_to_coarse_mapping[b]
            out.append(('earlier axes', n[y] == L._entry.self.fine_to_coarse_mapping[b][y]))
    return out


@contract('C02', 'round_trip', assumptions = [FIX])
def round_trip(c):
    """the coarse cell of the first fine cell of a coarse cell is that coarse cell"""
    f, ax, axis = make(c)
    co = [c.int('c' + 'kji'[a], 0, ax[a].nc - 1) for a in range(3)]
    b = f.fine_base_for_coarse(tuple(co))
    c.ghost['fine'] = list(b)
    r = f.coarse_for_fine_kji0(b)
    for a in range(3):
        ax[a].base(co[a] + 1)
        ax[a].base(r[a]), ax[a].base(r[a] + 1)
        if not ax[a].vector:
            for d in (co[a] - r[a], r[a] - co[a]):
                c.lemma('product of positive numbers', c.Implies(d >= 1, d * ax[a].r >= ax[a].r))
        c.check('round trip', r[a] == co[a])


@contract('C02', 'natural_indices', assumptions = [FIX])
def natural_indices(c):
    """the natural index of a coarse column or pillar is converted to that of its first fine column or pillar"""
    f, ax, axis = make(c)
    j, i = c.int('j', 0, ax[1].nc - 1), c.int('i', 0, ax[2].nc - 1)
    col = f.fine_for_coarse_natural_column_index(j * ax[2].nc + i)
    c.check('column', col == ax[1].base(j) * ax[2].nf + ax[2].base(i))
    pj, pi = c.int('pj', 0, ax[1].nc), c.int('pi', 0, ax[2].nc)
    p = f.fine_for_coarse_natural_pillar_index(pj * (ax[2].nc + 1) + pi)
    c.check('pillar', p == ax[1].base(pj) * (ax[2].nf + 1) + ax[2].base(pi))


@contract('C02', 'equal_proportions', assumptions = [FIX])
def equal_proportions(c):
    """equal proportions: one positive fraction per fine slice, the same for each, adding to one; interpolation fractions
    start at zero and step by the proportion"""
    f, ax, axis = make(c)
    a = axis
    c0 = c.int('c0', 0, ax[a].nc - 1)
    p = f.proportion(a, c0)
    r = ax[a].ratio(c0)
    c.check('count', p.shape[0] == r)
    k = c.int('k', 0)
    c.assume(k < r)
    c.check('fraction', c.eq(p[k] * r, 1.0))
    c.check('sums to one', c.eq(c.sum(r, lambda x: p[x]), 1.0))
    c.ghost['at'] = k
    c.ghost['step'] = 1.0 / r
    t = f.interpolation(a, c0)
    c.check('interpolation count', t.shape[0] == r)
    c.check('interpolation', c.eq(t[k] * r, k * 1.0), c.le(0.0, t[k]), c.lt(t[k], 1.0))


@invariant(FC, 'FineCoarse.interpolation', names = ('fractions',), target = 'f0')
def interpolation_invariant(c, L):
    if 'at' not in c.ghost:
        return []
    k, s = c.ghost['at'], c.ghost['step']
    return [('zero start', L.fractions[0] == 0.0),
            ('previous', L.fractions[L._i - 1] == (L._i - 1) * s),
            ('so far', c.Implies(k < L._i, lambda: L.fractions[k] == k * s))]


@contract('C02', 'proportions_for_axis', assumptions = [FIX])
def proportions_for_axis(c):
    """equal proportions over a whole axis: each fine slice has the reciprocal of the ratio of its coarse slice"""
    f, ax, axis = make(c)
    a = axis
    c0 = c.int('c0', 0, ax[a].nc - 1)
    x = c.int('x', 0)
    c.assume(ax[a].holds(c0, x))
    c.ghost['at'] = (c0, x)
    p = f.proportions_for_axis(a)
    c.check('length', p.shape[0] == ax[a].nf)
    c.check('reciprocal of ratio', c.eq(p[x] * ax[a].ratio(c0), 1.0))


@invariant(FC, 'FineCoarse.proportions_for_axis', names = ('proportions', 'fi', 'axis'), target = 'ci')
def axis_invariant(c, L):
    a = c.ghost['axes'][L.axis]
    c0, x = c.ghost['at']
    return [('fine base', L.fi == a.base(L._i)),
            ('so far', c.Implies(c0 < L._i, lambda: L.proportions[x] == 1.0 / a.ratio(c0)))]


@contract('C02', 'set_proportions', bounded = 'at most 2 coarse slices, each of ratio at most 3')
def set_proportions(c):
    """proportions given per coarse slice are normalised to sum to one, keeping their relative sizes; nothing is lost when
    they are all equal"""
    axis = c.choice('axis', [0, 1, 2])
    counts = c.choice('counts', [(1,), (2,), (3,), (1, 2), (2, 2), (3, 1), (2, 3)])
    nc, nf = [1, 1, 1], [1, 1, 1]
    nc[axis], nf[axis] = len(counts), sum(counts)
    f = c.fn(FC + '.FineCoarse')(tuple(nf), tuple(nc))
    f.set_all_ratios_constant() if len(set(counts)) == 1 else None
    if len(set(counts)) > 1:
        for a in range(3):
            f.set_ratio_vector(a, counts if a == axis else (1,))
    vs = [c.array(f'v{s}', (n,), float, lo = 0.001) for s, n in enumerate(counts)]
    keep = [v.copy() for v in vs]
    f.set_proportions_list_of_vectors(axis, vs)
    whole = f.proportions_for_axis(axis)
    c.check('whole axis length', whole.shape[0] == nf[axis])
    at = 0
    for s, n in enumerate(counts):
        c.check('argument unchanged', c.eq(vs[s], keep[s]))
        p = f.proportion(axis, s)
        c.check('count', p.shape[0] == n)
        tot = sum(keep[s][k] for k in range(n))
        for k in range(n):
            c.check('relative size', c.le(c.abs(p[k] * tot - keep[s][k]), 1.0e-6 * tot))
            c.check('whole axis', c.eq(whole[at + k], p[k]))
        c.check('sums to one', c.eq(sum(p[k] for k in range(n)), 1.0))
        t = f.interpolation(axis, s)
        for k in range(n):
            c.check('interpolation', c.eq(t[k], sum((p[m] for m in range(k)), 0.0)))
        at += n


@contract('C02', 'wrong_proportions_rejected')
def wrong_proportions_rejected(c):
    """proportions with the wrong number of entries, or a non positive entry, are rejected as assertion failures"""
    f = c.fn(FC + '.FineCoarse')((4, 1, 1), (2, 1, 1))
    f.set_all_ratios_constant()
    n = c.choice('n', [1, 2, 3])
    v = c.array('v', (n,), float)
    w = c.array('w', (2,), float, lo = 0.01)
    _, e = c.attempt(AssertionError, f.set_proportions_list_of_vectors, 0, [v, w])
    c.check('rejected', c.Iff(e is None, c.And(n == 2, c.forall(n, lambda k: v[k] > 0.0))))


@contract('C02', 'axis_letters')
def axis_letters(c):
    """axis letters and axis numbers convert back and forth"""
    a = c.choice('axis', [0, 1, 2])
    l = c.fn(FC + '.letter_for_axis')(a)
    c.check('letter', l == 'KJI'[a], c.fn(FC + '.axis_for_letter')(l) == a, c.fn(FC + '.axis_for_letter')(l.lower()) == a)
