"""C08: properties of grids which are written to a model are what is read back"""

from vcpy.harness import contract
from C07_persistence import a_crs, a_regular_grid, same_grid, EM

VARIANTS = {
    'continuous': dict(property_kind = 'porosity', uom = 'm3/m3'),
    'facet, time and realization': dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = 'K', time_index = 1,
                                        realization = 3),
    'several values': dict(property_kind = 'length', uom = 'm', count = 2),
    'points': dict(property_kind = 'length', uom = 'm', points = True),
    'discrete': dict(property_kind = 'index', discrete = True, null_value = -1),
    'discrete without null': dict(property_kind = 'index', discrete = True),
    'categorical': dict(property_kind = 'facies', discrete = True, null_value = 99),
    'columns': dict(property_kind = 'thickness', uom = 'm', indexable_element = 'columns'),
    'layers': dict(property_kind = 'index', discrete = True, indexable_element = 'layers'),
}


@contract('C08', 'property_array')
def property_array(c):
    """a property made from an array is read back with the same values and the same description"""
    model = c.new_model()
    crs = a_crs(c, model)
    nk, nj, ni = c.int('nk', 1), c.int('nj', 1), c.int('ni', 1)
    k, j, i = c.int('k', 0, nk - 1), c.int('j', 0, nj - 1), c.int('i', 0, ni - 1)
    v = c.choice('variant', sorted(VARIANTS))
    kw = dict(VARIANTS[v])
    g = a_regular_grid(c, model, crs, (nk, nj, ni))
    ie = kw.setdefault('indexable_element', 'cells')
    shape, at = {'cells': ((nk, nj, ni), (k, j, i)), 'columns': ((nj, ni), (j, i)), 'layers': ((nk,), (k,))}[ie]
    tail = (2,) if kw.get('count') else (3,) if kw.get('points') else ()
    a = c.array('a', shape + tail, int if kw.get('discrete') else float, lo = -1000 if kw.get('discrete') else None, hi = 1000 if kw.get('discrete') else None)
    ts = lu = None
    if 'time_index' in kw:
        ts = c.fn('resqpy.time_series.TimeSeries')(model, first_timestamp = '2020-01-01Z', yearly = 3, title = 'times', originator = 'someone')
        ts.create_xml()
        kw['time_series_uuid'] = ts.uuid
    if v == 'categorical':
        lu = c.fn('resqpy.property.StringLookup')(model, int_to_str_dict = {0: 'sand', 1: 'shale & silt'}, title = 'facies', originator = 'someone')
        lu.create_xml()
        kw['string_lookup_uuid'] = lu.uuid
    P = c.fn('resqpy.property.Property')
    o = P.from_array(model, a, 'a source', 'some name', g.uuid, extra_metadata = EM, **kw)
    for r in (P(model, uuid = o.uuid), P(c.reopened(model), uuid = o.uuid)):
        c.check('title', r.title == 'some name')
        c.check('extra metadata', r.extra_metadata == {'k': 'v & w', 'n': '5', 'source': 'a source'} or r.extra_metadata == {'k': 'v & w', 'n': '5'})
        c.check('kind', r.property_kind() == kw['property_kind'])
        c.check('flavour', r.is_continuous() == (not kw.get('discrete')), r.is_points() == bool(kw.get('points')), r.is_categorical() == (lu is not None))
        c.check('unit', r.uom() == (None if v == 'points' else kw.get('uom')))
        c.check('facet', r.facet_type() == kw.get('facet_type'), r.facet() == kw.get('facet'))
        c.check('time', r.time_index() == kw.get('time_index'), (None if r.time_series_uuid() is None else str(r.time_series_uuid())) == (None if ts is None else str(ts.uuid)))
        c.check('realization', r.realization() == kw.get('realization'))
        c.check('null', r.null_value() == kw.get('null_value', -1) if kw.get('discrete') else True)
        c.check('element', r.indexable_element() == ie, r.count() == kw.get('count', 1))
        c.check('lookup', (None if r.string_lookup_uuid() is None else str(r.string_lookup_uuid())) == (None if lu is None else str(lu.uuid)))
        c.check('support', str(r.collection.support_uuid) == str(g.uuid))
        b = r.array_ref()
        same_grid(c, 'values', b, a, at)
        lo, hi = r.minimum_value(), r.maximum_value()
        if not tail and lo is not None:
            x = a[at]
            c.check('limits', c.Or(x == kw['null_value'] if 'null_value' in kw else False, c.And(c.le(lo, x), c.le(x, hi))))
        elif not tail and v != 'categorical':
            c.check('no limits', 'null_value' in kw, c.Implies(True, a[at] == kw.get('null_value')))


CONSTANTS = {
    'continuous': (dict(property_kind = 'porosity', uom = 'm3/m3'), None),
    'discrete': (dict(property_kind = 'index', discrete = True, null_value = -1), 7),
    'boolean': (dict(property_kind = 'active', discrete = True), True),
    'zero': (dict(property_kind = 'index', discrete = True), 0),
}


@contract('C08', 'property_constant')
def property_constant(c):
    """a constant property is read back as an array of that constant, whether stored as a constant or expanded"""
    model = c.new_model()
    crs = a_crs(c, model)
    nk, nj, ni = c.int('nk', 1), c.int('nj', 1), c.int('ni', 1)
    at = c.int('k', 0, nk - 1), c.int('j', 0, nj - 1), c.int('i', 0, ni - 1)
    kw, value = CONSTANTS[c.choice('variant', sorted(CONSTANTS))]
    expand = c.choice('expand', [False, True])
    if value is None:
        value = c.real('value')
    g = a_regular_grid(c, model, crs, (nk, nj, ni))
    P = c.fn('resqpy.property.Property')
    o = P.from_array(model, None, 'a source', 'some name', g.uuid, indexable_element = 'cells', const_value = value,
                     expand_const_arrays = expand, **kw)
    for r in (P(model, uuid = o.uuid), P(c.reopened(model), uuid = o.uuid)):
        c.check('title and kind', r.title == 'some name', r.property_kind() == kw['property_kind'])
        c.check('flavour', r.is_continuous() == (not kw.get('discrete')))
        k = r.constant_value()
        c.check('constant', k is None if expand else c.eq(k, value))
        b = r.array_ref()
        c.check('shape', b.shape == (nk, nj, ni))
        c.check('value', c.eq(b[at], value))


@contract('C08', 'property_masked')
def property_masked(c):
    """a property array, masked, has the values which are null, and those of inactive cells, masked out, and no others"""
    model = c.new_model()
    crs = a_crs(c, model)
    nk, nj, ni = c.int('nk', 1), c.int('nj', 1), c.int('ni', 1)
    at = c.int('k', 0, nk - 1), c.int('j', 0, nj - 1), c.int('i', 0, ni - 1)
    v = c.choice('variant', ['continuous', 'discrete', 'zero', 'points'])
    exclude = c.choice('exclude null', [False, True])
    g = a_regular_grid(c, model, crs, (nk, nj, ni))
    g.inactive = c.array('inactive', (nk, nj, ni), bool) if c.choice('inactive', [False, True]) else None
    if v in ('continuous', 'points'):
        a = c.array('a', (nk, nj, ni) if v == 'continuous' else (nk, nj, ni, 3), float, nan = True)
        null = None
    else:
        a = c.array('a', (nk, nj, ni), int, lo = -1000, hi = 1000)
        null = 0 if v == 'zero' else -1
    P = c.fn('resqpy.property.Property')
    pc = c.fn('resqpy.property.PropertyCollection')(support = g)
    r = pc.masked_array(a, exclude_value = None if not exclude else (float('nan') if null is None else null), points = v == 'points')
    if v == 'points':
        at = at + (c.int('x', 0, 2),)
    x = a[at]
    out = c.isnan(x) if null is None else x == null
    want = c.Or(c.And(exclude, out), False if g.inactive is None else g.inactive[at[:3]])
    m = r.mask
    c.check('masked', c.Iff(m[at] if getattr(m, 'ndim', 0) else False, want))


@contract('C08', 'imported_list')
def imported_list(c):
    """arrays imported together are each read back as they were, boolean ones packed or not"""
    model = c.new_model()
    crs = a_crs(c, model)
    n = c.int('nk', 1), c.int('nj', 1), c.int('ni', 1)
    at = tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n))
    g = a_regular_grid(c, model, crs, n)
    kinds = c.choice('kinds', [(bool, float), (float, bool), (bool, int), (int, bool, float)])
    pc = c.fn('resqpy.property.PropertyCollection')(support = g)
    arrays = [c.array(f'a{m}', n, t, lo = 0 if t is int else None, hi = 1000 if t is int else None) for m, t in enumerate(kinds)]
    for m, (a, t) in enumerate(zip(arrays, kinds)):
        pc.add_cached_array_to_imported_list(a, 'source', f'p{m}', discrete = t is not float, uom = 'm' if t is float else None,
                                             property_kind = 'length' if t is float else 'index', realization = m)
    pc.write_hdf5_for_imported_list(use_pack = c.choice('pack', [False, True]))
    us = pc.create_xml_for_imported_list_and_add_parts_to_model()
    c.check('number', len(us) == len(kinds))
    P = c.fn('resqpy.property.Property')
    for again in (False, True):
        for m, (u, a, t) in enumerate(zip(us, arrays, kinds)):
            r = P(c.reopened(model) if again else model, uuid = u)
            c.check('which', r.title == f'p{m}', r.realization() == m, r.is_continuous() == (t is float))
            b = r.array_ref(dtype = t)
            c.check('shape', b.ndim == 3, *[b.shape[x] == n[x] for x in range(3)])
            c.check('values', c.Iff(b[at], a[at]) if t is bool else c.eq(b[at], a[at]))


@contract('C08', 'limits')
def limits(c):
    """the limits stored with a property lie either side of each of its values which is not missing, and there are none when all are missing"""
    model = c.new_model()
    crs = a_crs(c, model)
    n = c.int('nk', 1), c.int('nj', 1), c.int('ni', 1)
    at = tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n))
    g = a_regular_grid(c, model, crs, n)
    kind = c.choice('kind', ['continuous', 'discrete', 'null'])
    cont = kind == 'continuous'
    kw = dict(discrete = not cont, uom = 'm' if cont else None, property_kind = 'length' if cont else 'index', null_value = -1 if kind == 'null' else None)
    a = c.array('a', n, float, nan = True) if cont else c.array('a', n, int, lo = -1000, hi = 1000)
    if c.choice('imported', [True, False]):
        pc = c.fn('resqpy.property.PropertyCollection')(support = g)
        pc.add_cached_array_to_imported_list(a, 'source', 'p', **kw)
        pc.write_hdf5_for_imported_list()
        u = pc.create_xml_for_imported_list_and_add_parts_to_model()[0]
    else:
        u = c.fn('resqpy.property.Property').from_array(model, a, 'source', 'p', g.uuid, **kw).uuid
    r = c.fn('resqpy.property.Property')(c.reopened(model) if c.choice('again', [False, True]) else model, uuid = u)
    lo, hi, x = r.minimum_value(), r.maximum_value(), a[at]
    gone = c.isnan(x) if cont else x == -1 if kind == 'null' else False
    if lo is None or hi is None:
        c.check('no limits', lo is None, hi is None, gone)
    else:
        c.check('limits', c.Or(gone, c.And(c.le(lo, x), c.le(x, hi))))
