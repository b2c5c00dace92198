"""C12: collections of properties: selection of members, arrays over realizations, times and facets, normalized and sampled arrays"""

from vcpy.harness import contract
from vcpy.registry import invariant
from C07_persistence import a_crs

P = 'resqpy.property.'
BOUND = 'a collection of eight properties'

# title, and other attributes
ROWS = [
    ('PORO', dict(property_kind = 'porosity', uom = 'm3/m3', realization = 0)),
    ('PORO', dict(property_kind = 'porosity', uom = '%', realization = 1)),
    ('KI', dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = 'I', realization = 0)),
    ('KK', dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = 'K', realization = 0)),
    ('pressure', dict(property_kind = 'pressure', uom = 'kPa', time = 0)),
    ('pressure 2', dict(property_kind = 'pressure', uom = 'bar', time = 1)),
    ('facies', dict(property_kind = 'facies', discrete = True, lookup = True, const_value = 1)),
    ('thick', dict(property_kind = 'thickness', uom = 'm', indexable_element = 'columns', const_value = 4.5)),
]
DEFAULTS = dict(property_kind = None, uom = None, realization = None, facet_type = None, facet = None, time = None, discrete = False, lookup = False,
                indexable_element = 'cells', const_value = None)


def full(rows):
    return [(t, {**DEFAULTS, **kw}) for t, kw in rows]


def collected(c, rows, extent, arrays = None, reopen = False):
    """a grid in a model, its collection of properties, and the part of each of rows"""
    model = c.new_model()
    crs = a_crs(c, model)
    g = c.fn('resqpy.grid.RegularGrid')(model, extent_kji = extent, dxyz = (1.0, 1.0, 1.0), crs_uuid = crs.uuid, title = 'a grid')
    g.create_xml(add_cell_length_properties = False)
    ts = c.fn('resqpy.time_series.TimeSeries')(model, first_timestamp = '2020-01-01Z', yearly = 5, title = 'times')
    ts.create_xml()
    lu = c.fn(P + 'StringLookup')(model, int_to_str_dict = {0: 'sand', 1: 'shale'}, title = 'facies')
    lu.create_xml()
    parts = []
    for n, (t, kw) in enumerate(rows):
        kw = dict(kw)
        time = kw.pop('time', None)
        if time is not None:
            kw.update(time_series_uuid = ts.uuid, time_index = time)
        if kw.pop('lookup', False):
            kw['string_lookup_uuid'] = lu.uuid
        a = arrays[n] if arrays is not None else None
        if a is None and kw.get('const_value') is None:
            a = c.array(f'a{n}', extent if kw.get('indexable_element', 'cells') == 'cells' else extent[1:], int if kw.get('discrete') else float)
        o = c.fn(P + 'Property').from_array(model, a, 'source', t, g.uuid, **kw)
        parts.append(model.part_for_uuid(o.uuid))
    if reopen:
        model = c.reopened(model)
    g = c.fn('resqpy.grid.RegularGrid')(model, uuid = g.uuid)
    return model, g, g.extract_property_collection(), parts, ts, lu


@contract('C12', 'selection', bounded = BOUND)
def selection(c):
    """members are selected which have each of the attributes asked for"""
    rows = full(ROWS)
    model, g, pc, parts, ts, lu = collected(c, [(t, {**k}) for t, k in ROWS], (2, 2, 3),
                                            [None if k.get('const_value') is not None else c.np.zeros((2, 2, 3)) for _, k in ROWS], c.choice('reopen', [False, True]))
    c.check('all', sorted(pc.parts()) == sorted(parts), pc.number_of_parts() == len(parts))

    def check(test, **kw):
        want = sorted(p for p, (t, r) in zip(parts, rows) if test(t, r))
        c.check('selected by ' + ' and '.join(sorted(kw)), sorted(pc.selective_parts_list(**kw)) == want)
        if len(want) == 1:
            c.check('one', pc.singleton(**kw) == want[0])
        elif not want:
            c.check('none', pc.singleton(**kw) is None)
        else:
            _, e = c.attempt(AssertionError, pc.singleton, **kw)
            c.check('several', e is not None, pc.singleton(multiple_handling = 'first', **kw) in want, pc.singleton(multiple_handling = 'none', **kw) is None)
        s = c.fn(P + 'selective_version_of_collection')(pc, **kw)
        c.check('collection', sorted(s.parts()) == want, sorted(pc.parts()) == sorted(parts))

    for k in sorted({r['property_kind'] for _, r in rows}):
        check(lambda t, r: r['property_kind'] == k, property_kind = k)
    check(lambda t, r: r['property_kind'] == 'rock permeability', property_kind = 'permeability rock')
    for v in [0, 1, 2]:
        check(lambda t, r: r['realization'] == v, realization = v)
        check(lambda t, r: r['time'] == v, time_index = v)
        check(lambda t, r: r['time'] == v and r['property_kind'] == 'pressure', time_index = v, property_kind = 'pressure')
        check(lambda t, r: r['realization'] == v and r['property_kind'] == 'porosity', realization = v, property_kind = 'porosity')
    for v in ['m3/m3', '%', 'mD', 'kPa', 'm', 'psi']:
        check(lambda t, r: r['uom'] == v, uom = v)
    for v in ['I', 'J', 'K']:
        check(lambda t, r: r['facet'] == v, facet_type = 'direction', facet = v)
    check(lambda t, r: r['facet_type'] == 'direction', facet_type = 'direction')
    check(lambda t, r: not r['discrete'], continuous = True)
    check(lambda t, r: r['discrete'], continuous = False)
    check(lambda t, r: r['lookup'], categorical = True)
    check(lambda t, r: not r['lookup'], categorical = False)
    check(lambda t, r: r['lookup'], string_lookup_uuid = lu.uuid)
    check(lambda t, r: r['time'] is not None, time_series_uuid = ts.uuid)
    check(lambda t, r: r['indexable_element'] == 'columns', indexable = 'columns')
    check(lambda t, r: r['indexable_element'] == 'cells', indexable = 'cells')
    check(lambda t, r: True, count = 1)
    check(lambda t, r: False, count = 2)
    check(lambda t, r: False, points = True)
    check(lambda t, r: r['const_value'] == 4.5, const_value = 4.5)
    check(lambda t, r: True, support_uuid = g.uuid)
    check(lambda t, r: r['time'] is not None, related_uuid = ts.uuid)
    for mode in [None, 'is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']:
        for w in ['pressure', 'K', 'PORO', 'e']:
            def test(t, r, m = mode or 'is', w = w):
                return {'is': t == w, 'starts': t.startswith(w), 'ends': t.endswith(w), 'contains': w in t, 'is not': t != w, 'does not start': not t.startswith(w),
                        'does not end': not t.endswith(w), 'does not contain': w not in t}[m]
            want = sorted(p for p, (t, r) in zip(parts, rows) if test(t, r))
            c.check('selected by title', sorted(pc.selective_parts_list(citation_title = w, title_mode = mode)) == want,
                    sorted(pc.selective_parts_list(title = w, title_mode = mode)) == want)
    for p, (t, r) in zip(parts, rows):
        c.check('uuid', pc.singleton(uuid = model.uuid_for_part(p)) == p, pc.part_in_collection(p), str(pc.uuid_for_part(p)) == str(model.uuid_for_part(p)))
        c.check('attributes', pc.property_kind_for_part(p) == r['property_kind'], pc.realization_for_part(p) == r['realization'],
                pc.facet_for_part(p) == r['facet'], pc.facet_type_for_part(p) == r['facet_type'], pc.time_index_for_part(p) == r['time'],
                pc.uom_for_part(p) == r['uom'], pc.indexable_for_part(p) == r['indexable_element'], pc.continuous_for_part(p) == (not r['discrete']),
                pc.part_is_categorical(p) == r['lookup'], pc.citation_title_for_part(p) == t, pc.constant_value_for_part(p) == r['const_value'],
                str(pc.support_uuid_for_part(p)) == str(g.uuid), pc.count_for_part(p) == 1, pc.points_for_part(p) == False)

    def distinct(k):
        return sorted({r[k] for _, r in rows if r[k] is not None})
    c.check('lists', pc.property_kind_list() == distinct('property_kind'), pc.realization_list() == distinct('realization'), pc.facet_list() == distinct('facet'),
            pc.facet_type_list() == distinct('facet_type'), pc.time_index_list() == distinct('time'), pc.uom_list() == distinct('uom'),
            sorted(pc.unique_indexable_element_list()) == distinct('indexable_element'), [str(u) for u in pc.time_series_uuid_list()] == [str(ts.uuid)],
            sorted(pc.titles()) == sorted(t for t, _ in rows))
    c.check('summaries', not pc.all_continuous(), not pc.all_discrete(), pc.all_count_one(), not pc.has_single_property_kind(), not pc.has_single_uom(),
            not pc.has_single_indexable_element(), pc.has_multiple_realizations())
    t = c.fn(P + 'property_over_time_series_from_collection')(pc, parts[4])
    c.check('over time', t.parts() == [parts[4]])
    pc.remove_part_from_dict(parts[2])
    c.check('removed', sorted(pc.parts()) == sorted(p for p in parts if p != parts[2]), pc.singleton(property_kind = 'rock permeability') == parts[3])


def stack_of(kind):
    return {'realizations': [('p', dict(property_kind = 'porosity', uom = 'm3/m3', realization = r)) for r in (2, 0, 3)],
            'times': [('p', dict(property_kind = 'pressure', uom = 'kPa', time = t)) for t in (3, 0, 1)],
            'facets': [('p', dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction', facet = f)) for f in 'KIJ']}[kind]


@contract('C12', 'stacks', assumptions = ['three members; any extent of grid and values'])
def stacks(c):
    """each slice of the array over realizations, times or facets is the array of that member; missing ones are null"""
    kind = c.choice('kind', ['realizations', 'times', 'facets'])
    rows = stack_of(kind)
    discrete = kind != 'facets' and c.choice('discrete', [False, True])
    if discrete:
        rows = [(t, {**{k: v for k, v in kw.items() if k != 'uom'}, 'discrete': True, 'property_kind': 'index'}) for t, kw in rows]
    n = tuple(c.int('n' + x, 1) for x in 'kji')
    at = tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n))
    arrays = [c.array(f'a{m}', n, int, lo = -1000, hi = 1000) if discrete else c.array(f'a{m}', n, nan = kind == 'facets') for m in range(3)]
    model, g, pc, parts, ts, lu = collected(c, rows, n, arrays, c.choice('reopen', [False, True]))
    if kind == 'facets':
        a = pc.facets_array_ref()
        place, gone = {0: 2, 1: 0, 2: 1}, []
    else:
        index = [kw['realization' if kind == 'realizations' else 'time'] for _, kw in rows]
        fill = c.choice('fill', [True, False])
        value = c.choice('fill value', [None, -7]) if fill else None
        a = (pc.realizations_array_ref if kind == 'realizations' else pc.time_series_array_ref)(fill_missing = fill, fill_value = value)
        place = {m: r if fill else sorted(index).index(r) for m, r in enumerate(index)}
        gone = [r for r in range(max(index) + 1) if r not in index] if fill else []
        for r in gone:
            x = a[(r,) + at]
            c.check('missing', x == value if value is not None else x == -1 if discrete else c.isnan(x))
    c.check('shape', a.ndim == 4, c.length(a) == 3 + len(gone), *[a.shape[1 + x] == n[x] for x in range(3)])
    for m, q in place.items():
        c.check('slice', c.eq(a[(q,) + at], arrays[m][at]))


@contract('C12', 'faces')
def faces(c):
    """faces of cells put in logical order, and back, are as they were; each face is that of its axis and polarity"""
    n = c.int('n', 1)
    q = c.int('q', 0, n - 1)
    pc = c.fn(P + 'GridPropertyCollection')()
    a = c.array('a', (n, 6))
    b = pc.combobulated_face_array(a)
    c.check('shape', b.ndim == 3, b.shape[0] == n, b.shape[1] == 3, b.shape[2] == 2)
    c.check('order', *[b[q, x, p] == a[q, f] for (x, p), f in {(0, 0): 0, (0, 1): 1, (1, 0): 2, (2, 1): 3, (1, 1): 4, (2, 0): 5}.items()])
    d = pc.discombobulated_face_array(b)
    c.check('back', d.ndim == 2, d.shape[0] == n, d.shape[1] == 6, *[d[q, f] == a[q, f] for f in range(6)])
    e = c.array('e', (n, 3, 2))
    f = pc.combobulated_face_array(pc.discombobulated_face_array(e))
    c.check('forth', *[f[q, x, p] == e[q, x, p] for x in range(3) for p in range(2)])


@contract('C12', 'normalized')
def normalized(c):
    """normalized values are where the values lie between the least and greatest, zero being where it is asked to be"""
    n = tuple(c.int('n' + x, 1) for x in 'kji')
    at = tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n))
    discrete = c.choice('discrete', [False, True])
    a = c.array('a', n, int, lo = -1000, hi = 1000) if discrete else c.array('a', n, nan = True)
    model, g, pc, parts, ts, lu = collected(c, [('p', dict(property_kind = 'index', discrete = True) if discrete else dict(property_kind = 'length', uom = 'm'))], n, [a])
    fix = c.choice('zero at', [None, 0.0, 1.0, 0.5])
    b, lo, hi = pc.normalized_part_array(parts[0], fix_zero_at = fix, trust_min_max = c.choice('trust', [False, True]))
    x = a[at]
    if b is None:
        c.check('nothing to normalize', c.isnan(x) if not discrete else False)
        return
    y = b[at]
    if fix is None:
        c.check('within', c.Implies(c.Not(c.isnan(x)), c.And(c.le(lo, x), c.le(x, hi))))
        c.check('place', c.Implies(c.And(c.Not(c.isnan(x)), lo < hi), lambda: c.eq((x - lo), y * (hi - lo))),
                c.Implies(c.And(c.Not(c.isnan(x)), lo == hi), lambda: y == 0.5))
    else:
        c.check('zero', c.Implies(lo < hi, lambda: c.eq(-lo, fix * (hi - lo))))
        c.check('place', c.Implies(c.And(c.Not(c.isnan(x)), lo < hi), lambda: c.Or(c.eq((x - lo), y * (hi - lo)), c.And(x > hi, c.eq(y, 1.0)), c.And(x < lo, c.eq(y, 0.0)))))
    c.check('missing', c.Iff(c.isnan(y), c.isnan(x)))
    c.check('range', c.Implies(c.Not(c.isnan(x)), lambda: c.And(c.le(0.0, y), c.le(y, 1.0))))


@contract('C12', 'sampled')
def sampled(c):
    """an array sampled from that of another collection holds the elements which the indices say"""
    n = tuple(c.int('n' + x, 1) for x in 'kji')
    m = tuple(c.int('m' + x, 1) for x in 'kji')
    at = tuple(c.int(x, 0, z - 1) for x, z in zip('kji', m))
    a = c.array('a', n)
    model, g, pc, parts, ts, lu = collected(c, [('p', dict(property_kind = 'porosity', uom = 'm3/m3', realization = 3, time = 2))], n, [a])
    f = c.fn('resqpy.grid.RegularGrid')(model, extent_kji = m, dxyz = (1.0, 1.0, 1.0), crs_uuid = g.crs_uuid, title = 'another')
    f.create_xml(add_cell_length_properties = False)
    q = c.array('q', (m[0] * m[1] * m[2],), int, lo = 0, hi = n[0] * n[1] * n[2] - 1)
    to = c.fn(P + 'PropertyCollection')()
    to.set_support(support = f, model = model)
    to.add_to_imported_list_sampling_other_collection(pc, q)
    to.write_hdf5_for_imported_list()
    us = to.create_xml_for_imported_list_and_add_parts_to_model()
    c.check('one', len(us) == 1)
    r = c.fn(P + 'Property')(model, uuid = us[0])
    c.check('attributes', r.title == 'p', r.property_kind() == 'porosity', r.uom() == 'm3/m3', r.realization() == 3, r.time_index() == 2,
            str(r.time_series_uuid()) == str(ts.uuid), str(r.collection.support_uuid) == str(f.uuid))
    b = r.array_ref()
    c.check('shape', b.ndim == 3, *[b.shape[x] == m[x] for x in range(3)])
    e = q[(at[0] * m[1] + at[1]) * m[2] + at[2]]
    row = e // n[2]
    c.check('values', c.eq(b[at], a[row // n[1], row % n[1], e % n[2]]))


@contract('C12', 'wildcards', bounded = BOUND)
def wildcards(c):
    """members are selected which have any value of an attribute, or which have none"""
    rows = full(ROWS)
    model, g, pc, parts, ts, lu = collected(c, [(t, {**k}) for t, k in ROWS], (1, 2, 2),
                                            [None if k.get('const_value') is not None else c.np.zeros((1, 2, 2)) for _, k in ROWS])
    has = {'realization': 'realization', 'time_index': 'time', 'facet': 'facet', 'facet_type': 'facet_type', 'const_value': 'const_value',
           'time_series_uuid': 'time', 'string_lookup_uuid': 'lookup', 'uom': 'uom'}
    for k in sorted(has):
        def present(r, a = has[k]):
            return r[a] not in (None, False) or r[a] == 0 and r[a] is not False
        want = [p for p, (t, r) in zip(parts, rows) if present(r)]
        c.check('any ' + k, sorted(pc.selective_parts_list(**{k: '*'})) == sorted(want))
        c.check('no ' + k, sorted(pc.selective_parts_list(**{k: 'none'})) == sorted(p for p in parts if p not in want))
    want = [p for p, (t, r) in zip(parts, rows) if r['property_kind'] == 'porosity' and r['realization'] is not None]
    c.check('with others', sorted(pc.selective_parts_list(property_kind = 'porosity', realization = '*')) == sorted(want),
            pc.selective_parts_list(property_kind = 'porosity', realization = 'none') == [])


@contract('C12', 'similar', bounded = 'a collection of twelve properties')
def similar(c):
    """like properties, which differ only by time, facet or realization, are those gathered with an example"""
    base = dict(property_kind = 'pressure', uom = 'kPa', facet_type = 'what', facet = 'a', realization = 1, time = 0)
    differ = [{}, {'time': 1}, {'time': 2}, {'realization': 2}, {'realization': 0}, {'facet': 'b'}, {'facet': 'c'}, {'property_kind': 'depth', 'uom': 'm'},
              {'realization': 2, 'time': 1}, {'facet': 'b', 'time': 1}, {'indexable_element': 'columns'}, {'title': 'q'}]
    rows = [(d.get('title', 'p'), {**base, **{k: v for k, v in d.items() if k != 'title'}}) for d in differ]
    model, g, pc, parts, ts, lu = collected(c, rows, (1, 2, 2), [c.np.zeros((2, 2) if 'indexable_element' in d else (1, 2, 2)) for d in differ])
    full_rows = full(rows)
    kind = c.choice('kind', ['time_series', 'facets', 'realizations'])
    free = {'time_series': ['time'], 'facets': ['facet_type', 'facet'], 'realizations': ['realization']}[kind]
    for p, (t, r) in zip(parts, full_rows):
        # unit of measure is not looked at, and always goes with the kind here
        want = sorted(q for q, (s, o) in zip(parts, full_rows) if s == t and all(r[k] == o[k] for k in r if k not in free))
        n = c.fn(P + 'PropertyCollection')()
        getattr(n, f'inherit_similar_parts_for_{kind}_from_other_collection')(pc, p)
        c.check('gathered', sorted(n.parts()) == want)
        _, e = c.attempt(AssertionError, getattr(n, f'inherit_similar_parts_for_{kind}_from_other_collection'), pc, p)
        c.check('clash', e is not None)
        getattr(n, f'inherit_similar_parts_for_{kind}_from_other_collection')(pc, p, ignore_clashes = True)
        c.check('gathered again', sorted(n.parts()) == want, sorted(pc.parts()) == sorted(parts))
        if kind == 'time_series':
            c.check('over time', sorted(c.fn(P + 'property_over_time_series_from_collection')(pc, p).parts()) == want)
    n = c.fn(P + 'PropertyCollection')()
    n.inherit_parts_from_other_collection(pc)
    c.check('all', sorted(n.parts()) == sorted(parts), n.number_of_parts() == len(parts))
    n.remove_parts_list_from_dict(parts[3:])
    c.check('some', sorted(n.parts()) == sorted(parts[:3]), sorted(pc.parts()) == sorted(parts))
    n.inherit_parts_from_other_collection(pc, ignore_clashes = True)
    c.check('all again', sorted(n.parts()) == sorted(parts))


DIRECTIONS = [('I',), ('J',), ('K',), ('IJ',), ('IJK',), ('I', 'J', 'K'), ('I', 'K'), ('I', 'J'), ('IJ', 'K'), ('J', 'K'), (None,), (None, 'K'), ('I', 'I'), ()]


@contract('C12', 'static', bounded = 'up to three permeability properties')
def static(c):
    """net to gross, porosity and permeability are found for each direction, shared only if asked for"""
    dirs = c.choice('directions', DIRECTIONS)
    titled = c.choice('titled', [False, True]) and len(dirs) > 1 and dirs[0] != dirs[1]
    rows = [('NTG', dict(property_kind = 'net to gross ratio', uom = 'm3/m3')), ('PORO', dict(property_kind = 'porosity', uom = 'm3/m3'))]
    for d in dirs:
        kw = dict(property_kind = 'rock permeability', uom = 'mD')
        if titled and d and len(d) == 1:
            rows.append(('PERM' + d, kw))
        else:
            rows.append(('perm', kw if d is None else dict(kw, facet_type = 'direction', facet = d)))
    twice = c.choice('two porosities', [False, True])
    if twice:
        rows.append(('PORO', dict(property_kind = 'porosity', uom = 'm3/m3', realization = 5)))
    model, g, pc, parts, ts, lu = collected(c, rows, (1, 2, 2), [c.np.ones((1, 2, 2)) for _ in rows])
    share = c.choice('share', [False, True])
    mode = c.choice('mode', [None, 'none', 'shared'])
    got = pc.basic_static_property_parts(share_perm_parts = share, perm_k_mode = mode)
    of = dict(zip(dirs, parts[2:]))

    def find(*names):
        for x in names:
            if x in of and dirs.count(x) == 1:
                return of[x]
            if x in of:
                return None
        return None
    i, j, k = find('I', 'IJ', 'IJK'), find('J', 'IJ', 'IJK'), find('K', 'IJK')
    if len(dirs) == 1 and dirs[0] is None:
        i = of[None]
    if share and len(dirs) == 1:
        i = j = k = parts[2]
    elif share:
        j = j or i
        i = i or j
        if mode == 'shared':
            k = k or i
    c.check('net to gross', got[0] == parts[0])
    c.check('porosity', got[1] == (None if twice else parts[1]))
    c.check('permeabilities', got[2] == i, got[3] == j, got[4] == k)
    c.check('uuids', [None if u is None else model.part_for_uuid(u) for u in pc.basic_static_property_uuids(share_perm_parts = share, perm_k_mode = mode)] == list(got))
    names = ['NTG', 'PORO', 'PERMI', 'PERMJ', 'PERMK']
    c.check('dictionary', pc.basic_static_property_parts_dict(share_perm_parts = share, perm_k_mode = mode) == dict(zip(names, got)))
    if twice:
        only = pc.basic_static_property_parts(realization = 5, share_perm_parts = share, perm_k_mode = mode)
        c.check('realization', list(only) == [None, parts[-1], None, None, None])


@contract('C12', 'vertical_permeability')
def vertical_permeability(c):
    """a permeability made for the K direction is that of the horizontal ones, times the ratio, and net to gross if asked for"""
    n = tuple(c.int('n' + x, 1) for x in 'kji')
    at = tuple(c.int(x, 0, m - 1) for x, m in zip('kji', n))
    two = c.choice('two', [False, True])
    ntg, i, j = c.array('ntg', n, lo = 0.0), c.array('pi', n, lo = 0.0), c.array('pj', n, lo = 0.0)
    kw = dict(property_kind = 'rock permeability', uom = 'mD', facet_type = 'direction')
    rows = [('NTG', dict(property_kind = 'net to gross ratio', uom = 'm3/m3')), ('KI', dict(kw, facet = 'I' if two else 'IJ'))] + ([('KJ', dict(kw, facet = 'J'))] if two else [('KK', dict(kw, property_kind = 'porosity', uom = 'm3/m3', facet = 'K'))])
    model, g, pc, parts, ts, lu = collected(c, rows, n, [ntg, i, j])
    mode = c.choice('mode', ['ratio', 'ntg', 'ntg squared'])
    ratio = c.real('ratio', 0.0)
    if not two:
        # a second permeability is needed for the directions to be looked at
        extra = c.fn(P + 'Property').from_array(model, None, 'source', 'other', g.uuid, property_kind = 'rock permeability', uom = 'mD', const_value = 1.0)
        pc = g.extract_property_collection()
        pc.add_part_to_dict(model.part_for_uuid(extra.uuid)) if model.part_for_uuid(extra.uuid) not in pc.parts() else None
    got = pc.basic_static_property_parts(perm_k_mode = mode, perm_k_ratio = ratio)
    c.check('horizontal', got[2] == parts[1], got[3] == (parts[2] if two else parts[1]))
    c.check('made', got[4] is not None, got[4] not in parts)
    u = model.uuid_for_part(got[4])
    r = c.fn(P + 'Property')(model, uuid = u)
    c.check('attributes', r.property_kind() == 'rock permeability', r.facet() == 'K', r.uom() == 'mD', r.indexable_element() == 'cells')
    k = r.array_ref()[at]
    f = ratio * (1.0 if mode == 'ratio' else ntg[at] if mode == 'ntg' else ntg[at] * ntg[at])
    if two:
        c.check('value', c.eq(k * k, i[at] * j[at] * f * f), c.Implies(f >= 0.0, lambda: k >= 0.0))
    else:
        c.check('value', c.eq(k, i[at] * f))
    c.check('others', c.eq(pc.cached_part_array_ref(parts[1])[at], i[at]), c.eq(pc.cached_part_array_ref(parts[0])[at], ntg[at]))
