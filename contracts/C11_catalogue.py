"""C11: the catalogue of the parts of a model, and how they are related"""

from vcpy.harness import contract

OR = 'resqpy.organize.'
BOUND = 'models of up to a dozen parts, titles and metadata from a short list'
TITLES = ['Fault one', 'FAULT ONE', 'fault', ' Fault one ', 'one fault', 'F']
MODES = ['is', 'starts', 'ends', 'contains', 'is not', 'does not start', 'does not end', 'does not contain']


def boundary(c, model, title, extra = None, originator = None):
    o = c.fn(OR + 'TectonicBoundaryFeature')(model, kind = 'fault', feature_name = title, extra_metadata = extra, originator = originator)
    o.create_xml(reuse = False)
    return o


def matches(title, wanted, mode, case):
    t, w = title.strip(), wanted.strip()
    if not case:
        t, w = t.upper(), w.upper()
    return {'is': t == w, 'starts': t.startswith(w), 'ends': t.endswith(w), 'contains': w in t, 'is not': t != w,
            'does not start': not t.startswith(w), 'does not end': not t.endswith(w), 'does not contain': w not in t}[mode]


def three(c):
    """a model with three features and a crs, and (object, title, extra) for each"""
    model = c.new_model()
    crs = c.fn('resqpy.crs.Crs')(model, title = 'one')
    crs.create_xml()
    titles = c.choice('titles', [('Fault one', 'FAULT ONE', 'fault'), ('fault', ' Fault one ', 'one fault'), ('F', 'one fault', 'F'),
                                 ('one', 'Fault', 'faults')])
    extras = [{'a': '1', 'b': '2'}, {'a': '1'}, None]
    out = [(crs, 'one', {})]
    for t, e in zip(titles, extras):
        out.append((boundary(c, model, t, e), t, e or {}))
    return model, out


def uuids(rows):
    return [str(r[0].uuid) for r in rows]


def same(c, got, rows):
    return got is not None and sorted(str(u) for u in got) == sorted(uuids(rows))


@contract('C11', 'titles', bounded = BOUND)
def titles(c):
    """parts are found by their titles, and those found are in the order of the catalogue"""
    model, rows = three(c)
    if c.choice('reopen', [False, True]):
        model = c.reopened(model)
    rows = [r for u in model.uuids() for r in rows if r[0].uuid == u]
    c.check('all are listed', len(rows) == 4, len(model.parts()) == 4, model.number_of_parts() >= 4)
    mode = c.choice('mode', MODES)
    for wanted in TITLES:
        for case in [False, True]:
            want = [r for r in rows if matches(r[1], wanted, mode, case)]
            kw = dict(title = wanted, title_mode = mode, title_case_sensitive = case)
            c.check('uuids', [str(u) for u in model.uuids(**kw)] == uuids(want))
            c.check('titles', [t.strip() for t in model.titles(**kw)] == [r[1].strip() for r in want])
            c.check('parts', model.parts(**kw) == [model.part_for_uuid(r[0].uuid) for r in want])
            c.check('roots', [str(x.attrib['uuid']) for x in model.roots(**kw)] == uuids(want))
            kw['obj_type'] = 'TectonicBoundaryFeature'
            want = [r for r in want if r[0] is not rows[0][0] or r[1] != 'one' or r[2]]
            want = [r for r in want if type(r[0]).__name__ == 'TectonicBoundaryFeature']
            c.check('of a type', [str(u) for u in model.uuids(**kw)] == uuids(want))


@contract('C11', 'selections', bounded = BOUND)
def selections(c):
    """parts are found by type, extra metadata, uuid and those of a list"""
    model, rows = three(c)
    if c.choice('reopen', [False, True]):
        model = c.reopened(model)
    feats = rows[1:]
    for name in ['TectonicBoundaryFeature', 'obj_TectonicBoundaryFeature']:
        c.check('type', same(c, model.uuids(obj_type = name), feats))
        c.check('type listed', sorted(model.parts_list_of_type(name)) == sorted(model.part_for_uuid(r[0].uuid) for r in feats))
    c.check('type of crs', same(c, model.uuids(obj_type = 'LocalDepth3dCrs'), rows[:1]))
    c.check('no such type', model.uuids(obj_type = 'LocalTime3dCrs') == [], model.parts(obj_type = 'TectonicBoundary') == [])
    for e in [{'a': '1'}, {'b': '2'}, {'a': '1', 'b': '2'}, {'a': '2'}, {'c': '1'}, {'a': '1', 'c': '1'}]:
        c.check('extra metadata', same(c, model.uuids(extra = e), [r for r in rows if all(r[2].get(k) == v for k, v in e.items())]))
    counts = dict((k, n) for k, n in model.parts_count_by_type())
    c.check('counts', counts.get('TectonicBoundaryFeature') == 3, counts.get('LocalDepth3dCrs') == 1)
    c.check('count of one type', model.parts_count_by_type('obj_LocalDepth3dCrs') == [('LocalDepth3dCrs', 1)])
    for r in rows:
        u = r[0].uuid
        p = model.part_for_uuid(u)
        c.check('uuid', model.uuids(uuid = u) == [u], model.uuid_is_present(u), model.parts(uuid = u) == [p], model.uuid_for_part(p) == u)
        c.check('uuid of another type', model.uuids(uuid = u, obj_type = 'WellboreFeature') == [])
        c.check('type of part', model.type_of_part(p, strip_obj = True) == (
            'LocalDepth3dCrs' if r is rows[0] else 'TectonicBoundaryFeature'), model.type_of_uuid(u) == model.type_of_part(p))
        c.check('title of part', *[t.strip() == r[1].strip() for t in (model.title(uuid = u), model.citation_title_for_part(p), model.title_for_part(p))])
    c.check('unknown uuid', model.uuids(uuid = c.fn('resqpy.olio.uuid.uuid_from_int')(7)) == [],
            model.part_for_uuid(c.fn('resqpy.olio.uuid.uuid_from_int')(7)) is None)
    k = c.choice('listed', [0, 1, 2, 3])
    listed = [model.part_for_uuid(r[0].uuid) for r in rows[:k]]
    c.check('of a list', same(c, model.uuids(parts_list = listed), rows[:k]))
    c.check('of a list and type', same(c, model.uuids(parts_list = listed, obj_type = 'TectonicBoundaryFeature'), rows[1:k]))
    for r in rows:
        c.check('of a list and uuid', same(c, model.uuids(parts_list = listed, uuid = r[0].uuid), [q for q in rows[:k] if q is r]))


@contract('C11', 'order', bounded = BOUND)
def order(c):
    """parts sorted by title, uuid or time of creation; one of several chosen by its time"""
    model, rows = three(c)
    et = c.mod('resqpy.olio.xml_et')
    times = c.choice('times', [(3, 1, 4, 2), (1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3)])
    for r, t in zip(rows, times):
        et.find_nested_tags_cast(model.root(uuid = r[0].uuid), ['Citation', 'Creation'])
        et.find_tag(et.find_tag(model.root(uuid = r[0].uuid), 'Citation'), 'Creation').text = f'202{t}-01-01T00:00:00Z'
    by_time = [r for _, r in sorted(zip(times, rows), key = lambda p: p[0])]
    c.check('oldest first', [str(u) for u in model.uuids(sort_by = 'oldest')] == uuids(by_time))
    c.check('newest first', [str(u) for u in model.uuids(sort_by = 'newest')] == uuids(by_time)[::-1])
    got = [str(u) for u in model.uuids(sort_by = 'title')]
    t = {str(r[0].uuid): r[1] for r in rows}
    c.check('by title', sorted(got) == sorted(uuids(rows)), all(t[a] <= t[b] for a, b in zip(got, got[1:])))
    got = [int(u) for u in model.uuids(sort_by = 'uuid')]
    c.check('by uuid', got == sorted(int(r[0].uuid) for r in rows))
    c.check('parts by uuid', [int(model.uuid_for_part(p)) for p in model.parts(sort_by = 'uuid')] == got)
    feats = [r for r in by_time if r is not rows[0]]
    kw = dict(obj_type = 'TectonicBoundaryFeature')
    c.check('newest', model.uuid(multiple_handling = 'newest', **kw) == feats[-1][0].uuid)
    c.check('oldest', model.uuid(multiple_handling = 'oldest', **kw) == feats[0][0].uuid,
            model.part(multiple_handling = 'oldest', **kw) == model.part_for_uuid(feats[0][0].uuid))
    c.check('title of newest', model.title(multiple_handling = 'newest', **kw).strip() == feats[-1][1].strip())
    c.check('root of oldest', str(model.root(multiple_handling = 'oldest', **kw).attrib['uuid']) == str(feats[0][0].uuid))
    c.check('first', model.uuid(multiple_handling = 'first', **kw) == model.uuids(**kw)[0])
    c.check('none', model.uuid(multiple_handling = 'none', **kw) is None)
    _, e = c.attempt(ValueError, model.uuid, **kw)
    c.check('several', e is not None)
    c.check('one', model.uuid(obj_type = 'LocalDepth3dCrs') == rows[0][0].uuid, model.uuid(obj_type = 'LocalTime3dCrs') is None)


def universe(c, model, some = None):
    """objects of several classes, some of which refer to others, and for each the names of those it refers to"""
    objs, refs = {}, {}

    def add(name, make, to = (), **kw):
        if some is not None and name not in some:
            return
        objs[name] = make()
        objs[name].create_xml(**kw)
        refs[name] = set(to)

    add('crs', lambda: c.fn('resqpy.crs.Crs')(model, title = 'crs', x_offset = 1.0))
    add('other crs', lambda: c.fn('resqpy.crs.Crs')(model, title = 'other crs', x_offset = 2.0))
    add('fault', lambda: c.fn(OR + 'TectonicBoundaryFeature')(model, kind = 'fault', feature_name = 'fault'))
    add('lone', lambda: c.fn(OR + 'WellboreFeature')(model, feature_name = 'lone'))
    add('fault interp', lambda: c.fn(OR + 'FaultInterpretation')(model, title = 'fi', tectonic_boundary_feature = objs['fault'], domain = 'depth', is_normal = True),
        ['fault'])
    add('horizon', lambda: c.fn(OR + 'GeneticBoundaryFeature')(model, kind = 'horizon', feature_name = 'horizon'))
    add('horizon interp', lambda: c.fn(OR + 'HorizonInterpretation')(model, title = 'hi', genetic_boundary_feature = objs['horizon'], domain = 'depth'),
        ['horizon'])
    if some is None or 'points' in some:
        p = c.fn('resqpy.surface.PointSet')(model, title = 'points', crs_uuid = objs['crs'].uuid, points_array = points(c))
        if 'fault interp' in objs:
            p.set_represented_interpretation_root(model.root(uuid = objs['fault interp'].uuid))
        p.write_hdf5()
        add('points', lambda: p, ['crs'] + (['fault interp'] if 'fault interp' in objs else []))
    add('datum', lambda: c.fn('resqpy.well.MdDatum')(model, crs_uuid = objs['other crs'].uuid, location = (1.0, 2.0, 3.0), title = 'datum'),
        ['other crs'])
    return objs, refs


def points(c):
    n = c.int('points', 1)
    p = c.array('p', (n, 3))
    c.ghost['p'] = p
    return p


def check_relations(c, model, objs, refs, soft = frozenset()):
    """the relations of the model are those of refs and soft, both ways, and no others"""
    by = {str(o.uuid): n for n, o in objs.items()}

    def names(us):
        return sorted(by.get(str(u), '?') for u in (us or []))

    c.check('parts', names(model.uuids()) == sorted(objs))
    for n, o in objs.items():
        to = sorted(refs[n])
        of = sorted(m for m in objs if n in refs[m])
        also = sorted(m for m in objs if frozenset([m, n]) in soft and m not in to and m not in of)
        u = o.uuid
        c.check('refers to', names(model.uuids(related_uuid = u, related_mode = 0)) == to)
        c.check('is referred to by', names(model.uuids(related_uuid = u, related_mode = 1)) == of)
        c.check('softly related', names(model.uuids(related_uuid = u, related_mode = 2)) == also)
        c.check('related', names(model.uuids(related_uuid = u)) == sorted(to + of + also))
        c.check('related, as strings', names(model.uuids(related_uuid = str(u))) == sorted(to + of + also))
        w = c.mod('resqpy.olio.uuid').uuid_from_int
        for f, want in [('referenced_by_uuid', to), ('referencing_uuid', of), ('softly_related_to_uuid', also),
                        ('related_to_uuid', sorted(to + of + also))]:
            found = [w(i) for i in (getattr(model, 'uuids_as_int_' + f)(u) or ())]
            # the link to the part standing for the hdf5 file counts as a soft one once the model is loaded
            found = [x for x in found if 'EpcExternal' not in str(model.part_for_uuid(x))]
            c.check(f, names(found) == want)
        c.check('related of a type', names(model.uuids(related_uuid = u, obj_type = 'LocalDepth3dCrs')) == [
            m for m in sorted(to + of + also) if m.endswith('crs')])
        part = model.part_for_uuid(u)
        rels = model.rels_forest[c.mod('resqpy.olio.xml_et').rels_part_name_for_part(part)][1].getroot()
        targets = [x.attrib['Target'] for x in rels]
        targets = [t for t in targets if 'EpcExternal' not in t]
        c.check('relationship part', sorted(targets) == sorted(model.part_for_uuid(objs[m].uuid) for m in to + of + also))
    nodes, edges = model.as_graph()
    c.check('graph', sorted(by[str(k)] for k in nodes) == sorted(objs),
            {frozenset(by[x] for x in e) for e in edges} == {frozenset([n, m]) for n in objs for m in refs[n]} | set(soft))


@contract('C11', 'relations', bounded = BOUND)
def relations(c):
    """parts are related which refer one to the other, or have been related; the same when the model is stored and opened again"""
    model = c.new_model()
    some = c.choice('some', [None, ['crs', 'other crs', 'fault', 'lone', 'datum'], ['lone']])
    objs, refs = universe(c, model, some)
    soft = set()
    if some != ['lone'] and c.choice('soft', [False, True]):
        for a, b in [('lone', 'fault'), ('crs', 'lone')] + ([('points', 'crs')] if some is None else []):
            model.create_reciprocal_relationship_uuids(objs[a].uuid, 'sourceObject', objs[b].uuid, 'destinationObject')
            soft.add(frozenset([a, b]))
    check_relations(c, model, objs, refs, soft)
    model.check_catalogue_dictionaries()
    m = c.reopened(model)
    check_relations(c, m, objs, refs, soft)
    m.check_catalogue_dictionaries()


@contract('C11', 'removal', bounded = BOUND)
def removal(c):
    """a part removed is in none of the lists and relations; the others are as they were"""
    model = c.new_model()
    objs, refs = universe(c, model)
    soft = set()
    if c.choice('soft', [False, True]):
        model.create_reciprocal_relationship_uuids(objs['lone'].uuid, 'sourceObject', objs['fault'].uuid, 'destinationObject')
        soft.add(frozenset(['lone', 'fault']))
    if c.choice('reopen', [False, True]):
        model = c.reopened(model)
    for n in c.choice('gone', [['lone'], ['datum'], ['points'], ['points', 'fault interp'], ['fault interp'], ['fault', 'lone'], ['other crs', 'datum']]):
        o = objs.pop(n)
        refs = {k: v - {n} for k, v in refs.items() if k != n}
        soft = {s for s in soft if n not in s}
        part = model.part_for_uuid(o.uuid)
        model.remove_part(part)
        c.check('gone', not model.uuid_is_present(o.uuid), model.part_for_uuid(o.uuid) is None, part not in model.parts(),
                part not in model.list_of_parts(only_objects = False), model.uuids(uuid = o.uuid) == [])
        c.check('not listed in the contents', all(not x.attrib.get('PartName', '').endswith(part) for x in model.main_root))
        check_relations(c, model, objs, refs, soft)


def other_model(c, model):
    """another new model, uuids being those which follow"""
    k = c.mod('resqpy.olio.uuid').test_latest_int
    m = c.new_model()
    c.replace('resqpy.olio.uuid', 'test_latest_int', k)
    return m


def closure(refs, names):
    out = set()
    todo = list(names)
    while todo:
        n = todo.pop()
        if n not in out:
            out.add(n)
            todo += refs[n]
    return out


def same_points(c, r, o, crs):
    c.check('crs of points', str(r.crs_uuid) == str(crs.uuid))
    c.check('patches', r.patch_count == 1)
    got = r.full_array_ref()
    want = c.ghost['p']
    c.check('number of points', c.length(got) == c.length(want))
    c.check('points', c.forall((c.length(want), 3), lambda i, d: c.eq(got[i, d], want[i, d])))


@contract('C11', 'copies', bounded = BOUND)
def copies(c):
    """a part copied from another model comes with all it refers to, and its arrays, once each, related as they were"""
    source = c.new_model()
    objs, refs = universe(c, source)
    if c.choice('reopen', [False, True]):
        source = c.reopened(source)
    model = other_model(c, source)
    consolidate = c.choice('consolidate', [False, True])
    want = set()
    for names in c.choice('wanted', [[['lone']], [['datum']], [['points']], [['horizon interp'], ['points']], [['points'], ['fault']], [['fault', 'other crs'], ['points', 'datum']], None]) or [None]:
        if names is None:
            model.copy_all_parts_from_other_model(source, consolidate = consolidate)
            want = set(objs)
        else:
            for n in names:
                if n not in want:
                    model.copy_uuid_from_other_model(source, objs[n].uuid, consolidate = consolidate)
                    want |= closure(refs, [n])
        some = {n: objs[n] for n in objs if n in want}
        check_relations(c, model, some, {n: refs[n] for n in some})
    model.check_catalogue_dictionaries()
    m = c.reopened(model)
    check_relations(c, m, some, {n: refs[n] for n in some})
    if 'points' in want:
        for w in [model, m]:
            same_points(c, c.fn('resqpy.surface.PointSet')(w, uuid = objs['points'].uuid), objs['points'], objs['crs'])
    check_relations(c, source, objs, refs)


@contract('C11', 'consolidation', bounded = BOUND)
def consolidation(c):
    """when a part is copied with consolidation, that which is the same as a part of the model is replaced by it, and nothing else is"""
    source = c.new_model()
    objs, refs = universe(c, source)
    model = other_model(c, source)
    equal = c.choice('equal', [['crs'], ['fault'], ['fault', 'fault interp'], ['crs', 'fault', 'fault interp'], ['other crs'], []])
    here, hrefs = {}, {}
    if equal:
        here, hrefs = universe(c, model, equal)
    if c.choice('different', [False, True]):
        o = c.fn('resqpy.crs.Crs')(model, title = 'different', x_offset = 3.0)
        o.create_xml()
        here['different'], hrefs['different'] = o, set()
    wanted = c.choice('wanted', ['points', 'datum', 'horizon interp', None])
    if wanted is None:
        model.copy_all_parts_from_other_model(source)
        new = set(objs)
    else:
        model.copy_uuid_from_other_model(source, objs[wanted].uuid)
        new = closure(refs, [wanted])
    for n in new:
        if n not in here:
            here[n], hrefs[n] = objs[n], refs[n]
    check_relations(c, model, here, hrefs)
    model.check_catalogue_dictionaries()
    m = c.reopened(model)
    check_relations(c, m, here, hrefs)
    if 'points' in new:
        same_points(c, c.fn('resqpy.surface.PointSet')(m, uuid = objs['points'].uuid), objs['points'], here['crs'])
        r = c.fn('resqpy.surface.PointSet')(m, uuid = objs['points'].uuid)
        c.check('interpretation', str(m.uuid_for_root(r.represented_interpretation_root)) == str(here['fault interp'].uuid))


@contract('C11', 'copy_with_new_uuid', bounded = BOUND)
def copy_with_new_uuid(c):
    """a copy of a part within a model has the new uuid, and refers to the same parts; the part copied is left alone"""
    model = c.new_model()
    objs, refs = universe(c, model)
    n = c.choice('copied', ['datum', 'lone', 'fault interp', 'crs'])
    u = c.mod('resqpy.olio.uuid').new_uuid()
    part = model.copy_part(objs[n].uuid, u)
    c.check('part', model.part_for_uuid(u) == part, model.type_of_part(part) == model.type_of_uuid(objs[n].uuid),
            str(model.root(uuid = u).attrib['uuid']) == str(u), model.title(uuid = u) == model.title(uuid = objs[n].uuid))
    by = {str(o.uuid): k for k, o in objs.items()}
    c.check('refers to', sorted(by[str(x)] for x in model.uuids(related_uuid = u, related_mode = 0)) == sorted(refs[n]))
    c.check('original', str(model.root(uuid = objs[n].uuid).attrib['uuid']) == str(objs[n].uuid), len(model.uuids()) == len(objs) + 1)


@contract('C11', 'supports', bounded = BOUND)
def supports(c):
    """the parts supported by a representation are found, whichever others refer to it, and those of a type which are related"""
    model = c.new_model()
    crs = c.fn('resqpy.crs.Crs')(model, title = 'crs')
    crs.create_xml()
    G = c.fn('resqpy.grid.RegularGrid')
    P = c.fn('resqpy.property.Property')

    def grid(title, n, of = None):
        g = G(model, extent_kji = (n, n, n), dxyz = (1.0, 1.0, 1.0), crs_uuid = crs.uuid, title = title, as_irregular_grid = True)
        if of is not None:
            w = c.fn('resqpy.olio.fine_coarse.FineCoarse')((n, n, n), (1, 1, 1), within_coarse_box = c.np.array([[0, 0, 0], [0, 0, 0]]))
            w.set_all_ratios_constant()
            w.set_all_proportions_equal()
            g.set_parent(of.uuid, True, w)
        g.write_hdf5()
        g.create_xml(add_cell_length_properties = False)
        return g

    def prop(g, title):
        return P.from_array(model, None, 'source', title, g.uuid, property_kind = 'length', uom = 'm', const_value = 1.0)

    a = grid('a', 1)
    order = c.choice('order', ['pqlr', 'lpqr', 'plqr', 'rlpq'])
    made = {}
    for x in order:
        if x == 'l':
            made['l'] = grid('local', 2, a)
        elif x == 'r':
            made['r'] = grid('other', 2)
            made['s'] = prop(made['r'], 's')
        else:
            made[x] = prop(a, x)
    made['t'] = prop(made['l'], 't')
    if c.choice('reopen', [False, True]):
        model = c.reopened(model)
    part = {k: model.part_for_uuid(o.uuid) for k, o in made.items()}
    part['a'] = model.part_for_uuid(a.uuid)
    for g, want in [('a', 'pq'), ('l', 't'), ('r', 's'), ('p', '')]:
        u = model.uuid_for_part(part[g])
        c.check('supported', sorted(model.parts_list_filtered_by_supporting_uuid(model.list_of_parts(), u)) == sorted(part[k] for k in want))
        c.check('related of a type', sorted(model.parts_list_related_to_uuid_of_type(u, 'ContinuousProperty')) == sorted(part[k] for k in want))
    for p, g in [('p', 'a'), ('q', 'a'), ('s', 'r'), ('t', 'l')]:
        c.check('supporting', model.part_for_uuid(model.supporting_representation_for_part(part[p])) == part[g])
    c.check('local grid', model.supporting_representation_for_part(part['l']) is None, sorted(model.uuids(related_uuid = a.uuid, related_mode = 1)) == sorted(
        made[k].uuid for k in 'pql'))
    c.check('of none', model.parts_list_filtered_by_supporting_uuid([], a.uuid) == [],
            model.parts_list_filtered_by_supporting_uuid([part['q'], part['s']], a.uuid) == [part['q']])
    c.check('of a list', sorted(model.parts_list_filtered_by_related_uuid([part['q'], part['s'], part['l']], a.uuid)) == sorted([part['q'], part['l']]))


@contract('C11', 'mutual', bounded = BOUND)
def mutual(c):
    """parts which refer to each other are each related to the other until one is removed"""
    model = c.new_model()
    objs, refs = universe(c, model, ['fault', 'fault interp', 'lone', 'crs'])
    for a, b in c.choice('links', [[('fault', 'fault interp')], [('fault', 'fault interp'), ('lone', 'fault')], [('lone', 'fault'), ('fault', 'lone')],
                                   [('lone', 'crs'), ('crs', 'fault'), ('fault', 'lone')]]):
        model.create_ref_node('Favourite', 'a title', objs[b].uuid, content_type = model.type_of_uuid(objs[b].uuid), root = model.root(uuid = objs[a].uuid))
        model.create_reciprocal_relationship_uuids(objs[a].uuid, 'destinationObject', objs[b].uuid, 'sourceObject')
        refs[a].add(b)
    model = c.reopened(model)

    def related():
        by = {str(o.uuid): n for n, o in objs.items()}
        for n, o in objs.items():
            to, of = refs[n], {m for m in objs if n in refs[m]}
            w = c.mod('resqpy.olio.uuid').uuid_from_int
            for f, want in [('referenced_by_uuid', to), ('referencing_uuid', of), ('softly_related_to_uuid', set()), ('related_to_uuid', to | of)]:
                c.check(f, sorted(by.get(str(w(i)), '?') for i in (getattr(model, 'uuids_as_int_' + f)(o.uuid) or ())) == sorted(want))
            c.check('related', sorted(by[str(u)] for u in model.uuids(related_uuid = o.uuid)) == sorted(to | of))
            part = model.part_for_uuid(o.uuid)
            rels = model.rels_forest[c.mod('resqpy.olio.xml_et').rels_part_name_for_part(part)][1].getroot()
            c.check('relationship part', sorted(x.attrib['Target'] for x in rels) == sorted(model.part_for_uuid(objs[m].uuid) for m in to | of))

    related()
    for n in c.choice('gone', [['fault interp'], ['fault'], ['lone', 'fault'], ['fault', 'crs']]):
        o = objs.pop(n)
        model.remove_part(model.part_for_uuid(o.uuid))
        refs = {k: v - {n} for k, v in refs.items() if k != n}
        related()
