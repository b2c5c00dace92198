"""C07: features, interpretations and strata which are written to a model are what is read back"""

from vcpy.harness import contract
from C07_persistence import same_citation, read, EM

OR = 'resqpy.organize.'
ST = 'resqpy.strata.'

# class: attributes which vary, and their values; the first of each is for the object as first made
FEATURES = {
    'BoundaryFeature': {},
    'FluidBoundaryFeature': dict(kind = ['gas oil contact', 'seal']),
    'FrontierFeature': {},
    'GeneticBoundaryFeature': dict(kind = ['horizon', 'geobody boundary'], absolute_age = [None, ('2020-01-01T00:00:00Z', None),
                                                                                        ('2020-01-01T00:00:00Z', 'years')]),
    'GeobodyFeature': {},
    'GeologicUnitFeature': {},
    'OrganizationFeature': dict(organization_kind = ['earth model', 'structural']),
    'TectonicBoundaryFeature': dict(kind = ['fault', 'fracture']),
    'WellboreFeature': {},
}


def number(c, values, name):
    """values, with numbers in place of names of numbers"""
    def of(v):
        if v == 'years':
            return c.int('years' + name, -10**9, 10**9)
        if v == 'number':
            return c.real('number' + name, 1.0, 100.0)
        return tuple(of(x) for x in v) if isinstance(v, tuple) else v
    return {k: of(v) for k, v in values.items()}


def variants(table):
    """pairs of settings of attributes: the first values, and those with one differing"""
    base = {k: v[0] for k, v in table.items()}
    return [(base, None)] + [(base, {**base, k: v}) for k, vs in table.items() for v in vs[1:]]


def same_value(c, a, b):
    if isinstance(b, tuple):
        return c.And(isinstance(a, tuple), len(a) == len(b), *[same_value(c, x, y) for x, y in zip(a, b)])
    if b is None or isinstance(b, (str, bool)):
        return a == b
    return False if a is None else a == b


def made(c, model, cls, pair, name, title = 'a <title>', title_key = 'feature_name', originator = 'someone', **kw):
    """objects made with each of the pair of settings, and those settings; both created in the model, neither replacing the other"""
    out = []
    for n, p in enumerate(pair):
        if p is not None:
            p = number(c, p, f'{name}{n}')
            o = c.fn(cls)(model, extra_metadata = EM, **({'originator': originator} if originator else {}), **({title_key: title} if title_key else {}), **p, **kw)
            o.create_xml()
            out.append((o, p))
    if len(out) == 2:
        c.check('objects which differ are not taken to be the same', out[0][0].uuid != out[1][0].uuid, not out[0][0] == out[1][0])
    return out


def read_back(c, model, cls, objects, more = lambda r: None, differ = ()):
    m = c.reopened(model)
    for o, p in objects:
        for r in (c.fn(cls)(model, uuid = o.uuid), c.fn(cls)(m, uuid = o.uuid)):
            same_citation(c, o, r)
            for k, v in p.items():
                c.check(k, same_value(c, getattr(r, k), v))
            more(r)


@contract('C07', 'features')
def features(c):
    """a feature read back has the same name, kind and other attributes; one which differs is not taken to be the same"""
    cls = c.choice('class', sorted(FEATURES))
    v = variants(FEATURES[cls])
    pair = v[c.choice('variant', list(range(len(v))))] if len(v) > 1 else v[0]
    model = c.new_model()
    os = made(c, model, OR + cls, pair, cls)
    read_back(c, model, OR + cls, os, lambda r: c.check('name', r.feature_name == 'a <title>'))
    o, p = os[-1]
    again = c.fn(OR + cls)(model, feature_name = 'a <title>', extra_metadata = EM, **p)
    again.create_xml()
    c.check('an equivalent feature is used again', str(again.uuid) == str(o.uuid))
    other = c.fn(OR + cls)(model, feature_name = 'another title', extra_metadata = EM, **p)
    other.create_xml()
    c.check('a feature of another name is not', str(other.uuid) != str(o.uuid))
    third = c.fn(OR + cls)(model, feature_name = 'a <title>', extra_metadata = {'k': 'other'}, **p)
    third.create_xml()
    c.check('nor one with other extra metadata', str(third.uuid) != str(o.uuid))


@contract('C07', 'rock_fluid_unit')
def rock_fluid_unit(c):
    """a rock fluid unit read back has the same phase and boundaries"""
    model = c.new_model()
    B, cls = c.fn(OR + 'BoundaryFeature'), OR + 'RockFluidUnitFeature'
    top, base = [B(model, feature_name = t) for t in ('top', 'base')]
    top.create_xml(), base.create_xml()
    for pair in variants(dict(phase = ['gas cap', 'seal'])):
        os = made(c, model, cls, pair, 'rfu', top_boundary_feature = top, base_boundary_feature = base)
        read_back(c, model, cls, os, lambda r: c.check('boundaries', str(r.top_boundary_feature.uuid) == str(top.uuid),
                                                       str(r.base_boundary_feature.uuid) == str(base.uuid)))


# class of interpretation: (class of its feature, how the feature is made, name of the argument and attribute, attributes which vary)
INTERPRETATIONS = {
    'BoundaryFeatureInterpretation': ('BoundaryFeature', {}, 'boundary_feature', dict(domain = ['depth', 'time'])),
    'EarthModelInterpretation': ('OrganizationFeature', dict(organization_kind = 'earth model'), 'organization_feature',
                                 dict(domain = ['depth', 'mixed'])),
    'FaultInterpretation': ('TectonicBoundaryFeature', dict(kind = 'fault'), 'tectonic_boundary_feature',
                            dict(domain = ['depth', 'time'], maximum_throw = [None, 'number'], mean_azimuth = [None, 'number'],
                                 mean_dip = [None, 'number'])),
    'GeobodyBoundaryInterpretation': ('GeneticBoundaryFeature', dict(kind = 'geobody boundary'), 'genetic_boundary_feature',
                                      dict(domain = ['depth', 'time'])),
    'GeobodyInterpretation': ('GeobodyFeature', {}, 'geobody_feature',
                              dict(domain = ['depth', 'time'], composition = [None, 'organic'], geobody_shape = [None, 'reef'])),
    'HorizonInterpretation': ('GeneticBoundaryFeature', dict(kind = 'horizon'), 'genetic_boundary_feature',
                              dict(domain = ['depth', 'time'], sequence_stratigraphy_surface = [None, 'flooding'])),
    'WellboreInterpretation': ('WellboreFeature', {}, 'wellbore_feature', dict(is_drilled = [False, True], domain = ['depth', 'mixed'])),
}


@contract('C07', 'interpretations')
def interpretations(c):
    """an interpretation read back has the same feature, domain and other attributes; one which differs is not taken to be the same"""
    cls = c.choice('class', sorted(INTERPRETATIONS))
    fcls, fkw, arg, table = INTERPRETATIONS[cls]
    v = variants(table)
    pair = v[c.choice('variant', list(range(1, len(v))))]
    model = c.new_model()
    f = c.fn(OR + fcls)(model, feature_name = 'a feature', **fkw)
    f.create_xml()
    kw = {arg: f}
    listric = None
    if cls == 'FaultInterpretation':
        listric = c.choice('listric', [None, False, True])
        kw.update(is_normal = listric is None, is_listric = listric)
    relations = None
    if cls in ('HorizonInterpretation', 'GeobodyBoundaryInterpretation'):
        relations = c.choice('relations', [None, ['conformable'], ['unconformable above', 'conformable']])
        kw['boundary_relation_list'] = relations
    if cls == 'GeobodyInterpretation':
        kw['material_implacement'] = 'autochtonous'
    os = made(c, model, OR + cls, pair, cls, title_key = 'title', **kw)

    def more(r):
        c.check('feature', str(getattr(r, arg).uuid) == str(f.uuid), getattr(r, arg).feature_name == 'a feature')
        if cls == 'FaultInterpretation':
            c.check('listric', r.is_listric is listric, r.is_normal == (listric is None))
        if 'boundary_relation_list' in kw:
            c.check('relations', r.boundary_relation_list == relations)
        if cls == 'GeobodyInterpretation':
            c.check('implacement', r.implacement == 'autochtonous')
    read_back(c, model, OR + cls, os, more)


@contract('C07', 'generic_interpretation')
def generic_interpretation(c):
    """a generic interpretation of any feature is read back with the same feature and domain"""
    model = c.new_model()
    cls = OR + 'GenericInterpretation'
    f = c.fn(OR + 'BoundaryFeature')(model, feature_name = 'a feature')
    f.create_xml()
    pair = variants(dict(domain = ['depth', 'time']))[1]
    os = made(c, model, cls, pair, 'g', title_key = 'title', feature_uuid = f.uuid)
    read_back(c, model, cls, os, lambda r: c.check('feature', str(r.feature_uuid) == str(f.uuid)))
    o = os[0][0]
    again = c.fn(cls)(model, title = 'a <title>', feature_uuid = f.uuid, extra_metadata = EM, domain = 'depth')
    again.create_xml()
    c.check('an equivalent interpretation is used again', str(again.uuid) == str(o.uuid))


@contract('C07', 'strata')
def strata(c):
    """a stratigraphic column read back has the same ranks, units, in order, and contacts"""
    model = c.new_model()
    n = c.choice('units', [1, 2, 3])
    earth = c.fn(OR + 'OrganizationFeature')(model, feature_name = 'earth', organization_kind = 'earth model')
    earth.create_xml()
    units, want = [], []
    for i in range(n):
        f = c.fn(ST + 'StratigraphicUnitFeature')(model, title = f'feature {i}')
        f.create_xml()
        kw = [dict(composition = 'carbonate', deposition_mode = 'parallel to top', min_thickness = c.real('min', 0.0), max_thickness = c.real('max', 0.0),
                   thickness_uom = 'm', domain = 'time'),
              dict(composition = 'intrusive clay', material_implacement = 'allochtonous', max_thickness = c.real('max1', 0.0), thickness_uom = 'ft'),
              dict(domain = 'mixed')][i]
        u = c.fn(ST + 'StratigraphicUnitInterpretation')(model, title = f'unit {i}', stratigraphic_unit_feature = f, extra_metadata = EM, **kw)
        u.create_xml()
        units.append(u)
        want.append((f, kw))
    order = c.choice('order', [[0], [0, 1], [1, 0], [0, 1, 2], [2, 0, 1]])
    c.assume(len(order) == n)
    index = c.int('rank index', 0, 9)
    rank = c.fn(ST + 'StratigraphicColumnRank')(model, domain = 'depth', rank_index = index, earth_model_feature_uuid = earth.uuid,
                                                strata_uuid_list = [units[i].uuid for i in order], title = 'a rank', extra_metadata = EM)
    horizons = []
    if n > 1:
        for i in range(n - 1):
            g = c.fn(OR + 'GeneticBoundaryFeature')(model, feature_name = f'horizon {i}', kind = 'horizon')
            g.create_xml()
            h = c.fn(OR + 'HorizonInterpretation')(model, title = f'horizon {i}', genetic_boundary_feature = g)
            h.create_xml()
            horizons.append(h)
        rank.set_contacts_from_horizons([h.uuid for h in horizons], older_contact_mode = 'erosion')
    rank.create_xml()
    col = c.fn(ST + 'StratigraphicColumn')(model, rank_uuid_list = [rank.uuid], title = 'a column', extra_metadata = EM)
    col.create_xml()
    for r in read(c, model, ST + 'StratigraphicColumn', col):
        same_citation(c, col, r)
        ranks = list(r.iter_ranks())
        c.check('one rank', len(ranks) == 1)
        s = ranks[0]
        same_citation(c, rank, c.fn(ST + 'StratigraphicColumnRank')(r.model, uuid = rank.uuid))
        c.check('rank', str(s.uuid) == str(rank.uuid), s.index == index, s.domain == 'depth', str(s.feature_uuid) == str(earth.uuid))
        us = list(s.iter_units())
        c.check('units', [str(u.uuid) for u in us] == [str(units[i].uuid) for i in order])
        for k, (u, i) in enumerate(zip(us, order)):
            f, kw = want[i]
            c.check('unit by index', s.unit_for_unit_index(k) is u)
            c.check('unit', u.title == f'unit {i}', str(u.stratigraphic_unit_feature.uuid) == str(f.uuid), u.composition == kw.get('composition'),
                    u.material_implacement == kw.get('material_implacement'), u.deposition_mode == kw.get('deposition_mode'),
                    u.thickness_uom == kw.get('thickness_uom'), u.domain == kw.get('domain', 'depth'), u.extra_metadata == units[i].extra_metadata)
            c.check('thicknesses', same_value(c, u.min_thickness, kw.get('min_thickness')), same_value(c, u.max_thickness, kw.get('max_thickness')))
        cs = list(s.iter_contacts())
        c.check('contacts', len(cs) == n - 1)
        for k, x in enumerate(cs):
            c.check('contact', x.index == k, str(x.part_of_uuid) == str(horizons[k].uuid), str(x.subject_uuid) == str(units[order[k]].uuid),
                    str(x.direct_object_uuid) == str(units[order[k + 1]].uuid), x.subject_contact_side == 'older',
                    x.direct_object_contact_side == 'younger', x.subject_contact_mode == 'erosion', x.direct_object_contact_mode is None,
                    x.verb == 'stops at', x.contact_relationship == 'stratigraphic unit to stratigraphic unit')
