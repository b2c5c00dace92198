"""C07: string lookups, property kinds and equivalence of datums and units"""

from vcpy.harness import contract
from C07_persistence import same_citation, read, a_crs, EM
from C07_organize import variants, made, read_back

P = 'resqpy.property.'
W = 'resqpy.well.'
ST = 'resqpy.strata.'


def same_lookup(c, r, d):
    keys = sorted(d)
    c.check('limits', r.min_index == keys[0], r.max_index == keys[-1])
    c.check('dictionary', r.as_dict() == d)
    c.check('strings', all(r.get_string(k) == d.get(k) for k in range(keys[0] - 3, min(keys[-1] + 4, keys[0] + 130))),
            all(r.get_string(k) == d[k] for k in keys))
    c.check('keys', all(d.get(r.get_index_for_string(s)) == s for s in d.values()), r.get_index_for_string('absent') is None)
    c.check('sorted', [s for s in r.get_list() if s is not None] == [d[k] for k in keys])


@contract('C07', 'string_lookup', bounded = 'seven sets of keys, and one string set')
def string_lookup(c):
    """a string lookup has the strings it was made with or set since, and is read back the same"""
    model = c.new_model()
    d = c.choice('strings', [{0: 'sand', 1: 'shale & silt'}, {5: 'a'}, {-3: 'a', 4: '<b>'}, {2: 'b', 0: 'a', 7: 'c'}, {1000: 'x', 2: 'y'},
                             {k: f's{k}' for k in range(1, 61)}, {k: f's{k}' for k in range(0, 140, 2)}])
    L = c.fn(P + 'StringLookup')
    o = L(model, int_to_str_dict = d, title = 'a <title>', originator = 'someone', extra_metadata = EM)
    d = dict(d)
    same_lookup(c, o, d)
    same = L(model, int_to_str_dict = d, title = 'a <title>', extra_metadata = EM)
    c.check('equivalent', o.is_equivalent(same), same.is_equivalent(o), o == same)
    k = c.choice('set', [None, -5, 0, 1, 3, 70, 2000])
    if k is not None:
        o.set_string(k, 'set')
        d[k] = 'set'
        same_lookup(c, o, d)
        c.check('not equivalent', not o.is_equivalent(same), not same.is_equivalent(o))
    o.create_xml()
    for r in read(c, model, P + 'StringLookup', o):
        same_citation(c, o, r)
        same_lookup(c, r, d)
        c.check('list', r.get_list() == o.get_list(), r.length() == o.length())
    again = L(model, int_to_str_dict = d, title = 'a <title>', extra_metadata = EM)
    again.create_xml()
    c.check('used again', str(again.uuid) == str(o.uuid))
    other = L(model, int_to_str_dict = {**d, 3: 'other'}, title = 'a <title>', extra_metadata = EM)
    other.create_xml()
    c.check('another is not', str(other.uuid) != str(o.uuid))


@contract('C07', 'property_kind', bounded = 'two values of each attribute')
def property_kind(c):
    """a property kind is read back with the same parent kind, unit and naming system; one which differs is not taken to be the same"""
    v = variants(dict(parent_property_kind = ['continuous', 'discrete'], example_uom = ['m', 'ft'], is_abstract = [False, True],
                      naming_system = ['urn:resqml:bp.com:resqpy', 'urn:other']))
    pair = v[c.choice('variant', list(range(len(v))))]
    model = c.new_model()
    os = made(c, model, P + 'PropertyKind', pair, 'kind', title_key = 'title')
    m = c.reopened(model)
    for o, p in os:
        for r in (c.fn(P + 'PropertyKind')(model, uuid = o.uuid), c.fn(P + 'PropertyKind')(m, uuid = o.uuid)):
            same_citation(c, o, r)
            c.check('attributes', r.parent_kind == p['parent_property_kind'], r.example_uom == p['example_uom'],
                    r.is_abstract == p['is_abstract'], r.naming_system == p['naming_system'])
            c.check('equivalent', r.is_equivalent(o), o.is_equivalent(r))
    again = c.fn(P + 'PropertyKind')(model, title = 'a <title>', extra_metadata = EM, **os[-1][1])
    again.create_xml()
    c.check('used again', str(again.uuid) == str(os[-1][0].uuid))


@contract('C07', 'datum_equivalence')
def datum_equivalence(c):
    """datums are equivalent when at the same place, in the same crs, with the same reference, and not otherwise"""
    model = c.new_model()
    crs = a_crs(c, model)
    other_crs = a_crs(c, model, z_inc_down = False)
    ax = c.choice('axis', [None, 0, 1, 2])
    p = [c.real(f'p{x}', -1000.0, 1000.0) for x in range(3)]
    q = list(p)
    if ax is not None:
        q[ax] = c.real('q', -1000.0, 1000.0)
        c.assume(c.Or(q[ax] - p[ax] > 0.1, p[ax] - q[ax] > 0.1))
    D = c.fn(W + 'MdDatum')
    a = D(model, crs_uuid = crs.uuid, location = tuple(p), md_reference = 'kelly bushing', title = 'a')
    v = c.choice('variant', ['same', 'reference', 'crs'])
    b = D(model, crs_uuid = (other_crs if v == 'crs' else crs).uuid, location = tuple(q),
          md_reference = 'ground level' if v == 'reference' else 'kelly bushing', title = 'a')
    want = ax is None and v == 'same'
    c.check('equivalent', a.is_equivalent(b) == want, b.is_equivalent(a) == want, (a == b) == want)
    c.check('of another class', not a.is_equivalent(crs), not a.is_equivalent(None))


UNITS = {
    'GeologicUnitInterpretation': dict(domain = ['depth', 'time'], composition = [None, 'carbonate'], material_implacement = [None, 'allochtonous']),
    'StratigraphicUnitInterpretation': dict(domain = ['depth', 'time'], composition = [None, 'carbonate'],
                                            material_implacement = [None, 'allochtonous'],
                                            deposition_mode = ['parallel to top', 'proportional between top and bottom']),
}


@contract('C07', 'units', bounded = 'two values of each attribute')
def units(c):
    """geologic and stratigraphic units are read back with the same attributes; one which differs is not taken to be the same"""
    cls = c.choice('class', sorted(UNITS))
    v = variants(UNITS[cls])
    pair = v[c.choice('variant', list(range(1, len(v))))]
    model = c.new_model()
    strat = cls.startswith('Strat')
    f = c.fn(ST + ('StratigraphicUnitFeature' if strat else 'GeologicUnitFeature') if strat else 'resqpy.organize.GeologicUnitFeature')(
        model, **({'title': 'a feature'} if strat else {'feature_name': 'a feature'}))
    f.create_xml()
    arg = 'stratigraphic_unit_feature' if strat else 'geologic_unit_feature'
    os = made(c, model, ST + cls, pair, cls, title_key = 'title', originator = None, **{arg: f})
    read_back(c, model, ST + cls, os, lambda r: c.check('feature', str(getattr(r, arg).uuid) == str(f.uuid)))
    g = type(f)(model, **({'title': 'another'} if strat else {'feature_name': 'another'}))
    g.create_xml()
    other = c.fn(ST + cls)(model, title = 'a <title>', extra_metadata = EM, **{arg: g}, **os[-1][1])
    other.create_xml()
    c.check('of another feature', str(other.uuid) != str(os[-1][0].uuid))
