"""C07: wells which are written to a model are what is read back"""

from vcpy.harness import contract
from C07_persistence import same_citation, read, rows, same_rows, a_crs, EM

W = 'resqpy.well.'


def a_datum(c, model, crs, title = 'a <datum>', **kw):
    at = tuple(c.real(f'datum{x}') for x in range(3))
    d = c.fn(W + 'MdDatum')(model, crs_uuid = crs.uuid, location = at, title = title, originator = 'someone', extra_metadata = EM, **kw)
    d.create_xml()
    return d, at


def a_column(c, name, n, **kw):
    return c.array(name, (n,), float, **kw)


@contract('C07', 'md_datum')
def md_datum(c):
    """a measured depth datum read back has the same location, reference and crs"""
    model = c.new_model()
    a_crs(c, model, z_inc_down = False)
    crs = a_crs(c, model)
    ref = c.choice('reference', ['mean sea level', 'kelly bushing', 'ground level'])
    d, at = a_datum(c, model, crs, md_reference = ref)
    for r in read(c, model, W + 'MdDatum', d):
        same_citation(c, d, r)
        c.check('location', *[r.location[x] == at[x] for x in range(3)])
        c.check('reference and crs', r.md_reference == ref, str(r.crs_uuid) == str(crs.uuid))


def an_interpretation(c, model, title = 'a well'):
    f = c.fn('resqpy.organize.WellboreFeature')(model, feature_name = title)
    f.create_xml()
    i = c.fn('resqpy.organize.WellboreInterpretation')(model, title = title, wellbore_feature = f, is_drilled = True)
    i.create_xml()
    return i


def a_trajectory(c, model, crs, datum, interp = None, n = None, tangents = False, title = 'a <well>'):
    """trajectory of any number of knots; its arrays, and any one of the knots"""
    p, at = rows(c, 'p', (3,), lo = 2)
    mds = a_column(c, 'mds', p.shape[0])
    t = c.fn(W + 'Trajectory')(model, crs_uuid = crs.uuid, md_datum = datum, length_uom = 'ft', md_domain = 'driller', represented_interp = interp,
                               well_name = title, mds = mds, control_points = p, originator = 'someone', extra_metadata = EM)
    tv = None
    if tangents:
        tv = c.array('tv', p.shape)
        t.tangent_vectors = tv
    t.write_hdf5()
    t.create_xml()
    return t, p, mds, tv, at


def same_trajectory(c, r, crs, datum, interp, p, mds, tv, at):
    n = p.shape[0]
    c.check('crs and datum', str(r.crs_uuid) == str(crs.uuid), str(r.md_datum.uuid) == str(datum.uuid))
    c.check('units and domain', r.md_uom == 'ft', r.md_domain == 'driller')
    c.check('ends', r.start_md == mds[0], r.finish_md == mds[n - 1])
    c.check('knots', r.knot_count == n, r.line_kind_index == 5)
    same_rows(c, 'control points', r.control_points, p, at)
    c.check('measured depths', r.measured_depths.shape == (n,), r.measured_depths[at] == mds[at])
    if tv is None:
        c.check('tangents', r.tangent_vectors is None)
    else:
        same_rows(c, 'tangents', r.tangent_vectors, tv, at)
    c.check('interpretation', (r.wellbore_interpretation is None) if interp is None else str(r.wellbore_interpretation.uuid) == str(interp.uuid))


@contract('C07', 'trajectory')
def trajectory(c):
    """a trajectory read back has the same measured depths, points, tangents, datum and interpretation"""
    model = c.new_model()
    crs = a_crs(c, model)
    datum, _ = a_datum(c, model, crs)
    interp = an_interpretation(c, model) if c.choice('interpretation', [False, True]) else None
    t, p, mds, tv, at = a_trajectory(c, model, crs, datum, interp, tangents = c.choice('tangents', [False, True]))
    for r in read(c, model, W + 'Trajectory', t):
        same_citation(c, t, r)
        same_trajectory(c, r, crs, datum, interp, p, mds, tv, at)


@contract('C07', 'deviation_survey')
def deviation_survey(c):
    """a deviation survey read back has the same stations, units of angles, datum and interpretation"""
    model = c.new_model()
    crs = a_crs(c, model)
    datum, _ = a_datum(c, model, crs)
    interp = an_interpretation(c, model) if c.choice('interpretation', [False, True]) else None
    n = c.int('n', 1)
    at = c.int('at', 0, n - 1)
    mds, az, inc = [a_column(c, x, n) for x in ('mds', 'az', 'inc')]
    first = tuple(c.real(f'first{x}') for x in range(3))
    uom, final = c.choice('uom', ['dega', 'rad']), c.choice('final', [False, True])
    o = c.fn(W + 'DeviationSurvey')(model, title = 'a <survey>', represented_interp = interp, md_datum = datum, md_uom = 'ft', angle_uom = uom,
                                    measured_depths = mds, azimuths = az, inclinations = inc, station_count = n, first_station = first,
                                    is_final = final, originator = 'someone', extra_metadata = EM)
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, W + 'DeviationSurvey', o):
        same_citation(c, o, r)
        c.check('stations', r.station_count == n)
        for a, b in ((r.measured_depths, mds), (r.azimuths, az), (r.inclinations, inc)):
            c.check('arrays', a.shape == (n,), a[at] == b[at])
        c.check('first station', *[r.first_station[x] == first[x] for x in range(3)])
        c.check('units', r.md_uom == 'ft', r.angles_in_degrees is (uom == 'dega'))
        c.check('final', r.is_final is final)
        c.check('datum', r.md_datum is not None, r.md_datum is not None and str(r.md_datum.uuid) == str(datum.uuid))
        i = r.wellbore_interpretation
        c.check('interpretation', (i is None) if interp is None else (i is not None and str(i.uuid) == str(interp.uuid)))


@contract('C07', 'wellbore_frame')
def wellbore_frame(c):
    """a wellbore frame read back has the same measured depths, trajectory and interpretation"""
    model = c.new_model()
    crs = a_crs(c, model)
    datum, _ = a_datum(c, model, crs)
    interp = an_interpretation(c, model) if c.choice('interpretation', [False, True]) else None
    t, p, mds, tv, at = a_trajectory(c, model, crs, datum)
    n = c.int('n', 2)
    k = c.int('k', 0, n - 1)
    nodes = a_column(c, 'nodes', n)
    o = c.fn(W + 'WellboreFrame')(model, trajectory = t, mds = nodes, represented_interp = interp, title = 'a <frame>', originator = 'someone',
                                  extra_metadata = EM)
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, W + 'WellboreFrame', o):
        same_citation(c, o, r)
        c.check('nodes', r.node_count == n, r.node_mds.shape == (n,), r.node_mds[k] == nodes[k])
        same_trajectory(c, r.trajectory, crs, datum, None, p, mds, tv, at)
        c.check('crs', str(r.extract_crs_uuid()) == str(crs.uuid))
        i = r.wellbore_interpretation
        c.check('interpretation', (i is None) if interp is None else (i is not None and str(i.uuid) == str(interp.uuid)))


@contract('C07', 'well_markers')
def well_markers(c):
    """a wellbore marker frame read back has the same markers, in the same order"""
    model = c.new_model()
    crs = a_crs(c, model)
    datum, _ = a_datum(c, model, crs)
    t, *_ = a_trajectory(c, model, crs, datum)
    F = c.fn(W + 'WellboreMarkerFrame')
    types = c.choice('types', [['horizon'], ['fault', 'horizon'], ['gas oil contact', 'horizon', 'oil up to'], ['geobody', 'fault']])
    n = len(types)
    mds = a_column(c, 'marks', n)
    o = F(model, trajectory_uuid = t.uuid, title = 'some <markers>', originator = 'someone', extra_metadata = EM)
    o.node_count = n
    o.node_mds = mds
    o.marker_list = []
    uuids = []
    for i, k in enumerate(types):
        u = F._create_feature_and_interpretation(model, k, f'{k} {i}') if k in ('horizon', 'fault', 'geobody') else None
        uuids.append(u)
        o.marker_list.append(c.fn(W + 'WellboreMarker')(model, o, i, marker_type = k, interpretation_uuid = u, title = f'marker <{i}>',
                                                        originator = 'someone', extra_metadata = {'i': i}))
    o.write_hdf5()
    o.create_xml()
    for r in read(c, model, W + 'WellboreMarkerFrame', o):
        same_citation(c, o, r)
        c.check('trajectory', str(r.trajectory.uuid) == str(t.uuid))
        c.check('count', r.node_count == n, len(r.marker_list) == n, r.node_mds.shape == (n,))
        for i, k in enumerate(types):
            m = r.find_marker_from_index(i)
            c.check('marker', m.marker_type == k, m.title == f'marker <{i}>', m.extra_metadata == {'i': str(i)}, m.marker_index == i)
            c.check('marker: interpretation', str(m.interpretation_uuid) == str(uuids[i]))
            c.check('marker: uuid', str(m.uuid) == str(o.marker_list[i].uuid))
            c.check('marker: depth', r.node_mds[i] == mds[i])
            if uuids[i] is not None:
                c.check('found', r.find_marker_index_from_interp(uuids[i]) == i)
