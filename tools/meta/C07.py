PROP = {
    'id': 'C07',
    'title': 'Objects written to a model and read back are the same',
    'statement': 'An object which is made, written (write_hdf5, create_xml) and made again from its uuid, in the same model or in one '
                 'opened afresh on the stored epc, has what it had: title, originator and extra metadata as given; for Crs the '
                 'axes, units, offsets and rotation; PointSet its patches; Polyline and PolylineSet their points and which are closed; Surface '
                 'its triangles, points and role; Mesh (explicit, regular with or without depths, depths on another mesh) and TriMesh '
                 'their points; features, interpretations, RockFluidUnitFeature, stratigraphic units, ranks and columns their attributes, and the '
                 'order and contacts of the units; MdDatum its location and reference; Trajectory its measured depths, points and tangents; '
                 'DeviationSurvey its stations and units; WellboreFrame its measured depths; WellboreMarkerFrame its markers; StringLookup its strings, '
                 'by key, as given or set since; PropertyKind its parent, unit and naming system. References '
                 'between objects (crs, datum, trajectory, feature, interpretation) are to the same ones. is_equivalent, where there '
                 'is one, holds of an object and the one read back, and not of one which differs in such an attribute.',
    'over': ['inputs', 'histories'],
    'quantifier': 'every number of points, patches, triangles, stations and markers, every value, any optional part there or not',
    'why': 'the tests write a few small objects, mostly with the default options, and compare some of the attributes',
    'files': ['resqpy/crs.py', 'resqpy/surface/_pointset.py', 'resqpy/lines/_polyline.py', 'resqpy/lines/_polyline_set.py',
              'resqpy/surface/_surface.py', 'resqpy/surface/_tri_mesh.py', 'resqpy/surface/_mesh.py', 'resqpy/surface/_triangulated_patch.py',
              'resqpy/organize/', 'resqpy/strata/', 'resqpy/well/_trajectory.py', 'resqpy/well/_md_datum.py',
              'resqpy/well/_deviation_survey.py', 'resqpy/well/_wellbore_frame.py', 'resqpy/well/_wellbore_marker_frame.py',
              'resqpy/property/string_lookup.py', 'resqpy/property/property_kind.py', 'resqpy/olio/base.py', 'resqpy/model/', 'resqpy/olio/write_hdf5.py', 'resqpy/olio/xml_et.py'],
    'mechanism': [('each class', '__init__, _load_from_xml, write_hdf5, create_xml, is_equivalent'),
                  ('common part', 'BaseResqpy, create_citation, append_extra_metadata'),
                  ('model', 'store_epc, load_epc, create_hdf5_dataset_ref, h5_array_element, crs and reference nodes'),
                  ('arrays', 'H5Register.register_dataset, write')],
    'observe_at': ['return values', 'object attributes'],
    'note': 'Models of h5py, zipfile and the lxml tree stand in for the libraries (what was written is what is read); narrowing to 32 bits is not modelled.',
    'design': ('One contract per class: an object of arbitrary attributes and array lengths is made in a new model, written by the real '
               'methods, the model stored and opened again, and the object made from its uuid; every attribute is compared, and is_equivalent. '
               'The XML trees, the parts catalogue, the HDF5 paths and the readers are all the real code; only the libraries are stand-ins, '
               'so a path, tag, unit, flag, index or cast that differs between writer and reader fails a named obligation for arbitrary content.'),
}
