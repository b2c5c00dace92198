PROP = {
    'id': 'C08',
    'title': 'Grids and properties written to a model and read back are the same',
    'statement': 'An IJK grid of any extent, made again from its uuid after write_hdf5 and create_xml, in the same model or in one opened '
                 'afresh, has the same extent, corner points (unsplit or with any split pillars), k gaps, handedness, k direction, '
                 'undefined pillars and cells, time, stratigraphic units and crs; with its pillars stored as straight lines, the same '
                 'points; the same cells inactive (for its time, where it has one); a local grid the same parent, box within it and ratios; a regular '
                 'grid the same steps and place, as a lattice, by cell lengths or as an irregular grid. A property made from an '
                 'array, or constant, is read back with the same values, kind, facet, unit, realization, time index, indexable element, '
                 'count, null value and discrete or continuous type; masked, exactly null values and those of inactive cells are out; the limits stored lie '
                 'either side of every value not missing. Arrays imported together are each as they were, boolean ones packed or not. '
                 'One of several properties or grids is read as that one and no other.',
    'over': ['inputs', 'histories'],
    'quantifier': 'every extent of grid, set of split pillars, k gaps, values of points and properties, any optional part there or not',
    'why': 'the tests write a few small grids and properties with few of the options together',
    'files': ['resqpy/grid/_create_grid_xml.py', 'resqpy/grid/_write_hdf5_from_caches.py', 'resqpy/grid/_extract_functions.py',
              'resqpy/grid/_grid.py', 'resqpy/grid/_regular_grid.py', 'resqpy/grid/_points_functions.py', 'resqpy/grid/_defined_geometry.py',
              'resqpy/property/_property.py', 'resqpy/property/property_collection.py', 'resqpy/property/_collection_create_xml.py',
              'resqpy/property/_collection_get_attributes.py', 'resqpy/fault/../olio/fine_coarse.py', 'resqpy/model/'],
    'mechanism': [('grid out', '_create_grid_xml, _write_hdf5_from_caches, make_regular_points_cached'),
                  ('grid in', '_load_from_xml, extract_grid_parent, extract_k_gaps, extract_extent_kji, extract_geometry..., extract_inactive_mask'),
                  ('local grids', 'extract_parent, FineCoarse, extract_children'),
                  ('properties out', 'Property.from_array, prepare_import, write_hdf5, create_xml'),
                  ('properties in', 'Property._load_from_xml, array_ref, cached_part_array_ref, masked_array')],
    'observe_at': ['return values', 'object attributes'],
    'note': 'Models of h5py, zipfile and the lxml tree stand in for the libraries (what was written is what is read); narrowing to 32 bits is not '
            'modelled. Local grids with uneven ratios are bounded.',
    'design': ('As C07, for grids: extents, points, split pillar data, gaps, masks and property arrays are symbolic; the real writers and readers are executed '
               'and every array compared at an arbitrary element, with that of another grid or property stored beside it. Invariants for the loops over layers '
               'and pillars. Uneven local grid ratios are checked for a few lists (bounded).'),
}
PROP['files'] = [f for f in PROP['files'] if '..' not in f] + ['resqpy/olio/fine_coarse.py']
