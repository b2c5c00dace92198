PROP = {
    'id': 'C10',
    'title': 'Corner points of grid cells',
    'statement': 'The corner points of a cell are the points at the top and base of its layer on the pillars (or the split '
                 'coordinate lines of its column) at its corners, whether got for one cell or for all, cached or not; a column '
                 'uses a split line exactly when the split pillar data lists it for that column. What is derived from them '
                 'agrees: horizon points, depths of corners, coordinate line ends, cell centres, unsplit points, cross section '
                 'points, trilinear interpolation within a cell, areal interpolation, bounding boxes. A face between columns is '
                 'split exactly when the columns do not share both pillars; the outer faces and defined pillars and cells are '
                 'those the geometry says; arguments and arrays returned earlier are left alone.',
    'quantifier': 'every extent of grid, set of split pillars, k gaps, cell and order of asking',
    'why': 'the tests use a few small grids, mostly unsplit and without gaps, and look at some of the cells',
    'files': ['resqpy/grid/_points_functions.py', 'resqpy/grid/_pillars.py', 'resqpy/grid/_defined_geometry.py',
              'resqpy/grid/_grid.py', 'resqpy/grid/_face_functions.py'],
    'mechanism': [('corner points', 'corner_points, point_raw, points_ref, create_column_pillar_mapping'),
                  ('horizons and depths', 'split_horizon_points, horizon_points, z_corner_point_depths, coordinate_line_end_points'),
                  ('centres and interpolation', 'centre_point, centre_point_list, interpolated_points, point_areally'),
                  ('cross sections and unsplit points', 'unsplit_points_ref, unsplit_x_section_points, x_section_corner_points'),
                  ('faults', 'split_column_faces'),
                  ('boxes', 'bounding_box, composite_bounding_box, xyz_box'),
                  ('defined geometry', 'geometry_defined_for_all_pillars, geometry_defined_for_all_cells')],
    'note': 'Points arrays are taken as loaded and the geometry as defined, where the evidence says so.',
    'design': ('Grids of any extent with any k gaps and set of split pillars; oracle: cell (k, j, i) corner (kp, jp,'
              ' ip) is points[k_raw[k] + kp, line(j, i, jp, ip)], line being the pillar unless (pillar, column) is '
              'in the jagged split data. All derived arrays against that. Invariants for each of the nested loops.'),
}
