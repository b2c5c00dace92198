PROP = {
    'id': 'C09',
    'title': 'Geometry of regular grids',
    'statement': 'The nodes of a regular grid are its origin plus whole numbers of its steps; corner points and centres, for one cell or for all, '
                 'are those of the nodes; axis lengths, volume and thickness are those of the steps; a grid is aligned exactly when '
                 'each step is along its own axis. The box of a grid holds every node and each of its sides is met at a corner; the cell '
                 'found for a point holds it, and none is found only for a point in none; points of a slice are the nodes with that '
                 'index. A grid made with given steps, or from a mesh, has those steps and the origin of the mesh.',
    'quantifier': 'every extent, origin and steps, aligned or not, every cell and point',
    'why': 'the tests use a few block grids with round numbers',
    'files': ['resqpy/grid/_regular_grid.py', 'resqpy/grid/_grid.py', 'resqpy/grid/_points_functions.py'],
    'mechanism': [('nodes', 'points_ref, make_regular_points_cached'), ('cells', 'corner_points, centre_point, axial_lengths_kji, volume, thickness'),
                  ('place', 'xyz_box, find_cell_for_point_xy, slice_points'), ('making', '__init__ with dxyz, mesh, dxyz_dkji')],
    'note': 'Boxes, finding of cells and slices assume the origin to be that of the crs, as it is for any grid read from a model.',
    'design': ('Origins, steps and extents symbolic; oracle: node (k, j, i) is origin + k dk + j dj + i di. Invariants for the loops which make '
               'the nodes, corners and centres.'),
}
