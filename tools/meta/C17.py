PROP = {
    'id': 'C17',
    'title': 'Transmissibilities of cells and connections',
    'statement': 'The half cell transmissibility of every face of every cell is the permeability along the line from the centre of the '
                 'cell to that of the face, dotted with the projected area of the face and divided by the square of the distance, with '
                 'net to gross for horizontal directions only and zero when the distance is under the tolerance; boxes of a regular '
                 'grid have the same value both ways. It is the same for the triangles and columns of vertical prism grids, and for '
                 'any units of the grid. The transmissibility between neighbours is the harmonic sum of the two facing halves, zero '
                 'where either is, and not across a K gap or a split pillar unless it is shared; fault and mat multipliers of '
                 'faces and cells apply to the faces they were stored for; stored halves are found and used, and those kept are without '
                 'modifiers. A connection of a connection set uses the half of the face of each of its two cells, by the '
                 'fraction of it shared and the multiplier of the connection or of its feature.',
    'quantifier': 'every size of grid, permeability, net to gross, geometry, modifier and connection',
    'why': 'the tests use few boxes, mostly of equal cells and permeabilities; tilted cells, gaps, modifiers and mixed faces go unsampled',
    'files': ['resqpy/olio/transmission.py', 'resqpy/grid/_transmissibility.py', 'resqpy/grid/_regular_grid.py',
              'resqpy/fault/_grid_connection_set.py', 'resqpy/unstructured/_prism_grid.py', 'resqpy/olio/vector_utilities.py',
              'resqpy/property/property_collection.py'],
    'mechanism': [('half cells', 'half_cell_t_regular, half_cell_t_irregular, half_cell_t_vertical_prism, half_cell_t_2d_triangular_precursor'),
                  ('areas', 'projected_tri_area, area_of_triangle, area_of_triangles'),
                  ('between neighbours', '_transmissibility.transmissibility and its multipliers; half_cell_transmissibility'),
                  ('connections', 'GridConnectionSet.tr_property_array')],
    'note': 'Connection sets: bounded to two connections (one, of two grids); all else for any size.',
    'design': ('Formula proved for an arbitrary cell and face of any grid size against a spec in vectors; callees by contract; '
               'multiplier arrays by an index map. Bounded: connections of a set (two of one grid, one of two).'),
}
