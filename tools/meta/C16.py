PROP = {
    'id': 'C16',
    'title': 'Bulk volume and thickness of cells',
    'statement': 'The volume of a hexahedral cell (tetra_cell_volume, tetra_volumes, tetra_volumes_slow) is the integral of the '
                 'Jacobian of the trilinear map between its corner points, i.e. that enclosed by its bilinear faces, and does not '
                 'depend on the centre point used; that of a pyramid is the mean for the two ways of splitting its base; '
                 'that of a tetrahedron does not depend on the order of its corners. Grid volumes are the same for one cell or all, '
                 'cached or not, positive for either handedness of grid and axes when it is noted, in the required units, and '
                 'leave a property (or an array returned before) which they come from unchanged. Cells of unstructured hexahedral, '
                 'pyramidal and tetrahedral grids have these same volumes. The thickness of a cell is the difference in mean depth of '
                 'its top and base faces; it is pinched out, or inactive for want of pore volume, when this is not more than the '
                 'tolerance or is undefined. The length of a cell along an axis is that between the centres of opposite faces, in '
                 'the required units.',
    'quantifier': 'every cell geometry, extent of grid, handedness, unit size and order of asking',
    'why': 'the tests use cells with planar faces, for which wrong formulae give right volumes, and few orders of cached calls',
    'files': ['resqpy/olio/volume.py', 'resqpy/grid/_cell_properties.py', 'resqpy/unstructured/_hexa_grid.py',
              'resqpy/unstructured/_pyramid_grid.py', 'resqpy/unstructured/_tetra_grid.py'],
    'mechanism': [('volume formulae', 'olio/volume.py'),
                  ('grid volumes, units, caches', 'Grid.volume, _get_volume_uom, _get_volume_conversion_factor'),
                  ('thickness, pinch-out, inactive', 'Grid.thickness, pinched_out, cell_inactive'),
                  ('cell lengths', 'interface_vector, interface_length, interface_lengths_kji'),
                  ('unstructured cells', 'HexaGrid.volume, PyramidGrid.volume, TetraGrid.volume, adjusted_volume')],
    'note': 'Corner points of grids are given (C10); units convert by contract (C04), for units of any size.',
    'design': ('Oracle for the volume of a hexahedral cell: the integral of the Jacobian of the trilinear map, by '
              "Simpson's rule (exact here: degree two in each parameter), over 24 symbolic coordinates; decided by "
              '`ring`. Caches and units by sequences of calls on one grid. Stubs: tetra_cell_volume, convert*.'),
}
