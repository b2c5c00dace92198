"""grid objects for contracts: instances of the real Grid class with given arrays, their constructors not having been run"""


def blank(c, n, cls = 'resqpy.grid.Grid', **kw):
    """grid of extent n = (nk, nj, ni) without geometry; n may hold symbolic integers"""
    d = dict(model = None, title = 'g', extra_metadata = {}, originator = None, parent_grid_uuid = None, grid_representation = 'IjkGrid',
             geometry_root = None, extent_kji = c.np.array([n[0], n[1], n[2]]) if not c.symbolic else tuple(n), nk = n[0], nj = n[1],
             ni = n[2], k_gaps = None, k_gap_after_array = None, k_raw_index_array = None,
             has_split_coordinate_lines = False, split_pillar_indices_cached = None, cols_for_split_pillars = None,
             cols_for_split_pillars_cl = None, split_pillars_count = None, points_cached = None, geometry_defined_for_all_pillars_cached = True,
             geometry_defined_for_all_cells_cached = True, xyz_box_cached = None, property_collection = None, inactive = None,
             all_inactive = None, active_property_uuid = None, pinchout = None, grid_skin = None, stratigraphic_column_rank_uuid = None,
             crs = None, crs_uuid = None, grid_is_right_handed = True, k_direction_is_down = True, pillar_shape = 'straight',
             time_index = None, time_series_uuid = None, xyz_box_cached_thoroughly = False)
    d.update(kw)
    return c.obj(cls, **d)


def crs(c, xy = 'm', z = 'm', z_inc_down = True):
    return c.obj('resqpy.crs.Crs', xy_units = xy, z_units = z, z_inc_down = z_inc_down, axis_order = 'easting northing', model = None,
                 x_offset = 0.0, y_offset = 0.0, z_offset = 0.0, rotation = 0.0, rotated = False, null_transform = True, title = 'crs')
