PROP = {
    'id': 'C20',
    'title': 'Points, triangles and polygons in plan',
    'statement': 'The sense of three points is the sign of the area of their triangle, for sets of triangles and in any projection. '
                 'The triangle tests (in_triangle, in_triangle_edged for anticlockwise triangles, points_in_triangles and '
                 'point_in_triangle for either sense) hold for exactly the points strictly inside (edged: or on a side), and '
                 'point_in_triangle agrees everywhere with the polygon test. point_in_polygon is true when a ray in the '
                 'positive x direction crosses an odd number of sides, for any number of vertices. The list of points in a '
                 'polygon or triangle has the mesh index of every point inside, in order, and no others. The '
                 'intercept of a vertical with a segment is on the segment, none beyond its ends. Boxes, coordinate matrices and '
                 'the distance from a line in plan are what they say, and column extremes ignore NaN wherever it is.',
    'quantifier': 'every triangle, polygon, point, number of vertices and of points',
    'why': 'the tests use a few convenient shapes; sense, edges, rays through vertices and the number of points go unsampled',
    'files': ['resqpy/olio/vector_utilities.py'],
    'mechanism': [('sense', 'clockwise, clockwise_triangles'),
                  ('membership', 'in_triangle, in_triangle_edged, points_in_triangles, point_in_triangle, point_in_polygon'),
                  ('lists of members', 'points_in_polygon, points_in_triangle'),
                  ('intercepts', 'vertical_intercept, vertical_intercept_nan, vertical_intercept_nan_yz'),
                  ('boxes, matrices, distances', 'triangle_box, meshgrid, point_distance_to_line_2d, _nanmax, _nanmin')],
    'note': 'The lists of members use the membership functions by contract (themselves proved).',
    'design': ('Point in polygon of any number of sides against a crossing count by invariant; in triangle by signs '
              'of areas. Stub: the lattice functions for pixel maps.'),
}
