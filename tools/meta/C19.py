PROP = {
    'id': 'C19',
    'title': 'Intersections of lines with planes, triangles, polylines and lines',
    'statement': 'A line and a plane intersect at the point on both, with none only when parallel. A line intersects a triangle '
                 '(within tolerances given) exactly when the point where it crosses the plane is inside or on the edge of the '
                 'triangle and, for a segment, between its ends inclusive; the point returned is that point. Sets of lines, '
                 'triangles and polyline segments give for each pair what the pair alone would, NaN for none. The distilled, last '
                 'and per line or per triangle lists are complete, in order and hold the right points; the first intersecting '
                 'segment is the lowest numbered at or after the start. Two lines in plan meet at the point on both subject to the '
                 'segment bounds, none when parallel; projection to a line in plan is perpendicular, snapping to a segment gives '
                 'its closest point.',
    'quantifier': 'every line, triangle, polyline, tolerance and number of them',
    'why': 'the tests use a few well placed lines and triangles; edges, ends of segments, orientation and mixed sets go unsampled',
    'files': ['resqpy/olio/intersection.py'],
    'mechanism': [('solution for line and triangle fractions', 'line_triangle_intersect, line_triangles_intersects, line_set_triangles_intersects'),
                  ('lists of intersections', 'distilled_intersects, last_intersects, triangles_for_line, lines_for_triangle'),
                  ('plan view', 'line_line_intersect, point_projected_to_line_2d, point_snapped_to_line_segment_2d')],
    'note': 'Polyline search uses line_triangles_intersects by contract (itself proved).',
    'design': ('Line/plane/triangle with real coordinates, tolerance included, sets of any number. Oracle: '
              'barycentric coordinates and the parametric equation of the line; non-linear real arithmetic (nlsat).'
              ' Stub: line_triangles_intersects in its poly-line callers.'),
}
