PROP = {
    'id': 'C05',
    'title': 'Vector geometry: directions, lengths, rotations and projections',
    'statement': 'Unit vectors have length one and the direction of the vector, zero vectors staying zero; array forms give each '
                 'vector what the scalar form would and a NaN vector affects no other. Azimuth is the compass bearing in [0, 360), '
                 'inclination the angle from the positive z axis; vectors built from such angles have them. Dot and cross products, lengths '
                 'and angles between vectors are as defined. Rotation matrices (axial, three angle, tilt, vector to z, '
                 'section) are proper rotations with the stated sense, rotating arrays of points point by point; tilting and projection '
                 'onto a plane work in place, landing on the plane along its normal. Triangle normals are unit length and perpendicular. '
                 'A planar unstructured grid face is its own planar approximation.',
    'quantifier': 'every vector, angle, plane and array extent',
    'why': 'the tests use a few vectors, mostly axis aligned; a wrong sign, quadrant or broadcast shows only for others',
    'files': ['resqpy/olio/vector_utilities.py', 'resqpy/unstructured/_unstructured_grid.py'],
    'mechanism': [('unit vectors, azimuth, inclination', 'unit_vector(s), azimuth(s), inclination(s)'),
                  ('rotation matrices', 'rotation_matrix_3d_axial, rotation_3d_matrix, tilt_3d_matrix, rotation_matrix_3d_vector'),
                  ('projections', 'project_points_onto_plane, planar_face_points')],
    'note': 'Trigonometric functions are axiomatised. One known finding: project_points_onto_plane for an inclined plane uses the '
            'normal with its z component reversed.',
    'design': ('Directions, rotations, unit vectors, azimuth and inclination, for vectors or arrays of them. Oracle:'
              ' algebraic identities over the reals (orthogonality, determinant one, length preserved, '
              'composition). Stubs: azimuth and inclination within their array/rotation callers. Known finding: '
              'project_points_onto_plane (below).'),
}
