PROP = {
    'id': 'C03',
    'title': 'Coordinate reference system conversions preserve places',
    'statement': 'Points convert between a local coordinate reference system and its parent by the axis order, clockwise rotation, '
                 'offsets and z sense of the crs; conversion to local is the inverse of conversion to parent, and conversion '
                 'between two systems keeps the place in the parent, allowing for units of length or time. Arrays of points are converted in place '
                 'and returned, each point as it would be on its own. Axis order switches agree with the '
                 'axis names for every pair of orders. Systems are reported equivalent only when their attributes agree within tolerance, '
                 'symmetrically; depth and time systems do not mix. Handedness follows the axis order and z sense.',
    'quantifier': 'every axis order, z sense, offset, rotation and point; arrays of any length; representative unit combinations',
    'why': 'the tests sample a few systems; sign and order slips in one combination of axis order, rotation and z sense go unseen',
    'files': ['resqpy/crs.py'],
    'mechanism': [('rotation matrices and axis reordering matrices', 'resqpy/crs.py'),
                  ('in place conversion of (…, 3) arrays', 'Crs.local_to_global_array, Crs.global_to_local_array')],
    'note': 'Units are taken from seven representative pairs; trigonometric functions are axiomatised (sin^2 + cos^2 = 1 etc.).',
    'design': ('Every axis order, offset, rotation, z direction, units (symbolic factors where C04 allows), for '
              'points, arrays of points of any length and pairs of crs. Oracle: the point in the parent system is '
              'preserved; local/global are inverse; equivalence implies equal conversion. 8800 obligations.'),
}
