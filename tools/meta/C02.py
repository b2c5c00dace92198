PROP = {
    'id': 'C02',
    'title': 'Fine to coarse cell mapping of local grid refinements',
    'statement': 'For a fine coarse mapping with constant ratios or a vector of ratios on an axis, the fine boxes of the coarse '
                 'cells partition the fine grid: each fine cell is mapped (by every way of asking) to the one coarse cell whose '
                 'fine box holds it, the base of a fine box is the sum of the preceding ratios, the ratio reported is the one '
                 'set (also when a vector is all equal), and natural column and pillar indices follow. Ratios '
                 'which do not account for every fine cell are rejected. Proportions are one positive fraction per fine slice, '
                 'summing to one for each coarse slice, equal unless given, and interpolation fractions accumulate them from zero.',
    'quantifier': 'every extent, every ratio per axis or vector of ratios, every fine and coarse cell',
    'why': 'tests use a few small refinements; off by one errors in the cumulative bases appear only for particular ratio vectors',
    'files': ['resqpy/olio/fine_coarse.py'],
    'mechanism': [('cumulative ratios per axis', 'FineCoarse.fine_base_for_coarse_axial'),
                  ('fine to coarse arrays', 'FineCoarse._set_fine_to_coarse_mapping')],
    'note': 'Vectors of proportions are decided for at most 2 coarse slices of ratio at most 3 (labelled bounded).',
    'design': ('Extents and ratio vectors are symbolic in the axis under test (the other axes have a constant ratio;'
              ' axes are treated each in turn). Oracle: prefix sums of ratios partition the fine cells; round '
              'trips; proportions sum to one and interpolation fractions match. `set_proportions` is bounded (two '
              'coarse slices, ratio up to 3).'),
}
