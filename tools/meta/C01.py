PROP = {
    'id': 'C01',
    'title': 'Algebra of logical boxes of cells',
    'statement': 'Operations on logical boxes of cells agree with set operations on the cells they denote: extent, volume, '
                 'membership, validity, minimal union and overlap are exact, and local and parent cell indices convert back and '
                 'forth in either index base. When boxes overlap, the slab chosen for trimming spans the full section of the new '
                 'box, holds every shared cell and has the fewest cells of the three candidates; trimming by a face slab or to a mask '
                 'leaves exactly the right cells with the mask cut to match. Text and word forms of a box hold one based '
                 'ijk bounds and read back as the same box.',
    'quantifier': 'every well formed pair of boxes, every cell, every mask of any extent',
    'why': 'the unit tests use a handful of fixed boxes and masks; the guarantee is over all index values, extents and masks',
    'files': ['resqpy/olio/box_utilities.py'],
    'mechanism': [('index arithmetic on (2, 3) integer arrays', 'resqpy/olio/box_utilities.py'),
                  ('scan of slabs of the mask', 'trim_box_to_mask_returning_new_mask')],
    'design': ('Boxes with integer corners of any size; masks of any extent. Oracle: the set of cells of a box. '
              'Overlap, membership, union, trims against masks, text forms, local/parent cells.'),
}
