PROP = {
    'id': 'C12',
    'title': 'Collections of properties: selection, stacking, normalizing, sampling',
    'statement': 'Selecting from a property collection gives exactly the members with each of the attributes asked for '
                 '(kind, realization, facet, uom, time index, time series, indexable element, continuous, categorical, count, '
                 'points, title by mode, support, uuid and relations); lists of distinct values and the attributes of each member are '
                 'those it was made with, also when stored and read again; removal leaves the others. The special values * and none select '
                 'members with any value of an attribute, and those without. Properties like an example, over times, facets or '
                 'realizations, are gathered exactly. Net to gross, porosity and the permeability of each direction are found when there '
                 'is just one, and a K permeability made from the others has the values asked for. Each slice of the array over '
                 'realizations, times or facets is the array of that member, in increasing order or at its index, missing ones '
                 'null. A normalized array is where each value lies between the least and greatest, zero being where asked, '
                 'missing values left missing. Face arrays put in logical order, and back, are as they were. An array sampled '
                 'from another collection holds the elements which the indices say.',
    'quantifier': 'every extent of grid, array of values (missing ones included), set of realizations, times, facets and indices',
    'why': 'the tests have small arrays and few members, and look at a few of the attributes',
    'files': ['resqpy/property/property_collection.py', 'resqpy/property/_collection_get_attributes.py',
              'resqpy/property/_collection_add_part.py', 'resqpy/property/grid_property_collection.py',
              'resqpy/property/_collection_create_xml.py'],
    'mechanism': [('selection', 'selective_parts_list, singleton, inherit_parts_selectively_from_other_collection'),
                  ('stacks', 'realizations_array_ref, time_series_array_ref, facets_array_ref'),
                  ('normalized', 'normalized_part_array'),
                  ('static properties', 'basic_static_property_parts, basic_static_property_uuids'),
                  ('similar', 'inherit_similar_parts_for_..._from_other_collection'),
                  ('faces', 'combobulated_face_array, discombobulated_face_array'),
                  ('sampling', 'add_to_imported_list_sampling_other_collection, sample_array')],
    'note': 'Selection is a bounded stand-in (a collection of eight properties); stacks have three members.',
    'design': ('Collections over a regular grid of any extent, the arrays any function of (k, j, i), with or without NaN. '
               'Slices at any index, all values of normalized arrays (nanmin and nanmax given by their postconditions), sampled '
               'arrays for any indices within the source are proved; selections are bounded: eight properties which differ in '
               'every attribute, asked for by each attribute and some pairs; the finding of similar and static properties likewise.'),
}
