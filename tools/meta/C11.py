PROP = {
    'id': 'C11',
    'title': 'Catalogue and relationships of the parts of a model',
    'level': 'exploration',
    'statement': 'Parts are found by exactly the criteria given: type, uuid, title (is, starts, ends, contains and their '
                 'negations, with or without case), extra metadata, subdirectory, those related to one or several objects, those '
                 'in a list given (an empty one included); lists of parts, uuids, titles and roots agree and are in the order '
                 'asked for; one of several is the newest, oldest, first, last, none or an error as asked. Parts are related which '
                 'refer one to the other or have been related, in both directions, as sources and targets, and no others; this is '
                 'the same when the model is stored and opened again. A part removed is gone from every list and relation, the '
                 'others left as they were. A part copied from another model comes with all it refers to, once each, with its '
                 'arrays and relations; with consolidation, that which is the same as a part of the model is replaced by it and '
                 'nothing else is. A copy with a new uuid refers to the same parts. '
                 'Those supported by a representation are found, and no others which refer to it.',
    'quantifier': 'every model, history of adding, relating, copying and removing parts, and combination of criteria',
    'why': 'the tests ask for some criteria of one model; histories of removal, copies and reopening are hardly sampled',
    'files': ['resqpy/model/_catalogue.py', 'resqpy/model/_forestry.py', 'resqpy/model/_model.py', 'resqpy/model/_xml.py',
              'resqpy/consolidation.py'],
    'mechanism': [('selection by criteria', '_parts_list_filtered_by_related_uuid, _parts, _part, _uuids, _roots, _titles'),
                  ('order', '_sort_parts_list_by_timestamp, _parts_list_sorted...'),
                  ('relationships', '_rels_parts, _create_reciprocal_relationship, uuid relations'),
                  ('removal', 'remove_part, remove_part_from_main_tree'),
                  ('copies', 'copy_part_from_other_model, copy_uuid_from_other_model, consolidation'),
                  ('duplicates', 'duplicate_node, copy_part')],
    'note': 'All contracts are bounded stand-ins: they run the functions on every combination of short lists of titles, metadata, '
            'criteria and histories, for models of up to a dozen parts; no proof is claimed.',
    'design': ('The contracts state pre- and postconditions of the model functions, with a list of (object, title, metadata, '
               'relations) as ghost state; but they work by dictionaries of xml trees, whose number of entries and text cannot be '
               'left open in the verifier here: all are run bounded, over every combination of the choices in the contract, and '
               'are labelled so. Five defects found this way were repaired.'),
}
