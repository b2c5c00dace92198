PROP = {
    'id': 'C04',
    'title': 'Conversion of units of measure',
    'statement': 'A value converted between two units stands for the same value in the base unit, whatever their factors and '
                 'offsets: there and back returns the value, conversion by way of a third unit is the same as direct, NaN stays '
                 'NaN. In place conversion gives the same values in the array passed, or refuses (units with an offset). Two names '
                 'of one unit leave values alone. Units of different dimensions, or not of the quantity asked for, are refused. '
                 'Every unit of the table converts to its base unit and back by its factors. Every alias, in any case, bracketed or '
                 'spaced, and every ratio of aliases, resolves to its unit, and resolving again changes nothing. Transmissibility '
                 'factors multiply for volume and viscosity and divide for pressure and time; malformed ones are refused.',
    'quantifier': 'every value or array, every pair of units and factors, every entry of the table of units and aliases',
    'why': 'the tests convert a few values between a few of the 1442 units, and only some of the combinations with offsets or divisors',
    'files': ['resqpy/weights_and_measures/weights_and_measures.py', 'resqpy/olio/data/properties.json'],
    'mechanism': [('factors to base units and back', 'convert, get_conversion_factors'),
                  ('names', 'rq_uom, _try_parse_unit, UOM_ALIASES'),
                  ('compound units', 'convert_transmissibilities')],
    'note': 'Conversion is proved for arbitrary factors; the table and aliases are enumerated completely. Text which is not a '
            'table entry, alias or ratio of aliases is not covered. The lru_cache decorator is taken to be transparent.',
    'design': ('One obligation for each of the units and pairs of the table shipped with the code (the quantity/unit'
              ' table is finite, and read on each run): conversion is a = (x*A+B)/(C+D*x) of the table, inverse, '
              'transitive, aliases are exact; unit classes; transmissibility factors.'),
}
