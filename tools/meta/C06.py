PROP = {
    'id': 'C06',
    'title': 'Time series',
    'statement': 'In a time series kept in order, of any length: the index found for a time is the first at exactly that time, the '
                 'last not later, the first not earlier or one of the closest, and none only when there is no such; a time stamp by '
                 'index (from the end if negative) is the one there, none beyond. Durations between times, over a step and '
                 'since the start are the exact differences, days the whole number of days, none for indices out of range or order. '
                 'Adding a time keeps all the others and the order: at the end only when later than the last (else '
                 'refused), or inserted in place; extending adds the duration, not negative, to the last. Durations before and '
                 'after a time are opposite. Series are equivalent when of the same timeframe and length with every time within the '
                 'tolerance (geologic: the same). Geologic series made from years have them all, negative, oldest first; a '
                 'selection has the times selected, in order; a regular series has the steps asked for.',
    'quantifier': 'every series (of any length unless labelled bounded), time, duration, index and tolerance',
    'why': 'the tests use a few series and times; the first and last entries, ties, repeats and empty series go unsampled',
    'files': ['resqpy/time_series/_time_series.py', 'resqpy/time_series/_any_time_series.py', 'resqpy/time_series/_time_duration.py',
              'resqpy/time_series/_geologic_time_series.py', 'resqpy/time_series/_functions.py'],
    'mechanism': [('searching', 'index_for_timestamp, index_for_timestamp_not_later_than, ..._not_earlier_than, ..._closest_to'),
                  ('durations', 'TimeDuration, duration_between_timestamps, step_duration, duration_since_start'),
                  ('modification', 'add_timestamp, extend_by_duration, extend_by_days'),
                  ('equivalence', 'is_equivalent'),
                  ('making', 'from_year_list, time_series_from_list, selected_time_series, TimeSeries.__init__')],
    'note': 'Time stamps in the form YYYY-MM-DDTHH:MM:SSZ are taken as numbers of seconds and the datetime module as exact arithmetic '
            'on them (assumed). Loading and saving of series as xml is not covered.',
    'design': ('Series of any number of stamps. Oracle: order and membership, closest/before/after. Bounded parts: '
              'selected series (up to three of four times), from_years (3), regular (two steps of each kind), '
              'years_as_text (constants), because the texts themselves are built.'),
}
