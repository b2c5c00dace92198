"""C06: time series (resqpy.time_series)"""

from vcpy.harness import contract
from vcpy.registry import invariant

T = 'resqpy.time_series.'
M = T + '_time_series'
A = T + '_any_time_series'
D = T + '_time_duration'
DAY = 86400
STAMPS = 'time stamps are in the form YYYY-MM-DDTHH:MM:SSZ, so the order of texts is the order of times'
DATES = 'datetime: calendar arithmetic is exact arithmetic on seconds'
NOTES = dict(assumptions = (STAMPS, DATES))


def series(c, name = 'ts', n = None, uuid = 'a', lo = 0):
    c.calendar(M, D)
    n = c.int(name + '_n', lo) if n is None else n
    s = c.stamps(name, n)
    return c.obj(T + 'TimeSeries', timestamps = s, timeframe = 'human', model = None, extra_metadata = {}, title = None), n


def at(c, ts, i):
    """seconds of a time stamp of the series"""
    return c.seconds(ts.timestamps[i])


@contract('C06', 'not_later', **NOTES)
def not_later(c):
    """the index returned is the last whose time is not later than the one given; none if all are later"""
    ts, n = series(c)
    s = c.stamp('s')
    c.ghost['n'] = n
    r = ts.index_for_timestamp_not_later_than(s)
    k = c.int('k', 0, n - 1)
    t = c.seconds(s)
    if r is None:
        c.check('all later', at(c, ts, k) > t)
    else:
        c.check('index', r >= 0, r < n)
        c.check('not later', at(c, ts, r) <= t)
        c.check('last', c.Implies(k > r, lambda: at(c, ts, k) > t))


@contract('C06', 'not_earlier', **NOTES)
def not_earlier(c):
    """the index returned is the first whose time is not earlier than the one given; none if all are earlier"""
    ts, n = series(c)
    s = c.stamp('s')
    r = ts.index_for_timestamp_not_earlier_than(s)
    k = c.int('k', 0, n - 1)
    t = c.seconds(s)
    if r is None:
        c.check('all earlier', at(c, ts, k) < t)
    else:
        c.check('index', r >= 0, r < n)
        c.check('not earlier', at(c, ts, r) >= t)
        c.check('first', c.Implies(k < r, lambda: at(c, ts, k) < t))


@invariant(M, 'TimeSeries.index_for_timestamp_not_later_than', names = ('index', 'timestamp', 'self'), target = 'while')
def later_beyond(c, L):
    n, s = c.length(L.self.timestamps), L.timestamp
    return [('range', c.And(L.index >= -1, L.index < n)),
            ('beyond', c.forall((n,), lambda k: c.Implies(k > L.index, lambda: L.self.timestamps[k] > s)))]


@invariant(M, 'TimeSeries.index_for_timestamp_not_earlier_than', names = ('index', 'timestamp', 'self'), target = 'while')
def earlier_before(c, L):
    n, s = c.length(L.self.timestamps), L.timestamp
    return [('range', c.And(L.index >= 0, L.index <= n)),
            ('before', c.forall((n,), lambda k: c.Implies(k < L.index, lambda: L.self.timestamps[k] < s)))]


@contract('C06', 'closest', **NOTES)
def closest(c):
    """no time in the series is closer to the one given than that at the index returned"""
    ts, n = series(c)
    s = c.stamp('s')
    r = ts.index_for_timestamp_closest_to(s)
    t = c.seconds(s)
    if r is None:
        c.check('empty', n == 0)
        return
    k = c.int('k', 0, n - 1)
    c.check('index', r >= 0, r < n)
    d, e = c.abs(at(c, ts, r) - t), c.abs(at(c, ts, k) - t)
    c.check('closest', d <= e)


@contract('C06', 'index_for_timestamp', **NOTES)
def index_for_timestamp(c):
    """the first index with the time given, none if there is no such"""
    ts, n = series(c)
    s = c.stamp('s')
    c.ghost['s'] = s
    r = ts.index_for_timestamp(s)
    k = c.int('k', 0, n - 1)
    t = c.seconds(s)
    if r is None:
        c.check('absent', at(c, ts, k) != t)
    else:
        c.check('found', r >= 0, r < n, at(c, ts, r) == t)
        c.check('first', c.Implies(k < r, lambda: at(c, ts, k) != t))


@invariant(A, 'AnyTimeSeries.index_for_timestamp', names = ('self', 'timestamp'))
def not_yet(c, L):
    n = c.length(L.self.timestamps)
    return [('before', c.forall((n,), lambda k: c.Implies(k < L._i, lambda: L.self.timestamps[k] != L.timestamp)))]


@contract('C06', 'timestamp', **NOTES)
def timestamp(c):
    """the time stamp at an index, from the end if negative, none beyond; the last"""
    ts, n = series(c)
    i = c.int('i')
    r = ts.timestamp(i)
    if r is None:
        c.check('beyond', c.Or(i >= n, i < -n))
    else:
        c.check('within', i < n, i >= -n)
        j = i if c.is_true(i >= 0) else i + n
        c.check('stamp', c.seconds(r) == at(c, ts, j))
    c.check('number', ts.number_of_timestamps() == n)
    r = ts.last_timestamp()
    if r is None:
        c.check('empty', n == 0)
    else:
        c.check('last', n > 0, c.seconds(r) == at(c, ts, n - 1))


@contract('C06', 'durations', **NOTES)
def durations(c):
    """durations are the differences in time; days the whole number of days; none for indices out of range or order"""
    ts, n = series(c)
    i, j = c.int('i'), c.int('j')
    ok = c.And(i >= 0, j < n, i <= j)
    r = ts.duration_between_timestamps(i, j)
    days = ts.days_between_timestamps(i, j)
    if r is None:
        c.check('refused', c.Not(ok), days is None)
    else:
        c.check('accepted', ok)
        d = at(c, ts, j) - at(c, ts, i)
        c.check('difference', c.seconds(r.duration) == d)
        c.check('not negative', d >= 0)
        c.check('days', days == d // DAY)
    r, days = ts.step_duration(i), ts.step_days(i)
    if r is None:
        c.check('no step', c.Or(i < 1, i >= n), days is None)
    else:
        d = at(c, ts, i) - at(c, ts, i - 1)
        c.check('step', i >= 1, i < n, c.seconds(r.duration) == d, days == d // DAY)
    r = ts.duration_since_start(i)
    if r is None:
        c.check('no duration', c.Or(i < 0, i >= n))
    else:
        d = at(c, ts, i) - at(c, ts, 0)
        c.check('since start', i >= 0, i < n, c.seconds(r.duration) == d, ts.days_since_start(i) == d // DAY)


@contract('C06', 'add_timestamp', **NOTES)
def add_timestamp(c):
    """adding a time keeps the series in order: at the end only if later than the last, else refused; or inserted"""
    ts, n = series(c)
    old = ts.timestamps.fn if c.symbolic else [at(c, ts, k) for k in range(n)].__getitem__
    s = c.stamp('s')
    t = c.seconds(s)
    ins = c.choice('insert', [False, True])
    _, e = c.attempt(AssertionError, ts.add_timestamp, s, ins)
    k = c.int('k', 0, n)
    if e is not None:
        c.check('refused', c.Not(ins), n > 0)
        c.check('kept', ts.number_of_timestamps() == n)
        c.check('not later', t <= old(n - 1))
        return
    c.check('one more', ts.number_of_timestamps() == n + 1)
    c.check('there', c.exists((n + 1,), lambda i: at(c, ts, i) == t))
    if c.is_true(k < n):
        c.check('in order', at(c, ts, k) <= at(c, ts, k + 1))
        c.check('others', c.Or(at(c, ts, k) == old(k), at(c, ts, k + 1) == old(k)))
    if not ins:
        c.check('at end', at(c, ts, n) == t)


@contract('C06', 'extend', **NOTES)
def extend(c):
    """a series is extended by a time the given duration after its last, duration not negative"""
    ts, n = series(c)
    days = c.int('days', -3, None)
    how = c.choice('how', ['days', 'duration'])
    last = at(c, ts, n - 1) if c.is_true(n > 0) else None
    if how == 'days':
        h = m = s = 0
        _, e = c.attempt(AssertionError, ts.extend_by_days, days)
    else:
        h, m, s = c.int('h', -30, 30), c.int('m', -70, 70), c.int('s', -70, 70)
        d = c.fn(T + 'TimeDuration')(days = days, hours = h, minutes = m, seconds = s)
        _, e = c.attempt(AssertionError, ts.extend_by_duration, d)
    d = days * DAY + h * 3600 + m * 60 + s
    if e is not None:
        c.check('refused', c.Or(n == 0, d < 0))
        c.check('kept', ts.number_of_timestamps() == n)
        return
    c.check('accepted', n > 0, d >= 0)
    c.check('one more', ts.number_of_timestamps() == n + 1)
    c.check('time', at(c, ts, n) == last + d)


@contract('C06', 'duration', **NOTES)
def duration(c):
    """durations before and after a time are opposite, and the duration between the two times is the duration"""
    c.calendar(M, D)
    f = c.fn(T + 'TimeDuration')
    s = c.stamp('s')
    d = f(days = c.int('d', -5, 5), hours = c.int('h', -30, 30), minutes = c.int('m', -70, 70), seconds = c.int('sec', -70, 70))
    want = c.int('d') * DAY + c.int('h') * 3600 + c.int('m') * 60 + c.int('sec')
    c.check('length', c.seconds(d.duration) == want)
    a, b = d.timestamp_after_duration(s), d.timestamp_before_duration(s)
    c.check('after', c.seconds(a) == c.seconds(s) + want)
    c.check('before', c.seconds(b) == c.seconds(s) - want)
    c.check('between', c.seconds(f(earlier_timestamp = s, later_timestamp = a).duration) == want)
    c.check('there and back', c.seconds(d.timestamp_before_duration(a)) == c.seconds(s))


@contract('C06', 'equivalent', **NOTES)
def equivalent(c):
    """series are equivalent when of the same length with every time within the tolerance"""
    import uuid
    ts, n = series(c)
    other, m = series(c, 'other', n if c.choice('same', [False, True]) else None)
    ts.uuid = uuid.UUID(int = 1 << 100)
    other.uuid = uuid.UUID(int = 3 << 100)
    tol = c.int('tol', 0)
    c.ghost['other'], c.ghost['tol'] = other, tol
    r = ts.is_equivalent(other, tol_seconds = tol)
    if c.is_true(n == m):
        c.check('equivalent', c.Iff(r, c.forall((n,), lambda k: c.abs(at(c, ts, k) - at(c, other, k)) <= tol)))
    else:
        c.check('not equivalent', r is False)


@invariant(M, 'TimeSeries.is_equivalent', names = ('self', 'other_ts', 'tolerance'))
def close_so_far(c, L):
    n = c.length(L.self.timestamps)
    tol = c.seconds(L.tolerance.duration)
    return [('so far', c.forall((n,), lambda k: c.Implies(k < L._i, lambda: c.abs(at(c, L.self, k) - at(c, L.other_ts, k)) <= tol)))]


def geologic(c, name, n):
    t = c.int_list(name, n, hi = 0)
    return c.obj(T + 'GeologicTimeSeries', timestamps = t, timeframe = 'geologic', model = None, extra_metadata = {}, title = None)


@contract('C06', 'geologic_index')
def geologic_index(c):
    """for a geologic series, the first index with the years given, none if there is no such"""
    n = c.int('n', 0)
    ts = geologic(c, 'ts', n)
    y = c.int('y', None, 0)
    r = ts.index_for_timestamp(y)
    k = c.int('k', 0, n - 1)
    if r is None:
        c.check('absent', ts.timestamps[k] != y)
    else:
        c.check('found', r >= 0, r < n, ts.timestamps[r] == y)
        c.check('first', c.Implies(k < r, lambda: ts.timestamps[k] != y))
    i = c.int('i')
    r = ts.timestamp(i, as_string = False)
    if r is None:
        c.check('beyond', c.Or(i >= n, i < -n))
    else:
        c.check('within', i < n, i >= -n)
        c.check('years', r == ts.timestamps[i if c.is_true(i >= 0) else i + n])


@contract('C06', 'geologic_equivalent')
def geologic_equivalent(c):
    """geologic series are equivalent when every time is the same; never equivalent to one on a human timeframe"""
    import uuid
    n = c.int('n', 0)
    m = n if c.choice('same', [False, True]) else c.int('m', 0)
    ts = geologic(c, 'ts', n)
    human = c.choice('human', [False, True])
    other = series(c, 'other', m)[0] if human else geologic(c, 'other', m)
    ts.uuid = uuid.UUID(int = 1 << 100)
    other.uuid = uuid.UUID(int = 3 << 100)
    r = ts.is_equivalent(other)
    if human:
        c.check('human', r is False)
    elif c.is_true(n == m):
        c.check('equivalent', c.Iff(r, c.forall((n,), lambda k: ts.timestamps[k] == other.timestamps[k])))
    else:
        c.check('not equivalent', r is False)


def permuted(c, a, b):
    """lists (short) with the same entries"""
    return c.And(*[c.sum(len(a), lambda k: c.ite(a[k] == x, 1, 0)) == c.sum(len(b), lambda k: c.ite(b[k] == x, 1, 0)) for x in a + b])


@contract('C06', 'from_years', bounded = 'up to three years')
def from_years(c):
    """a geologic series made from years has them all, as negative numbers, oldest first"""
    n = c.choice('n', [1, 2, 3])
    ys = [c.int(f'y{k}', -5000000, 5000000) for k in range(n)]
    how = c.choice('how', ['class', 'function'])
    if how == 'class':
        ts = c.fn(T + 'GeologicTimeSeries').from_year_list(None, list(ys))
    else:
        ts = c.fn(T + 'time_series_from_list')(list(ys))
    t = ts.timestamps
    c.check('number', len(t) == n, ts.timeframe == 'geologic')
    c.check('in order', *[t[k] <= t[k + 1] for k in range(n - 1)])
    c.check('years', permuted(c, t, [-c.abs(y) for y in ys]))


@contract('C06', 'selected', bounded = 'up to four times, up to three selected')
def selected(c):
    """a selection from a series has the times at the indices, in order"""
    n = c.choice('n', [1, 4])
    q = c.choice('q', [1, 2, 3])
    y = [c.int(f'y{k}', -5000000, 0) for k in range(n)]
    ix = [c.choice(f'i{k}', list(range(n))) for k in range(q)]
    ts = c.obj(T + 'GeologicTimeSeries', timestamps = list(y), timeframe = 'geologic', model = None, extra_metadata = {}, title = None)
    c.assume(*[y[k] <= y[k + 1] for k in range(n - 1)])
    t = c.fn(T + 'selected_time_series')(ts, ix).timestamps
    c.check('number', len(t) == q)
    c.check('in order', *[t[k] <= t[k + 1] for k in range(q - 1)])
    c.check('times', permuted(c, t, [y[i] for i in ix]))


@contract('C06', 'regular', bounded = 'up to two steps of each length')
def regular(c):
    """a regular series has the numbers of steps of 1, 30, 90 and 365 days asked for, from its first time"""
    c.calendar(M, D)
    s = c.stamp('s')
    steps = [c.choice(f'n{d}', [None, 0, 1, 2]) for d in (1, 30, 90, 365)]
    ts = c.fn(T + 'TimeSeries')(None, first_timestamp = s, daily = steps[0], monthly = steps[1], quarterly = steps[2], yearly = steps[3])
    want = [c.seconds(s)]
    for q, d in zip(steps, (1, 30, 90, 365)):
        for _ in range(q or 0):
            want.append(want[-1] + d * DAY)
    c.check('number', len(ts.timestamps) == len(want))
    c.check('times', *[c.seconds(a) == b for a, b in zip(ts.timestamps, want)])


@contract('C06', 'years_as_text', bounded = 'a few numbers of years')
def years_as_text(c):
    """the text of a geologic time is the same from each of the functions"""
    y = c.choice('y', [0, -1, -1500000, -10000000, -66000000, -251902000])
    want = c.fn(T + 'geologic_time_str')(y)
    c.check('cleaned', c.fn(T + 'cleaned_timestamp')(y) == want)
    c.check('simplified', c.fn(T + 'simplified_timestamp')(y) == want)
    ts = c.obj(T + 'GeologicTimeSeries', timestamps = [y], timeframe = 'geologic', model = None, extra_metadata = {}, title = None)
    c.check('of series', ts.timestamp(0) == want, ts.last_timestamp() == want)
