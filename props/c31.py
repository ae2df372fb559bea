"""HTTP dates: written in the one standard form, read in all three.

Outside the bounds: years before 1000, dates of leap seconds, other texts.
"""
from datetime import datetime, timedelta, timezone
from time import gmtime

from verktyg.http import http_date, parse_date, cookie_date
from verktyg.responses import Response

DAYS = ['Mon', 'Tue', 'Wed', 'Thu', 'Fri', 'Sat', 'Sun']
LONG = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']
LEN = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def two(n):
    return chr(48 + n // 10) + chr(48 + n % 10)


def weekday(y, m, d):
    """Sakamoto's method, Monday is 0"""
    t = [0, 3, 2, 5, 0, 3, 5, 1, 4, 6, 2, 4]
    if m < 3:
        y = y - 1
    return (y + y // 4 - y // 100 + y // 400 + t[m - 1] + d + 6) % 7


def dates(sx, years):
    """a year, a month and a day that exist"""
    y = sx.choice('year', years)
    m = sx.choice('month', range(1, 13))
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    d = sx.int('day', 1, LEN[m - 1] + (1 if m == 2 and leap else 0))
    return y, m, d


def h_date(sx):
    """every day of selected years, at noon"""
    y, m, d = dates(sx, [1970, 1999, 2000, 2016, 2100] + sx.t(
        [], [1000, 1600, 1900, 2400, 9999]))
    dt = datetime(y, m, d, 12, 30, 45)
    text = http_date(dt)
    want = (DAYS[weekday(y, m, d)] + ', ' + two(d) + ' ' + MONTHS[m - 1] +
            ' ' + str(y) + ' 12:30:45 GMT')
    sx.check(text == want, 'the standard form')
    sx.check(parse_date(text) == dt, 'reading it back')
    ck = cookie_date(dt)
    sx.check(ck == want[:7] + '-' + want[8:11] + '-' + want[12:],
             'the form for cookies')
    sx.check(parse_date(ck) == dt, 'reading that back')


def h_time(sx):
    """every time of day"""
    h = sx.int('hour', 0, 23)
    mi = sx.int('minute', 0, 59)
    s = sx.int('second', 0, 59)
    dt = datetime(2015, 3, 1, h, mi, s)
    text = http_date(dt)
    sx.check(text == 'Sun, 01 Mar 2015 ' + two(h) + ':' + two(mi) + ':' +
             two(s) + ' GMT', 'the standard form')
    sx.check(parse_date(text) == dt, 'reading it back')


def h_types(sx):
    """timestamps, time tuples and datetimes give the same text; 60 instants
    a second, a minute or 23 minutes apart, on selected days"""
    s = sx.int('s', 0, 59) * sx.choice('step', [1, 60, 1380])
    day = sx.choice('day', [0, 951782400, 1420070400, 4102444800])
    n = day + s
    a = http_date(n)
    sx.check(a == http_date(gmtime(n)), 'time tuples')
    sx.check(a == http_date(datetime(1970, 1, 1) + timedelta(seconds=n)),
             'datetimes')


def h_aware(sx):
    """datetimes with a time zone of up to +-14 hours; fractions of a second
    are cut off"""
    off = sx.int('off', -14, 14) * 60
    if sx.bool('half'):
        off = off + 30
    h = sx.choice('h', [0, 23])
    dt = datetime(2016, 3, 1, h, 30, 1, sx.choice('us', [0, 999999]),
                  tzinfo=timezone(timedelta(minutes=off)))
    want = datetime(2016, 3, 1, h, 30, 1) - timedelta(minutes=off)
    sx.check(http_date(dt) == http_date(want), 'converted to utc')
    sx.check(parse_date(http_date(dt)) == want, 'and read back')
    n = sx.choice('n', [0, 86399, 1420070400])
    f = sx.choice('f', [0.0, 0.25, 0.999])
    sx.check(http_date(n + f) == http_date(n), 'cut off')


def h_limits(sx):
    """the first and last days of the calendar, with a zone"""
    sign = sx.choice('sign', ['+', '-'])
    z = sx.int('z', 0, 23)
    day, base = sx.choice('day', [
        ('Fri, 31 Dec 9999 23:30:00 ', datetime(9999, 12, 31, 23, 30)),
        ('Fri, 31 Dec 9999 01:00:00 ', datetime(9999, 12, 31, 1)),
        ('Sat, 01 Jan 1000 00:30:00 ', datetime(1000, 1, 1, 0, 30)),
    ])
    got = parse_date(day + sign + two(z) + '00')
    off = timedelta(hours=z)
    if sign == '+':
        want = base - off
    elif base > datetime(9999, 12, 31, 23, 59, 59) - off:
        want = None
    else:
        want = base + off
    sx.check(got == want, 'a date or nothing')


def h_read(sx):
    """all three forms, any day or any time, day of the week not examined"""
    form = sx.choice('form', ['1123', '850', 'asctime'])
    m = sx.choice('month', range(1, 13))
    what = sx.choice('what', ['date', 'clock', 'year'])
    d, h, s = 7, 8, 37
    if what == 'date':
        d = sx.int('day', 1, LEN[m - 1])
    elif what == 'clock':
        h = sx.int('hour', 0, 23)
        s = sx.int('second', 0, 59)
    clock = two(h) + ':49:' + two(s)
    mon = MONTHS[m - 1]
    if sx.bool('case'):
        mon = mon.lower()
    if form == '1123':
        y = sx.choice('year', [1994, 2015])
        text = 'Sun, ' + two(d) + ' ' + mon + ' ' + str(y) + ' ' + clock
        text += ' GMT'
    elif form == '850':
        yy = (sx.int('yy', 0, 99) if what == 'year' else
              sx.choice('y2', [0, 68, 69, 99]))
        y = yy + (2000 if yy < 69 else 1900)
        text = 'Sunday, ' + two(d) + '-' + mon + '-' + two(yy) + ' ' + clock
        text += ' GMT'
    else:
        y = sx.choice('year', [1994, 2015])
        day = two(d)
        if d < 10:
            day = ' ' + day[1]
        text = 'Sun ' + mon + ' ' + day + ' ' + clock + ' ' + str(y)
    sx.check(parse_date(text) == datetime(y, m, d, h, 49, s),
             'every form is understood')


def h_zone(sx):
    """numeric time zones of up to +-23:59"""
    sign = sx.choice('sign', ['+', '-'])
    zh = sx.int('zh', 0, 23)
    zm = sx.int('zm', 0, 59)
    text = 'Sun, 06 Nov 1994 08:49:37 ' + sign + two(zh) + two(zm)
    off = timedelta(minutes=zh * 60 + zm)
    base = datetime(1994, 11, 6, 8, 49, 37)
    want = base - off if sign == '+' else base + off
    sx.check(parse_date(text) == want, 'zones are taken into account')


def h_impossible(sx):
    """dates and times that do not exist are not read"""
    kind = sx.choice('kind', ['day', 'hour', 'minute', 'second', 'year'])
    n = sx.int('n', 0, 99)
    v = {'day': '06', 'hour': '08', 'minute': '49', 'second': '37'}
    v[kind] = two(n)
    year = '0000' if kind == 'year' else '1994'
    got = parse_date('Sun, ' + v['day'] + ' Feb ' + year + ' ' + v['hour'] +
                     ':' + v['minute'] + ':' + v['second'] + ' GMT')
    good = {'day': 1 <= n <= 28, 'hour': n <= 23, 'minute': n <= 59,
            'second': n <= 59, 'year': True}[kind]
    sx.check((got is not None) == good, 'only dates that exist')


def h_any(sx):
    """any text of up to 4 (thorough 5) characters alone, of up to 3 within
    a date, of up to 2 for the year"""
    where = sx.choice('where', ['alone', 'zone', 'time', 'day', 'year'])
    t = sx.text('t', {'alone': sx.t(4, 5), 'year': 2}.get(where, 3), [
        chr(i) for i in range(32, 127)] + ['\xe9', '\u0663'])
    text = {'alone': t,
            'zone': 'Sun, 06 Nov 1994 08:49:37 ' + t,
            'time': 'Sun, 06 Nov 1994 ' + t + ' GMT',
            'day': 'Sun, ' + t + ' Nov 1994 08:49:37 GMT',
            'year': 'Sun, 06 Nov ' + t + ' 08:49:37 GMT'}[where]
    got = parse_date(text)
    sx.check(got is None or isinstance(got, datetime), 'a date or nothing')


def h_headers(sx):
    """date headers of responses; any second of a minute"""
    s = sx.int('s', 0, 59)
    name = sx.choice('name', ['date', 'expires', 'last_modified'])
    dt = datetime(2015, 1, 2, 3, 4, s)
    r = Response('x')
    setattr(r, name, dt)
    sx.check(getattr(r, name) == dt, 'dates are read back')
    sx.check(r.headers.get(name.replace('_', '-')) ==
             'Fri, 02 Jan 2015 03:04:' + two(s) + ' GMT', 'as http dates')


def h_history(sx):
    """any 3 of 8 dates written or read one after the other"""
    text = 'Thu, 01 Jan 1970 00:00:05 GMT'
    todo = [
        (http_date, 5, text), (http_date, 5.5, text),
        (http_date, datetime(1970, 1, 1, 0, 0, 5), text),
        (cookie_date, 5, 'Thu, 01-Jan-1970 00:00:05 GMT'),
        (cookie_date, datetime(1970, 1, 1, 0, 0, 5),
         'Thu, 01-Jan-1970 00:00:05 GMT'),
        (parse_date, text, datetime(1970, 1, 1, 0, 0, 5)),
        (parse_date, text.replace('GMT', '+0100'),
         datetime(1969, 12, 31, 23, 0, 5)),
        (parse_date, text[:-4], datetime(1970, 1, 1, 0, 0, 5)),
    ]
    for i in range(3):
        f, value, want = sx.choice('date%d' % i, todo)
        sx.check(f(value) == want, 'this date in this form')


def h_threads(sx):
    """two threads at once, the second at any line of the first: dates"""
    todo = [lambda: http_date(5), lambda: http_date(99999),
            lambda: cookie_date(5),
            lambda: parse_date('Thu, 01 Jan 1970 00:00:05 GMT'),
            lambda: parse_date('Friday, 02-Jan-70 00:00:05 GMT')]
    one = sx.choice('one', todo)
    two = sx.choice('two', todo)
    sx.interleave('at', lambda: (one, two), 'both get their own result')
