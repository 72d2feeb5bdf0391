"""Random dates and times in every accepted form."""
import datetime

DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def rdate(R):
    x = R.random()
    y = R.choice([1899, 1900, 1901, 1904, 1970, 1999, 2000, 2001, 2024, 2100, 2400, 9999]) if x < .5 else R.randrange(1900, 10000)
    m = R.choice([1, 2, 2, 3, 12]) if R.random() < .5 else R.randrange(1, 13)
    d = R.choice([1, 28, 29, 30, 31]) if R.random() < .5 else R.randrange(1, 29)
    if R.random() < .08:
        y = R.choice([0, 1, 1898, 1899, 10000, 65535])
    if R.random() < .06:
        m = R.choice([0, 13, 255])
    if R.random() < .06:
        d = R.choice([0, 32, 255])
    if y == 1899 and R.random() < .6:
        m, d = 12, 31
    return y, m, d


def rtime(R):
    h = R.choice([0, 1, 11, 12, 13, 23]) if R.random() < .8 else R.choice([24, 25, 48, 100, 9999, 65535])
    mi = R.choice([0, 1, 30, 59, R.randrange(60)])
    ms = R.choice([0, 1, 500, 999, 1000, 59000, 59999, R.randrange(60000)])
    return h, mi, ms


def valid(y, m, d):
    try:
        datetime.date(y, m, d)
        return y >= 1900 or (y, m, d) == (1899, 12, 31)
    except ValueError:
        return False


def secs(R, ms):
    """Seconds as text with no digits lost."""
    t = '%d' % (ms // 1000)
    if ms % 1000 or R.random() < .2:
        t += ('.%03d' % (ms % 1000)).rstrip('0') if R.random() < .6 and ms % 1000 else '.%03d' % (ms % 1000)
    return t


def date_op(R):
    y, m, d = rdate(R)
    h, mi, ms = rtime(R)
    k = R.choice(['d_ymd', 'd_hms', 'd_ymdhms', 'd_ymdhms', 'd_parse', 'd_parse', 'd_ts', 'd_ts', 'd_serial', 'd_chrono'])
    o = {'op': k, 'y': y, 'm': m, 'd': d, 'h': h, 'mi': mi, 'ms': ms, 'kind': {'d_ymd': 'date', 'd_hms': 'time'}.get(k, 'both')}
    if k in ('d_hms', 'd_ymdhms'):
        if R.random() < .12:
            o['mi'] = R.choice([61, 99, 255])
        if R.random() < .12:
            # Seconds outside 0 .. 59.999.
            o['sec'], o['ms'] = R.choice([('60.0', 60000), ('-1.0', -1), ('59.9995', 60000), ('NaN', -1), ('inf', 60000), ('-0.001', -1), ('61', 61000), ('1e300', 60000)])
        else:
            o['how'] = R.choice(['milli', 'float'])
            o['sec'] = repr(ms / 1000)
    elif k == 'd_parse':
        kind = R.choice(['date', 'time', 'both', 'both', 'bad'])
        o['kind'] = kind
        if kind == 'bad':
            o['text'] = R.choice(['', 'x', '12', '2024/01/01', '20240101', 'Monday', '12.30'])
        else:
            ds = '%04d-%02d-%02d' % (y, m, d) if R.random() < .8 else '%d-%d-%d' % (y, m, d)
            form = R.random()
            if form < .3:
                o['ms'] = ms = 0
                ts = '%02d:%02d' % (h, mi)
            else:
                ts = '%02d:%02d:%s' % (h, mi, secs(R, ms)) if form < .9 else '%d:%d:%s' % (h, mi, secs(R, ms))
            t = ds if kind == 'date' else ts if kind == 'time' else ds + R.choice(['T', ' ']) + ts
            if R.random() < .4:
                t += R.choice(['Z', ' ', 'Z ', ' UTC', '\n']) if kind != 'date' else R.choice([' ', 'T', '\t', 'Z'])
            if kind == 'both' and form >= .3 and R.random() < .3:
                t = t.rstrip() if not t.rstrip().endswith(('Z', 'UTC')) else t
                if not t.endswith(('Z', 'Z ', 'UTC')):
                    t += R.choice(['+02:00', '-05:00', '+00:00', 'Z'])
            if R.random() < .2:
                t = R.choice([' ', '\t', '\n']) + t
            o['text'] = t
    elif k == 'd_ts':
        x = R.random()
        if x < .1:
            o['kind'] = 'both'
            o['y'] = 0
            o['ts'] = R.choice(['-2209075201', '253402300800', '-9223372036854775808', '9223372036854775807', '-62135596800', '99999999999999'])
        else:
            while not valid(y, m, d):
                y, m, d = rdate(R)
            h %= 24
            s = ms // 1000
            o.update(y=y, m=m, d=d, h=h, ms=s * 1000)
            o['ts'] = str((datetime.datetime(y, m, d, h, mi, s) - datetime.datetime(1970, 1, 1)) // datetime.timedelta(seconds=1))
    elif k == 'd_serial':
        o['in'] = R.random() < .7
        if o['in']:
            day, t = R.choice([0, 1, 59, 60, 61, 36526, 45292, 2958465, R.randrange(2958466)]), R.choice([0, 43200000, 86399999, R.randrange(86400000)])
            o['v'] = repr(day + t / 86400000)
            o['stamp'] = '%d:%d' % (day, t)
        else:
            o['v'] = R.choice(['-1.0', '-0.0001', '2958466.0', '1e300', 'NaN', 'inf', '-inf'])
    elif k == 'd_chrono':
        while not valid(y, m, d):
            y, m, d = rdate(R)
        o.update(y=y, m=m, d=d, h=h % 24, kind=R.choice(['date', 'time', 'both']))
    return o
