"""Histories with conditional formats, data validations and sparklines."""
from gen import *
import gform
from annot import NUMRE

RANGES = [(0, 0, 0, 0), (0, 0, 3, 0), (1, 1, 4, 2), (2, 0, 2, 5), (0, 0, 9, 9), (5, 27, 8, 30), (0, 0, 1048575, 16383), (0, 3, 1048575, 3), (1048575, 16383, 1048575, 16383)]
MULTI = ['B3:D6 I3:K6', 'A1,C1:C5', '$B$3:$D$6', 'A1 A1', 'C2', '$A$1:$A$4,$C$1:$C$4 E5', 'AA10:AB12 A1']
TEXTS = ['', 'x', 'foo bar', 'a"b', '"', '""', '"q"', 'é', '中文', '\U0001F600z', 'a<b>&c', "it's", ' lead', '5', '=A1', 'a?b*', 'TRUE', 'x' * 60]
CFORM = ['=A1', 'A1>5', '=$A$1', '=SUM(A1:A3)', '=IF(A1>"x",1,0)', '=Sheet1!$B$2', '=A1&"a""b"', '=A1<>B1', '=AVERAGE($A$1:$A$5)+1', '={A1}', '=NOT(ISBLANK(é))']
CNUM = ['0', '1', '5', '-3', '10', '100', '101', '33', '66', '1000', '2147483647']
CREAL = ['0.5', '-2.25', '99.9', '100.1', '1e-7', '12345.678', '50']
DATES = ['2024-01-01', '2023-12-31 06:00', '1999-02-28 12:00', '2000-02-29', '1900-03-01', '1900-04-10', '9999-12-31 18:00', '2025-06-15 12:00']
TIMES = ['00:00', '06:00', '12:00', '18:00']
RULES2 = ['equal', 'notEqual', 'greaterThan', 'greaterThanOrEqual', 'lessThan', 'lessThanOrEqual', 'between', 'notBetween']
ICONS = ['3Arrows', '3ArrowsGray', '3Flags', '3TrafficLights1', '3TrafficLights2', '3Signs', '3Symbols', '3Symbols2', '3Stars', '3Triangles', '4Arrows', '4ArrowsGray',
         '4RedToBlack', '4Rating', '4TrafficLights', '5Arrows', '5ArrowsGray', '5Rating', '5Quarters', '5Boxes']
TYPES = ['auto', 'min', 'num', 'num', 'percent', 'percent', 'formula', 'percentile', 'max']
DXF = ['b', 'i', 'st', 'u', 'fc', 'nf', 'bg', 'fg', 'pat', 'bl', 'br', 'bt', 'bb', 'blc', 'brc', 'btc', 'bbc']


def some(R):
    f = gform.formula(R)
    return 'A1' if NUMRE.match(f.strip('{=} ')) else f


def val(R, ts='inubsdff'):
    t = R.choice(ts)
    return {'t': t, 'v': R.choice({'i': CNUM, 'n': CREAL, 'u': [x for x in CNUM if x[0] != '-' and int(x) < 65536], 'b': ['TRUE', 'FALSE'], 's': TEXTS, 'd': DATES,
                                   'f': CFORM}[t])}


def where(R, p):
    r, c, r2, c2 = R.choice(p.spots)
    k = R.random()
    if k < .02:
        r, c, r2, c2 = R.choice([(5, 5, 4, 6), (5, 5, 6, 4), (0, 0, 1048576, 0), (0, 0, 0, 16384), (1048576, 0, 1048576, 3)])
    return dict(r=r, c=c, r2=r2, c2=c2)


def dxf(R, o):
    if R.random() < .6:
        o['hf'] = True
        o['f'] = rdxf(R)
    return o


def cond(R, o):
    k = R.choice(['cell'] * 3 + ['blank', 'error', 'dup', 'formula', 'average', 'top', 'text', 'text', 'date', 'color2', 'color3', 'bar', 'bar', 'bar', 'icons', 'icons', 'icons'])
    o['k'] = k
    if k == 'cell':
        if R.random() < .96:
            o['rule'] = R.choice(RULES2)
            o['vals'] = [val(R, 'iinusssbdff') for _ in range(2 if o['rule'] in ('between', 'notBetween') else 1)]
            if R.random() < .5:
                o['typed'] = True
                if len(o['vals']) == 2 and R.random() < .6:
                    o['vals'][1] = val(R, o['vals'][0]['t'])
    elif k in ('blank', 'error', 'dup'):
        o['invert'] = R.random() < .5
    elif k == 'formula':
        if R.random() < .96:
            o['fv'] = R.choice(CFORM) if R.random() < .7 else some(R)
        if R.random() < .02:
            o['fv'] = R.choice(['', '='])
    elif k == 'average':
        if R.random() < .9:
            o['rule'] = R.choice(['above', 'below', 'eqabove', 'eqbelow', '1above', '1below', '2above', '2below', '3above', '3below'])
    elif k == 'top':
        if R.random() < .95:
            o['rule'], o['n'] = R.choice(['top', 'bottom', 'topp', 'bottomp']), R.choice([1, 10, 100, 99, 3, 1000] + ([0, 101, 1001] if R.random() < .2 else []))
    elif k == 'text':
        if R.random() < .97:
            o['rule'], o['text'] = R.choice(['contains', 'not', 'begins', 'ends']), R.choice(TEXTS)
    elif k == 'date':
        if R.random() < .9:
            o['rule'] = R.choice(['yesterday', 'today', 'tomorrow', 'last7Days', 'lastWeek', 'thisWeek', 'nextWeek', 'lastMonth', 'thisMonth', 'nextMonth'])
    elif k in ('color2', 'color3'):
        o['set'] = [scale(R, k == 'color3') for _ in range(R.choice([0, 1, 2, 3, 5]))]
    elif k == 'bar':
        o['set'] = [bar(R) for _ in range(R.choice([0, 1, 2, 3, 5, 8]))]
    else:
        o['set'] = icons(R)
    return dxf(R, o) if k not in ('color2', 'color3', 'bar', 'icons') else o


def threshold(R, k):
    return {'k': k, 'ty': R.choice(TYPES), 'val': val(R, 'iiinusbdf')}


def scale(R, three):
    k = R.choice(['min', 'max', 'minc', 'maxc'] + (['mid', 'midc'] if three else []))
    return {'k': k, 'c': R.choice(COLORS)} if k.endswith('c') else threshold(R, k)


def bar(R):
    k = R.choice(['min', 'max', 'fill', 'border', 'nfill', 'nborder', 'axisc', 'solid', 'off', 'only', 'dir', 'axis', 'classic'])
    if k in ('min', 'max'):
        return threshold(R, k)
    if k in ('solid', 'off', 'only'):
        return {'k': k, 'b': R.random() < .7}
    if k == 'dir':
        return {'k': k, 'c': R.choice(['context', 'leftToRight', 'rightToLeft'])}
    if k == 'axis':
        return {'k': k, 'c': R.choice(['automatic', 'middle', 'none'])}
    if k == 'classic':
        return {'k': k}
    return {'k': k, 'c': R.choice(COLORS)}


def icons(R):
    out = []
    ty = R.choice(ICONS)
    if R.random() < .95:
        out.append({'k': 'type', 'ty': ty})
    if R.random() < .55:
        n = int(ty[0]) + (R.choice([-1, 1]) if R.random() < .08 else 0)
        out.append({'k': 'icons', 'icons': [[icon(R) for _ in range(R.choice([0, 1, 1, 2, 3]))] for _ in range(n)]})
    for _ in range(R.choice([0, 0, 1, 2])):
        out.append({'k': R.choice(['reverse', 'only']), 'b': R.random() < .7})
    if R.random() < .15:
        R.shuffle(out)
    return out


def icon(R):
    k = R.choice(['rule', 'rule', 'icon', 'none', 'gt'])
    if k == 'rule':
        return threshold(R, k)
    if k == 'icon':
        ty = R.choice(ICONS)
        return {'k': k, 'ty': ty, 'n': R.choice([0, 1, 2, int(ty[0]) - 1, int(ty[0])])}
    return {'k': k, 'b': R.random() < .8}


def g_cf(p):
    R = p.R
    o = dict(op='cf', **where(R, p))
    if R.random() < .25:
        o['multi'] = R.choice(p.multi)
    if R.random() < .25:
        o['stop'] = R.random() < .8
    return cond(R, o)


LONG = {'rep': 'm', 'n': 255}


def dv_set(R):
    k = R.choice(['whole', 'decimal', 'date', 'time', 'textLength', 'list', 'list', 'list', 'custom', 'any', 'blank', 'dropdown', 'showinput', 'showerror', 'intitle', 'inmsg',
                  'errtitle', 'errmsg', 'style', 'multi'])
    if k in ('whole', 'decimal', 'date', 'time', 'textLength'):
        rule = R.choice(RULES2)
        t, vs = {'whole': ('i', CNUM), 'decimal': ('n', CREAL), 'date': ('d', DATES), 'time': ('d', TIMES), 'textLength': ('u', ['0', '1', '255', '32767', '4294967295'])}[k]
        if R.random() < .3:
            t, vs = 'f', CFORM
        return {'k': k, 'rule': rule, 'vals': [{'t': t, 'v': R.choice(vs)} for _ in range(2 if rule in ('between', 'notBetween') else 1)]}
    if k == 'list':
        if R.random() < .3:
            return {'k': k, 'fv': R.choice(['=$E$4:$G$4', '=Sheet1!A1:A5', 'Name', '=INDIRECT("A1")'])}
        x = R.random()
        if x < .08:
            n = R.choice([253, 254, 255, 256])
            return {'k': k, 'items': ['x' * (n - 100), 'y' * 99]}
        if x < .12:
            n = R.choice([126, 127, 128])
            return {'k': k, 'items': ['é' * n, '中' * (254 - n)]}
        if x < .15:
            return {'k': k, 'items': ['"' * R.choice([126, 127, 128]), '']}
        return {'k': k, 'items': [R.choice(['a', 'foo', 'é', '中', 'x y', '"q"', 'a"b', '', '1', 'a<b&c', "it's", 'open', 'TRUE', '\U0001F600']) for _ in range(R.choice([1, 2, 3, 5, 8]))]}
    if k == 'custom':
        return {'k': k, 'fv': R.choice(CFORM) if R.random() < .7 else some(R)}
    if k == 'any':
        return {'k': k}
    if k in ('blank', 'dropdown', 'showinput', 'showerror'):
        return {'k': k, 'b': R.random() < .4}
    if k == 'style':
        return {'k': k, 'v': R.choice(['stop', 'warning', 'information'])}
    if k == 'multi':
        return {'k': k, 'v': R.choice(MULTI)}
    top = 32 if 'title' in k else 255
    x = R.random()
    v = R.choice(['t', 'Title', 'a <b> & "c"', 'é中', 'two\nlines', ' s ', "it's"]) if x < .8 else {'rep': R.choice(['x', 'é', '中']), 'n': R.choice([top - 1, top, top + 1])}
    return {'k': k, 'v': v}


def g_dv(p):
    R = p.R
    o = dict(op='dv', **where(R, p))
    o['set'] = [dv_set(R) for _ in range(R.choice([0, 1, 1, 2, 2, 3, 4, 6]))]
    return o


SHEETS = ['Sheet1', 'Sheet2', 'My Data', "It's", 'A1', 'Données', 'x-y']


def data(R, one):
    """A range of cells."""
    k = R.random()
    n, m = R.choice([1, 2, 3, 5]), R.choice([1, 2, 3, 5])
    if one and R.random() < .93:
        n, m = R.choice([(1, m), (n, 1)])
    r, c = R.choice([0, 1, 7, 99, 1048570]), R.choice([0, 1, 25, 26, 16379])
    r2, c2 = r + n - 1, c + m - 1
    if k < .02:
        r2, c2 = R.choice([(r - 1, c2), (r2, c - 1)]) if r and c else (r2, c2)
    elif k < .05:
        r2, c2 = R.choice([(1048576, c2), (r2, 16384), (1048575, 16383)])
    sheet = R.choice(SHEETS) if R.random() < .9 else R.choice(['', 'x' * 32, "a'b", 'b:c'])
    if R.random() < .5:
        t = col_name(c) + str(r + 1) + ':' + col_name(c2) + str(r2 + 1)
        d = ''
        if R.random() < .6:
            t = '$' + col_name(c) + '$' + str(r + 1) + ':$' + col_name(c2) + '$' + str(r2 + 1)
        q = sheet if sheet.isalnum() and sheet.isascii() and sheet not in ('A1',) and sheet else "'" + sheet.replace("'", "''") + "'"
        if r == r2 and c == c2 and R.random() < .5:
            t = t.split(':')[0]
        return {'text': R.choice(['=', '']) + q + '!' + t}
    return dict(sheet=sheet, r=r, c=c, r2=r2, c2=c2)


def sl_set(R):
    k = R.choice(['type', 'type', 'high', 'low', 'first', 'last', 'negative', 'markers', 'axis', 'hidden', 'rtl', 'empty', 'cseries', 'chigh', 'clow', 'cfirst', 'clast', 'cnegative',
                  'cmarkers', 'weight', 'max', 'min', 'gmax', 'gmin', 'colorder', 'style', 'style', 'dates'])
    if k == 'type':
        return {'k': k, 'v': R.choice(['line', 'column', 'stacked'])}
    if k == 'empty':
        return {'k': k, 'v': R.choice(['gap', 'zero', 'span'])}
    if k in ('cseries', 'chigh', 'clow', 'cfirst', 'clast', 'cnegative', 'cmarkers'):
        return {'k': k, 'c': R.choice(COLORS)}
    if k in ('weight', 'max', 'min'):
        return {'k': k, 'v': R.choice(['0.25', '1', '2.25', '6', '0']) if k == 'weight' else R.choice(['0', '0.5', '-0.5', '100', '-1e6', '3.75'])}
    if k == 'style':
        return {'k': k, 'n': R.choice([0, 1, 36, 37, R.randrange(1, 37)])}
    if k == 'dates':
        return dict({'k': k}, **data(R, True))
    return {'k': k, 'b': R.random() < .75}


def g_sparkline(p):
    R = p.R
    o = {'op': 'sparkline', 'r': R.choice([0, 1, 5, 1048575]), 'c': R.choice([0, 2, 30, 16383])}
    if R.random() < .02:
        o['r'] = 1048576
    o['set'] = [sl_set(R) for _ in range(R.choice([0, 1, 2, 4, 8]))]
    if R.random() < .97:
        o['set'].insert(R.randrange(len(o['set']) + 1), dict({'k': 'range'}, **data(R, True)))
    return o


def g_sparkgroup(p):
    R = p.R
    n, m = R.choice([(2, 3), (3, 2), (3, 3), (4, 2), (2, 2), (5, 4)])
    r, c = R.choice([0, 1, 7, 1048570]), R.choice([0, 1, 25, 16370])
    d = dict(sheet=R.choice(SHEETS), r=r, c=c, r2=r + n - 1, c2=c + m - 1)
    if R.random() < .1:
        d = data(R, False)
    k = R.choice([n, m]) if R.random() < .93 else R.choice([1, 6])
    at = R.choice([0, 3, 1048570]), R.choice([0, 3, 16370])
    o = {'op': 'sparkgroup', 'r': at[0], 'c': at[1]}
    o.update(R.choice([{'r2': at[0] + k - 1, 'c2': at[1]}, {'r2': at[0], 'c2': at[1] + k - 1}]))
    if R.random() < .05:
        o.update(r2=at[0] + 1, c2=at[1] + 1)
    if R.random() < .02:
        o.update(r2=at[0] - 1 if at[0] else 1048576)
    o['set'] = [sl_set(R) for _ in range(R.choice([0, 1, 2, 4, 6]))]
    o['set'].insert(R.randrange(len(o['set']) + 1), dict({'k': 'range'}, **d))
    return o


def col_name(n):
    s, n = '', n + 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


for _n, _f in list(globals().items()):
    if _n.startswith('g_') and _n[2:] in ('cf', 'dv', 'sparkline', 'sparkgroup'):
        GENS[_n[2:]] = _f


def rule_pool(R, **kw):
    p = Pool(R, **kw)
    p.spots = R.sample(RANGES, R.choice([1, 2, 3, 5]))
    p.multi = R.sample(MULTI, 2) + ([RANGES and 'A1'] if R.random() < .3 else [])
    return p


def rule_case(R, weights, n, **kw):
    return history(R, weights, n, pool=rule_pool(R), **kw)
