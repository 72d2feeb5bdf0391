"""Charts: references to cells that change, and every option."""
import re
from gen import *
import acharts as AC
from annot import serial

GROUPS = {'Area': ['Area', 'AreaStacked', 'AreaPercentStacked'], 'Bar': ['Bar', 'BarStacked', 'BarPercentStacked'],
          'Column': ['Column', 'ColumnStacked', 'ColumnPercentStacked'], 'Line': ['Line', 'LineStacked', 'LinePercentStacked'],
          'Radar': ['Radar', 'RadarWithMarkers', 'RadarFilled'], 'Pie': ['Pie'], 'Doughnut': ['Doughnut'], 'Stock': ['Stock'],
          'Scatter': ['Scatter', 'ScatterStraight', 'ScatterStraightWithMarkers', 'ScatterSmooth', 'ScatterSmoothWithMarkers']}
GROUP = {t: g for g, ts in GROUPS.items() for t in ts}
NAMES = ['Sheet1', 'Data', 'My Sheet', "It's", 'A1', 'x-y', 'é1', '1st', 'R1', 'a!b', 'Été', 'RC1', "a''b", 'a<b>&c', 'q.1']
TEXTS = ['Title', 'a<b>&"c"', 'é中', ' sp ', 'x\ny', "it's", '=Total', '=A1', 'Sales & Co', '=Nope']
NUMF = ['0.00', '#,##0', '"x"0', '0%', '[Red]0.0', 'dd/mm/yyyy', 'General']
KEYS = ['values', 'categories', 'name']


def some(R, d, p, most=99):
    """A random choice of the options in d, in random order, perhaps given twice."""
    ks = [k for k in d if R.random() < p]
    R.shuffle(ks)
    if ks and R.random() < .06:
        ks.append(R.choice(ks))
    return [{'k': k, 'v': d[k]()} for k in ks[:most]]


class G:
    def __init__(self, R, sheets, odd=0.0):
        self.R, self.sheets, self.odd = R, sheets, odd

    def ch(self, *a):
        return self.R.choice(a)

    def b(self):
        return self.R.random() < .6

    def col(self):
        return self.R.choice(COLORS)

    # ---- appearance ----
    def tr(self):
        return self.ch(0, 1, 20, 50, 99, 100, 100, 101)

    def line(self):
        return some(self.R, dict(color=self.col, width=lambda: self.ch(0.25, 0.5, 1, 1.1, 1.125, 1.37, 2.25, 2.3, 10, 1583.9, 1584, 1585, 0),
                                 dash=lambda: self.ch(*AC.DASH), transparency=self.tr, hidden=lambda: self.R.random() < .7), .4)

    def solid(self):
        return [{'k': 'color', 'v': self.col()}] + some(self.R, dict(transparency=self.tr), .3)

    def pattern(self):
        return some(self.R, dict(pattern=lambda: self.ch(*AC.PATTERN), fg=self.col, bg=self.col), .6)

    def gradient(self):
        stops = lambda: [[self.col(), self.ch(0, 10, 50, 100)] for _ in range(self.ch(2, 2, 3, 4))]
        bad = lambda: self.ch([[self.col(), 1]], [[self.col(), 0], [self.col(), 101]], [[self.col(), k] for k in range(11)])
        out = [{'k': 'stops', 'v': stops()}] + some(self.R, dict(type=lambda: self.ch(*AC.GRAD), angle=lambda: self.ch(0, 45, 90, 180, 359, 360, 361)), .5)
        if self.R.random() < .15:
            out.append({'k': 'stops', 'v': bad()})
        self.R.shuffle(out)
        return out

    def fills(self):
        return dict(solid=self.solid, pattern=self.pattern, gradient=self.gradient)

    def fmt(self):
        R = self.R
        if R.random() < .4:
            k = self.ch('line', 'line', 'solid', 'solid', 'pattern', 'gradient')
            return {k: getattr(self, k)()}
        d = dict(line=self.line, border=self.line, noline=lambda: True, noborder=lambda: True, nofill=lambda: True, **self.fills())
        return {'format': some(R, d, .25)}

    def font(self):
        t = lambda: True
        return some(self.R, dict(bold=t, unbold=t, italic=t, underline=t, strike=t, color=self.col, name=lambda: self.ch('Arial', 'Times New Roman', 'a&b'),
                                 size=lambda: self.ch(8, 10, 10.5, 11.25, 20, 8.1, 9.9), rotation=lambda: self.ch(0, 45, -45, 90, -90, 91, -91, 270, 271, 272, 360),
                                 rtl=self.b, pitch=lambda: self.ch(0, 2, 18, 34), charset=lambda: self.ch(0, 1, 128)), .22)

    def unit(self):
        return self.ch(0, 0.0, .1, .25, .5, 1, .123, 1, 1.5, -.1)

    def layout(self):
        return some(self.R, dict(offset=lambda: [self.unit(), self.unit()], size=lambda: [self.unit(), self.unit()]), .7)

    # ---- references ----
    def area(self):
        R = self.R
        r, c = R.choice([0, 0, 1, 2]), R.choice([0, 0, 1, 2])
        k = R.random()
        if k < .6:
            return r, c, r + R.choice([0, 1, 2, 3, 4]), c
        if k < .85:
            return r, c, r, c + R.choice([1, 2, 3])
        return r, c, r + 1, c + 1

    def q(self, name):
        """Name as a user would write it in a reference."""
        return "'" + name.replace("'", "''") + "'"

    def slot(self, one=False):
        R = self.R
        name = R.choice(self.sheets)
        if R.random() < self.odd * .3:
            name = R.choice(['Nope', '', 'x' * 32, 'a*b', "'a"])
        r, c, r2, c2 = self.area()
        if one:
            r2, c2 = r, c
        if R.random() < self.odd * .3:
            r, c, r2, c2 = R.choice([(2, 0, 1, 0), (0, 2, 0, 1), (1048576, 0, 1048576, 0), (0, 16384, 0, 16384), (1048573, 0, 1048576, 0)])
        k = R.random()
        if r <= r2 < 1048576 and c <= c2 < 16384 and k < .45 and name not in ('', "'a"):
            ab = R.random() < .8
            cell = lambda r, c: ('$%s$%d' if ab else '%s%d') % (xcol(c), r + 1)
            t = (self.q(name) if R.random() < .7 or not re.match('^[A-Za-zé]+$', name) else name) + '!' + cell(r, c) + ('' if (r, c) == (r2, c2) else ':' + cell(r2, c2))
            if R.random() < .8:
                t = '=' + t
            return {'t': t, 'via': R.choice(['', 'obj', 'string'])}
        via = R.choice(['', 'obj'] + (['cell'] if (r, c) == (r2, c2) else []))
        return {'rg': [name, r, c, r2, c2], 'via': via}

    def name(self):
        """A text or a reference to a cell."""
        R = self.R
        if R.random() < .5:
            return {'t': R.choice(TEXTS), 'via': R.choice(['', 'string'])}
        return self.slot(one=R.random() < .8)

    # ---- parts ----
    def marker(self):
        t = lambda: True
        return some(self.R, dict(automatic=t, none=t, type=lambda: self.ch(*AC.SYMBOL), size=lambda: self.ch(1, 2, 7, 72, 73), format=self.fmt), .4)

    def label(self, custom=False):
        t = lambda: True
        d = dict(value=t, category=t, series=t, key=t, percentage=t, yvalue=t, xvalue=t, position=lambda: self.ch(*AC.LPOS), format=self.fmt, font=self.font,
                 numfmt=lambda: self.ch(*NUMF, ''), separator=lambda: self.ch(';', '.', ' ', '\n', 'x', ','))
        if custom:
            d.update(text=self.name)
        else:
            d.update(leader=t)
        out = some(self.R, d, .2)
        if custom and self.R.random() < .1:
            out.append({'k': 'hidden', 'v': True})
        return out

    def trendline(self):
        ty = lambda: self.ch(['None'], ['Exponential'], ['Linear'], ['Linear'], ['Logarithmic'], ['Power'], ['Polynomial', self.ch(2, 3, 6)],
                             ['MovingAverage', self.ch(2, 4)])
        if self.R.random() < self.odd * .3:
            ty = lambda: self.ch(['Polynomial', self.ch(0, 1, 7, 255)], ['MovingAverage', self.ch(0, 1, 5)])
        n = lambda: self.ch(0, .5, 1, 2.5, 10)
        return [{'k': 'type', 'v': ty()}] + some(self.R, dict(format=self.fmt, lformat=self.fmt, lfont=self.font, name=lambda: self.ch('Trend', 'a&b', ''), forward=n,
                                                                backward=n, equation=self.b, rsquared=self.b, intercept=lambda: self.ch(0, -1.5, .8, 100),
                                                                delleg=self.b), .3)

    def errbars(self):
        n = lambda: self.ch(.5, 1, 2.25, 10, 150, 0)
        ty = lambda: self.ch(['fixed', n()], ['percentage', n()], ['stddev', n()], ['stderr'], ['custom', self.bare(), self.bare()])
        return some(self.R, dict(type=ty, direction=lambda: self.ch('Both', 'Minus', 'Plus'), cap=self.b, format=self.fmt), .6)

    def bare(self):
        s = dict(self.slot())
        s.pop('via', None)
        return s

    def series(self, g, second=False, opts=True):
        R = self.R
        o = []
        if R.random() > self.odd * .2:
            o.append({'k': 'values', 'v': self.slot()})
        if R.random() < .75 or (g == 'Scatter' and R.random() > self.odd * .2):
            o.append({'k': 'categories', 'v': self.slot()})
        if R.random() < .5:
            o.append({'k': 'name', 'v': self.name()})
        if second:
            o.append({'k': 'secondary', 'v': True})
        elif R.random() < .05:
            o.append({'k': 'secondary', 'v': False})
        if opts:
            d = dict(format=self.fmt, label=self.label, labels=lambda: [self.label(True) if R.random() < .7 else [] for _ in range(R.choice([1, 2, 3, 6]))],
                     delleg=self.b)
            if g in ('Line', 'Scatter', 'Radar', 'Stock'):
                d.update(marker=self.marker)
            if g in ('Line', 'Scatter'):
                d.update(smooth=self.b)
            d.update(points=lambda: [R.choice([{}, self.fmt()]) for _ in range(R.choice([1, 2, 3, 6]))],
                     colors=lambda: [self.col() for _ in range(R.choice([1, 2, 3]))])
            if g in ('Area', 'Bar', 'Column', 'Line', 'Scatter', 'Stock'):
                d.update(trendline=self.trendline, yerr=self.errbars, xerr=self.errbars)
            if g in ('Bar', 'Column'):
                d.update(gap=lambda: self.ch(0, 50, 150, 150, 500, 501), overlap=lambda: self.ch(-100, -20, 0, 50, 100), invert=lambda: True, invertcolor=self.col)
            o += some(R, d, opts if isinstance(opts, float) else .18)
        R.shuffle(o)
        return {'push': R.random() < .3, 'set': o}

    def axis(self, kind, date=False):
        """kind: cat or val."""
        R = self.R
        n = lambda: self.ch(0, 1, .5, -3, 10, 100, 2.25, 1000)
        t = lambda: True
        d = dict(name=self.name, namefont=self.font, format=self.fmt, font=self.font, numfmt=lambda: self.ch(*NUMF), crossing=lambda:
                 self.ch(['Automatic'], ['Min'], ['Max'], ['category', self.ch(1, 3)], ['at', n()]) if kind == 'val' or R.random() < .6 else self.ch(['Max'], ['Min']),
                 reverse=t, majorgrid=self.b, minorgrid=self.b, majorgridline=self.line, minorgridline=self.line, labelpos=lambda: self.ch(*AC.APOS),
                 between=self.b, majortick=lambda: self.ch(*AC.TICK), minortick=lambda: self.ch(*AC.TICK), hidden=self.b, layout=self.layout, max=n, min=n,
                 major=lambda: self.ch(1, .5, 10, 0.0, -1), minor=lambda: self.ch(1, .5, 2, -1))
        if kind == 'val':
            d.update(log=lambda: self.ch(0, 1, 2, 10, 1000), unit=lambda: self.ch('None', 'Hundreds', 'Thousands', 'TenThousands', 'HundredThousands', 'Millions',
                     'TenMillions', 'HundredMillions', 'Billions', 'Trillions'), unitshow=self.b)
        else:
            d.update(align=lambda: self.ch('Center', 'Left', 'Right'), labelint=lambda: self.ch(0, 1, 2, 5), tickint=lambda: self.ch(0, 1, 2, 5),
                     automatic=self.b, text=self.b)
            if date:
                day = lambda: self.ch('2024-01-01', '2024-12-31', '1999-05-05')
                u = lambda: self.ch('Days', 'Months', 'Years')
                d.update(maxdate=day, mindate=day, majordate=u, minordate=u)
        out = some(R, d, .14)
        if date and R.random() < .5:
            out.append({'k': 'date', 'v': self.b()})
        return out

    def table(self):
        return some(self.R, dict(horizontal=self.b, vertical=self.b, outline=self.b, keys=self.b, format=self.fmt, font=self.font), .4)

    def settings(self, g):
        t = lambda: True
        d = dict(style=lambda: self.ch(0, 1, 2, 3, 26, 48, 49, 255), empty=lambda: self.ch(*AC.EMPTY), naempty=t, hiddendata=t, area=self.fmt, plot=self.fmt,
                 plotlayout=self.layout)
        if g in ('Pie', 'Doughnut'):
            d.update(rotation=lambda: self.ch(0, 30, 90, 360, 361))
        if g == 'Doughnut':
            d.update(hole=lambda: self.ch(0, 1, 10, 50, 90, 91))
        if g in ('Area', 'Line', 'Stock'):
            d.update(drop=self.b, dropfmt=self.fmt)
        if g in ('Line', 'Stock'):
            d.update(highlow=self.b, highlowfmt=self.fmt, updown=self.b, upfmt=self.fmt, downfmt=self.fmt)
        if g not in ('Pie', 'Doughnut', 'Scatter', 'Radar'):
            d.update(table=self.table)
        return some(self.R, d, .16)

    def title(self):
        out = [{'k': 'name', 'v': self.name()}] if self.R.random() < .6 else []
        return out + some(self.R, dict(format=self.fmt, font=self.font, layout=self.layout, overlay=self.b), .25) + \
            ([{'k': 'hidden', 'v': True}] if self.R.random() < .05 else [])

    def legend(self, n):
        out = some(self.R, dict(position=lambda: self.ch(*AC.LEGPOS), overlay=self.b, layout=self.layout, format=self.fmt, font=self.font), .25)
        if self.R.random() < .1:
            out.append({'k': 'delete', 'v': self.R.sample(range(max(n, 1)), self.R.randrange(max(n, 1) + 1))})
        if self.R.random() < .07:
            out.append({'k': 'hidden', 'v': True})
        return out

    def chart(self, depth=0, opts=True, group=None):
        R = self.R
        g = group or R.choice(list(GROUPS))
        t = R.choice(GROUPS[g])
        round_ = g in ('Pie', 'Doughnut')
        n = R.choice([1, 1, 2, 2, 3, 4])
        if R.random() < self.odd * .15:
            n = 0
        second = not round_ and R.random() < .3
        c = {'type': t, 'series': [self.series(g, second and R.random() < .5, opts) for _ in range(n)]}
        if t == g and R.random() < .5:
            c['ctor'] = 'fn'
        if opts:
            c['set'] = self.settings(g)
        else:
            c['set'] = []
        if depth == 0:
            if not round_ and g not in ('Radar',) and R.random() < .2:
                other = self.chart(1, opts, R.choice(['Column', 'Line', 'Area'] if g in ('Column', 'Line', 'Area', 'Stock') else [g]))
                c['set'].append({'k': 'combine', 'v': other})
            if R.random() < .5 or not opts:
                c['title'] = self.title()
            c['legend'] = self.legend(n) if opts and R.random() < .5 else []
        if depth == 0 or R.random() < .5:
            for a in ('x', 'y', 'x2', 'y2'):
                if opts and R.random() < .35 or R.random() < .1:
                    kind = 'val' if g == 'Scatter' or a[0] == ('x' if g == 'Bar' else 'y') else 'cat'
                    if round_:
                        continue
                    c[a] = self.axis(kind, date=g in ('Line', 'Area', 'Column', 'Stock') and a == 'x') if opts else [{'k': 'name', 'v': self.name()}]
        return c


def xcol(c):
    return chr(65 + c) if c < 26 else 'ZZ'


DATA = dict(num=5, str=4, bool=1, datetime=2, formula=3, rich=1, blank=1, clear=2, array=.5, dynformula=.5, seq=.5, setres=.7, url=.4)


class CPool(Pool):
    def __init__(self, R, **kw):
        super().__init__(R, far=0, **kw)
        self.rows, self.cols = [0, 1, 2, 3, 4], [0, 1, 2]
        self.words = ['a', 'b c', 'x<&>"', 'é', ' lead', 'two\nlines', 'Jan', 'q', '_x0041_'][:8]


def data_op(p):
    R = p.R
    k = R.choices(list(DATA), list(DATA.values()))[0]
    if k == 'datetime':
        d = R.choice(['2024-01-01', '2024-02-29', '1999-12-31'])
        return p.f({'op': 'datetime', 'r': p.r(), 'c': p.c(), 'v': d, 'serial': repr(serial(d)), 'via': R.choice(['', 'write'])}, .3)
    return GENS[k](p)


def opening(R):
    """Sheets with names of their own."""
    ops, sheets = [], []
    n = R.choice([1, 2, 2, 3])
    names = R.sample(NAMES, n + 1)
    for k in range(n):
        ops += [{'op': 'add_sheet', 'mode': 'std'}, {'op': 'setname', 'name': names[k], 's': k}]
        sheets.append(names[k])
    chart = R.random() < .25
    if chart:
        ops += [{'op': 'add_sheet', 'mode': 'chart'}, {'op': 'setname', 'name': 'Zchart', 's': n}]
    return ops, sheets, (n if chart else None)


def place(R, sheets, cs):
    if cs is not None and R.random() < .3:
        return {'s': cs, 'r': 0, 'c': 0}
    return {'s': R.randrange(len(sheets)), 'r': R.choice([0, 5, 20, 40]), 'c': R.choice([0, 3, 8])}


def chart_history(R, n=14, odd=.15, opts=False, save_p=.08):
    ops, sheets, cs = opening(R)
    p = CPool(R, nsheets=len(sheets))
    g = G(R, sheets, odd)
    placed = False
    for _ in range(n):
        if R.random() < .3:
            o = {'op': 'chartx', 'ch': g.chart(opts=opts)}
            o.update(place(R, sheets, cs))
            if R.random() < .2:
                o['via'] = 'offset'
            if R.random() < .02:
                o['r'] = 1048576
            if o['s'] == cs:
                placed = True
        else:
            o = data_op(p)
            o.setdefault('s', R.randrange(len(sheets)))
        ops.append(o)
        if R.random() < save_p:
            ops.append({'op': 'save', 'how': R.choice(['buffer', 'writer'])})
    if cs is not None and not placed and R.random() < .9:
        ops.append({'op': 'chartx', 's': cs, 'r': 0, 'c': 0, 'ch': G(R, sheets, 0).chart(opts=opts)})
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'writer'])})
    return ops


def option_history(R):
    """Charts with many options over a little data."""
    ops, sheets, cs = opening(R)
    p = CPool(R, nsheets=len(sheets))
    for _ in range(6):
        o = data_op(p)
        o.setdefault('s', R.randrange(len(sheets)))
        ops.append(o)
    g = G(R, sheets, .02)
    for k in range(R.choice([2, 3])):
        ops.append({'op': 'chartx', 's': R.randrange(len(sheets)), 'r': 10 + 20 * k, 'c': 3, 'ch': g.chart(opts=R.choice([True, .3]))})
    if cs is not None:
        ops.append({'op': 'chartx', 's': cs, 'r': 0, 'c': 0, 'ch': g.chart()})
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'writer'])})
    return ops
