"""Normalises chart options for the specification: names as in the file format, numbers
as texts and thousandths, colours as tuples, texts as characters."""
import math
from views import enc

SYMBOL = dict(Square='square', Diamond='diamond', Triangle='triangle', X='x', Star='star', ShortDash='dot', LongDash='dash', Circle='circle', PlusSign='plus')
LPOS = dict(Default='', Center='ctr', Right='r', Left='l', Above='t', Below='b', InsideBase='inBase', InsideEnd='inEnd', OutsideEnd='outEnd', BestFit='bestFit')
APOS = dict(NextTo='nextTo', High='high', Low='low')
APOS['None'] = 'none'
TICK = {'None': 'none', 'Inside': 'in', 'Outside': 'out', 'Cross': 'cross'}
LEGPOS = dict(Right='r', Left='l', Top='t', Bottom='b', TopRight='tr')
EMPTY = dict(Gaps='gap', Zero='zero', Connected='span')
DASH = dict(Solid='solid', RoundDot='sysDot', SquareDot='sysDash', Dash='dash', DashDot='dashDot', LongDash='lgDash', LongDashDot='lgDashDot',
            LongDashDotDot='lgDashDotDot')
GRAD = dict(Linear='linear', Radial='circle', Rectangular='rect', Path='shape')
ALIGN = dict(Center='ctr', Left='l', Right='r')
TREND = {'None': 'none', 'Exponential': 'exp', 'Linear': 'linear', 'Logarithmic': 'log', 'Polynomial': 'poly', 'Power': 'power', 'MovingAverage': 'movingAvg'}
CROSS = dict(Automatic='autoZero', Min='min', Max='max')
PATTERN = {'Dotted%dPercent' % n: 'pct%d' % n for n in (5, 10, 20, 25, 30, 40, 50, 60, 70, 75, 80, 90)}
PATTERN.update(Wave='wave', Weave='weave', Plaid='plaid', Divot='divot', Zigzag='zigZag', Sphere='sphere', Shingle='shingle', Trellis='trellis',
               SmallGrid='smGrid', LargeGrid='lgGrid', DottedGrid='dotGrid', DottedDiamond='dotDmnd', DiagonalBrick='diagBrick', HorizontalBrick='horzBrick',
               LargeConfetti='lgConfetti', SmallConfetti='smConfetti', SolidDiamondGrid='solidDmnd', OutlinedDiamondGrid='openDmnd',
               SmallCheckerboard='smCheck', LargeCheckerboard='lgCheck', StripesBackslashes='dashDnDiag', StripesForwardSlashes='dashUpDiag',
               VerticalStripesDark='dkVert', HorizontalStripesDark='dkHorz', VerticalStripesLight='ltVert', HorizontalStripesLight='ltHorz',
               VerticalStripesNarrow='narVert', HorizontalStripesNarrow='narHorz', VerticalStripesAlternating='dashVert',
               HorizontalStripesAlternating='dashHorz')
for a, x in (('Light', 'lt'), ('Dark', 'dk'), ('Wide', 'wd')):
    for b, y in (('Downwards', 'Dn'), ('Upwards', 'Up')):
        PATTERN['DiagonalStripes' + a + b] = x + y + 'Diag'


def lower(v):
    return v[:1].lower() + v[1:]


def num0(t):
    f = float(t)
    return str(int(f)) if f == int(f) else repr(f)


def flt(v):
    f = float(v)
    return {'t': num0(f), 'm': max(-2000000000, min(2000000000, math.floor(f * 1000)))}


def color(c):
    if c.startswith('theme'):
        a, _, b = c[5:].partition('.')
        return ['theme', '', int(a), int(b or 0)]
    return ['rgb', c, 0, 0]


def slot(v):
    out = {'txt': '', 'tn': [], 'rg': [], 'sn': []}
    if 'rg' in v:
        out['sn'] = [enc(ch) for ch in v['rg'][0]]
        rg = list(v['rg'][1:])
        out['rg'] = rg
    else:
        t = v['t']
        out['txt'] = enc(t)
        out['tn'] = [enc(ch) for ch in t]
    return out


def same(v):
    return v


def opts(table):
    def fn(os):
        return [{'k': e['k'], 'v': table.get(e['k'], same)(e.get('v', True))} for e in os or []]
    return fn


def name(table):
    return lambda v: table[v]


LINE = opts(dict(color=color, width=flt, dash=name(DASH)))
SOLID = opts(dict(color=color))
PAT = opts(dict(pattern=name(PATTERN), fg=color, bg=color))
GR = opts(dict(type=name(GRAD), stops=lambda v: [[color(c), p] for c, p in v]))
FORMAT = opts(dict(line=LINE, border=LINE, solid=SOLID, pattern=PAT, gradient=GR))


def fmtarg(v):
    """A format, given as one or as its only part."""
    if 'format' in v:
        return FORMAT(v['format'])
    return FORMAT([{'k': k, 'v': x} for k, x in v.items()])


FONT = opts(dict(color=color, name=enc, size=flt))
PAIR = lambda v: [flt(v[0]), flt(v[1])]
LAYOUT = opts(dict(offset=PAIR, size=PAIR))
MARKER = opts(dict(type=name(SYMBOL), format=fmtarg))
LABEL = opts(dict(position=name(LPOS), format=fmtarg, font=FONT, numfmt=enc, separator=enc, text=slot))
TRENDLINE = opts(dict(type=lambda v: [TREND[v[0]], v[1] if len(v) > 1 else 0], format=fmtarg, lformat=fmtarg, lfont=FONT, name=enc, forward=flt,
                      backward=flt, intercept=flt))


def errtype(v):
    t = {'fixed': 'fixedVal', 'percentage': 'percentage', 'stddev': 'stdDev', 'stderr': 'stdErr', 'custom': 'cust'}[v[0]]
    return [t] if t == 'stdErr' else [t, slot(v[1]), slot(v[2])] if t == 'cust' else [t, flt(v[1])]


ERRBARS = opts(dict(type=errtype, direction=lower, format=fmtarg))
SERIES = opts(dict(values=slot, categories=slot, name=slot, format=fmtarg, marker=MARKER, label=LABEL, labels=lambda v: [LABEL(x) for x in v],
                   points=lambda v: [fmtarg(x) for x in v], colors=lambda v: [fmtarg({'solid': [{'k': 'color', 'v': c}]}) for c in v],
                   trendline=TRENDLINE, yerr=ERRBARS, xerr=ERRBARS, invertcolor=color))


def crossing(v):
    return ['category', v[1]] if v[0] == 'category' else ['at', flt(v[1])] if v[0] == 'at' else [CROSS[v[0]]]


def day(v):
    from annot import serial
    return {'t': num0(serial(v))}


AXIS = opts(dict(name=slot, namefont=FONT, format=fmtarg, font=FONT, numfmt=enc, crossing=crossing, max=flt, min=flt, maxdate=day, mindate=day,
                 major=flt, minor=flt, unit=lower, majordate=lower, minordate=lower, align=name(ALIGN), majorgridline=LINE, minorgridline=LINE,
                 labelpos=name(APOS), majortick=name(TICK), minortick=name(TICK), layout=LAYOUT))
TABLE = opts(dict(format=fmtarg, font=FONT))
TITLE = opts(dict(name=slot, format=fmtarg, font=FONT, layout=LAYOUT))
LEGEND = opts(dict(position=name(LEGPOS), layout=LAYOUT, format=fmtarg, font=FONT))


def chart(c):
    return {'type': c['type'], 'series': [{'push': bool(s.get('push')), 'os': SERIES(s['set'])} for s in c.get('series', [])],
            'set': SET(c.get('set')), 'title': TITLE(c.get('title')), 'legend': LEGEND(c.get('legend')),
            'x': AXIS(c.get('x')), 'y': AXIS(c.get('y')), 'x2': AXIS(c.get('x2')), 'y2': AXIS(c.get('y2'))}


SET = opts(dict(upfmt=fmtarg, downfmt=fmtarg, highlowfmt=fmtarg, dropfmt=fmtarg, table=TABLE, empty=name(EMPTY), area=fmtarg, plot=fmtarg,
                plotlayout=LAYOUT, combine=chart))


def a_chartx(o):
    o['cx'] = chart(o['ch'])
