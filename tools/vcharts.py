"""Facts about charts: every option of a chart as <path, value>."""
from xlsx import *
from views import enc, VIEWS, grid_facts
from annot import NUMRE

A = '{http://schemas.openxmlformats.org/drawingml/2006/main}'
C = '{http://schemas.openxmlformats.org/drawingml/2006/chart}'
XDR = '{http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing}'
# Elements which may be left out when they have this value.
PLAIN = {'delete': '0', 'overlay': '0', 'orientation': 'minMax', 'crosses': 'autoZero', 'tickLblPos': 'nextTo', 'lblAlgn': 'ctr', 'lblOffset': '100',
         'invertIfNegative': '0', 'smooth': '0', 'noEndCap': '0', 'varyColors': '0', 'autoTitleDeleted': '0', 'dispRSqr': '0', 'dispEq': '0', 'marker': '0',
         'showLegendKey': '0', 'showVal': '0', 'showCatName': '0', 'showSerName': '0', 'showPercent': '0', 'showLeaderLines': '0', 'plotVisOnly': '0',
         'showHorzBorder': '0', 'showVertBorder': '0', 'showOutline': '0', 'showKeys': '0', 'auto': '0', 'noMultiLvlLbl': '0', 'roundedCorners': '0',
         'style': '2', 'xMode': 'edge', 'yMode': 'edge', 'showBubbleSize': '0'}
FLAGS = {k for k, v in PLAIN.items() if v == '0'}
NUMERIC = {'max', 'min', 'crossesAt', 'majorUnit', 'minorUnit', 'forward', 'backward', 'intercept', 'x', 'y', 'w', 'h', 'val'}
EXTS = {'invertSolidFillFmt', 'showLeaderLines', 'dispNaAsBlank'}


def n0(t):
    f = float(t)
    return str(int(f)) if f == int(f) else repr(f)


class Rd:
    def __init__(self):
        self.out = []

    def put(self, p, v=''):
        self.out.append((p, v))

    def bad(self, p, what):
        self.out.append(('BAD' + p, what))

    # ---- colours, fills, lines, fonts ----
    def color(self, e, p):
        """Text of the colour in an element; alpha is a fact of its own."""
        kids = list(e)
        if len(kids) != 1:
            self.bad(p, 'colour')
            return '?'
        c, t = kids[0], local(kids[0].tag)
        m = {local(k.tag): k.get('val') for k in c}
        if set(m) - {'alpha', 'lumMod', 'lumOff'}:
            self.bad(p, 'colour ' + str(m))
        if 'alpha' in m:
            self.put(p + '@alpha', m['alpha'])
        if t == 'srgbClr':
            if 'lumMod' in m or 'lumOff' in m:
                self.bad(p, 'shade')
            return c.get('val')
        if t == 'schemeClr':
            return '%s:%s:%s' % (c.get('val'), m.get('lumMod', ''), m.get('lumOff', ''))
        return t + ':' + c.get('val')

    def fill(self, e, p):
        t = local(e.tag)
        if t == 'noFill':
            self.put(p, 'none')
        elif t == 'solidFill':
            self.put(p, 'solid')
            self.put(p + '/c', self.color(e, p + '/c'))
        elif t == 'pattFill':
            self.put(p, 'pattern:' + e.get('prst'))
            for k in e:
                self.put(p + ('/fg' if local(k.tag) == 'fgClr' else '/bg'), self.color(k, p))
        elif t == 'gradFill':
            kind = '?'
            for k in e:
                kt = local(k.tag)
                if kt == 'gsLst':
                    for i, s in enumerate(k, 1):
                        self.put('%s/stop%d' % (p, i), s.get('pos') + '|' + self.color(s, p))
                elif kt == 'lin':
                    kind = 'linear'
                    self.put(p + '@ang', k.get('ang'))
                elif kt == 'path':
                    kind = k.get('path')
            self.put(p, 'gradient:' + kind)
        else:
            self.bad(p, 'fill ' + t)

    def line(self, e, p):
        self.put(p)
        if e.get('w') is not None:
            self.put(p + '@w', e.get('w'))
        for k in e:
            t = local(k.tag)
            if t == 'noFill':
                self.put(p + '/fill', 'none')
            elif t == 'solidFill':
                self.put(p + '/color', self.color(k, p + '/color'))
            elif t == 'prstDash':
                if k.get('val') != 'solid':
                    self.put(p + '/dash', k.get('val'))
            else:
                self.bad(p, 'line ' + t)

    def sppr(self, e, p):
        for k in e:
            if local(k.tag) == 'ln':
                self.line(k, p + '/line')
            else:
                self.fill(k, p + '/fill')

    def rpr(self, e):
        """Font properties of one element."""
        out = []
        for k, v in e.attrib.items():
            if k in ('b', 'i', 'sz'):
                if not (k == 'i' and v == '0'):
                    out.append(('@' + k, v))
            elif k == 'u' and v != 'none' or k == 'strike' and v != 'noStrike':
                out.append(('@' + k, v))
            elif not (k in ('lang', 'altLang', 'dirty') or (k, v) in (('baseline', '0'), ('u', 'none'), ('strike', 'noStrike'))):
                self.bad('', 'font ' + k)
        for k in e:
            t = local(k.tag)
            if t == 'solidFill':
                out.append(('@color', self.color(k, '/font')))
            elif t == 'latin':
                if k.get('typeface') is not None:
                    out.append(('@face', enc(k.get('typeface'))))
                if k.get('pitchFamily', '0') != '0':
                    out.append(('@pitch', k.get('pitchFamily')))
                if k.get('charset', '0') != '0':
                    out.append(('@charset', k.get('charset')))
            else:
                self.bad('', 'font ' + t)
        return sorted(out)

    def body(self, e, p):
        """Text body: its font, and its text if it has one."""
        text, runs, default = None, [], None
        for k in e:
            t = local(k.tag)
            if t == 'bodyPr':
                if k.get('rot') is not None:
                    self.put(p + '@rot', k.get('rot') + '|' + k.get('vert', ''))
            elif t == 'p':
                for q in k:
                    qt = local(q.tag)
                    if qt == 'pPr':
                        if q.get('rtl') == '1':
                            self.put(p + '@rtl', '1')
                        d = q.find(A + 'defRPr')
                        default = self.rpr(d) if d is not None else None
                    elif qt == 'r':
                        r = q.find(A + 'rPr')
                        runs.append(self.rpr(r) if r is not None else [])
                        text = (text or '') + (q.findtext(A + 't') or '')
        if runs and default is not None and any(r != default for r in runs):
            self.bad(p, 'fonts of the runs')
        for k, v in runs[0] if runs else default or []:
            self.put(p + k, v)
        return text

    # ---- references ----
    def cache(self, e, p, num):
        n = None
        for k in e:
            t = local(k.tag)
            if t == 'formatCode':
                self.put(p + '/fmt', enc(unescape(k.text or '')))
            elif t == 'ptCount':
                n = int(k.get('val'))
                self.put(p + '/n', str(n))
            elif t == 'pt':
                v = unescape(k.findtext(C + 'v') or '')
                if num:
                    try:
                        v = fnum(v)
                    except ValueError:
                        self.bad(p, 'not a number: ' + v)
                elif NUMRE.match(v):
                    v = fnum(v)
                else:
                    v = enc(v)
                if n is None or not 0 <= int(k.get('idx')) < n:
                    self.bad(p, 'index of a cached cell')
                if v:
                    self.put('%s/p%s' % (p, k.get('idx')), v)
            else:
                self.bad(p, t)

    def ref(self, e, p):
        """strRef or numRef."""
        t = local(e.tag)
        if t not in ('strRef', 'numRef'):
            return self.bad(p, t)
        num = t == 'numRef'
        self.put(p, 'num' if num else 'str')
        for k in e:
            kt = local(k.tag)
            if kt == 'f':
                self.put(p + '/f', enc(k.text or ''))
            elif kt == ('numCache' if num else 'strCache'):
                self.cache(k, p, num)
            else:
                self.bad(p, kt)

    def tx(self, e, p):
        """Text of a title or label: written out or a reference."""
        for k in e:
            t = local(k.tag)
            if t == 'rich':
                s = self.body(k, p + '/font')
                self.put(p + '/text', enc(s or ''))
            else:
                self.ref(k, p + '/ref')

    # ---- everything else ----
    def simple(self, k, p, t=None):
        t = t or local(k.tag)
        v = k.get('val')
        if v is None:
            v = '1' if t in FLAGS else ''
        v = {'true': '1', 'false': '0'}.get(v, v)
        if t in NUMERIC:
            v = n0(v)
        if PLAIN.get(t) != v:
            self.put(p + '/' + t, v)

    def numfmt(self, k, p):
        self.put(p + '/numFmt', enc(k.get('formatCode')) + '|' + k.get('sourceLinked', '1'))

    def layout(self, e, p):
        for m in e:
            for k in m:
                self.simple(k, p + '/layout')

    def ext(self, e, p):
        """Extensions: only those known here."""
        for x in e:
            for k in x:
                t = local(k.tag)
                if t == 'dataDisplayOptions16':
                    for q in k:
                        self.simple(q, p)
                elif t == 'invertSolidFillFmt':
                    self.sppr(k[0], p + '/inv')
                elif t == 'showLeaderLines':
                    self.simple(k, p)
                else:
                    self.bad(p, 'extension ' + t)

    def common(self, k, p):
        """Things many elements have; False if it is not one of them."""
        t = local(k.tag)
        if t == 'spPr':
            self.sppr(k, p)
        elif t == 'txPr':
            if self.body(k, p + '/font') is not None:
                self.bad(p, 'text')
        elif t == 'layout':
            self.layout(k, p)
        elif t == 'numFmt':
            self.numfmt(k, p)
        elif t == 'extLst':
            self.ext(k, p)
        else:
            return False
        return True

    def group(self, e, p, own=None):
        """An element of which the children are read one by one."""
        for k in e:
            t = local(k.tag)
            if own and t in own:
                own[t](k)
            elif not self.common(k, p):
                if len(k) or (k.text or '').strip():
                    self.bad(p, t)
                else:
                    self.simple(k, p)

    def title(self, e, p):
        self.put(p)
        self.group(e, p, {'tx': lambda k: self.tx(k, p)})

    def named(self, e, p):
        """An element with a format only."""
        self.put(p)
        self.group(e, p)

    def marker(self, e, p):
        self.put(p + '/marker')
        self.group(e, p + '/marker')

    def point(self, e, p):
        q = '%s/pt%s' % (p, e.find(C + 'idx').get('val'))
        self.put(q)
        def mk(k):
            self.group(k, q + '/marker')
        self.group(e, q, {'idx': lambda k: None, 'marker': mk, 'bubble3D': lambda k: None})

    def labels(self, e, p):
        q = p + '/dLbls'
        self.put(q)
        def sep(at):
            return lambda k: self.put(at + '/separator', enc(k.text or ''))
        def one(k):
            r = '%s/%s' % (q, k.find(C + 'idx').get('val'))
            self.put(r)
            self.group(k, r, {'idx': lambda k: None, 'tx': lambda k: self.tx(k, r), 'separator': sep(r)})
        self.group(e, q, {'dLbl': one, 'separator': sep(q)})

    def trend(self, e, p):
        q = p + '/trend'
        self.put(q, e.find(C + 'trendlineType').get('val'))
        self.group(e, q, {'trendlineType': lambda k: None, 'name': lambda k: self.put(q + '/name', enc(k.text or '')),
                          'trendlineLbl': lambda k: self.group(k, q + '/label')})

    def err(self, e, p):
        d = e.find(C + 'errDir')
        q = p + '/err' + (d.get('val') if d is not None else '')
        self.put(q, e.find(C + 'errBarType').get('val'))
        self.group(e, q, {'errDir': lambda k: None, 'errBarType': lambda k: None, 'plus': lambda k: self.ref(k[0], q + '/plus'),
                          'minus': lambda k: self.ref(k[0], q + '/minus')})

    def series(self, e, n):
        i = e.find(C + 'idx').get('val')
        p = 's' + i
        self.put(p, 'g%d' % n)
        if e.find(C + 'order').get('val') != i:
            self.bad(p, 'order')
        def tx(k):
            if local(k[0].tag) == 'v':
                self.put(p + '/tx', enc(unescape(k[0].text or '')))
            else:
                self.ref(k[0], p + '/tx')
        def ref(t):
            return lambda k: self.ref(k[0], p + '/' + t)
        own = {'idx': lambda k: None, 'order': lambda k: None, 'tx': tx, 'marker': lambda k: self.marker(k, p), 'dPt': lambda k: self.point(k, p),
               'dLbls': lambda k: self.labels(k, p), 'trendline': lambda k: self.trend(k, p), 'errBars': lambda k: self.err(k, p)}
        own.update({t: ref(t) for t in ('cat', 'val', 'xVal', 'yVal')})
        self.group(e, p, own)

    def chartgroup(self, e, n, role):
        p = 'g%d' % n
        self.put(p, local(e.tag))
        ids = [k.get('val') for k in e.findall(C + 'axId')]
        if ids:
            self.put(p + '/axes', 'first' if {role.get(i) for i in ids} == {'x', 'y'} else 'second' if {role.get(i) for i in ids} == {'x2', 'y2'} else '?')
        def updown(k):
            q = p + '/upDownBars'
            self.put(q)
            self.group(k, q, {t: (lambda x, t=t: self.named(x, q + '/' + t)) for t in ('upBars', 'downBars')})
        own = {'axId': lambda k: None, 'ser': lambda k: self.series(k, n), 'upDownBars': updown}
        for t in ('dropLines', 'hiLowLines'):
            own[t] = lambda k, t=t: self.named(k, p + '/' + t)
        self.group(e, p, own)

    def axis(self, e, p):
        self.put(p, local(e.tag))
        def scaling(k):
            self.group(k, p)
        def units(k):
            self.group(k, p, {'dispUnitsLbl': lambda x: self.put(p + '/dispUnitsLbl')})
        own = {'axId': lambda k: None, 'crossAx': lambda k: None, 'scaling': scaling, 'title': lambda k: self.title(k, p + '/title'), 'dispUnits': units}
        for t in ('majorGridlines', 'minorGridlines'):
            own[t] = lambda k, t=t: self.named(k, p + '/' + t)
        self.group(e, p, own)

    def plot(self, e):
        axes = [k for k in e if local(k.tag) in ('catAx', 'dateAx', 'valAx', 'serAx')]
        groups = [k for k in e if local(k.tag).endswith('Chart')]
        aid = lambda k: k.find(C + 'axId').get('val')
        ids = [aid(k) for k in axes]
        role = {}
        if len(set(ids)) != len(ids) or len(ids) not in (0, 2, 4):
            self.bad('axes', 'number of axes')
        for j in range(0, len(axes) - 1, 2):
            pair = {ids[j], ids[j + 1]}
            names = ('x', 'y') if j == 0 else ('x2', 'y2')
            refs = [tuple(k.get('val') for k in g.findall(C + 'axId')) for g in groups]
            mine = [r for r in refs if set(r) == pair]
            if mine:
                for i, n in zip(mine[0], names):
                    role[i] = n
                if any(r != mine[0] for r in mine):
                    self.bad('axes', 'groups disagree about axes')
            else:
                flat = all(local(k.tag) == 'valAx' for k in axes[j:j + 2])
                for k in axes[j:j + 2]:
                    x = k.find(C + 'axPos').get('val') in 'bt' if flat else local(k.tag) != 'valAx'
                    role[aid(k)] = names[0 if x else 1]
            for k in axes[j:j + 2]:
                if {aid(k), k.find(C + 'crossAx').get('val')} != pair or aid(k) == k.find(C + 'crossAx').get('val'):
                    self.bad('axes', 'crossing axis')
        n = 0
        for k in e:
            t = local(k.tag)
            if t.endswith('Chart'):
                n += 1
                self.chartgroup(k, n, role)
            elif k in axes:
                self.axis(k, role.get(aid(k), '?'))
            elif t == 'dTable':
                self.named(k, 'dTable')
            elif not self.common(k, 'plot'):
                self.bad('plot', t)

    def legend(self, e):
        pos = e.find(C + 'legendPos')
        self.put('legend', pos.get('val') if pos is not None else 'r')
        def entry(k):
            d = k.find(C + 'delete')
            self.put('legend/del' + k.find(C + 'idx').get('val'), d.get('val', '1') if d is not None else '?')
        self.group(e, 'legend', {'legendPos': lambda k: None, 'legendEntry': entry})

    def space(self, root):
        top = {'lang': lambda k: None, 'printSettings': lambda k: None, 'protection': lambda k: None, 'date1904': lambda k: None,
               'chart': self.chart, 'spPr': lambda k: self.sppr(k, 'area')}
        for k in root:
            t = local(k.tag)
            if t in top:
                top[t](k)
            elif t == 'style':
                if k.get('val') != '2':
                    self.put('style', k.get('val'))
            else:
                self.bad('', t)

    def chart(self, e):
        for k in e:
            t = local(k.tag)
            if t == 'title':
                self.title(k, 'title')
            elif t == 'plotArea':
                self.plot(k)
            elif t == 'legend':
                self.legend(k)
            elif t == 'extLst':
                for p, v in self.sub(lambda r: r.ext(k, '')):
                    self.put(p.lstrip('/'), v)
            else:
                for p, v in self.sub(lambda r: r.simple(k, '')):
                    self.put(p.lstrip('/'), v)

    def sub(self, fn):
        r = Rd()
        fn(r)
        return r.out


def chart_parts(book):
    """Sheet number, place and part of every chart."""
    for i, s in enumerate(book.sheets(), 1):
        rels = book.rels(s['part'])
        for t, part, ext in rels.values():
            if t != 'drawing':
                continue
            drels = book.rels(part)
            for an in book.xml(part):
                g = an.find('.//' + C + 'chart')
                if g is None:
                    continue
                f = an.find(XDR + 'from')
                at = (int(f.find(XDR + 'row').text), int(f.find(XDR + 'col').text)) if f is not None else (0, 0)
                yield i, at, drels[g.get(R + 'id')][1]


def charts_facts(book, view):
    out = grid_facts(book, view - {'chart'})
    if 'chart' in view:
        for i, at, part in chart_parts(book):
            r = Rd()
            r.space(book.xml(part))
            key = '%d!%d,%d' % (i, at[0], at[1])
            for p, v in r.out:
                if p.startswith('BAD'):
                    out.append(('BAD', key, p, v))
                else:
                    out.append(('ch', key, p, v))
    return out


VIEWS['charts'] = charts_facts
