"""Histories with pictures, charts, text boxes, buttons and notes."""
from gen import *

#       type, width, height, density x, density y, unit
BASES = [('png', 32, 32, 0, 0, 0), ('png', 64, 20, 0, 0, 0), ('png', 128, 64, 3780, 3780, 0), ('png', 127, 254, 10000, 10000, 1),
         ('png', 254, 127, 20000, 10000, 1), ('png', 1, 1, 0, 0, 0), ('png', 640, 400, 0, 0, 0), ('jpeg', 100, 75, 96, 96, 1), ('jpeg', 300, 150, 150, 75, 1),
         ('jpeg', 64, 64, 1, 1, 0), ('jpeg', 90, 60, 72, 144, 1), ('jpeg', 144, 72, 288, 96, 1), ('gif', 48, 96, 0, 0, 0), ('gif', 8, 300, 0, 0, 0),
         ('bmp', 33, 65, 0, 0, 0), ('bmp', 256, 16, 0, 0, 0)]
ALTS = ['', 'alt', 'a<b>&"c"', 'line\nbreak', 'é中', ' sp ']
MOVES = ['', '', '', 'move', 'movesize', 'none', 'after']
OURLS = ['http://example.com', 'https://a.b/c#frag', 'https://a.b/c#other', 'https://a.b/c', 'mailto:me@x.y', "internal:Sheet1!A1", "internal:'My Sheet'!$B$2",
         'file:///C:\\t\\f.xlsx', 'file:///C:\\t\\f.xlsx#Sheet1!A1', 'file://f.xlsx', 'file://f.xlsx#S!B2', 'http://x/a&b="d"', 'http://x/é q']


class OPool(Pool):
    def __init__(self, R, **kw):
        super().__init__(R, far=0, **kw)
        self.rows = [0, 1, 2, 3, 5, 9] + R.sample([4, 7, 15, 20, 40], 2)
        self.cols = [0, 1, 2, 3, 5, 7] + R.sample([4, 8, 12, 25, 30], 2)
        self.bases = R.sample(range(len(BASES)), R.choice([2, 3, 5]))
        self.at = [(R.choice(self.rows), R.choice(self.cols), R.choice([0, 0, 0, 3, 70]), R.choice([0, 0, 0, 5, 64, 200])) for _ in range(6)]
        if R.random() < .06:
            self.at.append((R.choice([1048570, 1048575, 1048000]), R.choice([0, 16383, 16370]), 0, 0))
        self.n = 0

    def place(self, o):
        R = self.R
        r, c, xo, yo = R.choice(self.at) if R.random() < .6 else (self.r(), self.c(), R.choice([0, 0, 1, 63, 64, 65, 130]), R.choice([0, 0, 1, 19, 20, 21, 45]))
        if R.random() < .03:
            r, c = R.choice([(1048576, 0), (0, 16384)])
        o.update(r=r, c=c, xo=xo, yo=yo)
        if xo == 0 and yo == 0 and R.random() < .7:
            o['via'] = 'plain'
        return o

    def common(self, o, url=.25):
        R = self.R
        if R.random() < .3:
            o['alt'] = R.choice(ALTS)
        if R.random() < .2:
            o['decov'] = R.random() < .8
        m = R.choice(MOVES)
        if m:
            o['mvv'] = m
        if R.random() < url:
            o['url'] = R.choice(OURLS)
            if R.random() < .5:
                o['tip'] = R.choice(['t', 'a "tip" <&>', 'x' * 255])
            if R.random() < .06:
                o['tip'] = 'x' * 256
            if R.random() < .05:
                o['url'] = R.choice(BADURLS)
        return o

    def img(self, fit=False):
        R = self.R
        b = R.choice(self.bases)
        t, w, h, dx, dy, unit = BASES[0] if fit and R.random() < .5 else BASES[2] if fit else BASES[b]
        if fit:
            b = BASES.index((t, w, h, dx, dy, unit))
        i = {'t': t, 'w': w, 'h': h, 'dx': dx, 'dy': dy, 'unit': unit, 'id': b}
        if t == 'jpeg' and b % 2:
            i['sof'] = 'c4first'
        k = R.random()
        plain = dx == 0 or unit == 0 or (t == 'jpeg' and dx == 96 and dy == 96)
        if fit:
            pass
        elif k < .25:
            i['sw'] = R.choice(['0.5', '1', '2', '0.25', '3'])
            if R.random() < .7:
                i['sh'] = R.choice(['0.5', '1', '2', '0.25', '3'])
        elif k < .35 and plain:
            i['setw'] = R.choice([0, w, 50, 129, 500])
            if R.random() < .5:
                i['seth'] = R.choice([0, h, 33, 120])
        elif k < .5:
            i['fitto'] = [w * R.choice([1, 2]), h * R.choice([1, 2, 4])]
            if R.random() < .1:
                i['fitto'][R.randrange(2)] = 0
            i['fitkeep'] = R.random() < .5
        return i


def o_image(p):
    return p.place({'op': 'image', 'img': p.common(p.img())})


def o_fit(p):
    o = p.place({'op': 'fit', 'img': p.common(p.img(True)), 'keep': p.R.random() < .5})
    o.update(xo=0, yo=0)
    return o


def o_ochart(p):
    R = p.R
    o = p.place({'op': 'ochart', 'type': R.choice(['column', 'bar', 'line', 'pie', 'area', 'scatter', 'radar', 'doughnut']), 'nser': R.choice([1, 1, 2, 3])})
    if R.random() < .04:
        o['nser'] = 0
    if R.random() < .7:
        p.n += 1
        o['title'] = R.choice(['T%d', 'T%d <&>', 'é%d']) % p.n
    if R.random() < .4:
        o['w'], o['h'] = R.choice([(100, 100), (480, 60), (33, 700)])
    if R.random() < .3:
        o['sw'] = R.choice(['0.5', '2', '1.25'])
        o['sh'] = R.choice(['0.5', '2', '0.75'])
    if R.random() < .2:
        p.n += 1
        o['name'] = 'Name %d"' % p.n
    return p.common(o, 0)


STYLE = {'fill': ['none', 'FF0000', '00B050'], 'linecolor': ['0070C0', '000001'], 'linewidth': ['1', '2.25', '6'], 'dash': ['dash', 'sysDot', 'lgDash'],
         'b': ['1'], 'i': ['1'], 'u': ['1'], 'st': ['1'], 'fn': ['Arial', 'Courier New'], 'fs': ['8', '11.5', '20'], 'fc': ['FF0000', '123456'],
         'ha': ['l', 'ctr', 'r'], 'va': ['ctr0', 'b0', 't1', 'ctr1', 'b1'], 'dir': ['wordArtVert', 'vert', 'vert270', 'eaVert']}


def o_shape(p):
    R = p.R
    o = p.place({'op': 'shape', 'opts': []})
    if R.random() < .8:
        p.n += 1
        o['text'] = R.choice(['S%d', 'S%d\nsecond', 'S%d\n\nthird', ' S%d <&> ', 'S%d']) % p.n
    if R.random() < .15:
        o['link'] = R.choice(['=$A$1', '=Sheet1!$B$2'])
    if R.random() < .4:
        o['w'], o['h'] = R.choice([(100, 30), (5, 5), (4, 200), (333, 4)])
    for k in sorted(R.sample(sorted(STYLE), R.choice([0, 0, 1, 2, 4]))):
        o['opts'].append([k, R.choice(STYLE[k])])
    if R.random() < .1 and not any(k in ('linecolor', 'linewidth', 'dash') for k, _ in o['opts']):
        o['opts'].append(['noline', '1'])
    p.common(o)
    o.pop('decov', None)
    return o


def o_button(p):
    R = p.R
    o = p.place({'op': 'button'})
    if R.random() < .6:
        o['cap'] = R.choice(['Press', 'a<b>&c', 'é', 'Button 9'])
    if R.random() < .6:
        o['mac'] = R.choice(['my_macro', 'do_it', 'x.y'])
    if R.random() < .4:
        o['w'], o['h'] = R.choice([(100, 30), (1, 1), (0, 60), (333, 0)])
    p.common(o, 0)
    o.pop('decov', None)
    return o


def o_note(p):
    R = p.R
    o = p.place({'op': 'note', 'text': R.choice(['n', 'Some text', 'two\nlines', ' sp', 'sp ', '<&>"', 'é中', '_x0041_', 'tab\there'])})
    if R.random() < .1:
        o['r'] = R.choice([1048575, 1048574, 1048573, 1048572, 0])
        o['c'] = R.choice([16383, 16382, 16381, 16380, 0, 1])
    if R.random() < .03:
        o['text'] = {'rep': 'n', 'n': R.choice([32713, 32714])}
    if R.random() < .5:
        o['author'] = R.choice(['Zed', 'Ann', 'Bob', 'author', 'é', 'a<b>', 'x' * 52, 'x' * 53])
    if R.random() < .4:
        o['prefixv'] = R.random() < .3
    if R.random() < .3:
        o['visv'] = R.random() < .5
    if R.random() < .2:
        o['bgv'] = R.choice(['FF0000', '00FF7F'])
    if R.random() < .2:
        o['fnv'] = R.choice(['Arial', 'Courier New'])
    if R.random() < .2:
        o['fsv'] = R.choice(['10', '8', '9.5'])
    if R.random() < .1:
        o['famv'] = R.choice([1, 3])
    if R.random() < .2:
        o['w'], o['h'] = R.choice([(200, 50), (1, 1), (0, 500)])
    if R.random() < .2:
        o['alt'] = R.choice(ALTS)
    return o


def o_misc(p):
    R = p.R
    k = R.choice(['shownotes', 'noteauthor', 'bgimg', 'bgimg'])
    o = {'op': k}
    if k == 'shownotes':
        o['v'] = R.random() < .7
    elif k == 'noteauthor':
        o['v'] = R.choice(['Default', 'Ann', 'x' * 52, 'x' * 53])
    else:
        o['img'] = p.img()
    return o


def o_hf(p):
    """A header or footer with pictures."""
    R = p.R
    k = R.random()
    which = R.choice(['header', 'footer'])
    if k < .35:
        return {'op': which, 'v': R.choice(['&L&G&C&G&R&G', '&C&[Picture]', '&L&G', '&RText &G', '&C&G text&R&[Picture]', '&CPage &P', '&LX&GY&L', ''])}
    return {'op': 'hfimg', 'which': which, 'pos': R.choice('LCR'), 'img': p.img()}


def o_embed(p):
    R = p.R
    o = {'op': 'embed', 'r': p.r(), 'c': p.c(), 'img': p.common(p.img())}
    return p.f(o, .3)


def o_size(p):
    R = p.R
    k = R.choice(['rheight', 'rheightpx', 'rhide', 'runhide', 'cwidth', 'cwidthpx', 'chide', 'rdefaultpx', 'cwidthspx'])
    o = {'op': k}
    if k == 'rdefaultpx':
        o['v'] = R.choice([20, 30, 16, 25])
        return o
    if k[0] == 'r':
        o['r'] = p.r()
    else:
        o['c'] = p.c()
    if k == 'rheight':
        o['v'] = R.choice(['0.0', '15.0', '30.0', '7.5', '100.5', '409.5'])
    elif k == 'rheightpx':
        o['v'] = R.choice([0, 20, 27, 100, 1])
    elif k == 'cwidth':
        o['v'] = R.choice(['0.0', '8.43', '10.0', '20.5', '0.5', '1.0', '100.0', '2.71'])
    elif k in ('cwidthpx', 'cwidthspx'):
        o['v'] = R.choice([0, 64, 65, 100, 12, 5, 500, 63, 7])
    if k == 'cwidthspx':
        o['c2'] = o['c'] + R.randrange(4)
    return o


def o_content(p):
    o = GENS[p.R.choice(['num', 'str', 'merge', 'cformat', 'clear'])](p)
    return o


def o_bad(p):
    R = p.R
    k = R.randrange(6)
    png = [0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a]
    b, why = [([], 'UnknownImageType'), ([1, 2, 3], 'UnknownImageType'), (list(b'TIFF  and more of it, some more bytes'), 'UnknownImageType'),
              (list(b'GIF89a\0\0\0\0\0\0\0\0'), 'ImageDimensionError'), (list(b'\xff\xd8\xff\xe0' + b'\0' * 30), None),
              (png + list(b'\0\0\0\x0dIHDR') + [0] * 24, 'ImageDimensionError')][k]
    if why is None:
        b, why = list(b'x' * 40), 'UnknownImageType'
    return p.place({'op': 'badimg', 'bytes': b, 'why': why})


OGENS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('o_')}


def object_case(R, weights, n, modes=('std', 'std', 'std', 'low', 'const', 'chart'), save_p=.06):
    p = OPool(R)
    ops = []
    kinds = [R.choice(modes) for _ in range(p.nsheets)]
    if kinds[0] == 'chart':      # charts show cells of Sheet1
        kinds[0] = 'std'
    for m in kinds:
        ops.append({'op': 'add_sheet', 'mode': m})
    names = list(weights)
    for k, m in enumerate(kinds):
        if m == 'chart' and R.random() < .97:
            ops.append(dict(o_ochart(p), s=k, nser=1))
    for _ in range(n):
        s = R.randrange(p.nsheets)
        k = R.choices(names, [weights[x] for x in names])[0]
        if kinds[s] == 'chart':
            # Charts sheets hold charts, and pictures in headers.
            if k not in ('ochart', 'hf'):
                continue
        if k == 'embed' and kinds[s] in ('const', 'low'):
            continue             # known finding
        o = OGENS[k](p)
        if o['op'] == 'rdefaultpx' and kinds[s] == 'const' and any(x.get('s') == s for x in ops):
            continue             # rows already written keep what they were given
        if k == 'hf' and o['op'] == 'hfimg' and R.random() < .6:
            ops.append({'op': o['which'], 'v': '&L&G&C&G&R&G', 's': s})
        ops.append(dict(o, s=s))
        if R.random() < save_p:
            ops.append({'op': 'save', 'how': R.choice(['buffer', 'path'])})
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'writer', 'path'])})
    return ops


def block_case(R):
    """More notes and buttons than a block of ids holds, next to other worksheets with some."""
    ops = [{'op': 'add_sheet', 'mode': 'std'} for _ in range(3)]
    for s in range(3):
        n = R.choice([1021, 1023, 1024, 1030]) if s == 0 else R.choice([1, 2, 5])
        b = R.choice([0, 1, 3])
        for k in range(n):
            o = {'op': 'button' if k < b else 'note', 'r': k // 8, 'c': k % 8, 'xo': 0, 'yo': 0, 's': s}
            if k >= b:
                o['text'] = 'n%d' % k
            ops.append(o)
    return ops + [{'op': 'save', 'how': 'buffer'}]
