"""Random histories for the grid state machine (validated by TLC afterwards)."""
import random
from annot import prep, annot

WORDS = ['a', 'b', 'A', 'foo', 'Foo ', ' bar', 'x<y&"z\'>', 'tab\there', 'line\nbreak', '\u00e9\u4e2d\U0001F600', '=1+1',
         '123', 'TRUE', '_x000D_', 'ctrl\x01x', ']]>', '', 'long' * 20, 'http://x.y', '#N/A', 'cr\rx', ' ', 'Column1', '_x005F_']
NUMS = ['0.0', '1.0', '-1.0', '0.1', '1e+300', '-1e-300', '123456789012345.0', '1.7976931348623157e+308', '5e-324', '3.14159',
        '1e+16', '1e-05', '-0.0', '2.5', '100.0', 'NaN', 'inf', '-inf', '9007199254740992.0', '0.30000000000000004']
FORMULAS = ['=1+1', 'SUM(A1:A5)', '={1+2}', '=IF(A1>0,"a<b","c&d")', '=A1&"x"', '=Sheet1!A1', "='My Sheet'!$A$1", '=PI()', '=""']
DYNF = ['=SORT(A1:A3)', '=FILTER(A1:A3,B1:B3>0)', '=UNIQUE(A1:A3)']
RESULTS = ['', '', '0', '5', '2.5', 'text', 'TRUE', 'FALSE', '#N/A', '#DIV/0!', '-1e5', 'a<b', '#GETTING_DATA', 'nan', 'inf', 'Infinity', ' ', 'TRUE ']
COLORS = ['FF0000', '00B050', '0000FF', '123456', 'FFFFFF', '000000', 'theme4', 'theme9', 'theme0.2', 'theme1.5', 'theme2.3', 'theme4.1', 'theme9.5', 'theme3.4']
BORDERS = ['thin', 'medium', 'dashed', 'dotted', 'thick', 'double', 'hair', 'mediumDashed', 'dashDot', 'mediumDashDot',
           'dashDotDot', 'mediumDashDotDot', 'slantDashDot']
PATTERNS = ['solid', 'mediumGray', 'darkGray', 'lightGray', 'darkHorizontal', 'darkVertical', 'darkDown', 'darkUp', 'darkGrid',
            'darkTrellis', 'lightHorizontal', 'lightVertical', 'lightDown', 'lightUp', 'lightGrid', 'lightTrellis', 'gray125', 'gray0625']
FVALUES = {
    'b': ['1'], 'i': ['1'], 'st': ['1'], 'u': ['single', 'double', 'singleAccounting', 'doubleAccounting'],
    'fc': COLORS, 'fn': ['Arial', 'Times New Roman'], 'fs': ['8', '12', '20', '10.5'], 'fam': ['1', '3'], 'chs': ['1', '128'],
    'scr': ['superscript', 'subscript'],
    'nf': ['0.00', '#,##0', 'yyyy\\-mm\\-dd', '"x"0.0', '0.000', 'General', '@', '[Red]0'], 'nfi': ['1', '2', '9', '14', '22', '49'],
    'bg': COLORS, 'fg': COLORS, 'pat': PATTERNS,
    'ha': ['left', 'center', 'right', 'fill', 'justify', 'centerContinuous', 'distributed'],
    'va': ['top', 'bottom', 'vcenter', 'vjustify', 'vdistributed'],
    'wrap': ['1'], 'shr': ['1'], 'rot': ['45', '-45', '90', '-90', '1', '270'], 'ind': ['1', '5'], 'rd': ['1', '2'],
    'bl': BORDERS, 'br': BORDERS, 'bt': BORDERS, 'bb': BORDERS, 'bd': BORDERS,
    'blc': COLORS, 'brc': COLORS, 'btc': COLORS, 'bbc': COLORS, 'bdc': COLORS, 'bdt': ['up', 'down', 'updown'],
    'lk': ['1'], 'hid': ['1'], 'qp': ['1'], 'cb': ['1'],
}


def fix_fmt(f):
    """Drop combinations whose meaning depends on setter order."""
    if 'nf' in f and 'nfi' in f:
        del f['nfi']
    if 'hl' in f:
        for k in ('fc', 'u'):
            f.pop(k, None)
    for side in ('bl', 'br', 'bt', 'bb', 'bd'):
        if side + 'c' in f and side not in f:
            del f[side + 'c']
    if 'bdt' in f and 'bd' not in f:
        del f['bdt']
    if 'bd' in f and 'bdt' not in f:
        f['bdt'] = 'up'
    return f


def rfmt(R, rich=False):
    keys = list(FVALUES)
    n = R.choice([0, 1, 1, 1, 2, 2, 3, 5, 9])
    if rich:
        keys = ['b', 'i', 'st', 'u', 'fc', 'fn', 'fs', 'scr']
        n = R.choice([0, 1, 1, 2])
    f = {k: R.choice(FVALUES[k]) for k in R.sample(keys, min(n, len(keys)))}
    return fix_fmt(f)


class Pool:
    """Small pools so that histories collide on cells, strings and formats."""

    def __init__(self, R, nsheets=None, far=0.05, simple=False):
        self.R = R
        self.nsheets = nsheets or R.choice([1, 1, 2, 3])
        self.rows = [0, 1, 2, 3] + R.sample([4, 5, 14, 15, 16, 17, 31, 32, 99], 2)
        self.cols = [0, 1, 2, 3] + R.sample([4, 5, 24, 25, 26, 27, 51, 52, 701, 702], 2)
        if R.random() < far:
            self.rows.append(R.choice([1048575, 1048574, 65536]))
            self.cols.append(R.choice([16383, 16382]))
        self.fmts = [rfmt(R) for _ in range(R.choice([2, 3, 5]))]
        self.words = R.sample(WORDS, 8)
        self.simple = simple

    def r(self):
        return self.R.choice(self.rows)

    def c(self):
        return self.R.choice(self.cols)

    def f(self, o, p=0.5):
        if self.R.random() < p:
            o['hf'] = True
            o['f'] = dict(self.R.choice(self.fmts))
        return o

    def rng(self, o, mx=4):
        R = self.R
        r, c = R.choice([0, 1, 2, 3, 5]), R.choice([0, 1, 2, 3, 24])
        o.update(r=r, c=c, r2=r + R.randrange(mx), c2=c + R.randrange(mx))
        return o


def g_num(p):
    R = p.R
    o = {'op': 'num', 'r': p.r(), 'c': p.c(), 'v': R.choice(NUMS) if R.random() < .7 else repr(R.uniform(-1e6, 1e6))}
    if R.random() < .2:
        o['via'] = 'write'
    return p.f(o)


def g_str(p):
    o = {'op': 'str', 'r': p.r(), 'c': p.c(), 'v': p.R.choice(p.words)}
    o['via'] = p.R.choice(['', 'write', 'opt'])
    if p.R.random() < .01:
        o['v'] = {'rep': 'z', 'n': p.R.choice([32766, 32767, 32768])}
    return p.f(o)


def g_bool(p):
    return p.f({'op': 'bool', 'r': p.r(), 'c': p.c(), 'v': p.R.random() < .5, 'via': p.R.choice(['', 'write'])})


def g_checkbox(p):
    return p.f({'op': 'checkbox', 'r': p.r(), 'c': p.c(), 'v': p.R.random() < .5})


def g_blank(p):
    return p.f({'op': 'blank', 'r': p.r(), 'c': p.c(), 'via': p.R.choice(['', 'write'])}, 1.0)


def g_formula(p):
    o = {'op': 'formula', 'r': p.r(), 'c': p.c(), 'v': p.R.choice(FORMULAS), 'via': p.R.choice(['', 'write'])}
    if p.R.random() < .5:
        o['res'] = p.R.choice(RESULTS)
    return p.f(o)


def g_dynfn(p):
    o = {'op': 'formula', 'r': p.r(), 'c': p.c(), 'v': p.R.choice(DYNF), 'dyn': True}
    o['ft'] = o['v'].replace('=SORT', '_xlfn._xlws.SORT').replace('=FILTER', '_xlfn._xlws.FILTER').replace('=UNIQUE', '_xlfn.UNIQUE')
    return p.f(o)


def g_array(p):
    o = p.rng({'op': p.R.choice(['array', 'dynarray']), 'v': p.R.choice(FORMULAS)})
    if p.R.random() < .5:
        o['res'] = p.R.choice(RESULTS)
    return p.f(o)


def g_dynformula(p):
    return p.f({'op': 'dynformula', 'r': p.r(), 'c': p.c(), 'v': p.R.choice(FORMULAS)})


def g_rich(p):
    R = p.R
    segs = [{'f': rfmt(R, True), 't': R.choice([w for w in p.words if w] + ['q'])} for _ in range(R.choice([1, 2, 2, 3]))]
    if R.random() < .05:
        segs[R.randrange(len(segs))]['t'] = ''
    if R.random() < .03:
        segs = []
    return p.f({'op': 'rich', 'r': p.r(), 'c': p.c(), 'segs': segs})


URLS = ['http://example.com', 'https://a.b/c', 'ftp://x.y/z', 'ftps://s', 'http://a.b/#frag', 'https://a.b/x y#f g#h', 'mailto:me@x.y', 'mailto:a b@c',
        'internal:Sheet1!A1', "internal:'My Sheet'!$B$2", 'internal:#x', 'file:///C:\\t\\f.xlsx', 'file:///C:\\a b\\f.xlsx#Sheet1!A1', 'file://f.xlsx',
        'file://../d/f.xlsx#S!B2', 'file://\\\\srv\\share\\f.xlsx', 'file:///d/e', 'http://x/%20y z', 'http://x/%41 z', 'http://x/[q]{w}^`<>"',
        'http://x/a&b=c;d\'e', 'http://x/é中', 'http://x/%', 'http://x/%5b %', 'internal:S!A1 "q" <t>&', 'file://a:b/c d', 'file://é:x', 'http://',
        'https://a.b/c%2', 'http://x/%5D q', 'http://x/%22 q', 'http://x/%25 q', 'http://x/%3c q', 'http://x/%3e q', 'http://x/%5d q', 'http://x/%5e q', 'http://x/%60 q', 'http://x/%7b q', 'http://x/%7d q', 'http://x/%7D q', 'mailto:mailto:x']
BADURLS = ['example.com', 'HTTP://x', '', 'www.x.y', 'gopher://x', 'interna:A1', 'file:/x', 'mailt:x']


def g_url(p):
    R = p.R
    o = {'op': 'url', 'r': p.r(), 'c': p.c(), 'url': R.choice(['http://example.com', 'https://a.b/c', 'ftp://x.y/z'])}
    if R.random() < .4:
        o['text'] = R.choice([w for w in p.words if w] + ['q'])
    if R.random() < .3:
        o['tip'] = 'a tip'
    return p.f(o, .3)


def g_link(p):
    """Links of every kind."""
    R = p.R
    o = {'op': 'url', 'r': p.r(), 'c': p.c(), 'url': R.choice(URLS)}
    k = R.random()
    if k < .12:
        o['url'] = R.choice(BADURLS)
    elif k < .17:
        o['url'] = {'rep': 'x', 'n': 1, 'pre': R.choice(['http://', 'internal:', 'mailto:', 'file:///', 'http://a#'])}
        o['url']['n'] = R.choice([2060, 2071, 2072, 2073, 2074, 2079, 2080, 2081, 2082, 2087, 2088, 2089, 2090])
    if R.random() < .4:
        o['text'] = R.choice([w for w in p.words if w] + ['q'])
    if R.random() < .4:
        o['tip'] = R.choice(['a tip', 't<"&\'> x', 'é', 'a\nb', {'rep': 't', 'n': 255}, {'rep': 't', 'n': 256}, {'rep': 'é', 'n': 255}])
    if 'text' in o and R.random() < .3:
        o['via'] = 'options'
        o.setdefault('tip', '')
    elif R.random() < .3:
        o['via'] = 'write'
    return p.f(o, .3)


def g_seq(p):
    R = p.R
    k = R.choice(['row', 'col', 'rowmat', 'colmat', 'srow'])
    o = {'op': k, 'r': p.r(), 'c': p.c()}
    if k in ('row', 'col'):
        o['vs'] = [R.choice(NUMS) for _ in range(R.randrange(4))]
    elif k == 'srow':
        o['vs'] = [R.choice(['u', 'v', 'w', '']) for _ in range(R.randrange(4))]
    else:
        o['vs'] = [[R.choice(NUMS) for _ in range(R.randrange(4))] for _ in range(R.randrange(3))]
        return o
    return p.f(o)


def g_srow(p):
    o = {'op': 'srow', 'r': p.r(), 'c': p.c(), 'vs': [p.R.choice(['u', 'v', 'w', '']) for _ in range(p.R.randrange(4))]}
    return p.f(o)


def g_merge(p):
    o = p.rng({'op': 'merge', 'v': p.R.choice(p.words)}, 3)
    return p.f(o, 1.0)


def g_setres(p):
    return {'op': 'set_result', 'r': p.r(), 'c': p.c(), 'v': p.R.choice([x for x in RESULTS if x])}


def g_setresd(p):
    return {'op': 'set_result_default', 'v': p.R.choice(['', '0', 'n/a', '7'])}


def g_clear(p):
    return {'op': 'clear', 'r': p.r(), 'c': p.c()}


def g_clearf(p):
    return {'op': 'clearf', 'r': p.r(), 'c': p.c()}


def g_setf(p):
    return p.f({'op': 'setf', 'r': p.r(), 'c': p.c()}, 1.0)


def g_setrf(p):
    return p.f(p.rng({'op': 'setrf'}), 1.0)


def g_setrfb(p):
    R = p.R
    o = p.f(p.rng({'op': 'setrfb'}), 1.0)
    b = {}
    for k in ('bl', 'br', 'bt', 'bb'):
        if R.random() < .8:
            b[k] = R.choice(BORDERS)
            if R.random() < .5:
                b[k + 'c'] = R.choice(COLORS)
    o['bf'] = b
    return o


def g_nanval(p):
    return {'op': 'nanval', 'which': p.R.choice(['nan', 'inf', 'ninf']), 'v': p.R.choice(['#NUM!', 'Inf', 'x'])}


def g_rformat(p):
    return p.f({'op': 'rformat', 'r': p.r()}, 1.0)


def g_cformat(p):
    R = p.R
    if R.random() < .3:
        c = R.choice([0, 1, 2])
        return p.f({'op': 'cformats', 'c': c, 'c2': c + R.randrange(-1, 4) if c else c + R.randrange(4)}, 1.0)
    return p.f({'op': 'cformat', 'c': p.c()}, 1.0)


def g_rowprop(p):
    R = p.R
    k = R.choice(['rheight', 'rheight', 'rheightpx', 'rhide', 'runhide', 'rgroup', 'rgroup', 'rgroupc'])
    o = {'op': k, 'r': p.r()}
    if k == 'rheight':
        o['v'] = R.choice([0, 15, 30, 20.25, 409.5, 8])
        o['v'] = str(float(o['v']))
    elif k == 'rheightpx':
        o['v'] = R.choice([0, 20, 27, 100, 1])
    elif k.startswith('rgroup'):
        o['r'] = R.choice([0, 1, 2, 3, 5])
        o['r2'] = o['r'] + R.randrange(5)
    return o


def g_rdefault(p):
    if p.R.random() < .5:
        return {'op': 'rdefault', 'v': str(float(p.R.choice([0, 15, 30, 20.25, 8])))}
    return {'op': 'rdefaultpx', 'v': p.R.choice([0, 20, 27, 100, 1])}


def g_colprop(p):
    R = p.R
    k = R.choice(['cwidth', 'cwidth', 'cwidthpx', 'cautow', 'chide', 'chides', 'cwidths', 'cwidthspx', 'cgroup', 'cgroup', 'cgroupc'])
    o = {'op': k, 'c': p.c()}
    if k in ('cwidth', 'cwidths'):
        o['v'] = str(float(R.choice([0, 8.43, 10, 20.5, 0.5, 1, 254.5, 255, 300, 0.08, 8.5, 2.71])))
    elif k in ('cwidthpx', 'cautow', 'cwidthspx'):
        o['v'] = R.choice([0, 64, 65, 100, 12, 5, 1790, 2000, 63, 7])
    if k in ('chides', 'cwidths', 'cwidthspx', 'cgroup', 'cgroupc'):
        o['c'] = R.choice([0, 1, 2, 3, 5, 25])
        o['c2'] = o['c'] + R.choice([0, 1, 2, 3, 4])
        if R.random() < .05:
            o['c2'] = max(0, o['c'] - 1)
    return o


def g_bad(p):
    """A call that should be rejected."""
    R = p.R
    big = R.choice([(1048576, 0), (0, 16384), (2147483647, 0), (1048576, 16384), (0, 65535)])
    k = R.choice(['num', 'str', 'bool', 'blank', 'formula', 'rich', 'array', 'merge', 'setf', 'setrf', 'setrfb', 'row', 'rheight', 'rformat',
                  'url', 'longstr', 'cwidth', 'cformat', 'order', 'single', 'lastmerge', 'lastarr', 'datetime', 'checkbox', 'rhide', 'chide',
                  'longmerge', 'longurltext', 'autofilter', 'aforder', 'nosheet', 'rgroup', 'cgroup', 'runhide'])
    r, c = big
    x = {'num': lambda: {'op': 'num', 'v': R.choice(['1.0', 'NaN'])}, 'str': lambda: {'op': 'str', 'v': 'zz'}, 'bool': lambda: {'op': 'bool', 'v': True},
         'blank': lambda: {'op': 'blank'}, 'formula': lambda: {'op': 'formula', 'v': '=1'},
         'rich': lambda: {'op': 'rich', 'segs': [{'f': {}, 't': 'a'}, {'f': {'b': '1'}, 't': 'b'}]},
         'setf': lambda: {'op': 'setf'}, 'url': lambda: {'op': 'url', 'url': 'http://q.r'},
         'checkbox': lambda: {'op': 'checkbox', 'v': True},
         'datetime': lambda: {'op': 'datetime', 'v': '2024-01-01', 'serial': '45292.0'}}
    if k in x:
        return p.f(dict(x[k](), r=r, c=c))
    if k in ('array', 'merge', 'setrf', 'setrfb', 'autofilter'):
        o = {'op': k, 'r': r, 'c': c, 'r2': r, 'c2': c, 'v': 'q'}
        if k == 'setrfb':
            o['bf'] = {'bl': 'thin'}
        return o if k == 'autofilter' else p.f(o)
    if k == 'lastmerge':
        return p.f({'op': 'merge', 'r': 1, 'c': 1, 'r2': max(r, 1), 'c2': max(c, 1), 'v': 'q'})
    if k == 'lastarr':
        return p.f({'op': 'array', 'r': 1, 'c': 1, 'r2': max(r, 1), 'c2': max(c, 1), 'v': '=1'})
    if k == 'row':
        return p.f({'op': 'row', 'r': p.r(), 'c': R.choice([16381, 16382, 16383, 16384]), 'vs': ['1.0', '2.0', '3.0']})
    if k == 'rheight':
        return {'op': 'rheight', 'r': 1048576, 'v': R.choice(['20.0', '0.0'])}
    if k == 'rformat':
        return p.f({'op': 'rformat', 'r': 1048576})
    if k in ('rhide', 'runhide'):
        return {'op': k, 'r': R.choice([1048576, 2147483647])}
    if k == 'cwidth':
        return {'op': 'cwidth', 'c': R.choice([16384, 65535]), 'v': R.choice(['20.0', '0.0'])}
    if k == 'cformat':
        return p.f({'op': 'cformat', 'c': 16384})
    if k == 'chide':
        return {'op': 'chide', 'c': 16384}
    if k == 'rgroup':
        return {'op': R.choice(['rgroup', 'rgroupc']), 'r': R.choice([3, 1048575]), 'r2': R.choice([1, 1048576])}
    if k == 'cgroup':
        return {'op': R.choice(['cgroup', 'cgroupc']), 'c': R.choice([3, 16383]), 'c2': R.choice([1, 16384])}
    if k == 'longstr':
        return p.f({'op': 'str', 'r': p.r(), 'c': p.c(), 'v': {'rep': '\u00e9', 'n': 32768}})
    if k == 'longmerge':
        return p.f(p.rng({'op': 'merge', 'v': {'rep': 'y', 'n': 32768}}, 3))
    if k == 'longurltext':
        return {'op': 'url', 'r': p.r(), 'c': p.c(), 'url': 'http://q.r', 'text': {'rep': 'y', 'n': 32768}}
    if k in ('order', 'aforder'):
        o = {'op': 'autofilter' if k == 'aforder' else R.choice(['merge', 'array', 'dynarray', 'setrf', 'setrfb']), 'v': '=1',
             'r': 3, 'c': 3, 'r2': R.choice([2, 3]), 'c2': 2, 'bf': {'bt': 'thin'}}
        return o if k == 'aforder' else p.f(o)
    if k == 'single':
        r, c = p.r(), p.c()
        return p.f({'op': 'merge', 'r': r, 'c': c, 'r2': r, 'c2': c, 'v': 'x'})
    return {'op': 'num', 'r': 0, 'c': 0, 'v': '1.0', 's': 9}


def g_autofilter(p):
    return p.rng({'op': 'autofilter'}, 5)


DXF = {'b': ['1'], 'i': ['1'], 'st': ['1'], 'u': ['single', 'double'], 'fc': COLORS, 'bg': COLORS, 'nf': ['0.000', '"x"0.0', '0.00', '[Red]0'],
       'bl': BORDERS, 'br': BORDERS, 'bt': BORDERS, 'bb': BORDERS, 'blc': COLORS, 'bbc': COLORS}


def rdxf(R):
    """A format whose every property is stored in the differential formats."""
    f = {k: R.choice(DXF[k]) for k in R.sample(list(DXF), R.choice([1, 1, 2, 3, 5]))}
    if R.random() < .2:
        f.update(pat=R.choice(PATTERNS[1:]), fg=R.choice(COLORS), bg=R.choice(COLORS))
    return fix_fmt(f)


HEADERS = ['', '', 'Name', 'name', 'Qty', 'a [b]', "it's", '#1', 'x<y&"z"', 'Column2', 'Column1', '\u00e9\u4e2d', ' pad ', '123', 'line\nbreak', '_x0041_', 'tab\tx']
LABELS = ['Total', 'Totals', '', 'a&b<c>"d"', '_x0041_', 'x\ny']
COLFORMULAS = ['=SUM(Table1[@[Q 1]:[Q 2]])', '=A1*2', '="@"&Table1[@Name]', '=[@Qty]+1', '{=1+2}', '=STDEV.S(A1:A3)', '"a<b"&1', '=Table1[[#Totals],[Qty]]']
TABLE_STYLES = ['None', 'Light1', 'Light11', 'Light21', 'Medium1', 'Medium2', 'Medium9', 'Medium28', 'Dark1', 'Dark7', 'Dark11', 'Light9', 'Medium15']
TABLE_NAMES = ['Sales', 'sales', 'Table1', 'Table2', 'table3', '_t', 'T.x', '\u00c9t\u00e9', '\u00e9t\u00e9']


def g_table(p):
    R = p.R
    o = {'op': 'table'}
    if R.random() < .9:
        o.update(r=R.choice([0, 0, 3, 3, 7, 12, 20]) + R.choice([0, 0, 0, 1]), c=R.choice([0, 0, 2, 5, 8, 24]))
        o.update(r2=o['r'] + R.choice([1, 1, 2, 2, 3, 4, 0]), c2=o['c'] + R.choice([0, 1, 1, 2, 3]))
    else:
        p.rng(o, 5)
    if R.random() < .03:
        o[R.choice(['r', 'r2'])] = R.choice([1048576, 1048575])
    if R.random() < .02:
        o['c2'] = R.choice([16384, 0])
    if o['r2'] - o['r'] > 60:
        o['r2'] = max(o['r2'], 1048576)
        o['r2'] = 1048576 if o['r'] < 1000 else o['r2']
    opts = [[k, R.random() < .5] for k in ('header', 'total', 'banded', 'bandedc', 'first', 'last', 'filter') if R.random() < .35]
    if R.random() < .3:
        opts.append(['style', R.choice(TABLE_STYLES)])
    if R.random() < .2:
        opts.append(['name', R.choice(TABLE_NAMES)])
    given = []
    if R.random() < .6:
        opts.append(['cols', ''])
        for _ in range(R.choice([1, 1, 2, 3, 5])):
            c = {}
            if R.random() < .6:
                c['header'] = R.choice(HEADERS)
            if R.random() < .5:
                c['tfn'] = R.choice(['none', 'average', 'count', 'countNums', 'max', 'min', 'sum', 'stdDev', 'var', 'custom'])
                if c['tfn'] == 'custom':
                    c['tformula'] = R.choice(['=SUM(A1:A9)', 'MAX(B1:B3)', '=VAR.S([Qty])'])
            if R.random() < .3:
                c['label'] = R.choice(LABELS)
            if R.random() < .3:
                c['formula'] = R.choice(COLFORMULAS)
            if R.random() < .35:
                c['format'] = rdxf(R)
            if R.random() < .2:
                c['hformat'] = rfmt(R)
            given.append(c)
    R.shuffle(opts)
    o['opts'], o['given'] = opts, given
    return o


def g_headtext(p):
    """Text where tables put their headers."""
    return p.f({'op': 'str', 'r': p.R.choice([0, 3, 7]), 'c': p.R.choice([0, 1, 2, 3, 5, 6, 8]), 'v': p.R.choice([h for h in HEADERS if h]), 'keyed': True}, .3)


FWORDS = ['East', 'east', 'West', 'North', 'no', 'A', 'b', 'ab', 'abc', 'Z1', '1', '10', '2', '\u00c9t\u00e9', '\u00e9t\u00e9', 'Ea st']
FNUMS = ['0.0', '1.0', '2.0', '2.5', '-1.0', '10.0', '1000.0', '-0.5', '3000.0']


def filter_value(R, words, nums):
    if R.random() < .5:
        return {'n': R.choice(nums)}
    return R.choice(words)


def filter_case(R, size=30):
    """Data under an autofilter, conditions, and edits of both."""
    words, nums = R.sample(FWORDS, 6), R.sample(FNUMS, 5)
    r0, c0 = R.choice([0, 0, 2, 30]), R.choice([0, 0, 1, 25])
    h, w = R.choice([1, 3, 6, 12]), R.choice([1, 2, 3])
    row = lambda: r0 + R.randrange(h + 1)
    col = lambda: c0 + R.randrange(w)
    mixed = R.random() < .5
    ops = [{'op': 'add_sheet', 'mode': 'std'}]

    def cell(r, c):
        k = R.random()
        if k < .15:
            return {'op': 'blank', 'r': r, 'c': c, 'hf': True, 'f': {'b': '1'}}
        if k < .2:
            return {'op': 'bool', 'r': r, 'c': c, 'v': R.random() < .5}
        if k < .25:
            return {'op': 'rich', 'r': r, 'c': c, 'keyed': True, 'segs': [{'f': {}, 't': R.choice(['a', 'E'])}, {'f': {'b': '1'}, 't': R.choice(['b', 'ast'])}]}
        if k < .62:
            return {'op': 'str', 'r': r, 'c': c, 'v': R.choice(words), 'keyed': True}
        return {'op': 'num', 'r': r, 'c': c, 'v': R.choice(nums), 'keyed': True}

    def cond():
        k = R.random()
        conds = []
        if k < .5:
            conds = [{'k': 'list', 'v': filter_value(R, words, nums)} for _ in range(R.choice([0, 1, 1, 2, 3]))]
            if R.random() < .35 or not conds:
                conds.insert(R.randrange(len(conds) + 1), {'k': 'blanks'})
        else:
            for _ in range(R.choice([1, 1, 2, 2, 2, 3])):
                kk = R.choice(['eq', 'ne', 'gt', 'ge', 'lt', 'le', 'bw', 'nbw', 'ew', 'new', 'ct', 'nct'])
                v = filter_value(R, words, nums)
                if R.random() < .08:
                    kk, v = 'ne', ' '
                conds.append({'k': kk, 'v': v})
            if R.random() < .4:
                conds.insert(R.choice([len(conds), 1]), {'k': 'or'})
        return conds

    for r in range(r0, r0 + h + 1):
        for c in range(c0, c0 + w):
            if R.random() < .85:
                ops.append(cell(r, c))
    ops.append({'op': 'autofilter', 'r': r0, 'c': c0, 'r2': r0 + h, 'c2': c0 + w - 1})
    for _ in range(R.choice([1, 2, 2, 3, 6])):
        k = R.random()
        if k < .6:
            o = {'op': 'filter', 'c': col(), 'conds': cond()}
            if R.random() < .05:
                o['c'] = R.choice([c0 + w, 16384, 65535])
            if R.random() < .03:
                o['conds'] = []
            ops.append(o)
        elif k < .75:
            ops.append(cell(row(), col()))
        elif k < .8:
            ops.append({'op': 'clear', 'r': row(), 'c': col()})
        elif k < .85:
            ops.append({'op': 'autofilter', 'r': r0, 'c': c0, 'r2': r0 + R.randrange(h + 1), 'c2': c0 + R.randrange(w)})
        elif k < .88:
            ops.append({'op': 'filteroff'})
        elif k < .94:
            ops.append({'op': R.choice(['rhide', 'runhide']), 'r': row()})
        else:
            ops.append({'op': 'rheight', 'r': row(), 'v': '20.0'})
        if R.random() < .15:
            ops.append({'op': 'save', 'how': 'buffer'})
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'path'])})
    for o in ops:
        if o['op'] not in ('add_sheet', 'save'):
            o['s'] = 0
    return ops


GENS = {k[2:]: v for k, v in list(globals().items()) if k.startswith('g_')}


def history(R, weights, n, modes=('std',), pool=None, save_p=0.08, far=0.03, first=()):
    """One random history: sheets, n operations, a final save."""
    p = pool or Pool(R, far=far)
    ops = [{'op': 'add_sheet', 'mode': R.choice(modes)} for _ in range(p.nsheets)]
    for f in first:
        ops.append(f(p))
    kinds = list(weights)
    ws = [weights[k] for k in kinds]
    for _ in range(n):
        k = R.choices(kinds, ws)[0]
        o = GENS[k](p)
        o.setdefault('s', R.randrange(p.nsheets))
        ops.append(o)
        if R.random() < save_p:
            ops.append({'op': 'save', 'how': R.choice(['buffer', 'writer', 'path'])})
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'writer', 'path'])})
    return ops


# -- conversions ------------------------------------------------------------------
SHEET_NAMES = ['Sheet1', 'Data', 'My Sheet', "It's", 'A1', 'a1', 'XFD1048576', 'XFE1', 'A1048577', 'R', 'c', 'rc', 'RC1', 'R1C1', 'R1048577', 'C16384x', 'C16385x',
               'R0x', 'RC0', 'r5 x', 'Q.1', 'A.1', '.x', '1st', '123', 'x-y', 'a,b', '%E9', 'é1', 'Été', '中文', '\U0001F600', 'a\U0001F600', '\u2603x', 'x²', 'a+b', 'a!b',
               'é', 'R1é', 'RC16384', 'RC16385', 'ABCD1', 'AAA1', 'ZZZ1', 'A01', 'A0', 'A00', 'a$1', '_1', 'x' * 31, 'T"q"', 'a<b>&c', 'C0', 'R99999999999', 'rc1x', 'C20000', "a''b", '€5', 'A\u00a0B']
BAD_NAMES = ['', 'x' * 32, 'a*b', 'a?', ':a', 'a[1', ']', 'a\\b', 'a/b', "'a", "a'", "'", "''", 'é' * 32, "'a:", 'x' * 33 + ':']


def rname(R):
    k = R.random()
    if k < .5:
        return R.choice(SHEET_NAMES)
    return ''.join(R.choice("ARCrcXx019.'_ é中\U0001F600") for _ in range(R.randrange(1, 7))).strip("'") or 'q'


def pure_case(R, n):
    ops = []
    row = lambda: R.choice([0, 1, 8, 9, 10, 98, 99, 100, 65535, 65536, 999999, 1048574, 1048575, R.randrange(1048576)])
    col = lambda: R.choice([0, 1, 24, 25, 26, 27, 51, 52, 675, 676, 700, 701, 702, 703, 728, 16382, 16383, R.randrange(16384)])
    for _ in range(n):
        k = R.choice(['cellref', 'rangeref', 'wsrange', 'quote', 'quote', 'checkname'])
        o = {'op': k}
        if k in ('cellref', 'rangeref', 'wsrange'):
            o.update(r=row(), c=col(), r2=row(), c2=col())
            if R.random() < .2:
                o.update(r2=o['r'], c2=o['c'])
        if k in ('wsrange', 'quote'):
            o['name'] = rname(R)
        if k == 'checkname':
            o['name'] = R.choice(BAD_NAMES) if R.random() < .5 else rname(R)
        ops.append(o)
    return ops
