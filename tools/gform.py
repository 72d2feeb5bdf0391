"""Random formulas built from calls, names, texts and references."""
import re, os
_s = open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec', 'Formulas.tla')).read()
FUTURE = re.findall(r'"([A-Z0-9.]+)"', _s[_s.index('FutureFn =='):_s.index('FnLetters')])
PLAIN = ['SUM', 'IF', 'MAX', 'LEN', 'VLOOKUP', 'FLOOR', 'RANK', 'VAR', 'STDEV', 'MODE', 'FIND', 'INDEX', 'NOT', 'IFERROR', 'WEEKDAY', 'TEXT', 'T', 'BASEX', 'DAY', 'DAYS360', 'LETTER', 'XIFS', 'A.IFS', 'IFS.B',
         'SORTX', 'T.DIST.3T', 'UNIQUE2']
NAMES = ['Name', 'my_SORT', 'mySORT', 'MY_FILTER', 'x.SORT', 'é', '中SORT', 'ÉSORT', '\\SORT', 'sort', 'Sort', 'Unique', 'A_IFS', '_SORT', 'SEC_', 'SORT1']
TEXTS = ['"x"', '"SORT(A1)"', '"a ""IFS(1)"" b"', '""', '"it\'s"', '"[SORT(1)"', '"SORT("', '"{1}"', '"é中"', '"="']
REFS = ['A1', '$B$2:C3', 'Sheet1!A1', "'My Sheet'!A1", "'SORT(1)'!A1", "'It''s IFS(1)'!$A$1", 'Table1[Col]', 'Table1[SORT(x)]', "Table1[a'[b]", "Table1[it''s]", 'Table1[[#This Row],[x y]]',
        '{1,2;3,4}', '{"a","b"}', '1.5', '1E+10', 'TRUE', '#N/A', 'Sheet1:Sheet3!A1', 'A:A', '[Book1.xlsx]Sheet1!A1', "'[SORT(1).xlsx]S 1'!A1", "'a\"b'!A1"]


def call(R, depth):
    f = R.choice(FUTURE) if R.random() < .6 else R.choice(PLAIN) if R.random() < .6 else R.choice(NAMES)
    n = R.choice([0, 1, 1, 2, 3])
    return f + R.choice(['', '', '', '', ' ' if R.random() < .2 else '']) + '(' + ','.join(expr(R, depth - 1) for _ in range(n)) + ')'


def expr(R, depth):
    x = R.random()
    if depth <= 0 or x < .25:
        return R.choice(R.choice([REFS, TEXTS, NAMES, ['1', '2', 'B3']]))
    if x < .8:
        return call(R, depth)
    return expr(R, depth - 1) + R.choice(['+', '-', '*', '&', '=', '<>', '^', ' ', ':', '/', ',', '>=', '&"x"&']) + expr(R, depth - 1)


def formula(R):
    f = expr(R, R.choice([0, 1, 2, 2, 3]))
    x = R.random()
    if x < .12:
        f = re.sub(r'(?<![\w.\\é中É])(SORT|FILTER)(?=\()', r'_xlfn._xlws.\1', f)
        f = re.sub(r'(?<![\w.\\é中É])(IFS|UNIQUE|XLOOKUP|STDEV\.S)(?=\()', r'_xlfn.\1', f) + '+_xlfn.%s(1)' % R.choice(['XOR', 'UNIQUE', 'SEQUENCE', 'T.TEST'])
    x = R.random()
    if x < .7:
        f = '=' + f
    elif x < .85 and not f.startswith('{'):
        f = '{=' + f + '}'
    elif x < .9 and not f.startswith('{'):
        f = '{' + f + '}'
    return f


def g_fc(p):
    R = p.R
    k = R.choice(['formula', 'formula', 'formula', 'array', 'dynarray', 'dynformula'])
    o = {'op': k, 'v': formula(R), 'chars': True}
    if k in ('array', 'dynarray'):
        p.rng(o)
    else:
        o.update(r=p.r(), c=p.c())
    if k != 'dynformula' and R.random() < .4:
        o['res'] = R.choice(['0', '5', 'text', 'TRUE', '#N/A', ''])
    if k == 'formula':
        o['via'] = R.choice(['', 'write'])
    return p.f(o, .15)
