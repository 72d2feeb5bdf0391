"""Histories with serialized structs."""
from gen import *

FIELDS = ['name', 'price', 'in_stock', 'a', 'b', 'A', 'Qty', '\u00e9', 'x y', 'r#type', '_', 'a<b>&"c"', 'date', '1', '_x0041_']
STRUCTS = ['S', 'T', 's', 'Produce', 'A b', '\u00c9t\u00e9', 'Option', 'a<b>']
RENAMES = ['Item', 'item', 'Cost ($)', 'a [b]', "it's", '#1', 'x<y&"z"', 'Column2', '\u00e9\u4e2d', ' pad ', '123', 'line\nbreak', '_x0041_', 'x' * 60]
INTS = {'i8': ['-128', '127', '0', '5'], 'i16': ['-32768', '32767', '1'], 'i32': ['-2147483648', '2147483647', '7'],
        'i64': ['-9223372036854775808', '9223372036854775807', '9007199254740993', '-1'], 'u8': ['0', '255'], 'u16': ['65535', '3'],
        'u32': ['4294967295', '12'], 'u64': ['18446744073709551615', '9007199254740993', '0']}
# Number of fields of the structs with derived options; those which add a table.
COUNTS = (3, 3, 4, 3, 6, 4, 2, 2, 3, 2, 3, 3)
TABLED = {6, 7, 8}


def scalar(R):
    k = R.choice(['f64', 'f64', 'str', 'str', 'str', 'bool', 'int', 'int', 'f32', 'char', 'none', 'absent', 'unit', 'ustruct', 'uvar', 'bytes', 'date', 'wrap'])
    if k == 'f64':
        return {'f64': R.choice(NUMS)}
    if k == 'f32':
        return {'f32': R.choice(['0.5', '1.25', '-3', '0.1', '1e30', '16777217', '0'])}
    if k == 'int':
        k = R.choice(list(INTS))
        return {k: R.choice(INTS[k])}
    if k == 'str':
        return {'str': R.choice(WORDS) if R.random() < .97 else {'rep': 'x', 'n': R.choice([32767, 32768])}}
    if k == 'char':
        return {'char': R.choice(['x', '5', '\u00e9', '\U0001F600', '<', ' '])}
    if k == 'bool':
        return {'bool': R.random() < .5}
    if k == 'uvar':
        return {'uvar': R.choice(['Red', 'a b', 'None'])}
    if k == 'date':
        return {'date': R.choice(['2024-01-01', '1999-02-28 12:00', '1900-03-01', '9999-12-31 18:00', '06:00'])}
    if k == 'wrap':
        return {R.choice(['some', 'some', 'newt', 'nvar']): scalar(R)}
    return {k: True}


class Shapes:
    """The structs of a history."""

    def __init__(self, R):
        self.R = R
        self.st = []
        for n in R.sample(STRUCTS, R.choice([1, 2, 3])):
            self.st.append({'name': n, 'fs': R.sample(FIELDS, R.choice([1, 2, 3, 3, 4, 5]))})
        self.mac = R.sample(range(12), R.choice([0, 1, 2, 3]))
        self.dead = set()           # structs whose table a save has written

    def key(self, which):
        return ('st', which['name']) if isinstance(which, dict) else ('mac', which)

    def which(self):
        return self.R.choice(self.st + self.mac)

    def of(self, which, depth=0, full=True):
        """A value of a struct."""
        R = self.R
        if not isinstance(which, dict):
            vs = [self.value(depth) for _ in range(COUNTS[which])]
            if which == 11 and R.random() < .4:
                vs[1] = {'absent': True}
            return {'mac': {'k': which, 'vs': vs}}
        fs = list(which['fs'])
        if not full:
            k = R.random()
            if k < .1:
                R.shuffle(fs)
            elif k < .2:
                fs = fs[:R.randrange(len(fs) + 1)]
            elif k < .3:
                fs.insert(R.randrange(len(fs) + 1), R.choice(FIELDS))
        return {'st': {'name': which['name'], 'fs': [[f, self.value(depth)] for f in fs]}}

    def value(self, depth):
        """A value of a field."""
        R = self.R
        k = R.random()
        if depth < 2 and k < .06:
            w = self.live()
            return scalar(R) if w is None else self.of(w, depth + 1, False)
        if depth < 2 and k < .09:
            w = self.live()
            return scalar(R) if w is None else {R.choice(['seq', 'tup']): [self.of(w, depth + 1, False) for _ in range(R.choice([0, 1, 2, 3]))]}
        if k < .1:
            w = self.live()
            return scalar(R) if w is None else {R.choice(['some', 'newt', 'nvar']): self.of(w, depth + 1, False)}
        return scalar(R)

    def live(self):
        ws = [w for w in self.st + self.mac if self.key(w) not in self.dead]
        return self.R.choice(ws) if ws else None


def table(R):
    k = R.random()
    if k < .3:
        return 'default'
    if k < .5:
        return {'only_style': R.choice(TABLE_STYLES)}
    opts = [[k, R.random() < .5] for k in ('total', 'banded', 'bandedc', 'first', 'last', 'filter') if R.random() < .35]
    if R.random() < .3:
        opts.append(['style', R.choice(TABLE_STYLES)])
    if R.random() < .2:
        opts.append(['name', R.choice(TABLE_NAMES)])
    given = []
    if R.random() < .5:
        opts.append(['cols', ''])
        for _ in range(R.choice([1, 1, 2, 3, 5])):
            c = {}
            if R.random() < .3:
                c['header'] = R.choice(HEADERS)
            if R.random() < .5:
                c['tfn'] = R.choice(['none', 'average', 'count', 'countNums', 'max', 'min', 'sum', 'stdDev', 'var', 'custom'])
                if c['tfn'] == 'custom':
                    c['tformula'] = R.choice(['=SUM(A1:A9)', 'MAX(B1:B3)', '=VAR.S([Qty])'])
            if R.random() < .3:
                c['label'] = R.choice(LABELS)
            if R.random() < .2:
                c['formula'] = R.choice(COLFORMULAS)
            if R.random() < .3:
                c['format'] = rdxf(R)
            given.append(c)
    R.shuffle(opts)
    return {'opts': opts, 'given': given}


def custom(R, field, tab):
    c = {'field': field}
    if R.random() < .4:
        c['rename'] = R.choice(RENAMES + ([] if tab else ['', 'ctrl\x01x']))
    for k, p in (('hfmt', .25), ('cfmt', .2), ('vfmt', .3)):
        if R.random() < p:
            c[k] = rfmt(R)
    if R.random() < .15:
        c['skip'] = R.random() < .8
    if R.random() < .15:
        c['width'] = R.choice(['10', '12.5', '0', '0.5', '300'])
    if R.random() < .1:
        c['pixels'] = R.choice([60, 0, 5, 2000, 100])
    return c


SER_NAMES = {0: ['name', 'price', 'in_stock'], 1: ['firstName', 'lastName', 'z42X'], 2: ['VERY-TASTY', 'Given Name', 'out name', 'ORIGINAL'], 3: ['type', 'match', 'plain'],
             4: ['Lead', 'TwoUnder', 'BC', 'A'], 5: ['cost', 'gone', 'wide', 'narrow'], 6: ['item', 'qty'], 7: ['PART_NO', 'kept'], 8: ['item', 'total', 'last'],
             9: ['isA', 'b_c'], 10: ['-x-y-', '\u00e9 & <b>', '\u00e9t\u00e9-b'], 11: ['MUST', 'MAY_BE', 'END']}


def place(R, tab):
    r, c = R.choice([0, 0, 1, 5, 9, 20]), R.choice([0, 0, 2, 4, 6, 8, 24, 26])
    k = R.random()
    if k < .02:
        r = R.choice([1048575, 1048574, 1048576])
    elif k < .04:
        c = R.choice([16383, 16382, 16384])
    return r, c


def head(sh, tables):
    """A call which defines an area, and whether it has a table."""
    R = sh.R
    w = sh.which()
    r, c = place(R, tables)
    mac = not isinstance(w, dict)
    via = R.choice(['ser', 'ser', 'de', 'set', 'set']) if mac else R.choice(['ser', 'ser', 'de', 'de', 'set'])
    o = {'op': 'serhead', 'r': r, 'c': c, 'via': via, 'of': sh.of(w)}
    if mac and via == 'set':
        if w in TABLED and not tables:
            o['via'] = 'ser'
            return o, w, False
        return o, w, w in TABLED
    if via == 'set' or R.random() < .6:
        tab = tables and R.random() < .4
        names = SER_NAMES[w] if mac else w['fs']
        x = {}
        if R.random() < .35:
            x['hfmt'] = rfmt(R)
        if R.random() < .2:
            x['hide'] = R.random() < .8
        some = [n for n in names if R.random() < .6] if via != 'set' else list(names)
        if R.random() < .2:
            R.shuffle(some)
        if R.random() < .05:
            some.insert(R.randrange(len(some) + 1), R.choice(FIELDS))
        if some and R.random() < .03:
            some.append(R.choice(some))
        if some or R.random() < .3:
            x['custom'] = [custom(R, n, tab) for n in some]
        if R.random() < .25:
            x['only'] = R.random() < .8
        if tab:
            x['table'] = table(R)
        if via == 'set':
            x['name'] = w['name'] if R.random() < .97 else ''
        elif R.random() < .05:
            x['name'] = 'Other'
        o['opts'] = x
        return o, w, tab
    if R.random() < .5:
        o['hfmt'] = rfmt(R)
    return o, w, False


def serial_case(R, n=14, tables=True, modes=('std',), save_p=0.0, plain=.1):
    """Areas and values; with tables there is only a save at the end, unless the areas are not used again."""
    ns = R.choice([1, 1, 2])
    p = Pool(R, nsheets=ns)
    sh = Shapes(R)
    ops = [{'op': 'add_sheet', 'mode': R.choice(modes)} for _ in range(ns)]
    tabled = set()
    for _ in range(R.choice([1, 2, 3])):
        o, w, t = head(sh, tables)
        ops.append(dict(o, s=R.randrange(ns)))
        tabled |= {sh.key(w)} if t else set()
    for _ in range(n):
        k = R.random()
        if k < .12:
            o, w, t = head(sh, tables)
            if sh.key(w) in sh.dead:
                continue
            tabled |= {sh.key(w)} if t else set()
        elif k < .18:
            w = sh.which()
            names = SER_NAMES[w] if not isinstance(w, dict) else w['fs']
            name = w['name'] if isinstance(w, dict) else R.choice(['Plain', 'Camel', 'Kebab', 'Raw', 'Renamed struct', 'Hidden', 'Generic', 'Optional', 'Nope'])
            o = {'op': R.choice(['serdims', 'sercdims']), 'name': name, 'field': R.choice(names)}
        elif k < .18 + plain:
            o = GENS[R.choice(['num', 'str', 'rformat', 'cformat', 'blank', 'clear'])](p)
        else:
            w = sh.live()
            if w is None:
                continue
            v = sh.of(w, full=False)
            if R.random() < .15:
                ws = [sh.live() for _ in range(R.choice([0, 2, 3]))]
                v = {R.choice(['seq', 'tup']): [v] + [sh.of(x, full=False) for x in ws]}
            elif R.random() < .04:
                v = scalar(R)
            elif R.random() < .04:
                v = {R.choice(['some', 'newt', 'nvar']): v}
            o = {'op': 'ser', 'v': v}
        o.setdefault('s', R.randrange(ns))
        ops.append(o)
        if R.random() < save_p:
            ops.append({'op': 'save', 'how': 'buffer'})
            sh.dead |= tabled
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'path'])})
    return ops
