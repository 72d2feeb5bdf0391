"""Histories which use many features together, for the package as a whole."""
import json
from gen import *
import gbook, gobj, gresave, grules, gcharts, gser, gtexts

# Every feature that adds a part, a relationship or an entry in a shared list,
# in the ways it can be used.  'w': on worksheets only, 'b': of the workbook.
FEATURES = ['str', 'link', 'image', 'image2', 'imagelink', 'embed', 'bgimg', 'hfimg', 'ochart', 'chartlink', 'shape', 'shapelink', 'button', 'note', 'notes',
            'table', 'tablefmt', 'cf', 'cfbar', 'sparkline', 'dv', 'checkbox', 'dynamic', 'fmt', 'colorfilter', 'autofilter', 'printarea', 'repeat', 'codename',
            'rich', 'imagealt']
BOOKWIDE = ['vba', 'signed', 'custom', 'define', 'readonly']
ON_CHART = ['hfimg', 'codename']
URLS = ['https://example.com/%d', "internal:Sheet1!A%d", 'file:///C:/f%d.xlsx', 'mailto:x%d@y.z']


class Zoo:
    def __init__(self, R, modes):
        self.R, self.modes, self.n = R, modes, 0
        self.p = gobj.OPool(R)
        self.rows = [0] * len(modes)
        self.g = grules.rule_pool(R, nsheets=len(modes), far=0)

    def next(self):
        self.n += 1
        return self.n

    def at(self, s):
        # A place of its own for each, downwards, so that all modes accept it.
        self.rows[s] += self.R.choice([1, 2, 3])
        return {'s': s, 'r': self.rows[s], 'c': self.R.randrange(6)}

    def img(self, link=False):
        i = self.p.img()
        if link:
            i['url'] = self.R.choice(URLS) % (self.next() % 3)
        return i

    def make(self, f, s):
        R = self.R
        n = self.next()
        o = self.at(s)
        if f == 'str':
            return [dict(o, op='str', v='text %d' % (n % 4))]
        if f == 'link':
            return [dict(o, op='url', url=R.choice(URLS) % (n % 4), **({'text': 't%d' % n} if R.random() < .5 else {}), **({'tip': 'tip'} if R.random() < .3 else {}))]
        if f in ('image', 'image2', 'imagelink', 'imagealt'):
            i = self.img(f == 'imagelink')
            if f == 'imagealt':
                i.update(R.choice([{'alt': 'a %d' % n}, {'decov': True}]))
            out = [dict(o, op='image', xo=0, yo=0, img=i)]
            if f == 'image2':
                out.append(dict(self.at(s), op='image', xo=R.choice([0, 5]), yo=0, img=dict(i)))
            return out
        if f == 'embed':
            i = self.img()
            if R.random() < .4:
                i['alt'] = 'e %d' % n
            return [dict(o, op='embed', img=i)]
        if f == 'bgimg':
            return [{'s': s, 'op': 'bgimg', 'img': self.img()}]
        if f == 'hfimg':
            which = R.choice(['header', 'footer'])
            pos = R.choice('LCR')
            return [{'s': s, 'op': which, 'v': '&%s&G' % pos}, {'s': s, 'op': 'hfimg', 'which': which, 'pos': pos, 'img': self.img()}]
        if f in ('ochart', 'chartlink'):
            return [dict(o, op='ochart', xo=0, yo=0, type=R.choice(['column', 'line', 'pie', 'scatter', 'radar', 'area', 'bar', 'doughnut']), nser=R.choice([1, 2]), ref='Sheet1',
                         **({'name': 'Chart %d' % n} if f == 'chartlink' else {}))]
        if f in ('shape', 'shapelink'):
            return [dict(o, op='shape', xo=0, yo=0, opts=[], text='S%d' % n, **({'url': R.choice(URLS) % (n % 3)} if f == 'shapelink' else {}))]
        if f == 'button':
            return [dict(o, op='button', xo=0, yo=0, **({'cap': 'B%d' % n} if R.random() < .5 else {}), **({'mac': 'm%d' % n} if R.random() < .5 else {}))]
        if f == 'note':
            return [dict(o, op='note', text='n%d' % n)]
        if f == 'notes':
            return [dict(self.at(s), op='note', text='n', author=R.choice(['Ann', 'Bob', 'Zed', 'author'])) for _ in range(R.choice([2, 5]))]
        if f in ('table', 'tablefmt'):
            o['c'] = R.choice([10, 14, 18])
            self.rows[s] += 4
            t = GENS['table'](self.g) if f == 'tablefmt' else {'op': 'table', 'opts': []}
            t.update(s=s, r=o['r'], c=o['c'], r2=o['r'] + 3, c2=o['c'] + 2)
            t['opts'] = [x for x in t['opts'] if x[0] != 'name']
            return [t]
        if f in ('cf', 'cfbar', 'sparkline', 'dv'):
            k = {'cf': 'cf', 'cfbar': 'cf', 'sparkline': R.choice(['sparkline', 'sparkgroup']), 'dv': 'dv'}[f]
            return [dict(GENS[k](self.g), s=s) for _ in range(R.choice([1, 2]))]
        if f == 'checkbox':
            return [dict(o, op='checkbox', v=R.random() < .5, **({'f': rfmt(R)} if R.random() < .3 else {}))]
        if f == 'dynamic':
            return [dict(GENS['dynformula'](self.g), **o)]
        if f == 'fmt':
            return [dict(o, op='num', v=str(n), f=rfmt(R))]
        if f == 'colorfilter':
            return [dict(x, s=s) for x in gresave.filtering(R) if x['op'] != 'add_sheet'][:6]
        if f == 'autofilter':
            return [{'op': 'autofilter', 's': s, 'r': 1, 'c1': 0, 'r2': 5, 'c2': 4}]
        if f in ('printarea', 'repeat'):
            return [dict(gbook.g_area(R, self.modes[s]), s=s)]
        if f == 'codename':
            return [{'op': 'vbaname', 's': s, 'v': R.choice(['Code%d' % n, 'Sheet9%d' % n])}]
        if f == 'rich':
            return [dict(GENS['rich'](self.g), **o)]
        raise KeyError(f)

    def wide(self, f):
        R = self.R
        if f == 'vba':
            return [{'op': 'vba', 'v': 'x%d' % self.next()}]
        if f == 'signed':
            return [{'op': 'vba', 'v': 'x%d' % self.next(), 'sig': 's%d' % self.next()}]
        if f == 'custom':
            return [gbook.g_props(R)]
        if f == 'define':
            return [{'op': 'define_name', 'name': R.choice(["n%d", "Sheet1!n%d", "n.%d"]) % self.next(), 'v': '=Sheet1!$A$1'}]
        return [{'op': 'read_only_recommended'}]


def save(R):
    return {'op': 'save', 'how': R.choice(['buffer', 'writer', 'path'])}


def zoo(R, n=10, save_p=.15):
    """A few worksheets, each with some of the features; saved now and then."""
    k = R.choice([1, 2, 2, 3, 4])
    modes = [R.choice(['std', 'std', 'std', 'low', 'const', 'chart']) for _ in range(k)]
    modes[0] = R.choice(['std', 'std', 'low', 'const'])
    z = Zoo(R, modes)
    ops = [{'op': 'add_sheet', 'mode': m} for m in modes]
    for s, m in enumerate(modes):
        if m == 'chart':
            ops += z.make('ochart', s)
    fs = R.sample(FEATURES, R.choice([3, 6, 10]))
    for _ in range(n):
        if R.random() < .12:
            ops += z.wide(R.choice(BOOKWIDE))
        else:
            s = R.randrange(k)
            f = R.choice(fs)
            if (modes[s] == 'chart' and f not in ON_CHART) or (modes[s] in ('low', 'const') and f == 'embed'):
                continue
            ops += z.make(f, s)
        if R.random() < save_p:
            ops.append(save(R))
    return json.loads(json.dumps(ops + [save(R)]))


def unticked(x):
    """Without the formats which show checkboxes, which are a feature of their own."""
    if isinstance(x, dict):
        return {k: unticked(v) for k, v in x.items() if k != 'cb'}
    return [unticked(y) for y in x] if isinstance(x, list) else x


def combination(R, pairs, modes):
    """Given features on given sheets, in this order; 'save' saves."""
    z = Zoo(R, modes)
    ops = [{'op': 'add_sheet', 'mode': m} for m in modes]
    for s, m in enumerate(modes):
        if m == 'chart':
            ops += z.make('ochart', s)
    for s, f in pairs:
        if f == 'save':
            ops.append(save(R))
        elif f in BOOKWIDE:
            ops += z.wide(f)
        elif (modes[s] != 'chart' or f in ON_CHART) and (modes[s] == 'std' or f != 'embed'):
            ops += z.make(f, s)
    return unticked(json.loads(json.dumps(ops + [save(R)])))


def sprinkled(R, e, p=.1, const=False):
    out = []
    for o in e:
        if o:
            out.append(o)
        if R.random() < p and (o is None or None not in e):
            out.append(save(R))
    return json.loads(json.dumps(out + [save(R)]))


THEMES = ['zoo', 'zoo', 'zoo', 'zoo', 'grid', 'table', 'filter', 'book', 'objects', 'objects', 'mixed', 'const', 'rules', 'charts', 'chartopt', 'serial', 'texts']


def on_primary(ops):
    """A chart has a series on its main axes, or no other."""
    for o in ops:
        todo = [o['ch']] if o['op'] == 'chartx' else []
        while todo:
            ch = todo.pop()
            todo += [v for v in ch.values() if isinstance(v, dict) and 'series' in v]
            for x in ch.get('series', [])[:1]:
                x['set'] = [y for y in x['set'] if y['k'] != 'secondary']
    return ops


def one_object(ops):
    """A chartsheet shows one chart and nothing else."""
    out, modes, full = [], [], set()
    for o in ops:
        if o['op'] == 'add_sheet':
            modes.append(o['mode'])
        elif o['op'] in ('remove_sheet', 'swap_sheets', 'push_sheet', 'new_wb', 'spare', 'push', 'swap', 'remove'):
            return out + [x for x in ops[len(out):] if x['op'] not in ('image', 'fit', 'shape', 'button', 'note', 'ochart', 'chartx')]
        if o['op'] in ('image', 'fit', 'shape', 'button', 'note', 'ochart', 'chartx', 'bgimg') and 's' in o and o['s'] < len(modes) and modes[o['s']] == 'chart':
            if o['op'] not in ('ochart', 'chartx') or o['s'] in full:
                continue
            full.add(o['s'])
        out.append(o)
    return out


def package_case(R, theme=None):
    return one_object(on_primary(a_case(R, theme)))


def a_case(R, theme=None):
    t = theme or R.choice(THEMES)
    if t == 'zoo':
        return zoo(R, R.choice([4, 8, 14, 25]))
    if t in ('grid', 'table', 'filter', 'book', 'objects', 'mixed', 'const'):
        return sprinkled(R, gresave.edits(R, t), const=t == 'const')
    if t == 'rules':
        return grules.rule_case(R, dict(cf=5, dv=3, sparkline=2, sparkgroup=1, str=.5, num=.5, table=.5), 14, save_p=.12, modes=('std', 'std', 'low', 'const'))
    if t == 'charts':
        return gcharts.chart_history(R, 8)
    if t == 'chartopt':
        return gcharts.chart_history(R, 6, opts=True)
    if t == 'serial':
        return gser.serial_case(R, 10)
    return gtexts.text_case(R, 14)
