"""Lexical annotations the specification cannot compute (text lengths, canonical numbers)."""
import hashlib, json, re
from fractions import Fraction
import acharts, aser
from views import enc

NUMRE = re.compile(r'^[+-]?(\d+\.?\d*([eE][+-]?\d+)?|\.\d+([eE][+-]?\d+)?)$')
ERRS = {'#DIV/0!', '#N/A', '#NAME?', '#NULL!', '#NUM!', '#REF!', '#VALUE!', '#GETTING_DATA'}


def text(v):
    if isinstance(v, list):
        return ''.join(map(chr, v))
    if isinstance(v, dict):
        return v.get('pre', '') + v['rep'] * v['n']
    return v or ''


def result_type(s):
    """Cell type and canonical value for the text of a formula result."""
    if NUMRE.match(s):
        return 'n', repr(float(s))
    if s in ERRS:
        return 'e', s
    if s in ('TRUE', 'FALSE'):
        return 'b', '1' if s == 'TRUE' else '0'
    return 'str', enc(s)


def width_pixels(w):
    if w < 1.0:
        return int(w * 12 + 0.5)
    return int(w * 7 + 0.5) + 5


def annot(o):
    """Adds derived fields to an op record in place."""
    op = o['op']
    if op in ('str', 'merge'):
        t = text(o['v'])
        o['vt'], o['vlen'] = enc(t), len(t)
        if o.get('keyed') and t:
            o['lw'], o['ky'] = enc(t.lower()), key_of(t)
    elif op == 'num':
        if o.get('keyed'):
            o['lw'], o['ky'] = '', [int(float(o['v']) * 2)]
    elif op in ('formula', 'array', 'dynarray', 'dynformula'):
        v = o['v']
        if o.get('chars'):
            o['fc'] = [enc(ch) for ch in v]
        elif 'ft' not in o:
            if v.startswith('{'):
                v = v[1:-1] if v.endswith('}') else v[1:]
            o['ft'] = enc(v[1:] if v.startswith('=') else v)
        if o.get('res'):
            o['rt'], o['rv'] = result_type(o['res'])
    elif op in ('set_result', 'set_result_default'):
        o['rt'], o['rv'] = result_type(o['v'])
    elif op == 'rich':
        for s in o['segs']:
            s['tt'] = enc(text(s['t']))
        if o.get('keyed'):
            t = ''.join(text(s['t']) for s in o['segs'])
            o['lw'], o['ky'] = '', key_of(t)
    elif op in ('row', 'srow'):
        o['ps'] = [[o['r'], o['c'] + k] for k in range(len(o['vs']))]
        o['fl'] = list(o['vs'])
    elif op == 'col':
        o['ps'] = [[o['r'] + k, o['c']] for k in range(len(o['vs']))]
        o['fl'] = list(o['vs'])
    elif op == 'rowmat':
        o['ps'] = [[o['r'] + a, o['c'] + b] for a, row in enumerate(o['vs']) for b in range(len(row))]
        o['fl'] = [x for row in o['vs'] for x in row]
    elif op == 'colmat':
        o['ps'] = [[o['r'] + b, o['c'] + a] for a, row in enumerate(o['vs']) for b in range(len(row))]
        o['fl'] = [x for row in o['vs'] for x in row]
    elif op in ('rheight', 'rheightpx', 'rdefault', 'rdefaultpx'):
        v = float(o['v'])
        if op.endswith('px'):
            v *= 0.75
        o['zero'] = v == 0.0
        o['wd'] = repr(v)
        o['hpx'] = int(v * 4.0 / 3.0)
    elif op in ('cwidth', 'cwidthpx', 'cautow', 'cwidths', 'cwidthspx'):
        if op in ('cwidth', 'cwidths'):
            w = float(o['v'])
            o['zero'] = w == 0.0
            o['wd'] = str(width_pixels(min(w, 255.0)))
        else:
            px = int(o['v'])
            o['zero'] = px == 0
            o['wd'] = str(min(px, 1790))
        o['milli'] = int(o['wd'])
    elif op == 'filter':
        for e in o['conds']:
            v = e.get('v', '')
            n = isinstance(v, dict)
            t = num_text(v['n']) if n else v
            e['x'], e['key'], e['num'], e['n2'] = enc(t), key_of(t), n, int(float(v['n']) * 2) if n else 0
    elif op == 'table':
        table_annot(o)
    elif op == 'url':
        url_annot(o)
    elif op in ('quote', 'checkname', 'wsrange', 'setname', 'sheet_from_name'):
        o['nc'] = [enc(ch) for ch in text(o['name'])]
        o['nl'] = enc(text(o['name']).lower())
    elif op in ('vbaname', 'wb_vba_name'):
        o['nc'] = [enc(ch) for ch in o['v']]
    elif op == 'define_name':
        o['namec'] = [enc(ch) for ch in o['name']]
        o['vc'] = [enc(ch) for ch in o['v']]
    elif op in ('header', 'footer'):
        o['tc'] = [enc(ch) for ch in text(o['v'])]
    elif op == 'margins':
        o['keep'] = [float(v) < 0 for v in o['vs']]
    elif op in ('protect', 'unprotect'):
        if 'pw' in o:
            o['pwb'] = list(text(o['pw']).encode())
        if 'name' in o:
            o['namex'] = enc(text(o['name']))
    elif op == 'chart':
        o['refc'] = [enc(ch) for ch in o.get('ref', 'Sheet1')]
    elif op == 'props':
        o['p'] = {k: enc(v) for k, v in o['set'].items() if k != 'created_how'}
        o['cust'] = [[enc(c['n']), c['t'], enc(c['v'])] for c in o['custom']]
    elif op in OBJ:
        OBJ[op](o)
    elif op == 'colnums':
        o['namec'] = [list(n) for n in o['names']]
    return o


def key_of(t):
    return [ord(ch) for ch in t.lower().strip()]


def num_text(v):
    """Text of a number, as Rust prints it (plain numbers only)."""
    f = float(v)
    return str(int(f)) if f == int(f) else repr(f)


def table_annot(o):
    """What the sequence of options amounts to."""
    t = dict(header=True, total=False, banded=True, bandedc=False, first=False, last=False, filter=True, namex='', namel='', style='Medium9')
    cols = []
    for k, v in o['opts']:
        if k == 'name':
            t['namex'], t['namel'] = enc(v), enc(v.lower())
        elif k == 'cols':
            cols = o['given']
        else:
            t[k] = v
            if k == 'header' and not v:
                t['filter'] = False
    t['style'] = '' if t['style'] == 'None' else 'TableStyle' + t['style']
    out = []
    for c in cols:
        h, lab = text(c.get('header')), text(c.get('label'))
        out.append({'h': enc(h), 'low': enc(h.lower()), 'tl': enc(lab), 'tlow': enc(lab.lower()), 'tf': c.get('tfn', 'none'),
                    'tfc': [enc(ch) for ch in c.get('tformula', '')], 'fc': [enc(ch) for ch in c.get('formula', '')],
                    'hasx': 'format' in c, 'x': c.get('format', {}), 'hash': 'hformat' in c, 'hx': c.get('hformat', {})})
    o.update(t)
    o['cols'] = out


def url_annot(o):
    u = text(o['url'])
    o['uc'] = [enc(ch) for ch in u]
    t = text(o.get('text')) if o.get('text') else ''
    o['utx'], o['utn'] = enc(t), len(t)
    t = text(o.get('tip')) if o.get('tip') else ''
    o['tipx'], o['tipn'] = enc(t), len(t)


def units(px):
    u = Fraction(px) * 300
    if u.denominator != 1:
        raise ValueError('size is not a whole number of units: %s' % px)
    return int(u)


def link_annot(i):
    if 'url' in i:
        u = text(i['url'])
        i['uc'] = [enc(ch) for ch in u]
        t = text(i.get('tip'))
        i['tipx'], i['tipn'] = enc(t), len(t)


def common(i, mv):
    i['altx'], i['deco'], i['mv'] = enc(text(i.get('alt'))), bool(i.get('decov')), i.get('mvv') or mv
    link_annot(i)


def img_annot(i):
    i['mid'] = '%s:%d' % (i['t'], i['id'])
    dpi = [Fraction(96)] * 2
    if i.get('dx') and i['t'] == 'png' and i['unit'] == 1:
        dpi = [Fraction(i[k]) * Fraction(254, 10000) for k in ('dx', 'dy')]
    elif i.get('dx') and i['t'] == 'jpeg' and i['unit'] == 1:
        dpi = [Fraction(i[k]) for k in ('dx', 'dy')]
    sc = [Fraction(i.get('sw', '1')), Fraction(i.get('sh', '1'))]
    nat = [Fraction(i['w']) * 96 / dpi[0], Fraction(i['h']) * 96 / dpi[1]]
    for k, n in enumerate(('setw', 'seth')):
        if i.get(n):
            sc[k] = Fraction(i[n]) / (i['w'], i['h'])[k]
    if 'fitto' in i and i['fitto'][0] and i['fitto'][1]:
        sc = [Fraction(i['fitto'][k]) / nat[k] for k in (0, 1)]
        if i.get('fitkeep'):
            sc = [min(sc)] * 2
    i['wu'], i['hu'] = units(nat[0] * sc[0]), units(nat[1] * sc[1])
    i['scaled'] = sc != [1, 1]
    common(i, 'move')


def a_img(o):
    img_annot(o['img'])


def a_chart(o):
    o['wu'] = units(Fraction(o.get('w', 480)) * Fraction(o.get('sw', '1')))
    o['hu'] = units(Fraction(o.get('h', 288)) * Fraction(o.get('sh', '1')))
    o['titlex'], o['namex'] = enc(text(o.get('title'))), enc(text(o.get('name')))
    common(o, 'movesize')


def a_shape(o):
    o['wu'] = 300 * (o['w'] if o.get('w', 0) >= 5 else 192)
    o['hu'] = 300 * (o['h'] if o.get('h', 0) >= 5 else 120)
    o['textx'] = enc(text(o.get('text')))
    o['linkx'] = enc(o.get('link', '').lstrip('='))
    st = {}
    for k, v in o['opts']:
        st[k] = repr(float(v)) if k in ('fs', 'linewidth') else v
    if st.get('fs') == '11.0':
        st.pop('fs')
    o['style'] = [[k, st[k]] for k in sorted(st)]
    common(o, 'movesize')


def a_button(o):
    o['wu'], o['hu'] = 300 * (o.get('w') or 64), 300 * (o.get('h') or 20)
    o['capx'], o['macx'] = enc(text(o.get('cap'))), enc(text(o.get('mac')))
    common(o, 'movesize')


def a_note(o):
    o['wu'], o['hu'] = 300 * (o.get('w') or 128), 300 * (o.get('h') or 74)
    t = text(o['text'])
    o['textx'], o['textn'] = enc(t), len(t)
    a = text(o.get('author'))
    o['authorx'] = enc(a) if len(a) <= 52 else ''
    o['prefix'] = bool(o.get('prefixv', True))
    o['vis'] = '' if 'visv' not in o else '1' if o['visv'] else '0'
    o['bg'] = o.get('bgv', 'FFFFE1')
    o['fn'], o['fs'], o['fam'] = o.get('fnv') or 'Tahoma', repr(float(o.get('fsv', '8'))), str(o.get('famv', 2))
    common(o, 'none')


def a_noteauthor(o):
    o['vx'], o['vn'] = enc(text(o['v'])), len(text(o['v']))


def nothing(o):
    pass


def chars(t):
    return [enc(ch) for ch in t]


def serial(t):
    """Serial number of a date, time or both (quarter days only)."""
    from datetime import date
    d, _, h = t.partition(' ') if ' ' in t else (t, '', '') if '-' in t else ('', '', t)
    n = 0.0
    if d:
        n += (date.fromisoformat(d) - date(1899, 12, 30)).days
    if h:
        n += int(h.split(':')[0]) / 24
    return n


def value_annot(v):
    t, x = v['t'], v['v']
    v['cs'], v['pct'], v['x'] = [], False, ''
    if t in ('s', 'f'):
        v['cs'] = chars(x)
    elif t == 'b':
        v['x'] = x
    else:
        f = serial(x) if t == 'd' else float(x)
        v['x'], v['pct'] = repr(f), not 0 <= f <= 100


def a_cf(o):
    o['multic'] = chars(o.get('multi', ''))
    o['rule'], o['invert'], o['n'] = o.get('rule', ''), bool(o.get('invert')), o.get('n', 0)
    o['fc'] = chars(o.get('fv', ''))
    t = o.get('text', '')
    o['textc'], o['textu'] = chars(t), len(t.encode('utf-16-le')) // 2
    for v in o.get('vals', []):
        value_annot(v)
    for e in o.get('set', []):
        if 'val' in e:
            value_annot(e['val'])
        for i in e.get('icons', []):
            for x in i:
                if 'val' in x:
                    value_annot(x['val'])
    if o['k'] == 'top' and not o['rule']:
        o['rule'], o['n'] = '', 10
    if o['k'] == 'date' and not o['rule']:
        o['period'] = 'yesterday'
    elif o['k'] == 'date':
        o['period'] = o['rule']


def a_dv(o):
    for e in o['set']:
        for v in e.get('vals', []):
            value_annot(v)
        if 'fv' in e:
            e['fc'] = chars(e['fv'])
        if 'items' in e:
            e['itemsc'] = [chars(x) for x in e['items']]
        if e['k'] in ('intitle', 'inmsg', 'errtitle', 'errmsg'):
            t = text(e['v'])
            e['vx'], e['vn'] = enc(t), len(t)
        elif e['k'] == 'multi':
            e['vc'] = chars(e['v'])


def a_spark(o):
    o.setdefault('r2', o['r'])
    o.setdefault('c2', o['c'])
    for e in o['set']:
        if e['k'] in ('range', 'dates'):
            if 'text' in e:
                e['tc'] = chars(e['text'])
            else:
                e['sc'] = chars(e['sheet'])
        elif e['k'] in ('weight', 'max', 'min'):
            e['vf'] = repr(float(e['v']))


def a_text(o):
    o['tx'], o['n'] = enc(o['v']), len(o['v'])
    o['lines'] = enc(o['v'].replace('\r\n', '\n'))       # the text of a shape is its lines


OBJ = dict(text=a_text, image=a_img, fit=a_img, bgimg=a_img, hfimg=a_img, embed=a_img, ochart=a_chart, shape=a_shape, button=a_button, note=a_note,
           noteauthor=a_noteauthor, shownotes=nothing, badimg=nothing,
           chartx=acharts.a_chartx, cf=a_cf, dv=a_dv, sparkline=a_spark, sparkgroup=a_spark,
           serhead=aser.a_serhead, ser=aser.a_ser, serdims=aser.a_dims, sercdims=aser.a_dims)


def prep(case):
    for o in case['ops']:
        annot(o)
        if case.get('viewer') == 'resave':
            o['u'] = hashlib.sha1(json.dumps({k: v for k, v in o.items() if k != 'u'}, sort_keys=True).encode()).hexdigest()[:10]
    return case
