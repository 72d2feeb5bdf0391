"""Annotations of serialized values and header options."""
import struct


def name_of(s):
    from annot import enc
    return {'t': enc(s), 'low': enc(s.lower()), 'n': len(s)}


def num(f):
    return 'NaN' if f != f else 'inf' if f == float('inf') else '-inf' if f == float('-inf') else repr(f)


def tree(v):
    """A value as the specification sees it."""
    from annot import enc, serial, text
    none = {'a': 's', 'x': '', 'n': 0, 'absent': True}
    if not v:
        return none
    (k, x), = v.items()
    if k == 'f32':
        return {'a': 'n', 'x': num(struct.unpack('f', struct.pack('f', float(x)))[0]), 'absent': False}
    if k in ('f64', 'i8', 'i16', 'i32', 'i64', 'u8', 'u16', 'u32', 'u64'):
        return {'a': 'n', 'x': num(float(x)), 'absent': False}
    if k == 'date':
        return {'a': 'n', 'x': repr(float(serial(x))), 'absent': False}
    if k in ('str', 'char', 'uvar'):
        t = text(x)
        return {'a': 's', 'x': enc(t), 'n': len(t), 'absent': False}
    if k == 'bool':
        return {'a': 'b', 'x': '1' if x else '0', 'absent': False}
    if k in ('some', 'newt', 'nvar'):
        return dict(tree(x), absent=False)
    if k == 'bytes':
        return {'a': '-', 'absent': False}
    if k in ('seq', 'tup'):
        return {'a': 'q', 'vs': [tree(e) for e in x], 'absent': False}
    if k == 'st':
        return {'a': 't', 'name': enc(x['name']), 'fs': [{'nm': name_of(f), 'v': tree(e)} for f, e in x['fs']], 'absent': False}
    if k == 'mac':
        n = (3, 3, 4, 3, 6, 4, 2, 2, 3, 2, 3, 3)[x['k']]
        return {'a': 'm', 'k': x['k'], 'vs': [tree(e) for e in (x['vs'] + [None] * n)[:n]], 'absent': False}
    return dict(none, absent=k == 'absent')


def custom(c):
    from annot import enc, text, width_pixels
    h = text(c['rename']) if 'rename' in c else c['field']
    w = []
    if 'width' in c:
        px = width_pixels(min(float(c['width']), 255.0))
        w = [{'zero': float(c['width']) == 0.0, 'wd': str(px), 'milli': px}]
    elif 'pixels' in c:
        px = min(int(c['pixels']), 1790)
        w = [{'zero': px == 0, 'wd': str(px), 'milli': px}]
    out = {'field': enc(c['field']), 'h': enc(h), 'low': enc(h.lower()), 'n': len(h), 'skip': bool(c.get('skip')), 'w': w}
    for k, a, b in (('hfmt', 'hf', 'hx'), ('cfmt', 'cf', 'cx'), ('vfmt', 'vf', 'vx')):
        out[a], out[b] = k in c, c.get(k, {})
    return out


TABLE = ('header', 'total', 'banded', 'bandedc', 'first', 'last', 'filter', 'namex', 'namel', 'style', 'cols')


def table(t):
    from annot import table_annot
    if t is None:
        return []
    o = {'opts': []} if t == 'default' else {'opts': [['style', t['only_style']]]} if 'only_style' in t else dict(t)
    o.setdefault('given', [])
    table_annot(o)
    return [{k: o[k] for k in TABLE}]


def a_serhead(o):
    from annot import enc
    o['type'] = tree(o['of'])
    if 'hfmt' in o:
        o['hx'] = o['hfmt']
    if 'opts' in o:
        x = o['opts']
        o['want'] = {'hf': 'hfmt' in x, 'hx': x.get('hfmt', {}), 'hide': bool(x.get('hide')), 'only': bool(x.get('only')), 'table': table(x.get('table')),
                     'cols': [custom(c) for c in x.get('custom', [])], 'name': enc(x.get('name', ''))}


def a_ser(o):
    o['tree'] = tree(o['v'])


def a_dims(o):
    from annot import enc
    o['namex'], o['fieldx'] = enc(o['name']), enc(o.get('field', ''))
