"""Facts about conditional formats, data validations and sparklines."""
from xlsx import *
from views import enc, VIEWS, grid_facts
from annot import NUMRE

X14 = '{http://schemas.microsoft.com/office/spreadsheetml/2009/9/main}'
XM = '{http://schemas.microsoft.com/office/excel/2006/main}'
CF_EXT, SL_EXT = '{78C0D931-6437-407d-A8EE-F0AAD7539E65}', '{05C60535-1F16-4fd2-B633-F4F36F0B64E0}'
SETS14 = ('3Stars', '3Triangles', '5Boxes')


def value(t):
    t = t or ''
    return fnum(t) if NUMRE.match(t) else enc(t)


def flag(v, default):
    v = default if v is None else v
    return {'true': '1', 'false': '0'}.get(v, v)


def vo(e, ns):
    """A threshold as type, value, gte."""
    t = e.get('type')
    v = ''
    if t not in ('min', 'max', 'autoMin', 'autoMax'):
        v = value(e.findtext(XM + 'f') if ns == X14 else e.get('val'))
    return (t, v, flag(e.get('gte'), '1'))


def icon_facts(e, ns):
    """Icon set: both forms are read alike."""
    out = []
    name = e.get('iconSet', '3TrafficLights1')
    out.append(('set', name))
    out.append(('showValue', flag(e.get('showValue'), '1')))
    out.append(('reverse', flag(e.get('reverse'), '0')))
    vos = e.findall(ns + 'cfvo')
    for n, v in enumerate(vos, 1):
        out.append(('vo', str(n)) + vo(v, ns))
    icons = [(name, str(n)) for n in range(len(vos))]
    custom = e.findall(ns + 'cfIcon')
    if flag(e.get('custom'), '0') == '1':
        icons = [(c.get('iconSet'), c.get('iconId')) for c in custom]
    elif custom:
        out.append(('BAD', 'icons of a set which is not custom'))
    if len(icons) != len(vos) or len(vos) != int(name[0]):
        out.append(('BAD', 'number of icons'))
    for n, c in enumerate(icons, 1):
        out.append(('icon', str(n)) + c)
    if ns == M and name in SETS14:
        out.append(('BAD', 'icon set needs an extension'))
    return out


def bar14(e, fill):
    """The extension of a data bar."""
    out = []
    out.append(('length', e.get('minLength', '10'), e.get('maxLength', '90')))
    border = flag(e.get('border'), '0')
    out.append(('border', border))
    out.append(('gradient', flag(e.get('gradient'), '1')))
    out.append(('direction', e.get('direction', 'context')))
    axis = e.get('axisPosition', 'automatic')
    out.append(('axis', axis))
    for n, v in enumerate(e.findall(X14 + 'cfvo'), 1):
        out.append(('xvo', str(n)) + vo(v, X14))
    if len(e.findall(X14 + 'cfvo')) != 2:
        out.append(('BAD', 'thresholds of a data bar'))
    col = {n: color_text(e.find(X14 + n)) for n in ('fillColor', 'borderColor', 'negativeFillColor', 'negativeBorderColor', 'axisColor')}
    if border == '1':
        out.append(('borderColor', col['borderColor']))
        if flag(e.get('negativeBarBorderColorSameAsPositive'), '1') == '0':
            out.append(('negativeBorderColor', col['negativeBorderColor']))
        else:
            out.append(('negativeBorderColor', col['borderColor']))
    if flag(e.get('negativeBarColorSameAsPositive'), '0') == '1':
        out.append(('negativeFillColor', fill))
    else:
        out.append(('negativeFillColor', col['negativeFillColor']))
    if axis != 'none':
        out.append(('axisColor', col['axisColor']))
    return out


def std_rule(e, st, bad):
    out = []
    t = e.get('type')
    if e.get('dxfId') is not None:
        out.append(('dxf', '', ''))
        out += [('dxf', k, v) for k, v in st.dxf(e.get('dxfId'))]
    for n, f in enumerate(e.findall(M + 'formula'), 1):
        out.append(('formula', str(n), value(unescape(f.text or ''))))
    if e.get('operator') is not None:
        out.append(('operator', e.get('operator')))
    if e.get('text') is not None:
        out.append(('text', enc(unescape(e.get('text')))))
    if e.get('timePeriod') is not None:
        out.append(('period', e.get('timePeriod')))
    if t == 'aboveAverage':
        out.append(('average', flag(e.get('aboveAverage'), '1'), flag(e.get('equalAverage'), '0'), e.get('stdDev', '0')))
    if t == 'top10':
        out.append(('top', flag(e.get('percent'), '0'), flag(e.get('bottom'), '0'), e.get('rank')))
    for k in e:
        n = local(k.tag)
        if n == 'colorScale':
            vos, cols = k.findall(M + 'cfvo'), k.findall(M + 'color')
            if len(vos) != len(cols) or len(vos) not in (2, 3):
                bad('color scale')
            for m, v in enumerate(vos, 1):
                out.append(('vo', str(m)) + vo(v, M))
            for m, c in enumerate(cols, 1):
                out.append(('color', str(m), color_text(c)))
        elif n == 'dataBar':
            out.append(('showValue', flag(k.get('showValue'), '1')))
            for m, v in enumerate(k.findall(M + 'cfvo'), 1):
                out.append(('vo', str(m)) + vo(v, M))
            out.append(('color', '1', color_text(k.find(M + 'color'))))
        elif n == 'iconSet':
            out += icon_facts(k, M)
        elif n not in ('formula', 'extLst'):
            bad('rule child ' + n)
    return out


def cf_facts(book, i, root, st, bad):
    rules = []          # [priority, sqref, type, stop, facts, id]
    ids = {}
    for cf in root.findall(M + 'conditionalFormatting'):
        if len(cf) == 0:
            bad('empty conditional format')
        for e in cf:
            r = [e.get('priority'), cf.get('sqref'), e.get('type'), flag(e.get('stopIfTrue'), '0'), std_rule(e, st, bad), None]
            x = e.find('%sextLst/%sext/%sid' % (M, M, X14))
            if x is not None:
                if x.text in ids:
                    bad('extension id used twice')
                ids[x.text] = r
            rules.append(r)
    linked = set()
    for ext in root.findall('%sextLst/%sext' % (M, M)):
        if ext.get('uri') != CF_EXT:
            continue
        for cf in ext.findall('%sconditionalFormattings/%sconditionalFormatting' % (X14, X14)):
            sq = cf.findtext(XM + 'sqref')
            kids = cf.findall(X14 + 'cfRule')
            if not kids:
                bad('empty extension')
            for e in kids:
                if e.get('type') == 'dataBar':
                    r = ids.get(e.get('id'))
                    if r is None or r[1] != sq or r[2] != 'dataBar' or e.get('id') in linked:
                        bad('extension of a data bar')
                        continue
                    linked.add(e.get('id'))
                    r[4] += bar14(e.find(X14 + 'dataBar'), [f[2] for f in r[4] if f[0] == 'color'][0])
                elif e.get('type') == 'iconSet':
                    rules.append([e.get('priority'), sq, 'iconSet', flag(e.get('stopIfTrue'), '0'), icon_facts(e.find(X14 + 'iconSet'), X14), None])
                else:
                    bad('extended rule ' + str(e.get('type')))
    for k in set(ids) - linked:
        bad('missing extension ' + k)
    pr = [r[0] for r in rules]
    if len(set(pr)) != len(pr) or not all(p and p.isdigit() and p != '0' for p in pr):
        bad('priorities %s' % pr)
        return []
    out = []
    for n, (p, sq, t, stop, facts, _) in enumerate(sorted(rules, key=lambda r: int(r[0])), 1):
        k = ('cf', i, str(n))
        out += [k + ('at', sq, t), k + ('stop', stop)] + [k + f for f in facts]
    return out


def dv_facts(i, root, bad):
    out = []
    seen = set()
    e = root.find(M + 'dataValidations')
    if e is None:
        return out
    if e.get('count') != str(len(e)) or len(e) == 0:
        bad('count of data validations')
    for d in e:
        sq = d.get('sqref')
        if sq in seen:
            bad('two validations for ' + sq)
        seen.add(sq)
        k = ('dv', i, sq)
        t = d.get('type', 'none')
        out.append(k + ('type', t, d.get('operator', 'between') if t not in ('list', 'custom', 'none') else ''))
        if t != 'none':
            out.append(k + ('style', d.get('errorStyle', 'stop')))
        for a in ('allowBlank', 'showDropDown', 'showInputMessage', 'showErrorMessage'):
            out.append(k + (a, flag(d.get(a), '0')))
        for a in ('errorTitle', 'error', 'promptTitle', 'prompt'):
            if d.get(a, '') != '':
                out.append(k + (a, enc(unescape(d.get(a)))))
        for n, f in enumerate(d, 1):
            if local(f.tag) != 'formula%d' % n:
                bad('validation child')
            out.append(k + ('formula', str(n), value(unescape(f.text or ''))))
    return out


def sl_facts(i, root, bad):
    groups = []
    for ext in root.findall('%sextLst/%sext' % (M, M)):
        if ext.get('uri') == SL_EXT:
            for g in ext:
                groups += list(g)
    out = []
    for n, g in enumerate(reversed(groups), 1):
        k = ('sl', i, str(n))
        a = dict(g.attrib)
        out.append(k + ('type', a.get('type', 'line')))
        for x in ('markers', 'high', 'low', 'first', 'last', 'negative', 'displayXAxis', 'displayHidden', 'rightToLeft', 'dateAxis'):
            out.append(k + (x, flag(a.get(x), '0')))
        out.append(k + ('empty', a.get('displayEmptyCellsAs', 'zero')))
        for m in ('min', 'max'):
            t = a.get(m + 'AxisType', 'individual')
            out.append(k + (m, t, fnum(a['manual' + m.title()]) if t == 'custom' else ''))
            if t != 'custom' and 'manual' + m.title() in a:
                bad('sparkline ' + m)
        out.append(k + ('weight', fnum(a.get('lineWeight', '0.75'))))
        dates = None
        for e in g:
            t = local(e.tag)
            if t.startswith('color'):
                out.append(k + (t, color_text(e)))
            elif t == 'f':
                dates = unescape(e.text or '')
            elif t == 'sparklines':
                for m, s in enumerate(e, 1):
                    out.append(k + ('at', str(m), enc(unescape(s.findtext(XM + 'f') or '')), s.findtext(XM + 'sqref') or ''))
                if len(e) == 0:
                    bad('empty sparkline group')
            else:
                bad('sparkline child ' + t)
        if dates is not None:
            out.append(k + ('dates', enc(dates)))
        if (dates is not None) != (flag(a.get('dateAxis'), '0') == '1'):
            bad('dates of a sparkline')
    return out


def rules_facts(book, view):
    out = grid_facts(book, view - {'cf', 'dv', 'sl'})
    st = book.styles()
    for si, s in enumerate(book.sheets(), 1):
        i = str(si)
        bad = lambda what: out.append(('BAD', i, what))
        root = book.xml(s['part'])
        uris = [e.get('uri') for e in root.findall('%sextLst/%sext' % (M, M))]
        if len(set(uris)) != len(uris):
            bad('extensions repeated')
        if 'cf' in view:
            out += cf_facts(book, i, root, st, bad)
        if 'dv' in view:
            out += dv_facts(i, root, bad)
        if 'sl' in view:
            out += sl_facts(i, root, bad)
    return out


VIEWS['rules'] = rules_facts
