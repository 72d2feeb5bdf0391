"""Turns parsed files into the facts compared with the specification."""
import hashlib
from xlsx import *


def enc(s):
    """Injective ASCII rendering of text, digested when long."""
    out = []
    for ch in s:
        o = ord(ch)
        if 32 <= o < 127 and ch not in '\\"%':
            out.append(ch)
        else:
            out.append('%%%X;' % o)
    t = ''.join(out)
    if len(t) > 2600:
        return 'sha1:%s:%d' % (hashlib.sha1(t.encode()).hexdigest(), len(s))
    return t


def width_px(w):
    """Pixels shown for a column width stored in a file (Calibri 11, 7px digits)."""
    return int(float(w) * 7 + 0.5)


def sheet_props(book, sh):
    fp = sh.find('sheetFormatPr')
    return fp.attrib if fp is not None else {}


def grid_facts(book, view):
    out = []
    st = book.styles()
    for b in st.bad:
        out.append(('BAD', 'styles', b))
    used = {}
    ncells = 0
    for si, s in enumerate(book.sheets(), 1):
        i = str(si)
        if s['kind'] != 'worksheet':
            continue
        sh = Sheet(book, s['part'])
        rows = sh.rows()
        cols = sh.cols()

        def inherited(r, c):
            a = rows.get(r, {})
            if a.get('s', '0') != '0':
                return a['s']
            for lo, hi, ca in cols:
                if lo <= c <= hi:
                    return ca.get('style', '0')
            return '0'
        box = None
        for r, c, sx, kind, val, ex in sh.cells():
            p = (i, str(r), str(c))
            box = (min(box[0], r), min(box[1], c), max(box[2], r), max(box[3], c)) if box else (r, c, r, c)
            if 'sst' in ex:
                used[ex['sst']] = used.get(ex['sst'], 0) + 1
                ncells += 1
            if 'c' in view:
                if kind == 'r':
                    out.append(('c',) + p + ('r', str(len(val))))
                    for n, (f, t) in enumerate(val, 1):
                        out.append(('seg',) + p + (str(n), enc(t)))
                        for k, v in (f or ()):
                            out.append(('segf',) + p + (str(n), k, v))
                elif kind in 'fad':
                    out.append(('c',) + p + (kind, enc(val)))
                    out.append(('res',) + p + (ex['res'][0], enc(ex['res'][1])))
                    if kind in 'ad':
                        out.append(('ref',) + p + tuple(str(x) for x in ex['ref']))
                elif kind != 'z':
                    out.append(('c',) + p + (kind, enc(val)))
            if 'x' in view:
                f = st.xf(sx)
                inh = st.xf(inherited(r, c))
                if kind == 'z' and (f == inh or not f):
                    pass
                else:
                    if kind == 'z':
                        out.append(('z',) + p)
                    for k, v in f:
                        out.append(('x',) + p + (k, v))
        for b in sh.bad:
            out.append(('BAD', i, b))
        d = sh.find('dimension')
        if box and d is not None:
            a = rng(d.get('ref'))
            wide = d.get('ref') == 'A1' and box[2] == 0   # full width rows are written as A1
            if not wide and not (a[0] <= box[0] and a[1] <= box[1] and a[2] >= box[2] and a[3] >= box[3]):
                out.append(('BAD', i, 'dimension does not cover the cells'))
        fp = sheet_props(book, sh)
        if 'row' in view:
            dflt = fnum(fp.get('defaultRowHeight', '15'))
            if dflt != '15.0':
                out.append(('rowdefault', i, dflt))
            maxl = 0
            for r, a in rows.items():
                p = (i, str(r))
                if a.get('customHeight') == '1' and fnum(a['ht']) != dflt:
                    out.append(('row',) + p + ('ht', fnum(a['ht'])))
                if a.get('customHeight') != '1' and 'ht' in a:
                    out.append(('BAD', i, 'ht without customHeight'))
                if a.get('hidden') == '1':
                    out.append(('row',) + p + ('hidden', '1'))
                if a.get('outlineLevel', '0') != '0':
                    out.append(('row',) + p + ('level', a['outlineLevel']))
                    maxl = max(maxl, int(a['outlineLevel']))
                if a.get('collapsed') == '1':
                    out.append(('row',) + p + ('collapsed', '1'))
                if a.get('s', '0') != '0':
                    if a.get('customFormat') != '1':
                        out.append(('BAD', i, 's without customFormat'))
                    for k, v in st.xf(a['s']):
                        out.append(('rowx',) + p + (k, v))
            lv = int(fp.get('outlineLevelRow', '0'))
            if lv < maxl or (lv > maxl and 'lowmem' not in view):
                out.append(('BAD', i, 'outlineLevelRow %s but deepest row level is %d' % (fp.get('outlineLevelRow', '0'), maxl)))
        if 'col' in view:
            maxl = 0
            for lo, hi, a in cols:
                for c in range(lo, min(hi, lo + 400) + 1):
                    p = (i, str(c))
                    px = width_px(a['width'])
                    if px != 64 and not (a.get('hidden') == '1' and px == 0):
                        out.append(('col',) + p + ('px', str(px)))
                        if a.get('customWidth') != '1':
                            out.append(('BAD', i, 'width without customWidth'))
                    if a.get('hidden') == '1':
                        out.append(('col',) + p + ('hidden', '1'))
                    if a.get('outlineLevel', '0') != '0':
                        out.append(('col',) + p + ('level', a['outlineLevel']))
                        maxl = max(maxl, int(a['outlineLevel']))
                    if a.get('collapsed') == '1':
                        out.append(('col',) + p + ('collapsed', '1'))
                    if a.get('style', '0') != '0':
                        for k, v in st.xf(a['style']):
                            out.append(('colx',) + p + (k, v))
            if int(fp.get('outlineLevelCol', '0')) != maxl:
                out.append(('BAD', i, 'outlineLevelCol %s but deepest column level is %d' % (fp.get('outlineLevelCol', '0'), maxl)))
        if 'merge' in view:
            e = sh.find('mergeCells')
            if e is not None:
                if e.get('count') and int(e.get('count')) != len(e):
                    out.append(('BAD', i, 'mergeCells count'))
                for m in e:
                    out.append(('merge', i) + tuple(str(x) for x in rng(m.get('ref'))))
        if 'link' in view:
            e = sh.find('hyperlinks')
            for h in (e if e is not None else ()):
                a = rng(h.get('ref'))
                rid = h.get('{http://schemas.openxmlformats.org/officeDocument/2006/relationships}id')
                tgt = ''
                if rid is not None:
                    rel = book.rels(s['part'])[rid]
                    tgt = rel[1]
                    if not rel[2] or rel[0] != 'hyperlink':
                        out.append(('BAD', i, 'hyperlink relationship is not an external link'))
                out.append(('link', i, str(a[0]), str(a[1]), enc(tgt), enc(unescape(h.get('location', ''))), enc(unescape(h.get('tooltip', '')))))
                if a[0] != a[2] or a[1] != a[3]:
                    out.append(('BAD', i, 'hyperlink over several cells'))
        if 'af' in view:
            e = sh.find('autoFilter')
            if e is not None:
                out.append(('af', i) + tuple(str(x) for x in rng(e.get('ref'))))
        if 'filter' in view:
            out += filter_facts(sh, i)
        if 'table' in view:
            out += table_facts(book, st, s, sh, i)
    if 'sst' in view:
        attrs, items = book.sst()
        out.append(('sst', 'count', attrs.get('count', '0')))
        out.append(('sst', 'unique', attrs.get('uniqueCount', '0')))
        if len(items) != int(attrs.get('uniqueCount', '0')):
            out.append(('BAD', 'sst', 'uniqueCount %s but %d entries' % (attrs.get('uniqueCount'), len(items))))
        keys = [k if k[0] == 's' else ('r', tuple((f or frozenset(), t) for f, t in k[1])) for k in items]
        if len(set(keys)) != len(keys):
            out.append(('BAD', 'sst', 'duplicate entries'))
        for n in range(len(items)):
            if n not in used:
                out.append(('BAD', 'sst', 'unreferenced entry'))
        if ncells != int(attrs.get('count', '0')):
            out.append(('BAD', 'sst', 'count %s but %d string cells' % (attrs.get('count'), ncells)))
    return out


def filter_facts(sh, i):
    out = []
    e = sh.find('autoFilter')
    for fcol in (e if e is not None else ()):
        p = (i, fcol.get('colId'))
        kids = list(fcol)
        if len(kids) != 1:
            out.append(('BAD', i, 'filterColumn children'))
        for k in kids:
            if k.tag == M + 'filters':
                out.append(('fcol',) + p + ('list', k.get('blank', '0'), str(len(k))))
                for n, f in enumerate(k, 1):
                    out.append(('fval',) + p + (str(n), enc(unescape(f.get('val')))))
            else:
                out.append(('fcol',) + p + ('custom', 'and' if k.get('and') == '1' else 'or', str(len(k))))
                for n, f in enumerate(k, 1):
                    out.append(('fval',) + p + (str(n), f.get('operator', ''), enc(unescape(f.get('val')))))
    pr = sh.find('sheetPr')
    if pr is not None and pr.get('filterMode') == '1':
        out.append(('filterMode', i))
    return out


def table_facts(book, st, s, sh, i):
    out = []
    rels = book.rels(s['part'])
    parts = sh.find('tableParts')
    if parts is not None and parts.get('count') and int(parts.get('count')) != len(parts):
        out.append(('BAD', i, 'tableParts count'))
    used = [tp.get('{http://schemas.openxmlformats.org/officeDocument/2006/relationships}id') for tp in (parts if parts is not None else ())]
    have = [k for k in rels if rels[k][0] == 'table']
    if sorted(used) != sorted(have):
        out.append(('BAD', i, 'table relationships %s but parts %s' % (sorted(have), sorted(used))))
    for rid in used:
        t = book.xml(rels[rid][1])
        a = rng(t.get('ref'))
        p = (i, str(a[0]), str(a[1]))
        bad = lambda what: out.append(('BAD', i, 'table %s: %s' % (t.get('ref'), what)))
        book.table_ids = getattr(book, 'table_ids', set())
        if t.get('id') in book.table_ids:
            bad('id is not unique')
        book.table_ids.add(t.get('id'))
        if t.get('name') != t.get('displayName'):
            bad('name and displayName')
        header, totals = t.get('headerRowCount', '1'), t.get('totalsRowCount', '0')
        out.append(('t',) + p + ('ref', str(a[2]), str(a[3])))
        out.append(('t',) + p + ('name', enc(t.get('name'))))
        out.append(('t',) + p + ('header', header))
        out.append(('t',) + p + ('totals', totals))
        f = t.find(M + 'autoFilter')
        if f is not None:
            out.append(('t',) + p + ('filter',) + tuple(str(x) for x in rng(f.get('ref'))))
        si = t.find(M + 'tableStyleInfo')
        out.append(('t',) + p + ('style', si.get('name', '')) + tuple(si.get(k, '0') for k in ('showFirstColumn', 'showLastColumn', 'showRowStripes', 'showColumnStripes')))
        cols = t.find(M + 'tableColumns')
        if int(cols.get('count')) != len(cols) or len(cols) != a[3] - a[1] + 1:
            bad('column count')
        seen = set()
        for n, c in enumerate(cols, 1):
            if c.get('id') != str(n):
                bad('column id')
            name = unescape(c.get('name'))
            if name.lower() in seen:
                bad('column names are not unique')
            seen.add(name.lower())
            q = ('tc',) + p + (str(n),)
            out.append(q + ('name', enc(name)))
            if c.get('totalsRowLabel') is not None:
                out.append(q + ('label', enc(unescape(c.get('totalsRowLabel')))))
            if c.get('totalsRowFunction') is not None:
                out.append(q + ('function', c.get('totalsRowFunction')))
            for k in c:
                if k.tag == M + 'calculatedColumnFormula':
                    out.append(q + ('formula', enc(unescape(k.text or ''))))
                elif k.tag == M + 'totalsRowFormula':
                    out.append(q + ('total', enc(unescape(k.text or ''))))
                else:
                    bad('column child ' + k.tag)
            if c.get('dataDxfId') is not None:
                out.append(q + ('dxf', '', ''))
                for k, v in st.dxf(c.get('dataDxfId')):
                    out.append(q + ('dxf', k, v))
    return out


VIEWS = {'grid': grid_facts}


def value_facts(v, case, op):
    """The value a call returned."""
    if isinstance(v, list):
        return [['val', str(k), enc(str(x))] for k, x in enumerate(v, 1)]
    return [['val', enc(str(v))]]


def project(data, case):
    """All facts for one saved file, as a sorted list of lists of strings."""
    try:
        book = Book(data)
        fn = VIEWS[case.get('viewer', 'grid')]
        out = fn(book, set(case['view']))
        for b in book.bad:
            out.append(('BAD', 'package', b))
    except (Bad, ET.ParseError, KeyError, ValueError, zipfile.BadZipFile, IndexError, AttributeError, TypeError) as e:
        return [['UNREADABLE', type(e).__name__, enc(str(e))[:200]]]
    seen = {}
    for f in out:
        seen[f] = seen.get(f, 0) + 1
    res = [list(f) for f in seen]
    for f, n in seen.items():
        if n > 1 and f[0] != 'BAD':
            res.append(['DUPLICATE'] + list(f))
    return sorted(res)
