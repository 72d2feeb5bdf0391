"""Reads every text of a file back, wherever it is kept."""
from xlsx import *
from views import VIEWS, enc
from vobj import XDR, A, C, V, X, O, RID
from vbook import EP, VT, DC, CP


def xx(s):
    """Text of an ST_Xstring."""
    return unescape(s or '')


def dd(s):
    """Text of a plain string of DrawingML, VML or the properties."""
    return xattr(s or '')


def unq(f, bad):
    """The text of a formula that is one string."""
    if len(f) < 2 or f[0] != '"' or f[-1] != '"':
        bad('formula ' + f)
        return f
    return f[1:-1].replace('""', '"')


CELL = {1: 'str', 11: 'strfmt', 7: 'urltext', 14: 'merge', 16: 'cached', 24: 'nan', 27: 'colname'}


def texts_facts(book, view):
    out = []
    wb = book.wb
    bad = lambda *a: out.append(('BAD',) + tuple(a))
    sheets = book.sheets()

    def put(slot, s, r, t):
        out.append(('text', slot, str(s), str(r), enc(t)))
    st = book.styles()
    sroot = None
    for t, target, _ in book.rels(book.wb_part).values():
        if t == 'styles':
            sroot = book.xml(target)
    numfmts = {e.get('numFmtId'): xx(e.get('formatCode')) for e in sroot.iter(M + 'numFmt')}
    fonts = [xx(f.find(M + 'name').get('val')) for f in sroot.find(M + 'fonts')]
    xfs = sroot.find(M + 'cellXfs')
    dxfs = sroot.find(M + 'dxfs')
    for si, s in enumerate(sheets):
        if s['kind'] != 'worksheet':
            continue
        name = xx(s['name'])
        if name != 'Sheet%d' % (si + 1):
            put('name', si, 0, name)
        sh = Sheet(book, s['part'])
        root, rels = sh.root, book.rels(s['part'])
        hdr = set()
        tables = []
        tp = sh.find('tableParts')
        for p in (tp if tp is not None else ()):
            t = book.xml(rels[p.get(RID)][1])
            a = rng(t.get('ref'))
            tables.append((t, a))
            hdr.add((a[0], a[1]))
        for r, c, sidx, kind, val, extra in sh.cells():
            k = r // 6
            if c in (27, 28):
                # The header of a table, or its totals, told twice.
                for t, a in tables:
                    col = t.find(M + 'tableColumns')[c - a[1]] if a[0] <= r <= a[2] else None
                    if col is not None and r == a[0] and (kind, val) != ('s', xx(col.get('name'))):
                        bad('header cell', str(r))
                    if col is not None and r == a[2] and col.get('totalsRowLabel') is not None and (kind, val) != ('s', xx(col.get('totalsRowLabel'))):
                        bad('label cell', str(r))
                    if col is not None and c == 27 and col.find(M + 'totalsRowFormula') is not None and r == a[2] and \
                            (kind != 'f' or val != xx(col.find(M + 'totalsRowFormula').text)):
                        bad('total cell', str(r))
            elif c in CELL:
                if kind == 's':
                    put(CELL[c], si, k, val)
                elif kind != 'z':
                    bad('kind of cell', str(r), str(c), kind)
            elif c in (2, 3):
                if kind != 'r' or len(val) != 2 or val[3 - c][1] != 'ba'[c - 2]:
                    bad('rich', str(r))
                else:
                    put('rich%d' % (c - 1), si, k, val[c - 2][1])
            elif c == 4:
                put('formula', si, k, unq(val, bad))
            elif c == 5:
                t, v = extra['res']
                put('result', si, k, v[1:] if t == 'str' and v[:1] == 'r' else 'TYPE ' + t)
            elif c == 6:
                put('array', si, k, unq(val, bad))
            elif c == 9:
                loc = [h for h in root.iter(M + 'hyperlink') if rng(h.get('ref'))[:2] == (r, c)]
                t = xx(loc[0].get('location')) if loc else ''
                put('loc', si, k, t)
                if (kind, val) != ('s', t):
                    bad('text of an internal link', enc(str(val)))
            elif c == 19:
                put('numfmt', si, k, numfmts.get(xfs[int(sidx)].get('numFmtId'), ''))
            elif c == 20:
                put('font', si, k, fonts[int(xfs[int(sidx)].get('fontId'))])
        for h in root.iter(M + 'hyperlink'):
            r, c = rng(h.get('ref'))[:2]
            if c == 8:
                put('tip', si, r // 6, xx(h.get('tooltip')))
        for d in root.iter(M + 'dataValidation'):
            k = rng(d.get('sqref'))[0] // 6
            for slot, a in (('dvtitle', 'promptTitle'), ('dvmsg', 'prompt'), ('dvetitle', 'errorTitle'), ('dvemsg', 'error')):
                if d.get(a) is not None:
                    put(slot, si, k, xx(d.get(a)))
            f = d.find(M + 'formula1')
            if f is not None:
                t = xx(f.text)
                if d.get('type') == 'list':
                    if not t.startswith('"x,') or not t.endswith('"'):
                        bad('list', enc(t))
                    put('dvlist', si, k, t[3:-1].replace('""', '"'))
                else:
                    put('dvcustom', si, k, unq(t, bad))
        for cf in root.iter(M + 'conditionalFormatting'):
            k = rng(cf.get('sqref'))[0] // 6
            for e in cf:
                f = [xx(x.text) for x in e.findall(M + 'formula')]
                if e.get('type') == 'containsText':
                    t = xx(e.get('text'))
                    put('cftext', si, k, t)
                    if not f[0].startswith('NOT(ISERROR(SEARCH("%s"' % t.replace('"', '""')):
                        bad('formula of a text rule', enc(f[0]))
                elif e.get('type') == 'expression':
                    put('cfformula', si, k, unq(f[0], bad))
                elif e.get('type') == 'cellIs':
                    put('cfcell', si, k, unq(f[0], bad))
                elif e.get('type') == 'containsBlanks':
                    d = dxfs[int(e.get('dxfId'))]
                    put('dxfnumfmt', si, k, xx(d.find(M + 'numFmt').get('formatCode')))
        for t, a in tables:
            c = t.find(M + 'tableColumns')[0]
            k = a[0] // 6
            if c.get('name') != 'Column1':
                put('colname', si, k, xx(c.get('name')))
            if c.get('totalsRowLabel') is not None:
                put('label', si, k, xx(c.get('totalsRowLabel')))
            for slot, tag in (('colformula', 'calculatedColumnFormula'), ('totalformula', 'totalsRowFormula')):
                if c.find(M + tag) is not None:
                    put(slot, si, k, unq(xx(c.find(M + tag).text), bad))
        pr = sh.find('protectedRanges')
        for e in (pr if pr is not None else ()):
            put('protrange', si, rng(e.get('sqref'))[0] // 6, xx(e.get('name')))
        hf = sh.find('headerFooter')
        for slot, tag in (('header', 'oddHeader'), ('footer', 'oddFooter')):
            if hf is not None and hf.find(M + tag) is not None:
                put(slot, si, 0, xx(hf.find(M + tag).text))
        af = sh.find('autoFilter')
        for e in (af.iter(M + 'filter') if af is not None else ()):
            put('listfilter', si, 0, xx(e.get('val')))
        for e in (af.iter(M + 'customFilter') if af is not None else ()):
            put('customfilter', si, 0, xx(e.get('val')))
        # Notes, buttons and their boxes.
        for kind, target, _ in rels.values():
            if kind == 'comments':
                cr = book.xml(target)
                authors = [xx(a.text) for a in cr.find(M + 'authors')]
                for c in cr.find(M + 'commentList'):
                    r, col = ref(c.get('ref'))
                    ts = [xtext(x) for x in c.iter(M + 't')]
                    if col == 10:
                        put('note', si, r // 6, ''.join(ts))
                    elif col == 17:
                        put('prefix', si, r // 6, authors[int(c.get('authorId'))])
                        if ts != [authors[int(c.get('authorId'))] + ':', '\nn']:
                            bad('prefix', enc(repr(ts)))
            elif kind == 'vmlDrawing':
                for sp in book.xml(target).findall(V + 'shape'):
                    cd = sp.find(X + 'ClientData')
                    if cd.get('ObjectType') == 'Button':
                        at = [int(x) for x in cd.find(X + 'Anchor').text.split(',')]
                        k = at[2] // 6
                        if at[0] == 34:
                            put('caption', si, k, dd(''.join(sp.find(V + 'textbox').itertext())))
                        elif at[0] == 35:
                            put('buttonalt', si, k, dd(sp.get('alt')))
                        elif at[0] == 36:
                            m = dd(cd.find(X + 'FmlaMacro').text)
                            put('macro', si, k, m[4:] if m.startswith('[0]!') else 'NO MACRO')
                    elif cd.find(X + 'Column').text == '18':
                        put('notealt', si, int(cd.find(X + 'Row').text) // 6, dd(sp.get('alt')))
            elif kind == 'drawing':
                drawing(book, target, si, put, bad)
    for n in book.defined_names():
        nm = xx(n[0])
        if nm[:1] == 'N':
            put('defname', 1000, int(nm[1:]), unq(xx(n[3]), bad))
    core, app = book.xml('docProps/core.xml'), book.xml('docProps/app.xml')
    for root, ps in ((core, (('title', DC + 'title'), ('subject', DC + 'subject'), ('author', DC + 'creator'), ('keywords', CP + 'keywords'),
                             ('comment', DC + 'description'), ('category', CP + 'category'), ('status', CP + 'contentStatus'))),
                     (app, (('manager', EP + 'Manager'), ('company', EP + 'Company'), ('base', EP + 'HyperlinkBase')))):
        for k, tag in ps:
            e = root.find(tag)
            if e is not None and e.text:
                put('p_' + k, 1000, 0, dd(e.text))
    names = [dd(t.text) for t in app.find(EP + 'TitlesOfParts').iter(VT + 'lpstr')]
    if names[:len(sheets)] != [xx(s['name']) for s in sheets]:
        bad('titles of parts')
    part = [t for k, t, _ in book.rels('').values() if k == 'custom-properties']
    for e in (book.xml(part[0]) if part else ()):
        if local(e[0].tag) == 'lpwstr':
            put('c_value', 1000, int(e.get('name')[1:]), dd(e[0].text))
        else:
            put('c_name', 1000, int(e[0].text), dd(e.get('name')))
    return out


def drawing(book, part, si, put, bad):
    root, rels = book.xml(part), book.rels(part)
    for an in root:
        f = an.find(XDR + 'from')
        c, k = int(f.find(XDR + 'col').text), int(f.find(XDR + 'row').text) // 6
        cnv = next(an.iter(XDR + 'cNvPr'))
        if c in (30, 33, 38):
            put({30: 'alt', 33: 'shapealt', 38: 'chalt'}[c], si, k, dd(cnv.get('descr')))
        elif c == 31:
            h = cnv.find(A + 'hlinkClick')
            put('imgtip', si, k, dd(h.get('tooltip')))
        elif c == 32:
            paras = [''.join(t.text or '' for t in p.iter(A + 't')) for p in an.find(XDR + 'sp').find(XDR + 'txBody').findall(A + 'p')]
            put('shape', si, k, dd('\n'.join(paras)))
        elif c == 37:
            put('chname', si, k, dd(cnv.get('name')))
        elif c >= 39:
            ch = book.xml(rels[next(an.iter(C + 'chart')).get(RID)][1])
            rich = lambda e: dd(''.join(t.text or '' for t in e.iter(A + 't')))
            plot = ch.find(C + 'chart').find(C + 'plotArea')
            sers = list(plot.iter(C + 'ser'))
            if c == 39:
                put('chtitle', si, k, rich(ch.find(C + 'chart').find(C + 'title')))
            elif c == 40:
                put('sername', si, k, xx(sers[1].find(C + 'tx').find(C + 'v').text))
            elif c == 41:
                put('xname', si, k, rich(plot.find(C + 'catAx').find(C + 'title')))
            elif c == 42:
                put('dlabel', si, k, rich(sers[1].find(C + 'dLbls').find(C + 'dLbl').find(C + 'tx')))
            elif c == 43:
                put('trend', si, k, dd(sers[1].find(C + 'trendline').find(C + 'name').text))
            elif c == 44:
                put('axisfmt', si, k, xx(plot.find(C + 'valAx').find(C + 'numFmt').get('formatCode')))
            elif c == 45:
                fs = {dd(e.get('typeface')) for e in ch.find(C + 'chart').find(C + 'title').iter(A + 'latin')}
                put('titlefont', si, k, fs.pop() if len(fs) == 1 else 'FONTS %s' % sorted(fs))
            elif c == 50:
                vs = [xx(v.text) for cache in ch.iter(C + 'strCache') for v in cache.iter(C + 'v')]
                name = [xx(v.text) for v in sers[0].find(C + 'tx').iter(C + 'v')]
                put('cachedname', si, k, name[0] if len(name) == 1 else 'NAMES %d' % len(name))
                put('cachedvalue', si, k, vs[-1])


VIEWS['texts'] = texts_facts
