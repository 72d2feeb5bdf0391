"""Facts about the workbook around its cells."""
import re, time
from xlsx import *
from views import enc, VIEWS

DC = '{http://purl.org/dc/elements/1.1/}'
DT = '{http://purl.org/dc/terms/}'
CP = '{http://schemas.openxmlformats.org/package/2006/metadata/core-properties}'
EP = '{http://schemas.openxmlformats.org/officeDocument/2006/extended-properties}'
VT = '{http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes}'
# The default creation time is now.
THISYEAR = time.strftime('%Y', time.gmtime())
MARGINS = {'left': '0.7', 'right': '0.7', 'top': '0.75', 'bottom': '0.75', 'header': '0.3', 'footer': '0.3'}
# Order of the children of a worksheet.
ORDER = ('sheetPr dimension sheetViews sheetFormatPr cols sheetData sheetCalcPr sheetProtection protectedRanges scenarios autoFilter sortState '
         'dataConsolidate customSheetViews mergeCells phoneticPr conditionalFormatting dataValidations hyperlinks printOptions pageMargins pageSetup '
         'headerFooter rowBreaks colBreaks customProperties cellWatches ignoredErrors smartTags drawing legacyDrawing legacyDrawingHF picture '
         'oleObjects controls webPublishItems tableParts extLst').split()


def num(s):
    return repr(float(s))


def settings(root, kind, add, bad):
    f = lambda t: root.find(M + t)
    pr = f('sheetPr')
    if pr is not None:
        if pr.get('codeName'):
            add('vbaname', enc(pr.get('codeName')))
        tc = pr.find(M + 'tabColor')
        if tc is not None:
            add('tabcolor', color_text(tc))
        ol = pr.find(M + 'outlinePr')
        if ol is not None:
            if ol.get('summaryBelow', '1') == '0':
                add('symabove', '1')
            if ol.get('summaryRight', '1') == '0':
                add('symleft', '1')
        ps = pr.find(M + 'pageSetUpPr')
    else:
        ps = None
    v = f('sheetViews').find(M + 'sheetView')
    if v.get('showGridLines', '1') == '0':
        add('sgrid', '0')
    if v.get('rightToLeft', '0') == '1':
        add('rtl', '1')
    view = v.get('view', 'normal')
    if view != 'normal':
        add('view', view)
    if v.get('topLeftCell'):
        add('topleft', v.get('topLeftCell'))
    z = v.get('zoomScale', '100')
    if z != '100':
        add('zoom', z)
    zk = {'normal': 'zoomScaleNormal', 'pageLayout': 'zoomScalePageLayoutView', 'pageBreakPreview': 'zoomScaleSheetLayoutView'}[view]
    if kind == 'worksheet' and v.get(zk, '100') != z:
        bad('zoom of the view differs')
    pane = v.find(M + 'pane')
    if pane is not None:
        add('pane', '%s,%s,%s,%s' % (pane.get('xSplit', '0'), pane.get('ySplit', '0'), pane.get('topLeftCell'), pane.get('activePane')))
        if pane.get('state') != 'frozen':
            bad('pane not frozen')
        if pane.get('activePane') not in [s.get('pane') for s in v.findall(M + 'selection')]:
            bad('no selection in the active pane')
    for s in v.findall(M + 'selection'):
        if s.get('pane') is None and (s.get('activeCell'), s.get('sqref')) != ('A1', 'A1'):
            add('selection', '%s %s' % (s.get('activeCell'), s.get('sqref')))
    fp = f('sheetFormatPr')
    if fp is not None and fp.get('zeroHeight') == '1':
        add('hideunused', '1')
    po = f('printOptions')
    if po is not None:
        for k, a in (('pch', 'horizontalCentered'), ('pcv', 'verticalCentered'), ('phead', 'headings'), ('pgrid', 'gridLines')):
            if po.get(a, '0') == '1':
                add(k, '1')
    pm = f('pageMargins')
    for k, d in MARGINS.items():
        if num(pm.get(k)) != d:
            add('margin-' + k, num(pm.get(k)))
    s = f('pageSetup')
    if s is not None:
        for k, a, d in (('paper', 'paperSize', '0'), ('scale', 'scale', '100'), ('pageorder', 'pageOrder', ''), ('orient', 'orientation', 'landscape' if kind == 'chartsheet' else 'portrait'),
                        ('pbw', 'blackAndWhite', '0'), ('pdraft', 'draft', '0')):
            if s.get(a, d) != d:
                add(k, s.get(a))
        if s.get('useFirstPageNumber') == '1':
            add('firstpage', s.get('firstPageNumber', '1'))
    fit = ps is not None and ps.get('fitToPage') == '1'
    if fit:
        add('fit', '%sx%s' % ((s.get('fitToWidth', '1'), s.get('fitToHeight', '1')) if s is not None else ('1', '1')))
    hf = f('headerFooter')
    if hf is not None:
        for k, t in (('header', 'oddHeader'), ('footer', 'oddFooter')):
            e = hf.find(M + t)
            if e is not None and e.text:
                add(k, enc(unescape(e.text)))
        if hf.get('scaleWithDoc', '1') == '0':
            add('hfscale', '0')
        if hf.get('alignWithMargins', '1') == '0':
            add('hfalign', '0')
    for k, t in (('breaks', 'rowBreaks'), ('vbreaks', 'colBreaks')):
        e = f(t)
        if e is not None:
            ids = [b.get('id') for b in e]
            add(k, ','.join(ids))
            if e.get('count') != str(len(ids)) or e.get('manualBreakCount') != str(len(ids)):
                bad('page break count')


def book_facts(book, view):
    out = []
    bad = lambda *a: out.append(('BAD',) + a)
    wb = book.wb
    sheets = book.sheets()
    if len({s['id'] for s in sheets}) != len(sheets):
        bad('duplicate sheetId')
    wv = wb.find(M + 'bookViews').find(M + 'workbookView')
    if 'tabs' in view:
        for k, s in enumerate(sheets, 1):
            out.append(('sheet', str(k), enc(unescape(s['name'])), s['state'], s['kind']))
        out.append(('active', str(int(wv.get('activeTab', '0')) + 1)))
        # firstSheet counts from one here: Excel reads 0 and 1 alike.
        out.append(('first', wv.get('firstSheet', '1')))
    for k, s in enumerate(sheets, 1):
        i = str(k)
        root = book.xml(s['part'])
        kids = [local(c.tag) for c in root]
        pos = [ORDER.index(t) for t in kids]
        if pos != sorted(pos) or any(kids.count(t) > 1 for t in kids if t != 'conditionalFormatting'):
            bad(i, 'order of elements')
        if 'tabs' in view and root.find(M + 'sheetViews').find(M + 'sheetView').get('tabSelected') == '1':
            out.append(('selected', i))
        if 'set' in view:
            settings(root, s['kind'], lambda a, b: out.append(('set', i, a, b)), lambda w: bad(i, w))
            e = root.find(M + 'ignoredErrors')
            for x in (e if e is not None else ()):
                for a, v in x.attrib.items():
                    if a != 'sqref':
                        out.append(('ign', i, a, x.get('sqref')))
        if 'prot' in view:
            e = root.find(M + 'sheetProtection')
            if e is not None:
                out.append(('prot', i, 'on', '1'))
                for a, v in e.attrib.items():
                    out.append(('prot', i, a, v))
            e = root.find(M + 'protectedRanges')
            for n, x in enumerate((e if e is not None else ()), 1):
                out.append(('ur', i, str(n), x.get('sqref'), enc(unescape(x.get('name'))), x.get('password', '')))
    if 'set' in view:
        p = wb.find(M + 'workbookPr')
        if p is not None and p.get('codeName'):
            out.append(('wbvba', enc(p.get('codeName'))))
        # Macros, and whether the file says that it has some.
        held = lambda part, tail: [x[1] for x in book.rels(part).values() if x[0] == tail] if part else []
        text = lambda part: book.read(part).decode().removeprefix('VBA:').removesuffix(';') if part else ''
        macros = held(book.wb_part, 'vbaProject')
        kind = [e.get('ContentType') for e in book.xml('[Content_Types].xml') if e.get('PartName') == '/' + book.wb_part]
        if kind != ['application/vnd.ms-excel.sheet.macroEnabled.main+xml' if macros else 'application/vnd.openxmlformats-officedocument.spreadsheetml.sheet.main+xml']:
            bad('type of workbook')
        if macros:
            out.append(('macros', text(macros[0]), text((held(macros[0], 'vbaProjectSignature') + [''])[0])))
    if 'names' in view:
        names = book.defined_names()
        key = lambda n: n[0].replace('_xlnm.', '').lower()
        if [key(n) for n in names] != sorted(key(n) for n in names):
            bad('defined names not sorted')
        cnt = {}
        for n in names:
            f = ('name', enc(unescape(n[0])), n[1], n[2], enc(unescape(n[3])))
            cnt[f] = cnt.get(f, 0) + 1
        out += [f + (str(n),) for f, n in cnt.items()]
        app = book.xml('docProps/app.xml')
        pairs = [t.text for t in app.find(EP + 'HeadingPairs').iter() if t.tag in (VT + 'lpstr', VT + 'i4')]
        parts = [t.text or '' for t in app.find(EP + 'TitlesOfParts').iter(VT + 'lpstr')]
        for vec, n in ((app.find(EP + 'HeadingPairs')[0], len(pairs)), (app.find(EP + 'TitlesOfParts')[0], len(parts))):
            if vec.get('size') != str(n):
                bad('vector size')
        at = 0
        for a, n in zip(pairs[::2], pairs[1::2]):
            out.append(('pair', a, n))
            mine = parts[at:at + int(n)]
            at += int(n)
            if a == 'Named Ranges':
                cnt = {}
                for m in mine:
                    cnt[m] = cnt.get(m, 0) + 1
                out += [('part', 'name', enc(unescape(m)), str(c)) for m, c in cnt.items()]
            else:
                out += [('part', {'Worksheets': 'sheet', 'Charts': 'chart'}[a], str(k), enc(unescape(m))) for k, m in enumerate(mine, 1)]
        if at != len(parts):
            bad('heading pairs do not cover the parts')
    if 'doc' in view:
        core = book.xml('docProps/core.xml')
        app = book.xml('docProps/app.xml')
        get = lambda root, t: (root.find(t).text or '') if root.find(t) is not None else ''
        for k, t in (('title', DC + 'title'), ('subject', DC + 'subject'), ('author', DC + 'creator'), ('keywords', CP + 'keywords'),
                     ('comment', DC + 'description'), ('category', CP + 'category'), ('status', CP + 'contentStatus'), ('created', DT + 'created')):
            if get(core, t) != '' and not (k == 'created' and get(core, t).startswith(THISYEAR)):
                out.append(('doc', k, enc(get(core, t))))
        if get(core, CP + 'lastModifiedBy') != get(core, DC + 'creator') or get(core, DT + 'modified') != get(core, DT + 'created'):
            bad('last modification differs from creation')
        for k, t in (('manager', 'Manager'), ('company', 'Company'), ('hyperlink_base', 'HyperlinkBase')):
            if get(app, EP + t) != '':
                out.append(('doc', k, enc(get(app, EP + t))))
        fs = wb.find(M + 'fileSharing')
        ro = fs is not None and fs.get('readOnlyRecommended') == '1'
        if ro:
            out.append(('doc', 'readonly', '1'))
        if (get(app, EP + 'DocSecurity') == '2') != ro:
            bad('DocSecurity %s' % get(app, EP + 'DocSecurity'))
        part = [t for k, t, _ in book.rels('').values() if k == 'custom-properties']
        if part:
            for n, e in enumerate(book.xml(part[0]), 1):
                if e.get('pid') != str(n + 1):
                    bad('pid')
                v = e[0]
                t = local(v.tag)
                x = v.text or ''
                x = num(x) if t == 'r8' else x
                out.append(('custom', str(n), enc(e.get('name')), t, enc(x)))
    return out


VIEWS['book'] = book_facts
