"""The parts of a file and how they refer to each other, to be judged by spec/Package.tla.

Nothing is decided here: parts, content types, relationships, their uses, the
children and attributes of every kind of element, definitions of and
references to numbers are only listed."""
import re
from collections import Counter
from xlsx import *
from views import VIEWS, enc

NS = {
    'http://schemas.openxmlformats.org/spreadsheetml/2006/main': 'x',
    'http://schemas.openxmlformats.org/officeDocument/2006/relationships': 'r',
    'http://schemas.openxmlformats.org/package/2006/relationships': 'pr',
    'http://schemas.openxmlformats.org/package/2006/content-types': 'ct',
    'http://schemas.openxmlformats.org/package/2006/metadata/core-properties': 'cp',
    'http://schemas.openxmlformats.org/officeDocument/2006/extended-properties': 'ep',
    'http://schemas.openxmlformats.org/officeDocument/2006/custom-properties': 'op',
    'http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes': 'vt',
    'http://purl.org/dc/elements/1.1/': 'dc', 'http://purl.org/dc/terms/': 'dcterms', 'http://purl.org/dc/dcmitype/': 'dcmitype',
    'http://www.w3.org/2001/XMLSchema-instance': 'xsi', 'http://www.w3.org/XML/1998/namespace': 'xml',
    'http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing': 'xdr',
    'http://schemas.openxmlformats.org/drawingml/2006/main': 'a',
    'http://schemas.openxmlformats.org/drawingml/2006/chart': 'c',
    'http://schemas.openxmlformats.org/markup-compatibility/2006': 'mc',
    'urn:schemas-microsoft-com:vml': 'v', 'urn:schemas-microsoft-com:office:office': 'o', 'urn:schemas-microsoft-com:office:excel': 'xl',
    'http://schemas.microsoft.com/office/spreadsheetml/2009/9/main': 'x14', 'http://schemas.microsoft.com/office/excel/2006/main': 'xm',
    'http://schemas.microsoft.com/office/spreadsheetml/2009/9/ac': 'x14ac', 'http://schemas.microsoft.com/office/spreadsheetml/2010/11/main': 'x15',
    'http://schemas.microsoft.com/office/spreadsheetml/2017/richdata': 'xlrd', 'http://schemas.microsoft.com/office/spreadsheetml/2017/richdata2': 'xlrd2',
    'http://schemas.microsoft.com/office/spreadsheetml/2022/richvaluerel': 'rvr',
    'http://schemas.microsoft.com/office/spreadsheetml/2022/featurepropertybag': 'fpb',
    'http://schemas.microsoft.com/office/spreadsheetml/2017/dynamicarray': 'xda',
    'http://schemas.microsoft.com/office/drawing/2017/decorative': 'adec', 'http://schemas.microsoft.com/office/drawing/2010/main': 'a14',
    'http://schemas.microsoft.com/office/drawing/2014/main': 'a16', 'http://schemas.microsoft.com/office/drawing/2007/8/2/chart': 'c14',
    'http://schemas.microsoft.com/office/drawing/2017/03/chart': 'c16r3', 'http://schemas.microsoft.com/office/drawing/2012/chart': 'c15', 'http://schemas.microsoft.com/office/drawing/2014/chart': 'c16',
}
SP = 'application/vnd.openxmlformats-officedocument.'
SHAPE = [SP + x for x in ('spreadsheetml.worksheet+xml', 'spreadsheetml.chartsheet+xml', 'drawing+xml', 'drawingml.chart+xml', 'spreadsheetml.table+xml',
                          'spreadsheetml.comments+xml', 'vmlDrawing', 'spreadsheetml.sheetMetadata+xml', 'custom-properties+xml')]
SHAPE += ['application/vnd.ms-excel.richvaluerel+xml', 'application/vnd.ms-excel.featurepropertybag+xml', 'application/vnd.ms-office.vbaProject',
          'application/vnd.ms-office.vbaProjectSignature']


def q(tag):
    if tag[0] != '{':
        return tag
    u, n = tag[1:].split('}')
    return NS.get(u, u) + ':' + n


# Elements whose content depends on where they are.
TWICE = {'x:font', 'x:color', 'x:extLst', 'x:ext', 'a:ext', 'a:extLst', 'c:ext', 'c:extLst', 'x:bk', 'x:cfRule', 'x:r', 'x:t', 'x:f', 'x:v', 'x:c', 'c:tx', 'x:filter',
         'c:ser', 'x14:cfRule', 'x:rPr', 'x:colors'}
MAGIC = [(b'\x89PNG', 'png'), (b'\xff\xd8', 'jpeg'), (b'GIF8', 'gif'), (b'BM', 'bmp'), (b'<?xml', 'xml'), (b'<xml', 'vml')]
MAIN_REL = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'


def source_of(relpart):
    d, b = posixpath.split(relpart)
    return posixpath.join(posixpath.dirname(d), b[:-5])


def package_facts(book, view):
    out = set()
    put = lambda *f: out.add(tuple(str(x) for x in f))
    seen = {}

    def idt(kind, scope, value):
        """One use of a name which may be used once."""
        k = (kind, scope, str(value))
        seen[k] = seen.get(k, 0) + 1
        put('id', kind, scope, value, seen[k])
    for n in book.names:
        ext = n.rsplit('.', 1)[-1].lower() if '.' in posixpath.basename(n) else ''
        put('part', n, ext)
        idt('part', '', n.lower())
        data = book.read(n)
        put('magic', n, next((m for b, m in MAGIC if data.startswith(b)), 'other'))
        if n.endswith('.rels'):
            put('rels', source_of(n))
            for r in book.xml(n).findall(PR + 'Relationship'):
                idt('rel', source_of(n), r.get('Id'))
        elif n == '[Content_Types].xml':
            for e in book.xml(n):
                if q(e.tag) == 'ct:Default':
                    put('default', e.get('Extension').lower(), e.get('ContentType'))
                    idt('default', '', e.get('Extension').lower())
                else:
                    put('override', e.get('PartName').lstrip('/'), e.get('ContentType'), 'rooted' if e.get('PartName').startswith('/') else 'not')
                    idt('override', '', e.get('PartName').lower())
    for n in [''] + book.names:
        if n and not book.has(rels_path(n)):
            continue
        p = rels_path(n)
        for r in book.xml(p).findall(PR + 'Relationship'):
            t = r.get('Target')
            mode = r.get('TargetMode', 'Internal')
            if mode == 'Internal' and t.startswith('#'):
                mode = 'Fragment'
            elif mode == 'Internal':
                t = t[1:] if t.startswith('/') else posixpath.normpath(posixpath.join(posixpath.dirname(n), t))
            put('rel', n, r.get('Id'), r.get('Type'), mode, enc(t))
    for n in book.names:
        if n.endswith('.xml') or n.endswith('.rels') or n.endswith('.vml'):
            walk(book, n, put, idt)
    numbers(book, put, idt)
    if 'shape' in view:
        over = {f[1]: f[2] for f in out if f[0] == 'override'}
        dflt = {f[1]: f[2] for f in out if f[0] == 'default'}
        n = Counter(over.get(f[1], dflt.get(f[2])) for f in out if f[0] == 'part')
        for t in SHAPE:
            put('shape', t, n[t])
    return sorted(out)


def walk(book, n, put, idt):
    root = book.xml(n)
    put('root', '' if n.endswith('.rels') else n, q(root.tag))
    vml = n.endswith('.vml')
    stack = [(root, '')]
    while stack:
        e, parent = stack.pop()
        k = q(e.tag)
        for a, v in e.attrib.items():
            if a.startswith(MAIN_REL) or a == '{urn:schemas-microsoft-com:office:office}relid':
                put('use', n, v, k)
        kids = [q(c.tag) for c in e]
        key = k + '<' + parent if k in TWICE else k
        if k in ('x:ext', 'a:ext', 'c:ext') and e.get('uri'):
            key = k + e.get('uri')
        if not vml:
            run = []
            for c in kids:
                if run and run[-1].rstrip('+') == c:
                    run[-1] = c + '+'
                else:
                    run.append(c)
            put('kids', key, *[x for r in run for x in (r.rstrip('+'), 'n' if r[-1] == '+' else '1')])
            put('attrs', key, *sorted(q(a) for a in e.attrib))
        for a in ('count', 'uniqueCount', 'ptCount', 'size'):
            if a in e.attrib and not vml:
                if k == 'x:sst' and a == 'count':
                    continue
                want = len(e) if q(e.tag) not in ('x:sst',) else len(e.findall(M + 'si'))
                put('count', k + '/' + a, e.get(a), want)
        if k in ('c:strCache', 'c:numCache'):
            pc = e.find('{%s}ptCount' % root.tag[1:].split('}')[0])
            pts = [c for c in e if q(c.tag) == 'c:pt']
            for c in pts:
                if pc is None or int(c.get('idx')) >= int(pc.get('val')):
                    put('count', 'c:pt', c.get('idx'), 'beyond')
        if not vml and not len(e) == 0 and (e.text or '').strip():
            put('mixed', key)
        stack.extend((c, k) for c in e)


def numbers(book, put, idt):
    """Definitions of numbers and names, and references to them."""
    wbp = book.wb_part
    wb = book.wb
    rels = book.rels(wbp)
    one = lambda t: next((x[1] for x in rels.values() if x[0] == t and book.has(x[1])), None)

    def define(kind, scope, n):
        put('def', kind, scope, n)

    def refer(kind, scope, v, where):
        put('ref', kind, scope, v, where)
    sheets = wb.find(M + 'sheets').findall(M + 'sheet')
    for k, s in enumerate(sheets):
        define('sheet', '', k)
        idt('sheetId', '', s.get('sheetId'))
        idt('sheetname', '', enc(s.get('name').lower()))
    for w in wb.iter(M + 'workbookView'):
        refer('sheet', '', w.get('activeTab', '0'), 'activeTab')
        # The first tab is counted from one by some, so it may also be the number of tabs.
        refer('sheet', '', int(w.get('firstSheet', '1')) - 1, 'firstSheet')
    for d in wb.iter(M + 'definedName'):
        if d.get('localSheetId') is not None:
            refer('sheet', '', d.get('localSheetId'), 'definedName')
        # A user may define a name twice, the library must not.
        if d.get('name').startswith('_xlnm.'):
            idt('definedname', d.get('localSheetId', ''), enc(d.get('name').lower()))
    # Styles.
    st = book.xml(one('styles'))
    for kind, path, child in (('font', 'fonts', 'font'), ('fill', 'fills', 'fill'), ('border', 'borders', 'border'), ('cellStyleXf', 'cellStyleXfs', 'xf'),
                              ('xf', 'cellXfs', 'xf'), ('dxf', 'dxfs', 'dxf')):
        e = st.find(M + path)
        for k in range(len(e.findall(M + child)) if e is not None else 0):
            define(kind, '', k)
    for f in st.iter(M + 'numFmts'):
        for x in f:
            define('numfmt', '', x.get('numFmtId'))
            idt('numFmtId', '', x.get('numFmtId'))
    for path in ('cellStyleXfs', 'cellXfs'):
        for x in st.find(M + path):
            for a, kind in (('numFmtId', 'numfmt'), ('fontId', 'font'), ('fillId', 'fill'), ('borderId', 'border'), ('xfId', 'cellStyleXf')):
                if x.get(a) is not None:
                    refer(kind, '', x.get(a), path)
            for c in x.iter('{http://schemas.microsoft.com/office/spreadsheetml/2022/featurepropertybag}xfComplement'):
                refer('complement', '', c.get('i'), path)
    for x in st.iter(M + 'cellStyle'):
        refer('cellStyleXf', '', x.get('xfId'), 'cellStyle')
        idt('cellStyle', '', x.get('name'))
        idt('builtinId', '', x.get('builtinId'))
    # Texts.
    if one('sharedStrings'):
        for k in range(len(book.xml(one('sharedStrings')).findall(M + 'si'))):
            define('sst', '', k)
    # Metadata of cells.
    if one('sheetMetadata'):
        md = book.xml(one('sheetMetadata'))
        types = [t.get('name') for t in md.iter(M + 'metadataType')]
        for k, t in enumerate(types):
            define('metadataType', '', k + 1)
            idt('metadataType', '', t)
        for f in md.findall(M + 'futureMetadata'):
            idt('futureMetadata', '', f.get('name'))
            refer('metadataTypeName', '', f.get('name'), 'futureMetadata')
            for k, b in enumerate(f.findall(M + 'bk')):
                define('future:' + f.get('name'), '', k)
                for rv in b.iter('{http://schemas.microsoft.com/office/spreadsheetml/2017/richdata}rvb'):
                    refer('rv', '', rv.get('i'), 'rvb')
        for t in types:
            define('metadataTypeName', '', t)
        for name, kind in (('cellMetadata', 'cm'), ('valueMetadata', 'vm')):
            e = md.find(M + name)
            for k, b in enumerate(e.findall(M + 'bk') if e is not None else []):
                define(kind, '', k + 1)
                for rc in b.findall(M + 'rc'):
                    refer('metadataType', '', rc.get('t'), name)
                    t = int(rc.get('t')) - 1
                    refer('future:' + (types[t] if t < len(types) else '?'), '', rc.get('v'), name)
    # Rich values.
    RD = '{http://schemas.microsoft.com/office/spreadsheetml/2017/richdata}'
    if one('rdRichValue'):
        for k, r in enumerate(book.xml(one('rdRichValue'))):
            define('rv', '', k)
            refer('rvstructure', '', r.get('s'), 'rv')
            vs = [v.text for v in r]
            s = book.xml(one('rdRichValueStructure'))
            keys = [x.get('n') for x in s[int(r.get('s'))]] if int(r.get('s')) < len(s) else []
            put('count', 'rv/values', len(vs), len(keys))
            for kk, v in zip(keys, vs):
                if kk == '_rvRel:LocalImageIdentifier':
                    refer('rvrel', '', v, 'rv')
        for k, _ in enumerate(book.xml(one('rdRichValueStructure'))):
            define('rvstructure', '', k)
        for k, _ in enumerate(book.xml(one('richValueRel'))):
            define('rvrel', '', k)
    if one('FeaturePropertyBag'):
        FP = '{http://schemas.microsoft.com/office/spreadsheetml/2022/featurepropertybag}'
        root = book.xml(one('FeaturePropertyBag'))
        bags = root.findall(FP + 'bag')
        for k, b in enumerate(bags):
            define('bag', '', k)
            for x in b.iter(FP + 'bagId'):
                refer('bag', '', x.text, b.get('type'))
            for x in b.iter(FP + 'a'):
                if b.get('type') == 'XFComplements' and x.get('k') == 'MappedFeaturePropertyBags':
                    for j in range(len(x)):
                        define('complement', '', j)
    # Sheets.
    for k, s in enumerate(sheets):
        t, part, _ = rels[s.get(R + 'id')]
        root = book.xml(part)
        idt('sheetpart', '', part)
        pr = root.find(M + 'sheetPr')
        if pr is not None and pr.get('codeName') is not None:
            idt('codename', '', enc(pr.get('codeName').lower()))
        last = -1
        for r in root.iter(M + 'row'):
            n = int(r.get('r'))
            if n <= last:
                put('disorder', 'row', part)
            last = n
            lc = -1
            if r.get('s') is not None:
                refer('xf', '', r.get('s'), 'row')
            for c in r:
                rr, cc = ref(c.get('r'))
                if rr != n - 1 or cc <= lc:
                    put('disorder', 'cell', part)
                lc = cc
                for a, kind in (('s', 'xf'), ('cm', 'cm'), ('vm', 'vm')):
                    if c.get(a) is not None:
                        refer(kind, '', c.get(a), 'cell')
                if c.get('t') == 's':
                    refer('sst', '', c.find(M + 'v').text, 'cell')
        lastc = 0
        for c in root.iter(M + 'col'):
            if not lastc < int(c.get('min')) <= int(c.get('max')):
                put('disorder', 'col', part)
            lastc = int(c.get('max'))
            if c.get('style') is not None:
                refer('xf', '', c.get('style'), 'col')
        for e in root.iter(M + 'cfRule'):
            if e.get('dxfId') is not None:
                refer('dxf', '', e.get('dxfId'), 'cfRule')
            idt('priority', part, e.get('priority'))
            for i in e.iter('{http://schemas.microsoft.com/office/spreadsheetml/2009/9/main}id'):
                refer('x14rule', part, i.text, 'cfRule')
                define('x14use', part, i.text)
        for e in root.iter('{http://schemas.microsoft.com/office/spreadsheetml/2009/9/main}cfRule'):
            define('x14rule', part, e.get('id'))
            idt('x14rule', part, e.get('id'))
            if e.get('type') == 'dataBar':
                refer('x14use', part, e.get('id'), 'x14:cfRule')
        for e in root.iter(M + 'colorFilter'):
            refer('dxf', '', e.get('dxfId'), 'colorFilter')
        srels = book.rels(part)
        legacy = root.find(M + 'legacyDrawing')
        for rid, (t, target, ext) in srels.items():
            if t == 'comments' and book.has(target):
                put('needs', part, 'comments', 'legacyDrawing' if legacy is not None else '')
                com = book.xml(target)
                for j, _ in enumerate(com.find(M + 'authors')):
                    define('author', target, j)
                for c in com.iter(M + 'comment'):
                    refer('author', target, c.get('authorId'), 'comment')
                    idt('comment', target, c.get('ref'))
            if t == 'vmlDrawing' and book.has(target):
                vml_ids(book, target, put, idt, legacy is not None and legacy.get(R + 'id') == rid)
            if t == 'table' and book.has(target):
                tb = book.xml(target)
                idt('tableid', '', tb.get('id'))
                idt('tablename', '', enc(tb.get('displayName').lower()))
                idt('tablepart', '', target)
                for c in tb.iter(M + 'tableColumn'):
                    idt('columnid', target, c.get('id'))
                    idt('columnname', target, enc(unescape(c.get('name')).lower()))
                    for a in ('dataDxfId', 'headerRowDxfId', 'totalsRowDxfId'):
                        if c.get(a) is not None:
                            refer('dxf', '', c.get(a), 'tableColumn')
                for a in ('dataDxfId', 'headerRowDxfId', 'totalsRowDxfId', 'headerRowBorderDxfId'):
                    if tb.get(a) is not None:
                        refer('dxf', '', tb.get(a), 'table')
            if t == 'drawing' and book.has(target):
                idt('drawingpart', '', target)
                for e in book.xml(target).iter('{http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing}cNvPr'):
                    idt('shapeid', target, e.get('id'))
                for rid2, (t2, tg2, _) in book.rels(target).items():
                    if t2 == 'chart' and book.has(tg2):
                        idt('chartpart', '', tg2)
                        chart_ids(book, tg2, define, refer, idt)
    for e in book.names:
        if e.startswith('docProps/') and e.endswith('custom.xml'):
            for p in book.xml(e):
                idt('pid', '', p.get('pid'))
                idt('propname', '', enc(p.get('name').lower()))
                if int(p.get('pid')) < 2:
                    put('disorder', 'pid', e)
        if e.endswith('app.xml'):
            root = book.xml(e)
            VT = '{http://schemas.openxmlformats.org/officeDocument/2006/docPropsVTypes}'
            EP = '{http://schemas.openxmlformats.org/officeDocument/2006/extended-properties}'
            tot = sum(int(x.text) for x in root.find(EP + 'HeadingPairs').iter(VT + 'i4'))
            put('count', 'ep:HeadingPairs', tot, len(list(root.find(EP + 'TitlesOfParts').iter(VT + 'lpstr'))))


def vml_ids(book, part, put, idt, main):
    from vobj import V, O, X
    root = book.xml(part)
    blocks = ''
    for m in root.iter(O + 'idmap'):
        blocks = m.get('data')
        for b in blocks.split(','):
            put('def', 'vmlblock', part, b)
            if main:
                idt('vmlblock', '', b)
    for s in root.iter(V + 'shapetype'):
        put('def', 'shapetype', part, '#' + s.get('id'))
        idt('vmlid', part, s.get('id'))
    for s in root.iter(V + 'shape'):
        idt('vmlid', part, s.get('id'))
        put('ref', 'shapetype', part, s.get('type'), 'v:shape')
        sp = s.get(O + 'spid') or s.get('id')
        m = re.match(r'_x0000_s(\d+)$', sp)
        if not m:
            put('disorder', 'spid', part)
            continue
        if s.get(O + 'spid'):
            idt('spid', part, sp)
        put('ref', 'vmlblock', part, str(int(m.group(1)) // 1024), 'v:shape')


def chart_ids(book, part, define, refer, idt):
    from vobj import C
    root = book.xml(part)
    pa = root.find('%schart/%splotArea' % (C, C))
    for e in pa:
        k = local(e.tag)
        if k.endswith('Ax'):
            define('axis', part, e.find(C + 'axId').get('val'))
            idt('axis', part, e.find(C + 'axId').get('val'))
            refer('axis', part, e.find(C + 'crossAx').get('val'), k)
        elif k.endswith('Chart'):
            for a in e.findall(C + 'axId'):
                refer('axis', part, a.get('val'), k)
                define('axisused', part, a.get('val'))
            for s in e.findall(C + 'ser'):
                idt('seridx', part, s.find(C + 'idx').get('val'))
                idt('serorder', part, s.find(C + 'order').get('val'))
                for d in s.findall(C + 'dPt'):
                    idt('dpt', part + '/' + s.find(C + 'idx').get('val'), d.find(C + 'idx').get('val'))
                for dl in s.findall(C + 'dLbls'):
                    for d in dl.findall(C + 'dLbl'):
                        idt('dlbl', part + '/' + s.find(C + 'idx').get('val'), d.find(C + 'idx').get('val'))
    for e in pa:
        if local(e.tag).endswith('Ax'):
            refer('axisused', part, e.find(C + 'axId').get('val'), local(e.tag))
    for e in root.iter(C + 'legend'):
        for d in e.findall(C + 'legendEntry'):
            idt('legendentry', part, d.find(C + 'idx').get('val'))


VIEWS['package'] = package_facts
