"""Facts about the objects on worksheets: pictures, charts, text boxes, buttons, notes."""
import re
from collections import Counter
from xlsx import *
from views import enc, VIEWS, grid_facts

XDR = '{http://schemas.openxmlformats.org/drawingml/2006/spreadsheetDrawing}'
A = '{http://schemas.openxmlformats.org/drawingml/2006/main}'
C = '{http://schemas.openxmlformats.org/drawingml/2006/chart}'
ADEC = '{http://schemas.microsoft.com/office/drawing/2017/decorative}'
V = '{urn:schemas-microsoft-com:vml}'
O = '{urn:schemas-microsoft-com:office:office}'
X = '{urn:schemas-microsoft-com:office:excel}'
RID = R + 'id'
TYPES = {'barChart': 'column', 'lineChart': 'line', 'pieChart': 'pie', 'areaChart': 'area', 'scatterChart': 'scatter', 'radarChart': 'radar',
         'doughnutChart': 'doughnut'}


def media(book, rels, rid, bad, uses=None):
    """What picture a relationship leads to."""
    if rid not in rels:
        bad('no relationship ' + str(rid))
        return '?'
    t, part, ext = rels[rid]
    if t != 'image' or ext or not book.has(part):
        bad('relationship %s is not a stored image' % rid)
        return '?'
    if uses is not None:
        uses.add(part)
    m = re.search(rb'IMG(\d+);', book.read(part))
    return '%s:%s' % (part.rsplit('.', 1)[-1], m.group(1).decode() if m else '?')


def anchor(e):
    p = lambda n, k: e.find(XDR + n).find(XDR + k).text
    return tuple(num0(p(n, k)) for n in ('from', 'to') for k in ('col', 'colOff', 'row', 'rowOff'))


def num0(t):
    """Text of a number which should be a whole one."""
    f = float(t)
    return str(int(f)) if f == int(f) else t


def px(emu):
    return num0(str(float(emu) / 9525))


def chart_info(book, part):
    root = book.xml(part)
    pa = root.find('%schart/%splotArea' % (C, C))
    kind, n = '', 0
    for e in pa:
        t = local(e.tag)
        if t.endswith('Chart'):
            kind = TYPES.get(t, t)
            if t == 'barChart' and e.find(C + 'barDir').get('val') == 'bar':
                kind = 'bar'
            n += len(e.findall(C + 'ser'))
    title = root.find('%schart/%stitle' % (C, C))
    text = ''.join(t.text or '' for t in title.iter(A + 't')) if title is not None else ''
    return enc(text), kind, str(n)


def hlink(e, rels, bad):
    h = e.find(A + 'hlinkClick')
    if h is None:
        return ('', '')
    t, target, ext = rels.get(h.get(RID), ('', '?', False))
    if t != 'hyperlink' or ext == target.startswith('#'):
        bad('object link')
    return (enc(target), enc(xattr(h.get('tooltip', ''))))


def style(sp):
    out = {}
    pr = sp.find(XDR + 'spPr')
    if pr.find(A + 'noFill') is not None:
        out['fill'] = 'none'
    f = pr.find(A + 'solidFill')
    if f is not None and f.find(A + 'srgbClr') is not None:
        out['fill'] = f.find(A + 'srgbClr').get('val')
    ln = pr.find(A + 'ln')
    if ln.find(A + 'noFill') is not None:
        out['noline'] = '1'
    elif ln.get('w') != '9525':
        out['linewidth'] = repr(int(ln.get('w')) / 12700)
    f = ln.find(A + 'solidFill')
    if f is not None and f.find(A + 'srgbClr') is not None:
        out['linecolor'] = f.find(A + 'srgbClr').get('val')
    d = ln.find(A + 'prstDash')
    if d is not None:
        out['dash'] = d.get('val')
    tb = sp.find(XDR + 'txBody')
    b = tb.find(A + 'bodyPr')
    if b.get('vert'):
        out['dir'] = b.get('vert')
    va = b.get('anchor', 't') + b.get('anchorCtr', '')
    if va not in ('t', 't0'):
        out['va'] = va
    seen = []
    for p in tb.findall(A + 'p'):
        one = dict(out)
        pp = p.find(A + 'pPr')
        if pp is not None:
            one['ha'] = pp.get('algn')
        for r in [e for e in p.iter() if e.tag in (A + 'rPr', A + 'endParaRPr')]:
            x = dict(one)
            for k, n in (('b', 'b'), ('i', 'i')):
                if r.get(n) == '1':
                    x[k] = '1'
            if r.get('u', 'none') != 'none':
                x['u'] = '1'
            if r.get('strike', 'noStrike') != 'noStrike':
                x['st'] = '1'
            if r.get('sz'):
                x['fs'] = repr(float(r.get('sz')) / 100)
                if x['fs'] == '11.0':
                    x.pop('fs')
            f = r.find(A + 'solidFill')
            if f is not None:
                x['fc'] = f.find(A + 'srgbClr').get('val')
            f = r.find(A + 'latin')
            if f is not None:
                x['fn'] = f.get('typeface')
            seen.append(tuple(sorted(x.items())))
    return seen


def drawing(book, i, part, out, cnt, view, uses):
    pics = book.drawn_pics
    bad = lambda what: out.append(('BAD', i, 'drawing: ' + what))
    root, rels = book.xml(part), book.rels(part)
    ids = set()
    for n, an in enumerate(root, 1):
        for e in an.iter(XDR + 'cNvPr'):
            if e.get('id') in ids:
                bad('object id is not unique')
            ids.add(e.get('id'))
        edit = an.get('editAs', 'twoCell')
        edit = '' if edit == 'twoCell' else edit
        chartsheet = an.tag == XDR + 'absoluteAnchor'
        if chartsheet:
            pos = ('', '', '', '', '', '', '', '')
            x = an.find(XDR + 'ext')
            if int(x.get('cx')) <= 0 or int(x.get('cy')) <= 0:
                bad('empty chartsheet')
        else:
            pos = anchor(an)
        kid = [e for e in an if e.tag in (XDR + 'pic', XDR + 'graphicFrame', XDR + 'sp')]
        if len(kid) != 1 or an[-1].tag != XDR + 'clientData':
            bad('anchor content')
            continue
        kid = kid[0]
        cnv = next(kid.iter(XDR + 'cNvPr'))
        deco = '1' if any(e.get('val') == '1' for e in cnv.iter(ADEC + 'decorative')) else '0'
        alt = enc(xattr(cnv.get('descr', '')))
        fr = pos[:4]
        rest = ()
        if kid.tag != XDR + 'graphicFrame':
            xf = kid.find('%sspPr/%sxfrm' % (XDR, A))
            rest = (px(xf.find(A + 'off').get('x')), px(xf.find(A + 'off').get('y')), xf.find(A + 'ext').get('cx'), xf.find(A + 'ext').get('cy'))
            rest = rest[:2] + (num0(rest[2]), num0(rest[3]))
        if kid.tag == XDR + 'pic':
            mid = media(book, rels, kid.find('%sblipFill/%sblip' % (XDR, A)).get(R + 'embed'), bad, pics)
            cnt[('obj', ('image', i) + fr + (mid, alt, deco, edit) + hlink(cnv, rels, bad))] += 1
            ident, cls = mid, 'image'
        elif kid.tag == XDR + 'graphicFrame':
            rid = kid.find('%sgraphic/%sgraphicData/%schart' % (A, A, C)).get(RID)
            if rid not in rels or rels[rid][0] != 'chart' or not book.has(rels[rid][1]):
                bad('chart relationship')
                continue
            if rels[rid][1] in book.charts_seen:
                bad('chart shown twice')
            book.charts_seen.add(rels[rid][1])
            info = chart_info(book, rels[rid][1])
            nm = cnv.get('name')
            cnt[('obj', ('chart', i) + fr + info + (alt, deco, '' if nm == 'Chart %d' % n else enc(xattr(nm)), edit))] += 1
            ident, cls = info[0], 'chart'
            if chartsheet:
                continue
        else:
            paras = []
            tb = kid.find(XDR + 'txBody')
            for p in tb.findall(A + 'p'):
                paras.append(''.join(t.text or '' for t in p.iter(A + 't')))
            link = kid.get('textlink', '')
            txt = '\n'.join('' if link and t == ' ' else t for t in paras)     # a linked paragraph is never empty
            st = style(kid)
            for s in st:
                if s != st[0]:
                    bad('paragraphs differ in style')
            cnt[('obj', ('shape', i) + fr + (enc(txt), enc(xattr(link)), alt, edit) + hlink(cnv, rels, bad)
                 + tuple('%s=%s' % kv for kv in st[0]))] += 1
            ident, cls = enc(txt), 'shape'
        cnt[('geo', ('geo', i, cls, ident) + pos + (edit,) + rest)] += 1


def css(t):
    return dict(kv.split(':', 1) for kv in t.split(';') if ':' in kv)


def pt(v):
    if not v.endswith('pt'):
        return v
    return num0(repr(float(v[:-2]) / 0.75))


def vml_anchor(cd):
    a = [x.strip() for x in cd.find(X + 'Anchor').text.split(',')]
    return tuple(num0(x) for x in a)


def vml(book, i, part, notes, out, cnt, uses, header=False):
    """Buttons, note boxes and header pictures."""
    bad = lambda what: out.append(('BAD', i, 'vml: ' + what))
    root, rels = book.xml(part), book.rels(part)
    types = {e.get('id') for e in root.findall(V + 'shapetype')}
    boxes = {}
    lay = root.find(O + 'shapelayout')
    ids, blks = (book.hf_ids, book.hf_blocks) if header else (book.vml_ids, book.vml_blocks)
    blocks = [int(b) for b in lay.find(O + 'idmap').get('data').split(',')]
    for b in blocks:
        if b in blks:
            bad('id block used by two drawings')
        blks.add(b)
    for sp in root.findall(V + 'shape'):
        sid = sp.get(O + 'spid') or sp.get('id')
        if sid in ids:
            bad('shape id is not unique')
        ids.add(sid)
        m = re.match(r'_x0000_s(\d+)$', sid)
        if not m or int(m.group(1)) // 1024 not in blocks:
            bad('shape id %s outside of its block %s' % (sid, blocks))
        if sp.get('type', '')[1:] not in types:
            bad('shape type')
        st = css(sp.get('style'))
        cd = sp.find(X + 'ClientData')
        if cd is None:
            im = sp.find(V + 'imagedata')
            mid = media(book, rels, im.get(O + 'relid'), bad, uses)
            scaled = '1' if sp.find(O + 'lock').get('aspectratio') == 'f' else '0'
            cnt[('hf', ('hf', i, sp.get('id'), mid, pt(st['width']), pt(st['height']), scaled))] += 1
            continue
        box = (vml_anchor(cd)[0:4], vml_anchor(cd)[4:8])
        geo = box[0] + box[1] + (pt(st['margin-left']), pt(st['margin-top']), pt(st['width']), pt(st['height']))
        if cd.get('ObjectType') == 'Button':
            cap = ''.join(sp.find(V + 'textbox').itertext())
            alt = enc(xattr(sp.get('alt', '')))
            cnt[('obj', ('button', i) + box[0] + (enc(cap), enc(cd.find(X + 'FmlaMacro').text), alt))] += 1
            cnt[('geo', ('geo', i, 'button', alt) + geo)] += 1
        else:
            r, c = cd.find(X + 'Row').text, cd.find(X + 'Column').text
            vis = st.get('visibility') == 'visible'
            if vis != (cd.find(X + 'Visible') is not None):
                bad('visibility of a note')
            if (r, c) in boxes:
                bad('two boxes for a note')
            boxes[(r, c)] = ('1' if vis else '0', sp.get('fillcolor'), enc(xattr(sp.get('alt', ''))))
            cnt[('geo', ('geo', i, 'note', r + ',' + c) + geo)] += 1
    if set(boxes) != set(notes):
        bad('boxes %s for notes %s' % (sorted(boxes), sorted(notes)))
    return boxes


def comments(book, part, bad):
    root = book.xml(part)
    authors = [unescape(a.text or '') for a in root.find(M + 'authors')]
    if len(set(authors)) != len(authors):
        bad('duplicate authors')
    out = {}
    last = None
    for c in root.find(M + 'commentList'):
        at = ref(c.get('ref'))
        if last is not None and at <= last:
            bad('note order')
        last = at
        runs = c.find(M + 'text').findall(M + 'r')
        pre = ''
        fonts = []
        texts = []
        for n, r in enumerate(runs):
            pr = r.find(M + 'rPr')
            t = xtext(r.find(M + 't'))
            if n == 0 and len(runs) == 2:
                pre = t
                if pr.find(M + 'b') is None:
                    bad('author prefix is not bold')
            else:
                texts.append(t)
                if pr.find(M + 'b') is not None:
                    bad('bold note')
            fonts.append((pr.find(M + 'rFont').get('val'), repr(float(pr.find(M + 'sz').get('val'))), pr.find(M + 'family').get('val')))
        if len(set(fonts)) != 1 or len(runs) > 2:
            bad('note runs')
        k = int(c.get('authorId'))
        if k >= len(authors):
            bad('author id')
            k = 0
        t = ''.join(texts)
        if len(runs) == 2:
            if not t.startswith('\n'):
                bad('note text is not below its author')
            t = t[1:]
        out[(str(at[0]), str(at[1]))] = (authors[k], pre, t, fonts[0])
    return out


def embedded(book, i, sh, out, cnt):
    bad = lambda what: out.append(('BAD', i, 'embedded image: ' + what))
    cells = [(r, c, ex['vm']) for r, c, _, kind, _, ex in sh.cells() if 'vm' in ex]
    if not cells:
        return
    rels = book.rels(book.wb_part)
    parts = {t: p for t, p, _ in rels.values()}
    meta = book.xml(parts['sheetMetadata'])
    kinds = [t.get('name') for t in meta.find(M + 'metadataTypes')]
    fut = {f.get('name'): f for f in meta.findall(M + 'futureMetadata')}
    vals = meta.find(M + 'valueMetadata')
    rvb = [e.get('i') for e in fut['XLRICHVALUE'].iter() if local(e.tag) == 'rvb']
    rvs = list(book.xml(parts['rdRichValue']))
    ns = rvs[0].tag[:rvs[0].tag.index('}') + 1]
    structs = list(book.xml(parts['rdRichValueStructure']))
    rel = list(book.xml(parts['richValueRel']))
    rrels = book.rels(parts['richValueRel'])
    for n in (('valueMetadata', vals), ('rdRichValue', book.xml(parts['rdRichValue'])), ('rdRichValueStructure', book.xml(parts['rdRichValueStructure'])),
              ('futureMetadata', fut['XLRICHVALUE'])):
        if int(n[1].get('count')) != len(n[1]):
            bad(n[0] + ' count')
    uses = set()
    for r, c, vm in cells:
        rc = vals[int(vm) - 1][0]
        if kinds[int(rc.get('t')) - 1] != 'XLRICHVALUE':
            bad('metadata type')
        rv = rvs[int(rvb[int(rc.get('v'))])]
        keys = [k.get('n') for k in structs[int(rv.get('s'))]]
        v = [unescape(e.text or '') for e in rv.findall(ns + 'v')]
        d = dict(zip(keys, v))
        if len(v) > len(keys) or d['CalcOrigin'] not in '56':
            bad('values')
        rid = rel[int(d['_rvRel:LocalImageIdentifier'])].get(RID)
        cnt[('embed', ('embed', i, str(r), str(c), media(book, rrels, rid, bad, uses), enc(d.get('Text', '')), '1' if d['CalcOrigin'] == '6' else '0'))] += 1
    book.embed_uses = getattr(book, 'embed_uses', set()) | uses


def obj_facts(book, view):
    out = grid_facts(book, view - {'obj', 'geo'})
    book.vml_ids, book.vml_blocks, book.hf_ids, book.hf_blocks, book.charts_seen, book.drawn_pics = (set() for _ in range(6))
    drawn = set()
    for si, s in enumerate(book.sheets(), 1):
        i = str(si)
        bad = lambda what: out.append(('BAD', i, what))
        cnt = Counter()
        sh = Sheet(book, s['part'])
        rels = book.rels(s['part'])
        used = set()

        def part(tag, kind):
            e = sh.find(tag)
            if e is None:
                return None
            rid = e.get(RID)
            used.add(rid)
            if rid not in rels or rels[rid][0] != kind or not book.has(rels[rid][1]):
                bad('%s relationship' % tag)
                return None
            return rels[rid][1]
        p = part('drawing', 'drawing')
        if p:
            drawing(book, i, p, out, cnt, view, drawn)
        com = [t for k, t, _ in rels.values() if k == 'comments']
        notes = comments(book, com[0], bad) if com else {}
        p = part('legacyDrawing', 'vmlDrawing')
        boxes = vml(book, i, p, notes, out, cnt, drawn) if p else {}
        for at, (author, pre, text, font) in notes.items():
            vis, bg, alt = boxes.get(at, ('?', '?', '?'))
            out.append(('note', i) + at + (enc(author), enc(pre), enc(text), vis, bg.lstrip('#').upper(), font[0], font[1], font[2], alt)
                       if 'obj' in view else ('skip',))
        hf = Counter()
        p = part('legacyDrawingHF', 'vmlDrawing')
        if p:
            vml(book, i, p, {}, out, cnt, drawn, True)
        p = part('picture', 'image')
        if p:
            mid = media(book, rels, sh.find('picture').get(RID), bad, drawn)
            if 'obj' in view:
                out.append(('background', i, mid))
        for rid in rels:
            if rels[rid][0] in ('drawing', 'vmlDrawing', 'image') and rid not in used:
                bad('unused relationship ' + rels[rid][0])
        if s['kind'] == 'worksheet':
            embedded(book, i, sh, out, cnt)
        for (k, f), n in cnt.items():
            if k in ('hf', 'embed'):
                if n > 1:
                    bad('repeated ' + k)
                if 'obj' in view:
                    out.append(f)
            elif k in view:
                out.append(f + (str(n),))
    pics = [n for n in book.names if n.startswith('xl/media/')]
    # A picture drawn many times is stored once.
    if len({book.read(n) for n in book.drawn_pics}) != len(book.drawn_pics):
        out.append(('BAD', 'media', 'stored twice'))
    drawn |= book.drawn_pics
    rich = {t for n in book.names if n.endswith('/richValueRel.xml') for _, t, _ in book.rels(n).values()}
    for n in pics:
        if n not in drawn and n not in rich:
            out.append(('BAD', 'media', 'unused ' + n))
    return [f for f in out if f != ('skip',)]


VIEWS['objects'] = obj_facts
