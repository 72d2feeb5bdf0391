"""The meaning of a saved workbook, free of how it is stored.

Style, string, differential format and author indices are resolved, parts are
inlined where they are referred to, and the result is hashed per worksheet and
part.  Two files with the same facts show the same workbook."""
import hashlib, posixpath
from xlsx import *
from views import VIEWS

C14 = '{http://schemas.microsoft.com/office/spreadsheetml/2009/9/main}'
SKIP = {'styles', 'sharedStrings'}
RNS = (R + 'id', R + 'embed', R + 'link', R + 'pict', '{urn:schemas-microsoft-com:office:office}relid')
DXFS = ('dxfId', 'dataDxfId', 'headerRowDxfId', 'totalsRowDxfId')


def h(s):
    return hashlib.sha1(s.encode('utf-8', 'surrogatepass') if isinstance(s, str) else s).hexdigest()[:12]


class Canon:
    def __init__(self, book):
        self.b = book
        self.st = book.styles()
        self.items = book.sst()[1]
        self.sheetno = {s['part']: k for k, s in enumerate(book.sheets(), 1)}
        self.seen = {}
        self.axes = {}

    def part(self, name):
        """Canonical text of a part, with what it refers to in place."""
        if name in self.sheetno:
            return '(sheet %d)' % self.sheetno[name]
        if name in self.seen:
            return self.seen[name]
        self.seen[name] = '(in progress)'
        b = self.b
        if not name.endswith(('.xml', '.vml')):
            out = h(b.read(name))
        else:
            try:
                root = b.xml(name)
            except ET.ParseError:
                out = 'NOT WELL FORMED'
            else:
                out = self.tree(root, name)
            out += self.implicit(name, root)
        self.seen[name] = out
        return out

    def implicit(self, name, root):
        """Related parts which no element names."""
        used = {v for e in root.iter() for k, v in e.attrib.items() if k in RNS}
        return ''.join(sorted('[%s %s]' % (t, self.target(name, (t, p, ext))) for rid, (t, p, ext) in self.b.rels(name).items() if rid not in used))

    def target(self, name, rel):
        t, p, ext = rel
        if ext or p.startswith('#'):
            return '%s->%s' % (t, p)
        if t in SKIP:
            return t
        if not self.b.has(p):
            return 'MISSING ' + p
        return '%s{%s}' % (t, h(self.part(p)))

    def tree(self, e, name):
        t = local(e.tag)
        rels = self.b.rels(name)
        at = []
        for k, v in e.attrib.items():
            if k in RNS:
                v = self.target(name, rels[v]) if v in rels else 'NO REL ' + v
            elif (t in ('c', 'row') and k == 's') or (t == 'col' and k == 'style'):
                v = sorted(self.st.xf(v))
            elif k in DXFS:
                v = sorted(self.st.dxf(int(v))) if int(v) < len(self.st.dxfs) else 'NO DXF'
            elif k == 'authorId':
                a = self.b.xml(name).find(M + 'authors')
                v = a[int(v)].text if int(v) < len(a) else 'NO AUTHOR'
            elif t in ('axId', 'crossAx') and k == 'val':
                ids = self.axes.setdefault(name, {})
                v = ids.setdefault(v, len(ids))
            elif k in ('spans', 'count', 'uniqueCount') and e.tag.startswith(M):
                continue
            at.append('%s=%r' % (local(k), v))
        text = (e.text or '') if len(e) == 0 else (e.text or '').strip()
        if t == 'c' and e.get('t') == 's':
            n = int(e.find(M + 'v').text)
            kids = repr(self.items[n] if n < len(self.items) else 'NO STRING')
            if kids.startswith("('r'"):
                kids = repr([(sorted(f or ()), x) for f, x in self.items[n][1]])
            kids += ''.join(self.tree(k, name) for k in e if k.tag != M + 'v')
        elif t == 'authors':
            kids = ''
        else:
            kids = ''.join(self.tree(k, name) + (k.tail or '').strip() for k in e)
        return '<%s %s>%s%s</>' % (t, ' '.join(sorted(at)), text, kids)


def meaning(book):
    """label -> canonical text"""
    c = Canon(book)
    out = {}
    for k, s in enumerate(book.sheets(), 1):
        root = book.xml(s['part'])
        for e in root:
            lab = 's%d/%s' % (k, local(e.tag))
            if lab in out:
                out[lab] += c.tree(e, s['part'])
            else:
                out[lab] = c.tree(e, s['part'])
        out['s%d/parts' % k] = c.implicit(s['part'], root)
        c.seen[s['part']] = 'sheet%d' % k
    wb = book.wb_part
    out['workbook'] = c.tree(book.wb, wb) + c.implicit(wb, book.wb)
    for rid, rel in book.rels('').items():
        if rel[0] != 'officeDocument':
            out['root/' + rel[0]] = c.target('', rel)
            if rel[1].startswith('docProps') and not rel[2]:
                out['root/' + rel[0]] = c.part(rel[1])
    return out


def resave(book, view):
    out = [('m', k, h(v)) for k, v in meaning(book).items()]
    for n in book.names:
        out.append(('b', n, h(book.read(n))))
    for s in book.styles().bad:
        out.append(('BAD', s))
    return out


VIEWS['resave'] = resave
