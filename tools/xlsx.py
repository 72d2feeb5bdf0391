"""Independent reader for the .xlsx files produced by the code under test.

Uses only zipfile + ElementTree: it shares no code with rust_xlsxwriter.  It
returns plain Python structures; tools/views.py turns them into the facts that
TLC compares with the specification's Render() operator.
"""
import io, re, zipfile, posixpath
import xml.etree.ElementTree as ET

M = '{http://schemas.openxmlformats.org/spreadsheetml/2006/main}'
R = '{http://schemas.openxmlformats.org/officeDocument/2006/relationships}'
PR = '{http://schemas.openxmlformats.org/package/2006/relationships}'
CT = '{http://schemas.openxmlformats.org/package/2006/content-types}'
XML_SPACE = '{http://www.w3.org/XML/1998/namespace}space'


class Bad(Exception):
    pass


def col_num(letters):
    n = 0
    for ch in letters:
        n = n * 26 + ord(ch) - 64
    return n - 1


def col_name(n):
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


_REF = re.compile(r'^\$?([A-Z]{1,3})\$?([0-9]+)$')


def ref(s):
    m = _REF.match(s)
    if not m:
        raise Bad('bad cell ref %r' % s)
    return int(m.group(2)) - 1, col_num(m.group(1))


def rng(s):
    a, _, b = s.partition(':')
    r1, c1 = ref(a)
    if not b:
        return r1, c1, r1, c1
    r2, c2 = ref(b)
    return r1, c1, r2, c2


def fnum(s):
    """Canonical text of a number."""
    return repr(float(s))


_XESC = re.compile(r'_x([0-9A-Fa-f]{4})_')


def unescape(s):
    """Undo the _xHHHH_ escaping of ST_Xstring the way Excel does."""
    return _XESC.sub(lambda m: chr(int(m.group(1), 16)), s)


_XCTL = re.compile(r'_x(00[01][0-9A-Fa-f]|FFF[EF])_')


def xattr(s):
    """Attribute text: only control characters are escaped."""
    return _XCTL.sub(lambda m: chr(int(m.group(1), 16)), s)


def xtext(t):
    """Text of a <t> element; whitespace is significant only with xml:space."""
    s = t.text or ''
    if t.get(XML_SPACE) != 'preserve':
        # Excel trims unpreserved leading/trailing whitespace.
        s = s.strip(' \t\n\r') if s.strip(' \t\n\r') != s else s
    return unescape(s)


def local(tag):
    return tag.rsplit('}', 1)[-1]


def rels_path(part):
    d, b = posixpath.split(part)
    return posixpath.join(d, '_rels', b + '.rels')


class Book:
    def __init__(self, data):
        self.z = zipfile.ZipFile(io.BytesIO(data))
        self.names = self.z.namelist()
        self.bad = []
        if self.z.testzip() is not None:
            self.bad.append('crc')
        if len(set(self.names)) != len(self.names):
            self.bad.append('duplicate zip entry')
        self._xml = {}
        self._rels = {}
        self._styles = None
        self._sst = None

    def read(self, name):
        return self.z.read(name)

    def xml(self, name):
        if name not in self._xml:
            self._xml[name] = ET.fromstring(self.z.read(name))
        return self._xml[name]

    def has(self, name):
        return name in self.names

    def rels(self, part):
        """id -> (type suffix, target, external?) with target resolved to a part name."""
        if part in self._rels:
            return self._rels[part]
        out = {}
        p = rels_path(part)
        if self.has(p):
            for r in self.xml(p).findall(PR + 'Relationship'):
                ext = r.get('TargetMode') == 'External'
                t = r.get('Target')
                if not ext:
                    if t.startswith('/'):
                        t = t[1:]
                    elif t.startswith('#'):
                        pass
                    else:
                        t = posixpath.normpath(posixpath.join(posixpath.dirname(part), t))
                if r.get('Id') in out:
                    self.bad.append('duplicate rel id %s in %s' % (r.get('Id'), p))
                out[r.get('Id')] = (r.get('Type').rsplit('/', 1)[-1], t, ext)
        self._rels[part] = out
        return out

    # ---- workbook ----
    @property
    def wb_part(self):
        for t, target, _ in self.rels('').values():
            if t == 'officeDocument':
                return target
        raise Bad('no officeDocument')

    @property
    def wb(self):
        return self.xml(self.wb_part)

    def sheets(self):
        out = []
        rels = self.rels(self.wb_part)
        for s in self.wb.find(M + 'sheets').findall(M + 'sheet'):
            t, target, _ = rels[s.get(R + 'id')]
            out.append({'name': s.get('name'), 'id': s.get('sheetId'), 'state': s.get('state', 'visible'),
                        'kind': t, 'part': target})
        return out

    def defined_names(self):
        d = self.wb.find(M + 'definedNames')
        if d is None:
            return []
        return [(n.get('name'), n.get('localSheetId', ''), n.get('hidden', ''), n.text or '') for n in d]

    # ---- shared strings ----
    def sst(self):
        if self._sst is None:
            part = None
            for t, target, _ in self.rels(self.wb_part).values():
                if t == 'sharedStrings':
                    part = target
            if part is None:
                self._sst = ({}, [])
            else:
                root = self.xml(part)
                self._sst = (root.attrib, [si_value(si) for si in root.findall(M + 'si')])
        return self._sst

    # ---- styles ----
    def styles(self):
        if self._styles is None:
            part = None
            for t, target, _ in self.rels(self.wb_part).values():
                if t == 'styles':
                    part = target
            self._styles = Styles(self.xml(part))
        return self._styles


BUILTIN = {'General': '0', '0': '1', '0.00': '2', '#,##0': '3', '#,##0.00': '4', '0%': '9', '0.00%': '10',
           '0.00E+00': '11', '# ?/?': '12', '# ??/??': '13', 'm/d/yy': '14', 'd-mmm-yy': '15', 'd-mmm': '16',
           'mmm-yy': '17', 'h:mm AM/PM': '18', 'h:mm:ss AM/PM': '19', 'h:mm': '20', 'h:mm:ss': '21',
           'm/d/yy h:mm': '22', 'mm:ss': '45', '[h]:mm:ss': '46', 'mm:ss.0': '47', '##0.0E+0': '48', '@': '49'}


def canon_numfmt(code):
    """Codes of built-in formats are shown by their index, so that both ways of asking for one agree."""
    return '#' + BUILTIN[code] if code in BUILTIN else code


def color_text(e):
    if e is None:
        return ''
    if e.get('rgb') is not None:
        v = e.get('rgb')
        return v[2:] if len(v) == 8 and v.startswith('FF') else 'argb' + v
    if e.get('theme') is not None:
        t = e.get('tint')
        return 'theme' + e.get('theme') + ('' if t is None else ':' + fnum(t))
    if e.get('indexed') is not None:
        return 'indexed' + e.get('indexed')
    if e.get('auto') is not None:
        return 'auto'
    return '?'


def font_facts(f, name_tag='name', default_size='11', dxf=False):
    """Set of (key, value) pairs that differ from the default Calibri 11 font."""
    out = set()
    if f is None:
        return out

    def flag(e):
        return e is not None and e.get('val', '1') not in ('0', 'false')
    for k, tag in (('b', 'b'), ('i', 'i'), ('st', 'strike')):
        if flag(f.find(M + tag)):
            out.add((k, '1'))
    u = f.find(M + 'u')
    if u is not None:
        out.add(('u', u.get('val', 'single')))
    v = f.find(M + 'vertAlign')
    if v is not None:
        out.add(('scr', v.get('val')))
    sz = f.find(M + 'sz')
    if sz is not None and sz.get('val') != '11':
        out.add(('fs', sz.get('val')))
    if sz is None and not dxf:
        out.add(('fs', 'missing'))
    c = f.find(M + 'color')
    ct = color_text(c)
    if dxf:
        if c is not None:
            out.add(('fc', ct))
    elif ct != 'theme1':
        out.add(('fc', ct or 'auto'))
    n = f.find(M + name_tag)
    if n is not None and n.get('val') != 'Calibri':
        out.add(('fn', n.get('val')))
    if n is None and not dxf:
        out.add(('fn', 'missing'))
    fam = f.find(M + 'family')
    famv = fam.get('val') if fam is not None else '0'
    if famv != '2' and not dxf:
        out.add(('fam', famv))
    ch = f.find(M + 'charset')
    if ch is not None:
        out.add(('chs', ch.get('val')))
    return out


class Styles:
    def __init__(self, root):
        self.root = root
        g = lambda t: list(root.find(M + t)) if root.find(M + t) is not None else []
        self.numfmts = {n.get('numFmtId'): n.get('formatCode') for n in g('numFmts')}
        self.fonts = g('fonts')
        self.fills = g('fills')
        self.borders = g('borders')
        self.xfs = g('cellXfs')
        self.style_xfs = g('cellStyleXfs')
        self.dxfs = g('dxfs')
        self.bad = []
        for t in ('numFmts', 'fonts', 'fills', 'borders', 'cellXfs', 'cellStyleXfs', 'cellStyles', 'dxfs'):
            e = root.find(M + t)
            if e is not None and e.get('count') is not None and int(e.get('count')) != len(list(e)):
                self.bad.append(t + ' count')
        if len(self.numfmts) != len(g('numFmts')):
            self.bad.append('duplicate numFmtId')
        self._cache = {}

    def fill_facts(self, f):
        out = set()
        p = f.find(M + 'patternFill')
        if p is None:
            return {('pat', '?')}
        t = p.get('patternType', 'none')
        fg, bg = color_text(p.find(M + 'fgColor')), color_text(p.find(M + 'bgColor'))
        if t != 'none':
            out.add(('pat', t))
        if fg:
            out.add(('fg', fg))
        if bg and bg != 'indexed64':
            out.add(('bg', bg))
        return out

    def border_facts(self, b):
        out = set()
        up, dn = b.get('diagonalUp') == '1', b.get('diagonalDown') == '1'
        if up or dn:
            out.add(('bdt', 'updown' if up and dn else 'up' if up else 'down'))
        for k, tag in (('bl', 'left'), ('br', 'right'), ('bt', 'top'), ('bb', 'bottom'), ('bd', 'diagonal')):
            e = b.find(M + tag)
            if e is not None and e.get('style'):
                out.add((k, e.get('style')))
                c = color_text(e.find(M + 'color'))
                if c and c != 'auto':
                    out.add((k + 'c', c))
        return out

    def numfmt(self, i):
        if i in self.numfmts:
            return canon_numfmt(self.numfmts[i])
        return '#' + i

    def xf(self, i):
        """Effective properties of cellXfs[i] as a frozenset of (key, value)."""
        i = int(i)
        if i in self._cache:
            return self._cache[i]
        if i >= len(self.xfs):
            out = frozenset({('BAD', 'xf index out of range')})
            self._cache[i] = out
            return out
        x = self.xfs[i]
        out = set()
        try:
            out |= font_facts(self.fonts[int(x.get('fontId'))])
            out |= self.fill_facts(self.fills[int(x.get('fillId'))])
            out |= self.border_facts(self.borders[int(x.get('borderId'))])
        except IndexError:
            out.add(('BAD', 'component index out of range'))
        xid = int(x.get('xfId', '0'))
        if xid >= len(self.style_xfs):
            out.add(('BAD', 'xfId out of range'))
        if xid == 1:
            out.add(('hl', '1'))
        n = x.get('numFmtId', '0')
        if n != '0':
            if self.numfmt(n) != '#0':
                out.add(('nf', self.numfmt(n)))
            if int(n) >= 164 and n not in self.numfmts:
                out.add(('BAD', 'numFmtId undefined'))
            if x.get('applyNumberFormat') != '1':
                out.add(('BAD', 'applyNumberFormat'))
        if x.get('quotePrefix') == '1':
            out.add(('qp', '1'))
        for flag, cid in (('applyFont', 'fontId'), ('applyFill', 'fillId'), ('applyBorder', 'borderId')):
            if x.get(cid) != '0' and x.get(flag) != '1' and xid == 0:
                out.add(('BAD', flag))
        a = x.find(M + 'alignment')
        if a is not None:
            for k, t in (('ha', 'horizontal'), ('va', 'vertical'), ('rot', 'textRotation'), ('ind', 'indent'),
                         ('wrap', 'wrapText'), ('shr', 'shrinkToFit'), ('rd', 'readingOrder')):
                if a.get(t) is not None:
                    out.add((k, a.get(t)))
            if a.attrib and x.get('applyAlignment') != '1':
                out.add(('BAD', 'applyAlignment'))
        p = x.find(M + 'protection')
        if p is not None:
            if p.get('locked') == '0':
                out.add(('lk', '0'))
            if p.get('hidden') == '1':
                out.add(('hid', '1'))
            if x.get('applyProtection') != '1':
                out.add(('BAD', 'applyProtection'))
        if x.find(M + 'extLst') is not None:
            out.add(('cb', '1'))
        out = frozenset(out)
        self._cache[i] = out
        return out

    def dxf(self, i):
        i = int(i)
        if i >= len(self.dxfs):
            return frozenset({('BAD', 'dxf index out of range')})
        d = self.dxfs[i]
        out = set()
        out |= font_facts(d.find(M + 'font'), dxf=True)
        nf = d.find(M + 'numFmt')
        if nf is not None:
            out.add(('nf', canon_numfmt(nf.get('formatCode'))))
            if nf.get('numFmtId') in self.numfmts and self.numfmts[nf.get('numFmtId')] != nf.get('formatCode'):
                out.add(('BAD', 'dxf numFmtId clashes'))
        fl = d.find(M + 'fill')
        if fl is not None:
            p = fl.find(M + 'patternFill')
            t = p.get('patternType')
            if t:
                out.add(('pat', t))
            fg, bg = color_text(p.find(M + 'fgColor')), color_text(p.find(M + 'bgColor'))
            if fg:
                out.add(('fg', fg))
            if bg and bg != 'indexed64':
                out.add(('bg', bg))
        b = d.find(M + 'border')
        if b is not None:
            out |= self.border_facts(b)
        if d.find(M + 'extLst') is not None:
            out.add(('cb', '1'))
        return frozenset(out)


def si_value(si):
    """('s', text) for plain entries, ('r', [(facts, text), ..]) for rich ones."""
    rs = si.findall(M + 'r')
    if not rs:
        t = si.find(M + 't')
        return ('s', xtext(t) if t is not None else '')
    segs = []
    for r in rs:
        rp = r.find(M + 'rPr')
        segs.append((frozenset(font_facts(rp, 'rFont')) if rp is not None else None, xtext(r.find(M + 't'))))
    return ('r', segs)


def rich_text(segs):
    return ''.join(t for _, t in segs)


class Sheet:
    """One worksheet part."""

    def __init__(self, book, part):
        self.book, self.part = book, part
        self.root = book.xml(part)
        self.bad = []

    def find(self, tag):
        return self.root.find(M + tag)

    def cells(self):
        """[(row, col, style index, kind, value, extra)]"""
        out = []
        sd = self.find('sheetData')
        last_row = -1
        _, sst = self.book.sst()
        for row in (sd if sd is not None else []):
            r = int(row.get('r')) - 1
            if r <= last_row:
                self.bad.append('row order')
            last_row = r
            last_col = -1
            for c in row:
                rr, cc = ref(c.get('r'))
                if rr != r:
                    self.bad.append('cell in wrong row')
                if cc <= last_col:
                    self.bad.append('cell order')
                last_col = cc
                t = c.get('t', 'n')
                v = c.find(M + 'v')
                f = c.find(M + 'f')
                sidx = c.get('s', '0')
                extra = {}
                if c.get('cm'):
                    extra['cm'] = c.get('cm')
                if c.get('vm'):
                    extra['vm'] = c.get('vm')
                if f is not None:
                    kind = 'a' if f.get('t') == 'array' else 'f'
                    if kind == 'a':
                        extra['ref'] = rng(f.get('ref'))
                        if c.get('cm'):
                            kind = 'd'
                    vt = v.text if v is not None and v.text else ''
                    if t == 'n':
                        try:
                            vt = fnum(vt)
                        except ValueError:
                            extra['badnum'] = vt
                            vt = 'BAD'
                    elif t == 'str':
                        vt = unescape(vt)
                    extra['res'] = (t, vt)
                    val = unescape(f.text or '')
                elif t == 's':
                    i = int(v.text)
                    extra['sst'] = i
                    if i >= len(sst):
                        kind, val = 'BAD', 'sst index'
                    else:
                        kind, val = sst[i]
                elif t == 'inlineStr':
                    kind, val = si_value(c.find(M + 'is'))
                    extra['inline'] = True
                elif t == 'b':
                    kind, val = 'b', v.text
                elif t == 'e':
                    kind, val = 'v' if c.get('vm') else 'e', v.text
                elif v is not None:
                    kind, val = 'n', fnum(v.text)
                else:
                    kind, val = 'z', ''
                out.append((r, cc, sidx, kind, val, extra))
        return out

    def rows(self):
        sd = self.find('sheetData')
        out = {}
        for row in (sd if sd is not None else []):
            out[int(row.get('r')) - 1] = dict(row.attrib)
        return out

    def cols(self):
        out = []
        e = self.find('cols')
        last = 0
        for c in (e if e is not None else []):
            lo, hi = int(c.get('min')), int(c.get('max'))
            if lo <= last or hi < lo:
                self.bad.append('cols order')
            last = hi
            out.append((lo - 1, hi - 1, dict(c.attrib)))
        return out
