"""Any text in any place."""
import re

PIECES = ['a', 'B', '_', 'x', '_x', '0041', '_x0041_', '_x005F_', '_x00e9_', '_x005f', '_xFFFF', '_xD83D_', '\x01', '\x04', '\x1f', '\x0b', '\x00', '\x7f', '\x85', '\u2028',
          '&', '<', '>', '"', "'", '&amp;', '&#65;', '&lt;', ']]>', '<![CDATA[', '<!--', '-->', '<?a?>', '</t>', '\n', '\t', '\r', '\r\n', ' ', '  ',
          '\ufffe', '\uffff', '\ufeff', '\U0001F600', '\U0010ffff', '\u0301', '\u00e9', '\u4e2d', '\u200f', '%41', '%', '{', '}', '=', '\\', '\xa0', '#', '@', '+', '-1', '[', ']',
          '*', '?', '~', ':', '/', ',', ';', '(', ')', '$', '!', '^', '`', '|', 'TRUE', '1.0', '#N/A', 'None', '\ud7ff', '\ue000']
IN_ORDER = ['str', 'strfmt', 'rich1', 'rich2', 'formula', 'result', 'array', 'urltext', 'tip', 'loc']       # any worksheet mode
SHEET1 = ['header', 'footer', 'listfilter', 'customfilter', 'name']
OTHERS = ['merge', 'nan', 'cached', 'note', 'prefix', 'notealt', 'dvtitle', 'dvmsg', 'dvetitle', 'dvemsg', 'dvlist', 'dvcustom', 'cftext', 'cfformula',
          'cfcell', 'colname', 'label', 'colformula', 'totalformula', 'alt', 'imgtip', 'shape', 'shapealt', 'caption', 'buttonalt', 'macro', 'chname',
          'chalt', 'chtitle', 'sername', 'xname', 'dlabel', 'trend', 'axisfmt', 'titlefont', 'numfmt', 'font', 'dxfnumfmt', 'protrange']
BOOK = ['p_title', 'p_subject', 'p_author', 'p_manager', 'p_company', 'p_category', 'p_keywords', 'p_comment', 'p_status', 'p_base', 'c_value', 'c_name', 'defname']
ONCE = {'name', 'header', 'footer', 'listfilter', 'customfilter'} | {b for b in BOOK if b[0] == 'p'}
ALL = IN_ORDER + SHEET1 + OTHERS + BOOK
# Texts kept as they are: what looks like the escape of a control character cannot be told from it.
PLAIN = {'notealt', 'alt', 'shape', 'shapealt', 'caption', 'buttonalt', 'macro', 'chname', 'chalt', 'chtitle', 'xname', 'dlabel', 'trend', 'titlefont',
         'c_value', 'c_name', 'imgtip'} | {b for b in BOOK if b[0] == 'p'}
CTL = re.compile('[\x00-\x08\x0b-\x1f\ufffe\uffff]')


def ambiguous(v):
    from xlsx import xattr
    return xattr(CTL.sub(lambda m: '_x%04X_' % ord(m.group()), v)) != v


def allowed(slot, v):
    """What the place may hold at all."""
    if not v:
        return False
    if (slot in PLAIN or slot == 'name') and ambiguous(v):
        return False
    if slot == 'name':
        return len(v) <= 31 and not re.search(r"[\[\]:*?/\\]", v) and v[0] != "'" and v[-1] != "'" and not re.match(r'(?i)sheet\d', v)
    if slot in ('chtitle', 'xname', 'sername', 'dlabel') and v[0] == '=':
        return False
    if slot == 'loc':
        return 'internal:' not in v and len(v) < 200
    if slot == 'colname':
        return not re.match(r'(?i)column\d', v) and v != 'Column2'
    if slot == 'dvlist':
        return ',' not in v
    if slot in ('numfmt', 'dxfnumfmt', 'axisfmt'):
        return v.lower() != 'general' and len(v) < 200
    if slot == 'listfilter':
        return v.strip(' \t\n') != '' and v.lower() != 'blanks'
    return True


def a_text(R, slot, long=.03):
    while True:
        k = R.random()
        if k < long:
            n = R.choice([31, 32, 33, 253, 254, 255, 256, 257, 1000, 32766, 32767, 32768])
            if slot in ('numfmt', 'dxfnumfmt', 'axisfmt', 'font', 'titlefont', 'name', 'loc', 'protrange', 'defname', 'formula', 'result', 'array', 'colname',
                        'label') and n > 200:
                n = 31
            if slot == 'caption':
                n = min(n, 255)
            if n > 300 and R.random() < .7:
                n = 256
            v = 'y' * n
        else:
            v = ''.join(R.choice(PIECES) for _ in range(R.choice([1, 1, 2, 3, 4, 6])))
        if allowed(slot, v):
            return v


def text_case(R, n=30, save_p=.05):
    ops, modes = [], []
    ns = R.choice([1, 1, 2, 3])
    for s in range(ns):
        m = R.choice(['std', 'std', 'std', 'low', 'const'])
        modes.append(m)
        ops.append({'op': 'add_sheet', 'mode': m})
    names = set()
    for s in range(ns):
        if R.random() < .5:
            v = a_text(R, 'name')
            if v.lower() not in names:
                names.add(v.lower())
                ops.append({'op': 'text', 'slot': 'name', 's': s, 'r': 0, 'v': v})
    fav = R.choice([ALL, ALL, R.sample(ALL, 8)])
    for k in range(1, n):
        slot = R.choice(fav)
        if slot == 'name':
            continue
        s = 1000 if slot in BOOK else R.randrange(ns)
        if s < 1000 and modes[s] != 'std' and slot in OTHERS:
            slot = R.choice(IN_ORDER)
        v = a_text(R, slot)
        if slot in ('c_name', 'protrange'):
            if (slot, v.lower()) in names:
                continue
            names.add((slot, v.lower()))
        ops.append({'op': 'text', 'slot': slot, 's': s, 'r': k, 'v': v})
        if R.random() < .06 and slot not in OTHERS and slot not in ('defname', 'c_name'):
            ops.append(dict(ops[-1], v=a_text(R, slot)))
        if R.random() < save_p:
            ops.append({'op': 'save', 'how': 'buffer'})
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'path'])})
    return ops


CHARS = {'NUL': '\x00', 'EOT': '\x04'}


def spread(texts, per=6):
    """Histories which set every text in every place."""
    out = []
    for at in range(0, len(texts), per):
        for mode, slots in (('std', ALL), ('const' if at // per % 2 else 'low', IN_ORDER + SHEET1)):
            ops = []
            for k, v in enumerate(texts[at:at + per]):
                ops.append({'op': 'add_sheet', 'mode': mode})
                if allowed('name', v):
                    ops.append({'op': 'text', 'slot': 'name', 's': k, 'r': 0, 'v': v + '%d' % k})
            for k, v in enumerate(texts[at:at + per]):
                for n, slot in enumerate(slots):
                    if slot == 'name' or not allowed(slot, v) or (slot in BOOK and slot in ONCE and n % per != k):
                        continue
                    ops.append({'op': 'text', 'slot': slot, 's': 1000 if slot in BOOK else k, 'r': k + 1 if slot in BOOK else n + 1, 'v': v})
            ops.append({'op': 'save', 'how': 'buffer'})
            out.append(ops)
    return out
