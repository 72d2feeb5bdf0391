"""Random histories for the workbook around its cells."""
from gen import SHEET_NAMES, BAD_NAMES, COLORS, rname, GENS, Pool

TEXTS = ['', 'x', 'A title', 'a<b>&"c"\'d', 'é中\U0001F600', ' padded ', 'line\nbreak', '_x0041_', '123', 'tab\t.']
PWS = ['', 'abc', 'password', 'x', 'é中', 'A longer pass phrase 123!', '\U0001F600', 'aaaaaaaaaaaaaaa', 'zz', '0', 'Pass word']
PERMS = ['format_cells', 'format_columns', 'format_rows', 'insert_columns', 'insert_rows', 'insert_links', 'delete_columns', 'delete_rows', 'sort',
         'use_autofilter', 'use_pivot_tables', 'select_locked_cells', 'select_unlocked_cells', 'edit_objects', 'edit_scenarios', 'contents']
IGN = ['numberStoredAsText', 'evalError', 'formulaRange', 'formula', 'unlockedFormula', 'emptyCellReference', 'listDataValidation', 'calculatedColumn',
       'twoDigitTextYear']
HF = ['', '&L&P', '&CPage &[Page] of &[Pages]', '&R&[Date] &[Time]', '&[Path]&[File]', '&[Tab]&&[Tab]', 'a & b <c>', '&L&"Arial,Bold"x', '&[Page', '&[Pagex]',
      {'rep': 'x', 'n': 255}, {'rep': 'x', 'n': 256}, {'rep': '&[Tab]', 'n': 127}, {'rep': '&[Tab]', 'n': 128}, {'rep': 'é', 'n': 255}, '&[Picture]x', 'é中']
DEFN = ['Name', 'name', 'Sales', '_x', '\\b', 'é', 'Ab1x', '1x', '', 'a b', 'x-y', "it's", 'a,b', 'a:b', 'a.b', 'zeta', 'Alpha', 'beta', 'a/b', '[x', '*a', '"q"', '.a', '$a', 'abc_d']
REFS = ['=Sheet1!$A$1', '=1.5', "='My Sheet'!$A$1:$B$9", '=Data!A1', 'Sheet1!$C$3', '="text"', '=SUM(Sheet1!$A$1:$A$9)', '=Sheet1!$A:$A', "='a!b'!$A$1", '=10']


def pick(R, *v):
    return R.choice(v)


def rc(R):
    return (R.choice([0, 0, 1, 2, 9, 25, 100, 1048575]), R.choice([0, 0, 1, 2, 5, 26, 702, 16383]))


def rng(R, bad=.06, big=.1):
    r, c = R.choice([0, 1, 3, 20]), R.choice([0, 1, 4, 26])
    o = {'r': r, 'c': c, 'r2': r + R.choice([0, 1, 5, 1000]), 'c2': c + R.choice([0, 1, 3, 700])}
    if R.random() < big:
        if R.random() < .6:
            o.update(r=0, r2=1048575)
        if R.random() < .6:
            o.update(c=0, c2=16383)
    if R.random() < bad:
        o[R.choice(['r', 'c', 'r2', 'c2'])] = R.choice([1048576, 30000, 65535]) if R.random() < .5 else 0
    for k in ('c', 'c2'):
        o[k] = min(o[k], 65535)
    return o


SETTINGS = ['paper', 'pageorder', 'landscape', 'portrait', 'margins', 'firstpage', 'pscale', 'pfit', 'pbw', 'pdraft', 'header', 'footer', 'hfscale', 'hfalign',
            'tabcolor', 'zoom', 'vbaname']
WSONLY = ['rtl', 'view', 'breaks', 'vbreaks', 'freeze', 'freezetop', 'pch', 'pcv', 'phead', 'pgrid', 'sgrid', 'selection', 'topleft', 'symabove', 'symleft',
          'hideunused', 'ignore', 'breaks', 'freeze', 'freezetop', 'ignore']


def g_setting(R, mode):
    k = R.choice(SETTINGS if mode == 'chart' else SETTINGS + WSONLY)
    o = {'op': k}
    if k in ('pageorder', 'pbw', 'pdraft', 'hfscale', 'hfalign', 'rtl', 'pch', 'pcv', 'phead', 'pgrid', 'sgrid', 'symabove', 'symleft', 'hideunused'):
        o['v'] = R.random() < .6
    elif k == 'paper':
        o['v'] = R.choice([0, 1, 9, 8, 118, 255])
    elif k == 'margins':
        o['vs'] = [repr(R.choice([0.7, 0.75, 0.3, 0.0, 1.0, 2.25, -1.0, -1.0, 0.1])) for _ in range(6)]
    elif k == 'firstpage':
        o['v'] = R.choice([0, 1, 2, 10, 65535])
    elif k in ('pscale', 'zoom'):
        o['v'] = R.choice([9, 10, 11, 75, 99, 100, 101, 200, 399, 400, 401, 0, 65535])
    elif k == 'pfit':
        o['w'], o['h'] = R.choice([0, 1, 2, 5]), R.choice([0, 1, 3, 40])
    elif k in ('header', 'footer'):
        o['v'] = R.choice(HF)
    elif k == 'tabcolor':
        o['v'] = R.choice(COLORS)
    elif k == 'vbaname':
        o['v'] = R.choice(['Code1', 'a', 'x_y', '1a', '', 'a b', 'é', '_a', 'x' * 31, 'x' * 32, 'Sheet1'])
    elif k == 'view':
        o['v'] = R.choice(['normal', 'layout', 'breaks'])
    elif k in ('breaks', 'vbreaks'):
        top = 1048576 if k == 'breaks' else 16384
        n = R.choice([0, 1, 2, 3, 4, 6])
        o['vs'] = [R.choice([0, 1, 2, 5, 5, 20, 100, top - 1]) for _ in range(n)]
        if R.random() < .08:
            o['vs'].append(top)
        if R.random() < .02:
            o['vs'] = list(range(1, R.choice([1023, 1024, 1025]) + 1))
    elif k in ('freeze', 'freezetop', 'topleft'):
        o['r'], o['c'] = rc(R)
        if R.random() < .06:
            o[R.choice('rc')] = 1048576 if R.random() < .5 else 16384
            o['c'] = min(o['c'], 65535)
    elif k == 'selection':
        o.update(rng(R))
    elif k == 'ignore':
        o.update(rng(R))
        if R.random() < .5:
            o.update(r=1, c=1, r2=R.choice([1, 2]), c2=R.choice([1, 2]))
        o['t'] = R.choice(IGN)
    return o


def g_prot(R, mode):
    k = R.choice(['protect', 'protect', 'protectopt', 'protectopt', 'unprotect'])
    if mode == 'chart' and k == 'unprotect':
        k = 'protect'
    o = {'op': k}
    if k == 'protect':
        if R.random() < .6:
            o['pw'] = R.choice(PWS) if R.random() < .7 else ''.join(R.choice('abcXYZ019 é中') for _ in range(R.randrange(1, 20)))
    elif k == 'protectopt':
        for p in R.sample(PERMS, R.choice([0, 1, 2, 5, 16])):
            o[p] = R.random() < .5
    else:
        o.update(rng(R))
        if R.random() < .6:
            o['name'] = R.choice(['', 'Area', 'My range', 'é', 'Range2', 'a<b'])
            o['pw'] = R.choice(PWS)
    return o


def g_tab(R, mode):
    k = R.choice(['active', 'active', 'selected', 'hidden', 'hidden', 'veryhidden', 'firsttab'])
    return {'op': k, 'v': R.random() < .75}


def g_area(R, mode):
    k = R.choice(['parea', 'parea', 'rrows', 'rcols', 'autofilter'])
    o = {'op': k}
    o.update(rng(R, big=.3))
    if k == 'autofilter' and R.random() < .8:
        o.update(r=2, c=1, r2=8, c2=R.choice([1, 4]))
    return o


DATES = ['2024-01-02T03:04:05Z', '1999-12-31T23:59:59Z', '2100-02-28T00:00:00Z', '1900-01-01T00:00:00Z', '9999-12-31T23:59:59Z', '2000-02-29T12:30:09Z',
         '1900-03-01T06:00:01Z', '1900-02-28T00:00:00Z', '2023-09-09T09:09:00Z']


def g_props(R):
    keys = ['title', 'subject', 'author', 'manager', 'company', 'category', 'keywords', 'comment', 'status', 'hyperlink_base']
    s = {k: R.choice(TEXTS) for k in R.sample(keys, R.randrange(len(keys) + 1))}
    s['created'] = R.choice(DATES)
    if R.random() < .5:
        s['created_how'] = R.choice(['serial', 'frac'])
    cust = []
    for n in R.sample(['Checked by', 'Date', 'a<b>"', 'é', 'Number', 'Ref', 'x' * 40], R.choice([0, 0, 1, 2, 4])):
        t = R.choice(['lpwstr', 'i4', 'r8', 'bool', 'filetime'])
        v = {'lpwstr': lambda: R.choice(TEXTS), 'i4': lambda: str(R.choice([0, 1, -1, 2147483647, -2147483648, 77])),
             'r8': lambda: repr(R.choice([0.0, 1.5, -2.25, 1e100, 1e-5, 0.1])), 'bool': lambda: R.choice(['true', 'false']),
             'filetime': lambda: R.choice(DATES)}[t]()
        cust.append({'n': n, 't': t, 'v': v, 'how': R.choice(['', 'serial', 'frac'])})
    return {'op': 'props', 'set': s, 'custom': cust}


class W:
    """What a generated workbook looks like so far (to keep indices in range)."""

    def __init__(self, R):
        self.R, self.tabs, self.spare, self.k, self.keep, self.signed = R, [], {}, 0, False, False


def book_case(R, n, weights, save_p=.1, modes=('std', 'std', 'std', 'low', 'const', 'chart')):
    w = W(R)
    ops = []

    def add():
        m = R.choice(modes)
        w.tabs.append(m)
        ops.append({'op': 'add_sheet', 'mode': m})
        if m == 'chart' and R.random() < .97:
            ops.append({'op': 'chart', 's': len(w.tabs) - 1, 'r': 0, 'c': 0, 'ref': 'Zdata' if R.random() < .99 else 'Sheet1'})
    if R.random() < .5:
        modes = [m for m in modes if m != 'chart']
    else:
        w.tabs.append('std')
        ops += [{'op': 'add_sheet', 'mode': 'std'}, {'op': 'setname', 'name': 'Zdata', 's': 0}]
        w.keep = True
    for _ in range(R.choice([0, 1, 1, 2, 3, 5])):
        add()
    kinds = list(weights)
    for _ in range(n):
        k = R.choices(kinds, [weights[x] for x in kinds])[0]
        nt = len(w.tabs)
        s = R.randrange(nt) if nt else 0
        mode = w.tabs[s] if nt else 'std'
        tgt = {'s': s}
        if w.spare and R.random() < .2:
            name = R.choice(sorted(w.spare))
            tgt = {'spare': name}
            mode = w.spare[name]
        elif R.random() < .02:
            tgt = {'s': nt + R.randrange(2)}
        if k == 'add':
            if nt < 8:
                add()
        elif k == 'spare':
            w.k += 1
            m = R.choice(modes)
            name = 'w%d' % w.k
            w.spare[name] = m
            ops.append({'op': 'new_spare', 'name': name, 'mode': m})
            if m == 'chart':
                ops.append({'op': 'chart', 'spare': name, 'r': 0, 'c': 0, 'ref': 'Zdata'})
        elif k == 'push':
            if w.spare:
                name = R.choice(sorted(w.spare))
                w.tabs.append(w.spare.pop(name))
                ops.append({'op': 'push_spare', 'name': name})
        elif k == 'swap':
            if nt > 1:
                a, b = R.randrange(w.keep, nt), R.randrange(w.keep, nt)
                w.tabs[a], w.tabs[b] = w.tabs[b], w.tabs[a]
                ops.append({'op': 'swap_sheets', 'a': a, 'b': b})
        elif k == 'remove':
            if nt:
                i = R.randrange(nt)
                if w.keep:
                    i = nt - 1
                if nt > 1 or not w.keep:
                    w.tabs.pop(i)
                    ops.append({'op': 'remove_sheet', 'i': i})
        elif k == 'lookup':
            x = R.random()
            ops.append({'op': 'sheet_names'} if x < .3 else {'op': 'sheet_from_index', 'i': R.randrange(nt + 2)} if x < .5
                       else {'op': 'sheet_from_name', 'name': R.choice(['Sheet1', 'Sheet2', 'sheet1', 'Chart1', 'Data', '', "It's", 'My Sheet'])})
        elif k == 'setname':
            o = {'op': 'setname', 'name': R.choice(BAD_NAMES) if R.random() < .15 else R.choice(['Sheet1', 'Sheet2', 'sheet3', 'Data', 'data', 'My Sheet', "It's", 'A.1', 'R1C1', 'é', 'É'])
                 if R.random() < .5 else rname(R)}
            if R.random() < .3:
                o['name'] = '%s %d' % (R.choice(['Tab', 'x', "o'k", 'Sheet']), len(ops))
            if not (w.keep and tgt.get('s') == 0):
                ops.append(dict(o, **tgt))
        elif k == 'name':
            if 's' in tgt and nt:
                ops.append({'op': 'name', 's': s})
        elif k == 'define':
            nm = R.choice(DEFN) if R.random() < .5 else R.choice(['Total', 'Rate', 'x1y', 'Zed', 'total'])
            x = R.random()
            if x < .4:
                nm = R.choice(['Sheet1', 'Sheet1', 'Sheet2', "'Sheet1'", 'Data', "'My Sheet'", "'It''s'", 'Nope' if R.random() < .1 else 'Sheet1']) + '!' + nm
            ops.append({'op': 'define_name', 'name': nm, 'v': R.choice(REFS)})
        elif k == 'props':
            ops.append(g_props(R))
        elif k == 'ro':
            ops.append({'op': 'read_only_recommended'})
        elif k == 'wbvba':
            ops.append({'op': 'wb_vba_name', 'v': R.choice(['ThisBook', 'x', '', '9x', 'a b', 'x' * 32])})
        elif k == 'macros':
            x = R.random()
            v = 'p%d' % len(ops)
            if x < .4 and not w.signed:
                ops.append({'op': 'vba', 'v': v})
            elif x < .7:
                w.signed = True
                ops.append({'op': 'vba', 'v': v, 'sig': 's%d' % len(ops)})
            else:
                ops.append(R.choice([{'op': 'vba'}, {'op': 'vba', 'sig': 's'}, {'op': 'vba', 'v': v, 'nosig': 1}]))
        elif k == 'content':
            if nt and mode != 'chart':
                p = Pool(R, far=0)
                o = GENS[R.choice(['num', 'str', 'bool', 'blank', 'formula'])](p)
                if isinstance(o.get('v'), dict):
                    o['v'] = 'x'
                ops.append(dict(o, **tgt))
        else:
            g = {'setting': g_setting, 'prot': g_prot, 'tab': g_tab, 'area': g_area}[k]
            o = g(R, mode)
            if k == 'area' and mode == 'chart' and o['op'] == 'autofilter':
                continue
            if k == 'tab' and 's' in tgt and not nt:
                pass
            ops.append(dict(o, **tgt))
        if R.random() < save_p:
            ops.append({'op': 'save', 'how': R.choice(['buffer', 'writer', 'path'])})
    ops.append({'op': 'save', 'how': 'buffer'})
    return ops
