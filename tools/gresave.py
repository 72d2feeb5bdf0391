"""Histories with saves, successful and failing, anywhere, next to the same
history without them."""
import json
from gen import *
import gbook, gobj

GRID = dict(num=4, str=4, bool=1, blank=1, formula=2, dynfn=.5, array=1, dynformula=.5, rich=2, seq=1, merge=1, setres=.7, setresd=.3, clear=1, url=.5,
            link=1.5, checkbox=.5, rformat=1, cformat=1, rowprop=1.5, colprop=1.5, rdefault=.3, setf=1, clearf=.5, autofilter=1, nanval=.2, srow=.5, bad=.5)
TABLE = dict(table=4, headtext=3, num=2, str=1, autofilter=.5, rformat=.3)
BOOK = dict(tab=4, add=1.5, spare=.5, push=.5, swap=.6, remove=.4, setname=2, define=2, props=.7, setting=5, prot=2, area=3, content=2, ro=.3, wbvba=.2, macros=.3)
OBJECTS = dict(image=4, fit=.6, ochart=3, shape=3, button=2, note=3, misc=1, hf=2, embed=1.5, size=2, content=1.5, bad=.3)
DATE = {'op': 'props', 'set': {'created': gbook.DATES[0]}, 'custom': []}


def strip(ops):
    return [o for o in ops if o['op'] != 'save']


def content_error(R):
    """Edits after which a save is refused, and edits which mend that."""
    x = R.random()
    nm = 'Dup%d' % R.randrange(5)
    if x < .3:
        return ([{'op': 'add_sheet', 'mode': 'std'}, {'op': 'setname', 'name': nm, 's': -1}, {'op': 'add_sheet', 'mode': 'std'}, {'op': 'setname', 'name': nm.upper(), 's': -1}],
                [{'op': 'setname', 'name': 'Was ' + nm, 's': -1}])
    if x < .6:
        return ([{'op': 'add_sheet', 'mode': 'chart'}], [{'op': 'ochart', 'r': 0, 'c': 0, 'ref': 'Sheet1', 'nser': 1, 's': -1}])
    return ([{'op': 'add_sheet', 'mode': 'std'}, {'op': 'ochart', 'r': 1, 'c': 1, 'ref': nm, 'nser': 1, 's': -1}],
            [{'op': 'add_sheet', 'mode': 'std'}, {'op': 'setname', 'name': nm, 's': -1}])


ROWS = dict(num=5, str=5, bool=1, blank=2, formula=3, dynfn=.5, rich=2, url=1, checkbox=.5, setf=1, rformat=1, nanval=.3, link=1)


def by_rows(R, n):
    """Rows in order, written to worksheets which send each finished row to a
    file.  A save finishes the row (None marks where one may be made)."""
    p = Pool(R, nsheets=R.choice([1, 2]), far=0)
    out = [{'op': 'add_sheet', 'mode': R.choice(['const', 'low'])} for _ in range(p.nsheets)]
    for s in range(p.nsheets):
        out += [dict(GENS['cformat'](p), s=s) for _ in range(R.choice([0, 0, 1]))]
    row = 0
    while len(out) < n:
        row += R.choice([1, 1, 1, 2, 5])
        out.append(None)
        for _ in range(R.choice([1, 2, 3])):
            o = GENS[R.choices(list(ROWS), list(ROWS.values()))[0]](p)
            if 'r' not in o:
                continue
            out.append(dict(o, r=row, s=R.randrange(p.nsheets)))
    return out


def filtering(R):
    return strip(filter_case(R, size=10))


def edits(R, theme=None, n=18):
    """A history of edits of one kind or several, without its saves."""
    theme = theme or R.choice(['grid', 'grid', 'table', 'filter', 'book', 'book', 'objects', 'objects', 'mixed'])
    if theme == 'grid':
        e = strip(history(R, GRID, n, modes=('std',)))
    elif theme == 'table':
        e = strip(history(R, TABLE, n))
    elif theme == 'filter':
        e = filtering(R)
    elif theme == 'book':
        e = strip(gbook.book_case(R, n, BOOK, modes=('std', 'std', 'chart')))
    elif theme == 'objects':
        e = strip(gobj.object_case(R, OBJECTS, n, modes=('std', 'std', 'chart')))
    elif theme == 'const':
        e = by_rows(R, n)
    else:
        w = dict(GRID)
        w.update(table=1, headtext=1)
        e = strip(history(R, w, n))
        k = sum(o['op'] == 'add_sheet' for o in e)
        for name in ('image', 'ochart', 'shape', 'button', 'note', 'misc', 'hf'):
            for _ in range(R.choice([0, 1, 2])):
                p = gobj.OPool(R)
                o = dict(gobj.OGENS[name](p), s=R.randrange(k))
                e.insert(R.randrange(k, len(e) + 1), o)
    if R.random() < .2 and theme in ('grid', 'objects', 'mixed', 'table'):
        bad, good = content_error(R)
        k = R.randrange(len(e) + 1)
        while k < len(e) and e[k]['op'] == 'add_sheet':
            k += 1
        # Worksheets are added at the end, so that the others keep their indices.
        base = sum(o['op'] == 'add_sheet' for o in e[:k])
        if not any(o['op'] in ('add_sheet', 'remove_sheet', 'swap_sheets') for o in e[k:]):
            out, nn = [], base
            for part in (bad, [None], good):
                for o in part:
                    if o is None:
                        out += [None]
                        continue
                    if o['op'] == 'add_sheet':
                        nn += 1
                    o = dict(o)
                    if o.get('s') == -1:
                        o['s'] = nn - 1
                    out.append(o)
            j = out.index(None)
            j2 = R.randrange(k, len(e) + 1)
            e = e[:k] + out[:j] + e[k:j2] + out[j + 1:] + e[j2:]
    return json.loads(json.dumps(e))


def a_save(R):
    return {'op': 'save', 'how': R.choice(['buffer', 'writer', 'path'])}


def a_failure(R, const=False, top=250):
    x = R.random()
    if x < .6:
        return {'op': 'save_fault', 'n': R.randrange(1, top), 'sticky': R.random() < .3, 'short': R.random() < .2,
                'kind': R.choice(['other', 'zero', 'full', 'pipe']), 'buffered': R.choice([0, 0, 0, 1, 10, 1000, 8192, 100000])}
    if x < .7 and not const:
        return {'op': 'save_limit', 'n': R.choice([0, 1, 22, 100, 500, 1000, 4000, 6000])}
    return {'op': 'save_devfull'} if x < .85 else {'op': 'save_badpath'}


def with_saves(R, e, p=.15, const=False):
    """The edits, saved at the end; then again, saved here and there."""
    rows = None in e
    out = [dict(DATE)] + [o for o in e if o] + [a_save(R), {'op': 'new_wb'}, dict(DATE)]
    for o in e:
        if o:
            out.append(o)
        if R.random() < p and (not rows or o is None):
            out.append(a_save(R) if R.random() < .6 else a_failure(R, const))
    if R.random() < .3:
        out.append(a_failure(R, const))
    return json.loads(json.dumps(out + [a_save(R), a_save(R)]))


def abstract(R, h, chunks):
    """A history of the abstract model: E takes the next chunk of edits, S saves, F fails to."""
    out = []
    k = sum(a == 'E' for a in h)
    # What each part of the edits gives when only saved at its end.
    for m in range(1, k + 1):
        if any(h[j] in 'S' and sum(a == 'E' for a in h[:j]) == m for j in range(len(h))) or m == k:
            out += [{'op': 'new_wb'}, dict(DATE)] + [o for c in chunks[:m] for o in c] + [a_save(R)]
    out += [{'op': 'new_wb'}, dict(DATE)]
    m = 0
    for a in h:
        if a == 'E':
            out += chunks[m]
            m += 1
        else:
            out.append(a_save(R) if a == 'S' else a_failure(R))
    return json.loads(json.dumps(out + [a_save(R)]))


def cut(R, e, k):
    at = sorted(R.randrange(1, len(e)) for _ in range(k - 1)) if len(e) > 1 else [0] * (k - 1)
    at = [0] + at + [len(e)]
    return [e[a:b] for a, b in zip(at, at[1:])]


def faults(R, e, total, kinds, step=1, first=1):
    """One save per possible failing call of the output, and a whole one now and then."""
    out = [dict(DATE)] + e + [{'op': 'save', 'how': 'writer'}]
    for j, n in enumerate(range(first, total + 1, step)):
        k = kinds[j % len(kinds)]
        out.append(dict({'op': 'save_fault', 'n': n}, **k))
        if j % 7 == 6:
            out.append(a_save(R))
    return json.loads(json.dumps(out + [a_save(R)]))
