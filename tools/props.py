"""What each check runs: which models are explored and which histories are
executed and validated."""
import json
from gen import *
import gbook, gcharts, gdates, gform, gobj, gpack, gresave, grules, gsched, gser, gtexts
from xlsx import col_name as col_letters

GENS['fc'] = gform.g_fc
PROPS = {}


def prop(fn):
    PROPS[fn.__name__] = fn
    return fn


SAVE = {'op': 'save', 'how': 'buffer'}
STD = [{'op': 'add_sheet', 'mode': 'std'}]


def mc_cases(ctx, module, view, start=STD, limit=None, tail=(SAVE,), **kw):
    """Every history TLC found, replayed and followed by a save."""
    hs = ctx.explore(module, **kw)
    if limit and len(hs) > limit:
        ctx.R.shuffle(hs)
        hs = hs[:limit]
    return [{'id': '%s-%d' % (module, k), 'ops': json.loads(json.dumps(list(start))) + h + json.loads(json.dumps(list(tail))), 'view': view}
            for k, h in enumerate(hs)]


def packed(ctx, module, view, limit=None, size=25, mode='std', **kw):
    """The same, with every history on a worksheet of its own and many of them in one workbook."""
    hs = ctx.explore(module, **kw)
    seen = {json.dumps(h[:-1]) for h in hs}
    hs = [h for h in hs if json.dumps(h) not in seen]      # histories that others extend add nothing
    if limit and len(hs) > limit:
        ctx.R.shuffle(hs)
        hs = hs[:limit]
    out = []
    for k in range(0, len(hs), size):
        part = hs[k:k + size]
        ops = [{'op': 'add_sheet', 'mode': mode} for _ in part]
        for n, h in enumerate(part):
            ops += [dict(json.loads(json.dumps(o)), s=n) for o in h]
        out.append({'id': '%s-%d' % (module, k), 'ops': ops + [dict(SAVE)], 'view': view})
    return out


def rand_cases(ctx, n, weights, view, size=25, tag='r', **kw):
    return [{'id': '%s%d' % (tag, k), 'ops': history(ctx.R, weights, size, **kw), 'view': view} for k in range(n)]


CONTENT = dict(num=5, str=5, bool=1, blank=2, formula=3, dynfn=.5, array=1, dynformula=.5, rich=2, seq=1, merge=1, setres=1,
               setresd=.3, clear=1, url=.5, nanval=.3)
FORMAT = dict(num=3, str=3, bool=1, blank=2, formula=2, dynfn=.5, array=1, dynformula=.5, rich=1.5, seq=1, merge=1, url=.5, checkbox=.7,
              rformat=2, cformat=2, nanval=.2)


@prop
def C01(ctx):
    ctx.conform(packed(ctx, 'MC_Cells', ['c', 'x']))
    ctx.conform(rand_cases(ctx, ctx.n(500), CONTENT, ['c']))


@prop
def C02(ctx):
    ctx.conform(rand_cases(ctx, ctx.n(500), dict(str=8, rich=4, blank=.5, num=.5, clear=1, merge=1, url=1, srow=1, nanval=.3),
                           ['sst', 'c'], save_p=.12))


@prop
def C03(ctx):
    ctx.conform(rand_cases(ctx, ctx.n(600), FORMAT, ['x', 'row', 'col'] if 0 else ['x']))


@prop
def C04(ctx):
    ctx.conform(packed(ctx, 'MC_Reformat', ['x', 'c', 'merge']))
    ctx.conform(rand_cases(ctx, ctx.n(500), dict(num=2, str=2, blank=1, formula=1, rich=1, array=.5, merge=1, clear=1, clearf=2, setf=3,
                                                 setrf=2, setrfb=3, rformat=.7, cformat=.7), ['x', 'c', 'merge']))


@prop
def C05(ctx):
    w = dict(num=3, str=3, bad=10, merge=3, autofilter=1, rformat=.5, cformat=.5, rowprop=1, colprop=1, array=1)
    ctx.conform(rand_cases(ctx, ctx.n(500), w, ['c', 'x', 'row', 'col', 'merge', 'af', 'link']), lax=False)


@prop
def C07(ctx):
    ctx.conform(packed(ctx, 'MC_Ranges', ['merge'], size=100), lax=False)
    ctx.conform(packed(ctx, 'MC_Areas', ['merge', 'table', 'c', 'af'], size=60, limit=None if ctx.thorough else 3000), lax=False)
    ctx.conform(rand_cases(ctx, ctx.n(400), dict(num=1, str=1, merge=6, autofilter=1, bad=.3), ['c', 'merge', 'af']), lax=False)
    ctx.conform(rand_cases(ctx, ctx.n(150), dict(merge=4, table=3, autofilter=1, headtext=1), ['c', 'merge', 'af', 'table'], size=14, tag='t'), lax=False)


@prop
def C08(ctx):
    w = dict(table=5, headtext=5, str=1, num=1, formula=.3, autofilter=.5, cformat=.4, rformat=.3)
    ctx.conform(rand_cases(ctx, ctx.n(700), w, ['table', 'c', 'x'], size=14), lax=False)
    ctx.conform(rand_cases(ctx, ctx.n(150), dict(table=5, headtext=4, num=2), ['table', 'c', 'x'], size=10, modes=('const', 'low'), tag='m'), lax=False)


@prop
def C09(ctx):
    ctx.conform([{'id': 'f%d' % k, 'ops': filter_case(ctx.R), 'view': ['filter', 'row', 'af', 'c']} for k in range(ctx.n(1500))], lax=False)


@prop
def C17(ctx):
    w = dict(num=2, str=2, rformat=2, cformat=2, rowprop=6, colprop=6, rdefault=.6, bad=.3)
    ctx.conform(rand_cases(ctx, ctx.n(500), w, ['row', 'col']))


@prop
def C24(ctx):
    w = dict(link=8, str=1, num=.5, clear=.3, merge=.3)
    ctx.conform(rand_cases(ctx, ctx.n(1200), w, ['c', 'x', 'link'], modes=('std', 'std', 'low', 'const')), lax=False)


ORDERED = dict(num=5, str=5, bool=1, blank=2, formula=3, dynfn=.5, array=1, dynformula=.5, rich=2, seq=1, merge=1, url=1, checkbox=.5,
               setf=1, rformat=1, rowprop=2, nanval=.3)


def three(ops):
    """The same calls on a standard, a low memory and a constant memory worksheet."""
    out = [{'op': 'add_sheet', 'mode': m} for m in ('std', 'low', 'const')]
    for o in ops:
        if o['op'] == 'save':
            out.append(o)
        else:
            out += [json.loads(json.dumps(dict(o, s=k))) for k in range(3)]
    return out


def row_ordered(R, n):
    p = Pool(R, nsheets=1, far=.05)
    ops = [GENS['cformat'](p) for _ in range(R.choice([0, 0, 1, 2]))]
    body = []
    kinds = list(ORDERED)
    for _ in range(n):
        o = GENS[R.choices(kinds, [ORDERED[k] for k in kinds])[0]](p)
        if o['op'] in ('rgroup', 'rgroupc'):
            o = {'op': 'rhide', 'r': o['r']}
        body.append(o)
    key = {id(o): o.get('r', -1) for o in body}
    body.sort(key=lambda o: key[id(o)])
    front = 0
    for o in body:
        # Rows below the first written one by a call go ahead of the window.
        ops.append(o)
    ops.append({'op': 'save', 'how': R.choice(['buffer', 'path'])})
    if R.random() < .2:
        ops.append({'op': 'save', 'how': 'buffer'})
    return three(ops)


@prop
def C06(ctx):
    view = ['c', 'x', 'row', 'col', 'link', 'merge', 'lowmem']
    hs = ctx.explore('MC_Modes')
    if not ctx.thorough and len(hs) > 4000:
        ctx.R.shuffle(hs)
        hs = hs[:4000]
    ctx.conform([{'id': 'modes-%d' % k, 'ops': three(h + [SAVE]), 'view': view} for k, h in enumerate(hs)])
    ctx.conform([{'id': 'o%d' % k, 'ops': row_ordered(ctx.R, 20), 'view': view} for k in range(ctx.n(500))])
    w = dict(CONTENT, setres=0, clearf=1, setf=1, setrf=.6, setrfb=.6, rformat=1.5, cformat=1.5, autofilter=.2, rowprop=2, colprop=1, bad=.5)
    ctx.conform(rand_cases(ctx, ctx.n(800), w, view, modes=('const', 'low', 'std')))


@prop
def C21(ctx):
    hs = ctx.explore('MC_Refs')
    dec = lambda t: chr(int(t[1:-1], 16)) if len(t) > 1 else t
    names = [''.join(map(dec, h[-1])) for h in hs]
    cases = [{'id': 'n%d' % k, 'ops': [{'op': 'quote', 'name': n} for n in names[k:k + 100]] + [{'op': 'checkname', 'name': n} for n in names[k:k + 100]]}
             for k in range(0, len(names), 100)]
    for lo in range(0, 16384, 512):
        cols = [col_letters(c) for c in range(lo, lo + 512)]
        cases.append({'id': 'c%d' % lo, 'ops': [{'op': 'colnames', 'lo': lo, 'hi': lo + 511}, {'op': 'colnums', 'names': cols}]})
    cases += [{'id': 'p%d' % k, 'ops': pure_case(ctx.R, 60)} for k in range(ctx.n(300))]
    ctx.conform([dict(c, valobs=True) for c in cases], 'TracePure', lax=False)


def book_cases(ctx, n, weights, view, size=25, **kw):
    return [{'id': 'b%d' % k, 'ops': gbook.book_case(ctx.R, size, weights, **kw), 'view': view, 'viewer': 'book', 'valobs': True} for k in range(n)]


@prop
def C12(ctx):
    hs = ctx.explore('MC_Tabs', cfg='MC_Tabs5.cfg' if ctx.thorough else None)
    cap = 60000 if ctx.thorough else 6000
    if len(hs) > cap:
        ctx.R.shuffle(hs)
        hs = hs[:cap]
    ctx.conform([{'id': 'tabs-%d' % k, 'ops': [dict(o) for o in STD + STD] + h + [dict(SAVE)], 'view': ['tabs'], 'viewer': 'book', 'valobs': True}
                 for k, h in enumerate(hs)], 'TraceBook', lax=False)
    w = dict(tab=6, add=1.5, spare=.7, push=.7, swap=.7, remove=.5, setname=2, name=.5, lookup=1, content=.3)
    ctx.conform(book_cases(ctx, ctx.n(800), w, ['tabs']), 'TraceBook', lax=False)


@prop
def C13(ctx):
    w = dict(area=4, define=4, setname=1.5, add=.7, swap=.3, remove=.3, tab=1, spare=.2, push=.3)
    ctx.conform(book_cases(ctx, ctx.n(800), w, ['names', 'tabs']), 'TraceBook', lax=False)


@prop
def C18(ctx):
    w = dict(setting=12, add=.3, wbvba=.3, macros=.4, swap=.2, content=.5)
    ctx.conform(book_cases(ctx, ctx.n(800), w, ['set'], size=30), 'TraceBook', lax=False)


@prop
def C27(ctx):
    w = dict(props=4, ro=.5, tab=1, add=.5, setname=.5)
    ctx.conform(book_cases(ctx, ctx.n(500), w, ['doc'], size=6, save_p=.25), 'TraceBook', lax=False)


@prop
def C28(ctx):
    w = dict(prot=10, add=.5, swap=.2)
    ctx.conform(book_cases(ctx, ctx.n(600), w, ['prot'], size=14), 'TraceBook', lax=False)


@prop
def C22(ctx):
    ctx.explore('MC_Dates', cfg='MC_DatesAll.cfg' if ctx.thorough else None)
    edge = [1899, 1900, 1901, 1904, 1999, 2000, 2001, 2099, 2100, 2101, 2399, 2400, 2401, 9996, 9998, 9999, 10000]
    years = list(range(1899, 10001)) if ctx.thorough else sorted(set(edge + list(range(1960, 2050)) + ctx.R.sample(range(1900, 10000), 200)))
    cases = []
    for y in years:
        cases.append({'id': 'y%d' % y, 'ops': [{'op': 'd_year', 'y': y, 'how': how} for how in (['ymd', 'parse'] + (['chrono', 'ts'] if 1900 <= y <= 9999 else []))]})
    cases += [{'id': 'd%d' % k, 'ops': [gdates.date_op(ctx.R) for _ in range(60)]} for k in range(ctx.n(400))]
    ctx.conform([dict(c, valobs=True) for c in cases], 'TracePure', lax=False)


@prop
def C23(ctx):
    cover = [{'id': 'fn-%d' % k, 'view': ['c'], 'ops': [dict(STD[0])] + [
        {'op': 'formula', 's': 0, 'r': n, 'c': c, 'chars': True, 'v': t % f} for n, f in enumerate((gform.FUTURE + gform.PLAIN)[k:k + 20])
        for c, t in enumerate(('=%s(A1)', '=%s', '=x%s(A1)', '=%sX(A1)', '="%s("&A1', '=_xlfn.%s(1)', '={%s(A1)}*{1,2}', '=SUM(%s(A1))'))] + [dict(SAVE)]}
        for k in range(0, len(gform.FUTURE + gform.PLAIN), 20)]
    ctx.conform(cover)
    ctx.conform(rand_cases(ctx, ctx.n(500), dict(fc=10, clear=.2), ['c'], modes=('std', 'std', 'low', 'const')))


OBJECTS = dict(image=4, ochart=3, shape=3, button=2, note=3, misc=1, hf=2, embed=1.5, size=1, content=1.5, bad=.3)


def obj_cases(ctx, n, weights, view, size=20, tag='o', **kw):
    return [{'id': '%s%d' % (tag, k), 'ops': gobj.object_case(ctx.R, weights, size, **kw), 'view': view, 'viewer': 'objects'} for k in range(n)]


def obj_histories(ctx, view):
    cs = mc_cases(ctx, 'MC_Objects', view, cfg='MC_Objects4' if ctx.thorough else None, limit=None if ctx.thorough else 1500)
    return [dict(c, viewer='objects') for c in cs]


@prop
def C11(ctx):
    view = ['obj', 'c', 'x', 'link']
    ctx.conform(obj_histories(ctx, view), 'TraceObjects')
    ctx.conform(obj_cases(ctx, ctx.n(700), OBJECTS, view, save_p=.12), 'TraceObjects', lax=False)
    ctx.conform(obj_cases(ctx, ctx.n(100), OBJECTS, view, size=60, tag='big', save_p=.05), 'TraceObjects', lax=False)
    # Objects past the 1024 ids of a block.
    ctx.conform([{'id': 'block%d' % k, 'view': ['obj'], 'viewer': 'objects', 'ops': gobj.block_case(ctx.R)} for k in range(2)], 'TraceObjects', lax=False)


@prop
def C29(ctx):
    view = ['geo']
    ctx.conform(obj_histories(ctx, view), 'TraceObjects')
    w = dict(image=4, fit=1.5, ochart=2, shape=2, button=2, note=2, size=8, content=.5)
    ctx.conform(obj_cases(ctx, ctx.n(900), w, view, save_p=.1), 'TraceObjects', lax=False)


def resave(k, ops, tag='r'):
    return {'id': '%s%d' % (tag, k), 'ops': ops, 'viewer': 'resave', 'view': []}


@prop
def C14(ctx):
    R = ctx.R
    hs = ctx.explore('MC_Resave', cfg='MC_Resave8.cfg' if ctx.thorough else None)
    hs = [h for h in hs if 'E' in h]
    full = max(map(len, hs))
    hs = [h for h in hs if len(h) == full]
    cases = []
    for k, h in enumerate(hs):
        e = gresave.edits(R, n=R.choice([6, 12, 18]))
        cases.append(resave(k, gresave.abstract(R, h, gresave.cut(R, e, sum(a == 'E' for a in h))), 'm'))
    ctx.conform(cases, 'TraceResave', lax=False, chunk=20)
    cases = [resave(k, gresave.with_saves(R, gresave.edits(R))) for k in range(ctx.n(700))]
    cases += [resave(k, gresave.with_saves(R, gresave.edits(R, 'const', 25), .3, True), 'c') for k in range(ctx.n(200))]
    ctx.conform(cases, 'TraceResave', lax=False, chunk=20)


@prop
def C15(ctx):
    R = ctx.R
    kinds = [{'kind': 'other'}, {'kind': 'other', 'sticky': True}, {'kind': 'zero'}, {'kind': 'full'}, {'kind': 'pipe'}, {'kind': 'other', 'short': True},
             {'kind': 'other', 'buffered': 64}, {'kind': 'full', 'buffered': 8192}]
    # How many calls a save makes, then one save for each which fails.
    themes = ['grid', 'objects', 'const', 'mixed', 'book', 'table']
    base = [[o for o in gresave.edits(R, themes[k % len(themes)], 10) if o] for k in range(ctx.n(12, 60))]
    probe = [resave(k, [dict(gresave.DATE)] + e + [{'op': 'save_fault', 'n': 0, 'short': True}], 'calls') for k, e in enumerate(base)]
    ctx.conform(probe, 'TraceResave', lax=False, chunk=1)
    by = {c['id']: c for c in ctx.ran}
    cases = []
    for k, e in enumerate(base):
        v = by['calls%d' % k]['vals'][-1]
        total = (v or {}).get('calls', 0)
        top, step, j = total + 3, 25, 0
        for first in range(1, top, step):
            ks = kinds[j % len(kinds):] + kinds[:j % len(kinds)]
            j += 3
            cases.append(resave(len(cases), gresave.faults(R, e, min(first + step - 1, top), ks, first=first), 'sweep'))
    ctx.conform(cases, 'TraceResave', lax=False, chunk=10)
    cases = []
    for k in range(ctx.n(300)):
        t = R.choice(['grid', 'objects', 'mixed', 'book', 'table', 'const'])
        cases.append(resave(k, gresave.with_saves(R, gresave.edits(R, t, 10), .5, t == 'const'), 'f'))
    for k in range(ctx.n(30)):
        e = gresave.edits(R, R.choice(['grid', 'objects', 'book']), 8)
        out = [dict(gresave.DATE)] + e + [dict(SAVE)]
        for n in range(R.randrange(40), 12000, R.choice([150, 300, 700])):
            out.append({'op': 'save_limit', 'n': n})
        cases.append(resave(k, out + [{'op': 'save', 'how': 'path'}], 'limit'))
    ctx.conform(cases, 'TraceResave', lax=False, chunk=20)


def rule_histories(ctx, view):
    hs = ctx.explore('MC_Rules', cfg='MC_Rules4.cfg' if ctx.thorough else None)
    full = max(map(len, hs))
    hs = [h for h in hs if len(h) == full]
    cap = 40000 if ctx.thorough else 4000
    if len(hs) > cap:
        ctx.R.shuffle(hs)
        hs = hs[:cap]
    ctx.conform([{'id': 'rules-%d' % k, 'ops': [dict(STD[0])] + json.loads(json.dumps(h)) + [dict(SAVE)], 'view': view, 'viewer': 'rules'} for k, h in enumerate(hs)],
                'TraceRules', lax=False)


def rule_cases(ctx, n, weights, view, size=14, tag='k', **kw):
    ctx.conform([{'id': '%s%d' % (tag, k), 'ops': grules.rule_case(ctx.R, weights, size, **kw), 'view': view, 'viewer': 'rules'} for k in range(n)], 'TraceRules', lax=False)


@prop
def C19(ctx):
    view = ['cf', 'dv']
    rule_histories(ctx, view)
    rule_cases(ctx, ctx.n(700), dict(cf=1), view, tag='cf')
    rule_cases(ctx, ctx.n(500), dict(dv=1), view, tag='dv')
    rule_cases(ctx, ctx.n(500), dict(cf=6, dv=3, sparkline=1, str=.5, num=.5), view, tag='m', save_p=.12, modes=('std', 'std', 'low', 'const'))


@prop
def C30(ctx):
    view = ['sl']
    rule_histories(ctx, view)
    rule_cases(ctx, ctx.n(500), dict(sparkline=1), view, tag='s')
    rule_cases(ctx, ctx.n(500), dict(sparkgroup=1), view, tag='g')
    rule_cases(ctx, ctx.n(500), dict(sparkline=3, sparkgroup=3, cf=2, dv=.5), view, tag='m', save_p=.12, modes=('std', 'std', 'low', 'const'))


CHART_START = STD + [{'op': 'setname', 'name': 'S1', 's': 0}]
CHART_CELLS = [{'op': 'num', 's': 0, 'r': 0, 'c': 0, 'v': '7.0'}, {'op': 'str', 's': 0, 'r': 0, 'c': 1, 'v': 't'}]


def chart_types(ctx, view):
    ctx.conform([dict(c, viewer='charts') for c in mc_cases(ctx, 'MC_ChartTypes', view, start=CHART_START + CHART_CELLS)], 'TraceCharts', lax=False)


@prop
def C26(ctx):
    view = ['c', 'res', 'chart']
    cap = 20000 if ctx.thorough else 3000
    ctx.conform([dict(c, viewer='charts') for c in mc_cases(ctx, 'MC_Charts', view, start=CHART_START, limit=cap, cfg='MC_Charts4.cfg' if ctx.thorough else None)],
                'TraceCharts', lax=False)
    chart_types(ctx, view)
    ctx.conform([{'id': 'h%d' % k, 'ops': gcharts.chart_history(ctx.R), 'view': view, 'viewer': 'charts'} for k in range(ctx.n(600))], 'TraceCharts', lax=False)
    ctx.conform([{'id': 'p%d' % k, 'ops': gcharts.chart_history(ctx.R, opts=.1), 'view': view, 'viewer': 'charts'} for k in range(ctx.n(300))], 'TraceCharts', lax=False)


@prop
def C31(ctx):
    view = ['chart']
    chart_types(ctx, view)
    ctx.conform([{'id': 'o%d' % k, 'ops': gcharts.option_history(ctx.R), 'view': view, 'viewer': 'charts'} for k in range(ctx.n(1400))], 'TraceCharts', lax=False)


@prop
def C25(ctx):
    view = ['c', 'x', 'row', 'col', 'table']
    cap = 30000 if ctx.thorough else 2500
    hs = ctx.explore('MC_Serial', cfg='MC_Serial5.cfg' if ctx.thorough else None)
    full = max(map(len, hs))
    hs = [h for h in hs if len(h) == full]
    if len(hs) > cap:
        ctx.R.shuffle(hs)
        hs = hs[:cap]
    ctx.conform([{'id': 'serial-%d' % k, 'ops': [{'op': 'add_sheet', 'mode': 'std' if k % 4 else 'const'}] + json.loads(json.dumps(h)) + [dict(SAVE)],
                  'view': view, 'valobs': True} for k, h in enumerate(hs)], 'TraceSerial', lax=False)
    ctx.conform([{'id': 's%d' % k, 'ops': gser.serial_case(ctx.R, tables=k % 3 > 0, save_p=.08, modes=('std', 'std', 'low', 'const')), 'view': view, 'valobs': True}
                 for k in range(ctx.n(1200))], 'TraceSerial', lax=False)


@prop
def C20(ctx):
    hs = ctx.explore('MC_Texts', cfg='MC_Texts4.cfg' if ctx.thorough else None)
    texts = [''.join(gtexts.CHARS.get(c, c) for c in h[0]['chars']) for h in hs]
    texts = sorted(set(texts))
    ctx.conform([{'id': 'all-%d' % k, 'ops': ops, 'view': ['text'], 'viewer': 'texts'} for k, ops in enumerate(gtexts.spread(texts))], 'TraceTexts', lax=False)
    ctx.conform([{'id': 't%d' % k, 'ops': gtexts.text_case(ctx.R), 'view': ['text'], 'viewer': 'texts'} for k in range(ctx.n(3000))], 'TraceTexts', lax=False)


@prop
def C10(ctx):
    hs = ctx.explore('MC_Package', cfg='MC_Package3.cfg' if ctx.thorough else None)
    cap = 12000 if ctx.thorough else 900
    if len(hs) > cap:
        ctx.R.shuffle(hs)
        hs = hs[:cap]
    some = [gpack.combination(ctx.R, [(e['s'], e['f']) for e in h], ["std", "const", "chart"]) for h in hs]
    for _ in range(ctx.n(400)):
        ms = [ctx.R.choice(['std', 'low', 'const'])] + [ctx.R.choice(['std', 'std', 'chart', 'low', 'const']) for _ in range(ctx.R.choice([0, 1, 2, 3]))]
        some.append(gpack.combination(ctx.R, [(ctx.R.randrange(len(ms)), ctx.R.choice(gpack.FEATURES + gpack.BOOKWIDE + ['save'] * 3))
                                              for _ in range(ctx.R.choice([3, 6, 10]))], ms))
    ctx.conform([{'id': 'shape-%d' % k, 'ops': ops, 'view': ['shape'], 'viewer': 'package'} for k, ops in enumerate(some)], 'TraceShape', lax=False)
    ctx.conform([{'id': 'p%d' % k, 'ops': gpack.package_case(ctx.R), 'view': [], 'viewer': 'package'} for k in range(ctx.n(900))], 'TracePackage', lax=False)


@prop
def C16(ctx):
    R = ctx.R
    view = ['c', 'x']
    # Every schedule of short programs; with them, any others.
    hs = [h[0] for h in ctx.explore('MC_Schedule', cfg='MC_Schedule3.cfg' if ctx.thorough else None)]
    cap = 20000 if ctx.thorough else 2500
    if len(hs) > cap:
        R.shuffle(hs)
        hs = hs[:cap]
    ctx.conform([{'id': 'sched-%d' % k, 'ops': gsched.schedule_case(R, h), 'view': view} for k, h in enumerate(hs)])
    ctx.conform([{'id': 'crowd-%d' % k, 'ops': gsched.crowd(R, R.choice([2, 3, 4, 6]), R.choice([5, 15, 40])), 'view': view} for k in range(ctx.n(120))], chunk=15)
    cases = []
    for k in range(ctx.n(250)):
        n = R.choice([2, 3, 4])
        e = history(R, gsched.FRESH, R.choice([20, 50]), modes=('std', 'low', 'low', 'const'), pool=Pool(R, nsheets=n, far=0), save_p=.03)
        cases.append({'id': 'free-%d' % k, 'ops': gsched.threaded(R, e), 'view': view})
    ctx.conform(cases)
    # Worksheets assembled in every order, and the same program once more.
    orders = [h[0]['pack'] for h in ctx.explore('MC_Schedule', cfg='MC_SchedulePack5.cfg' if ctx.thorough else 'MC_SchedulePack.cfg')]
    cases = []
    for k, p in enumerate(orders * ctx.n(4)):
        e = gresave.strip([o for o in gresave.edits(R, R.choice(['grid', 'objects', 'mixed', 'book', 'table']), 14) if o])
        save = [{'op': 'save', 'how': 'buffer'}, {'op': 'save', 'how': 'writer', 'porder': [i - 1 for i in p]}, {'op': 'save', 'how': 'buffer', 'porder': [i - 1 for i in reversed(p)]}]
        cases.append(resave(k, [dict(gresave.DATE)] + e + save, 'pack'))
    ctx.conform(cases, 'TraceResave', lax=False, chunk=10)
    cases = []
    for k in range(ctx.n(300)):
        t = R.choice(['grid', 'objects', 'mixed', 'book', 'table', 'const', 'filter', None])
        e = [o for o in gresave.edits(R, t, 14) if o] if t else gresave.strip(gpack.zoo(R))
        e = gresave.strip(e) if R.random() < .5 else gresave.with_saves(R, e, .2, t == 'const')[1:]
        once = [dict(gresave.DATE)] + e + [dict(SAVE)]
        cases.append(resave(k, once + [{'op': 'new_wb'}] + json.loads(json.dumps(once)), 'again'))
    ctx.conform(cases, 'TraceRepeat', lax=False, chunk=10)
