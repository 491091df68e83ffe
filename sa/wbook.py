"""Workbook part: schema tables and the load / operate / save scenario, driven through the public Excel methods."""
from .codec import Scenario
from .wsheet import B
from . import pkg

VIEW = dict(activeTab=('num', '0'), firstSheet=('num', '0'), tabRatio=('num', '600'),
            visibility=('enum', ['visible', 'hidden', 'veryHidden'], 'visible'), minimized=B(),
            showSheetTabs=B(True), showVerticalScroll=B(True), showHorizontalScroll=B(True),
            autoFilterDateGrouping=B(True), xWindow=('num',), yWindow=('num',), windowWidth=('num',), windowHeight=('num',))
VIEW_ATTRS = list(VIEW)
SHEET = {'name': ('str',), 'sheetId': ('num',), 'r:id': ('str',), 'state': ('enum', ['visible', 'hidden', 'veryHidden'], 'visible')}
SHEET_ATTRS = list(SHEET)


def excel(P):
    at = pkg.field(P, 'Excel', 'workbook')
    for t in P.types:
        if t['k'] == 'adt' and t.get('name', '').endswith('::Excel'):
            fs = t['v'][0]['f']
            if at is None:
                at = [i for i, (n, ty) in enumerate(fs) if P.types[ty].get('name', '').endswith('::WorkbookPart')][0]
            return t['name'], at, len(fs)
    return None


def workbook(ctx, setters=(), close=True, strict=False):
    new = ctx.impl('XmlDocumentPart', 'WorkbookPart', 'new')
    cl = ctx.impl('XmlDocumentPartCommon', 'WorkbookPart', 'close_document')
    h = excel(ctx.P)
    ctx.need('workbook load/save entry points', int(new is not None) + int(cl is not None) + int(h is not None), 3)
    if new is None or cl is None or h is None:
        return None
    sc = Scenario(ctx.P, new, cl if close else None, setters, holder=h, strict=strict)
    ctx.count('functions analysed', len(sc.E.fns_seen))
    ctx.count('calls resolved', sc.E.calls_seen)
    for n in sc.E.notes:
        ctx.notes.append(n)
    return sc
