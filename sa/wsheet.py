"""Worksheet part: schema tables and the shared load/save scenario."""
from .codec import Scenario


def B(d=False):
    return ('bool', d)


COL = dict(min=('num',), max=('num',), width=('num',),
           customWidth=dict(type=B(), given={'width': '?'}),
           style=('num', '0'), hidden=B(), bestFit=B(), outlineLevel=('num', '0'), collapsed=B())
COL_ATTRS = 'min max width style hidden bestFit customWidth phonetic outlineLevel collapsed'.split()
VIEW = dict(workbookViewId=('str',), windowProtection=B(), showFormulas=B(), showGridLines=B(True),
            showRowColHeaders=B(True), showZeros=B(True), rightToLeft=B(), tabSelected=B(), showRuler=B(True),
            showWhiteSpace=B(True), showOutlineSymbols=B(True), defaultGridColor=B(True), topLeftCell=('str',),
            view=('enum', ['normal', 'pageBreakPreview', 'pageLayout'], 'normal'), zoomScale=('num', '100'),
            zoomScaleNormal=('num', '0'), zoomScaleSheetLayoutView=('num', '0'), zoomScalePageLayoutView=('num', '0'))
VIEW_ATTRS = list(VIEW) + ['colorId']
ROW = dict(r=('num',), spans=('str',), s=dict(type=('num', '0'), given={'customFormat': '1'}),
           customFormat=dict(type=B(), given={'s': '?'}), ht=dict(type=('num',), given={'customHeight': '1'}),
           customHeight=dict(type=B(), given={'ht': '?'}), hidden=B(), outlineLevel=('num', '0'), collapsed=B(),
           thickTop=B(), thickBot=B(), ph=B())
ROW_ATTRS = list(ROW)
CELL = dict(s=('num', '0'), t=('enum', ['b', 'n', 'e', 's', 'str', 'inlineStr', 'd'], 'n'), cm=('num', '0'),
            vm=('num', '0'), ph=B())
CELL_ATTRS = list(CELL) + ['r']


def sheet(ctx):
    new = ctx.fn('WorkSheet::new')
    close = ctx.impl('XmlDocumentPartCommon', 'WorkSheet', 'close_document')
    ctx.need('worksheet load/save entry points', int(new is not None) + int(close is not None), 2)
    if new is None or close is None:
        return None
    sc = Scenario(ctx.P, new, close)
    ctx.count('functions analysed', len(sc.E.fns_seen))
    ctx.count('calls resolved', sc.E.calls_seen)
    for n in sc.E.notes:
        ctx.notes.append(n)
    ctx.notes.append('unmodelled callees: %s' % sorted(set(sc.unknown_new) | set(sc.E.unknown)))
    return sc
