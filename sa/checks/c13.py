from ..wsheet import sheet, VIEW, VIEW_ATTRS
from ..codec import check_spec, check_parent, order_rule, dup_check

EXPLAIN = ('The worksheet reader and writer are interpreted in one abstract state (guarded value flow over MIR); each '
           'attribute of every written <sheetView> is compared, for every token class of the attribute read, with the meaning the schema gives it.')
RULE = 'sheetView attribute written == sheetView attribute read; every view once, in order; default view only without views'


def run(ctx):
    sc = sheet(ctx)
    if sc is None:
        return
    n = check_spec(ctx, sc, 'sheetView', VIEW, VIEW_ATTRS, mandatory=('workbookViewId',))
    ctx.need('written <sheetView> elements', n, 1)
    if not order_rule(ctx, sc, 'sheetView'):
        ctx.unknown('order of <sheetView> records', 'records are not queued in a list')
    check_parent(ctx, sc, 'sheetView', ['sheetViews'])
    dup_check(ctx, sc, ['sheetView', 'sheetViews'])
