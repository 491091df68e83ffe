from ..engine import Agg, Dead, Engine, Ref, State, Str, fmt, mk

EXPLAIN = ('Both conversion functions of every enumeration are interpreted (abstract interpretation of MIR) on every variant, on every token their code distinguishes and on a symbolic '
           'unknown token; the results are compared with the token tables of the file-format standard. The boolean token functions are decided the same way.')
RULE = 'written token == the token the standard gives the value; tokens distinct; reading the token gives the value back; unknown tokens give the default; true/1 on, 0/false off, on is written 1'

NUM = dict(zip('''General Integer DecimalTwoPlaces ThousandsSeparator ThousandsSeparatorTwoDecimals CurrencyNoDecimals CurrencyNoDecimalsRed CurrencyTwoDecimals
CurrencyTwoDecimalsRed Percentage PercentageTwoDecimals Scientific FractionOneDigit FractionTwoDigits DateMMDDYY DateDMmmYY DateDMmm DateMmmYY Time12Hour
Time12HourWithSeconds Time24Hour Time24HourWithSeconds DateTimeMMDDYY'''.split(), map(str, range(23))))
NUM.update(zip('''AccountingNoDecimals AccountingNoDecimalsRed AccountingTwoDecimals AccountingTwoDecimalsRed AccountingNegativeInParentheses
AccountingTwoDecimalsNegativeInParentheses AccountingAlignedSymbols AccountingAlignedSymbolsTwoDecimals TimeMinutesSeconds TimeHoursMinutesSeconds
ElapsedTimeWithFractions ScientificOneDecimal TextFormat'''.split(), map(str, range(37, 50))))
BORDER = {t[0].upper() + t[1:]: t for t in '''dashDot dashDotDot dashed dotted double hair medium mediumDashDot mediumDashDotDot mediumDashed slantDashDot thick thin none'''.split()}
PATTERN = {t[0].upper() + t[1:]: t for t in '''none solid mediumGray darkGray lightGray darkHorizontal darkVertical darkDown darkUp darkGrid darkTrellis lightHorizontal
lightVertical lightDown lightUp lightGrid lightTrellis gray125 gray0625'''.split()}
# enumeration -> ({variant (lower case): token}, default for tokens without a value)
TABLES = {
    'NumberFormatValues': (NUM, 'Custom'),
    'FontSchemeValues': (dict(Major='major', Minor='minor', None_='none'), 'None'),
    'PatternTypeValues': (PATTERN, 'None'),
    'BorderStyleValues': (BORDER, 'None'),
    'ColorSettingTypeValues': (dict(Theme='theme', Rgb='rgb', Indexed='indexed', Auto='auto'), None),
    'HorizontalAlignmentValues': (dict(Left='left', Center='center', Right='right', Justify='justify', General='general', Fill='fill', CenterContinuous='centerContinuous',
                                       Distributed='distributed'), 'None'),
    'VerticalAlignmentValues': (dict(Top='top', Middle='center', Center='center', Bottom='bottom', Justify='justify', Distributed='distributed'), 'None'),
    'CellDataType': (dict(Boolean='b', Number='n', Error='e', ShareString='s', String='str', InlineString='inlineStr', Date='d'), 'Number'),
}
# values that stand for an attribute that is left out
NOTOKEN = {('HorizontalAlignmentValues', 'none'), ('VerticalAlignmentValues', 'none'), ('NumberFormatValues', 'custom'), ('CellDataType', 'auto')}


def run(ctx):
    P = ctx.P
    pairs = {}
    for fn in P.lib.values():
        m = fn.short.split('::')[-1]
        if ' as ' in fn.short and 'Enum<' in fn.short and m in ('get_string', 'get_enum') and not fn.closure:
            pairs.setdefault(fn.short.split(' as ')[0].lstrip('<').split('::')[-1], {})[m] = fn
    ctx.need('enumerations with both conversions', sum(len(x) == 2 for x in pairs.values()), 6)
    for name, p in sorted(pairs.items()):
        if len(p) == 2:
            enum(ctx, name, p['get_string'], p['get_enum'])
    flags(ctx)


def call(P, fn, arg):
    E = Engine(P)
    st = State(1, {})
    if P.types[fn.locals[1][0]]['k'] == 'ref' and arg.op != 'str' and arg.op != 'S':
        st.st[('H', 'a')] = arg
        arg = Ref(('H', 'a'))
    try:
        r = E.deep(st, E.call_fn(st, fn, [arg], ('m', 0, fn.key), ()))
    except Dead:
        return E, None
    return E, r


def enum(ctx, name, gs, ge):
    P = ctx.P
    ty = [t for t in P.types if t['k'] == 'adt' and t.get('local') and t['name'].split('::')[-1] == name][0]
    vs = [v['n'] for v in ty['v']]
    table, default = TABLES.get(name, ({}, None))
    table = {k.rstrip('_').lower(): v for k, v in table.items()}
    ctx.count('functions analysed', 2)
    ctx.count('values', len(vs))
    written = {}
    for i, v in enumerate(vs):
        E, r = call(P, gs, Agg(ty['name'], i, ()))
        if r is None or r.op != 'str':
            if (name, v.lower()) in NOTOKEN:
                continue
            if r is not None and r.op not in ('agg',):
                ctx.unknown('%s::%s' % (name, v), fmt(r, -3)[:100])
            else:
                ctx.bad('%s::%s without token' % (name, v), 'writing %s::%s gives no token' % (name, v))
            continue
        tok = r.a[0]
        special = (name, v.lower()) in NOTOKEN
        want = table.get(v.lower())
        if want is not None and tok != want:
            ctx.bad('%s::%s token' % (name, v), '%s::%s is written as "%s", the standard says "%s" (%s)' % (name, v, tok, want, gs.file))
        elif want is not None:
            ctx.ok('token as in the standard', '%s::%s' % (name, v))
        elif name in TABLES and not special:
            ctx.unknown('%s::%s' % (name, v), 'value not in the table of the standard')
        if tok in written:
            ctx.bad('%s token shared' % name, '%s::%s and %s::%s are both written as "%s"' % (name, v, name, written[tok], tok))
        written[tok] = v
        E2, b = call(P, ge, Str(tok))
        if b is not None and b.op == 'agg':
            if b.a[1] == i:
                ctx.ok('token read back', '%s::%s' % (name, v))
            elif special:
                ctx.ok('placeholder', '%s::%s' % (name, v))
            else:
                ctx.bad('%s::%s read back' % (name, v), '"%s" (written for %s::%s) is read as %s::%s' % (tok, name, v, name, vs[b.a[1]]))
        else:
            ctx.unknown('reading "%s"' % tok, fmt(b, -3)[:100] if b is not None else 'no result')
    # every token the reader distinguishes
    S = mk('S', (), 0, 'token', True)
    E, r = call(P, ge, S)
    if r is None:
        ctx.unknown('reading a %s' % name, 'no result')
        return
    toks = {d[2] for d in E.vars if d and d[0] == 'x' and isinstance(d[2], str)}
    inv = {t: k for k, t in table.items()}
    for t in sorted(toks | set(table.values())):
        E2, b = call(P, ge, Str(t))
        if b is None or b.op != 'agg':
            ctx.unknown('reading "%s"' % t, fmt(b, -3)[:100] if b is not None else 'no result')
            continue
        got = vs[b.a[1]]
        names = [k for k, x in table.items() if x == t and k in [v.lower() for v in vs]]
        if names and got.lower() not in names:
            ctx.bad('%s "%s" misread' % (name, t), '"%s" is read as %s::%s, it means %s' % (t, name, got, names[0]))
        elif names:
            ctx.ok('standard token read', '%s "%s"' % (name, t))
        elif t in inv and default and got != default:
            ctx.bad('%s "%s" misread' % (name, t), '"%s" (which the enumeration lacks) is read as %s::%s instead of the default %s' % (t, name, got, default))
    # a token nobody knows
    m = {i: 0 for i, d in enumerate(E.vars) if d and d[0] in ('x', 'eq', 'eq_ignore_case', 'starts_with')}
    for g, x in E.alts(r):
        if E.B.subst(g, m) == 0 if g not in (0, 1) else g == 0:
            continue
        if x.op == 'agg' and default is not None:
            if vs[x.a[1]] == default:
                ctx.ok('unknown token gives the default', name)
            else:
                ctx.bad('%s default' % name, 'an unknown token is read as %s::%s instead of %s' % (name, vs[x.a[1]], default))


def flags(ctx):
    P = ctx.P
    n = 0
    for fn in P.lib.values():
        if 'utils::converters' not in fn.short or fn.closure or fn.argc != 1:
            continue
        a, r = P.types[fn.locals[1][0]]['s'], P.types[fn.locals[0][0]]['s']
        if a in ('&str', '&std::string::String', 'std::string::String') and r in ('bool', 'u8'):
            n += 1
            for tok, want in (('1', 1), ('true', 1), ('0', 0), ('false', 0)):
                E, v = call(P, fn, Str(tok))
                got = v.a[0] if v is not None and v.op in ('b', 'int') else None
                if got == want:
                    ctx.ok('boolean token', '%s "%s"' % (fn.short.split('::')[-1], tok))
                elif got in (0, 1):
                    ctx.bad('boolean "%s"' % tok, '%s reads "%s" as %s' % (fn.short, tok, got))
                else:
                    ctx.unknown('boolean "%s"' % tok, fmt(v, -3)[:100] if v is not None else 'no result')
        elif a in ('&bool', 'bool') and 'String' in r:
            n += 1
            for val, want in ((1, '1'), (0, '0')):
                E, v = call(P, fn, mk('b', val))
                if v is not None and v.op == 'str':
                    if v.a[0] == want:
                        ctx.ok('boolean written', want)
                    else:
                        ctx.bad('boolean %d written' % val, '%s writes %s as "%s"' % (fn.short, bool(val), v.a[0]))
                else:
                    ctx.unknown('boolean written', fmt(v, -3)[:100] if v is not None else 'no result')
    ctx.need('boolean token functions', n, 2)
