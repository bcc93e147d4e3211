"""Serializers: the written text is a nested fold over pages, blocks, lines, words and characters."""
from .common import *
from cppwp import sym as S
from . import names, textutils
PG, BL, LN, WD, CH = 'PdfPage.', 'PdfTextBlock.', 'PdfTextLine.', 'PdfWord.', 'PdfCharacter.'
TEXT = 'PdfTextElement.text'
LISTS = {'PdfPage': ('PdfDocument.pages', 'page'), 'PdfTextBlock': (PG + 'blocks', 'block'), 'PdfTextLine': (BL + 'lines', 'line'), 'PdfWord': (LN + 'words', 'word'), 'PdfCharacter': (WD + 'characters', 'char'),
         'PdfFigure': (PG + 'figures', 'figure'), 'PdfShape': (PG + 'shapes', 'shape')}


def no_nulls(c, key, name):
    """no list of this kind contains a null pointer"""
    m = c.ex.named(c.fmap(key, c.pre), 'hm')
    r, i = z3.Ints('nr ni')
    e = z3.Select(c.arr(z3.Select(m, r)), i)
    return z3.ForAll([r, i], Implies(And(i >= 0, i < c.len(z3.Select(m, r))), e != 0), patterns=[e])


class Ser(Spec):
    """base: one nested fold per element class; state = (text written so far, 'something was written before' per level)"""
    tus = ('src/Types.cpp', 'src/utils/PdfElementsUtils.cpp')
    OUT = 3
    levels = ()

    def requires(self, c):
        yield 'document', c.av(0) != 0
        for k in self.levels:
            yield 'no null %s' % LISTS[k][1], no_nulls(c, LISTS[k][0], k)
        if 'PdfTextBlock' in self.levels:
            m = c.ex.named(c.fmap(BL + 'role', c.pre), 'hm')
            r = z3.Int('nr')
            yield 'roles are enumerators', z3.ForAll([r], names.is_value(c, 'SemanticRole', z3.Select(m, r)), patterns=[z3.Select(m, r)])

    def modifies(self, c):
        return [('arg', self.OUT)]

    # --- state of the fold: text and flag
    def State(self, c):
        E = c.E
        if not hasattr(c.ex, '_serstate'):
            d = z3.Datatype('Written')
            d.declare('mk_written', ('acc', E.StrS), ('flag', BoolS), ('own1', E.StrS), ('own2', E.StrS))
            c.ex._serstate = d.create()
        return c.ex._serstate

    def mk(self, c, acc, flag, own1=None, own2=None):
        e = c.E.sempty()
        return self.State(c).mk_written(acc, flag, e if own1 is None else own1, e if own2 is None else own2)

    def get(self, c, s, i):
        St = self.State(c)
        return s.arg(i) if z3.is_app(s) and s.decl().eq(St.mk_written) else St.accessor(0, i)(s)

    def acc(self, c, s):
        return self.get(c, s, 0)

    def flag(self, c, s):
        return self.get(c, s, 1)

    def owners(self, lc):
        """identifiers of the enclosing elements: (name, own1, own2) candidates"""
        return [('', None, None)]

    def F(self, c, cls):
        """fold over a list of `cls`: (vector, number of elements, initial state) -> state"""
        key = 'ser_%s_%s' % (type(self).__name__, cls)
        St = self.State(c)
        if key not in c.ex.folds:
            c.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), St, lambda maps: maps[0], lambda a, e, maps: self.step1(c, cls, a, e, maps[0]), msorts=[St])
            c.ex.fold_maps[key] = []

        def f(v, n, init):
            if c.ex.folds[key].f is None:
                return None
            return c.fold(c.ex.folds[key], v, n, (init,))
        return f

    def step1(self, c, cls, a, e, init):
        """the owners do not change during a fold"""
        o = [self.get(c, init, 2), self.get(c, init, 3)]
        r = self.step(c, cls, self.mk(c, self.acc(c, a), self.flag(c, a), *o), e)
        return self.mk(c, self.acc(c, r), self.flag(c, r), *o)

    def inner(self, c, cls, owner, init):
        v = c.fld(LISTS[cls][0], owner, c.pre)
        key = 'ser_%s_%s' % (type(self).__name__, cls)
        self.F(c, cls)
        return c.ex.folds[key].f(c.arr(v), c.len(v), init)

    def role_ok(self, c, b):
        roles = c.av(1)
        return Or(c.E.mcard(roles) == 0, z3.Select(c.E.mdom(roles), c.fld(BL + 'role', b, c.pre)))

    def text(self, c, *parts):
        """concatenation in the normal form of the encoder"""
        t = parts[-1]
        for p in reversed(parts[:-1]):
            t = c.E.scat(p if z3.is_expr(p) else c.E.slit(p), t if z3.is_expr(t) else c.E.slit(t))
        return t if z3.is_expr(t) else c.E.slit(t)

    top = 'PdfPage'
    tail = ''

    def start(self, c, doc):
        return self.mk(c, c.av(self.OUT), FALSE)

    def ensures(self, c):
        v = c.fld('PdfDocument.pages', c.av(0), c.pre)
        w = self.acc(c, self.F(c, 'PdfPage')(v, c.len(v), self.mk(c, c.av(self.OUT), FALSE)))
        c.ex.note_index(c.ex.named(c.arr(v), 'arr'), c.len(v))
        yield 'the written text is the specified fold over the document', c.av(self.OUT, c.post) == (self.text(c, w, self.tail) if self.tail else w)

    def invariants(self, lc):
        c = lc.c
        if lc.extra.get('kind') != 'vec':
            return
        v0 = lc.extra['vec0']
        ety = v0.ty.a[0]
        if ety.k != 'ptr' or ety.a[0].n not in self.levels:
            return
        cls = ety.a[0].n
        F = self.F(c, cls)
        en = lc.entry
        c.ex.note_index(c.ex.named(c.arr(v0.t), 'arr'), I(0))
        flags = [('nothing', lambda s: FALSE)] + [(nm, lambda s, g=g: truthy(g(s))) for nm, g, k in lc.vars(lambda t: t.k in ('ptr', 'bool')) if (lc.written(k) or k in self.kept(lc)) and not str(nm).startswith('arg')]
        for inm, ig in lc.indices():
            yield '%s in range' % inm, lambda s, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(v0.t))
            for on, og, ok in lc.mod_vars(lambda t: t.k in ('stream', 'str')):
                for (fn, fg), (wn, o1, o2) in [(x, y) for x in flags for y in self.owners(lc)]:
                    fn += wn
                    st = lambda s, ig=ig, og=og, fg=fg, o1=o1, o2=o2: F(v0.t, ig(s), self.mk(c, og(en), fg(en), o1, o2))
                    yield '%s is the fold over the first %s (%s as flag)' % (on, inm, fn), lambda s, st=st, og=og: og(s) == self.acc(c, st(s))
                    yield '%s tells whether something was written (%s)' % (fn, on), lambda s, st=st, fg=fg: fg(s) == self.flag(c, st(s))

    def kept(self, lc):
        return ()


class PlainText(Ser):
    name = 'serialization::PlainTextSerializer::serializeToStream'
    tus = Ser.tus + ('src/serializers/PlainTextSerializer.cpp',)
    levels = ('PdfPage', 'PdfTextBlock', 'PdfTextLine', 'PdfWord', 'PdfCharacter')
    tail = '\n'

    def prefix(self, c, e):
        return None

    def page_end(self, c, t):
        return t

    def step(self, c, cls, a, e):
        E, st = c.E, c.pre
        acc, flag = self.acc(c, a), self.flag(c, a)
        fld = lambda k: c.fld(k, e, st)
        if cls == 'PdfCharacter':
            t = z3.If(truthy(fld(CH + 'isBaseCharOfDiacriticMark')), E.scat(acc, fld(CH + 'textWithDiacriticMark')),
                      z3.If(truthy(fld(CH + 'isDiacriticMarkOfBaseChar')), acc, E.scat(acc, fld(TEXT))))
            return self.mk(c, t, flag)
        if cls == 'PdfWord':
            first = fld(WD + 'isFirstPartOfHyphenatedWord')
            sep = z3.If(flag, E.scat(acc, E.slit(' ')), acc)
            t = z3.If(truthy(first), E.scat(sep, c.fld(TEXT, first, st)), self.acc(c, self.inner(c, 'PdfCharacter', e, self.mk(c, sep, FALSE))))
            return self.ite(c, truthy(fld(WD + 'isSecondPartOfHyphenatedWord')), a, self.mk(c, t, TRUE))
        if cls == 'PdfTextLine':
            return self.inner(c, 'PdfWord', e, a)
        if cls == 'PdfTextBlock':
            sep = z3.If(flag, E.scat(acc, E.slit('\n\n')), acc)
            sep = self.block_prefix(c, e, sep)
            t = self.acc(c, self.inner(c, 'PdfTextLine', e, self.mk(c, sep, FALSE)))
            return self.ite(c, self.role_ok(c, e), self.mk(c, t, TRUE), a)
        r = self.inner(c, 'PdfTextBlock', e, a)
        return self.mk(c, self.page_suffix(c, self.acc(c, r)), self.flag(c, r))

    def ite(self, c, b, x, y):
        return self.mk(c, *[z3.If(b, self.get(c, x, i), self.get(c, y, i)) if not self.get(c, x, i).eq(self.get(c, y, i)) else self.get(c, x, i) for i in range(4)])

    def block_prefix(self, c, e, t):
        return t

    def page_suffix(self, c, t):
        return t


class PlainTextExtended(PlainText):
    name = 'serialization::PlainTextExtendedSerializer::serializeToStream'
    tus = Ser.tus + ('src/serializers/PlainTextExtendedSerializer.cpp',)

    def block_prefix(self, c, e, t):
        E = c.E
        up = E.fn('s_map_toupper', E.StrS, E.StrS)
        name = role_name(c, c.fld(BL + 'role', e, c.pre))
        t = self.text(c, t, '[', up(name), '] ')
        return z3.If(truthy(c.fld(BL + 'isEmphasized', e, c.pre)), self.text(c, t, '\x01'), t)

    def page_suffix(self, c, t):
        return self.text(c, t, '\n\x0c')


def fmt(c, t):
    """text of a number in a stream with default formatting"""
    E = c.E
    if z3.is_bool(t):
        return z3.If(t, E.slit('true'), E.slit('false'))
    if t.sort() == IntS:
        return E.fn('fmt_int', IntS, E.StrS)(t)
    return E.fn('fmt_double', E.fsort(), E.StrS)(t)


def escaped(c, t):
    E = c.E
    return textutils.json_fold(E)(t, E.slen(t))


class Jsonl(PlainText):
    OUT = 2
    tus = Ser.tus + ('src/serializers/JsonlSerializer.cpp', 'src/utils/TextUtils.cpp')
    tail = ''
    unit = None           # the class of the serialized elements
    filtered = False

    def position(self, c, e):
        P = lambda f: fmt(c, side(c, e, f, c.pre))
        return ['"page": ', P('pageNum'), ', "minX": ', P('leftX'), ', "minY": ', P('upperY'), ', "maxX": ', P('rightX'), ', "maxY": ', P('lowerY')]

    def requires(self, c):
        yield from super().requires(c)
        if self.unit != 'PdfPage':
            yield 'every %s has a position' % LISTS[self.unit][1], positions(c, LISTS[self.unit][0])
        x = z3.Const('sl', c.E.StrS)
        yield 'all texts are shorter than 2^32 - 1 characters', z3.ForAll([x], c.E.slen(x) < 2 ** 32 - 1, patterns=[c.E.slen(x)])

    def step(self, c, cls, a, e):
        acc, flag = self.acc(c, a), self.flag(c, a)
        if cls == self.unit:
            t = self.text(c, acc, *(['{'] + self.record(c, e) + [', "origin": "pdftotext++"}\n']))
            if cls == 'PdfCharacter':
                t = z3.If(truthy(c.fld(CH + 'isDiacriticMarkOfBaseChar', e, c.pre)), acc, t)
            r = self.mk(c, t, flag)
        else:
            r = self.inner(c, self.levels[self.levels.index(cls) + 1], e, a)
        if cls == 'PdfTextBlock':
            r = self.ite(c, self.role_ok(c, e), r, a)
        return r


def positions(c, key):
    m = c.ex.named(c.fmap(key, c.pre), 'hm')
    p = c.ex.named(c.fmap('PdfElement.pos', c.pre), 'hm')
    r, i = z3.Ints('nr ni')
    e = z3.Select(c.arr(z3.Select(m, r)), i)
    return z3.ForAll([r, i], Implies(And(i >= 0, i < c.len(z3.Select(m, r))), z3.Select(p, e) != 0), patterns=[e])


class JPages(Jsonl):
    name = 'serialization::JsonlSerializer::serializePages'
    unit = 'PdfPage'
    levels = ('PdfPage',)

    def record(self, c, p):
        E, st = c.E, c.pre
        f = lambda k: c.fld(PG + k, p, st)
        return ['"type": "page", "num": ', fmt(c, f('pageNum')), ', "width": ', fmt(c, E.fop('-', f('clipRightX'), f('clipLeftX'))), ', "height": ', fmt(c, E.fop('-', f('clipLowerY'), f('clipUpperY')))]


class JFigures(Jsonl):
    name = 'serialization::JsonlSerializer::serializeFigures'
    unit = 'PdfFigure'
    kind = 'figure'
    levels = ('PdfPage', 'PdfFigure')

    def record(self, c, e):
        f = lambda k: c.fld(k, e, c.pre)
        return ['"type": "%s", "rank": ' % self.kind, fmt(c, f('PdfElement.rank')), ', "id": "', f('PdfElement.id'), '", '] + self.position(c, e)


class JShapes(JFigures):
    name = 'serialization::JsonlSerializer::serializeShapes'
    unit = 'PdfShape'
    kind = 'shape'
    levels = ('PdfPage', 'PdfShape')


class JTextBlocks(Jsonl):
    name = 'serialization::JsonlSerializer::serializeTextBlocks'
    unit = 'PdfTextBlock'
    levels = ('PdfPage', 'PdfTextBlock')

    def record(self, c, b):
        f = lambda k: c.fld(k, b, c.pre)
        return ['"type": "block", "id": "', f('PdfElement.id'), '", "rank": ', fmt(c, f('PdfElement.rank')), ', '] + self.position(c, b) + \
            [', "font": "', escaped(c, f('PdfTextElement.fontName')), '", "fontSize": ', fmt(c, f('PdfTextElement.fontSize')), ', "text": "', escaped(c, f(TEXT)), '", "role": "', role_name(c, f(BL + 'role')), '"']


class Owned(Jsonl):
    """records that name the block (and the word) they belong to: part of the state handed to the inner folds"""
    filtered = True

    def ids(self, c, e):
        return c.fld('PdfElement.id', e, c.pre)

    def owners(self, lc):
        c = lc.c
        ety = lc.extra['vec0'].ty.a[0].a[0].n
        out = [('', None, None)]
        if ety in ('PdfPage', 'PdfTextBlock'):
            return out
        ptr = lambda cls: [(nm, self.ids(c, g(lc.entry))) for nm, g, k in lc.vars(lambda t: t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == cls) if not lc.written(k)]
        bs = ptr('PdfTextBlock')
        if ety == 'PdfCharacter':
            return [(' of block %s and word %s' % (b, w), bi, wi) for b, bi in bs for w, wi in ptr('PdfWord')] or out
        return [(' of block %s' % b, bi, None) for b, bi in bs] or out

    def step(self, c, cls, a, e):
        acc, flag, o1, o2 = [self.get(c, a, i) for i in range(4)]
        if cls == 'PdfTextBlock':
            r = self.inner(c, 'PdfTextLine', e, self.mk(c, acc, flag, self.ids(c, e)))
            return self.ite(c, self.role_ok(c, e), self.mk(c, self.acc(c, r), flag), self.mk(c, acc, flag))
        if cls == 'PdfTextLine':
            return self.mk(c, self.acc(c, self.inner(c, 'PdfWord', e, self.mk(c, acc, flag, o1))), flag, o1)
        if cls == 'PdfWord' and self.unit == 'PdfCharacter':
            return self.mk(c, self.acc(c, self.inner(c, 'PdfCharacter', e, self.mk(c, acc, flag, o1, self.ids(c, e)))), flag, o1)
        if cls == self.unit:
            t = self.text(c, acc, *(['{'] + self.record(c, e, o1, o2) + [', "origin": "pdftotext++"}\n']))
            if cls == 'PdfCharacter':
                t = z3.If(truthy(c.fld(CH + 'isDiacriticMarkOfBaseChar', e, c.pre)), acc, t)
            return self.mk(c, t, flag, o1, o2)
        return self.mk(c, self.acc(c, self.inner(c, 'PdfTextBlock', e, self.mk(c, acc, flag))), flag)


class JWords(Owned):
    name = 'serialization::JsonlSerializer::serializeWords'
    unit = 'PdfWord'
    levels = ('PdfPage', 'PdfTextBlock', 'PdfTextLine', 'PdfWord')

    def record(self, c, w, block, _):
        f = lambda k: c.fld(k, w, c.pre)
        return ['"type": "word", "id": "', f('PdfElement.id'), '", "rank": ', fmt(c, f('PdfElement.rank')), ', '] + self.position(c, w) + \
            [', "font": "', escaped(c, f('PdfTextElement.fontName')), '", "fontSize": ', fmt(c, f('PdfTextElement.fontSize')), ', "text": "', escaped(c, f(TEXT)), '", "block": "', block, '"']


class JChars(Owned):
    name = 'serialization::JsonlSerializer::serializeCharacters'
    unit = 'PdfCharacter'
    levels = ('PdfPage', 'PdfTextBlock', 'PdfTextLine', 'PdfWord', 'PdfCharacter')

    def requires(self, c):
        yield from super().requires(c)
        infos = c.fld('PdfDocument.fontInfos', c.av(0), c.pre)
        m = c.ex.named(c.fmap(WD + 'characters', c.pre), 'hm')
        p = c.ex.named(c.fmap('PdfTextElement.fontName', c.pre), 'hm')
        r, i = z3.Ints('nr ni')
        e = z3.Select(c.arr(z3.Select(m, r)), i)
        k = z3.Select(p, e)
        yield 'the document has the font info of every character', z3.ForAll([r, i], Implies(And(i >= 0, i < c.len(z3.Select(m, r))), And(z3.Select(c.E.mdom(infos), k), z3.Select(c.E.mval(infos), k) != 0)), patterns=[k])

    def record(self, c, ch, block, word):
        f = lambda k: c.fld(k, ch, c.pre)
        info = z3.Select(c.E.mval(c.fld('PdfDocument.fontInfos', c.av(0), c.pre)), f('PdfTextElement.fontName'))
        fi = lambda k: c.fld('PdfFontInfo.' + k, info, c.pre)
        col = lambda k: fmt(c, c.E.vat(f(CH + 'color'), I(k)))
        text = z3.If(truthy(f(CH + 'isBaseCharOfDiacriticMark')), f(CH + 'textWithDiacriticMark'), f(TEXT))
        return ['"type": "char", "id": "', f('PdfElement.id'), '", "rank": ', fmt(c, f('PdfElement.rank')), ', '] + self.position(c, ch) + \
            [', "wMode": ', fmt(c, side(c, ch, 'wMode', c.pre)), ', "rotation": ', fmt(c, side(c, ch, 'rotation', c.pre)),
             ', "font": "', escaped(c, f('PdfTextElement.fontName')), '", "fontSize": ', fmt(c, f('PdfTextElement.fontSize')), ', "weight": ', fmt(c, fi('weight')),
             ', "italic": ', fmt(c, fi('isItalic')), ', "type-3": ', fmt(c, fi('isType3')), ', "color": [', col(0), ',', col(1), ',', col(2), '],"opacity": ', fmt(c, f(CH + 'opacity')),
             ', "text": "', escaped(c, text), '", "word": "', word, '", "block": "', block, '"']


class JStream(Jsonl):
    """the selected kinds of elements, one after the other (in the iteration order of the set)"""
    name = 'serialization::JsonlSerializer::serializeToStream'
    OUT = 3
    levels = ('PdfPage', 'PdfTextBlock', 'PdfTextLine', 'PdfWord', 'PdfCharacter', 'PdfFigure', 'PdfShape')
    unit = 'PdfPage'
    UNITS = (('PAGES', JPages), ('CHARACTERS', JChars), ('WORDS', JWords), ('TEXT_BLOCKS', JTextBlocks), ('FIGURES', JFigures), ('SHAPES', JShapes))

    def requires(self, c):
        seen = set()
        for _, cl in self.UNITS:
            for nm, f in cl().requires(c):
                if nm not in seen:
                    seen.add(nm)
                    yield nm, f

    def U(self, c):
        key = 'ser_units'
        St = self.State(c)
        en = c.ex.prog.enums['PdfElementType']
        pages = c.fld('PdfDocument.pages', c.av(0), c.pre)
        if key not in c.ex.folds:
            def step(a, e, maps):
                r = a
                for nm, cl in self.UNITS:
                    s = cl()
                    s.F(c, 'PdfPage')
                    f = c.ex.folds['ser_%s_PdfPage' % cl.__name__].f
                    w = f(c.arr(pages), c.len(pages), self.mk(c, self.acc(c, a), FALSE))
                    r = self.ite(c, e == en[nm], self.mk(c, self.acc(c, w), FALSE), r)
                return r
            c.ex.folds[key] = Fold(key, z3.ArraySort(IntS, IntS), St, lambda maps: maps[0], step, msorts=[St])
            c.ex.fold_maps[key] = []
        return lambda arr, n, init: c.fold(c.ex.folds[key], arr, n, (init,))

    def ensures(self, c):
        E = c.E
        a = c.args[2]
        units = c.ex.read(c.pre, a) if isinstance(a, S.LVS) else a
        order = c.ex.lib.map_order(c.ex, c.pre, units)
        n = E.mcard(units.t)
        yield 'the selected kinds of elements, one after the other', Implies(n > 0, c.av(3, c.post) == self.acc(c, self.U(c)(order, n, self.mk(c, c.av(3), FALSE))))

    def invariants(self, lc):
        c = lc.c
        E = c.E
        for m, order in lc.orders():
            if m.ty.k != 'set' or order.sort().range() != IntS:
                continue
            for inm, ig in lc.indices():
                yield '%s in range' % inm, lambda s, ig=ig, m=m: And(ig(s) >= 0, ig(s) <= E.mcard(m.t))
                for on, og, ok in lc.mod_vars(lambda t: t.k in ('stream', 'str')):
                    yield '%s holds the first %s kinds' % (on, inm), lambda s, ig=ig, og=og, order=order: og(s) == self.acc(c, self.U(c)(order, ig(s), self.mk(c, c.av(3), FALSE)))


specs_json = [JPages(), JFigures(), JShapes(), JTextBlocks(), JWords(), JChars(), JStream()]


def role_name(c, role):
    return c.E.fn('name_of_SemanticRole', IntS, c.E.StrS)(role)


specs = [PlainText(), PlainTextExtended()] + specs_json + textutils.specs + names.specs
