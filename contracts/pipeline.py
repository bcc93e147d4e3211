"""The pipeline (src/PdfToTextPlusPlus.cpp): which stages run, in which order, on which document and with which configuration."""
from .nest import *
from cppwp.cast import INT

# stage: (class, section of the configuration)
STAGES = [('GlyphsStatisticsCalculation', 'glyphsStatisticsCalculation'), ('DiacriticalMarksMerging', 'diacriticalMarksMerging'), ('WordsDetection', 'wordsDetection'),
          ('WordsStatisticsCalculation', 'wordsStatisticsCalculation'), ('PageSegmentation', 'pageSegmentation'), ('TextLinesDetection', 'textLinesDetection'),
          ('SubSuperScriptsDetection', 'subSuperScriptsDetection'), ('TextLinesStatisticsCalculation', 'textLinesStatisticsCalculation'), ('TextBlocksDetection', 'textBlocksDetection'),
          ('ReadingOrderDetection', 'readingOrderDetection'), ('WordsDehyphenation', 'wordsDehyphenation')]
PARSE = 0
NUM = {cl: i + 1 for i, (cl, _) in enumerate(STAGES)}
ORDER, ROLES = NUM['ReadingOrderDetection'], len(STAGES) + 1
# ghost state: how often a stage ran, when it ran last, on which document and with which configuration
RAN, WHEN, DOC, CONF, CLOCK = '@ghost.ran', '@ghost.when', '@ghost.doc', '@ghost.conf', '@ghost.clock'
GHOSTS = [('ghost', g, INT()) for g in (RAN, WHEN, DOC, CONF, CLOCK)]


def g(c, name, st, i=0):
    return z3.Select(c.ex.heap_map(st, name, INT()), I(i) if isinstance(i, int) else i)


def store(c, name, i, v):
    m = c.ex.heap_map(c.pre, name, INT())
    return c.ex.heap_map(c.post, name, INT()) == z3.Store(m, I(i), v)


def doc_fields(c):
    """all fields of the objects of a document"""
    P = c.ex.prog
    for cl in sorted(P.classes):
        if cl.startswith('Pdf') and cl in ('PdfDocument', 'PdfPage', 'PdfElement', 'PdfPosition', 'PdfCharacter', 'PdfWord', 'PdfTextLine', 'PdfTextBlock', 'PdfFigure', 'PdfShape', 'PdfGraphic', 'PdfFontInfo', 'PdfTextElement', 'PdfPageSegment'):
            for f in P.classes[cl].fields:
                try:
                    c.ex.E.sort(c.ex.tp.of(f))
                except Exception:
                    continue
                yield ('field', cl + '.' + f['name'])


def event(c, k, doc, conf):
    yield 'runs once more', store(c, RAN, k, g(c, RAN, c.pre, k) + 1)
    yield 'is the latest event', store(c, WHEN, k, g(c, CLOCK, c.pre))
    yield 'time passes', store(c, CLOCK, 0, g(c, CLOCK, c.pre) + 1)
    yield 'document', store(c, DOC, k, doc)
    yield 'configuration', store(c, CONF, k, conf)


ROC, SRC = 'ReadingOrderDetection.', 'SemanticRolesPrediction.'


class Predict(Spec):
    """the prediction of the roles is recorded in the ghost trace (its result comes from a model that is not available)"""
    trusted = True
    name = 'modules::SemanticRolesPrediction::predict'

    def modifies(self, c):
        return GHOSTS + list(doc_fields(c))

    def ensures(self, c):
        yield from event(c, ROLES, c.av(0), c.this_fld(SRC + '_config', c.pre))
        yield from nulls(c)


class Detect(Spec):
    """the detection of the reading order is recorded in the ghost trace (what it does is C10)"""
    trusted = True
    name = 'modules::ReadingOrderDetection::detectReadingOrder'

    def modifies(self, c):
        return GHOSTS + list(doc_fields(c))

    def ensures(self, c):
        yield from event(c, ORDER, c.this_fld(ROC + '_doc', c.pre), c.this_fld(ROC + '_config', c.pre))
        yield from nulls(c)


class Order(Spec):
    """roles are predicted unless this is disabled, then the reading order is detected"""
    name = 'modules::ReadingOrderDetection::process'
    tus = ('src/ReadingOrderDetection.cpp', 'src/Types.cpp')

    def enabled(self, c):
        return Not(c.fld('SemanticRolesPredictionConfig.disabled', self.conf(c), c.pre))

    def conf(self, c):
        return c.fld(SRC + '_config', c.this_fld(ROC + '_semanticRolesPrediction', c.pre), c.pre)

    def requires(self, c):
        yield 'predictor and its configuration given', And(c.this_fld(ROC + '_semanticRolesPrediction', c.pre) != 0, self.conf(c) != 0)
        for f in c.ex.prog.classes['ReadingOrderDetection'].fields:
            t = c.ex.tp.of(f)
            if t.k == 'ptr' and t.a[0].k == 'rec' and t.a[0].n == 'SemanticRolesPredictionConfig':
                yield 'same configuration as the predictor', c.this_fld(ROC + f['name'], c.pre) == self.conf(c)

    def modifies(self, c):
        return GHOSTS + list(doc_fields(c))

    def ensures(self, c):
        doc, conf, on = c.this_fld(ROC + '_doc', c.pre), c.this_fld(ROC + '_config', c.pre), self.enabled(c)
        d = lambda k: g(c, RAN, c.post, k) - g(c, RAN, c.pre, k)
        yield 'roles are predicted exactly once if enabled, else not at all', d(ROLES) == z3.If(on, I(1), I(0))
        yield 'the reading order is detected exactly once', d(ORDER) == 1
        yield 'roles are predicted before', Implies(on, g(c, WHEN, c.post, ROLES) < g(c, WHEN, c.post, ORDER))
        yield 'both for this document', And(g(c, DOC, c.post, ORDER) == doc, Implies(on, g(c, DOC, c.post, ROLES) == doc))
        yield 'each with its configuration', And(g(c, CONF, c.post, ORDER) == conf, Implies(on, g(c, CONF, c.post, ROLES) == self.conf(c)))
        yield 'time passes', And(g(c, CLOCK, c.post) > g(c, WHEN, c.post, ORDER), g(c, WHEN, c.post, ORDER) >= g(c, CLOCK, c.pre), Implies(on, g(c, WHEN, c.post, ROLES) >= g(c, CLOCK, c.pre)))
        k = z3.Int('gk')
        for nm in (RAN, WHEN, DOC, CONF):
            yield 'no other stage runs (%s)' % nm, z3.ForAll([k], Implies(And(k != ORDER, k != ROLES), g(c, nm, c.post, k) == g(c, nm, c.pre, k)), patterns=[g(c, nm, c.post, k)])
        yield from nulls(c)


NESTED = [PAGES, ('PdfPageSegment', 'PdfPage.segments'), BLOCKS]


def nulls(c):
    """NONNULL: the stages leave no null pointers in the lists"""
    for cl, key in NESTED:
        m = c.ex.named(c.fmap(key, c.post), 'hm')
        r, i = z3.Ints('nr ni')
        e = z3.Select(c.arr(z3.Select(m, r)), i)
        yield 'no null %s' % cl, z3.ForAll([r, i], Implies(And(i >= 0, i < c.len(z3.Select(m, r))), e != 0), patterns=[e])


class Stage(Spec):
    """a stage is recorded in the ghost trace, and may change everything of the document"""
    trusted = True
    cls = None

    def modifies(self, c):
        return GHOSTS + list(doc_fields(c))

    def ensures(self, c):
        yield from event(c, NUM[self.cls], c.this_fld(self.cls + '._doc', c.pre), c.this_fld(self.cls + '._config', c.pre))
        yield from nulls(c)


class Parse(Spec):
    """PDFDoc::displayPages(PdfParsing*, ...): the pages are parsed into the document of the output device"""
    trusted = True
    name = 'PDFDoc::displayPages'

    def requires(self, c):
        n = c.E.fn('pdf_getNumPages', IntS, IntS)(c.this.t)
        yield 'the loaded document is parsed', c.this.t == pdf_of(c)
        yield 'the document could be loaded', pdf_ok(c)
        yield 'all pages are parsed', And(c.av(1) == 1, c.av(2) == n)

    def modifies(self, c):
        return GHOSTS + list(doc_fields(c))

    def ensures(self, c):
        doc = c.ex.read(c.pre, c.ex.this_field(c.pre, c.args[0], c.field_decl('PdfParsing._doc'))).t
        yield from event(c, PARSE, doc, I(0))
        yield from nulls(c)


def pdf_of(c):
    path = c.ghost('PATH', c.E.StrS)
    return c.E.fn('pdf_of_path', c.E.StrS, IntS)(path)


def pdf_ok(c):
    return c.E.fn('pdf_isOk', IntS, BoolS)(pdf_of(c))


FRESH = ['WordsDetectionUtils', 'TextLinesDetectionUtils', 'TextBlocksDetectionUtils', 'PageSegmentationUtils', 'SemanticRolesPrediction']
TL = 'PdfPage.textLines'


class Process(Spec):
    skip_frames = (TL,)
    name = 'PdfToTextPlusPlus::process'
    tus = ('src/PdfToTextPlusPlus.cpp', 'src/Types.cpp') + tuple('src/%s.cpp' % cl for cl, _ in STAGES) + ('src/PdfParsing.cpp', 'src/SemanticRolesPrediction.cpp') + tuple('src/utils/%s.cpp' % u for u in ('WordsDetectionUtils', 'TextLinesDetectionUtils', 'TextBlocksDetectionUtils', 'PageSegmentationUtils'))

    embedded = tuple('Config.' + sec for _, sec in STAGES) + ('Config.pdfParsing', 'Config.semanticRolesPrediction')

    def doc(self, c):
        return c.av(0)

    def section(self, c, sec):
        f = c.field_decl('Config.' + sec)
        return c.ex.emb(c.ex.fieldkey(f), c.this_fld('PdfToTextPlusPlus._config', c.pre))

    def enabled(self, c, k):
        cl, sec = STAGES[k - 1]
        ccl = c.fty('Config.' + sec).n
        return Not(c.fld(ccl + '.disabled', self.section(c, sec), c.pre))

    def modifies(self, c):
        return GHOSTS + list(doc_fields(c)) + [('arg', 1), ('fresh', FRESH)]

    def requires(self, c):
        yield 'configuration given', c.this_fld('PdfToTextPlusPlus._config', c.pre) != 0
        yield 'document given', self.doc(c) != 0
        yield 'the path of the file', c.fld('PdfDocument.pdfFilePath', self.doc(c), c.pre) == c.ghost('PATH', c.E.StrS)
        yield 'a path is given', c.E.slen(c.ghost('PATH', c.E.StrS)) > 0
        yield 'no stage ran before', And(g(c, CLOCK, c.pre) == 0, *[g(c, RAN, c.pre, k) == 0 for k in range(len(STAGES) + 2)])

    def ensures(self, c):
        n = len(STAGES)
        ok = pdf_ok(c)
        yield 'the error of Poppler is returned exactly if the file could not be loaded', c.res == z3.If(ok, I(0), c.E.fn('pdf_getErrorCode', IntS, IntS)(pdf_of(c)))
        yield 'a file that could not be loaded is not processed', Implies(Not(ok), And(*[g(c, RAN, c.post, k) == 0 for k in range(n + 2)]))
        yield 'the pages are parsed exactly once, into the document', Implies(ok, And(g(c, RAN, c.post, PARSE) == 1, g(c, DOC, c.post, PARSE) == self.doc(c)))
        for k in range(1, n + 1):
            cl, sec = STAGES[k - 1]
            yield '%s runs exactly once if enabled, else not at all' % cl, Implies(ok, g(c, RAN, c.post, k) == z3.If(self.enabled(c, k), I(1), I(0)))
            yield '%s works on the document, with its section of the configuration' % cl, Implies(And(ok, self.enabled(c, k)), And(g(c, DOC, c.post, k) == self.doc(c), g(c, CONF, c.post, k) == self.section(c, sec)))
            for j in range(k):
                yield '%s runs after %s' % (cl, STAGES[j - 1][0] if j else 'the parsing'), Implies(And(ok, self.enabled(c, k), self.enabled(c, j) if j else TRUE), g(c, WHEN, c.post, j) < g(c, WHEN, c.post, k))
        on = And(self.enabled(c, ORDER), Not(c.fld('SemanticRolesPredictionConfig.disabled', self.section(c, 'semanticRolesPrediction'), c.pre)))
        yield 'roles are predicted exactly once if they and the reading order are enabled, else not at all', Implies(ok, g(c, RAN, c.post, ROLES) == z3.If(on, I(1), I(0)))
        yield 'roles are predicted after the blocks are detected and before the reading order', Implies(And(ok, on), And(g(c, DOC, c.post, ROLES) == self.doc(c), g(c, WHEN, c.post, ROLES) < g(c, WHEN, c.post, ORDER), Implies(self.enabled(c, ORDER - 1), g(c, WHEN, c.post, ORDER - 1) < g(c, WHEN, c.post, ROLES))))
        T = lambda st: c.av(1, st)
        count = I(2) + sum([z3.If(self.enabled(c, k), I(1), I(0)) for k in range(1, n + 1)])
        yield 'one running time per step', Implies(Not(c.null(1)), c.len(T(c.post)) == c.len(T(c.pre)) + z3.If(ok, count, I(1)))
        yield 'earlier running times stay', Implies(Not(c.null(1)), c.all_idx(T(c.pre), lambda i, e: c.at(T(c.post), i) == e))
        P = c.ghost('PAGE', IntS)
        pages = c.fld('PdfDocument.pages', self.doc(c), c.post)
        page = c.at(pages, P)
        yield 'the lines of a page are the lines of its blocks', Implies(And(ok, P >= 0, P < c.len(pages)), self.tlines(c, page, c.post) == self.blocks(c, c.post)(c.fld('PdfPage.blocks', page, c.post)))

    def tlines(self, c, page, st):
        return c.count(c.fld(TL, page, st))

    def blocks(self, c, st):
        cnt0 = c.count(z3.K(IntS, I(0)), I(0))
        cnt = c.ex.folds['count']
        return c.heap_fold(st, 'blockcount', ['PdfTextBlock.lines'], lambda a, e, m: a + cnt(c.E.varr(m[0]), c.E.vlen(m[0])), rsort=IntS, init=I(0))

    def invariants(self, lc):
        c = lc.c
        kinds = ('PdfPage', 'PdfTextBlock', 'PdfTextLine')
        chain = [l.extra for l in lc.lp.outer] + [lc.extra]
        cls = []
        for x in chain:
            if x.get('kind') != 'vec' or x.get('idx') is None:
                return
            t = x['vec0'].ty.a[0]
            cls.append(t.a[0].n if t.k == 'ptr' and t.a[0].k == 'rec' else None)
        idx = lambda x: lambda s: s.env[x['idx'].key].t
        yield 'index in range', lambda s: And(idx(lc.extra)(s) >= 0, idx(lc.extra)(s) <= c.len(lc.extra['vec0'].t))
        if tuple(cls) != kinds[:len(cls)]:
            return
        P = c.ghost('PAGE', IntS)
        pages = chain[0]['vec0'].t
        PG = c.at(pages, P)
        p = idx(chain[0])
        inr = And(P >= 0, P < c.len(pages))
        B = lambda s: self.blocks(c, s)
        total = lambda s: B(s)(c.fld('PdfPage.blocks', PG, s))
        cur = lambda s: c.at(pages, p(s))
        if len(chain) == 1:
            yield 'pages before', lambda s: Implies(And(inr, P < p(s)), self.tlines(c, PG, s) == total(s))
            return
        yield 'pages before', lambda s: Implies(And(inr, P < p(s), cur(s) != PG), self.tlines(c, PG, s) == total(s))
        if len(chain) == 2:
            yield 'blocks before', lambda s: self.tlines(c, cur(s), s) == B(s)(chain[1]['vec0'].t, idx(chain[1])(s))
        else:
            yield 'lines before', lambda s: self.tlines(c, cur(s), s) == B(s)(chain[1]['vec0'].t, idx(chain[1])(s)) + c.count(chain[2]['vec0'].t, idx(chain[2])(s))


specs = [Process(), Order(), Parse(), Predict(), Detect()] + [type('Run' + cl, (Stage,), {'cls': cl, 'name': 'modules::%s::process' % cl})() for cl, _ in STAGES if cl != 'ReadingOrderDetection']
