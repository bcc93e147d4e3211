"""Names of element types, semantic roles and serialization formats."""
from .common import *

U = 'utils::elements::'
TUS = ('src/utils/PdfElementsUtils.cpp',)
TYPE_NAMES = {'PAGES': 'pages', 'TEXT_BLOCKS': 'blocks', 'TEXT_LINES': 'lines', 'WORDS': 'words', 'CHARACTERS': 'characters', 'FIGURES': 'figures', 'SHAPES': 'shapes'}
ROLE_NAMES = {'PARAGRAPH': 'paragraph', 'REFERENCE': 'reference', 'MARGINAL': 'marginal', 'FOOTNOTE': 'footnote', 'HEADING': 'heading', 'FORMULA': 'formula', 'TITLE': 'title', 'AUTHOR_INFO': 'author-info', 'ABSTRACT': 'abstract', 'DATE': 'date', 'CAPTION': 'caption', 'TABLE': 'table', 'OTHER': 'other', 'TOC': 'toc'}
FORMAT_NAMES = {'TXT': 'txt', 'TXT_EXTENDED': 'txt-extended', 'JSONL': 'jsonl'}
TABLES = {'PdfElementType': ('PDF_ELEMENT_TYPE_NAMES', TYPE_NAMES), 'SemanticRole': ('SEMANTIC_ROLE_NAMES', ROLE_NAMES), 'SerializationFormat': ('SERIALIZATION_FORMAT_NAMES', FORMAT_NAMES)}


def values(c, enum):
    """[(value of the enumerator, its name)]"""
    vs = c.ex.prog.enums[enum]
    t = TABLES[enum][1]
    return sorted((v, t.get(k)) for k, v in vs.items())


def is_value(c, enum, t):
    return Or(*[t == v for v, _ in values(c, enum)])


class Name(Spec):
    tus = TUS
    enum = None

    def requires(self, c):
        yield 'is an enumerator', is_value(c, self.enum, c.av(0))

    def ensures(self, c):
        f = c.E.fn('name_of_' + self.enum, IntS, c.E.StrS)
        if getattr(c, 'mode', '') != 'call':
            for v, n in values(c, self.enum):
                c.ex.fact(f(I(v)) == c.E.slit(n), c.pre)
                yield 'name of %s' % n, Implies(c.av(0) == v, c.res == c.E.slit(n))
        yield 'the name', c.res == f(c.av(0))


class List(Spec):
    tus = TUS
    enum = None

    def ensures(self, c):
        vs = values(c, self.enum)
        yield 'one entry for every enumerator', c.len(c.res) == len(vs)
        for i, (v, n) in enumerate(vs):
            yield '%s is listed' % n, c.at(c.res, I(i)) == v

    def invariants(self, lc):
        c = lc.c
        for nm, g, k in lc.vars(lambda t: t.k == 'vec'):
            for inm, ig in lc.indices():
                yield '%s holds the first %s' % (nm, inm), lambda s, g=g, ig=ig: And(ig(s) >= 0, c.len(g(s)) == ig(s), ig(s) <= len(values(c, self.enum)), c.all_idx(g(s), lambda i, e: e == i))


class Str(Spec):
    tus = TUS
    enum = None

    def names(self, c):
        from cppwp import sym as S
        return c.ex.read(c.pre, c.ex.global_var({'name': TABLES[self.enum][0]}, c.pre, None)).t

    def J(self, c, n):
        E = c.E
        if 'joined' not in c.ex.folds:
            c.ex.folds['joined'] = Fold('joined', z3.ArraySort(IntS, E.StrS), E.StrS, E.slit(''), lambda a, e, m: z3.If(E.slen(a) > 0, E.scat(E.scat(a, m[0]), e), e), msorts=[E.StrS])
            c.ex.fold_maps['joined'] = []
        return c.fold(c.ex.folds['joined'], self.names(c), n, (c.av(0),))

    def ensures(self, c):
        E = c.E
        vs = values(c, self.enum)
        for i in range(len(vs) + 1):
            c.ex.note_index(c.ex.named(c.arr(self.names(c)), 'arr'), I(i))
        t = E.slit(vs[0][1])
        for v, n in vs[1:]:
            t = E.scat(E.scat(t, c.av(0)), E.slit(n))
        yield 'all names in order, separated by the separator', c.res == t

    def invariants(self, lc):
        c = lc.c
        for nm, g, k in lc.mod_vars(lambda t: t.k == 'str'):
            for inm, ig in lc.indices():
                yield '%s is the first %s names' % (nm, inm), lambda s, g=g, ig=ig: And(ig(s) >= 0, ig(s) <= c.len(self.names(c)), g(s) == self.J(c, ig(s)))


class Validate(Spec):
    """command line values: exactly the names are accepted, and mean the enumerator of that name"""
    tus = ('src/Validators.cpp', 'src/utils/PdfElementsUtils.cpp')
    name = 'types::validate'
    enum = None

    def token(self, c):
        return c.at(c.av(1), I(0))

    def choices(self, c):
        return [(v, c.E.slit(n), TRUE) for v, n in values(c, self.enum)]

    def throws(self, c):
        return Or(Not(c.E.fn('any_empty', IntS, BoolS)(c.av(0, c.pre))), c.len(c.av(1)) != 1, Not(Or(*[And(g, self.token(c) == n) for v, n, g in self.choices(c)])))

    def modifies(self, c):
        return [('arg', 0)]

    def ensures(self, c):
        for v, n, g in self.choices(c):
            yield 'value of a name (%s)' % v, Implies(And(g, self.token(c) == n), c.av(0, c.post) == c.E.fn('any_of_' + self.enum, IntS, IntS)(I(v)))

    def invariants(self, lc):
        c = lc.c
        nms = c.ex.read(c.pre, c.ex.global_var({'name': TABLES[self.enum][0]}, c.pre, None)).t
        tok = self.token(c)
        for inm, ig in lc.indices() + lc.iters():
            yield 'no name before %s' % inm, lambda s, ig=ig: And(ig(s) >= 0, c.all_idx(nms, lambda i, e: e != tok, hi=ig(s)))
            yield '%s in range' % inm, lambda s, ig=ig: ig(s) <= c.len(nms)
            for m, ordv in lc.orders():
                q = z3.Int('qo')
                x = z3.Select(ordv, q)
                yield 'no format before %s' % inm, lambda s, ig=ig, q=q, x=x: z3.ForAll([q], Implies(And(q >= 0, q < ig(s)), c.E.fn('name_of_' + self.enum, IntS, c.E.StrS)(x) != tok), patterns=[x])
                yield '%s in map range' % inm, lambda s, ig=ig, m=m: And(ig(s) >= 0, ig(s) <= c.E.mcard(m.t))


class ValidateFormat(Validate):
    """a format is accepted exactly if there is a serializer for it"""

    def choices(self, c):
        m = c.ex.read(c.pre, c.ex.global_var({'name': 'SERIALIZERS'}, c.pre, None)).t
        f = c.E.fn('name_of_' + self.enum, IntS, c.E.StrS)
        for v, n in values(c, self.enum):
            c.ex.fact(f(I(v)) == c.E.slit(n), c.pre)
        return [(v, c.E.slit(n), z3.Select(c.E.mdom(m), I(v))) for v, n in values(c, self.enum)]


specs = []
for en, base in (('PdfElementType', 'getPdfElementType'), ('SemanticRole', 'getSemanticRole'), ('SerializationFormat', 'getSerializationFormat')):
    specs += [type('Name' + en, (Name,), {'enum': en, 'name': U + base + 'Name'})(), type('List' + en, (List,), {'enum': en, 'name': U + base + 's'})(), type('Str' + en, (Str,), {'enum': en, 'name': U + base + 'sStr'})()]
    specs.append(type('Validate' + en, (ValidateFormat if en == 'SerializationFormat' else Validate,), {'enum': en, 'sig': en + ' *'})())


class Serializer(Spec):
    """the serializer of a format, or null; different formats have different serializers"""
    tus = ('src/PdfDocumentSerialization.cpp', 'src/utils/PdfElementsUtils.cpp')
    name = 'serialization::getSerializer'

    def ensures(self, c):
        E = c.E
        m = c.ex.read(c.pre, c.ex.global_var({'name': 'SERIALIZERS'}, c.pre, None)).t
        has = z3.Select(E.mdom(m), c.av(0))
        yield 'none for other formats', Implies(Not(has), c.res == 0)
        yield 'the one of the format', Implies(has, c.res == z3.Select(E.mval(m), c.av(0)))
        vs = c.ex.prog.enums['SerializationFormat']
        yield 'txt is supported', Implies(c.av(0) == vs['TXT'], c.res != 0)
        yield 'txt-extended is supported', Implies(c.av(0) == vs['TXT_EXTENDED'], c.res != 0)


specs.append(Serializer())
