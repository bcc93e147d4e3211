from .common import *

class CreateRandomString(Spec):
    name = 'utils::text::createRandomString'
    trusted = True

class CreatePageSegment(Spec):
    name = 'utils::PageSegmentationUtils::createPageSegment'
    tus = ('src/utils/PageSegmentationUtils.cpp', 'src/Types.cpp', 'src/utils/MathUtils.cpp')

    def requires(self, c):
        yield 'elements are valid', elems_ok(c, c.av(0), c.pre)
        yield 'config', c.this_fld('PageSegmentationUtils._config', c.pre) != 0

    def modifies(self, c):
        return [('fresh', ['PdfPageSegment', 'PdfPosition'])]

    def ensures(self, c):
        r, v = c.res, c.av(0)
        yield 'new object', And(r != 0, c.fresh(r), c.fresh(pos(c, r, c.post)))
        yield 'elements kept', c.fld('PdfPageSegment.elements', r, c.post) == v
        for s in BOX:
            yield 'box contains every %s' % s, contains(c, v, s, side(c, r, s, c.post), c.len(v), c.pre)
            yield 'box tight in %s' % s, Implies(c.len(v) > 0, tight(c, v, s, side(c, r, s, c.post), c.len(v), c.pre))

    def invariants(self, lc):
        yield from box_invariants(lc, lc.c.pre)

specs = [CreateRandomString(), CreatePageSegment()]
