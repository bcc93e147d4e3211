"""FixedCapacityPriorityQueue (src/utils/FixedCapacityPriorityQueue.h), in the instantiation used by the XY-cut."""
from .common import *
Q = 'FixedCapacityPriorityQueue<PdfElement *, RightXDescComparator>'


class PQ(Spec):
    tus = ('src/utils/XYCut.cpp@FixedCapacityPriorityQueue', 'src/utils/XYCut.cpp')
    this_rec = True

    def cap(self, c, st):
        return c.this_fld(Q + '._capacity', st)

    def c0(self, c):
        return c.this_base(c.pre)

    def c1(self, c):
        return c.this_base(c.post)


class Ctor(PQ):
    name = Q + '::FixedCapacityPriorityQueue'

    def requires(self, c):
        yield 'capacity', c.av(0) >= 0

    def modifies(self, c):
        return [('this', Q + '._capacity'), ('thisbase',)]

    def ensures(self, c):
        yield 'starts empty', c.len(self.c1(c)) == 0
        yield 'capacity as given', self.cap(c, c.post) == c.av(0)


class Push(PQ):
    name = Q + '::push'

    def requires(self, c):
        yield 'capacity', self.cap(c, c.pre) >= 1
        yield 'never over capacity', c.len(self.c0(c)) <= self.cap(c, c.pre)

    def modifies(self, c):
        return [('thisbase',)]

    def ensures(self, c):
        q0, q1, x = self.c0(c), self.c1(c), c.av(0)
        X = c.ghost('X', IntS)
        full = c.len(q0) == self.cap(c, c.pre)
        yield 'never over capacity', c.len(q1) <= self.cap(c, c.pre)
        yield 'grows unless full', c.len(q1) == z3.If(full, c.len(q0), c.len(q0) + 1)
        top = c.at(q0, I(0))
        yield 'exactly the top leaves when full, exactly the value is added', c.count(q1) + z3.If(And(full, top == X), I(1), I(0)) == c.count(q0) + z3.If(x == X, I(1), I(0))
        yield 'capacity unchanged', self.cap(c, c.post) == self.cap(c, c.pre)


class Sort(PQ):
    name = Q + '::sort'

    def requires(self, c):
        yield 'result list', Not(c.null(1))

    def modifies(self, c):
        return [('arg', 1)]

    def ensures(self, c):
        r = c.av(1, c.post)
        yield 'as many results as elements', c.len(r) == c.len(self.c0(c))
        yield 'exactly the elements', c.count(r) == c.count(self.c0(c))
        yield 'the queue is unchanged', self.c1(c) == self.c0(c)


specs = [Ctor(), Push(), Sort()]
