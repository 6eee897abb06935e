"""More declarations, appended to client.py by the checks that need them."""


# ---- declarations and where they come from
def inv12(x):
    return (((True, None) if OK1(x) else (False, MSG1(x))), ((True, None) if OK2(x) else (False, MSG2(x))))


def inv3(x):
    return (True, None) if OK3(x) else (False, MSG3(x))


class VecDeep(VecSub):
    pass


class VecDeeper(VecDeep):
    pass


class VecInv2(CheckedPVector):
    __invariant__ = inv2


class VecBoth(VecInv, VecInv2):
    __type__ = T3


class VecDiamond(VecBoth, VecInv2):
    pass


class VecMany(CheckedPVector):
    __invariant__ = inv12


class VecMore(VecMany):
    __invariant__ = inv3


class SetDeep(SetSub):
    pass


class SetDeeper(SetDeep):
    pass


class SetMany(CheckedPSet):
    __invariant__ = inv12


class MapDeep(MapSub):
    pass


class MapDeeper(MapDeep):
    pass


class RecDeep(RecSub):
    pass


class RecMixin(PRecord):
    e = field(type=T2, invariant=inv3, mandatory=True)


class RecMulti(RecDeep, RecMixin):
    pass


class RecMany(PRecord):
    x = field(invariant=inv12, mandatory=True)


class ClsDeep(ClsSub):
    pass


class ClsMixin(PClass):
    e = field(type=T2, invariant=inv3, mandatory=True)


class ClsMany(PClass):
    x = field(invariant=inv12, mandatory=True)


class RecRe(Rec):
    a = field(type=T2, invariant=inv3, mandatory=True)


class ClsRe(Cls):
    a = field(type=T2, invariant=inv3, mandatory=True)


# ---- fields holding collections
class RecVec(PRecord):
    p = pvector_field(T1, item_invariant=inv1)


class RecVec2(PRecord):
    p = pvector_field(T2, invariant=inv3)
    q = pvector_field((T1, T2))


class RecSet(PRecord):
    p = pset_field(T1, optional=True)
    q = pset_field(T2, item_invariant=inv2)


class RecMap(PRecord):
    p = pmap_field(T1, T2)
    q = pmap_field(T2, T1, optional=True)
    r = pmap_field(T1, T3)
    s = pmap_field(T3, T2)


class RecSame(PRecord):
    p = pvector_field(T3, item_invariant=inv1)
    q = pvector_field(T3, item_invariant=inv2)


class ClsVec(PClass):
    p = pvector_field(T1, item_invariant=inv1)
    q = pvector_field(T2)


class Box(object):
    def __init__(self, a, k):
        self.a = a
        self.k = k


@mutant
def mut_args(*a, **k):
    return Box(a, k)


@mutant
def mut_result():
    return {'k': [{'b'}, (['c'],)]}


@mutant
def mut_result2():
    return pvector([['c']])
