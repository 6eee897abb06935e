"""A client of the package.  It is analysed together with the package and never executed: the declarations below are
the user-defined types the constraint properties quantify over.  Upper case names that are not bound here (OK1, MK1,
INITIAL...) are opaque user functions and values."""
from pyrsistent import (CheckedPVector, CheckedPSet, CheckedPMap, PRecord, PClass, field, pvector_field, pset_field,
                        pmap_field, mutant, pvector)


class T1(object):
    pass


class T2(object):
    pass


class T3(object):
    pass


def inv1(x):
    return (True, None) if OK1(x) else (False, MSG1(x))


def inv2(x):
    return (True, None) if OK2(x) else (False, MSG2(x))


def minv(k, v):
    return (True, None) if OK1(k, v) else (False, MSG1(k, v))


def minv2(k, v):
    return (True, None) if OK2(k, v) else (False, MSG2(k, v))


# ---- checked collections: type and invariant / two types and two invariants, inherited / only one of the two
class Vec(CheckedPVector):
    __type__ = T1
    __invariant__ = inv1


class VecTypes(CheckedPVector):
    __type__ = (T1, T2)


class VecInv(CheckedPVector):
    __invariant__ = inv1


class VecSub(Vec):
    __invariant__ = inv2


class VecSubType(VecInv):
    __type__ = T2


class VecName(CheckedPVector):
    __type__ = 'client.T1'


class VecOfVec(CheckedPVector):
    __type__ = Vec


class Set_(CheckedPSet):
    __type__ = T1
    __invariant__ = inv1


class SetTypes(CheckedPSet):
    __type__ = (T1, T2)


class SetInv(CheckedPSet):
    __invariant__ = inv1


class SetSub(Set_):
    __invariant__ = inv2


class Map(CheckedPMap):
    __key_type__ = T1
    __value_type__ = T2
    __invariant__ = minv


class MapKey(CheckedPMap):
    __key_type__ = T1


class MapValue(CheckedPMap):
    __value_type__ = (T1, T2)


class MapInv(CheckedPMap):
    __invariant__ = minv


class MapSub(Map):
    __invariant__ = minv2


def ginv(subject):
    return (True, None) if GOK1(subject) else (False, GMSG1(subject))


def ginv2(subject):
    return (True, None) if GOK2(subject) else (False, GMSG2(subject))


class Rec(PRecord):
    __invariant__ = ginv
    a = field(type=T1, invariant=inv1, mandatory=True)
    b = field(type=(T1, T2), factory=MK1, initial=INITIAL_B)
    c = field(invariant=inv2)


class RecSub(Rec):
    __invariant__ = ginv2
    d = field(type=T3, mandatory=True)


class Rec0(PRecord):
    x = field()


class Cls(PClass):
    __invariant__ = ginv
    a = field(type=T1, invariant=inv1, mandatory=True)
    b = field(type=(T1, T2), factory=MK1, initial=INITIAL_B)
    c = field(invariant=inv2)


class ClsSub(Cls):
    __invariant__ = ginv2
    d = field(type=T3, mandatory=True)


class Cls0(PClass):
    x = field()
