"""Contract of the persistent map, as source.  It replaces the core of PMap when the layers above the map are
analysed (sets, bags, checked maps, records); the map itself is checked against this contract separately.
Names in capitals stand for the private attributes the map uses at present."""


class _SpecStore(object):
    __slots__ = ('_d', '_dirty', '_o')

    def __init__(self, d):
        self._d = dict(d)
        self._o = d
        self._dirty = False

    def persistent(self):
        if self._dirty:
            self._o = dict(self._d)
            self._dirty = False
        return self._o

    def is_dirty(self):
        return self._dirty

    def __len__(self):
        return len(self._d)


class PMap:
    @staticmethod
    def _getitem(buckets, key):
        if isinstance(buckets, _SpecStore):
            return buckets._d[key]
        return buckets[key]

    @staticmethod
    def _contains(buckets, key):
        if isinstance(buckets, _SpecStore):
            return key in buckets._d
        return key in buckets

    def __getitem__(self, key):
        return self.BUCKETS[key]

    def __contains__(self, key):
        return key in self.BUCKETS

    def __iter__(self):
        return iter(self.BUCKETS)

    def iterkeys(self):
        for k in self.BUCKETS:
            yield k

    def itervalues(self):
        for k in self.BUCKETS:
            yield self.BUCKETS[k]

    def iteritems(self):
        for k, v in self.BUCKETS.items():
            yield k, v

    def __len__(self):
        return len(self.BUCKETS)

    class _Evolver(object):
        def __init__(self, original_pmap):
            self.ORIG = original_pmap
            self.EBUCKETS = _SpecStore(original_pmap.BUCKETS)
            self.ESIZE = original_pmap.SIZE

        def __getitem__(self, key):
            return self.EBUCKETS._d[key]

        def __setitem__(self, key, val):
            self.set(key, val)

        def set(self, key, val):
            d = self.EBUCKETS._d
            if key in d:
                if d[key] is not val:
                    d[key] = val
                    self.EBUCKETS._dirty = True
            else:
                d[key] = val
                self.EBUCKETS._dirty = True
                self.ESIZE += 1
            return self

        def is_dirty(self):
            return self.EBUCKETS._dirty

        def persistent(self):
            if self.is_dirty():
                self.ORIG = PMap(self.ESIZE, self.EBUCKETS.persistent())
            return self.ORIG

        def __len__(self):
            return self.ESIZE

        def __contains__(self, key):
            return key in self.EBUCKETS._d

        def __delitem__(self, key):
            self.remove(key)

        def remove(self, key):
            d = self.EBUCKETS._d
            if key in d:
                del d[key]
                self.EBUCKETS._dirty = True
                self.ESIZE -= 1
                return self
            raise KeyError(key)


def _turbo_mapping(initial, pre_size):
    d = dict(initial)
    return PMap(len(d), d)
