"""Python text of the mixin methods of collections.abc; analysed, never run."""


class Mapping(object):
    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    def __contains__(self, key):
        try:
            self[key]
        except KeyError:
            return False
        return True

    def keys(self):
        return [k for k in self]

    def values(self):
        return [self[k] for k in self]

    def items(self):
        return [(k, self[k]) for k in self]


class MutableMapping(Mapping):
    def pop(self, key, *default):
        try:
            value = self[key]
        except KeyError:
            if default:
                return default[0]
            raise
        else:
            del self[key]
            return value

    def setdefault(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            self[key] = default
        return default

    def update(self, other=(), **kwds):
        for key in other:
            self[key] = other[key]
        for key, value in kwds.items():
            self[key] = value

    def popitem(self):
        for key in self:
            value = self[key]
            del self[key]
            return key, value
        raise KeyError

    def clear(self):
        while True:
            try:
                self.popitem()
            except KeyError:
                break
