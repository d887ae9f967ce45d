"""Library functions given by their definition; interpreted like repository code."""


def sum_(it, start=0):
    acc = start
    for x in it:
        acc = acc + x
    return acc


def reduce_(f, it):
    first, *rest = it
    acc = first
    for x in rest:
        acc = f(acc, x)
    return acc


def reduce_init(f, it, init):
    acc = init
    for x in it:
        acc = f(acc, x)
    return acc


def max_(it, key):
    first, *rest = it
    best = first
    kb = key(best)
    for x in rest:
        kx = key(x)
        if kx > kb:
            best = x
            kb = kx
    return best


def max_plain(it):
    first, *rest = it
    best = first
    for x in rest:
        if x > best:
            best = x
    return best


def min_(it, key):
    first, *rest = it
    best = first
    kb = key(best)
    for x in rest:
        kx = key(x)
        if kx < kb:
            best = x
            kb = kx
    return best


def min_plain(it):
    first, *rest = it
    best = first
    for x in rest:
        if x < best:
            best = x
    return best


def any_(it):
    for x in it:
        if x:
            return True
    return False


def firsts(it):
    out = []
    for x in it:
        if x not in out:
            out.append(x)
    return out


def all_(it):
    for x in it:
        if not x:
            return False
    return True


def map1(f, it):
    return [f(x) for x in it]


def mapn(f, its):
    return [f(*xs) for xs in its]


def filter_(f, it):
    return [x for x in it if f(x)]


def filter_none(it):
    return [x for x in it if x]


def prod_(it, start=1):
    acc = start
    for x in it:
        acc = acc * x
    return acc


def count_elsewhere(mapping, key):
    raise NotImplementedError("given by the verifier: any number")


class CountsAt:
    """a mapping of counts with any number of entries, observed at one arbitrary key

    What a mapping holds at the observed key is tracked; at every other key it is an arbitrary number (an error there is
    an error at the observed key of another observation).  entries: the items in insertion order, of an unwritten mapping."""

    def __init__(self, key, count, present, entries, strict):
        self.key = key
        self.count = count
        self.present = present
        self.entries = entries
        self.strict = strict
        self.written = False

    def __getitem__(self, key):
        if key == self.key:
            if self.strict and not self.present:
                raise KeyError(key)
            return self.count  # 0 as long as it is absent
        return count_elsewhere(self, key)

    def __setitem__(self, key, value):
        self.written = True
        if key == self.key:
            self.count = value
            self.present = True

    def __contains__(self, key):
        if key == self.key:
            return self.present
        return count_elsewhere(self, key) > 0

    def get(self, key, default=None):
        if key == self.key:
            if default == 0 or self.present:
                return self.count
            return default
        return count_elsewhere(self, key)

    def _items(self):
        if self.written:
            raise NotImplementedError("entries of a mapping that was written")
        return self.entries

    def items(self):
        return iter(self._items())

    def keys(self):
        return iter([k for k, _ in self._items()])

    def __iter__(self):
        return iter([k for k, _ in self._items()])

    def copy(self):
        other = CountsAt(self.key, self.count, self.present, self.entries, self.strict)
        other.written = self.written
        return other

    def update(self, other):
        for k, v in other.items():
            if self.strict:
                self[k] = v
            else:
                self[k] = self[k] + v

    def __add__(self, other):
        total = self.count + other.count
        both = CountsAt(self.key, total, (self.present or other.present) and total > 0, self.entries, False)
        both.written = True
        return both


CountsAt.__module__ = "orquestra.ghost"
