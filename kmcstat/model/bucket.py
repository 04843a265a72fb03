"""Reference model: type buckets."""


class TypeBucket:
    def identical(self, other):
        return len(self) == len(other) and forall(len(self), lambda i: self[i] == other[i])

    @code('operator==', sig='const int')
    def _only(self, i):
        if len(self) <= i:
            raise Error()
        return forall(len(self), lambda j: self[j] == (1 if j == i else 0))

    @code('operator==', sig='TypeBucket')
    def _eq(self, other):
        return len(self) == len(other) and forall(len(self), lambda i: self[i] == other[i])

    @code('operator!=')
    def _ne(self, other):
        return not (len(self) == len(other) and forall(len(self), lambda i: self[i] == other[i]))

    def greaterOrEqual(self, other):
        if len(self) != len(other):
            raise Error()
        n = len(self)
        k = first_index(n, lambda i: self[i] != other[i])
        return k == n or self[k] > other[k]

    def lessThan(self, other):
        if len(self) != len(other):
            raise Error()
        n = len(self)
        k = first_index(n, lambda i: self[i] != other[i])
        return not (k == n or self[k] > other[k])

    def match(self, other):
        if len(self) != len(other):
            raise Error()
        return forall(len(self), lambda i: self[i] <= other[i])

    def add(self, other):
        if len(self) != len(other):
            raise Error()
        return table(len(self), lambda i: self[i] + other[i])

    def size(self):
        return len(self)

    @code('operator[]', sig=') const')
    def _get(self, i):
        return self[i]
