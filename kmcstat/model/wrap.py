"""Reference model: what the Python interface adds to coordinates and type buckets."""


def extend_Coordinate___getitem__(self, i):
    if i > 2:
        raise Error()
    if i < 1:
        return self.x_
    if i < 2:
        return self.y_
    return self.z_


def extend_Coordinate___setitem__(self, i, value):
    if i > 2:
        raise Error()
    if i < 1:
        self.x_ = value
    elif i < 2:
        self.y_ = value
    else:
        self.z_ = value


def extend_TypeBucket___getitem__(self, i):
    if i >= len(self):
        raise Error()
    return self[i]


def extend_TypeBucket___setitem__(self, i, value):
    if i >= len(self):
        raise Error()
    self[i] = value


def extend_TypeBucket___len__(self):
    return len(self)
