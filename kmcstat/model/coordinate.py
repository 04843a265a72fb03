"""Reference model: coordinates."""


class Coordinate:
    def norm(self):
        return sqrt(self.x_ * self.x_ + self.y_ * self.y_ + self.z_ * self.z_)

    def distanceToOrigin(self):
        return sqrt(self.x_ * self.x_ + self.y_ * self.y_ + self.z_ * self.z_)

    def distance(self, other):
        dx, dy, dz = self.x_ - other.x_, self.y_ - other.y_, self.z_ - other.z_
        return sqrt(dx * dx + dy * dy + dz * dz)

    def outerProdDiag(self, other):
        return Coordinate(self.x_ * other.x_, self.y_ * other.y_, self.z_ * other.z_)

    def dot(self, other):
        return self.x_ * other.x_ + self.y_ * other.y_ + self.z_ * other.z_

    @code('operator<')
    def _lt(self, other):
        if self.x_ != other.x_:
            return self.x_ < other.x_
        if self.y_ != other.y_:
            return self.y_ < other.y_
        return self.z_ < other.z_

    @code('operator==')
    def _eq(self, other):
        return self.x_ == other.x_ and self.y_ == other.y_ and self.z_ == other.z_

    @code('operator!=')
    def _ne(self, other):
        return not (self.x_ == other.x_ and self.y_ == other.y_ and self.z_ == other.z_)

    @code('operator-')
    def _sub(self, other):
        return Coordinate(self.x_ - other.x_, self.y_ - other.y_, self.z_ - other.z_)

    @code('operator+')
    def _add(self, other):
        return Coordinate(self.x_ + other.x_, self.y_ + other.y_, self.z_ + other.z_)

    @code('operator+=')
    def _iadd(self, other):
        self.x_ += other.x_
        self.y_ += other.y_
        self.z_ += other.z_

    @code('operator*')
    def _mul(self, s):
        return Coordinate(self.x_ * s, self.y_ * s, self.z_ * s)

    @code('operator[]')
    def _get(self, i):
        return self.x_ if i < 1 else self.y_ if i < 2 else self.z_

    def data(self):
        return [self.x_, self.y_, self.z_]
