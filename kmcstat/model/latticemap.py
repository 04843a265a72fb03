"""Reference model: lattice indices, cells and periodic boundaries."""


def _fold_back(i, n, periodic):
    if periodic:
        if i < 0:
            return i + n
        if i >= n:
            return i - n
    return i


def _minimum_image(x, n):
    if x >= n / 2:
        return x - n
    if x < -n / 2:
        return x + n
    return x


class LatticeMap:
    @code('LatticeMap', sig='const std::vector<int>')
    def _construct(self, n_basis, repetitions, periodic):
        self.n_basis_ = n_basis
        self.repetitions_ = repetitions
        self.periodic_ = periodic

    def indicesFromCell(self, i, j, k):
        base = ((i * self.repetitions_[1] + j) * self.repetitions_[2] + k) * self.n_basis_
        return table(self.n_basis_, lambda l: base + l)

    def basisSiteFromIndex(self, index):
        return index % self.n_basis_


    @code('wrap', sig='(Coordinate &, const int)', cases={'p1': [0, 1, 2]})
    def _wrap1(self, c, direction):
        n = self.repetitions_[direction]
        if direction < 1:
            c.x_ = _minimum_image(c.x_, n)
        elif direction < 2:
            c.y_ = _minimum_image(c.y_, n)
        else:
            c.z_ = _minimum_image(c.z_, n)

    @code('wrap', sig='(Coordinate &) const')
    def _wrap3(self, c):
        if self.periodic_[0]:
            self.wrap(c, 0)
        if self.periodic_[1]:
            self.wrap(c, 1)
        if self.periodic_[2]:
            self.wrap(c, 2)

    def supersetNeighbourIndices(self, indices, shells):
        out = []
        for i in range(len(indices)):
            n = self.neighbourIndices(indices[i], shells)
            for j in range(len(n)):
                out.append(n[j])
        out.sort()
        out.unique()
        return out

    def indexToCell(self, index, i, j, k):
        n = idiv(index, self.n_basis_) + 1
        fi = self.repetitions_[1] * self.repetitions_[2]
        i = trunc((n - 1.0e-9) / fi)
        n = n - i * fi
        fj = self.repetitions_[2]
        j = trunc((n - 1.0e-9) / fj)
        n = n - j * fj
        k = trunc(n - 1.0e-9)

    def indexFromMoveInfo(self, index, i, j, k, basis):
        ci, cj, ck = undefined(), undefined(), undefined()
        self.indexToCell(index, ci, cj, ck)
        ci = _fold_back(ci + i, self.repetitions_[0], self.periodic_[0])
        cj = _fold_back(cj + j, self.repetitions_[1], self.periodic_[1])
        ck = _fold_back(ck + k, self.repetitions_[2], self.periodic_[2])
        return self.indicesFromCell(ci, cj, ck)[basis + index % self.n_basis_]

    @code('neighbourIndices', alt='neighbourIndices',
          cases={'this.periodic_': [[False, False, False], [False, False, True], [False, True, False], [False, True, True],
                                     [True, False, False], [True, False, True], [True, True, False], [True, True, True]]})
    def _neighbours_sized(self, index, shells):
        ci, cj, ck = undefined(), undefined(), undefined()
        self.indexToCell(index, ci, cj, ck)
        out = filled(trunc((2 * shells + 1) ** 3 * self.n_basis_), 0)
        n = 0
        for i in range(ci - shells, ci + shells + 1):
            ii = _fold_back(i, self.repetitions_[0], self.periodic_[0])
            if 0 <= ii and ii < self.repetitions_[0]:
                for j in range(cj - shells, cj + shells + 1):
                    jj = _fold_back(j, self.repetitions_[1], self.periodic_[1])
                    if 0 <= jj and jj < self.repetitions_[1]:
                        for k in range(ck - shells, ck + shells + 1):
                            kk = _fold_back(k, self.repetitions_[2], self.periodic_[2])
                            if 0 <= kk and kk < self.repetitions_[2]:
                                cell = self.indicesFromCell(ii, jj, kk)
                                for l in range(self.n_basis_):
                                    out[n + l] = cell[l]
                                n += self.n_basis_
        out.resize(n)
        return out

    @code('neighbourIndices', alt='neighbourIndices',
          cases={'this.periodic_': [[False, False, False], [False, False, True], [False, True, False], [False, True, True],
                                     [True, False, False], [True, False, True], [True, True, False], [True, True, True]]})
    def _neighbours_appended(self, index, shells):
        ci, cj, ck = undefined(), undefined(), undefined()
        self.indexToCell(index, ci, cj, ck)
        out = []
        for i in range(ci - shells, ci + shells + 1):
            ii = _fold_back(i, self.repetitions_[0], self.periodic_[0])
            if 0 <= ii and ii < self.repetitions_[0]:
                for j in range(cj - shells, cj + shells + 1):
                    jj = _fold_back(j, self.repetitions_[1], self.periodic_[1])
                    if 0 <= jj and jj < self.repetitions_[1]:
                        for k in range(ck - shells, ck + shells + 1):
                            kk = _fold_back(k, self.repetitions_[2], self.periodic_[2])
                            if 0 <= kk and kk < self.repetitions_[2]:
                                cell = self.indicesFromCell(ii, jj, kk)
                                for l in range(self.n_basis_):
                                    out.append(cell[l])
        return out
