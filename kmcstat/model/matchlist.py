"""Reference model: match list entries, their order, matching and multiplicity."""

EPS = 1.0e-5


def _same(d1, x1, y1, z1, d2, x2, y2, z2):
    return abs(d2 - d1) <= EPS and abs(x2 - x1) <= EPS and abs(y2 - y1) <= EPS and abs(z2 - z1) <= EPS


def _before(d1, x1, y1, z1, d2, x2, y2, z2):
    if abs(d2 - d1) < EPS:
        if x1 != x2:
            return x1 < x2
        if y1 != y2:
            return y1 < y2
        return z1 < z2
    return d1 < d2


@code('samePoint', sig='(const MinimalMatchListEntry')
def _same_mm(m1, m2):
    return _same(m1.distance, m1.x, m1.y, m1.z, m2.distance, m2.x, m2.y, m2.z)


@code('samePoint', sig='(const ProcessBucketMatchListEntry')
def _same_pm(m1, m2):
    c = m1.coordinate
    return _same(m1.distance, c.x_, c.y_, c.z_, m2.distance, m2.x, m2.y, m2.z)


@code('operator<', sig='(const MinimalMatchListEntry &, const MinimalMatchListEntry')
def _lt_mm(m1, m2):
    return _before(m1.distance, m1.x, m1.y, m1.z, m2.distance, m2.x, m2.y, m2.z)


@code('operator<', sig='(const ProcessBucketMatchListEntry &, const MinimalMatchListEntry')
def _lt_pm(m1, m2):
    c = m1.coordinate
    return _before(m1.distance, c.x_, c.y_, c.z_, m2.distance, m2.x, m2.y, m2.z)


@code('operator<', sig='(const ProcessBucketMatchListEntry &, const ProcessBucketMatchListEntry')
def _lt_pp(m1, m2):
    c, d = m1.coordinate, m2.coordinate
    return _before(m1.distance, c.x_, c.y_, c.z_, m2.distance, d.x_, d.y_, d.z_)


class ProcessBucketMatchListEntry:
    def match(self, m2):
        if self.match_types[0] == 1:
            return True
        if not self.match_types.match(m2.match_types):
            return False
        return samePoint(self, m2)

    def initWildcard(self, c):
        self.index = -1
        self.distance = c.distance
        self.coordinate = Coordinate(c.x, c.y, c.z)
        self.match_types = filled(len(c.match_types), 0)
        self.update_types = filled(len(c.match_types), 0)
        self.match_types[0] = 1


@code('whateverMatch')
def _whatever(m1, m2):
    if len(m2) < len(m1):
        return False
    for i in range(len(m1)):
        if not m1[i].match(m2[i]):
            return False
    return True


def _update_types(first, second, i):
    if len(second.update_info_) == 0:
        t1, t2 = first.types_[i], second.types_[i]
        return table(len(t2), lambda j: t2[j] - t1[j])
    upd = TypeBucket(len(second.possible_types_))
    info = second.update_info_[i]
    for name, n in info.items():
        upd[second.possible_types_[name]] = n
    return upd


def _extent(x):
    # lattice cells spanned by a coordinate
    return trunc(-x + 0.99999 if x < 0 else x)


@code('configurationsToMatchList')
def _c2ml(first, second, rng, cutoff, match_list, affected):
    c = first.coordinates_
    o = c[0]
    for i in range(len(first.elements_)):
        d = sqrt((c[i].x_ - o.x_) * (c[i].x_ - o.x_) + (c[i].y_ - o.y_) * (c[i].y_ - o.y_) +
                 (c[i].z_ - o.z_) * (c[i].z_ - o.z_))
        if cutoff < d:
            cutoff = d
        rng = max(_extent(c[i].x_), rng)
        rng = max(_extent(c[i].y_), rng)
        rng = max(_extent(c[i].z_), rng)
        u = _update_types(first, second, i)
        match_list.append(record('ProcessBucketMatchListEntry', match_types=first.types_[i], update_types=u,
                                 distance=d, coordinate=c[i], index=-1, has_move_coordinate=False,
                                 move_coordinate=Coordinate(0, 0, 0)))
        if exists(len(u), lambda j: u[j] != 0):
            affected.append(0)


@code('multiplicity')
def _mult(process_list, config_list):
    m = 1
    for k in range(len(process_list)):
        need, have = process_list[k].match_types, config_list[k].match_types
        if need[0] == 0:
            for i in range(1, len(need)):
                if need[i] > 0:
                    n, r = have[i], need[i]
                    hi = max(r, n - r)
                    lo = min(r, n - r)
                    if lo != 0:
                        num = n
                        j = n - 1
                        while j > hi:
                            num *= j
                            j -= 1
                        den = lo
                        j = lo - 1
                        while j > 0:
                            den *= j
                            j -= 1
                        m *= num / den
    return m
