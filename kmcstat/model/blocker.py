"""Reference model: block averages (Blocker)."""


class Blocker:
    @code('Blocker')
    def _construct(self, nbins, blocksize):
        self.blocksize_ = blocksize
        self.counts_since_last_block_ = filled(nbins, 0)
        self.histogram_block_ = filled(nbins, Coordinate(0, 0, 0))
        self.hst_blocks_ = filled(nbins, [])

    def registerStep(self, b, value):
        h = self.histogram_block_[b]
        s = Coordinate(h.x_ + value.x_, h.y_ + value.y_, h.z_ + value.z_)
        n = self.counts_since_last_block_[b] + 1
        if n == self.blocksize_:
            self.hst_blocks_[b].append(s)
            s = Coordinate(0, 0, 0)
            n = 0
        self.histogram_block_[b] = s
        self.counts_since_last_block_[b] = n

    def values(self, counts, buf):
        out = filled(len(counts), pair(Coordinate(0, 0, 0), Coordinate(0, 0, 0)))
        B = self.blocksize_
        for i in range(len(self.hst_blocks_)):
            c = counts[i] if counts[i] != 0 else 1
            rx, ry, rz = buf[i].x_ / c, buf[i].y_ / c, buf[i].z_ / c
            bl = self.hst_blocks_[i]
            n = len(bl)
            s = pair(Coordinate(-1, -1, -1), Coordinate(-1, -1, -1))
            if n > 1:
                sx = sqrt(summed(n, lambda j: (bl[j].x_ / B - rx) ** 2) / n / (n - 1))
                sy = sqrt(summed(n, lambda j: (bl[j].y_ / B - ry) ** 2) / n / (n - 1))
                sz = sqrt(summed(n, lambda j: (bl[j].z_ / B - rz) ** 2) / n / (n - 1))
                q = sqrt(2 * n - 2)
                s = pair(Coordinate(sx, sy, sz), Coordinate(sx / q, sy / q, sz / q))
            out[i] = s
        return out
