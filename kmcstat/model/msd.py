"""Reference model: on-the-fly mean square displacement."""


class OnTheFlyMSD:
    @code('OnTheFlyMSD')
    def _construct(self, configuration, history_steps, n_bins, t_max, t0, track_type, abc_to_xyz, blocksize):
        ids = configuration.atom_id_coordinates_
        h = filled(len(configuration.elements_), [])
        for i in range(len(ids)):
            if configuration.atom_id_elements_[i] == track_type:
                h[i].append(pair(ids[i], t0))
        self.history_buffer_ = h
        self.histogram_buffer_ = filled(n_bins, Coordinate(0, 0, 0))
        self.histogram_buffer_sqr_ = filled(n_bins, Coordinate(0, 0, 0))
        self.histogram_bin_counts_ = filled(n_bins, 0)
        self.track_type_ = track_type
        self.t_max_ = t_max
        self.bin_size_ = t_max / n_bins
        self.history_steps_ = history_steps
        self.history_steps_bin_counts_ = filled(history_steps - 1, filled(n_bins, 0))
        self.abc_to_xyz_ = abc_to_xyz
        self.hstep_counts_ = filled(history_steps, 0)
        self.blocker_ = Blocker(n_bins, blocksize)

    def registerStep(self, time, configuration):
        moved = configuration.movedAtomIDs()
        for i in range(len(moved)):
            a = moved[i]
            if configuration.atom_id_elements_[a] == self.track_type_:
                # newest first, at most history_steps_ entries
                if len(self.history_buffer_[a]) < self.history_steps_:
                    self.history_buffer_[a].append(pair(Coordinate(0, 0, 0), 0.0))
                j = len(self.history_buffer_[a]) - 1
                while j > 0:
                    self.history_buffer_[a][j] = self.history_buffer_[a][j - 1]
                    j -= 1
                self.history_buffer_[a][0] = pair(configuration.atom_id_coordinates_[a], time)
                calculateAndBinMSD(self.history_buffer_[a], self.abc_to_xyz_, self.bin_size_, self.histogram_buffer_,
                                   self.histogram_buffer_sqr_, self.histogram_bin_counts_,
                                   self.history_steps_bin_counts_, self.hstep_counts_, self.blocker_)



@code('calculateAndBinMSD')
def _bin(history, abc, width, hist, sqr, counts, step_bins, steps, blocker):
    for i in range(1, len(history)):
        steps[i - 1] += 1
        b = trunc((history[0].second - history[i].second) / width)
        if b < len(hist):
            p, q = history[i].first, history[0].first
            x, y, z = p.x_ - q.x_, p.y_ - q.y_, p.z_ - q.z_
            u = x * abc[0].x_ + y * abc[0].y_ + z * abc[0].z_
            v = x * abc[1].x_ + y * abc[1].y_ + z * abc[1].z_
            w = x * abc[2].x_ + y * abc[2].y_ + z * abc[2].z_
            hist[b] = Coordinate(hist[b].x_ + u * u, hist[b].y_ + v * v, hist[b].z_ + w * w)
            sqr[b] = Coordinate(sqr[b].x_ + u ** 4, sqr[b].y_ + v ** 4, sqr[b].z_ + w ** 4)
            counts[b] += 1
            step_bins[i - 1][b] += 1
            blocker.registerStep(b, Coordinate(u * u, v * v, w * w))
