"""Reference model: analysis plugins."""


class Composition(KMCAnalysisPlugin):

    def __init__(self, time_interval=None):
        self.__time_interval = checkPositiveFloat(time_interval, 1.0, 'time_interval')
        self.__current_steps = 0
        self.__last_time = 0.0
        self.__data = []
        self.__current_count = None
        self.__empty_count = None

    def setup(self, step, time, configuration):
        self.__last_time = time
        self.__empty_count = numpy.array([0] * len(configuration._backendTypeNames()))
        self.__current_count = numpy.array(configuration.particlesPerType())
        self.__current_steps = 1
        self.__type_names = configuration._backendTypeNames()

    def registerStep(self, step, time, configuration):
        if time - self.__last_time > self.__time_interval:
            step_data = self.__current_count / (self.__current_steps * 1.0)
            self.__data.append(step_data)
            self.__current_count = numpy.array(self.__empty_count)
            self.__current_steps = 0
            self.__last_time = time
        self.__current_count += numpy.array(configuration.particlesPerType())
        self.__current_steps += 1

    def finalize(self):
        pass

    def printResults(self, stream=sys.stdout):
        if MPICommons.isMaster():
            format_str = ' %15.3e' * len(self.__empty_count)
            format_str += '\n'
            format_str_1 = ' %15s' * len(self.__empty_count)
            format_str_1 += '\n'
            types_str = ['time']
            for t in self.__type_names[1:]:
                types_str.append(t)
            stream.write(format_str_1 % tuple(types_str))
            for i, d in enumerate(self.__data):
                t = i * self.__time_interval + self.__time_interval / 2.0
                tt = [t]
                for dd in d[1:]:
                    tt.append(dd)
                stream.write(format_str % tuple(tt))

    def data(self):
        return self.__data

    def times(self):
        return numpy.array([i * self.__time_interval + self.__time_interval / 2.0 for i, d in enumerate(self.__data)])


class OnTheFlyMSD(KMCAnalysisPlugin):

    def __init__(self, history_steps=None, n_bins=None, t_max=None, track_type=None):
        self.__history_steps = checkPositiveInteger(history_steps, 5, 'history_step')
        self.__n_bins = checkPositiveInteger(n_bins, 100, 'n_bins')
        self.__t_max = checkPositiveFloat(t_max, 100.0, 't_max')
        if not isinstance(track_type, str):
            raise Error()
        self.__track_type = track_type
        self.__binsize = self.__t_max / self.__n_bins
        self.__n_steps = 0
        self.__blocksize = 0

    def setup(self, step, time, configuration):
        if not self.__track_type in configuration.possibleTypes():
            raise Error()
        abc_to_xyz = numpy.array(configuration.lattice().unitCell().cellVectors()).transpose()
        abc_to_xyz_cpp = numpy2DArrayToStdVectorCoordinate(abc_to_xyz)
        self.__backend = Backend.OnTheFlyMSD(configuration._backend(), self.__history_steps, self.__n_bins, self.__t_max, time, self.__track_type, abc_to_xyz_cpp, self.__blocksize)

    def registerStep(self, step, time, configuration):
        self.__backend.registerStep(time, configuration._backend())
        self.__n_steps += 1

    def finalize(self):
        self.__getBackendResults()
        self.__n_eff = numpy.zeros(len(self.__bin_counters))
        for b in range(len(self.__history_bin_counters)):
            for i in range(len(self.__n_eff)):
                if self.__history_bin_counters[b][i] != 0 and self.__bin_counters[i] != 0:
                    fraction = float(self.__history_bin_counters[b][i]) / float(self.__bin_counters[i])
                    n_value = b + 1.0
                    self.__n_eff[i] += fraction * n_value
        bin_counters_copy = numpy.array(self.__bin_counters)
        where = bin_counters_copy == 0
        bin_counters_copy[where] = 1
        self.__results = numpy.zeros((7, self.__n_bins))
        self.__results[0] = self.__raw_histogram[:, 0] / bin_counters_copy
        self.__results[1] = self.__raw_histogram[:, 1] / bin_counters_copy
        self.__results[2] = self.__raw_histogram[:, 2] / bin_counters_copy
        self.__results[3] = (self.__raw_histogram[:, 0] + self.__raw_histogram[:, 1]) / bin_counters_copy
        self.__results[4] = (self.__raw_histogram[:, 0] + self.__raw_histogram[:, 2]) / bin_counters_copy
        self.__results[5] = (self.__raw_histogram[:, 1] + self.__raw_histogram[:, 2]) / bin_counters_copy
        self.__results[6] = (self.__raw_histogram[:, 0] + self.__raw_histogram[:, 1] + self.__raw_histogram[:, 2]) / bin_counters_copy
        self.__time_steps = (numpy.arange(self.__n_bins) + 1) * self.__binsize - self.__binsize / 2.0
        self.__std_dev = numpy.zeros((7, self.__n_bins))
        for i in range(len(self.__results[0])):
            n1 = self.__n_eff[i]
            if int(n1 + 1.0) < len(self.__hstep_counts) and n1 > 1e-12:
                K1 = self.__hstep_counts[int(n1 + 1.0)]
                if K1 > 0:
                    n2 = n1 * n1
                    n3 = n2 * n1
                    n4 = n3 * n1
                    K2 = K1 * K1
                    K3 = K2 * K1
                    if n1 <= K1:
                        factor = numpy.sqrt(2.0) * numpy.sqrt((4 * n2 * K1 + 2 * K1 + n1 - n3) / (n1 * 6 * K2))
                    else:
                        factor = numpy.sqrt(2.0) * numpy.sqrt(1 + (K3 - 4 * n1 * K2 + 4 * n1 - K1) / (6 * n2 * K1))
                    self.__std_dev[0][i] = self.__results[0][i] * factor
                    self.__std_dev[1][i] = self.__results[1][i] * factor
                    self.__std_dev[2][i] = self.__results[2][i] * factor
                    two_d = numpy.sqrt(1.0 / 2.0)
                    self.__std_dev[3][i] = self.__results[3][i] * factor * two_d
                    self.__std_dev[4][i] = self.__results[4][i] * factor * two_d
                    self.__std_dev[5][i] = self.__results[5][i] * factor * two_d
                    three_d = numpy.sqrt(1.0 / 3.0)
                    self.__std_dev[6][i] = self.__results[6][i] * factor * three_d

    @code('__getBackendResults')
    def __getBackendResults(self):
        self.__raw_histogram = stdVectorCoordinateToNumpy2DArray(self.__backend.histogramBuffer())
        self.__bin_counters = self.__backend.histogramBinCounts()
        self.__history_bin_counters = self.__backend.historyStepsHistogramBinCounts()
        self.__hstep_counts = self.__backend.hstepCounts()

    def results(self):
        return self.__results

    def timeSteps(self):
        return self.__time_steps

    def stdDev(self):
        return self.__std_dev

    def binCounters(self):
        return self.__bin_counters

    def safeCutoff(self):
        limit = 0.01 * max(self.__history_bin_counters[-1])
        for i, c in enumerate(self.__history_bin_counters[-1]):
            if c > limit:
                return i
        return i + 1

    def printResults(self, stream=sys.stdout):
        if MPICommons.isMaster():
            cutoff_bin = self.safeCutoff()
            all_results = list(zip(self.__time_steps, self.__results[0], self.__results[1], self.__results[2], self.__results[3], self.__results[4], self.__results[5], self.__results[6], self.__std_dev[0], self.__std_dev[1], self.__std_dev[2], self.__std_dev[3], self.__std_dev[4], self.__std_dev[5], self.__std_dev[6], self.__n_eff))[:cutoff_bin]
            stream.write('%11s %11s %11s %11s %11s %11s %11s %11s %11s %11s %11s %11s %11s %11s %11s %11s\n' % ('TIME ', 'MSD_x ', 'MSD_y ', 'MSD_z ', 'MSD_xy ', 'MSD_xz ', 'MSD_yz ', 'MSD_xyz ', 'STD_x ', 'STD_y ', 'STD_z ', 'STD_xy ', 'STD_xz ', 'STD_yz ', 'STD_xyz ', 'N_eff'))
            for t, x, y, z, xy, xz, yz, xyz, sx, sy, sz, sxy, sxz, syz, sxyz, nf in all_results:
                stream.write('%11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e %11.5e\n' % (t, x, y, z, xy, xz, yz, xyz, sx, sy, sz, sxy, sxz, syz, sxyz, nf))


class ProcessStatistics(KMCAnalysisPlugin):

    def __init__(self, processes=None, time_interval=None, spatially_resolved=None):
        msg = "The 'processes' parameter must be given as a list of process numbers."
        self.__processes = checkSequenceOfPositiveIntegers(processes, msg)
        self.__time_interval = checkPositiveFloat(time_interval, 1.0, 'time_interval')
        if spatially_resolved is None:
            spatially_resolved = False
        elif not isinstance(spatially_resolved, bool):
            raise Error()
        self.__spatially_resolved = spatially_resolved
        self.__last_time = 0.0
        self.__data = []
        self.__spatial_data = None
        self.__current_count = 0

    def setup(self, step, time, configuration):
        self.__last_time = time
        self.__start_time = time
        self.__current_time = time
        if self.__spatially_resolved:
            self.__spatial_data = numpy.zeros(len(configuration.sites()))

    def registerStep(self, step, time, configuration):
        self.__current_time = time
        if time - self.__last_time > self.__time_interval:
            self.__data.append(self.__current_count)
            self.__current_count = 0
            self.__last_time = time
        if configuration.latestEventProcess() in self.__processes:
            self.__current_count += 1
            if self.__spatially_resolved:
                self.__spatial_data[configuration.latestEventSite()] += 1.0

    def finalize(self):
        if self.__spatially_resolved:
            self.__spatial_data /= (self.__current_time - self.__start_time)

    def printResults(self, stream=sys.stdout):
        if MPICommons.isMaster():
            stream.write('%15s %15s %15s %12s\n' % ('  time (t)', ' count (n)', '(dn/dt)   ', '(n/t)'))
            n_tot = 0
            for i, n in enumerate(self.__data):
                t = i * self.__time_interval
                dt = self.__time_interval
                n_tot += n
                dn = n
                if i > 0:
                    stream.write('%15.5f %15i %15.5f %15.5f\n' % (t, n_tot, dn / dt, n_tot / t))

    def spatialData(self):
        return self.__spatial_data


class TimeStepDistribution(KMCAnalysisPlugin):

    def __init__(self, binsize=None):
        self.__binsize = checkPositiveFloat(binsize, 1.0, 'binsize')
        self.__histogram = numpy.zeros(10, dtype=int)

    def setup(self, step, time, configuration):
        self.__last_time = time

    def registerStep(self, step, time, configuration):
        dt = time - self.__last_time
        self.__last_time = time
        b = int(dt / self.__binsize)
        while len(self.__histogram) <= b:
            new_len = len(self.__histogram) + len(self.__histogram) // 10
            tmp_histogram = numpy.zeros(new_len, dtype=int)
            tmp_histogram[0:self.__histogram.size] = self.__histogram[0:self.__histogram.size]
            self.__histogram = tmp_histogram
        self.__histogram[b] += 1

    def finalize(self):
        n_bins = len(self.__histogram)
        self.__time_steps = (numpy.arange(n_bins) + 1) * self.__binsize - self.__binsize / 2.0
        n_samples = float(numpy.sum(self.__histogram))
        self.__normalized_histogram = self.__histogram / n_samples

    def histogram(self):
        return self.__histogram

    def normalizedHistogram(self):
        return self.__normalized_histogram

    def timeSteps(self):
        return self.__time_steps

    def printResults(self, stream=sys.stdout):
        if MPICommons.isMaster():
            all_results = list(zip(self.__time_steps, self.__histogram, self.__normalized_histogram))
            for t, v, n in all_results:
                stream.write('%10.5f %10i %20.15f\n' % (t, v, n))
