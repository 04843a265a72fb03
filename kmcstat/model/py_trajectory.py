"""Reference model: trajectories."""


class Trajectory(object):

    def __init__(self, trajectory_filename, max_buffer_size=None, max_buffer_time=None):
        self._trajectory_filename = trajectory_filename
        if max_buffer_size is None:
            self.__max_buffer_size = 1024 * 1024 * 10
        else:
            self.__max_buffer_size = max_buffer_size
        if max_buffer_time is None:
            self.__max_buffer_time = 30 * 60.0
        else:
            self.__max_buffer_time = max_buffer_time
        self.__time_last_dump = 0.0

    @code('_storeData')
    def _storeData(self, simulation_time, step, configuration):
        raise Error()

    @code('_bufferSize')
    def _bufferSize(self):
        raise Error()

    def flush(self):
        raise Error()

    def append(self, simulation_time, step, configuration):
        self._storeData(simulation_time, step, configuration)
        buffer_size = self._bufferSize()
        if buffer_size > self.__max_buffer_size or time.time() - self.__time_last_dump > self.__max_buffer_time:
            self.flush()
            self.__time_last_dump = time.time()


class LatticeTrajectory(Trajectory):

    def __init__(self, trajectory_filename, configuration, max_buffer_size=None, max_buffer_time=None):
        Trajectory.__init__(self, trajectory_filename, max_buffer_size, max_buffer_time)
        self.__types_buffer = []
        self.__simulation_time_buffer = []
        self.__step_buffer = []
        self.__writeHeader(configuration.sites())

    @code('__writeHeader')
    def __writeHeader(self, sites):
        if MPICommons.isMaster():
            with open(self._trajectory_filename, 'w') as trajectory:
                trajectory.write('# KMCLib Trajectory\n')
                trajectory.write('version="2013.1.0"\n')
                trajectory.write('creation_time="%s"\n' % time.ctime())
                sites_str = 'sites=['
                indent = ' ' * 7
                for i, site in enumerate(sites):
                    sites_str += '[%15.6f,%15.6f,%15.6f]' % (site[0], site[1], site[2])
                    if i == len(sites) - 1:
                        sites_str += ']\n'
                    else:
                        sites_str += ',\n' + indent
                trajectory.write(sites_str)
                trajectory.write('times=[]\n')
                trajectory.write('steps=[]\n')
                trajectory.write('types=[]\n')
        MPICommons.barrier()

    @code('_storeData')
    def _storeData(self, simulation_time, step, configuration):
        self.__types_buffer.append(configuration.types())
        self.__simulation_time_buffer.append(simulation_time)
        self.__step_buffer.append(step)

    @code('_bufferSize')
    def _bufferSize(self):
        return sys.getsizeof(self.__types_buffer[0]) * len(self.__types_buffer) + sys.getsizeof(self.__types_buffer)

    def flush(self):
        if len(self.__simulation_time_buffer) > 0 and len(self.__step_buffer) > 0 and (len(self.__types_buffer) > 0):
            self.__writeToFile(self.__simulation_time_buffer, self.__step_buffer, self.__types_buffer)
            self.__simulation_time_buffer = []
            self.__step_buffer = []
            self.__types_buffer = []

    @code('__writeToFile')
    def __writeToFile(self, simulation_time_buffer, step_buffer, types_buffer):
        if MPICommons.isMaster():
            with open(self._trajectory_filename, 'a') as trajectory:
                for sim_time, step, types in zip(simulation_time_buffer, step_buffer, types_buffer):
                    trajectory.write('times.append(%18.10e)\n' % sim_time)
                    trajectory.write('steps.append(%i)\n' % step)
                    types_str = 'types.append(['
                    indent = ' ' * 14
                    row_length = len(types_str)
                    if isinstance(types[0], str):
                        for t in types[:-1]:
                            row_length += len(t) + 2
                            types_str += '"' + t + '"' + ','
                            if row_length >= 70:
                                types_str += '\n' + indent
                                row_length = len(indent)
                        types_str += '"' + types[-1] + '"' + '])\n'
                    else:
                        bucket_types = toShortBucketsFormat(types)
                        for bt in bucket_types[:-1]:
                            types_str += '['
                            for t in bt[:-1]:
                                types_str += '(' + str(t[0]) + ',"' + t[1] + '"),'
                            if len(bt) > 0:
                                t = bt[-1]
                                types_str += '(' + str(t[0]) + ',"' + t[1] + '")'
                                types_str += '],\n' + indent
                            else:
                                types_str += '],\n' + indent
                        bt = bucket_types[-1]
                        types_str += '['
                        for t in bt[:-1]:
                            types_str += '(' + str(t[0]) + ',"' + t[1] + '"),'
                        if len(bt) > 0:
                            t = bt[-1]
                            types_str += '(' + str(t[0]) + ',"' + t[1] + '")]'
                        else:
                            types_str += ']'
                        types_str += '])\n'
                    trajectory.write(types_str)
        MPICommons.barrier()


class XYZTrajectory(Trajectory):

    def __init__(self, trajectory_filename, configuration, max_buffer_size=None, max_buffer_time=None):
        Trajectory.__init__(self, trajectory_filename, max_buffer_size, max_buffer_time)
        self.__atom_id_types = []
        self.__atom_id_coordinates = []
        self.__time = []
        self.__step = []
        self.__writeHeader(configuration)

    @code('__writeHeader')
    def __writeHeader(self, configuration):
        if MPICommons.isMaster():
            with open(self._trajectory_filename, 'w') as trajectory:
                trajectory.write('KMCLib XYZ FORMAT VERSION 2013.10.15\n\n')
                cell_vectors = configuration.lattice().unitCell().cellVectors()
                trajectory.write('CELL VECTORS\n')
                trajectory.write('a: %15.10e %15.10e %15.10e\n' % (cell_vectors[0][0], cell_vectors[0][1], cell_vectors[0][2]))
                trajectory.write('b: %15.10e %15.10e %15.10e\n' % (cell_vectors[1][0], cell_vectors[1][1], cell_vectors[1][2]))
                trajectory.write('c: %15.10e %15.10e %15.10e\n\n' % (cell_vectors[2][0], cell_vectors[2][1], cell_vectors[2][2]))
                repetitions = configuration.lattice().repetitions()
                trajectory.write('REPETITIONS %i %i %i\n\n' % (repetitions[0], repetitions[1], repetitions[2]))
                periodicity = configuration.lattice().periodic()
                trajectory.write('PERIODICITY %s %s %s\n\n' % (str(periodicity[0]), str(periodicity[1]), str(periodicity[2])))
        MPICommons.barrier()

    @code('_storeData')
    def _storeData(self, simulation_time, step, configuration):
        self.__time.append(simulation_time)
        self.__step.append(step)
        self.__atom_id_coordinates.append(configuration.atomIDCoordinates())
        self.__atom_id_types.append(configuration.atomIDTypes())

    @code('_bufferSize')
    def _bufferSize(self):
        size = sys.getsizeof(self.__atom_id_coordinates)
        size += sys.getsizeof(self.__atom_id_coordinates[0]) * len(self.__atom_id_coordinates)
        size += sys.getsizeof(self.__atom_id_types)
        size += sys.getsizeof(self.__atom_id_types[0]) * len(self.__atom_id_types)
        size += sys.getsizeof(self.__time)
        size += sys.getsizeof(self.__time[0]) * len(self.__time)
        size += sys.getsizeof(self.__step)
        size += sys.getsizeof(self.__step[0]) * len(self.__step)
        return size

    def flush(self):
        if not len(self.__step) < 1:
            if MPICommons.isMaster():
                with open(self._trajectory_filename, 'a') as trajectory:
                    for i in range(len(self.__step)):
                        step = self.__step[i]
                        time = self.__time[i]
                        n_atoms = len(self.__atom_id_types[i])
                        trajectory.write('STEP %i\n' % step)
                        trajectory.write('          %i\n' % n_atoms)
                        trajectory.write('    TIME %15.10e\n' % time)
                        for j in range(n_atoms):
                            t = self.__atom_id_types[i][j]
                            c = self.__atom_id_coordinates[i][j]
                            trajectory.write(' %16s   %15.10e %15.10e %15.10e  %i\n' % (t, c[0], c[1], c[2], j))
            MPICommons.barrier()
            self.__atom_id_types = []
            self.__atom_id_coordinates = []
            self.__time = []
            self.__step = []
