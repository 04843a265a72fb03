"""Reference model: the simulation loop."""


class KMCLatticeModel(object):

    def __init__(self, configuration=None, interactions=None):
        if not isinstance(configuration, KMCConfiguration):
            raise Error()
        self.__configuration = configuration
        if not isinstance(interactions, KMCInteractions):
            raise Error()
        self.__interactions = interactions
        self.__backend = None
        self.__verbosity_level = 0

    @code('_backend')
    def _backend(self):
        if self.__backend is None:
            cpp_config = self.__configuration._backend()
            cpp_lattice_map = self.__configuration._latticeMap()
            cpp_interactions = self.__interactions._backend(self.__configuration.possibleTypes(), cpp_lattice_map.nBasis(), self.__configuration)
            self.__cpp_timer = Backend.SimulationTimer()
            self.__backend = Backend.LatticeModel(cpp_config, self.__cpp_timer, cpp_lattice_map, cpp_interactions)
        return self.__backend

    @code('run', cases=[
        # input that is refused
        {'p0': 'bad'},
        {'p0': 'a KMCControlParameters', 'p1': 'bad'},
        {'p0': 'a KMCControlParameters', 'p1': 'str', 'p2': 'bad'},
        {'p0': 'a KMCControlParameters', 'p1': None, 'p2': 'bad'},
        {'p0': 'a KMCControlParameters', 'p1': 'str', 'p2': '=other', 'p3': None, 'p4': None},
        # no trajectory
        {'p0': 'a KMCControlParameters', 'p1': None, 'p2': None, 'p3': None, 'p4': None},
        {'p0': 'a KMCControlParameters', 'p1': None, 'p2': None, 'p3': 'list', 'p4': None},
        {'p0': 'a KMCControlParameters', 'p1': None, 'p2': None, 'p3': None, 'p4': 'list'},
        {'p0': 'a KMCControlParameters', 'p1': None, 'p2': 'str', 'p3': 'list', 'p4': 'list'},
        # with a trajectory
        {'p0': 'a KMCControlParameters', 'p1': 'str', 'p2': None, 'p3': None, 'p4': None},
        {'p0': 'a KMCControlParameters', 'p1': 'str', 'p2': '=lattice', 'p3': None, 'p4': 'list'},
        {'p0': 'a KMCControlParameters', 'p1': 'str', 'p2': '=xyz', 'p3': 'list', 'p4': None},
        {'p0': 'a KMCControlParameters', 'p1': 'str', 'p2': '=lattice', 'p3': 'list', 'p4': 'list'},
        {'p0': 'a KMCControlParameters', 'p1': 'str', 'p2': '=xyz', 'p3': 'list', 'p4': 'list'},
    ])
    def run(self, control_parameters=None, trajectory_filename=None, trajectory_type=None, analysis=None, breakers=None):
        if not isinstance(control_parameters, KMCControlParameters):
            msg = "\nThe 'control_parameters' input to the KMCLatticeModel run funtion\nmust be an instance of type KMCControlParameters."
            raise Error()
        use_trajectory = True
        if trajectory_filename is None:
            use_trajectory = False
            msg = ' KMCLib: WARNING: No trajectory filename given -> no trajectory will be saved.'
            prettyPrint(msg)
        elif not isinstance(trajectory_filename, str):
            msg = "\nThe 'trajectory_filename' input to the KMCLattice model run function\nmust be given as string."
            raise Error()
        if trajectory_type is None:
            trajectory_type = 'lattice'
        if not isinstance(trajectory_type, str):
            raise Error()
        if analysis is None:
            analysis = []
        else:
            msg = "Each element in the 'analyis' list must be an instance of KMCAnalysisPlugin."
            analysis = checkSequenceOf(analysis, KMCAnalysisPlugin, msg)
        if breakers is None:
            breakers = []
        else:
            msg = "Each element in the 'breakers' list must be an instance of KMCBreakerPlugin."
            breakers = checkSequenceOf(breakers, KMCBreakerPlugin, msg)
        if not Backend.setRngType(control_parameters.rngType()):
            raise Error()
        Backend.seedRandom(control_parameters.timeSeed(), control_parameters.seed())
        prettyPrint(' KMCLib: setting up the backend C++ object.')
        cpp_model = self._backend()
        if self.__verbosity_level > 9:
            self.__printMatchInfo(cpp_model)
        if cpp_model.interactions().totalAvailableSites() == 0:
            raise Error()
        start_time = self.__cpp_timer.simulationTime()
        last_time = start_time
        if use_trajectory:
            if trajectory_type == 'lattice':
                trajectory = LatticeTrajectory(trajectory_filename=trajectory_filename, configuration=self.__configuration)
            elif trajectory_type == 'xyz':
                trajectory = XYZTrajectory(trajectory_filename=trajectory_filename, configuration=self.__configuration)
            else:
                raise Error()
            trajectory.append(simulation_time=self.__cpp_timer.simulationTime(), step=0, configuration=self.__configuration)
        for ap in analysis:
            step = 0
            ap.setup(step, self.__cpp_timer.simulationTime(), self.__configuration)
        for b in breakers:
            step = 0
            b.setup(step, self.__cpp_timer.simulationTime(), self.__configuration)
        n_steps = control_parameters.numberOfSteps()
        n_dump = control_parameters.dumpInterval()
        n_analyse = control_parameters.analysisInterval()
        dump_time = control_parameters.dumpTimeInterval()
        prettyPrint(' KMCLib: Runing for %i steps, starting from time: %f\n' % (n_steps, self.__cpp_timer.simulationTime()))
        try:
            step = 0
            time_step = 0
            while step < n_steps:
                step += 1
                nP = cpp_model.interactions().totalAvailableSites()
                if nP == 0:
                    raise Error()
                time_before = self.__cpp_timer.simulationTime()
                cpp_model.propagateTime()
                time_after = self.__cpp_timer.simulationTime()
                if dump_time is not None and time_after - last_time >= dump_time:
                    time_step += 1
                    sample_time = start_time + time_step * dump_time
                    prettyPrint(' KMCLib: %14i steps executed. time: %20.10e' % (step - 1, sample_time))
                    last_time = sample_time
                    if use_trajectory:
                        trajectory.append(simulation_time=time_before, step=step - 1, configuration=self.__configuration)
                cpp_model.singleStep()
                now = self.__cpp_timer.simulationTime()
                if dump_time is None and step % n_dump == 0:
                    last_time = now
                    prettyPrint(' KMCLib: %i steps executed. time: %20.10e ' % (step, now))
                    if use_trajectory:
                        trajectory.append(simulation_time=now, step=step, configuration=self.__configuration)
                if step % n_analyse == 0:
                    for ap in analysis:
                        ap.registerStep(step, now, self.__configuration)
                break_the_loop = False
                for b in breakers:
                    if step % b.interval() == 0:
                        break_the_loop = b.evaluate(step, now, self.__configuration)
                        if break_the_loop:
                            break
                if break_the_loop:
                    break
        finally:
            if use_trajectory:
                trajectory.flush()
            for ap in analysis:
                ap.finalize()

    @code('_script')
    def _script(self, variable_name='model'):
        configuration_script = self.__configuration._script(variable_name='configuration')
        interactions_script = self.__interactions._script(variable_name='interactions')
        lattice_model_string = variable_name + ' = KMCLatticeModel(\n    configuration=configuration,\n    interactions=interactions)\n'
        comment_string = '\n# -----------------------------------------------------------------------------\n# Lattice model\n\n'
        return configuration_script + interactions_script + comment_string + lattice_model_string

    @code('__printMatchInfo')
    def __printMatchInfo(self, cpp_model):
        """
        Private routine for printing the initial matching information
        given a C++ lattice model object.

        :param cpp_model: The C++ lattice model to print the matching for.
        """
        cpp_processes = cpp_model.interactions().processes()
        prettyPrint('')
        prettyPrint(' Matching Information: ')
        for i, p in enumerate(cpp_processes):
            print(i, p.sites())
