"""Reference model: interactions."""


class KMCInteractions(object):

    def __init__(self, processes=None, implicit_wildcards=None):
        processes = checkSequenceOf(processes, KMCBaseProcess, msg="The 'processes' input must be a list of KMCProcess or KMCBucketProcess instances.")
        self.__processes = processes
        if implicit_wildcards is None:
            implicit_wildcards = True
        if not isinstance(implicit_wildcards, bool):
            raise Error()
        self.__implicit_wildcards = implicit_wildcards
        self.__backend = None
        self.__backend_input = None
        self.__used_rate_calculators = []
        self.__rate_calculator = None
        self.__rate_calculator_class = None
        self.__builtin_custom = False

    def rateCalculator(self):
        return self.__rate_calculator

    def setRateCalculator(self, rate_calculator=None):
        if isinstance(rate_calculator, str):
            calculator_candidates = []
            forbidden = ['RateCalculator', 'SimpleDummyBaseClass', 'SwigPyIterator']
            for obj in dir(Custom):
                attr = getattr(Custom, obj)
                if str(attr).replace('<', '').split(' ')[0] == 'class' and (not obj in forbidden):
                    calculator_candidates.append(obj)
            if not rate_calculator in calculator_candidates:
                format_str = '\n    %s' * len(calculator_candidates)
                msg = "\nThe 'rate_calculator' given to the KMCInteractions object must\nbe a class (not instantiated) inheriting from the KMCRateCalculatorPlugin, or\na string refering to the name of one of the builtin custom calculators.\nThe list of candidate calculators are:  " + format_str % tuple(calculator_candidates)
                raise Error()
            self.__rate_calculator_str = "'" + rate_calculator + "'"
            rate_calculator = getattr(Custom, rate_calculator)
            self.__builtin_custom = True
        if rate_calculator is not None:
            if not inspect.isclass(rate_calculator):
                msg = "\nThe 'rate_calculator' given to the KMCInteractions object must\nbe a class (not instantiated) inheriting from the KMCRateCalculatorPlugin. "
                raise Error()
            self.__rate_calculator_str = str(rate_calculator).replace("'>", '').split('.')[-1]
        self.__rate_calculator_class = rate_calculator

    def implicitWildcards(self):
        return self.__implicit_wildcards

    @code('_backend')
    def _backend(self, possible_types, n_basis, configuration):
        backend_input = (dict(possible_types), n_basis, configuration)
        if self.__backend is None or self.__backend_input != backend_input:
            for process_number, process in enumerate(self.__processes):
                all_elements = process.allPresentTypes()
                if not all([e in possible_types for e in all_elements]):
                    raise Error()
            if self.__rate_calculator_class is not None:
                if self.__builtin_custom == False:
                    rate_calculator = self.__rate_calculator_class(configuration)
                else:
                    rate_calculator = self.__rate_calculator_class(configuration._backend())
                if self.__builtin_custom == False:
                    if not isinstance(rate_calculator, KMCRateCalculatorPlugin):
                        msg = "\nThe 'rate_calculator' given to the KMCInteractions class must\ninherit from the KMCRateCalculatorPlugin. "
                        raise Error()
                    elif rate_calculator.__class__ == KMCRateCalculatorPlugin(configuration).__class__:
                        msg = "\nThe 'rate_calculator' given to the KMCInteractions class must\ninherit from the KMCRateCalculatorPlugin class. It may not be\nthe KMCRateCalculatorPlugin class itself. "
                        raise Error()
                self.__rate_calculator = rate_calculator
                self.__used_rate_calculators.append(rate_calculator)
                cpp_processes = Backend.StdVectorCustomRateProcess()
            else:
                cpp_processes = Backend.StdVectorProcess()
            for process_number, process in enumerate(self.__processes):
                cpp_config1 = process.localConfigurations()[0]._backend(possible_types)
                if len(process.localConfigurations()) == 2:
                    cpp_config2 = process.localConfigurations()[1]._backend(possible_types)
                else:
                    cpp_config2 = cpp_config1
                    cpp_config2.setUpdateInfo(process._update())
                rate_constant = process.rateConstant()
                basis_list = list(range(n_basis))
                if process.basisSites() is not None:
                    basis_list = []
                    for b in process.basisSites():
                        if b < n_basis:
                            basis_list.append(b)
                cpp_basis = Backend.StdVectorInt(basis_list)
                move_origins = [int(v[0]) for v in process.moveVectors()]
                cpp_move_origins = Backend.StdVectorInt(move_origins)
                cpp_move_vectors = Backend.StdVectorCoordinate()
                for v in process.moveVectors():
                    cpp_move_vectors.push_back(Backend.Coordinate(v[1][0], v[1][1], v[1][2]))
                if self.__rate_calculator is not None:
                    cutoff = self.__rate_calculator.cutoff()
                    if cutoff is None:
                        cutoff = 1.0
                    cache_rate = self.__rate_calculator.cacheRates() and (not process_number in self.__rate_calculator.excludeFromCaching())
                    cpp_processes.push_back(Backend.CustomRateProcess(cpp_config1, cpp_config2, rate_constant, cpp_basis, cutoff, cpp_move_origins, cpp_move_vectors, process_number, cache_rate))
                else:
                    cpp_processes.push_back(Backend.Process(cpp_config1, cpp_config2, rate_constant, cpp_basis, cpp_move_origins, cpp_move_vectors, process_number))
            if self.__rate_calculator is not None:
                self.__backend = Backend.Interactions(cpp_processes, self.__implicit_wildcards, self.__rate_calculator)
            else:
                self.__backend = Backend.Interactions(cpp_processes, self.__implicit_wildcards)
            self.__backend_input = backend_input
        return self.__backend

    @code('_script')
    def _script(self, variable_name='interactions'):
        processes_script = ''
        processes_string = 'processes = ['
        for i, process in enumerate(self.__processes):
            var_name = 'process_%i' % i
            processes_script += process._script(var_name)
            if i == 0:
                indent = ''
            else:
                indent = ' ' * 13
            processes_string += indent + var_name
            if i == len(self.__processes) - 1:
                processes_string += ']\n'
            else:
                processes_string += ',\n'
        comment_string = '\n# -----------------------------------------------------------------------------\n# Interactions\n\n'
        if self.__implicit_wildcards:
            implicit = 'True'
        else:
            implicit = 'False'
        kmc_interactions_string = variable_name + ' = KMCInteractions(\n' + '    processes=processes,\n' + '    implicit_wildcards=%s)\n' % implicit
        return comment_string + processes_script + processes_string + '\n' + kmc_interactions_string
