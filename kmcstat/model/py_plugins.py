"""Reference model: plugin interfaces."""


class KMCAnalysisPlugin(object):

    def __init__(self):
        pass

    def setup(self, step, time, configuration):
        pass

    def registerStep(self, step, time, configuration):
        pass

    def finalize(self):
        pass


class KMCBreakerPlugin(object):

    def __init__(self):
        pass

    def setup(self, step, time, configuration):
        pass

    def evaluate(self, step, time, configuration):
        pass

    def interval(self):
        return 1


class KMCRateCalculatorPlugin(Backend.RateCalculator):

    def __init__(self, configuration):
        Backend.RateCalculator.__init__(self)
        self.configuration = configuration
        self.initialize()

    def backendRateCallbackBuckets(self, cpp_coords, coords_len, occupations, update, types_map, rate_constant, process_number, global_x, global_y, global_z):
        occupations_after = Backend.StdVectorTypeBucket()
        for i in range(len(update)):
            occupations_after.push_back(occupations[i].add(update[i]))
        global_coordinate = (global_x, global_y, global_z)
        return self.rate(numpy.array(cpp_coords).reshape(coords_len, 3), stdVectorTypeBucketToPython(occupations, types_map), stdVectorTypeBucketToPython(occupations_after, types_map), rate_constant, process_number, global_coordinate)

    def backendRateCallback(self, cpp_coords, coords_len, types_before, types_after, rate_constant, process_number, global_x, global_y, global_z):
        global_coordinate = (global_x, global_y, global_z)
        return self.rate(numpy.array(cpp_coords).reshape(coords_len, 3), types_before, types_after, rate_constant, process_number, global_coordinate)

    def initialize(self):
        pass

    def rate(self, coords, types_before, types_after, rate_constant, process_number, global_coordinate):
        raise Error()

    def cutoff(self):
        return None

    def cacheRates(self):
        return False

    def excludeFromCaching(self):
        return ()
