"""Reference model: control parameters."""


class KMCControlParameters(object):

    def __init__(self, number_of_steps=None, dump_interval=None, analysis_interval=None, seed=None, dump_time_interval=None, rng_type=None):
        self.__number_of_steps = checkPositiveInteger(number_of_steps, 0, 'number_of_steps')
        self.__dump_interval = None
        if dump_interval is not None:
            self.__dump_interval = checkPositiveInteger(dump_interval, 1, 'dump_interval')
        self.__analysis_interval = checkPositiveInteger(analysis_interval, 1, 'analysis_interval')
        self.__time_seed = seed is None
        self.__seed = checkPositiveInteger(seed, 1, 'seed')
        if dump_time_interval is not None:
            if not isinstance(dump_time_interval, float):
                raise Error()
            if dump_time_interval <= 0:
                raise Error()
        self.__dump_time_interval = dump_time_interval
        if self.__dump_time_interval is not None and self.__dump_interval is not None:
            raise Error()
        if self.__dump_interval is None and self.__dump_time_interval is None:
            self.__dump_interval = 1
        self.__rng_type = self.__checkRngType(rng_type, 'MT')

    @code('__checkRngType')
    def __checkRngType(self, rng_type, default):
        if rng_type is None:
            rng_type = default
        rng_dict = {'MT': Backend.MT, 'MINSTD': Backend.MINSTD, 'RANLUX24': Backend.RANLUX24, 'RANLUX48': Backend.RANLUX48, 'DEVICE': Backend.DEVICE}
        if not rng_type in rng_dict:
            raise Error()
        return rng_dict[rng_type]

    def numberOfSteps(self):
        return self.__number_of_steps

    def dumpInterval(self):
        return self.__dump_interval

    def dumpTimeInterval(self):
        return self.__dump_time_interval

    def analysisInterval(self):
        return self.__analysis_interval

    def seed(self):
        return self.__seed

    def timeSeed(self):
        return self.__time_seed

    def rngType(self):
        return self.__rng_type
