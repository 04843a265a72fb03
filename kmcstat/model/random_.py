"""Reference model: rates, time and cache."""


class SimulationTimer:
    def propagateTime(self, total_rate):
        while True:
            dt = -log(randomDouble01()) / total_rate
            if not isinf(dt):
                break
        self.simulation_time_ += dt

    @code('SimulationTimer')
    def _construct(self):
        self.simulation_time_ = 0.0

    def simulationTime(self):
        return self.simulation_time_


class RateTable:
    @code('RateTable')
    def _construct(self):
        self.n_tables_ = 8
        self.max_size_ = 1024
        self.current_table_ = 0
        self.tables_ = filled(8, [])

    def stored(self, key):
        for i in range(len(self.tables_)):
            if key in self.tables_[i]:
                return i
        return -1

    def store(self, key, value):
        self.tables_[self.current_table_][key] = value
        if len(self.tables_[self.current_table_]) == self.max_size_:
            # full: continue with the oldest table, emptied
            self.current_table_ = (self.current_table_ + 1) % self.n_tables_
            self.tables_[self.current_table_] = []

    def retrieve(self, key):
        return self.tables_[self.stored(key)][key]
