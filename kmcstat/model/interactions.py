"""Reference model: the interactions (all processes, and the choice between them)."""


class Interactions:
    def maxRange(self):
        m = 1
        for p in self.process_pointers_:
            m = max(m, at(p).range_)
        return m

    def totalAvailableSites(self):
        return summed(len(self.process_pointers_), lambda i: len(at(self.process_pointers_[i]).sites_))

    def updateProbabilityTable(self):
        for i in range(len(self.process_pointers_)):
            self.probability_table_[i].first = summed(i + 1, lambda j: at(self.process_pointers_[j]).total_rate_)
            self.probability_table_[i].second = len(at(self.process_pointers_[i]).sites_)

    def totalRate(self):
        return self.probability_table_[len(self.probability_table_) - 1].first

    def pickProcessIndex(self):
        t = self.probability_table_
        x = randomDouble01() * t[len(t) - 1].first
        # the first process whose accumulated rate reaches the random number
        return first_index(len(t), lambda i: not (t[i].first < x))

    def clearMatching(self):
        for i in range(len(self.process_pointers_)):
            at(self.process_pointers_[i]).clearSites()

    def processes(self):
        return self.process_pointers_

    def useCustomRates(self):
        return self.use_custom_rates_

    def pickProcess(self):
        i = self.pickProcessIndex()
        at(self.process_pointers_[i]).updateRateTable()
        return self.process_pointers_[i]

    @code('Interactions', sig='std::vector<Process>')
    def _construct(self, processes, implicit_wildcards):
        n = len(processes)
        self.processes_ = processes
        self.custom_rate_processes_ = []
        self.process_pointers_ = table(n, lambda i: address(self.processes_, i))
        self.probability_table_ = filled(n, pair(0.0, 0))
        self.implicit_wildcards_ = implicit_wildcards
        self.use_custom_rates_ = False
        self.rate_calculator_placeholder_ = RateCalculator()
        self.rate_calculator_ = self.rate_calculator_placeholder_

    @code('Interactions', sig='std::vector<CustomRateProcess>')
    def _construct_custom(self, processes, implicit_wildcards, rate_calculator):
        n = len(processes)
        self.processes_ = []
        self.custom_rate_processes_ = processes
        self.process_pointers_ = table(n, lambda i: address(self.custom_rate_processes_, i))
        self.probability_table_ = filled(n, pair(0.0, 0))
        self.implicit_wildcards_ = implicit_wildcards
        self.use_custom_rates_ = True
        self.rate_calculator_placeholder_ = RateCalculator()
        self.rate_calculator_ = rate_calculator

    def updateProcessMatchLists(self, configuration, lattice_map):
        if not self.implicit_wildcards_:
            return
        for i in range(len(self.process_pointers_)):
            p = self.process_pointers_[i]
            if len(at(p).basis_sites_) == 1:
                cell = lattice_map.indicesFromCell(idiv(lattice_map.repetitions_[0], 2),
                                                   idiv(lattice_map.repetitions_[1], 2),
                                                   idiv(lattice_map.repetitions_[2], 2))
                cm = configuration.match_lists_[cell[at(p).basis_sites_[0]]]
                moved = filled(len(cm), 0)
                old = 0
                k = 0
                while k != len(at(p).match_list_) and k != len(cm):
                    if samePoint(at(p).match_list_[k], cm[k]):
                        moved[old] = k
                        old += 1
                    else:
                        # every skipped position matches anything
                        w = ProcessBucketMatchListEntry()
                        w.initWildcard(cm[k])
                        at(p).match_list_.insert(k, w)
                    k += 1
                moved.resize(old)
                for j in range(len(at(p).id_moves_)):
                    first = at(p).id_moves_[j].first
                    second = at(p).id_moves_[j].second
                    at(p).id_moves_[j].first = moved[first]
                    at(p).id_moves_[j].second = moved[second]
