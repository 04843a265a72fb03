"""Reference model: the available sites of a process (Process, CustomRateProcess)."""


class Process:
    def addSite(self, index, rate, multiplicity):
        self.sites_.append(index)
        self.site_multiplicity_.append(multiplicity)
        self.total_rate_ += multiplicity * self.rate_

    def removeSite(self, index):
        i = self.sites_.index(index)
        self.sites_.swap(i, len(self.sites_) - 1)
        self.sites_.pop()
        self.site_multiplicity_.swap(i, len(self.site_multiplicity_) - 1)
        m = self.site_multiplicity_.pop()
        # an empty process has rate zero, without round off
        self.total_rate_ = 0.0 if len(self.sites_) == 0 else self.total_rate_ - m * self.rate_

    def clearSites(self):
        self.sites_ = []
        self.site_multiplicity_ = []
        self.site_rates_ = []
        self.total_rate_ = 0.0

    def pickSite(self):
        t = self.incremental_rate_table_
        r = randomDouble01() * t[len(t) - 1]
        return self.sites_[first_index(len(t), lambda k: t[k] >= r)]

    def isListed(self, index):
        return index in self.sites_

    def updateRateTable(self):
        m = self.site_multiplicity_
        self.incremental_rate_table_ = table(len(m), lambda k: summed(k + 1, lambda j: self.rate_ * m[j]))

    def totalRate(self):
        return self.total_rate_

    def nSites(self):
        return len(self.sites_)

    def cacheRate(self):
        return self.cache_rate_

    def rateConstant(self):
        return self.rate_

    def processNumber(self):
        return self.process_number_

    def cutoff(self):
        return self.cutoff_

    def range(self):
        return self.range_

    def bucketProcess(self):
        return self.bucket_process_

    @code('Process')
    def _construct(self, first, second, rate, basis_sites, move_origins, move_vectors, process_number):
        self.cache_rate_ = False
        self.process_number_ = process_number
        self.range_ = 1
        self.rate_ = rate
        self.cutoff_ = 0.0
        self.sites_ = []
        self.affected_indices_ = []
        self.basis_sites_ = basis_sites
        self.id_moves_ = []
        self.total_rate_ = 0.0
        self.site_multiplicity_ = []
        self.site_rates_ = []
        self.incremental_rate_table_ = []
        self.match_list_ = []
        self.bucket_process_ = len(second.update_info_) != 0
        configurationsToMatchList(first, second, self.range_, self.cutoff_, self.match_list_, self.affected_indices_)
        for i in range(len(move_origins)):
            self.match_list_[move_origins[i]].move_coordinate = move_vectors[i]
            self.match_list_[move_origins[i]].has_move_coordinate = True
        self.match_list_.sort()
        # the atom at i ends up where the atom at j started
        m = self.match_list_
        for i in range(len(m)):
            if m[i].has_move_coordinate:
                x = m[i].coordinate.x_ + m[i].move_coordinate.x_
                y = m[i].coordinate.y_ + m[i].move_coordinate.y_
                z = m[i].coordinate.z_ + m[i].move_coordinate.z_
                for j in range(len(m)):
                    if m[j].has_move_coordinate and j != i:
                        if sqrt((m[j].coordinate.x_ - x) ** 2 + (m[j].coordinate.y_ - y) ** 2
                                + (m[j].coordinate.z_ - z) ** 2) < 1.0e-6:
                            self.id_moves_.append(pair(i, j))
                            break


class CustomRateProcess:
    def addSite(self, index, rate, multiplicity):
        self.sites_.append(index)
        self.site_multiplicity_.append(multiplicity)
        self.site_rates_.append(rate)
        self.total_rate_ += multiplicity * rate

    def removeSite(self, index):
        i = self.sites_.index(index)
        self.sites_.swap(i, len(self.sites_) - 1)
        self.sites_.pop()
        self.site_rates_.swap(i, len(self.site_rates_) - 1)
        r = self.site_rates_.pop()
        self.site_multiplicity_.swap(i, len(self.site_multiplicity_) - 1)
        m = self.site_multiplicity_.pop()
        self.total_rate_ = 0.0 if len(self.sites_) == 0 else self.total_rate_ - m * r

    def updateRateTable(self):
        m = self.site_multiplicity_
        r = self.site_rates_
        self.incremental_rate_table_ = table(len(m), lambda k: summed(k + 1, lambda j: r[j] * m[j]))

    @code('CustomRateProcess', alt='CustomRateProcess.construct')
    def _construct(self, first, second, rate, basis_sites, cutoff, move_origins, move_vectors, process_number, cache):
        base('Process', first, second, rate, basis_sites, move_origins, move_vectors, process_number)
        self.cache_rate_ = cache
        if self.cutoff_ < cutoff:
            self.cutoff_ = cutoff
        self.range_ = trunc(self.cutoff_)
