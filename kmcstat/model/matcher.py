"""Reference model: matching sites with processes, and the rates of the matches."""


class Matcher:
    @code('Matcher')
    def _construct(self, sites, processes):
        self.rate_table_ = RateTable()
        self.inverse_table_ = filled(sites, filled(processes, False))

    def isMatch(self, process_match_list, index_match_list):
        return whateverMatch(process_match_list, index_match_list)

    def matchIndicesWithProcesses(self, pairs, interactions, configuration, remove, update, add):
        mine = splitOverProcesses(pairs)
        kind = filled(len(mine), 0)
        for i in range(len(mine)):
            index, p = mine[i].first, mine[i].second
            listed = self.inverse_table_[index][p]
            match = whateverMatch(at(interactions.process_pointers_[p]).match_list_, configuration.match_lists_[index])
            if listed:
                kind[i] = 2 if match else 1
            elif match:
                kind[i] = 3
        kinds = joinOverProcesses(kind)
        for i in range(len(pairs)):
            index, p = pairs[i].first, pairs[i].second
            pr = at(interactions.process_pointers_[p])
            if kinds[i] == 1:
                remove.append(record('RemoveTask', index=index, process=p))
            else:
                if kinds[i] == 2:
                    update.append(record('RateTask', index=index, process=p, rate=pr.rate_,
                                         multiplicity=multiplicity(pr.match_list_, configuration.match_lists_[index])))
                if kinds[i] == 3:
                    add.append(record('RateTask', index=index, process=p, rate=pr.rate_,
                                      multiplicity=multiplicity(pr.match_list_, configuration.match_lists_[index])))

    @code('updateProcesses', alt='Matcher.updateProcesses')
    def _update_processes(self, remove, update, add, interactions):
        pp = interactions.process_pointers_
        for t in remove:
            at(pp[t.process]).removeSite(t.index)
            self.inverse_table_[t.index][t.process] = False
        for t in update:
            at(pp[t.process]).removeSite(t.index)
            at(pp[t.process]).addSite(t.index, t.rate, t.multiplicity)
        for t in add:
            at(pp[t.process]).addSite(t.index, t.rate, t.multiplicity)
            self.inverse_table_[t.index][t.process] = True

    @code('updateProcesses', alt='Matcher.updateProcesses')
    def _update_processes_1(self, remove, update, add, interactions):
        pp = interactions.process_pointers_
        for t in remove:
            at(pp[t.process]).removeSite(t.index)
            self.inverse_table_[t.index][t.process] = False
        for t in update:
            at(pp[t.process]).removeSite(t.index)
            at(pp[t.process]).addSite(t.index, t.rate, 1.0)
        for t in add:
            at(pp[t.process]).addSite(t.index, t.rate, 1.0)
            self.inverse_table_[t.index][t.process] = True

    def updateRates(self, rates, tasks, interactions, configuration):
        for i in range(len(tasks)):
            rates[i] = self.updateSingleRate(tasks[i].index, at(interactions.process_pointers_[tasks[i].process]),
                                             configuration, interactions.rate_calculator_)

    def updateSingleRate(self, index, process, configuration, rate_calculator):
        pm = process.match_list_
        cm = configuration.match_lists_[index]
        n = first_index(len(cm), lambda i: not (cm[i].distance <= process.cutoff_))
        geo = filled(3 * n, 0.0)
        before = filled(n, '')
        occ = filled(n, TypeBucket())
        for i in range(n):
            geo[3 * i] = cm[i].x
            geo[3 * i + 1] = cm[i].y
            geo[3 * i + 2] = cm[i].z
            e = configuration.elements_[cm[i].index]
            before[i] = '' if len(e) == 0 else e[0]
            occ[i] = configuration.types_[cm[i].index]
        after = copy(before)
        update = filled(n, TypeBucket(len(occ[0])))
        for i in range(len(pm)):
            u = pm[i].update_types
            update[i] = u
            wildcard = forall(len(u), lambda j: u[j] == (1 if j == 0 else 0))
            if summed(len(u), lambda j: abs(u[j])) != 0 and not wildcard:
                for j in range(len(u)):
                    if u[j] == 1:
                        after[i] = configuration.type_names_[j]
                        break
        c = configuration.coordinates_[index]
        if process.bucket_process_:
            return rate_calculator.backendRateCallbackBuckets(geo, n, occ, update, configuration.type_names_,
                                                              process.rate_, process.process_number_,
                                                              c.x_, c.y_, c.z_)
        return rate_calculator.backendRateCallback(geo, n, before, after, process.rate_, process.process_number_,
                                                   c.x_, c.y_, c.z_)

    def calculateMatching(self, interactions, configuration, lattice_map, indices):
        pairs = []
        pp = interactions.process_pointers_
        for index in indices:
            basis = lattice_map.basisSiteFromIndex(index)
            used = False
            for j in range(len(pp)):
                if basis in at(pp[j]).basis_sites_:
                    pairs.append(pair(index, j))
                    used = True
            if used:
                configuration.updateMatchList(index)
        remove = []
        update = []
        add = []
        self.matchIndicesWithProcesses(pairs, interactions, configuration, remove, update, add)
        if interactions.use_custom_rates_:
            tasks = []
            keys = []
            numbers = []
            from_add = []
            from_update = []
            for i in range(len(add)):
                p = at(pp[add[i].process])
                key = hashCustomRateInput(add[i].index, p, configuration)
                if self.rate_table_.stored(key) != -1:
                    add[i].rate = self.rate_table_.retrieve(key)
                else:
                    tasks.append(add[i])
                    keys.append(key)
                    numbers.append(p.process_number_)
                    from_add.append(i)
            for i in range(len(update)):
                p = at(pp[update[i].process])
                key = hashCustomRateInput(update[i].index, p, configuration)
                if self.rate_table_.stored(key) != -1:
                    update[i].rate = self.rate_table_.retrieve(key)
                else:
                    tasks.append(update[i])
                    keys.append(key)
                    numbers.append(p.process_number_)
                    from_update.append(i)
            mine = splitOverProcesses(tasks)
            rates = filled(len(mine), 0.0)
            self.updateRates(rates, mine, interactions, configuration)
            all_rates = joinOverProcesses(rates)
            for i in range(len(from_add)):
                add[from_add[i]].rate = all_rates[i]
            for i in range(len(from_update)):
                update[from_update[i]].rate = all_rates[len(from_add) + i]
            for i in range(len(all_rates)):
                if at(pp[numbers[i]]).cache_rate_:
                    self.rate_table_.store(keys[i], all_rates[i])
        self.updateProcesses(remove, update, add, interactions)
