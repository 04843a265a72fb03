"""Reference model: the lattice model (one simulation)."""


class LatticeModel:
    @code('LatticeModel')
    def _construct(self, configuration, simulation_timer, lattice_map, interactions):
        self.configuration_ = configuration
        self.simulation_timer_ = simulation_timer
        self.lattice_map_ = lattice_map
        self.interactions_ = interactions
        self.matcher_ = Matcher(len(configuration.coordinates_), len(interactions.process_pointers_))
        self.calculateInitialMatching()
        self.interactions_.updateProbabilityTable()

    def calculateInitialMatching(self):
        self.configuration_.initMatchLists(self.lattice_map_, self.interactions_.maxRange())
        self.interactions_.clearMatching()
        self.interactions_.updateProcessMatchLists(self.configuration_, self.lattice_map_)
        every = table(len(self.configuration_.elements_), lambda i: i)
        self.matcher_.calculateMatching(self.interactions_, self.configuration_, self.lattice_map_, every)

    def propagateTime(self):
        self.simulation_timer_.propagateTime(self.interactions_.totalRate())

    def singleStep(self):
        p = self.interactions_.pickProcess()
        site = at(p).pickSite()
        self.configuration_.performBucketProcess(at(p), site, self.lattice_map_)
        near = self.lattice_map_.supersetNeighbourIndices(at(p).affected_indices_, self.interactions_.maxRange())
        self.matcher_.calculateMatching(self.interactions_, self.configuration_, self.lattice_map_, near)
        self.interactions_.updateProbabilityTable()
