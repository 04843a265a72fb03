"""Reference model: plain queries."""


class Configuration:
    def coordinates(self):
        return self.coordinates_

    def atomIDCoordinates(self):
        return self.atom_id_coordinates_

    def atomIdCoordinates(self):
        return self.atom_id_coordinates_

    def elements(self):
        return self.elements_

    def atomIDElements(self):
        return self.atom_id_elements_

    def types(self):
        return self.types_

    def latestEventProcess(self):
        return self.latest_event_process_

    def latestEventSite(self):
        return self.latest_event_site_

    def typeName(self, i):
        return self.type_names_[i]

    def typeNames(self):
        return self.type_names_

    def atomID(self):
        return self.atom_id_

    def updateInfo(self):
        return self.update_info_

    def possibleTypes(self):
        return self.possible_types_

    def setUpdateInfo(self, info):
        self.update_info_ = info


class Interactions:
    def rateCalculator(self):
        return self.rate_calculator_

    def probabilityTable(self):
        return self.probability_table_


class Process:
    def sites(self):
        return self.sites_

    def processMatchList(self):
        return self.match_list_

    def affectedIndices(self):
        return self.affected_indices_

    def basisSites(self):
        return self.basis_sites_

    def idMoves(self):
        return self.id_moves_


class LatticeMap:
    def nBasis(self):
        return self.n_basis_

    def periodicA(self):
        return self.periodic_[0]

    def periodicB(self):
        return self.periodic_[1]

    def periodicC(self):
        return self.periodic_[2]

    def repetitionsA(self):
        return self.repetitions_[0]

    def repetitionsB(self):
        return self.repetitions_[1]

    def repetitionsC(self):
        return self.repetitions_[2]


class Coordinate:
    def x(self):
        return self.x_

    def y(self):
        return self.y_

    def z(self):
        return self.z_


class LatticeModel:
    def interactions(self):
        return self.interactions_


class OnTheFlyMSD:
    def histogramBuffer(self):
        return self.histogram_buffer_

    def histogramBufferSqr(self):
        return self.histogram_buffer_sqr_

    def histogramBinCounts(self):
        return self.histogram_bin_counts_

    def historyStepsHistogramBinCounts(self):
        return self.history_steps_bin_counts_

    def historyBuffer(self):
        return self.history_buffer_

    def hstepCounts(self):
        return self.hstep_counts_

    def blockerValues(self):
        return self.blocker_.values(self.histogram_bin_counts_, self.histogram_buffer_)
