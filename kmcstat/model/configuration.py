"""Reference model: the configuration of the lattice."""


def _first(elements):
    return '' if len(elements) == 0 else elements[0]


class Configuration:
    @code('Configuration', sig='std::vector<std::vector<double>>')
    def _construct(self, coordinates, elements, possible_types):
        n = len(elements)
        self.n_moved_ = 0
        self.elements_ = elements
        self.match_lists_ = filled(n, [])
        self.possible_types_ = possible_types
        self.latest_event_process_ = 0
        self.latest_event_site_ = 0
        self.moved_atom_ids_ = []
        self.recent_move_vectors_ = []
        self.update_info_ = []
        self.coordinates_ = table(len(coordinates), lambda i: Coordinate(coordinates[i][0], coordinates[i][1],
                                                                         coordinates[i][2]))
        self.atom_id_ = table(len(coordinates), lambda i: i)
        ids = filled(n, '')
        for i in range(len(coordinates)):
            ids[i] = _first(elements[i])
        self.atom_id_elements_ = ids
        self.atom_id_coordinates_ = self.coordinates_
        top = 0
        for name, ty in possible_types.items():
            if top < ty:
                top = ty
        names = filled(top + 1, '')
        for name, ty in possible_types.items():
            names[ty] = name
        self.type_names_ = names
        self.types_ = []
        for i in range(n):
            b = TypeBucket(len(names))
            for e in elements[i]:
                b[possible_types[e]] += 1
            self.types_.append(b)

    def initMatchLists(self, lattice_map, rng):
        longest = 0
        for i in range(len(self.types_)):
            m = self.configMatchList(i, lattice_map.neighbourIndices(i, rng), lattice_map)
            self.match_lists_[i] = m
            if longest < len(self.match_lists_[i]):
                longest = len(self.match_lists_[i])
        self.moved_atom_ids_.resize(longest)
        self.recent_move_vectors_.resize(longest, Coordinate(0, 0, 0))

    def updateMatchList(self, index):
        for i in range(len(self.match_lists_[index])):
            self.match_lists_[index][i].match_types = self.types_[self.match_lists_[index][i].index]

    @code('configMatchList', sig='const LatticeMap &')
    def _match_list(self, origin, indices, lattice_map):
        o = self.coordinates_[origin]
        out = tmp_match_list__
        out.resize(len(indices))
        all_ = lattice_map.periodic_[0] and lattice_map.periodic_[1] and lattice_map.periodic_[2]
        ab = lattice_map.periodic_[0] and lattice_map.periodic_[1]
        for i in range(len(indices)):
            p = self.coordinates_[indices[i]]
            c = Coordinate(p.x_ - o.x_, p.y_ - o.y_, p.z_ - o.z_)
            if all_:
                lattice_map.wrap(c, 0)
                lattice_map.wrap(c, 1)
                lattice_map.wrap(c, 2)
            elif ab:
                lattice_map.wrap(c, 0)
                lattice_map.wrap(c, 1)
            else:
                lattice_map.wrap(c)
            out[i].match_types = self.types_[indices[i]]
            out[i].distance = sqrt(c.x_ * c.x_ + c.y_ * c.y_ + c.z_ * c.z_)
            out[i].index = indices[i]
            out[i].x = c.x_
            out[i].y = c.y_
            out[i].z = c.z_
        out.sort()
        return out

    @code('configMatchList', sig='(const int) const')
    def _stored_match_list(self, index):
        return self.match_lists_[index]

    def performBucketProcess(self, process, site, lattice_map):
        self.latest_event_process_ = process.process_number_
        self.latest_event_site_ = site
        pm = process.match_list_
        sm = self.match_lists_[site]
        n = 0
        for k in range(len(pm)):
            u = pm[k].update_types
            index = sm[k].index
            # a real change of a position that is not a wildcard
            if summed(len(u), lambda j: abs(u[j])) > 0 and not (u[0] > 0):
                atom = self.atom_id_[index]
                mv = pm[k].move_coordinate
                self.atom_id_coordinates_[atom] = Coordinate(self.atom_id_coordinates_[atom].x_ + mv.x_,
                                                             self.atom_id_coordinates_[atom].y_ + mv.y_,
                                                             self.atom_id_coordinates_[atom].z_ + mv.z_)
                for j in range(len(self.types_[index])):
                    self.types_[index][j] += u[j]
                here = []
                for j in range(len(self.types_[index])):
                    for q in range(self.types_[index][j]):
                        here.append(self.type_names_[j])
                self.elements_[index] = here
                if not pm[k].has_move_coordinate:
                    self.atom_id_elements_[atom] = _first(self.elements_[index])
                process.affected_indices_[n] = index
                self.moved_atom_ids_[n] = atom
                self.recent_move_vectors_[n] = mv
                n += 1
        self.n_moved_ = n
        # all identities are read before any is written
        mvs = process.id_moves_
        new = table(len(mvs), lambda i: pair(self.atom_id_[sm[mvs[i].first].index], sm[mvs[i].second].index))
        for i in range(len(new)):
            self.atom_id_[new[i].second] = new[i].first
            self.atom_id_elements_[new[i].first] = _first(self.elements_[new[i].second])

    def movedAtomIDs(self):
        out = copy(self.moved_atom_ids_)
        out.resize(self.n_moved_)
        return out

    def recentMoveVectors(self):
        out = copy(self.recent_move_vectors_)
        out.resize(self.n_moved_, Coordinate(0, 0, 0))
        return out

    def particlesPerType(self):
        out = filled(len(self.possible_types_), 0)
        for i in range(len(self.types_)):
            for j in range(len(out)):
                out[j] += self.types_[i][j]
        return out
