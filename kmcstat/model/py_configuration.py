"""Reference model: configuration."""


class KMCConfiguration(object):

    def __init__(self, lattice=None, types=None, possible_types=None, default_type=None):
        if not isinstance(lattice, KMCLattice):
            raise Error()
        self.__lattice = lattice
        self.__n_lattice_sites = len(self.__lattice.sites())
        self.__use_buckets = False
        self.__checkAndSetTypes(types, default_type, possible_types)
        self.__backend = None

    @code('__checkAndSetTypes')
    def __checkAndSetTypes(self, types, default_type, possible_types):
        """
        Private helper routine to check and set the types input.
        """
        types_format = self.__detectTypesFormat(types)
        if types_format == 'short':
            types_to_set = self.__checkAndSetShortTypes(types, default_type, possible_types)
            all_types_present = sorted(set(types_to_set))
        elif types_format == 'long':
            types_to_set = self.__checkAndSetLongTypes(types, default_type, possible_types)
            all_types_present = sorted(set(types_to_set))
        else:
            types_to_set = self.__checkAndSetBucketsTypes(types, default_type, possible_types)
            self.__use_buckets = True
            all_types_present = []
            for tt in types_to_set:
                for t in tt:
                    all_types_present.append(t[1])
            all_types_present = sorted(set(all_types_present))
        if possible_types is None:
            possible_types = all_types_present
        else:
            if not isinstance(possible_types, list) or not all([isinstance(pt, str) for pt in possible_types]):
                raise Error()
            possible_set = set(possible_types)
            present_set = set(all_types_present)
            if not present_set.issubset(possible_set):
                raise Error()
        if '*' in possible_types:
            raise Error()
        possible_types = ['*'] + possible_types
        self.__possible_types = dict(zip(possible_types, range(len(possible_types))))
        self.__types = types_to_set

    @code('__detectTypesFormat')
    def __detectTypesFormat(self, types):
        """
        Private helper routine to detect what types format is given.

        :retrurns: "short", "long" or "buckets".
        """
        if not isinstance(types, list):
            raise Error()
        if all([isinstance(t, str) for t in types]):
            return 'short'
        elif all([isinstance(t, tuple) for t in types]) and all([isinstance(tt, (int, int, int, int, str)[i]) for i, tt in enumerate(types[0])]):
            return 'long'
        else:
            return 'buckets'

    @code('__checkAndSetShortTypes')
    def __checkAndSetShortTypes(self, types, default_type, possible_types):
        """
        Private helper to check the types input for the 'short' format.
        """
        if default_type is not None:
            raise Error()
        return checkTypes(types, self.__n_lattice_sites)

    @code('__checkAndSetLongTypes')
    def __checkAndSetLongTypes(self, types, default_type, possible_types):
        """
        Private helper to check the types input for the 'long' format.
        """
        if default_type is None:
            raise Error()
        if not isinstance(default_type, str):
            raise Error()
        types_to_set = [default_type] * self.__n_lattice_sites
        for t in types:
            if not isinstance(t, tuple) or len(t) != 5:
                raise Error()
            if not all([isinstance(tt, (int, int, int, int, str)[i]) for i, tt in enumerate(t)]):
                raise Error()
            nI, nJ, nK = self.__lattice.repetitions()
            nB = len(self.__lattice.basis())
            if t[0] < 0 or t[0] >= nI:
                raise Error()
            if t[1] < 0 or t[1] >= nJ:
                raise Error()
            if t[2] < 0 or t[2] >= nK:
                raise Error()
            if t[3] < 0 or t[3] >= nB:
                raise Error()
            index = self.__lattice._globalIndex(t[0], t[1], t[2], t[3])
            types_to_set[index] = t[4]
        return types_to_set

    @code('__checkAndSetBucketsTypes')
    def __checkAndSetBucketsTypes(self, types, default_type, possible_types):
        """
        Private helper to check the types input for the 'buckets' format.
        """
        if default_type is not None:
            raise Error()
        return [checkAndNormaliseBucketEntry(t) for t in types]

    def types(self):
        if self.__use_buckets:
            self.__types = [[ee for ee in e] for e in self._backend().elements()]
        else:
            self.__types = [e[0] for e in self._backend().elements()]
        return self.__types

    def atomIDTypes(self):
        return self._backend().atomIDElements()

    def atomIDCoordinates(self):
        return stdVectorCoordinateToNumpy2DArray(self._backend().atomIDCoordinates())

    def sites(self):
        return self.__lattice.sites()

    def possibleTypes(self):
        return self.__possible_types

    def particlesPerType(self):
        return self._backend().particlesPerType()

    def cellRepetitions(self):
        return self.__lattice.repetitions()

    def movedAtomIDs(self):
        return self._backend().movedAtomIDs()

    def latestEventProcess(self):
        return self._backend().latestEventProcess()

    def latestEventSite(self):
        return self._backend().latestEventSite()

    def lattice(self):
        return self.__lattice

    @code('_backend')
    def _backend(self):
        if self.__backend is None:
            if self.__use_buckets:
                cpp_types = bucketListToStdVectorStdVectorString(self.__types)
            else:
                cpp_types = stringListToStdVectorStdVectorString(self.__types)
            cpp_coords = numpy2DArrayToStdVectorStdVectorDouble(self.__lattice.sites())
            cpp_possible_types = Backend.StdMapStringInt(self.__possible_types)
            self.__backend = Backend.Configuration(cpp_coords, cpp_types, cpp_possible_types)
        return self.__backend

    @code('_backendTypeNames')
    def _backendTypeNames(self):
        return self.__backend.typeNames()

    @code('_latticeMap')
    def _latticeMap(self):
        return self.__lattice._map()

    @code('_script')
    def _script(self, variable_name='configuration'):
        lattice_script = self.__lattice._script(variable_name='lattice')
        types_string = 'types = '
        indent = ' ' * 9
        line = '['
        nT = len(self.__types)
        for i, t in enumerate(self.__types):
            line += "'" + t + "'"
            if i == nT - 1:
                line += ']\n'
                types_string += line
                break
            else:
                line += ','
            if len(line) > 50:
                types_string += line + '\n' + indent
                line = ''
        possible_types_string = 'possible_types = '
        indent = ' ' * 18
        line = '['
        possible_types = [t for t in self.__possible_types if t != '*']
        nT = len(possible_types)
        for i, t in enumerate(possible_types):
            line += "'" + t + "'"
            if i == nT - 1:
                line += ']\n'
                possible_types_string += line
                break
            else:
                line += ','
            if len(line) > 50:
                possible_types_string += line + '\n' + indent
                line = ''
        configuration_string = variable_name + ' = KMCConfiguration(\n    lattice=lattice,\n    types=types,\n    possible_types=possible_types)\n'
        comment_string = '\n# -----------------------------------------------------------------------------\n# Configuration\n\n'
        return lattice_script + comment_string + types_string + '\n' + possible_types_string + '\n' + configuration_string

    @code('_atkScript')
    def _atkScript(self, types_map):
        header = '# ----------------------------------------------------------\n# ATK 12.8.2 BulkConfiguration script generated from KMCLib\n# configuration version 1.0.\n# ----------------------------------------------------------\n\n'
        cell_vectors = self.__lattice.unitCell().cellVectors()
        vector_a = cell_vectors[0] * self.__lattice.repetitions()[0]
        vector_b = cell_vectors[1] * self.__lattice.repetitions()[1]
        vector_c = cell_vectors[2] * self.__lattice.repetitions()[2]
        cell_script = '# Specify the lattice parameters.\n'
        cell_script += 'vector_a = [ %12.8f, %12.8f, %12.8f]*Angstrom\n' % (vector_a[0], vector_a[1], vector_a[2])
        cell_script += 'vector_b = [ %12.8f, %12.8f, %12.8f]*Angstrom\n' % (vector_b[0], vector_b[1], vector_b[2])
        cell_script += 'vector_c = [ %12.8f, %12.8f, %12.8f]*Angstrom\n' % (vector_c[0], vector_c[1], vector_c[2])
        cell_script += 'lattice = UnitCell(vector_a, vector_b, vector_c)\n\n'
        one_over_rep = numpy.array([1.0 / self.__lattice.repetitions()[0], 1.0 / self.__lattice.repetitions()[1], 1.0 / self.__lattice.repetitions()[2]], dtype=float)
        atoms = [(types_map[t], c * one_over_rep) for t, c in zip(self.atomIDTypes(), self.atomIDCoordinates()) if t in types_map]
        elements_script = '# Define the elements.\nelements = ['
        coordinates_script = '# Define the coordinates.\ncoordinates = ['
        last = len(atoms) - 1
        this_row = 0
        full_row = 6
        for i, (t, c) in enumerate(atoms):
            this_row += 1
            if i == last:
                elements_script += '%s]\n\n' % t
                coordinates_script += '[ %15.8e, %15.8e, %15.8e]]\n\n' % (c[0], c[1], c[2])
            else:
                coordinates_script += '[ %15.8e, %15.8e, %15.8e],\n               ' % (c[0], c[1], c[2])
                if this_row == full_row:
                    elements_script += '%s,\n            ' % t
                    this_row = 0
                else:
                    elements_script += '%s, ' % t
        config_script = '# Setup the configuration.\nbulk_configuration = BulkConfiguration(\n    bravais_lattice=lattice,\n    elements=elements,\n    fractional_coordinates=coordinates )\n\n# ----------------------------------------------------------\n'
        return header + cell_script + elements_script + coordinates_script + config_script
