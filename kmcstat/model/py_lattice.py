"""Reference model: unit cell and lattice."""


class KMCUnitCell(object):

    def __init__(self, cell_vectors=None, basis_points=None):
        self.__cell_vectors = checkCellVectors(cell_vectors)
        basis_points = checkCoordinateList(basis_points, varname='basis_points')
        for point in basis_points:
            if not all([b < 1.0 and b >= 0.0 for b in point]):
                raise Error()
        self.__basis_points = basis_points

    def basis(self):
        return self.__basis_points

    def cellVectors(self):
        return self.__cell_vectors

    def transformToCartesian(self, r):
        return numpy.dot(r, self.__cell_vectors)

    @code('_script')
    def _script(self, variable_name='unit_cell'):
        ff = '%15.6e'
        indent = ' ' * 16
        cell_vector_a_str = '[' + ff + ',' + ff + ',' + ff + '],\n'
        cell_vector_b_str = indent + '[' + ff + ',' + ff + ',' + ff + '],\n'
        cell_vector_c_str = indent + '[' + ff + ',' + ff + ',' + ff + ']]\n'
        cell_vector_a = cell_vector_a_str % (self.__cell_vectors[0][0], self.__cell_vectors[0][1], self.__cell_vectors[0][2])
        cell_vector_b = cell_vector_b_str % (self.__cell_vectors[1][0], self.__cell_vectors[1][1], self.__cell_vectors[1][2])
        cell_vector_c = cell_vector_c_str % (self.__cell_vectors[2][0], self.__cell_vectors[2][1], self.__cell_vectors[2][2])
        cell_string = 'cell_vectors = [' + cell_vector_a + cell_vector_b + cell_vector_c
        basis_string = 'basis_points = ['
        basis_point_str = '[' + ff + ',' + ff + ',' + ff + ']'
        for i, point in enumerate(self.__basis_points):
            if i == 0:
                basis_string += basis_point_str % (point[0], point[1], point[2])
            else:
                basis_string += indent + basis_point_str % (point[0], point[1], point[2])
            if len(self.__basis_points) > i + 1:
                basis_string += ',\n'
            else:
                basis_string += ']\n'
        unit_cell_string = variable_name + ' = KMCUnitCell(\n    cell_vectors=cell_vectors,\n    basis_points=basis_points)\n'
        comment_string = '\n# -----------------------------------------------------------------------------\n# Unit cell\n\n'
        return comment_string + cell_string + '\n' + basis_string + '\n' + unit_cell_string


class KMCLattice(object):

    def __init__(self, unit_cell=None, repetitions=None, periodic=None):
        if not isinstance(unit_cell, KMCUnitCell):
            raise Error()
        self.__unit_cell = unit_cell
        self.__repetitions = self.__checkRepetitions(repetitions)
        self.__periodic = self.__checkPeriodic(periodic)
        self.__sites = self.__generateLatticeSites()
        self.__lattice_map = None

    @code('__checkRepetitions')
    def __checkRepetitions(self, repetitions):
        """
        Private helper routine to check the repetitions input.
        """
        if repetitions is None:
            repetitions = (1, 1, 1)
        repetitions = checkSequence(repetitions, "The 'repetitions' input parametr is not given as a sequence of numbers.")
        if len(repetitions) != 3:
            raise Error()
        for val in repetitions:
            if not isinstance(val, int):
                raise Error()
        for val in repetitions:
            if val < 1:
                raise Error()
        return repetitions

    @code('__checkPeriodic')
    def __checkPeriodic(self, periodic):
        """
        Private helper routine to check the periodic input.
        """
        if periodic is None:
            periodic = (True, True, True)
        periodic = checkSequence(periodic, "The 'periodic' input parametr is not given as a sequence of bools.")
        if len(periodic) != 3:
            raise Error()
        for val in periodic:
            if not isinstance(val, bool):
                raise Error()
        return periodic

    @code('__generateLatticeSites')
    def __generateLatticeSites(self):
        """
        Private helper function to generate the sites data based on the basis and repetitions
        stored on the class.
        """
        basis = self.__unit_cell.basis()
        sites = []
        for i in range(self.__repetitions[0]):
            for j in range(self.__repetitions[1]):
                for k in range(self.__repetitions[2]):
                    translation = numpy.array([i, j, k])
                    for b in basis:
                        site = b + translation
                        sites.append(site)
        return numpy.array(sites)

    def sites(self):
        return self.__sites

    def repetitions(self):
        return self.__repetitions

    def periodic(self):
        return self.__periodic

    def basis(self):
        return self.__unit_cell.basis()

    def unitCell(self):
        return self.__unit_cell

    @code('_globalIndex')
    def _globalIndex(self, i, j, k, b):
        nI = self.__repetitions[0]
        nJ = self.__repetitions[1]
        nK = self.__repetitions[2]
        nB = len(self.__unit_cell.basis())
        return i * nJ * nK * nB + j * nK * nB + k * nB + b

    @code('_map')
    def _map(self):
        if self.__lattice_map is None:
            self.__lattice_map = Backend.LatticeMap(len(self.__unit_cell.basis()), Backend.StdVectorInt(self.__repetitions), Backend.StdVectorBool(self.__periodic))
        return self.__lattice_map

    @code('_script')
    def _script(self, variable_name='lattice'):
        unit_cell_script = self.__unit_cell._script(variable_name='unit_cell')
        nI = self.__repetitions[0]
        nJ = self.__repetitions[1]
        nK = self.__repetitions[2]
        lattice_string = variable_name + ' = KMCLattice(\n    unit_cell=unit_cell,\n    repetitions=(%i,%i,%i),\n    periodic=%s)\n' % (nI, nJ, nK, str(self.__periodic))
        comment_string = '\n# -----------------------------------------------------------------------------\n# Lattice\n\n'
        return unit_cell_script + comment_string + lattice_string
