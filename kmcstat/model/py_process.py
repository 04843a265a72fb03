"""Reference model: processes and local configurations."""


class KMCLocalConfiguration(object):

    def __init__(self, coordinates=None, types=None, center=None):
        coordinates = checkCoordinateList(coordinates)
        if center is None:
            center = 0
        if not isinstance(center, int):
            raise Error()
        center = checkIndexWithinBounds(center, coordinates, msg="The 'center' index paramter must be one in the coordinate list.")
        self.__coordinates = centerCoordinates(coordinates, center)
        if len(types) != len(coordinates):
            raise Error()
        self.__types = [checkAndNormaliseBucketEntry(t) for t in types]
        self.__backend = None
        self.__backend_possible_types = None

    def coordinates(self):
        return self.__coordinates

    def types(self):
        return self.__types

    @code('_backend')
    def _backend(self, possible_types):
        if self.__backend is None or self.__backend_possible_types != possible_types:
            cpp_types = bucketListToStdVectorStdVectorString(self.__types)
            cpp_coords = numpy2DArrayToStdVectorStdVectorDouble(self.__coordinates)
            cpp_possible_types = Backend.StdMapStringInt(possible_types)
            self.__backend = Backend.Configuration(cpp_coords, cpp_types, cpp_possible_types)
            self.__backend_possible_types = dict(possible_types)
        return self.__backend

    @code('_script')
    def _script(self, variable_name='local_configuration'):
        ff = '%15.6e'
        varname = 'coordinates'
        indent = ' ' * len(varname) + '    '
        coords_string = varname + ' = ['
        coord_template = '[' + ff + ',' + ff + ',' + ff + '],\n'
        if len(self.__coordinates) > 1:
            c = self.__coordinates[0]
            coords_string += coord_template % (c[0], c[1], c[2])
            coord_template = indent + '[' + ff + ',' + ff + ',' + ff + '],\n'
            for c in self.__coordinates[1:-1]:
                coords_string += coord_template % (c[0], c[1], c[2])
        c = self.__coordinates[-1]
        if len(self.__coordinates) == 1:
            coord_template = '[' + ff + ',' + ff + ',' + ff + ']]\n'
        else:
            coord_template = indent + '[' + ff + ',' + ff + ',' + ff + ']]\n'
        coords_string += coord_template % (c[0], c[1], c[2])
        types_string = 'types = ' + str(self.__types) + '\n'
        config_string = variable_name + ' = KMCLocalConfiguration(\n    coordinates=coordinates,\n    types=types)\n'
        comment_string = '\n# -----------------------------------------------------------------------------\n# Local configuration\n\n'
        return comment_string + coords_string + '\n' + types_string + '\n' + config_string


class KMCBaseProcess(object):

    def __init__(self, coordinates=None, basis_sites=None, rate_constant=None):
        coordinates = checkCoordinateList(coordinates)
        center = 0
        self._coordinates = centerCoordinates(coordinates, center)
        basis_sites = checkSequenceOfPositiveIntegers(basis_sites, msg='The basis_sites must be given as a list of positive integers.')
        if len(basis_sites) == 0:
            msg = 'The list of available basis sites for a process may not be empty.'
        self._basis_sites = basis_sites
        self._rate_constant = checkPositiveFloat(rate_constant, default_parameter=None, parameter_name='rate_constant')
        self._elements_before = None
        self._elements_after = None
        self._move_vectors = None
        self._all_present_types = None
        self._local_configurations = None

    def basisSites(self):
        return self._basis_sites

    def rateConstant(self):
        return self._rate_constant

    def allPresentTypes(self):
        return self._all_present_types

    def localConfigurations(self):
        return self._local_configurations

    def moveVectors(self):
        return self._move_vectors


class KMCBucketProcess(KMCBaseProcess):

    def __init__(self, coordinates=None, minimum_match=None, update=None, basis_sites=None, rate_constant=None):
        super(KMCBucketProcess, self).__init__(coordinates, basis_sites, rate_constant)
        self.__minimum_match = [checkAndNormaliseBucketEntry(m) for m in minimum_match]
        if not len(self.__minimum_match) == len(coordinates):
            raise Error()
        self.__update = self.__checkUpdateInfo(update)
        if not len(self.__update) == len(coordinates):
            raise Error()
        self._elements_before = self.__minimum_match
        all_types = []
        for e in self._elements_before:
            if isinstance(e, str):
                all_types.append(e)
            else:
                for ee in e:
                    if isinstance(ee, str):
                        all_types.append(ee)
                    elif isinstance(ee, tuple):
                        all_types.append(ee[1])
        for entry in self.__update:
            all_types.extend([e[1] for e in entry if isinstance(e, tuple)])
        self._all_present_types = list(set(all_types))
        self._move_vectors = []
        center = 0
        c1 = KMCLocalConfiguration(self._coordinates, self._elements_before, center)
        self._local_configurations = (c1,)
        self.__cpp_update = None

    @code('__checkUpdateInfo')
    def __checkUpdateInfo(self, update_info):
        """
        Private helper function to check the update information.

        :param update_info: The update information to check.
        :returns: The checked update information.
        """
        return update_info

    @code('_update')
    def _update(self):
        if self.__cpp_update is None:
            self.__cpp_update = Backend.StdVectorStdMapStringInt()
            for update_entry in self.__update:
                cpp_map = Backend.StdMapStringInt()
                for e in update_entry:
                    cpp_map[e[1]] = e[0]
                self.__cpp_update.push_back(cpp_map)
        return self.__cpp_update


class KMCProcess(KMCBaseProcess):

    def __init__(self, coordinates=None, elements_before=None, elements_after=None, move_vectors=None, basis_sites=None, rate_constant=None):
        super(KMCProcess, self).__init__(coordinates, basis_sites, rate_constant)
        elements_before = checkTypes(elements_before, len(coordinates))
        elements_after = checkTypes(elements_after, len(coordinates))
        self.__checkValidMoveElements(elements_before, elements_after)
        self._elements_before = elements_before
        self._elements_after = elements_after
        self._move_vectors = self.__checkValidMoveVectors(move_vectors)
        self.__sortCoordinatesElementsAndMoveVectors()
        basis_sites = checkSequenceOfPositiveIntegers(basis_sites, msg='The basis_sites must be given as a list of positive integers.')
        self.__basis_sites = basis_sites
        self.__rate_constant = checkPositiveFloat(rate_constant, default_parameter=None, parameter_name='rate_constant')
        center = 0
        c1 = KMCLocalConfiguration(self._coordinates, self._elements_before, center)
        c2 = KMCLocalConfiguration(self._coordinates, self._elements_after, center)
        self._local_configurations = (c1, c2)
        self._all_present_types = list(set(self.elementsBefore() + self.elementsAfter()))

    @code('__checkValidMoveElements')
    def __checkValidMoveElements(self, elements_before, elements_after):
        before = [e == '*' for e in elements_before]
        after = [e == '*' for e in elements_after]
        if len(before) != len(after) or before != after:
            raise Error()
        if elements_before == elements_after:
            raise Error()

    @code('__checkValidMoveVectors')
    def __checkValidMoveVectors(self, move_vectors):
        move_vectors = self.__checkMoveVectorsFormat(move_vectors)
        if move_vectors is None:
            move_vectors = []
            return move_vectors
        moved_elements = [] + self._elements_before
        for move_index, move_vector in move_vectors:
            old_coord = self._coordinates[move_index]
            new_coord = numpy.array(old_coord) + numpy.array(move_vector)
            subtracted = self._coordinates - new_coord
            reduced = numpy.abs(sum(abs(subtracted.transpose())))
            boolean = [rr < 1e-08 for rr in reduced]
            new_index = numpy.where(boolean)
            if len(new_index[0]) == 0:
                raise Error()
            new_index = new_index[0][0]
            if self._elements_before[move_index] != self._elements_after[new_index]:
                raise Error()
            moved_elements[new_index] = self._elements_before[move_index]
        if self._elements_after != moved_elements:
            raise Error()
        return move_vectors

    @code('__checkMoveVectorsFormat')
    def __checkMoveVectorsFormat(self, move_vectors):
        if move_vectors is None:
            move_vectors = self.__reconstructMoveVectors()
        if move_vectors is None:
            return move_vectors
        msg = "The 'move_vectors' input to the KMCProcess constructor must be a\nlist of tuples, where the first element of each tuple refers to an atom index\nand the second element is a cartesian vector of length 3, in internal\ncoordinates defining where the moved index goes."
        move_vectors = checkSequence(move_vectors, msg)
        for t in move_vectors:
            if not isinstance(t, tuple):
                raise Error()
            elif not isinstance(t[0], int):
                raise Error()
            checkSequenceOfFloats(t[1], msg)
            if len(t[1]) != 3:
                raise Error()
        return move_vectors

    @code('__reconstructMoveVectors')
    def __reconstructMoveVectors(self):
        pairs = []
        for i, (e1, e2) in enumerate(zip(self._elements_before, self._elements_after)):
            if e1 != e2:
                pairs.append((e1, e2, i))
        if len(pairs) != 2:
            return None
        if not (pairs[0][0] == pairs[1][1] and pairs[0][1] == pairs[1][0]):
            return None
        index_0 = pairs[0][2]
        index_1 = pairs[1][2]
        start = numpy.array(self._coordinates[index_0])
        end = numpy.array(self._coordinates[index_1])
        vector_0 = numpy.array(end - start)
        vector_1 = numpy.array(start - end)
        return [(index_0, vector_0), (index_1, vector_1)]

    @code('__sortCoordinatesElementsAndMoveVectors')
    def __sortCoordinatesElementsAndMoveVectors(self):
        original_indexing = list(range(len(self._coordinates)))
        sorted_coords, dummy_distances, sorted_types_before, sorted_types_after, new_to_old_index = sortCoordinatesDistance(coordinates=self._coordinates, center=0, types1=self._elements_before, types2=self._elements_after, co_sort=original_indexing)
        if len(self._move_vectors) > 0:
            old_to_new_index = []
            for i in range(len(new_to_old_index)):
                old_to_new_index.append(new_to_old_index.index(i))
            move_vector_index = []
            for v in self._move_vectors:
                move_vector_index.append(old_to_new_index[v[0]])
            to_sort = numpy.array(list(enumerate(move_vector_index)))
            sorted_indices = to_sort[numpy.argsort(to_sort[:, 1])]
            new_move_vectors = []
            for idx in sorted_indices:
                new_move_vectors.append((idx[1], self._move_vectors[idx[0]][1]))
            self._move_vectors = new_move_vectors
        self._coordinates = sorted_coords
        self._elements_before = sorted_types_before
        self._elements_after = sorted_types_after

    @code('__eq__')
    def __eq__(self, other):
        if len(other.basisSites()) != len(self.basisSites()):
            return False
        elif not all([s1 == s2 for s1, s2 in zip(other.basisSites(), self.basisSites())]):
            return False
        elif numpy.shape(other.localConfigurations()[0].coordinates())[0] != numpy.shape(self.localConfigurations()[0].coordinates())[0]:
            return False
        coords_self = self.localConfigurations()[0].coordinates()
        coords_other = other.localConfigurations()[0].coordinates()
        types_before_self = self.localConfigurations()[0].types()
        types_before_other = other.localConfigurations()[0].types()
        types_after_self = self.localConfigurations()[1].types()
        types_after_other = other.localConfigurations()[1].types()
        if numpy.linalg.norm(coords_self - coords_other) > 1e-05:
            return False
        elif not all([s1 == s2 for s1, s2 in zip(types_before_self, types_before_other)]):
            return False
        elif not all([s1 == s2 for s1, s2 in zip(types_after_self, types_after_other)]):
            return False
        if len(self._move_vectors) != len(other._move_vectors):
            return False
        for v1, v2 in zip(self._move_vectors, other._move_vectors):
            if v1[0] != v2[0]:
                return False
            elif numpy.linalg.norm(numpy.array(v1[1]) - numpy.array(v2[1])) > 1e-08:
                return False
        return True

    def elementsBefore(self):
        return self._elements_before

    def elementsAfter(self):
        return self._elements_after

    @code('_script')
    def _script(self, variable_name='process'):
        ff = '%15.6e'
        varname = 'coordinates'
        indent = ' ' * len(varname) + '    '
        coords_string = varname + ' = ['
        coord_template = '[' + ff + ',' + ff + ',' + ff + '],\n'
        if len(self._coordinates) > 1:
            c = self._coordinates[0]
            coords_string += coord_template % (c[0], c[1], c[2])
            coord_template = indent + '[' + ff + ',' + ff + ',' + ff + '],\n'
            for c in self._coordinates[1:-1]:
                coords_string += coord_template % (c[0], c[1], c[2])
        c = self._coordinates[-1]
        if len(self._coordinates) == 1:
            coord_template = '[' + ff + ',' + ff + ',' + ff + ']]\n'
        else:
            coord_template = indent + '[' + ff + ',' + ff + ',' + ff + ']]\n'
        coords_string += coord_template % (c[0], c[1], c[2])
        elements_before_string = 'elements_before = '
        indent = ' ' * 19
        line = '['
        nT = len(self._elements_before)
        for i, t in enumerate(self._elements_before):
            line += "'" + t + "'"
            if i == nT - 1:
                line += ']\n'
                elements_before_string += line
                break
            else:
                line += ','
            if len(line) > 50:
                elements_before_string += line + '\n' + indent
                line = ''
        elements_after_string = 'elements_after  = '
        indent = ' ' * 19
        line = '['
        nT = len(self._elements_after)
        for i, t in enumerate(self._elements_after):
            line += "'" + t + "'"
            if i == nT - 1:
                line += ']\n'
                elements_after_string += line
                break
            else:
                line += ','
            if len(line) > 50:
                elements_after_string += line + '\n' + indent
                line = ''
        if len(self._move_vectors) == 0:
            move_vectors_string = 'move_vectors    = None\n'
        else:
            move_vectors_string = 'move_vectors    = ['
            indent = ' ' * 19
            vector_template = '[' + ff + ',' + ff + ',' + ff + ']'
            for i, (index, vector) in enumerate(self._move_vectors):
                move_vectors_string += '( %2i,' % index + vector_template % (vector[0], vector[1], vector[2])
                if i < len(self._move_vectors) - 1:
                    move_vectors_string += '),\n' + indent
                else:
                    move_vectors_string += ')]\n'
        basis_sites_string = 'basis_sites     = ['
        for j, b in enumerate(self.__basis_sites):
            if j == len(self.__basis_sites) - 1:
                basis_sites_string += '%i]' % b
            else:
                basis_sites_string += '%i,' % b
        rate_constant_string = 'rate_constant   = ' + ff
        rate_constant_string = rate_constant_string % self.__rate_constant
        process_string = variable_name + ' = KMCProcess(\n' + '    coordinates=coordinates,\n' + '    elements_before=elements_before,\n' + '    elements_after=elements_after,\n' + '    move_vectors=move_vectors,\n' + '    basis_sites=basis_sites,\n' + '    rate_constant=rate_constant)\n'
        return coords_string + '\n' + elements_before_string + elements_after_string + move_vectors_string + basis_sites_string + '\n' + rate_constant_string + '\n\n' + process_string + '\n'
