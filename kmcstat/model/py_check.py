"""Reference model: checks of user input."""


def checkIndexWithinBounds(index, list, msg=None):
    if msg is None:
        msg = 'Index out of range.'
    if index < 0 or index >= len(list):
        raise Error()
    return index


def checkCellVectors(cell_vectors):
    if not isinstance(cell_vectors, numpy.ndarray):
        cell_vectors = checkSequence(cell_vectors, "The 'cell_vectors' must be given as a 3x3 list or array of numbers.")
        cell_vectors = checkCoordinateList(cell_vectors, 'cell_vecctors')
        cell_vectors = numpy.array(cell_vectors)
    if numpy.shape(cell_vectors) != (3, 3):
        raise Error()
    dummy_array = numpy.array([[1.0, 0.0, 0.0], [0.0, 1.0, 0.0], [0.0, 0.0, 1.0]])
    if cell_vectors.dtype != dummy_array.dtype:
        raise Error()
    cell_T = numpy.transpose(cell_vectors)
    cell_determinant = numpy.linalg.det(cell_T)
    if cell_determinant < 1e-05:
        raise Error()
    return cell_vectors


def checkCoordinateList(coordinates, varname='coordinates'):
    coordinates = checkSequence(coordinates, 'The %s must be given as a list of lists with dimensions Nx3' % varname)
    if len(coordinates) < 1:
        raise Error()
    for coord in coordinates:
        coord = checkSequence(coord, 'The %s must be given as a list of lists with dimensions Nx3' % varname)
        if len(coord) != 3:
            raise Error()
        if not all([isinstance(c, float) for c in coord]):
            raise Error()
    return numpy.array(coordinates)


def checkSequence(sequence, msg='The tested object is not a sequence.'):
    if not '__len__' in dir(sequence):
        raise Error()
    return sequence


def checkSequenceOfPositiveIntegers(sequence, msg='The tested object is not a sequence of positive integers.'):
    sequence = checkSequenceOf(sequence, (int, numpy.integer), msg)
    for s in sequence:
        if s < 0:
            raise Error()
    return sequence


def checkSequenceOfFloats(sequence, msg='The tested object is not a sequence of floats.'):
    return checkSequenceOf(sequence, float, msg)


def checkSequenceOf(sequence, class_type, msg='The tested object is not a sequence of the correct type.'):
    sequence = checkSequence(sequence, msg)
    if len(sequence) == 0:
        raise Error()
    for element in sequence:
        if not isinstance(element, class_type):
            raise Error()
    return sequence


def checkTypes(types, length):
    if not isinstance(types, list):
        raise Error()
    for t in types:
        if not isinstance(t, str):
            raise Error()
    if len(types) != length:
        raise Error()
    return types


def checkPositiveInteger(parameter, default_parameter, parameter_name):
    if parameter is None:
        parameter = default_parameter
    msg = "The parameter '%s' must be given as a positive integer." % parameter_name
    if not isinstance(parameter, int):
        raise Error()
    if parameter < 0:
        raise Error()
    return parameter


def checkPositiveFloat(parameter, default_parameter, parameter_name):
    if parameter is None:
        parameter = default_parameter
    msg = "The parameter '%s' must be given as a positive float." % parameter_name
    if not isinstance(parameter, float):
        raise Error()
    if parameter < 0.0:
        raise Error()
    return parameter


def checkAndNormaliseBucketEntry(t):
    if isinstance(t, list):
        normalised_type = []
        for tt in t:
            if isinstance(tt, str):
                normalised_type.append((1, tt))
            elif isinstance(tt, tuple):
                if not len(tt) == 2 or not isinstance(tt[0], int) or (not isinstance(tt[1], str)):
                    raise Error()
                normalised_type.append(tt)
            else:
                raise Error()
        final_type = []
        skip_list = []
        for i, first in enumerate(normalised_type):
            if not i in skip_list:
                for j in range(len(normalised_type) - i - 1):
                    second = normalised_type[i + j + 1]
                    if first[1] == second[1]:
                        first = (first[0] + second[0], first[1])
                        skip_list.append(i + j + 1)
                final_type.append(first)
        return final_type
    elif isinstance(t, tuple):
        if not len(t) == 2 or not isinstance(t[0], int) or (not isinstance(t[1], str)):
            raise Error()
        return [t]
    elif isinstance(t, str):
        return [(1, t)]
    else:
        raise Error()
