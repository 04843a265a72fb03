"""Reference model: coordinate utilities."""


def centerCoordinates(coordinates, index):
    center = coordinates[index]
    coordinates = numpy.array([coord - center for coord in coordinates])
    return coordinates


def sortCoordinatesDistance(coordinates, center, types1, types2=None, co_sort=None):
    if types2 is None:
        types2 = [t for t in types1]
    ret_co_sort = True
    if co_sort is None:
        co_sort = types2
        ret_co_sort = False
    dt = coordinates.dtype
    dtype = [('x', dt), ('y', dt), ('z', dt), ('d', dt), ('type1', numpy.array(types1).dtype), ('type2', numpy.array(types2).dtype), ('co_sort', numpy.array(co_sort).dtype)]
    origin = coordinates[center]
    distances = numpy.array([numpy.linalg.norm(coord - origin) for coord in coordinates])
    to_sort = numpy.array([(c[0], c[1], c[2], d, t1, t2, cs) for c, d, t1, t2, cs in zip(coordinates, distances, types1, types2, co_sort)], dtype=dtype)
    sorted_list = numpy.sort(to_sort, order=['d', 'type1', 'x', 'y', 'z'])
    coordinates = numpy.array([[c[0], c[1], c[2]] for c in sorted_list])
    distances = numpy.array([c[3] for c in sorted_list])
    types1 = [c[4] for c in sorted_list]
    types2 = [c[5] for c in sorted_list]
    co_sort = [c[6] for c in sorted_list]
    if ret_co_sort:
        return (coordinates, distances, types1, types2, co_sort)
    else:
        return (coordinates, distances, types1, types2)


def sortCoordinates(coordinates, types1, types2=None, co_sort=None):
    if types2 is None:
        types2 = [t for t in types1]
    ret_co_sort = True
    if co_sort is None:
        co_sort = types2
        ret_co_sort = False
    dt = coordinates.dtype
    dtype = [('x', dt), ('y', dt), ('z', dt), ('type1', numpy.array(types1).dtype), ('type2', numpy.array(types2).dtype), ('co_sort', numpy.array(co_sort).dtype)]
    to_sort = numpy.array([(c[0], c[1], c[2], t1, t2, cs) for c, t1, t2, cs in zip(coordinates, types1, types2, co_sort)], dtype=dtype)
    sorted_list = numpy.sort(to_sort, order=['x', 'y', 'z', 'type1'])
    coordinates = numpy.array([[c[0], c[1], c[2]] for c in sorted_list])
    types1 = [c[3] for c in sorted_list]
    types2 = [c[4] for c in sorted_list]
    co_sort = [c[5] for c in sorted_list]
    if ret_co_sort:
        return (coordinates, types1, types2, co_sort)
    else:
        return (coordinates, types1, types2)
