"""Reference model: conversions between Python and C++ containers."""


def stringListToStdVectorString(string_list):
    size = len(string_list)
    cpp_list = Backend.StdVectorString()
    for s in string_list:
        cpp_list.push_back(s)
    return cpp_list


def stdVectorStringToStringList(cpp_list):
    size = cpp_list.size()
    string_list = []
    for i in range(size):
        string_list.append(cpp_list[i])
    return string_list


def stringListToStdVectorStdVectorString(string_list):
    size = len(string_list)
    cpp_list = Backend.StdVectorStdVectorString()
    for s in string_list:
        cpp_list.push_back(Backend.StdVectorString(1, s))
    return cpp_list


def bucketListToStdVectorStdVectorString(bucket_list):
    cpp_list = Backend.StdVectorStdVectorString()
    for ss in bucket_list:
        site_list = Backend.StdVectorString()
        for s in ss:
            for i in range(s[0]):
                site_list.push_back(s[1])
        cpp_list.push_back(site_list)
    return cpp_list


def numpy2DArrayToStdVectorStdVectorDouble(array):
    shape = numpy.shape(array)
    nI = shape[0]
    nJ = shape[1]
    cpp_2D_vector = Backend.StdVectorStdVectorDouble(nI)
    for i in range(nI):
        cpp_vector = Backend.StdVectorDouble(nJ)
        for j in range(nJ):
            cpp_vector[j] = array[i][j]
        cpp_2D_vector[i] = cpp_vector
    return cpp_2D_vector


def stdVectorCoordinateToNumpy2DArray(cpp_vector):
    size = len(cpp_vector)
    py_data = numpy.zeros((size, 3))
    for i in range(size):
        py_data[i][0] = cpp_vector[i].x()
        py_data[i][1] = cpp_vector[i].y()
        py_data[i][2] = cpp_vector[i].z()
    return py_data


def numpy2DArrayToStdVectorCoordinate(array):
    shape = numpy.shape(array)
    nI = shape[0]
    cpp_vector = Backend.StdVectorCoordinate()
    for i in range(nI):
        cpp_vector.push_back(Backend.Coordinate(array[i][0], array[i][1], array[i][2]))
    return cpp_vector


def typeBucketToList(type_bucket):
    size = type_bucket.size()
    ret = [0] * size
    for i in range(size):
        ret[i] = type_bucket[i]
    return ret


def toShortBucketsFormat(types_list):
    ret_types = []
    for t in types_list:
        t_list = []
        if isinstance(t, str):
            t_list.append((1, t))
        elif isinstance(t, list):
            for tt in t:
                if isinstance(tt, str):
                    t_list.append((1, tt))
                elif isinstance(tt, tuple):
                    t_list.append(tt)
        elif isinstance(t, tuple):
            t_list.append(t)
        ret_types.append(t_list)
    final_types = []
    for t in ret_types:
        t_type = []
        taken = []
        for i, t0 in enumerate(t):
            occupation = t0[0]
            name = t0[1]
            if not name in taken:
                for j, t1 in enumerate(t):
                    if i < j:
                        if t1[1] == name:
                            occupation += t1[0]
                t_type.append((occupation, name))
                taken.append(name)
        final_types.append(t_type)
    return final_types


def stdVectorTypeBucketToPython(cpp_vector, cpp_type_map):
    types = []
    for i in range(len(cpp_vector)):
        site_types = []
        for j in range(cpp_vector[i].size() - 1):
            j += 1
            t = cpp_type_map[j]
            n = cpp_vector[i][j]
            if n > 0:
                site_types.append((n, t))
        types.append(site_types)
    return types
