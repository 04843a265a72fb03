"""Reference model: the rate calculators compiled in and the callback helper."""


class IsingTestCalculator:
    def backendRateCallback(self, geometry, n, types_before, types_after, rate, number, x, y, z):
        up = 0
        for i in range(1, 5):
            if types_before[i] == 'U':
                up += 1
        d = (4 - up) - up
        return min(1.0, exp(d if number == 0 else -d))

    def cutoff(self):
        return 1.0

    def cacheRates(self):
        return True

    def excludeFromCaching(self):
        return []


class BucketsTestCalculator:
    def backendRateCallbackBuckets(self, geometry, n, occupation, update, type_map, rate, number, x, y, z):
        if number == 0:
            return 0.1
        if number == 1:
            return 0.1 if occupation[4][2] != 0 else 1.0
        if number == 2:
            return 0.1 if occupation[1][2] != 0 else 1.0
        if number == 3:
            return 0.1 if occupation[3][2] != 0 else 1.0
        if number == 4:
            return 0.1 if occupation[2][2] != 0 else 1.0
        return 1.0

    def cutoff(self):
        return 1.0

    def cacheRates(self):
        return False

    def excludeFromCaching(self):
        return []


class RateCalculator:
    def backendRateCallback(self, geometry, n, types_before, types_after, rate, number, x, y, z):
        return rate

    def backendRateCallbackBuckets(self, geometry, n, occupation, update, type_map, rate, number, x, y, z):
        return rate


@code('getRate')
def _get_rate(rc, geometry, types_before, types_after, rate, number, x, y, z):
    geo = filled(3 * len(geometry), 0.0)
    for i in range(len(geometry)):
        geo[3 * i] = geometry[i].x_
        geo[3 * i + 1] = geometry[i].y_
        geo[3 * i + 2] = geometry[i].z_
    return rc.backendRateCallback(geo, len(geometry), types_before, types_after, rate, number, x, y, z)
