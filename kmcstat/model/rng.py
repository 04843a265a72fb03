"""Reference model: the random number generators (random.cpp)."""


def _draw():
    if rng_type__ == MT:
        return generate_canonical(rng_mt__, '<double,32>')
    if rng_type__ == MINSTD:
        return generate_canonical(rng_minstd__, '<double,32>')
    if rng_type__ == RANLUX24:
        return generate_canonical(rng_ranlux24__, '<double,32>')
    if rng_type__ == RANLUX48:
        return generate_canonical(rng_ranlux48__, '<double,32>')
    if rng_type__ == DEVICE:
        return generate_canonical(rng_device__, '<double,32>')
    raise Error()


@code('randomDouble01', cases={'rng_type__': ['MT', 'MINSTD', 'RANLUX24', 'RANLUX48', 'DEVICE']}, keep=True)
def _rand():
    r = _draw()
    while r <= 0.0:
        r = _draw()
    return r


@code('setRngType', keep=True)
def _set(rng_type):
    global rng_type__
    rng_type__ = rng_type
    if rng_type == DEVICE:
        return not (abs(rng_device__.entropy()) < 1.0e-8)
    return True


@code('seedRandom', keep=True)
def _seed(time_seed, seed):
    if time_seed:
        s = 0
        if isMaster():
            s = time_now()
        distributeToAll(s)
        seed += s
    if rng_type__ == MT:
        rng_mt__.seed(seed)
    elif rng_type__ == MINSTD:
        rng_minstd__.seed(seed)
    elif rng_type__ == RANLUX24:
        rng_ranlux24__.seed(seed)
    elif rng_type__ == RANLUX48:
        rng_ranlux48__.seed(seed)
    elif rng_type__ != DEVICE:
        raise Error()
