"""Reference model: the key of the rate cache."""


@code('hashCustomRateInput')
def _key(index, process, configuration):
    data = [process.process_number_]
    cm = configuration.match_lists_[index]
    i = 0
    while i < len(cm) and cm[i].distance <= process.cutoff_:
        for j in range(len(cm[i].match_types)):
            data.append(cm[i].match_types[j])
        i += 1
    return hash64MD5xor(data)


@code('hash64MD5xor', sig='std::vector<int> &')
def _hash(message):
    hi = undefined()
    lo = undefined()
    md5Core(message, 4 * len(message), hi, lo)
    return hi ^ lo
