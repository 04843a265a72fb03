"""Functions that keep their identity in callers (every one of them has its own
reference model, or is a source of effects)."""
OPAQUE = [
    'LatticeMap::indexToCell',
    'LatticeMap::indicesFromCell',
    'LatticeMap::wrap/2',
    'LatticeMap::neighbourIndices',
    'LatticeMap::supersetNeighbourIndices',
    'Configuration::configMatchList/3',
    'determineChunks',
    'sumOverProcesses',
    'splitOverProcesses',
    'joinOverProcesses',
    'MPICommons::barrier',
    'distributeToAll',
    'MPICommons::isMaster',
    'randomDouble01',
    'configurationsToMatchList',
    'TypeBucket::match',
    'ProcessBucketMatchListEntry::match',
    'samePoint',
    'Matcher::matchIndicesWithProcesses',
    'Matcher::updateRates',
    'Matcher::updateSingleRate',
    'hashCustomRateInput',
    'RateTable::stored',
    'RateTable::retrieve',
    'RateTable::store',
    'Matcher::updateProcesses',
    'Configuration::updateMatchList',
    'Configuration::performBucketProcess',
    'Configuration::initMatchLists',
    'Interactions::updateProcessMatchLists',
    'Matcher::calculateMatching',
    'Interactions::maxRange',
    'multiplicity',
    'whateverMatch',
    'LatticeModel::calculateInitialMatching',
    'hash64MD5xor',
    'md5Core',
    'calculateAndBinMSD',
    'Process::pickSite',
    'Interactions::pickProcessIndex',
    'Interactions::updateProbabilityTable',
    'SimulationTimer::propagateTime',
]

# ---- Python layer
PY_UTIL = [
    'checkIndexWithinBounds', 'checkCellVectors', 'checkCoordinateList', 'checkSequence',
    'checkSequenceOfPositiveIntegers', 'checkSequenceOfFloats', 'checkSequenceOf', 'checkTypes',
    'checkPositiveInteger', 'checkPositiveFloat', 'checkAndNormaliseBucketEntry',
    'stringListToStdVectorString', 'stdVectorStringToStringList', 'stringListToStdVectorStdVectorString',
    'bucketListToStdVectorStdVectorString', 'numpy2DArrayToStdVectorStdVectorDouble',
    'stdVectorCoordinateToNumpy2DArray', 'numpy2DArrayToStdVectorCoordinate', 'typeBucketToList',
    'toShortBucketsFormat', 'stdVectorTypeBucketToPython',
    'centerCoordinates', 'sortCoordinatesDistance', 'sortCoordinates',
]
PY_OPAQUE = PY_UTIL + [
    'prettyPrint', 'printHeader', 'getScriptComponent', '_backend', '_map', '_script', '_globalIndex', '_atkScript',
]
# values that depend on the arguments alone
PY_PURE = PY_UTIL + ['MPICommons.isMaster', 'sys.getsizeof', 'Backend.MPICommons.isMaster', '._globalIndex', '_script',
                     '._script',
                     # set in the constructor, never changed afterwards
                     '.numberOfSteps', '.dumpInterval', '.dumpTimeInterval', '.analysisInterval', '.seed',
                     '.timeSeed', '.rngType']
# methods that change the state of the simulation, of a plugin or of a file;
# every other method of the project only looks at the state
PY_EFFECT = ['run', 'setup', 'registerStep', 'finalize', 'evaluate', 'append', 'flush', '_storeData', 'write',
             'propagateTime', 'singleStep', 'push_back', 'setUpdateInfo', 'setRateCalculator', 'seedRandom',
             'setRngType', 'barrier', 'print', 'printResults', 'rate', 'backendRateCallback',
             'backendRateCallbackBuckets']
PY_QUERY = ['time.time', 'time.ctime', 'getScriptComponent']


def set_queries(world):
    names = {f.name for f in world.py.fns.values() if f.cls}
    if world.cxx:
        names |= {f.name for f in world.cxx.fns.values() if f.cls and not f.isctor}
    for n in names - set(PY_EFFECT):
        q = '.' + n
        if q not in PY_QUERY and q not in PY_PURE:
            PY_QUERY.append(q)


# class members that are arrays of one length in every object (they are created, grown and
# shrunk together; each of the functions that do so is itself compared with its model)
SAMESIZE = [
    ('sites_', 'site_multiplicity_', 'site_rates_'),
    ('process_pointers_', 'probability_table_'),
    ('types_', 'elements_', 'coordinates_', 'match_lists_', 'atom_id_', 'atom_id_elements_', 'atom_id_coordinates_'),
    ('moved_atom_ids_', 'recent_move_vectors_'),
]
