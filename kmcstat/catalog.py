"""The properties of KMCLib and the obligations that decide them."""
from props import M, Rl, Prop, BOTH

PROPS = {}


def prop(id, title, statement, over, quant, why, files, mechanism, items, note, observe=()):
    PROPS[id] = Prop(id, title, statement, over, quant, why, files, mechanism, items, note, observe)


prop('P01', 'Available sites and rates of a process stay consistent',
     'After any sequence of making sites available and unavailable to a process, the process lists exactly the '
     'sites that were added and not removed, each with the rate and multiplicity it was last added with, and its total '
     'rate is the sum of multiplicity times rate over exactly those sites. A process without available sites has '
     'total rate exactly zero.',
     ['histories', 'inputs'], 'every history of site additions, removals and clears, for fixed and custom rates',
     'Tests add and remove a handful of sites in one order; the bookkeeping is spread over parallel arrays that must '
     'stay in step in every history.',
     ['c++/src/process.cpp', 'c++/src/customrateprocess.cpp'],
     [('Process::addSite/removeSite/clearSites', 'c++/src/process.cpp'),
      ('CustomRateProcess::addSite/removeSite', 'c++/src/customrateprocess.cpp')],
     [M('process', 'Process.addSite', 'Process.removeSite', 'Process.clearSites', 'Process.isListed',
        'Process.totalRate', 'Process.nSites', 'Process.rateConstant', 'CustomRateProcess.addSite',
        'CustomRateProcess.removeSite')],
     'Each operation is proved equal, for all states and arguments, to a reference in which the parallel arrays move '
     'in step; the invariant follows by induction over the history.')

prop('P02', 'A process is chosen in proportion to its total rate',
     'At every step the process to execute is the first one whose accumulated total rate reaches u times the total '
     'rate of the system, for one uniform random number u, so that each process is selected with probability '
     'proportional to its current total rate and a process without available sites is never selected.',
     ['histories', 'inputs'], 'every state of the process table and every random number',
     'Tests check selection frequencies of a few fixed tables statistically; a biased or shifted lookup at particular '
     'table states escapes them.',
     ['c++/src/interactions.cpp'],
     [('Interactions::pickProcessIndex, updateProbabilityTable, totalRate', 'c++/src/interactions.cpp')],
     [M('interactions', 'Interactions.updateProbabilityTable', 'Interactions.totalRate',
        'Interactions.pickProcessIndex', 'Interactions.totalAvailableSites')],
     'The lookup and the table are proved equal to the cumulative-sum definition for all tables; real arithmetic.')

prop('P03', 'A site is chosen in proportion to its share of the process rate',
     'The site at which a process is executed is the first listed site whose accumulated rate times multiplicity '
     'reaches u times the total of the process, for one uniform random number u; with a single constant rate all '
     'sites of equal multiplicity are equally likely, and with site dependent rates the probability follows the rates.',
     ['histories', 'inputs'], 'every list of available sites, rates and multiplicities and every random number',
     'The statistical tests cover one short list; an off-by-one or a stale table only shows for other histories.',
     ['c++/src/process.cpp', 'c++/src/customrateprocess.cpp'],
     [('Process::pickSite, Process::updateRateTable', 'c++/src/process.cpp'),
      ('CustomRateProcess::updateRateTable', 'c++/src/customrateprocess.cpp')],
     [M('process', 'Process.pickSite', 'Process.updateRateTable', 'CustomRateProcess.updateRateTable')],
     'pickSite and both rate tables are proved equal to the cumulative-sum definition for all lists.')

prop('P04', 'Simulated time advances by an exponential waiting time of the total rate',
     'Every step advances the simulated time by minus the logarithm of a uniform random number divided by the total '
     'rate of the state that is being left, the advance is finite, and time starts at zero and changes in no other way.',
     ['histories', 'inputs'], 'every total rate, random number and history of steps',
     'Tests compare a few advances against fixed seeds or averages.',
     ['c++/src/simulationtimer.cpp', 'c++/src/latticemodel.cpp'],
     [('SimulationTimer::propagateTime', 'c++/src/simulationtimer.cpp')],
     [M('random_', 'SimulationTimer.propagateTime', 'SimulationTimer._construct', 'SimulationTimer.simulationTime')],
     'Each function is proved equal to its definition for all inputs.')

prop('P05', 'A process is available exactly where its local pattern matches',
     'After every re-matching of a set of sites, each process of the right basis site is available at a site of the '
     'set if and only if the local pattern of the process matches the current surroundings of the site; entries that no '
     'longer match are removed, new matches are added and kept matches are refreshed. No other site is touched.',
     ['histories', 'inputs'], 'every lattice, process set, earlier matching and set of sites',
     'Tests match a few processes on one lattice; a stale or missed entry shows only after particular histories.',
     ['c++/src/matcher.cpp', 'c++/src/matcher.h'],
     [('Matcher::matchIndicesWithProcesses, updateProcesses, calculateMatching', 'c++/src/matcher.cpp')],
     [M('matcher', 'Matcher._construct', 'Matcher.isMatch', 'Matcher.matchIndicesWithProcesses',
        'Matcher._update_processes*', 'Matcher.calculateMatching', mpi=BOTH),
      M('interactions', 'Interactions.clearMatching')],
     'The classification, the application of the tasks and the loop over sites and processes are proved equal to the '
     'reference for all states, in the serial and in the MPI build; the invariant follows by induction.')

prop('P06', 'Every step re-matches everything the event can have affected',
     'A simulation step picks a process and a site, applies the event, re-matches every site within the interaction '
     'range of every site whose content changed, and then refreshes the selection table, in this order; initial '
     'matching covers every site of the lattice with match lists long enough for every process.',
     ['histories', 'inputs'], 'every model, state and event, including events across periodic and open boundaries',
     'A missed neighbour leaves a stale entry that changes later trajectories without failing a test.',
     ['c++/src/latticemodel.cpp', 'c++/src/latticemap.cpp', 'c++/src/configuration.cpp', 'c++/src/interactions.cpp'],
     [('LatticeModel::singleStep, calculateInitialMatching', 'c++/src/latticemodel.cpp'),
      ('LatticeMap::supersetNeighbourIndices', 'c++/src/latticemap.cpp'),
      ('Interactions::maxRange', 'c++/src/interactions.cpp')],
     [M('model_', 'LatticeModel._construct', 'LatticeModel.calculateInitialMatching', 'LatticeModel.singleStep'),
      M('latticemap', 'LatticeMap.supersetNeighbourIndices'),
      M('interactions', 'Interactions.maxRange', 'Interactions.pickProcess', 'Interactions.processes'),
      M('process', 'Process.range', 'CustomRateProcess._construct'),
      M('configuration', 'Configuration.performBucketProcess', 'Configuration.updateMatchList'),
      M('access', 'Process.affectedIndices')],
     'Step, superset and affected-site list are proved equal to their references for all states.')

prop('P07', 'Pattern matching requires the right types at the right places',
     'A pattern matches the surroundings of a site exactly if every pattern entry is met by the surroundings entry at '
     'the same relative position, with at least the required number of each type and, for wildcard entries, whatever '
     'is present; comparison and ordering of entries are consistent between patterns and surroundings.',
     ['inputs'], 'every pair of match lists and every content of a site',
     'Tests compare a few hand-written lists; tie breaking near the tolerance and the less common comparison '
     'combinations are not sampled.',
     ['c++/src/matchlistentry.h', 'c++/src/matchlist.cpp', 'c++/src/processbucketmatchlistentry.cpp',
      'c++/src/typebucket.cpp'],
     [('whateverMatch', 'c++/src/matchlist.cpp'),
      ('ProcessBucketMatchListEntry::match, comparison operators', 'c++/src/processbucketmatchlistentry.cpp')],
     [M('matchlist', 'ProcessBucketMatchListEntry.match', '_lt_mm', '_lt_pm', '_lt_pp', '_same_mm', '_same_pm',
        '_whatever'),
      M('bucket', 'TypeBucket.match', 'TypeBucket.greaterOrEqual', 'TypeBucket._get')],
     'Each comparison is proved equal to its definition for all entries.')

prop('P08', 'Patterns of processes are expanded correctly over the lattice',
     'The pattern of a process is its given coordinates with required and updated types, sorted by position; a '
     'pattern that leaves out lattice points within its range gets a wildcard entry for each of them, so that entries '
     'of pattern and surroundings line up on every lattice and basis site.',
     ['inputs'], 'every process definition, lattice and number of basis sites',
     'Tests expand one or two patterns on one lattice.',
     ['c++/src/interactions.cpp', 'c++/src/process.cpp', 'c++/src/matchlist.cpp',
      'c++/src/processbucketmatchlistentry.cpp'],
     [('Interactions::updateProcessMatchLists', 'c++/src/interactions.cpp'),
      ('configurationsToMatchList', 'c++/src/matchlist.cpp'), ('Process::Process', 'c++/src/process.cpp')],
     [M('interactions', 'Interactions.updateProcessMatchLists', 'Interactions._construct',
        'Interactions._construct_custom'),
      M('matchlist', '_c2ml', 'ProcessBucketMatchListEntry.initWildcard', '_lt_pp', '_lt_pm', '_same_pm'),
      M('process', 'Process._construct', 'CustomRateProcess._construct', 'Process.processNumber', 'Process.cutoff',
        'Process.cacheRate', 'Process.bucketProcess'),
      M('access', 'Process.processMatchList', 'Process.basisSites', 'Process.idMoves')],
     'Constructors, expansion and sorting keys are proved equal to their references for all inputs.')

prop('P09', 'Multiplicity counts the ways a process can act at a site',
     'The multiplicity of a match is the number of ways to choose the removed atoms of the pattern among the atoms '
     'that are present: the product over all pattern entries and removed types of the number of combinations of '
     'present atoms taken as many as are removed. The numbers may be large.',
     ['inputs'], 'every pattern and every content of the sites',
     'Tests evaluate a handful of contents.',
     ['c++/src/matchlist.cpp'], [('multiplicity', 'c++/src/matchlist.cpp')],
     [M('matchlist', '_mult'), M('matcher', 'Matcher.matchIndicesWithProcesses'), M('bucket', 'TypeBucket._get'),
      Rl('int_products')],
     'The product is proved equal to its definition for all lists.')

prop('P10', 'The multiplicity of a match reaches the site selection',
     'Wherever the matcher makes a process available at a site, it passes the multiplicity computed for the match, so '
     'that a site where the process can act in several ways is selected correspondingly more often.',
     ['inputs', 'histories'], 'every call path from the matcher to the list of available sites',
     'Tests only count events for single occupancy, where the multiplicity is one.',
     ['c++/src/matcher.cpp'], [('Matcher::updateProcesses', 'c++/src/matcher.cpp')],
     [Rl('multiplicity_flow'), M('matcher', 'Matcher.matchIndicesWithProcesses'), M('matchlist', '_mult'),
      M('process', 'Process.addSite', 'CustomRateProcess.addSite', 'Process.pickSite', 'Process.updateRateTable',
        'CustomRateProcess.updateRateTable')],
     'Dataflow over every call that adds an available site: the multiplicity argument has to originate from the '
     'multiplicity of the match.')

prop('P11', 'An event changes exactly the sites and atoms its process describes',
     'Executing a process at a site adds its update vector to the content of exactly the sites of its pattern, keeps '
     'the per-site element lists, the per-type totals and the list of changed sites in step with that, and records the '
     'process and site of the event. No other site changes.',
     ['histories', 'inputs'], 'every configuration, process and site',
     'Tests execute single events on small configurations.',
     ['c++/src/configuration.cpp', 'c++/src/typebucket.cpp'],
     [('Configuration::performBucketProcess', 'c++/src/configuration.cpp'),
      ('TypeBucket::add', 'c++/src/typebucket.cpp')],
     [M('configuration', 'Configuration.performBucketProcess', 'Configuration.particlesPerType',
        'Configuration._construct'),
      M('bucket', 'TypeBucket.add', 'TypeBucket._get', 'TypeBucket._only'),
      M('access', 'Configuration.elements', 'Configuration.types', 'Configuration.latestEventProcess',
        'Configuration.latestEventSite', 'Configuration.setUpdateInfo', 'Configuration.updateInfo',
        'Configuration.typeName', 'Configuration.typeNames', 'Configuration.possibleTypes',
        'Process.affectedIndices')],
     'The event function and its accessors are proved equal to their references for all states.')

prop('P12', 'Atom identities follow the atoms through every event',
     'When an event moves atoms, the identity of each moved atom moves with it: identity at a site, element of an '
     'identity and unwrapped coordinates of an identity stay consistent, and the displacement recorded for every moved '
     'identity is the displacement that the event describes.',
     ['histories', 'inputs'], 'every history of moves, including moves across periodic boundaries',
     'Tests follow one or two moves; swapped or stale identities in multi-atom moves are not sampled.',
     ['c++/src/configuration.cpp', 'c++/src/interactions.cpp', 'c++/src/process.cpp'],
     [('Configuration::performBucketProcess (identity tracking)', 'c++/src/configuration.cpp')],
     [M('configuration', 'Configuration.performBucketProcess', 'Configuration.movedAtomIDs',
        'Configuration.recentMoveVectors', 'Configuration._construct'),
      M('access', 'Configuration.atomID', 'Configuration.atomIDCoordinates', 'Configuration.atomIdCoordinates',
        'Configuration.atomIDElements', 'Configuration.coordinates', 'Process.idMoves'),
      M('interactions', 'Interactions.updateProcessMatchLists'),
      M('process', 'Process._construct')],
     'The tracking code is proved equal to its reference for all states.')

prop('P13', 'Lattice indices, cells and periodic images are consistent',
     'Site indices and (cell, basis) positions map to each other one to one, a neighbour across a periodic boundary is '
     'the wrapped site, a neighbour across an open boundary does not exist, and wrapped relative coordinates use the '
     'nearest periodic image along periodic directions only.',
     ['inputs'], 'every lattice size, number of basis sites, periodicity, site and displacement',
     'Tests use a few lattice sizes and mostly full periodicity.',
     ['c++/src/latticemap.cpp'], [('LatticeMap', 'c++/src/latticemap.cpp')],
     [M('latticemap'),
      M('access', 'LatticeMap.*')],
     'Every function of the map is proved equal to its closed form for all lattices.')

prop('P14', 'The surroundings of a site are listed completely and in order',
     'The match list of a site holds one entry for each lattice point within the range, with wrapped relative '
     'coordinates, distance from the site and the current content, sorted by position; refreshing it copies the '
     'current content of every listed site.',
     ['inputs', 'histories'], 'every lattice, range and occupation',
     'Tests look at a few sites of small lattices.',
     ['c++/src/configuration.cpp'],
     [('Configuration::matchList, initMatchLists, updateMatchList', 'c++/src/configuration.cpp')],
     [M('configuration', 'Configuration.initMatchLists', 'Configuration.updateMatchList', 'Configuration._match_list',
        'Configuration._stored_match_list', 'Configuration._construct'),
      M('matchlist', '_lt_mm', '_same_mm'),
      M('latticemap', 'LatticeMap._wrap*', 'LatticeMap._neighbours*'),
      M('coordinate', 'Coordinate.distanceToOrigin', 'Coordinate.distance')],
     'Proved equal to the reference for all lattices and sites.')

prop('P15', 'Coordinate algebra and its tolerance are right',
     'Coordinates add, subtract, scale, measure distances and products component by component, and equality and '
     'ordering use one common tolerance so that equal coordinates are never ordered.',
     ['inputs'], 'every pair of coordinates', 'Tests evaluate a few points; near-tolerance pairs are not covered.',
     ['c++/src/coordinate.cpp'], [('Coordinate operators', 'c++/src/coordinate.cpp')],
     [M('coordinate'), M('access', 'Coordinate.*')],
     'Proved equal to the definitions over the real numbers.')

prop('P16', 'Random numbers come from the chosen generator, inside (0, 1)',
     'Every random number is drawn from the generator that the user chose and seeded, lies strictly above zero and '
     'below one as the logarithm of the waiting time and the selection require, and choosing or seeding one generator '
     'touches no other.',
     ['inputs', 'histories'], 'every generator, seed and draw',
     'The value zero is too rare to sample, and tests exercise a few draws of a few generators.',
     ['c++/src/random.cpp'], [('setRngType, seedRandom, randomDouble01', 'c++/src/random.cpp')],
     [M('rng')], 'Proved equal to the reference for each generator type.')

prop('P17', 'Parallel runs compute exactly what serial runs compute',
     'Work split over MPI ranks covers every item exactly once in order, joining restores the whole result on every '
     'rank, and sums and broadcasts involve all ranks, so that matching and custom rates do not depend on the number '
     'of ranks; the serial build does the same with one rank.',
     ['schedules', 'inputs'], 'every number of ranks, rank and amount of work',
     'The test suite runs with one rank only, and the MPI build is not exercised at all.',
     ['c++/src/mpicommons.cpp', 'c++/src/mpiroutines.cpp', 'c++/src/mpiroutines.h', 'c++/src/matcher.cpp'],
     [('determineChunks, splitOverProcesses, joinOverProcesses', 'c++/src/mpiroutines.h'),
      ('MPICommons', 'c++/src/mpicommons.cpp')],
     [M('mpi', mpi=BOTH), M('matcher', 'Matcher.matchIndicesWithProcesses', 'Matcher.calculateMatching',
                            mpi=(True,)),
      M('rng', '_seed', mpi=(True,))],
     'Every routine is proved equal to its reference in both builds (the MPI build parsed with a stub mpi.h).')

prop('P18', 'Custom rates are computed from the actual surroundings',
     'A custom rate function is called with the geometry within the cutoff, the types before and after the event in '
     'the same order, the rate constant, the process number and the coordinate of the site, and its result becomes '
     'the rate of exactly that match.',
     ['inputs', 'histories'], 'every configuration, process, cutoff and set of matches',
     'Tests record the arguments of a few calls.',
     ['c++/src/matcher.cpp', 'c++/src/ratecalculator.cpp', 'c++/src/customrateprocess.cpp', 'c++/custom'],
     [('Matcher::updateSingleRate, updateRates, calculateMatching', 'c++/src/matcher.cpp'),
      ('RateCalculator', 'c++/src/ratecalculator.cpp')],
     [M('matcher', 'Matcher.updateRates', 'Matcher.updateSingleRate', 'Matcher.calculateMatching'),
      M('custom'), M('interactions', 'Interactions.useCustomRates'),
      M('access', 'Interactions.rateCalculator'),
      M('process', 'CustomRateProcess.addSite', 'CustomRateProcess.updateRateTable', 'Process.cutoff')],
     'Proved equal to the reference for all configurations.')

prop('P19', 'Cached custom rates are only reused for the same inputs',
     'A cached rate is returned only for the key it was stored under, the key covers the process and everything within '
     'the cutoff that the cache distinguishes, processes excluded from caching are never stored, and a full cache '
     'drops old entries without ever returning a wrong one.',
     ['histories', 'inputs'], 'every history of stores and look-ups and every cache size',
     'Cache rotation and the exclusion list need long histories to show.',
     ['c++/src/ratetable.cpp', 'c++/src/hash.cpp', 'c++/src/matcher.cpp'],
     [('RateTable', 'c++/src/ratetable.cpp'), ('hashCustomRateInput', 'c++/src/hash.cpp'),
      ('Matcher::calculateMatching (cache use)', 'c++/src/matcher.cpp')],
     [M('random_', 'RateTable.*'), M('hash_'), M('matcher', 'Matcher.calculateMatching', 'Matcher._construct'),
      M('process', 'Process.cacheRate', 'Process.processNumber'), Rl('cache_key_inputs')],
     'Table, key and use are proved equal to their references for all histories; the inputs of the rate function are '
     'compared with the inputs of the key.')

prop('P20', 'On-the-fly mean square displacements are binned correctly',
     'For each tracked atom move, the squared displacement between the current and every remembered earlier position '
     'and time is added to the bin of the elapsed time along each direction, with the matching counts, and the history '
     'is shifted by exactly one entry.',
     ['histories', 'inputs'], 'every history of moves, history length and bin layout',
     'Tests compare one short run.',
     ['c++/src/ontheflymsd.cpp'], [('OnTheFlyMSD::registerStep, calculateAndBinMSD', 'c++/src/ontheflymsd.cpp')],
     [M('msd'), M('access', 'OnTheFlyMSD.*')],
     'Proved equal to the reference for all states, over the real numbers.')

prop('P21', 'Block averages take every displacement exactly once',
     'Every squared displacement is added to the running block of its bin and to no other; a block is closed exactly '
     'when it holds the block size, and the error estimates are computed from the closed blocks around the overall '
     'mean of the bin.',
     ['histories', 'inputs'], 'every sequence of steps and number of bins',
     'Tests run a few steps.', ['c++/src/blocker.cpp'], [('Blocker', 'c++/src/blocker.cpp')],
     [M('blocker')], 'Proved equal to the reference for all states.')

prop('P22', 'Site contents behave like vectors of counts and own their memory',
     'The content of a site is a vector of counts per type: copies are independent, comparison, addition and look-up '
     'work on all types, and its memory is allocated, copied and released exactly once.',
     ['inputs', 'histories'], 'every content, copy and assignment',
     'Double frees and shallow copies need particular copy histories.',
     ['c++/src/typebucket.cpp', 'c++/src/typebucket.h'], [('TypeBucket', 'c++/src/typebucket.cpp')],
     [M('bucket'), Rl('ownership')],
     'Operations are proved equal to their references; ownership is a typestate rule over constructors, assignment '
     'and destructor.')

PYS = 'python/src/KMCLib/'

prop('P23', 'Invalid input is refused and valid input is normalised',
     'Every shared input check accepts exactly the documented values (indices within bounds, 3x3 cell vectors, '
     'coordinate lists of three-vectors, positive numbers, sequences of the required kind, consistent types) and '
     'raises the library error for everything else, returning the value in the one normal form that the rest of the '
     'library relies on.',
     ['inputs'], 'every value of any type that a user can pass',
     'Tests try a few good and bad values of each kind.',
     [PYS + 'Utilities/CheckUtilities.py'], [('check* functions', PYS + 'Utilities/CheckUtilities.py')],
     [M('py_check')], 'Each check is proved equal to its reference for all inputs, including which inputs raise.')

prop('P24', 'Values cross the Python and C++ boundary unchanged',
     'Converting lists, arrays, buckets and type names to backend containers and back gives the same values in the '
     'same order, with nothing dropped, duplicated or mixed up, for every length. Coordinates and site contents of '
     'the backend are indexed from Python like sequences and refuse indices outside their bounds.',
     ['inputs'], 'every list, array and bucket content, every index', 'Tests convert a few short lists.',
     [PYS + 'Utilities/ConversionUtilities.py', 'c++/wrap/backend.i'],
     [('conversion functions', PYS + 'Utilities/ConversionUtilities.py'),
      ('indexing of Coordinate and TypeBucket', 'c++/wrap/backend.i')],
     [M('py_conv'), M('wrap')], 'Each conversion is proved equal to its element-wise definition for all inputs.')

prop('P25', 'Local patterns are centred and sorted together with their types',
     'The coordinates of a local pattern are shifted so that the chosen centre is the origin and sorted by distance '
     'with a deterministic order of ties, and the types of every coordinate, before and after, move with it, so that '
     'no type is ever attached to another coordinate than the user gave it.',
     ['inputs'], 'every list of coordinates, types and centre', 'Tests sort two or three patterns.',
     [PYS + 'Utilities/CoordinateUtilities.py', PYS + 'CoreComponents/KMCLocalConfiguration.py'],
     [('centerCoordinates, sortCoordinates, sortCoordinatesDistance', PYS + 'Utilities/CoordinateUtilities.py'),
      ('KMCLocalConfiguration', PYS + 'CoreComponents/KMCLocalConfiguration.py')],
     [M('py_coord'), M('py_process', 'KMCLocalConfiguration.*')],
     'Proved equal to the reference for all inputs; numpy sorting is taken to be the documented stable order.')

prop('P26', 'A process describes exactly what the user specified',
     'A process keeps the types before and after, the basis sites, rate constant and move vectors that the user gave, '
     'reconstructs the moves of atoms consistently with the types when they are not given, and refuses moves that do '
     'not take an atom to a position where the same type appears, or updates that do not match the coordinates.',
     ['inputs'], 'every process definition, with explicit and implicit moves and with buckets',
     'Tests define a few processes; particular combinations of swapped elements and move vectors are not covered.',
     [PYS + 'CoreComponents/KMCProcess.py', PYS + 'CoreComponents/KMCBaseProcess.py',
      PYS + 'CoreComponents/KMCBucketProcess.py'],
     [('KMCProcess, KMCBucketProcess, KMCBaseProcess', PYS + 'CoreComponents/KMCProcess.py')],
     [M('py_process', 'KMCBaseProcess.*', 'KMCBucketProcess.*', 'KMCProcess.__checkMoveVectorsFormat',
        'KMCProcess.__checkValidMoveElements', 'KMCProcess.__checkValidMoveVectors', 'KMCProcess.__eq__',
        'KMCProcess.__init__', 'KMCProcess.__reconstructMoveVectors',
        'KMCProcess.__sortCoordinatesElementsAndMoveVectors', 'KMCProcess.elementsAfter',
        'KMCProcess.elementsBefore')],
     'Constructors and checks are proved equal to their references for all inputs.')

prop('P27', 'The lattice lists its sites in the order of the global index',
     'A lattice has one site for each basis point in each repetition of the cell, at the cell offset plus the basis '
     'coordinate and in the order of the global index that the backend uses; cell offsets outside the lattice wrap '
     'along periodic directions, and unit cell coordinates transform to Cartesian ones with the cell vectors.',
     ['inputs'], 'every unit cell, number of repetitions and periodicity',
     'Tests build two or three small lattices.',
     [PYS + 'CoreComponents/KMCLattice.py', PYS + 'CoreComponents/KMCUnitCell.py'],
     [('KMCLattice', PYS + 'CoreComponents/KMCLattice.py'), ('KMCUnitCell', PYS + 'CoreComponents/KMCUnitCell.py')],
     [M('py_lattice', 'KMCLattice.__checkPeriodic', 'KMCLattice.__checkRepetitions',
        'KMCLattice.__generateLatticeSites', 'KMCLattice.__init__', 'KMCLattice._globalIndex', 'KMCLattice._map',
        'KMCLattice.basis', 'KMCLattice.periodic', 'KMCLattice.repetitions', 'KMCLattice.sites',
        'KMCLattice.unitCell', 'KMCUnitCell.__init__', 'KMCUnitCell.basis', 'KMCUnitCell.cellVectors',
        'KMCUnitCell.transformToCartesian')],
     'Proved equal to the reference for all lattices.')

prop('P28', 'The initial configuration puts the given types on the given sites',
     'Whatever format the user chooses for the types (a plain list, or short or long positioned entries with a '
     'default type), the configuration places every given type at the global index of its site, fills all other '
     'sites with the default type, and knows every possible type exactly once; ambiguous or incomplete input is '
     'refused.',
     ['inputs'], 'every lattice, type list and format', 'Tests use one small lattice for each format.',
     [PYS + 'CoreComponents/KMCConfiguration.py'], [('KMCConfiguration', PYS + 'CoreComponents/KMCConfiguration.py')],
     [M('py_configuration', 'KMCConfiguration.__checkAndSetBucketsTypes', 'KMCConfiguration.__checkAndSetLongTypes',
        'KMCConfiguration.__checkAndSetShortTypes', 'KMCConfiguration.__checkAndSetTypes',
        'KMCConfiguration.__detectTypesFormat', 'KMCConfiguration.__init__', 'KMCConfiguration.possibleTypes'),
      M('py_lattice', 'KMCLattice._globalIndex')],
     'Proved equal to the reference for all inputs.')

prop('P29', 'Queries of a configuration report the current state',
     'Types, atom identities, coordinates, last event, moved atoms and particle numbers that a configuration reports '
     'during or after a run are those of the backend at that moment, once the backend exists, and the initial ones '
     'before; plain queries never change the state.',
     ['histories'], 'every history of queries and simulation steps',
     'Tests query a fresh configuration or one short run.',
     [PYS + 'CoreComponents/KMCConfiguration.py'], [('KMCConfiguration', PYS + 'CoreComponents/KMCConfiguration.py')],
     [M('py_configuration', 'KMCConfiguration._backend', 'KMCConfiguration._backendTypeNames',
        'KMCConfiguration._latticeMap', 'KMCConfiguration.atomIDCoordinates', 'KMCConfiguration.atomIDTypes',
        'KMCConfiguration.cellRepetitions', 'KMCConfiguration.lattice', 'KMCConfiguration.latestEventProcess',
        'KMCConfiguration.latestEventSite', 'KMCConfiguration.movedAtomIDs', 'KMCConfiguration.particlesPerType',
        'KMCConfiguration.sites', 'KMCConfiguration.types'), M('py_lattice', 'KMCLattice._map'),
      M('access', 'Configuration.*')],
     'Proved equal to the reference for all states.')

prop('P30', 'The backend gets every process as the user defined it',
     'The interactions hand each process to the backend exactly once and in order, with its patterns, rate constant, '
     'basis sites that exist in the lattice, move vectors, number and caching choice, together with the cutoff of the '
     'rate calculator and the wildcard setting; a process with a type that the configuration does not know is '
     'refused.',
     ['inputs'], 'every list of processes, configuration and rate calculator',
     'Tests set up a few models.',
     [PYS + 'CoreComponents/KMCInteractions.py'],
     [('KMCInteractions._backend', PYS + 'CoreComponents/KMCInteractions.py')],
     [M('py_interactions', 'KMCInteractions.__init__', 'KMCInteractions._backend', 'KMCInteractions.rateCalculator',
        'KMCInteractions.setRateCalculator', 'KMCInteractions.implicitWildcards'),
      M('py_process', 'KMCLocalConfiguration._backend')],
     'Proved equal to the reference for all inputs.')

prop('P31', 'Control parameters take effect as given',
     'Numbers of steps, dump and analysis intervals, dump times, seeds and the choice of generator are validated, kept '
     'and reported exactly as given, with the documented defaults, and the seed and generator are set in the backend '
     'before the first random number of a run is drawn.',
     ['inputs'], 'every combination of parameters', 'Tests try a few values of each parameter.',
     [PYS + 'CoreComponents/KMCControlParameters.py', PYS + 'CoreComponents/KMCLatticeModel.py'],
     [('KMCControlParameters', PYS + 'CoreComponents/KMCControlParameters.py')],
     [M('py_control'), M('py_model', 'KMCLatticeModel.run')],
     'Proved equal to the reference for all inputs.')

prop('P32', 'A run calls trajectory, analysis and breakers by the documented protocol',
     'A run of n steps propagates time and executes one event per step, dumps the state after every dump interval or '
     'dump time, registers a step with every analysis after every analysis interval, evaluates every breaker at its '
     'interval and stops at the first that asks for it, sets every plugin up once before the first step, and flushes '
     'the trajectory and finalises every analysis exactly once however the run ends.',
     ['histories', 'inputs', 'crash_points'], 'every combination of parameters, plugins and ways to end the run',
     'Tests run a few steps with one plugin and do not combine intervals, dump times, breakers and failures.',
     [PYS + 'CoreComponents/KMCLatticeModel.py'], [('KMCLatticeModel.run', PYS + 'CoreComponents/KMCLatticeModel.py')],
     [M('py_model', 'KMCLatticeModel.run', 'KMCLatticeModel.__init__', 'KMCLatticeModel._backend')],
     'The sequence of effects of run() is proved equal to the reference for every combination of arguments and every '
     'number of steps.')

prop('P33', 'Trajectories hold every dumped frame once, in order and complete',
     'Every appended frame reaches the file exactly once and in order whether or not the buffer is flushed in '
     'between, each frame records time, step and the types (or the coordinates) of that moment, the header comes '
     'first, and only the master process writes.',
     ['histories', 'schedules'], 'every sequence of appends and flushes, buffer size and rank',
     'Tests write a handful of frames at one buffer size.',
     [PYS + 'Utilities/Trajectory/Trajectory.py', PYS + 'Utilities/Trajectory/LatticeTrajectory.py',
      PYS + 'Utilities/Trajectory/XYZTrajectory.py'],
     [('Trajectory.append', PYS + 'Utilities/Trajectory/Trajectory.py'),
      ('LatticeTrajectory', PYS + 'Utilities/Trajectory/LatticeTrajectory.py'),
      ('XYZTrajectory', PYS + 'Utilities/Trajectory/XYZTrajectory.py')],
     [M('py_trajectory')], 'Each operation is proved equal to its reference for all states of the buffer.')

prop('P34', 'Scripts written by the library describe the same model',
     'The script that a lattice, configuration, process, interactions object or model writes contains every argument '
     'needed to build it again, with full values, and reading such a script returns the last object of the requested '
     'kind that it defines.',
     ['inputs'], 'every model that can be written as a script', 'Tests round-trip one or two models.',
     [PYS + 'Utilities/SaveAndReadUtilities.py', PYS + 'CoreComponents'],
     [('_script functions', PYS + 'CoreComponents'), ('KMC*FromScript', PYS + 'CoreComponents')],
     [M('py_io', 'KMCConfigurationFromScript', 'KMCInteractionsFromScript', 'KMCLatticeModelFromScript',
        'getScriptComponent'), M('py_lattice', 'KMCLattice._script', 'KMCUnitCell._script'),
      M('py_configuration', 'KMCConfiguration._script', 'KMCConfiguration._atkScript'),
      M('py_process', 'KMCProcess._script', 'KMCLocalConfiguration._script'),
      M('py_interactions', 'KMCInteractions._script'), M('py_model', 'KMCLatticeModel._script')],
     'The text is modelled as a term over the fields of the object and proved equal to the reference.')

prop('P35', 'Composition and event statistics count every registered step',
     'The composition analysis averages the particle numbers of every type over all states registered in a time '
     'interval, the process statistics count the events of the tracked processes per time interval and per site '
     'and normalise with the total time, and the time step histogram counts every time step in its '
     'bin.',
     ['histories'], 'every sequence of registered steps', 'Tests register a few steps.',
     [PYS + 'Analysis/Composition.py', PYS + 'Analysis/ProcessStatistics.py', PYS + 'Analysis/TimeStepDistribution.py'],
     [('Composition', PYS + 'Analysis/Composition.py'), ('ProcessStatistics', PYS + 'Analysis/ProcessStatistics.py'),
      ('TimeStepDistribution', PYS + 'Analysis/TimeStepDistribution.py')],
     [M('py_analysis', 'Composition.*', 'ProcessStatistics.*', 'TimeStepDistribution.*')],
     'Each operation is proved equal to its reference for all states.')

prop('P36', 'Displacement analysis reports what the backend collected',
     'The on-the-fly analysis registers every step with the backend in Cartesian units of the cell, and its results, '
     'standard deviations, time steps and counters are the histograms of the backend normalised bin by bin, with empty '
     'bins left at zero.',
     ['histories', 'inputs'], 'every sequence of steps and choice of bins', 'Tests run one short simulation.',
     [PYS + 'Analysis/OnTheFlyMSD.py'], [('OnTheFlyMSD', PYS + 'Analysis/OnTheFlyMSD.py')],
     [M('py_analysis', 'OnTheFlyMSD.*')], 'Each operation is proved equal to its reference for all states.')

prop('P37', 'User plugins are called back with complete and correct data',
     'The backend callback hands a custom rate function the geometry, the types before and after, the rate constant, '
     'the process number and the global coordinate in the documented form, and the defaults of the plugin interfaces '
     '(cutoff, caching, intervals, empty hooks) leave the simulation unchanged. The core can call the methods that '
     'Python classes override, and an exception in a plugin reaches the caller.',
     ['inputs'], 'every call back and every subclass that overrides part of an interface',
     'Tests call one plugin of each kind.',
     [PYS + 'PluginInterfaces'],
     [('KMCRateCalculatorPlugin', PYS + 'PluginInterfaces/KMCRateCalculatorPlugin.py'),
      ('directors, exception handling', 'c++/wrap/backend.i')],
     [M('py_plugins'), Rl('interface')], 'Proved equal to the reference for all inputs; the interface file is matched '
     'against the virtual functions of the core and the classes and names that Python uses.')

RULES = 'whole-program structural rule (taint, control dependence and aliasing over the C++ and Python syntax trees, ' \
        'value graphs of the functions involved)'

prop('P38', 'A run is reproducible from its seed',
     'Two runs of the same model from the same state with the same seed and a pseudo random generator produce the same '
     'events, times and results: the only source of randomness is the seeded engine of the backend. Clocks, '
     'hash orders, set orders, object addresses and the environment never reach the simulation or its results.',
     ['programs', 'histories'], 'every call path of the library',
     'A test compares two runs on one machine in one process, where hash orders, addresses and clocks hardly differ.',
     ['c++/src', 'python/src/KMCLib'],
     [('all functions', 'c++/src, c++/custom, python/src/KMCLib')],
     [Rl('determinism'), M('rng')],
     'Over-approximating taint by name: a source that reaches the backend or a result through a construct the rule does '
     'not follow (reflection, attribute of another object) is missed.')
PROPS['P38'].technique = RULES

prop('P39', 'All processes of a parallel run reach the same collective operations',
     'In a parallel run every rank executes the same sequence of collective operations: none of them, direct or '
     'through calls, is reached only under a condition that depends on the rank, on the share of the work of the '
     'rank or on a clock, so that no rank waits for ever or pairs up with another operation.',
     ['schedules', 'programs'], 'every call path to a collective operation in the parallel build',
     'The tests run without MPI; a mismatch hangs only when the ranks really disagree.',
     ['c++/src/matcher.cpp', 'c++/src/mpiroutines.cpp', 'c++/src/random.cpp', PYS + 'Utilities/Trajectory',
      PYS + 'Utilities/PrintUtilities.py'],
     [('collective operations', 'c++/src/mpiroutines.cpp, c++/src/mpicommons.cpp'),
      ('Trajectory.append/flush', PYS + 'Utilities/Trajectory')],
     [Rl('cxx_collectives'), Rl('collective_calls')],
     'Control dependence on rank-local values, closed over the call graph; exceptions are not considered.')
PROPS['P39'].technique = RULES

prop('P40', 'Only the master process writes output',
     'In a parallel run every file and every line of output is written once, by the master rank: no function opens a '
     'file for writing, writes to a stream or prints except under a test for the master rank.',
     ['schedules', 'programs'], 'every function that writes, and every path to it',
     'The tests run with one process, where every rank is the master.',
     [PYS + 'Utilities', PYS + 'Analysis'],
     [('writers', PYS + 'Utilities/Trajectory, ' + PYS + 'Analysis, ' + PYS + 'Utilities/PrintUtilities.py')],
     [Rl('master_writes')], 'Control dependence of each effect on the rank, in the function or in all its callers.')
PROPS['P40'].technique = RULES

prop('P41', 'Accumulated data is never shared with other data',
     'A list or array that an object changes in place is held by that attribute only: it is neither the list of a '
     'caller, nor another attribute, nor stored elsewhere without a copy, nor one default or element reused for several '
     'purposes. Later changes therefore never alter results that were already recorded.',
     ['histories', 'programs'], 'every attribute that some method changes in place',
     'Sharing shows only when one holder changes the data after another one has stored it.',
     ['python/src/KMCLib'], [('attributes changed in place', 'python/src/KMCLib')],
     [Rl('shared_state')], 'May-alias analysis by attribute, closed over method results.')
PROPS['P41'].technique = RULES

prop('P42', 'Simulations in one program do not interfere through hidden state',
     'Apart from the random number generator, the models of one program are independent: no result depends on what an '
     'earlier call left in static data, no reference to static data is used after a call that overwrites it, a '
     'copied backend object works on its own data only, and a stored backend object is not returned for other arguments '
     'than it was built from.',
     ['histories', 'programs'], 'every function that touches static data and every object that points into itself',
     'Tests use one model at a time.',
     ['c++/src'], [('static scratch data', 'c++/src/latticemap.cpp, c++/src/configuration.cpp'),
                   ('Interactions', 'c++/src/interactions.cpp, c++/src/latticemodel.h')],
     [Rl('scratch'), Rl('self_pointers'), Rl('stale_memo')],
     'Value graphs of the functions that touch static data; order of calls and uses for references to it.')
PROPS['P42'].technique = RULES

prop('P43', 'Nothing is used after its life time has ended',
     'The Python layer keeps every object alive that a backend object keeps a reference to. The core never uses a '
     'reference, pointer or iterator after its container has changed under it, and never hands out or stores a '
     'reference to a local variable or to an argument that was passed by value.',
     ['programs', 'histories'], 'every constructor call of a backend class, every reference, pointer and iterator',
     'Freed memory usually still holds the old values when a test looks at it.',
     ['c++/src', 'c++/custom', 'python/src/KMCLib'],
     [('members that are references', 'c++/src/latticemodel.h, c++/src/interactions.h'),
      ('backend objects', 'python/src/KMCLib/CoreComponents')],
     [Rl('borrowed'), Rl('dangling')],
     'Escape analysis of the arguments of backend constructors; path-wise tracking of references into containers. '
     'Changes of a container behind a call are not followed.')
PROPS['P43'].technique = RULES

prop('P44', 'Everything that is used has a value',
     'Every constructor gives every plain member of its class a value, and no function of the core or of the Python '
     'layer reads a local variable, an attribute, a name or an argument that nothing has set, on error paths as '
     'little as elsewhere.',
     ['programs', 'inputs'], 'every function, constructor, attribute and call of a project function',
     'Rare branches (error messages, unusual options) are not executed by tests, and memory without a value is often zero.',
     ['c++/src', 'c++/custom', 'python/src/KMCLib'],
     [('constructors', 'c++/src'), ('all functions', 'c++/src, c++/custom, python/src/KMCLib')],
     [Rl('members'), Rl('unset_cxx'), Rl('unresolved')],
     'Definite assignment: only what is certainly without a value is reported.')
PROPS['P44'].technique = RULES


# A property speaks about state that functions listed with another property maintain: the total rate that a process
# is chosen by is kept up to date where sites are added and removed. Those functions decide it as well.

def also(id, *items):
    PROPS[id].items = PROPS[id].items + list(items)


_SITES = M('process', 'Process.addSite', 'Process.removeSite', 'Process.clearSites', 'Process.totalRate',
           'CustomRateProcess.addSite', 'CustomRateProcess.removeSite', 'Process.isListed')
_TABLES = M('process', 'Process.updateRateTable', 'CustomRateProcess.updateRateTable')
_TABLE = M('interactions', 'Interactions.updateProbabilityTable', 'Interactions.totalRate')
_STEP = M('model_', 'LatticeModel.singleStep', 'LatticeModel.propagateTime', 'LatticeModel.calculateInitialMatching')
_RANDOM = M('rng')
_PATTERN = M('matchlist')

also('P01', M('interactions', 'Interactions.clearMatching'))
also('P02', _SITES, _STEP, _RANDOM)
also('P03', _SITES, _STEP, _TABLE, _RANDOM)
also('P04', _SITES, _STEP, _TABLE, _RANDOM)
also('P05', M('configuration', 'Configuration.updateMatchList', 'Configuration._stored_match_list'),
     M('process', 'Process.removeSite', 'CustomRateProcess.addSite', 'CustomRateProcess.removeSite'),
     M('matchlist', 'ProcessBucketMatchListEntry.match', '_lt_pm', '_same_pm', '_lt_mm', '_same_mm'),
     M('bucket', 'TypeBucket.match'))
also('P06', _TABLE, _TABLES, M('model_'), M('latticemap', 'LatticeMap._neighbours*'),
     M('interactions', 'Interactions.updateProcessMatchLists', 'Interactions.clearMatching'),
     M('matcher', 'Matcher.calculateMatching', 'Matcher.matchIndicesWithProcesses'))
also('P07', _PATTERN, M('bucket'), M('matcher', 'Matcher.isMatch'),
     M('configuration', 'Configuration.updateMatchList'))
also('P08', _PATTERN, M('process', 'Process.range'), M('latticemap', 'LatticeMap._neighbours*'))
also('P09', M('bucket'), M('process', 'Process.addSite', 'CustomRateProcess.addSite'))
also('P10', M('process', 'Process.removeSite', 'Process.clearSites', 'CustomRateProcess.removeSite'),
     M('matcher', 'Matcher.calculateMatching'))
also('P11', M('bucket'), M('matchlist', '_c2ml'), M('model_', 'LatticeModel.singleStep'))
also('P12', M('model_', 'LatticeModel.singleStep'), M('interactions', 'Interactions._construct'),
     M('matchlist', '_c2ml', '_lt_pp'))
also('P14', M('latticemap'), M('coordinate'))
also('P17', M('interactions', 'Interactions.clearMatching'), M('process', 'CustomRateProcess.addSite'))
also('P18', M('matcher'), M('configuration', 'Configuration.updateMatchList', 'Configuration._stored_match_list'),
     M('random_', 'RateTable.*'), M('hash_'),
     M('interactions', 'Interactions._construct_custom', 'Interactions.updateProcessMatchLists'))
also('P19', M('matcher', 'Matcher.updateSingleRate', 'Matcher.updateRates'), M('custom'))
also('P20', M('configuration', 'Configuration.performBucketProcess', 'Configuration.movedAtomIDs',
              'Configuration.recentMoveVectors'), M('coordinate'), M('blocker'))
also('P28', M('py_configuration', 'KMCConfiguration.__init__', 'KMCConfiguration._backend',
              'KMCConfiguration._backendTypeNames'), M('configuration', 'Configuration._construct'), M('py_conv'),
     M('py_check'))
also('P29', M('configuration', 'Configuration.movedAtomIDs', 'Configuration.particlesPerType',
              'Configuration.recentMoveVectors', 'Configuration.performBucketProcess'), M('py_conv'))
also('P30', M('py_interactions'), M('py_process'), M('py_conv'), M('interactions', 'Interactions._construct',
                                                                    'Interactions._construct_custom'),
     M('process', 'Process._construct', 'CustomRateProcess._construct'))
also('P31', M('rng'))
also('P32', M('model_'), M('py_plugins'), M('py_control'), M('py_trajectory'))
also('P33', M('py_configuration', 'KMCConfiguration.types', 'KMCConfiguration.atomIDTypes',
              'KMCConfiguration.atomIDCoordinates'), M('py_model', 'KMCLatticeModel.run'))
also('P35', M('py_configuration', 'KMCConfiguration.particlesPerType', 'KMCConfiguration.latestEventProcess',
              'KMCConfiguration.latestEventSite'), M('configuration', 'Configuration.particlesPerType',
                                                     'Configuration.performBucketProcess'))
also('P36', M('msd'), M('blocker'))
also('P37', M('custom'), M('matcher', 'Matcher.updateSingleRate'), M('py_conv'))
