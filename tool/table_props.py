API = ['src/pinvoke_api.cpp', 'include/pinvoke_api.hpp']

prop('A01', 'Invalid C API handles are rejected before they are used',
     'Every function of the C API that is given a simulator, neuron or circuit id which was never issued, or whose object '
     'has been destroyed, returns without dereferencing it, whatever the other arguments are. For an id that was never '
     'issued it also reports an error through the error query. An operation the simulator type does not implement is '
     'rejected the same way, not called through a null interface.',
     ['inputs', 'histories'], 'every exported function, every id value, every history of creations and destructions',
     'No test calls the C API; a suite would have to try each of 180 functions with ids below, at and above the registry '
     'size and with destroyed ids.',
     API, [('lock-and-check macros (SIMULATOR_LOCK_GUARD_*, NEURON_..., CIRCUIT_...)', 'src/pinvoke_api.cpp'),
           ('QALU/QPARITY casts', 'src/pinvoke_api.cpp')],
     'must-dataflow over the CFG of every exported function with helper summaries (index < registry size, handle not null)',
     'Sound for the shapes of check the analysis understands, on every path of every exported function; trusts the '
     'clang CFG and that a registry vector is only reached by name. Concurrent destruction is out of scope.',
     state=[('simulators / neurons / circuits', 'registries of handles', 'src/pinvoke_api.cpp')],
     observe=['return value and get_error() of each exported function'])

prop('A02', 'Library exceptions never cross the C API boundary and are recorded',
     'Whatever error the simulator library raises while a C API function runs, the function returns normally to its '
     'foreign caller. The failure is then visible in the error status of the simulator or neuron the operation was '
     'addressed to (or in the global status).',
     ['inputs', 'fault_sequences'], 'every exported function and every error the library code under it can raise',
     'An escaping exception aborts the host process; provoking each of the 280 throw sites under each of 180 entry points '
     'is not something a suite samples, and no test calls the C API.',
     API, [('try/catch around each operation and simulatorErrors[sid] = 1', 'src/pinvoke_api.cpp')],
     'interprocedural may-throw analysis (virtual dispatch resolved) against try regions, plus handler effect analysis',
     'Complete for throw statements in library source reached through resolved calls; exceptions of the standard library '
     '(allocation failure) are not considered.',
     state=[('simulatorErrors / neuronErrors / metaError', 'error status', 'src/pinvoke_api.cpp')],
     observe=['get_error()'])

prop('A03', 'C API calls on one object exclude each other and cannot deadlock',
     'Two C API calls addressed to the same simulator, neuron or circuit never operate on it at the same time: each holds '
     "the object's own lock for as long as it uses the object (a neuron also its simulator's). Locks are acquired in one "
     'global order, or together, so calls from different threads cannot block each other forever. The set of registered '
     'objects only changes under the registry lock.',
     ['schedules'], 'every pair of exported functions and every interleaving of their threads',
     'A missing or misplaced lock only shows under a particular interleaving; no test runs the C API from two threads.',
     API, [('per-object mutex maps and the guards taken from them', 'src/pinvoke_api.cpp'),
           ('std::lock over the registry mutex and the object mutex', 'src/pinvoke_api.cpp')],
     'lockset dataflow with guard-object lifetimes and helper summaries; lock-order graph acyclicity',
     'Every use of a registered object in an exported function is shown to be inside the lifetime of a guard of its '
     'mutex. Creation of registry entries concurrent with lookups (the unsynchronised look at the registry before the '
     'lock) is outside the statement.',
     state=[('simulatorMutexes / neuronMutexes / circuitMutexes', 'one mutex per object', 'src/pinvoke_api.cpp')])

prop('A04', 'Caller qubit ids are resolved through the current id map before use',
     'A qubit id is an arbitrary label the caller chose; the register position behind it changes when registers are '
     'joined, split, disposed of or rearranged for arithmetic. Every position a C API function hands to the library is '
     'the position the id map of the addressed simulator currently gives for the id the caller named: never the raw id, '
     'never the id map of another simulator, never a position looked up before a rearrangement that may have moved the '
     'qubit, never an id looked up twice. Counts, amplitudes, masks of classical bits and other plain arguments are never '
     'used as positions or looked up.',
     ['inputs', 'histories'], 'every exported function, every id map (not only the identity), every history of '
     'rearrangements within the call',
     'On a fresh simulator ids and positions coincide, so a missing or stale lookup is invisible until qubits were '
     'released, composed or used in arithmetic; no test calls the C API.',
     API, [('GetSimShardId', 'src/pinvoke_api.cpp'), ('MapArithmetic, MapArithmetic2, MapArithmetic3', 'src/pinvoke_api.cpp')],
     'abstract execution of every exported function over symbolic arguments with an epoch-stamped id-lookup domain',
     'All paths of every exported function, loops summarised. Values the executor has no normal form for are reported as '
     'not decided in the evidence, not as violations.',
     state=[('shards', 'id map of each simulator', 'src/pinvoke_api.cpp')],
     observe=['arguments of library calls'])

prop('A05', 'Every C API function performs its documented operation on its arguments',
     'Each exported function performs exactly the operation its name and documentation state: the same library operation '
     '(or gate matrix) in the uncontrolled, controlled and anti-controlled variants, inverse where an inverse is named, '
     'with controls, targets, masks, classical constants, carry and overflow qubits and input and output registers each '
     'in their declared role and order, repeated for all of the arguments given and in the right sequence (basis change, '
     'operation, inverse basis change), and returns the result of that operation.',
     ['inputs'], 'every exported function, every argument value',
     'No test calls the C API; each of 180 entry points has a dozen argument roles, and a swapped role or missing element '
     'shows only for particular values.',
     API, [('exported functions', 'src/pinvoke_api.cpp')],
     'abstract execution to a normal form (controls, matrix, target; loops as comprehensions) compared with a reviewed '
     'specification table',
     'The specification table (lib/spec/api_ops.json) was derived once, reviewed against the documentation and is fixed; '
     'forms the executor cannot normalise are reported as not decided.',
     observe=['sequence of library calls and their arguments', 'return values'])

prop('A06', 'The qubit id map follows every change of the register',
     'Whenever a C API function moves qubits within a register, the id map is changed by the same exchange before '
     'anything else happens, and it is changed in no other case. Creating, cloning, joining, splitting, disposing of and '
     'releasing registers leave the map as documented: added qubits get the ids the caller gave, in order; removed ids '
     'disappear and every higher position is renumbered; other ids keep their qubits. When two registers are gathered '
     'into contiguous blocks the blocks never overlap. If the library rejects the change, the map stays as it was.',
     ['histories', 'fault_sequences'], 'every exported function and every history of register changes, including failed ones',
     'The map only matters in calls after the change; a test would need the right follow-up call on a register whose ids '
     'and positions differ.',
     API, [('SwapShardValues, FillSimShards', 'src/pinvoke_api.cpp'), ('Compose, Decompose, Dispose, release, allocateQubit', 'src/pinvoke_api.cpp')],
     'abstract execution; pairing rule between positional swaps and map exchanges, map-effect specification per function',
     'All paths of every exported function; map effects in a form the executor cannot normalise are reported as not decided.',
     state=[('shards', 'id map of each simulator', 'src/pinvoke_api.cpp')],
     observe=['id map after each call'])

prop('W01', 'Wrapping simulators forward each operation with its operands in role',
     'QInterfaceNoisy and QBdtHybrid hold another simulator. Each operation called on the wrapper performs the operation of '
     'the same name on the simulator it currently holds, exactly once, with the same operands in the same roles and the '
     'same flags, and returns its answer. A noisy gate additionally applies the configured noise to each qubit it acts on '
     'after the gate, and accounts for it in the fidelity; queries and measurements add none. When the hybrid changes its '
     'representation the amplitudes move with it and exactly one representation is held afterwards.',
     ['inputs', 'histories'], 'every operation of both wrappers, every argument value, either representation held',
     'The existing tests build neither wrapper; 160 forwarding functions times roles and modes would need a differential '
     'test each, in both modes.',
     ['include/qinterface_noisy.hpp', 'include/qbdthybrid.hpp', 'src/qinterface_noisy.cpp', 'src/qbdthybrid.cpp'],
     [('QInterfaceNoisy operations', 'include/qinterface_noisy.hpp'), ('QBdtHybrid::SwitchMode, CheckThreshold', 'include/qbdthybrid.hpp')],
     'path-enumerating abstract execution of each forwarding method; obligations on the calls it makes on the held simulator',
     'All paths of all operations. When the heuristic chooses to switch, and the correctness of the wrapped simulator, are '
     'outside the statement.',
     state=[('engine / qbdt', 'the wrapped simulator', 'include/qbdthybrid.hpp')],
     observe=['calls on the wrapped simulator', 'return values'])

prop('N01', 'Looking at a register never changes it',
     'Every query of every simulator type - probability, amplitude, expectation and variance queries, repeated-shot '
     'sampling, state read-out, clone, comparison - and every measurement that is asked not to apply its result leaves the '
     'represented quantum state exactly as it was, in the queried register and in a register it is compared with. Only the '
     'internal representation, caches and the random stream may change. A query that rotates the basis to obtain its answer '
     'rotates it back completely, in the inverse order with the inverse gates, on every way out.',
     ['inputs', 'histories'], 'every query of every simulator type, every state, every argument value',
     'A disturbance shows only for particular buffered or entangled states and only in what is computed afterwards; the '
     'tests compare the answer of a query, rarely the state after it, and many queries have eight implementations.',
     ['include/qinterface.hpp', 'src/qinterface', 'src/qengine', 'src/qunit.cpp', 'src/qstabilizer.cpp',
      'src/qstabilizerhybrid.cpp', 'src/qpager.cpp', 'src/qbdt/tree.cpp', 'include/qtensornetwork.hpp'],
     [('Prob*/Expectation*/Variance*/GetAmplitude/MultiShotMeasureMask', 'include/qinterface.hpp'),
      ('ForceM, ForceMReg with doApply == false', 'include/qinterface.hpp'),
      ('IsSeparableX/Y/Z', 'src/qstabilizer.cpp')],
     'interprocedural effect (ownership) analysis from every query root per concrete class, flags propagated as constants; '
     'path enumeration with a gate-inverse pairing rule for queries that rotate and rotate back',
     'All call paths within the library. Trusted: a listed set of representation changes (basis reverts, buffer flushes, '
     'paging, pruning, normalisation) that keep the represented state, and the exception-free exit of a rotated query.',
     observe=['the represented state before and after a query'])

ENG = ['include/qengine_cpu.hpp', 'src/qengine/state.cpp', 'src/qengine/arithmetic.cpp', 'src/qengine/utility.cpp']
QUE = ['src/common/dispatchqueue.cpp', 'include/common/dispatchqueue.hpp']

prop('D01', 'The gate queue is finished only when no gate waits or runs',
     'The work queue behind asynchronous gates never reports itself finished, and finish() and dump() never return to '
     'another thread, while an operation is waiting in it or still running. Operations run one at a time, in the order in '
     'which they were queued, each exactly once, on the thread of the queue and without its lock held. No thread waits '
     'for ever on the queue: every change a waiter waits for is followed by a notification, and an operation that dumps '
     'its own queue does not wait for itself.',
     ['schedules'], 'every interleaving of dispatch(), finish(), dump(), isFinished() and the worker thread',
     'The wrong outcomes need a dump or finish to fall into a window of a few instructions of the worker thread; tests '
     'run one schedule at a time.',
     QUE, [('dispatch, finish, dump, dispatch_thread_handler', 'src/common/dispatchqueue.cpp')],
     'monitor analysis: lockset, and abstract interpretation over all valuations of the queue flags with an inferred '
     'invariant (strongest set of two-literal clauses preserved by every release of the mutex)',
     'All interleavings at the granularity of critical sections; trusts std::mutex, std::condition_variable and '
     'std::async. Exceptions thrown by an operation are out of scope.',
     state=[('q_, isFinished_, isStarted_, isRunning_, quit_', 'queue and its flags, guarded by lock_',
             'include/common/dispatchqueue.hpp')])

prop('E01', 'Queued gates own the data they use and the settings they read',
     'Work that the state-vector engine queues for its own thread does not depend on the life or later changes of the '
     "caller's data: it holds copies of its arguments (no reference to a parameter or local, no raw pointer into the "
     "caller's memory) and works on the engine whose queue it is in. Engine settings it reads while it runs, such as the "
     'number of threads, are not changed by another method before it is done, and the engine waits for it before the '
     'engine is torn down.',
     ['schedules', 'inputs'], 'every queued operation, every caller behaviour after the gate returned, every interleaving',
     'A captured reference to a stack variable or matrix usually still reads the right value in a test, because the '
     'queue runs at once; the failure needs a busy machine and a caller that reuses its memory.',
     ENG, [('lambdas given to Dispatch()', 'src/qengine/state.cpp'), ('lambdas given to Dispatch()', 'src/qengine/arithmetic.cpp'),
           ('QueueSetDoNormalize, QueueSetRunningNorm, Dispatch', 'include/qengine_cpu.hpp')],
     'escape analysis of the captures of every closure that can reach a DispatchQueue; effect analysis of the fields '
     'queued work reads against methods that write them (settledness dataflow)',
     'Every closure is found through the resolved call graph. What a captured shared pointer points to is assumed not to '
     'be changed by the caller after the call (it is a private copy made by the same method). doNormalize and runningNorm '
     'are written by queued work itself and are excluded.')

prop('E02', 'Amplitudes are only touched when no gate is queued',
     "A method of the state-vector engine that reads, writes, replaces, shares, moves or resizes amplitudes on the caller's "
     'thread first waits for (or discards) all gates queued on that engine, and for another engine it takes amplitudes '
     'from or gives them to, on that engine too. Queued work only touches the amplitudes of its own engine, and work that '
     'may free the amplitudes is waited for before the method that queued it returns. So a sequence of calls has the same '
     'result whether its gates ran asynchronously or not.',
     ['schedules', 'histories'], 'every sequence of engine methods after queued gates, every interleaving with the queue',
     'Without the wait the result is only wrong if the method overtakes the queue, which depends on register size, load '
     'and timing; a test that passes once proves nothing about the next schedule.',
     ENG, [('Finish() / Dump() at the start of every synchronous method', 'src/qengine/state.cpp'),
           ('same for arithmetic', 'src/qengine/arithmetic.cpp')],
     'must-dataflow ("settled" engines) over the CFG of every engine method with interprocedural requirements and '
     'guarantees; lambda bodies of parallel loops are included at their call site',
     'Complete for the state-vector engine on the CPU, over all methods and paths. runningNorm and doNormalize, which '
     'the engine reads without waiting by design, are not covered.',
     state=[('stateVec', 'amplitudes', 'include/qengine_cpu.hpp')])

prop('E03', 'Parallel loops and helper tasks never race',
     'While a loop or a group of tasks runs on several threads, no two of them access the same memory with one of them '
     'writing, unless both hold the same lock or the access is atomic. An iteration writes only elements that its loop '
     'variable or thread number selects, sums go to one slot per thread with room for every thread, an array that is being '
     'rewritten in place is only read where the same iteration writes, tasks hold copies of the variables their launcher '
     'goes on to change, shared objects are only asked, and the random generator that clones share is locked. A task never '
     'outlives the call that started it.',
     ['schedules'], 'every parallel loop body and every std::async task of the library, every interleaving of its threads',
     'Loops only run on several threads above 2^12 items, where tests are few; a race then changes the last digits or '
     'one element, under particular timing only.',
     ENG + ['src/qpager.cpp', 'src/qstabilizerhybrid.cpp', 'src/qinterface/qinterface.cpp', 'include/statevector.hpp',
            'src/common/parallel_for.cpp'],
     [('par_for, par_for_skip, par_for_mask bodies', 'src/qengine/state.cpp'), ('std::async tasks', 'src/qpager.cpp'),
      ('std::async tasks', 'src/qstabilizerhybrid.cpp'), ('QInterface::Rand', 'include/qinterface.hpp')],
     'dependence classes of every index in every parallel body (constant, thread number, loop variable, derived), applied to '
     'all accesses of shared memory; capture and lifetime rules for tasks; locksets',
     'All bodies found through the resolved call graph. Two trusted facts: index arithmetic that permutes the loop variable '
     'is one to one, and loops that skip bits are given the bits the body fills in. Calls on shared objects are limited to '
     'cloning, drawing and reading.')

prop('B01', 'Indices, ranges and permutations are checked before they select data',
     'Every qubit index, list of qubits, qubit range, basis state and array offset that a caller passes to a public '
     'operation of a simulator is compared with the size of the register (and rejected with std::invalid_argument or handled '
     'when it does not fit) on every path, before the operation uses it to index an array, shift, or compute an amplitude '
     'offset, in that method or any method or helper it passes the value to. A bad argument never reads or writes memory '
     'outside the register. (Bits of a qubit mask beyond the register may simply be ignored.)',
     ['inputs'], 'every argument value of every public operation of every simulator layer, on every path to every index use',
     'Tests pass valid indices; an unchecked index usually reads neighbouring memory without a crash.',
     ['src/qstabilizer.cpp', 'src/qstabilizerhybrid.cpp', 'src/qpager.cpp', 'src/qunit.cpp', 'src/qunitclifford.cpp',
      'src/qengine/state.cpp', 'src/qengine/arithmetic.cpp', 'src/qbdt/tree.cpp'],
     [('ThrowIfQubitInvalid, ThrowIfQbIdArrayIsBad', 'include/qinterface.hpp'), ('isBadBitRange, isBadPermRange',
      'include/common/qrack_functions.hpp'), ('throw std::invalid_argument guards', 'src/qengine/state.cpp')],
     'interprocedural taint-to-sink dataflow with must-check facts per path (conditions, helper summaries, conditional '
     'facts), over all public operations',
     'A check is recognised by what it compares (argument against the register size or a mask/power of it), not its form. '
     'Whether the bound compared with is tight for multi-part ranges (overlap of two ranges, size equality of two registers) '
     'is not decided.')

prop('U02', 'Split registers address each sub-register by its own current positions',
     'A layer that keeps a register as separately simulated groups of qubits (QUnit, QUnitClifford) knows for every qubit '
     'which group holds it and at which position. Every operation it runs on a group gets positions in that very group, never '
     'register indices or positions in another group; the positions are looked up after the last step that may have merged, '
     'split or reordered groups; and control, target and other operands arrive in the roles they have in the requested '
     'operation. Register data and operations of the layer itself only get register indices. So a result never depends on how '
     'the register happens to be split.',
     ['histories', 'inputs'], 'every operation of the two layers, on every path, for every way the register may be split and ordered',
     'Right after construction, and in short tests, positions in a group often equal register indices or nothing moves between '
     'lookup and use; the wrong index only shows after particular entangling and separating histories.',
     ['src/qunit.cpp', 'include/qunit.hpp', 'src/qunitclifford.cpp', 'include/qunitclifford.hpp'],
     [('shards[q].unit / shards[q].mapped', 'src/qunit.cpp'), ('CGate, SwapGate', 'include/qunitclifford.hpp'),
      ('EntangleInCurrentBasis', 'src/qunit.cpp')],
     'abstract interpretation of every method over index kinds (register position, sub-register position, outdated position) '
     'with the arguments they come from and same-group facts; interprocedural effect closure of "may move qubits"; lambdas '
     'analysed with what their callers pass',
     'Covers all methods and paths of both layers. Which permutation a reordering applies, and the bookkeeping of positions '
     'inside Compose, Decompose and Detach, is not decided.',
     state=[('mapped', 'position in the group', 'include/qengineshard.hpp')])

prop('S01', 'Loading a saved state restores it exactly',
     'Writing a stabilizer state, a stabilizer-hybrid state, a split Clifford register or a circuit to a stream or file and '
     'reading it back, into an object of the same kind whatever it held before, gives the same state (up to a global phase) '
     'or the same circuit: the reader consumes the very sequence of values the writer produced, each into the part of the '
     'object it came from, lists with the number of elements written. Numbers are written in full: no bits of a big integer '
     'and no digits of a real number are dropped, and values are separated. Printing a big integer and parsing it again '
     'gives the integer.',
     ['inputs', 'histories'], 'every state that can be saved, every path of each writer and reader, every object loaded into',
     'No test uses the stream operators at all; a suite would sample a few states, and a dropped field shows only for states '
     'in which it is not at its default.',
     ['src/qstabilizer.cpp', 'src/qstabilizerhybrid.cpp', 'src/qunitclifford.cpp', 'src/qcircuit.cpp', 'src/common/functions.cpp'],
     [('operator<< / operator>> of QStabilizer', 'src/qstabilizer.cpp'), ('operator<< / operator>> of QStabilizerHybrid',
      'src/qstabilizerhybrid.cpp'), ('operator<< / operator>> of QUnitClifford', 'src/qunitclifford.cpp'),
      ('operator<< / operator>> of QCircuit and QCircuitGate', 'src/qcircuit.cpp'), ('LossySaveToFile, qcircuit_out_to_file',
      'src/pinvoke_api.cpp'), ('operator<< / operator>> of bitCapInt', 'src/common/functions.cpp')],
     'abstract execution of each pair of stream operators to a grammar of typed tokens over the object, and structural '
     'comparison of writer and reader grammars; field completeness against the state-carrying fields of each class',
     'Covers the four saved classes, circuit gates and big integers, through helpers and lambdas. What the constructors used by the '
     'readers do with their arguments is trusted. The global phase and the derived flags of a circuit are not part of the '
     'saved state.')

prop('I01', 'Nothing is read before it is given a value',
     'Results never depend on what happens to lie in memory. Every object is completely set up when its constructor ends: each '
     'number, flag and pointer it holds and later looks at has been given a value, on every way through the constructor, and '
     'none is looked at earlier. Local variables and working arrays are written before they are read. A freshly allocated '
     'amplitude vector is filled, all of it, before any amplitude is read and before it becomes the state of a simulator.',
     ['inputs', 'histories'], 'every constructor with the methods it calls, every path to every read of a local variable, every array '
     'and amplitude vector allocated',
     'Fresh memory is mostly zero, so a test passes with or without the missing value; it fails for other heap contents.',
     ['src/qunit.cpp', 'src/qpager.cpp', 'src/qstabilizerhybrid.cpp', 'src/qengine/state.cpp', 'src/qengine/arithmetic.cpp',
      'include/statevector.hpp', 'include/qneuron.hpp'],
     [('constructors of all simulator types', 'src/qunit.cpp'), ('AllocStateVec and its users', 'src/qengine/state.cpp'),
      ('out-of-place arithmetic', 'src/qengine/arithmetic.cpp'), ('StateVectorArray', 'include/statevector.hpp')],
     'definite-assignment dataflow over the control-flow graphs: members through constructors with summaries of the methods called '
     'on the object, locals with boolean flags kept apart, symbolic ranges for arrays, typestate for amplitude vectors',
     'A parallel loop over all indices that writes one amplitude on every path of its body counts as filling the vector (that its '
     'target index is a bijection is not checked). Functions that take a pointer to write to are trusted to write.')

prop('K01', 'A clone carries everything over and shares no state',
     'Clone() of any simulator, circuit or neuron gives an object that answers every later call as the original would: the '
     'quantum state, buffered gates, pending measurements, global phase, qubit count, random generator and every setting that can '
     'differ between two objects or change over time (thresholds, normalisation, noise, T injection, rounding, engine and device '
     'choices, learning parameters) come from the original, each to its own place. Nothing of the quantum state is shared: later '
     'calls on either one do not reach the other. Copying changes no member of the original; gates buffered between qubits of a '
     'QUnit are applied before its qubits are copied. The shallow forms used for backups (Copy()), and assigning one simulator to '
     'another (Copy(other)), carry over the same members but may share amplitudes; CloneEmpty() carries over the settings only.',
     ['inputs', 'histories'], 'every function that copies a simulator, circuit, gate, shard, node or neuron, every path through it, '
     'every member',
     'Tests clone a few registers with default settings and compare amplitudes once.',
     ['src/qunit.cpp', 'src/qpager.cpp', 'src/qstabilizerhybrid.cpp', 'src/qstabilizer.cpp', 'src/qengine/utility.cpp',
      'src/qtensornetwork.cpp', 'include/qneuron.hpp', 'include/qinterface_noisy.hpp'],
     [('QUnit::CloneBody', 'src/qunit.cpp'), ('QStabilizerHybrid::CloneBody', 'src/qstabilizerhybrid.cpp'),
      ('QEngineCPU::Clone, Copy', 'src/qengine/utility.cpp'), ('QTensorNetwork::Clone', 'src/qtensornetwork.cpp'),
      ('QInterface::Copy', 'include/qinterface.hpp')],
     'symbolic evaluation of every copying function with constructors and setters folded in; per member and path, the term the '
     'result holds is compared with the same member of the original',
     'Members never read, and members no method changes and no constructor parameter sets, carry no obligation; a list of exempt '
     'members (thread counts, caches, unused random bits) is in lib/props/k01.py. What CopyStateVec and std::copy do is trusted. '
     'Decision-diagram nodes are shared below the root by design.')

prop('F01', 'Every part is made and kept as the whole is configured',
     'Whenever a simulator makes another one - an engine below it, a page, a unit, a layer stack, newly allocated qubits, qubits '
     'split off - the new one gets the random generator of its maker (none of its own), and each setting of the maker arrives as '
     'that setting: normalisation, global phase randomisation, host memory, device, hardware random generator, sparse state '
     'vector, amplitude floor, device list, thresholds, each at its own place and not negated. Constructors put each setting they '
     'are given into the member for it and hand it on to the constructors they delegate to; the factories make the type asked '
     'for, with all their arguments in order. A setting changed later (T injection, rounding, separation threshold, reactive '
     'separation) reaches every part that exists and every part made afterwards. Qubits split off or allocated by length are as '
     'many as asked for.',
     ['inputs', 'histories'], 'every place where a simulator is made, every constructor of a simulator, every factory, every setter '
     'of a simulator made of others',
     'Fifteen positional arguments, five of them bool: swapped or dropped ones compile, and the results of a default '
     'configuration are the same.',
     ['include/qfactory.hpp', 'src/qunit.cpp', 'src/qpager.cpp', 'src/qstabilizerhybrid.cpp', 'src/qtensornetwork.cpp',
      'src/qbdt/tree.cpp', 'include/qbdthybrid.hpp', 'include/qinterface_noisy.hpp', 'include/qinterface.hpp'],
     [('CreateQuantumInterface', 'include/qfactory.hpp'), ('QUnit::MakeEngine, Allocate, Decompose', 'src/qunit.cpp'),
      ('QPager::MakeEngine', 'src/qpager.cpp'), ('QTensorNetwork::MakeLayerStack', 'src/qtensornetwork.cpp'),
      ('QInterfaceNoisy setters', 'include/qinterface_noisy.hpp')],
     'role matching of arguments against constructor parameters at every creation site of the parsed program; evaluation of '
     'constructors to the parameter each member comes from; call-graph reachability of setters',
     'Roles are taken from the names of members and parameters; a setting computed by an expression has no role and is only '
     'checked for not being constant. Settings a part may choose itself (device, host memory, sparse, thresholds, phase factor) '
     'may be constant. Qubit counts are checked for the two-argument forms only.')

prop('V01', 'All simulator types compute the same states and probabilities',
     'For the same sequence of operations every simulator type holds the same quantum state up to rounding (and global '
     'phase where phases are randomised), its norm stays 1, probabilities and expectation values follow from that state, and '
     'measured bits are distributed accordingly.',
     ['inputs', 'histories'], 'every circuit, every simulator type, every draw of random numbers',
     'Tests compare a few circuits.',
     ['src/qengine/state.cpp', 'src/qunit.cpp', 'src/qstabilizer.cpp', 'src/qbdt/tree.cpp'],
     [('gate kernels', 'src/qengine/state.cpp'), ('tableau', 'src/qstabilizer.cpp')], '', '',
     na='Quantifies over amplitudes, rounding and random draws. Whether two floating-point kernels compute the same state is '
        'not decided by dataflow, typestate, effect or type arguments; comparing runs would be a runtime test under a static '
        'label.')

prop('C01', 'Every build configuration on offer compiles and defines what it declares',
     'The options of the build may be combined freely: number sizes (FPPOW, UINTPOW, QBCAPPOW), arithmetic, BCD, register-'
     'spanning and extended rotation interfaces, decision diagrams, threading, sources of random numbers, language standard. '
     'In every such configuration the library, the C API and the WASM API compile. Every public operation a header declares is '
     'defined, so that a program that uses it links.',
     ['inputs'], 'every source file under a covering set of configurations of the build; every declared public operation',
     'The tests are built and run in one configuration; code under another one is not even seen by the compiler.',
     ['CMakeLists.txt', 'include/common/config.h.in', 'include/qinterface.hpp', 'src/qalu.cpp', 'src/qinterface/rotational.cpp',
      'src/wasm_api.cpp'],
     [('ENABLE_* and *POW options', 'CMakeLists.txt'), ('config.h.in', 'include/common/config.h.in'),
      ('#if ENABLE_REG_GATES / ENABLE_BCD / ENABLE_ROT_API', 'include/qinterface.hpp')],
     'type checking of every translation unit under a covering set of configurations (compile-fail witness); declaration-definition '
     'matching over the parsed program',
     'OpenCL and CUDA configurations are out of reach (their headers are not installed). Pairs of options are covered by five '
     'combined configurations (quick) and every single value (thorough); not every combination. UINTPOW=7 does not compile on '
     'this compiler and is not claimed.')
