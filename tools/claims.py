prop('D01', 'Every dispatched protocol operation exists with the signature its callers use',
     'For every protocol, every low-level operation the tensor layers or the protocol API may request by name is registered by that protocol on every configuration path (or guarded by a capability test, or documented as unsupported), exactly once and under its own name. The registered implementation takes the argument types and order the requester supplies, produces exactly one result of the type the requester expects, and hands its arguments on in the order received.',
     'programs configurations', 'all programs the front end can emit, under all seven protocols and all capability switches',
     'Requests are resolved by string at run time; tests execute only some operations under some protocols, and an operation missing or mistyped under one protocol/configuration fails only when a user program reaches it.',
     ['src/libspu/mpc/api.cc', 'src/libspu/mpc/ab_api.cc', 'src/libspu/mpc/kernel.cc', 'src/libspu/core/context.h', 'src/libspu/mpc/*/protocol.cc'],
     [('dynDispatch / regKernel / getKernel', 'src/libspu/core/context.h, src/libspu/core/object.h'), ('getParam/pushOutput', 'src/libspu/core/context.h'), ('protocol registration entries', 'src/libspu/mpc/*/protocol.cc')],
     'call-graph reachability with capability guards + typed dispatch/registration matching over the program IR',
     'Sound for names and types (all dispatch names are constants, otherwise the analysis stops). Capability guards are resolved per protocol; operations a protocol does not support at all are listed in checks/D01.py.')
prop('D02', 'Every operand reaches the protocol variant made for its visibility',
     'Whenever a tensor operation is lowered to a protocol operation specialised for operand visibility or share type (public, private, secret, arithmetic, boolean), each operand it is given really has that visibility or share type, on every path and for every combination of operand visibilities. Two-private-operand shortcuts are taken only when both operands belong to the same party, and the basic ring operations accept every visibility combination.',
     'inputs programs', 'every combination of operand visibility and share type that can reach the operator library',
     'The number of visibility/share-type combinations per call chain is exponential and tests exercise few of them; a mismatched variant silently computes on the wrong representation in one protocol.',
     ['src/libspu/kernel/hal/ring.cc', 'src/libspu/mpc/api.cc', 'src/libspu/mpc/ab_api.cc', 'src/libspu/kernel/hal/permute.cc', 'src/libspu/kernel/hlo'],
     [('visibility dispatch', 'src/libspu/kernel/hal/ring.cc'), ('IsA/IsB/hasSameOwner dispatch', 'src/libspu/mpc/api.cc')],
     'flow- and context-sensitive abstract interpretation over sets of storage kinds',
     'Exact for singletons in the dispatch layers; in the whole-library pass only definite mismatches are reported; values from untyped containers are counted as undecided.')
prop('D03', 'Secrets are opened only on explicit request or after a secret shuffle',
     'The operator library never turns a secret or party-private tensor into a public one (or hands a secret to one party) except in the explicit reveal operators, in a visibility cast whose requested target is public, under an option whose name says it is unsafe, or when everything opened was first permuted by a fresh random secret permutation. Combining a secret operand with any others never yields a public or party-private result, and combining a private with a public operand never yields a public one.',
     'inputs programs', 'every operator, visibility combination and call chain in the operator library',
     'Opening a secret leaves the computed values right, so every functional test still passes; only an argument over all paths shows that no path opens unshuffled data.',
     ['src/libspu/kernel/hal/permute.cc', 'src/libspu/kernel/hal/group_by_agg.cc', 'src/libspu/kernel/hlo/casting.cc', 'src/libspu/kernel/hlo/control_flow.cc', 'src/libspu/kernel/hlo/indexing.cc', 'src/libspu/mpc/api.cc'],
     [('reveal / _s2p / _v2p call sites', 'src/libspu/kernel/hal, src/libspu/kernel/hlo'), ('shuffle-then-open sorting and grouping', 'src/libspu/kernel/hal/permute.cc'), ('result visibility of the dispatchers', 'src/libspu/kernel/hal/ring.cc, src/libspu/mpc/api.cc')],
     'call-site census of declassifiers + interprocedural provenance dataflow + visibility lattice interpretation',
     'Shuffling counts as laundering only under a permutation derived solely from fresh randomness; un-shuffling makes it secret again. What a protocol kernel itself opens is the subject of other properties.')
prop('D04', 'Every message a party sends is the next one its peer expects',
     'In every protocol routine, for any number of parties it supports, every message a party sends is received by the addressed party as the next one from that sender, with the same label and element width, and every receive is matched by a send. Collective steps are entered by all parties with the same kind, root and reduction, both sides of an oblivious transfer are run with the same flavour and parameters, and no party is left waiting.',
     'schedules inputs configurations', 'every interleaving of the parties and every joint outcome of conditions that do not depend on the party, for all protocols and party counts',
     'Tests run a few kernels with fixed shapes, fields and ranks on one scheduler; an unmatched send is silent until a later operation reads the stale message, and rank- or branch-dependent mismatches only hang in some configurations.',
     ['src/libspu/mpc/aby3', 'src/libspu/mpc/securenn', 'src/libspu/mpc/semi2k', 'src/libspu/mpc/experimental/swift', 'src/libspu/mpc/spdz2k', 'src/libspu/mpc/cheetah', 'src/libspu/mpc/common'],
     [('point-to-point and collective primitives', 'src/libspu/mpc/common/communicator.h'), ('oblivious transfer rendezvous', 'src/libspu/mpc/cheetah/ot/ferret_ot_interface.h'), ('rank-specialised kernels', 'src/libspu/mpc/aby3/oram.cc, src/libspu/mpc/securenn/arithmetic.cc')],
     'per-party projection of the control flow into event sequences (session types) and a compatibility check of the projections',
     'Homomorphic-encryption packing loops and OT-extension internals are undecided; data-dependent loops are followed once; joint runs whose direction depends on terms the analysis cannot relate between parties are counted as undecided, never reported.')
prop('D05', 'Operations declared free do not communicate',
     'A protocol operation whose declared number of rounds and declared traffic are both the constant zero, and whose cost is not marked as dynamic, never sends, receives or takes part in a collective step, for any operand or number of parties. The conversion of a value that one party holds privately into another form is excepted.',
     'inputs configurations', 'all operands, party counts and configurations of every protocol operation that declares itself free',
     'Costs are checked by tests on a few shapes and party counts and only for operations with a test; a hidden message leaves every result right and only shows as lost rounds or a stall when operations are reordered or run concurrently.',
     ['src/libspu/mpc/semi2k', 'src/libspu/mpc/aby3', 'src/libspu/mpc/securenn', 'src/libspu/mpc/spdz2k', 'src/libspu/mpc/cheetah', 'src/libspu/mpc/common/pv2k.h'],
     [('declared latency()/comm()/kind()', 'kernel classes in src/libspu/mpc/*/*.h'), ('communication primitives', 'src/libspu/mpc/common/communicator.h')],
     'effect analysis: reachability of communication primitives from the evaluation methods of operations whose declared cost is constant zero',
     'Any path counts, feasible or not. Operations whose cost is not a constant zero are outside the statement.')
prop('D06', 'Fixed-point tensors carry exactly one scaling factor, integers none',
     'Wherever the operator library gives a tensor an element type, its ring representation carries exactly one fixed-point scaling factor if that type is fixed-point and none if it is an integer type: products are rescaled exactly once by the configured fraction bits, and operands that are added, compared or selected between are brought to the same scale first. Arithmetic on mixed integer and fixed-point operands can be computed in either order and yields a fixed-point tensor exactly when an operand is fixed-point, comparisons and signs yield integers, selections and sign changes keep the element type, and every result of the operator interface has an element type. Bit reinterpretation (bit casts, population counts) is excepted.',
     'inputs programs', 'every operator and every combination of element types of its operands',
     'Tests fix one or two element-type combinations per operator and compare with a tolerance; a missing or doubled rescaling on one combination or branch only shows for that combination and for values large enough to notice.',
     ['src/libspu/kernel/hal/polymorphic.cc', 'src/libspu/kernel/hal/fxp_base.cc', 'src/libspu/kernel/hal/fxp_approx.cc', 'src/libspu/kernel/hal/integer.cc', 'src/libspu/kernel/hal/type_cast.cc', 'src/libspu/kernel/hlo'],
     [('element-type dispatch', 'src/libspu/kernel/hal/polymorphic.cc'), ('rescaling after multiplication', 'src/libspu/kernel/hal/fxp_base.cc'), ('conversions between integer and fixed-point', 'src/libspu/kernel/hal/type_cast.cc')],
     'interprocedural abstract interpretation (scale and element-kind inference, a units-of-measure type system)',
     'Scales that depend on computed shifts or raw constants are unknown and never reported; only definite disagreements are.')
prop('D07', 'Parallel loops and background tasks do not race',
     'Every tensor kernel computes the same result whether the iterations of its parallel loops run one after the other or all at once: no two iterations store to the same memory, and none reads an element that another one stores. An object changed by a background task is not used by its creator, or by another task, before the task has been waited for.',
     'schedules inputs', 'every interleaving of the thread pool, for all sizes',
     'Loops are only split among threads above fifty thousand elements per task and tests use small tensors; even when split, a lost update needs two threads to meet at one word.',
     ['src/libspu/core/parallel_utils.h', 'src/libspu/core/ndarray_ref.cc', 'src/libspu/mpc/utils/ring_ops.cc', 'src/libspu/mpc/aby3', 'src/libspu/mpc/securenn', 'src/libspu/mpc/spdz2k', 'src/libspu/mpc/semi2k', 'src/libspu/mpc/cheetah'],
     [('loop bodies given to the thread pool', 'pforeach / yacl::parallel_for call sites in src/libspu'), ('std::async tasks and what runs until they are awaited', 'src/libspu/mpc/aby3/arithmetic.cc, src/libspu/mpc/cheetah')],
     'per-iteration effect analysis: stores resolved through views and references, subscripts evaluated in a linear domain over the loop index; alive-task access conflict check',
     'Only definite conflicts are reported. Buffers of different names are taken not to overlap; subscripts index*c+j are taken to keep j below c.')
prop('D08', 'Tensor storage is addressed through its layout',
     'Every operation sees the logical elements of its operands whatever their memory layout (transposed, sliced, reversed, broadcast or contiguous). Wherever the storage of a tensor is used as one contiguous block, i.e. sent, copied, filled, serialised or viewed as a buffer, the tensor is contiguous by construction or has been tested or copied to be so; wherever a tensor is laid over existing storage it keeps the original\'s offset and strides, and a tensor over received data never takes them from a strided one.',
     'inputs programs', 'all operand layouts at all uses of raw tensor storage',
     'Tests build operands that are contiguous; a missing copy only shows when the operand happens to be a strided view, and then silently reads neighbouring elements.',
     ['src/libspu/core/ndarray_ref.cc', 'src/libspu/core/ndarray_ref.h', 'src/libspu/core/value.cc', 'src/libspu/mpc/common/communicator.cc', 'src/libspu/mpc/aby3/value.cc', 'src/libspu/mpc/spdz2k', 'src/libspu/mpc/semi2k/beaver', 'src/libspu/kernel/hal/ring.cc'],
     [('raw storage accessors data(), buf(), at()', 'src/libspu/core/ndarray_ref.h and their call sites'), ('contiguous copies before communication', 'src/libspu/mpc/common/communicator.cc'), ('views over share components', 'src/libspu/mpc/aby3/value.cc, src/libspu/mpc/spdz2k/value.cc')],
     'typestate analysis (contiguous / possibly strided) of tensors at raw-storage uses, interprocedural through parameters and returns',
     'Whether a stride or offset expression has the right value is not decided, only that it derives from the original. Layouts of container elements are unknown and never reported.')
prop('D09', 'What is sent, and when, does not depend on secret data',
     'Whether, how often, to whom and how much a protocol routine communicates is decided only by public facts: shapes, element types, ranks, configuration and values already opened. No value computed from the elements of a secret share, a party-private tensor or a received message decides it (aborting on a failed check excepted), and the contents of a tensor are measured or read by the operator library only once the tensor is known to be public.',
     'inputs schedules', 'all contents of all operands at every communicating routine',
     'A data-dependent shortcut gives the right results on every test that finishes; it leaks through traffic patterns and only deadlocks when two parties happen to decide differently.',
     ['src/libspu/mpc', 'src/libspu/kernel/hal/public_helper.cc', 'src/libspu/kernel/hal/fxp_cleartext.cc', 'src/libspu/mpc/common/communicator.h'],
     [('branches, loops and message arguments around communication', 'src/libspu/mpc/*'), ('bit widths measured on contents', 'getNumBits / maxBitWidth in src/libspu/mpc/*'), ('element readers', 'src/libspu/kernel/hal/public_helper.cc')],
     'interprocedural explicit and implicit information-flow (taint) analysis from tensor elements to communication decisions',
     'Decisions inside third-party oblivious-transfer and encryption libraries are outside. Scalars that pass through objects the analysis does not model (class members) are not followed.')
prop('D10', 'Operations leave their operands unchanged',
     'Running an operation never changes the tensors it is given, nor any other tensor that is still in use: whatever an operation, conversion or operator-library function takes as input holds the same elements afterwards, even though tensors share storage when they are copied, cast, sliced or reshaped. Only explicitly in-place helpers write to an argument, and then only to storage nobody else holds.',
     'inputs programs', 'every function and every aliasing of tensor handles within and across calls',
     'A value that is modified in place gives the right result once; only a program that uses the operand again sees the damage, and tests rarely do.',
     ['src/libspu/core/ndarray_ref.h', 'src/libspu/mpc/utils/ring_ops.cc', 'src/libspu/mpc', 'src/libspu/kernel/hal/permute.cc', 'src/libspu/mpc/common/communicator.cc'],
     [('in-place ring helpers and their call sites', 'src/libspu/mpc/utils/ring_ops.cc'), ('views that share storage', 'src/libspu/core/ndarray_ref.cc'), ('in-place sorting networks', 'src/libspu/kernel/hal/permute.cc')],
     'flow-sensitive storage-origin (alias and effect) analysis with function summaries',
     'Results of dispatched operations and tensors taken from containers filled elsewhere have unknown origin and are never reported; sharing between two fresh tensors is decided for plain handle copies only.')

prop('D11', 'Public and single-party values enter a sharing exactly once',
     'When an operation combines a secret with a value every party knows, or with one party\'s own input, that value is counted exactly once in the result, whatever the number of parties the protocol runs with: exactly one party (or, where shares are replicated, exactly one share, identically at both of its holders) '
     'takes it in. The same holds when a public or private value is turned into shares, and for the opened intermediate values inside multiplications, conversions, truncations and comparisons, in every protocol.',
     'inputs programs', 'every input, every party and every supported number of parties',
     'With two parties or a zero constant a wrong share of a public term often cancels; tests run few party counts and check end results with tolerance.',
     ['src/libspu/mpc/semi2k', 'src/libspu/mpc/cheetah', 'src/libspu/mpc/securenn', 'src/libspu/mpc/spdz2k', 'src/libspu/mpc/aby3'],
     [('addition of a public operand by one rank', 'src/libspu/mpc/semi2k/arithmetic.cc'), ('replicated placement of public terms', 'src/libspu/mpc/aby3/arithmetic.cc'), ('MAC of a public term', 'src/libspu/mpc/spdz2k/arithmetic.cc')],
     'per-rank abstract interpretation of kernels over a share-domain lattice',
     'Operations on values whose domain is not known (results of oblivious transfer, three-party sub-protocols on local pieces of a replicated share) carry no obligation.')
prop('D12', 'Operators compute the function their name says',
     'For every operator of the tensor library (arithmetic, comparison, selection, extrema, clamping, bitwise, shift, matrix product, elementary function wrappers) the result is, as a function of the operands, what its name says, '
     'with the operands in the documented order: a subtraction is the first operand minus the second, greater-or-equal holds for equal operands, a selection takes its first branch when the predicate is one. '
     'This is true for every ordering of the operands and every mix of public, private, arithmetically shared and boolean shared operands and integer or fixed-point element types the operator accepts, at each layer: protocol interface, ring, integer, fixed-point, polymorphic and HLO kernels.',
     'inputs programs', 'every operand value ordering (ties and zero included), operand visibility, sharing and element type',
     'Each operator has dozens of dispatch branches over visibility and sharing; tests run a few of them, with operands that rarely tie, and commutative test data hides swapped operands.',
     ['src/libspu/kernel/hal', 'src/libspu/kernel/hlo', 'src/libspu/mpc/api.cc', 'src/libspu/mpc/ab_api.cc'],
     [('comparison, selection and clamping built from msb and mux', 'src/libspu/kernel/hal/ring.cc'), ('type dispatch', 'src/libspu/kernel/hal/polymorphic.cc'), ('share-kind dispatch', 'src/libspu/mpc/api.cc')],
     'abstract interpretation into polynomial / xor-of-and normal forms per operand kind and weak ordering',
     'Values are idealised: overflow, comparisons across half the ring and truncation or approximation error are not part of it. Iterative algorithms (integer power, tensordot reshaping, bit interleaving, Goldschmidt division) are left undecided and carry no obligation.')
prop('D13', 'What a party sends while computing on shares is masked by fresh randomness',
     'In the Semi2k, ABY3, SecureNN, Cheetah and SPDZ2k protocols, every value derived from shares that a kernel sends or jointly opens while computing (as opposed to the kernels that open their operand to everyone or to its owner) has had fresh randomness added to it: '
     'a newly drawn private or pairwise random value, a component of a correlated-randomness tuple, an oblivious-transfer output, or randomness dealt by the helper party. Two different values sent to the same party never share their only mask.',
     'inputs programs', 'every secret input, every kernel, shape and ring size, every path to a send',
     'A missing mask leaves every result correct, because the masks cancel: no test that looks at results can notice it, and it discloses secret data to the other parties.',
     ['src/libspu/mpc/aby3', 'src/libspu/mpc/semi2k', 'src/libspu/mpc/cheetah', 'src/libspu/mpc/securenn', 'src/libspu/mpc/spdz2k'],
     [('masked openings of Beaver multiplication', 'src/libspu/mpc/semi2k/arithmetic.cc'), ('re-randomised replicated multiplication', 'src/libspu/mpc/aby3/arithmetic.cc')],
     'backward additive data-flow from every send and opening to a source of fresh randomness, with strong updates and caller obligations; pairwise comparison of mask sets',
     'The analysis establishes that a mask is added on every alternative of a value, not that the mask is uniform over the right range or independent of others. Offline generators (beaver/, ot/, homomorphic packing), the DPF key generation and experimental protocols are not covered.')
prop('D14', 'Ring elements keep all their bits on every ring width',
     'The kernels and ring routines compute the same function on the 32, 64 and 128 bit rings: a ring element is never stored in or passed through a fixed narrower integer type unless it is explicitly reduced first, masks and sign factors are computed at full ring width, '
     'no shift amount or bit position is a constant that only fits one ring, and operations on a range of bits work when the range ends at the full width. Rounding constants derived from the number of fraction bits hold for every number of fraction bits the ring allows.',
     'inputs configurations', 'every field, every element value, every bit range and fraction-bit setting',
     'Unit tests mostly run the 64-bit ring with small values; lost upper bits or overlong shifts show only on particular widths and values.',
     ['src/libspu/mpc', 'src/libspu/kernel/hal', 'src/libspu/core'],
     [('field dispatch', 'src/libspu/core/type_util.h'), ('ring routines', 'src/libspu/mpc/utils/ring_ops.cc')],
     'comparison of integer conversions, shifts and constants at each source site across all template instantiations; data-flow of shift amounts',
     'Explicit casts to a dispatched type, masks chosen by the author and the numeric range of fixed-point values are not judged; eleven sites whose values fit by construction are listed in the check with the reason.')
prop('D15', 'State shared between threads is only touched under its lock',
     'Within one party process, every member of a lock-owning object that changes after construction (symbol scopes and task queues of the block executor, profiling records, type registry, Beaver cache, Cheetah states and generators, trusted-party seeds), and every mutable global or static variable, is accessed under one common lock by all threads (exclusively when written), or initialised exactly once, or atomic. '
     'No thread takes a lock it already holds and no two locks are taken in both orders; a condition wait re-tests its predicate, and a state change a waiter tests is followed by a notification to all waiters that cannot be missed. Kernel objects, which all forks of a context share, hold no state that evaluation changes, and threads that are started are joined.',
     'schedules', 'every interleaving of the worker threads, forked contexts and stream callbacks of one process',
     'A data race or lost wakeup needs a particular interleaving; a test run explores a handful.',
     ['src/libspu/device/executor.cc', 'src/libspu/core/trace.cc', 'src/libspu/core/type.h', 'src/libspu/mpc/semi2k/beaver', 'src/libspu/mpc/cheetah', 'src/libspu/mpc/spdz2k/beaver'],
     [('symbol scope and parallel block runner', 'src/libspu/device/executor.cc'), ('tracer registry', 'src/libspu/core/trace.cc'), ('Beaver cache', 'src/libspu/mpc/semi2k/beaver/beaver_cache.cc'), ('lazily created OT instances', 'src/libspu/mpc/cheetah/state.h')],
     'lock-set data-flow over every function with inherited locks of helper methods; lock-order graph; typestate of condition variables',
     'Callbacks of one brpc stream are taken to run one after another. Races on tensor elements inside parallel loops are the subject of D07. Third-party objects (links, leveldb, SEAL) are taken to synchronise themselves.')
prop('D16', 'Random streams are never drawn from twice and stay in step between parties',
     'Every draw from a stored seed (the PRSS state of a context, the Beaver triple generators and their dealer, the Cheetah and LowMC generators, the oblivious-transfer extension) continues at the position kept for that seed and stores the position it reached; two seeds never share a position, positions recorded for a dealer\'s replay are those drawn at, and a draw at a fixed position uses a seed drawn for that purpose. '
     'The PRSS state draws public, private and pairwise values from the seed all contributed to, its own seed and the seeds exchanged with its two neighbours, and a forked state is seeded from the stream of the same kind. '
     'In every protocol kernel a party draws from a pairwise stream as often, in the same order and of the same size as the neighbour sharing it, and all parties draw alike from the public stream.',
     'histories programs', 'every sequence of operations, forks and refills on every party; every kernel, rank and party count',
     'A stream drawn from twice gives correct results but equal masks; streams out of step corrupt some later operation, so single-operation tests on a fresh context pass.',
     ['src/libspu/mpc/common/prg_state.cc', 'src/libspu/mpc/semi2k/beaver', 'src/libspu/mpc/cheetah', 'src/libspu/mpc/spdz2k', 'src/libspu/mpc/aby3', 'src/libspu/mpc/securenn'],
     [('PRSS streams and fork', 'src/libspu/mpc/common/prg_state.cc'), ('dealer replay', 'src/libspu/mpc/semi2k/beaver/beaver_impl/trusted_party/trusted_party.cc'), ('OT extension streams', 'src/libspu/mpc/spdz2k/ot/kos_ote.cc')],
     'typestate of (seed, position) pairs over all paths; per-rank data-flow comparing the draw sequences of neighbouring parties',
     'Loops are followed once; sizes are compared where their symbolic bases coincide; six functions with too many paths are left undecided; the pseudo-random generators themselves are trusted.')
prop('D17', 'The PPHLO executor runs each op on its own operands, attributes and regions',
     'For every op of the PPHLO dialect that reaches the backend, the executor runs the kernel of that op, each operand, attribute, result type and region reaches the kernel argument that means it, in the declared order, absent optional attributes take their defaults, and every result of the op is stored exactly once from the output of the same index. '
     'MLIR element types, visibilities and sort directions map to the SPU ones, the run-time type check accepts exactly the declared shape, type and visibility, and an op that is lowered earlier raises an error. '
     'A region runs in a scope nested in the scope of its op with argument i bound to value i, symbol lookup prefers the inner scope, a branch or loop runs the region its condition selects, program inputs and outputs keep their names, and a parallel task starts its op only after its operands and the outside values used in its regions are there.',
     'programs schedules', 'every program made of PPHLO ops, every combination of attributes, nested regions and parallel execution',
     'Each test runs one op with one attribute setting; a wrong wiring of one op, one attribute or one dependency shows only in programs that use it.',
     ['src/libspu/device/pphlo/pphlo_executor.cc', 'src/libspu/device/executor.cc', 'src/libspu/device/api.cc', 'src/libspu/dialect/pphlo/IR/ops.td', 'src/libspu/kernel/hlo/control_flow.cc'],
     [('op execution', 'src/libspu/device/pphlo/pphlo_executor.cc'), ('regions, scopes and tasks', 'src/libspu/device/executor.cc'), ('program inputs and outputs', 'src/libspu/device/api.cc')],
     'op definitions from the .td files against a provenance data-flow of kernel arguments; decision tables of type maps, scopes and readiness by abstract evaluation',
     'What the hlo kernels compute is not part of it. Attributes that only compiler passes use (onehot_index, bits) are exempt. Ordering inside a loop is judged where the index expressions are linear.')
prop('D18', 'What is written is read back as it was',
     'Serialising a runtime configuration, compiler option set or executable and parsing it again gives the same value for every field, sub-message and enumerator, also into an object that held other settings; completing a configuration fills exactly the options left unset with their documented values, and the Python bindings give each name to the member of that name. '
     'The text of every registered share or value type is parsed back to the same type and state, distinct types have distinct identifiers and unequal types never compare equal; type tables (plaintext type, encoded type, field, storage type, width, numpy format) agree with each other. '
     'A value cut into chunks of any size is covered without gap or overlap, joined back to the same real and imaginary parts, metadata and shape, and a received chunk never writes outside the tensor; encoding a plaintext scales by the configured fraction bits, saturates at the ends of the safe range, and decoding inverts it.',
     'inputs configurations', 'every combination of set and unset fields, every type state, every tensor and chunk size, every plaintext value and field',
     'There are several hundred field copies and table entries; tests round-trip a few of them, mostly at their default values, where a field read from the wrong place is not noticed.',
     ['src/libspu/spu.cc', 'src/libspu/spu.proto', 'src/libspu/core/config.cc', 'src/libspu/core/type.cc', 'src/libspu/core/type_util.cc', 'src/libspu/core/encoding.cc', 'src/libspu/core/value.cc', 'spu/libspu.cc', 'src/libspu/mpc'],
     [('configuration messages', 'src/libspu/spu.cc'), ('type text and registry', 'src/libspu/core/type.cc'), ('chunks', 'src/libspu/core/value.cc'), ('encoding', 'src/libspu/core/encoding.cc'), ('defaults', 'src/libspu/core/config.cc')],
     'abstract evaluation of writers and readers over field tokens, opaque texts and polynomial offsets; exhaustive evaluation of enum tables',
     'Protobuf and pybind11 themselves are trusted. The has_mac flag of an SPDZ2k share may be lost, because kernels authenticate a share without one. Rounding of the encoding is not judged.')


prop('D19', 'Values split into shares are put together again unchanged',
     'For every protocol, visibility, owner, ring field and number of parties, the shares (or bit shares) made from a plaintext reconstruct to exactly that plaintext, real and imaginary part alike; every share has the declared share type and the announced size, copies of one share held by several parties agree, and what one party is given never determines a secret. '
     'The factory gives each configured protocol its own I/O implementation. '
     'Exchanging the variables of co-located parties leaves every party with every variable under its own name, visibility and owner, with nothing pending and no message left over, and the symbol table returns what was stored last under a name.',
     'inputs configurations', 'every protocol, visibility, owner rank, field, party count, plaintext type and any number of exchanged variables',
     'Tests share sample arrays in a few settings and look at the reconstruction only, so a share that reveals the secret, a replicated copy that differs, or an owner rank that is handled wrongly goes unseen.',
     ['src/libspu/device/io.cc', 'src/libspu/mpc/io_interface.h', 'src/libspu/mpc/factory.cc', 'src/libspu/mpc/semi2k/io.cc', 'src/libspu/mpc/aby3/io.cc', 'src/libspu/mpc/securenn/io.cc', 'src/libspu/mpc/cheetah/io.cc', 'src/libspu/mpc/spdz2k/io.cc', 'src/libspu/mpc/experimental/swift/io.cc', 'src/libspu/mpc/ref2k/ref2k.cc', 'src/libspu/device/symbol_table.cc'],
     [('client', 'src/libspu/device/io.cc'), ('protocol io', 'src/libspu/mpc/*/io.cc'), ('factory', 'src/libspu/mpc/factory.cc')],
     'abstract evaluation of the splitting and reconstructing functions over linear forms and bit sets of one symbolic element; joint evaluation of the exchange',
     'SPDZ2k over the 128-bit field is refused by the code. Ring helpers and generators of yacl are trusted; uniformity of draws is not judged.')


# ---- properties static analysis cannot decide ----
prop('D51', 'Elementary functions meet their accuracy bounds',
     'Exponential, logarithm, division, square root, sigmoid, tangent and the other approximated functions return a value within the documented error of the true one over their documented domain, for every field, number of fraction bits and approximation setting.',
     'inputs configurations', 'all arguments in the domain of each function, all fields and fraction-bit settings',
     'Tests sample a few points at the default setting.', ['src/libspu/kernel/hal/fxp_approx.cc', 'src/libspu/kernel/hal/fxp_base.cc', 'src/libspu/core/config.cc'],
     [('approximations', 'src/libspu/kernel/hal/fxp_approx.cc')],
     na='the error of a polynomial or iterative approximation on truncated fixed-point arithmetic is a numeric bound over real inputs; no sound static argument in reach of dataflow or abstract interpretation bounds it tightly enough to decide it (the structure of these functions is covered by D06, D12 and D14)')
prop('D52', 'Probabilistic truncation errs by at most one unit except with small probability',
     'Truncating a shared fixed-point number gives the exact quotient up to one unit in the last place, and the probability of a large error is at most the bound the protocol documents.',
     'inputs', 'all secrets and all random choices', 'The failing event has negligible probability in a test run.',
     ['src/libspu/mpc/semi2k/arithmetic.cc', 'src/libspu/mpc/aby3/arithmetic.cc', 'src/libspu/mpc/cheetah/nonlinear/truncate_prot.cc'], [('truncation kernels', 'src/libspu/mpc/*/arithmetic.cc')],
     na='a probability over random shares and a bound on the magnitude of run-time values; neither is visible in the source')
prop('D53', 'Protocol kernels compute the operation they are named after',
     'For every protocol and number of parties, reconstructing the shares a kernel returns gives the named ring operation of the reconstructed operands, for all operand values and all random choices.',
     'inputs schedules', 'all shares, randomness and party counts', 'Tests sample shapes and values.',
     ['src/libspu/mpc/semi2k', 'src/libspu/mpc/aby3', 'src/libspu/mpc/securenn', 'src/libspu/mpc/cheetah', 'src/libspu/mpc/spdz2k'], [('kernels', 'src/libspu/mpc/*/*.cc')],
     na='functional equivalence of multi-round, multi-party bit-level programs with correlated randomness needs relational proofs about values of messages between parties; dataflow decides only the structural necessary conditions, which D04, D11, D13, D14 and D16 claim')
prop('D54', 'Messages reveal nothing about secrets (simulation security)',
     'The joint distribution of everything a corrupted set of parties within the threshold sees can be simulated from its inputs and outputs.',
     'inputs schedules', 'all inputs, all adversaries within the model', 'Security is a statement about distributions, not outputs.',
     ['src/libspu/mpc'], [('protocols', 'src/libspu/mpc')],
     na='an indistinguishability argument about distributions; static analysis decides necessary conditions only (D03, D09, D13, D16)')
prop('D55', 'A failing or malicious peer or network never leaves a party hanging',
     'If a peer crashes, a message is lost or a malformed message arrives at any point, every other party terminates with an error within its time limit.',
     'fault_sequences schedules', 'every fault at every point', 'Faults are not injected by the tests.',
     ['src/libspu/mpc/common/communicator.cc', 'src/libspu/mpc/semi2k/beaver/beaver_impl/beaver_ttp.cc', 'src/libspu/mpc/semi2k/beaver/beaver_impl/ttp_server/beaver_server.cc'], [('link time-outs', 'yacl link (outside this repository)')],
     na='time-outs and failure detection are implemented by the yacl link and brpc, whose source is not present, so the guarantee cannot be decided from this repository')
prop('D56', 'Compiler passes preserve the meaning of programs',
     'Every pass of the compiler pipeline maps a program to one that computes the same function under every input, up to documented approximations.',
     'programs inputs', 'all input programs', 'File-check tests compare text of a few programs.',
     ['src/libspu/compiler', 'src/libspu/dialect/pphlo/transforms'], [('passes', 'src/libspu/dialect/pphlo/transforms')],
     na='semantic equivalence of rewritten tensor programs is translation validation or proof; the MLIR and StableHLO headers the passes are written against are absent, so most pass code cannot even be type-checked here')
prop('D57', 'Every program that type-checks terminates with a result',
     'A program accepted by the compiler runs to completion on every backend configuration, without exhausting memory or looping, provided its own loops terminate.',
     'programs inputs', 'all programs', 'Only sample programs are run.', ['src/libspu/device/executor.cc', 'src/libspu/kernel/hal'], [('executor', 'src/libspu/device/executor.cc')],
     na='termination and resource bounds depend on run-time trip counts and sizes')
prop('D58', 'Correlated randomness handed out is correct and uniformly distributed',
     'Every multiplication, square, bit, truncation and permutation tuple produced by the offline phase satisfies its relation, and is otherwise uniform and independent of everything else.',
     'inputs schedules', 'all random choices and requests', 'The relation is checked for a few shapes; the distribution is not.',
     ['src/libspu/mpc/semi2k/beaver', 'src/libspu/mpc/spdz2k/beaver', 'src/libspu/mpc/cheetah/arith', 'src/libspu/mpc/cheetah/ot'], [('tuple generators', 'src/libspu/mpc/semi2k/beaver/beaver_impl')],
     na='the relation is a value equation through homomorphic encryption, OT extension and replayed streams, and uniformity is a statement about distributions; D16 decides that streams are not reused and stay in step')
