T = "include/TAT/"
prop("A01", "Running out of memory leaves every tensor as it was and loses nothing",
     "If memory runs out at any point inside a tensor operation or while a name is registered, the caller gets a bad_alloc error and never a wrong or partial result, and all operands, all tensors sharing data with them and the name table keep their values; built-in in-place operations happen completely or not at all. Nothing that the failed call had allocated stays behind and no scratch memory stays installed. Once memory is available again the same call gives exactly the result it would have given without the failure.",
     ["fault_sequences", "inputs", "configurations"], "Every allocation inside every tensor operation, single or repeated failures, for all symmetries, scalar and name types and for operands that do or do not share data.",
     "Allocations never fail in the tests; a leaked block, a half-updated operand or an installed scratch allocator only shows after a failure at one particular allocation.",
     [T + "tensor.hpp", T + "edge_operator.hpp", T + "contract.hpp", T + "svd.hpp", T + "qr.hpp", T + "scalar.hpp", T + "name.hpp", T + "pmr_resource.hpp", T + "io.hpp"],
     [("copy-on-write core, construction of results before assignment", T + "tensor.hpp: Tensor::transform, Tensor::core"), ("scratch scope restored by its destructor", T + "pmr_resource.hpp: scope_resource"), ("name registration", T + "name.hpp: FastName")])
prop("A02", "Tensors that share data behave as independent values",
     "Copying, assigning or moving tensors and deriving tensors that internally share storage is never observable: after any history of operations every tensor has the value it would have if each copy had its own storage, whichever tensors share data and whatever was done to the others. This includes histories in which operations ran out of memory or an update was given up half way by the caller's own function, where only the tensor being updated may be affected.",
     ["histories", "fault_sequences", "inputs"], "All histories of copies, moves, swaps, loads, in-place and out-of-place operations over any number of tensors that share data.",
     "Tests exercise one operation at a time on fresh tensors, so sharing between the results of different operations is not explored.",
     [T + "tensor.hpp", T + "scalar.hpp", T + "edge_operator.hpp", T + "core.hpp"],
     [("shared core with copy on write", T + "tensor.hpp: Tensor::core, Tensor::transform, Tensor::set, Tensor::at, Tensor::block, Tensor::copy")])
prop("A03", "Results never depend on what memory happens to hold",
     "Repeating an operation on equal operands gives bit-identical results whatever fresh memory and the unused stack contain, whichever addresses are reused, and whether or not a scratch scope surrounds the call; results stay valid after such a scope has ended and the surrounding scratch source is back in place afterwards. The scratch allocator hands out aligned pieces that do not overlap and lie inside its buffers, and returns every buffer it obtained exactly once, also when its upstream source fails.",
     ["configurations", "inputs", "fault_sequences"], "All operations, operands, contents of recycled memory, address patterns, nesting of scratch scopes, request sizes and alignments, and upstream failures.",
     "A test run starts with zeroed memory and a fresh heap, which hides reads of uninitialised or recycled memory.",
     [T + "pmr_resource.hpp", T + "tensor.hpp", T + "edge_operator.hpp", T + "contract.hpp", T + "svd.hpp", T + "core.hpp"],
     [("uninitialised vectors of scalars", T + "core.hpp: allocator_without_initialize"), ("monotonic scratch memory and its scopes", T + "pmr_resource.hpp: monotonic_buffer_resource, scope_resource")])
prop("L01", "A lazy value always equals recomputing it from the current inputs",
     "After any history of setting and unsetting inputs, reading, creating and dropping values of a lazy graph, reading a value gives exactly what evaluating its function on the current values of its inputs gives, including when an input is set from a value computed by the graph itself. A value is not computed again as long as nothing it depends on was set, and setting an input computes nothing by itself. If a function throws or memory runs out during a read, a set or a creation, the error reaches the caller, an input being set keeps its former value, and all later reads are still right.",
     ["histories", "fault_sequences", "programs"], "All acyclic graphs of roots, nodes and paths, all histories of operations on them, all points at which a function or an allocation fails.",
     "The only test evaluates one fixed graph of four values.",
     ["include/lazy.hpp"], [("recursive invalidation through weak downstream references", "include/lazy.hpp: lazy_base::unset, root::set, node::get, Node, Path")])
prop("L02", "Restoring a snapshot of a lazy graph brings back its values exactly",
     "After restoring a snapshot every input recorded in it has the value it had when the snapshot was taken, and every value of the graph, whether it existed then or was created later, again equals recomputing it from the current inputs. This holds for any number of snapshots restored repeatedly in any order, with values created, dropped, set, unset and read and with functions or allocations failing in between, for graphs whose values depend on values of the same graph.",
     ["histories", "fault_sequences", "programs"], "All graphs, all histories of operations, snapshots and restores in any order.",
     "The only test restores one snapshot once on a graph of four values.",
     ["include/lazy.hpp"], [("snapshot of shared values and restore", "include/lazy.hpp: Graph::dump, Graph::load, root::load, node::load")])
Q = "include/square/"
prop("Q01", "Distributed simple update equals the single-process result on every process",
     "Imaginary time evolution of a square lattice by simple update leaves every process of the job with the same lattice and environments, bit-identical to those a single process computes from the same lattice and terms, for every number of processes and every timing of their messages. An update that has to cut nothing away applies the exponential of every term exactly to the sites the term names, in whichever order it names them. A term the method does not support is refused with an error by every process instead of blocking the job.",
     ["schedules", "configurations", "inputs"], "All lattice shapes, sets of one- and two-site terms (both directions of a bond included), dimensions, job sizes, delays, stalls and send buffering.",
     "No test runs a square lattice on several processes.",
     [Q + "simple_update_lattice.hpp", "include/TAT/mpi.hpp"],
     [("bonds of one colour are shared out between the processes and exchanged by broadcast", Q + "simple_update_lattice.hpp: SimpleUpdateLattice::update")])
prop("Q02", "Processes agree on seeds and draw independently after splitting",
     "After seeding, choosing a common seed or merging, all processes of the job hold the same random state and draw the same numbers, also when the seed was left to chance or the processes asked for different ones, in which case the first process decides. After splitting no two processes draw the same sequence. The same seed and history of calls gives the same numbers in every execution, whatever the timing.",
     ["schedules", "histories", "configurations"], "All job sizes, histories of seeding, drawing, splitting and merging, entropy values and delivery schedules.",
     "Random seeding across processes is not tested.",
     [Q + "basic.hpp"], [("seed chosen by the first process and broadcast; engines split and merged", Q + "basic.hpp: random::seed, random::get_seed, random::split_seed, random::merge_seed")])
prop("Q03", "Cached sampling amplitudes equal those of a lattice built from scratch",
     "After any history of changing spins, cutting dimensions, copying, moving, assigning, storing and loading sampling lattices, every amplitude, amplitude with replaced spins and derivative is bit-identical to that of a lattice built anew from the same tensors and spins, and equals the exact contraction if nothing is truncated. If memory runs out the error reaches the caller, a spin that could not be set keeps its value and later answers are still right. No lattice leaks memory or changes which lazy graph the program has selected.",
     ["histories", "fault_sequences", "inputs"], "All histories over any number of sampling lattices of all shapes, cuts and spins, with allocations failing at any point.",
     "The sampling code is only exercised by hand-run programs; a stale cache entry needs a particular order of changes and questions.",
     [Q + "auxiliaries_system.hpp", Q + "sampling_gradient_lattice.hpp", Q + "abstract_network_lattice.hpp", "include/lazy.hpp"],
     [("lazy graph of boundary environments", Q + "auxiliaries_system.hpp: SquareAuxiliariesSystem"), ("configuration wrapped around it", Q + "sampling_gradient_lattice.hpp: SpinConfiguration::set, SpinConfiguration::operator(), SamplingGradientLattice assignment and stream operators")])
prop("Q04", "A lattice stored before a crash continues exactly as if nothing happened",
     "A square lattice written with the name table, read back after the job died and was restarted with any number of processes, continues bit-identically to a computation that was never interrupted, whatever the new processes did before reading. A checkpoint that is incomplete, unreadable or written to a full or failing device is reported as an error and never taken for a lattice. Reading consumes exactly the bytes of the checkpoint.",
     ["crash_points", "fault_sequences", "schedules", "configurations"], "All kinds of lattices, points of the computation at which it is stored, byte positions of cuts and failures, piece sizes and job sizes before and after.",
     "No test stores a lattice.",
     [Q + "abstract_lattice.hpp", Q + "abstract_network_lattice.hpp", Q + "simple_update_lattice.hpp", Q + "exact_lattice.hpp", Q + "sampling_gradient_lattice.hpp", "include/TAT/io.hpp", "include/TAT/name.hpp"],
     [("binary stream operators of lattices with operator pool", Q + "abstract_lattice.hpp: operator<, operator>; " + Q + "sampling_gradient_lattice.hpp: write_to_stream, read_from_stream"), ("name table", "include/TAT/io.hpp: fast name dataset operators")])
prop("Q05", "Sampling reports the true averages and keeps the right distribution",
     "The observables, variances and energy gradient reported by Markov sampling are the averages over exactly the configurations the chain visited, those reported by enumerating all configurations are the exact expectation values of the state and agree with those of the full state vector, and both hold for states and operators with zeros and for observers on any sites. Configurations distributed like the squared amplitude are still so distributed after any number of sweeps. In a job of several processes each reports the averages over its own configurations, and all are left with the same random state.",
     ["inputs", "histories", "schedules"], "All small lattices, Hamiltonians whose terms connect neighbouring sites, observers, random number sequences, job sizes and schedules.",
     "Sampling is a random process; no test compares its distribution or its reported averages with an independent calculation.",
     [Q + "sampling_gradient_lattice.hpp", Q + "basic.hpp", Q + "conversion.hpp"],
     [("Metropolis sweep over the terms with hopping ratio", Q + "sampling_gradient_lattice.hpp: _markov_spin, _observe, markov, ergodic, equilibrate")])
prop("Q06", "A measurement uses the operator it is given, whatever existed before",
     "Measuring an observable or the energy on a sampling lattice uses the operators passed to that call, whatever operators were measured and destroyed before, wherever in memory the new ones lie and however often terms and observers were replaced.",
     ["histories", "inputs"], "All histories of creating, measuring and destroying operators on any sites, and all patterns of address reuse.",
     "A recycled address needs a particular order of allocation and release, which fixed programs do not meet.",
     [Q + "sampling_gradient_lattice.hpp"], [("table of operator elements kept between calls", Q + "sampling_gradient_lattice.hpp: tensor element map")])

PS = "square/"
prop("P01", "Python caches answer as if the lattice had just been built",
     "After any history of setting and forgetting sites or spins, asking, copying, joining parts and replacing tensors, a Python environment system or spin configuration answers every question (the whole contraction, one or two neighbouring holes, one or two neighbouring sites replaced) exactly as one built anew from the same tensors. Copies and whole copied lattices are independent of the original afterwards, joined parts contain what either part contained, and a question that failed because sites were missing or memory ran out spoils no later answer.",
     ["histories", "fault_sequences", "inputs"], "All lattice shapes, dimensions with and without cutting, histories of changes and questions over several systems that share caches, and all points at which memory runs out.",
     "The Python tests build a lattice once and never change a site after asking.",
     [PS + "auxiliaries.py", PS + "sampling_gradient_lattice.py"],
     [("cache of partial contractions dropped line by line when a site changes", PS + "auxiliaries.py: SquareAuxiliariesSystem._refresh_line, __delitem__, _get_auxiliaries"), ("joining and copying", PS + "auxiliaries.py: __iadd__, __add__; " + PS + "sampling_gradient_lattice.py: SpinConfiguration")])
prop("P02", "Python sampling reports what its current operators and tensors give",
     "Enumerating all configurations or taking a Markov step on a Python sampling lattice reports, for each operator passed to that call and for each term of the energy, the value that the current tensors give: the weighted sum over all configurations, or the local value at the configuration the chain stands at after the step, and the gradient parts belonging to it. This holds whatever was measured, replaced, changed or garbage-collected before and whether earlier calls ran out of memory; the caller's observers are not altered, and the chain only moves along elements of the terms.",
     ["histories", "inputs", "fault_sequences"], "All histories of measuring, replacing and destroying operators and tensors, all operators including sparse ones, configurations of weight zero, all address reuse and garbage collection points, all points at which memory runs out.",
     "The tests measure one operator once per lattice in a fresh process.",
     [PS + "sampling_gradient_lattice.py"],
     [("table of operator elements kept between calls", PS + "sampling_gradient_lattice.py: SamplingGradientLattice._find_element, tensor_element_dict"), ("enumeration and chain", PS + "sampling_gradient_lattice.py: ergodic, markov_chain, equilibrate")])
prop("P03", "Python lattices keep their state when copied, converted and updated",
     "Converting a Python lattice between simple update, sampling and exact form keeps the state up to a factor, and observables and energies of the exact and the simple update form (with environments that cut nothing) are the expectation values in that state. A simple update that cuts nothing applies the exponential of every term to the sites it names, in the order of the terms and back. Updating or changing a copy never changes the lattice it was copied from, nor the other way round, also when memory runs out half way.",
     ["histories", "inputs", "fault_sequences"], "All lattice shapes, tensors, terms in either order of their sites, histories of updates, conversions, copies and changes, and all points at which memory runs out.",
     "The tests only run one lattice forward and never look at the original after updating a copy.",
     [PS + "simple_update_lattice.py", PS + "exact_lattice.py", PS + "abstract_network_lattice.py", PS + "abstract_lattice.py", PS + "sampling_gradient_lattice.py"],
     [("tensors shared between copies, in-place arithmetic on the state vector", PS + "exact_lattice.py: ExactLattice.__init__, update, observe"), ("terms applied bond by bond, environments multiplied in and divided out", PS + "simple_update_lattice.py: SimpleUpdateLattice.simple_update, try_multiple, observe")])
prop("B01", "Python tensors and whatever is taken from them stay right",
     "After any history of operations on tensors of the compiled Python module every tensor has the value it would have if each had its own storage, in-place operations return the object they were called on, edges and names taken from a tensor keep saying what they said, and an array obtained for a block shows and changes exactly that block, in the requested order of edges, for as long as its tensor is changed only in place and shares its data with no other. Copies, pickles, dumped bytes and printed text give equal and independent tensors; a function of the caller that raises, an impossible request, cut bytes or cut text are reported as an exception and affect at most the tensor that function was filling. No result depends on what memory holds, nothing is written outside the module's objects and nothing stays behind once the last reference is gone.",
     ["histories", "fault_sequences", "inputs"], "All Python programs over tensors, their blocks, edges and names, with requests and callbacks failing at any point, for all contents and reuse of memory.",
     "The Python tests call one operation at a time on fresh objects and never keep parts of a tensor beyond it.",
     ["PyTAT/PyTAT.cpp", T + "tensor.hpp", T + "io.hpp"],
     [("lifetime of views, edges and names handed to Python", "PyTAT/PyTAT.cpp: blocks_of_tensor, unordered and ordered block access, declare_tensor"), ("text, bytes and pickle", "PyTAT/PyTAT.cpp: declare_tensor")])
