#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the wording)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "The adjoint of a block is the conjugate transpose of its operator",
 "For every digital block (any gate, scaled, chained, kroned, summed, controlled, placed or time-evolved block, nested to any depth) and every circuit, asking for the adjoint returns a block whose matrix is the conjugate transpose of the original one for all parameter values. The adjoint acts on the same qubits, taking it twice gives back the original operator, and the block it was taken from is left unchanged.",
 ["inputs", "programs"], "all finite block trees over all operations, all real parameter values, all qubit placements",
 "tests check a dozen gates and one nested example at sampled angles; the claim quantifies over all trees, all angles and all placements",
 ["qadence/blocks/primitive.py", "qadence/blocks/composite.py", "qadence/operations/primitive.py", "qadence/operations/parametric.py", "qadence/operations/control_ops.py", "qadence/operations/ham_evo.py", "qadence/circuit.py"],
 [("dagger of composites", "qadence/blocks/composite.py CompositeBlock.dagger, PutBlock.dagger"), ("dagger of leaves", "qadence/blocks/primitive.py PrimitiveBlock/ParametricBlock/ScaleBlock/ControlBlock/ParametricControlBlock.dagger; qadence/operations/*"), ("circuit dagger", "qadence/circuit.py QuantumCircuit.dagger")],
 observe="block.dagger() compared with the matrix of block")

prop("C02", "Transpilation passes preserve the operator of a circuit",
 "Every transpilation pass that is documented to restructure blocks (flattening nested compositions, pushing scale factors into leaves, merging krons of single-qubit chains, filling idle wires with identities, applying a leaf-wise rewrite with the identity rewrite) returns a block or circuit with exactly the same operator on the same qubits as its input, for every block tree and parameter value. Composing passes applies each of them once, last listed first, and lifting a block pass to circuits keeps the circuit's register; the input's own operator is the same before and after the pass.",
 ["inputs", "programs"], "all finite block trees, all parameter values, all pass lists",
 "tests apply each pass to a few hand-written trees; a pass must be right for all trees, including empty, nested, scaled and singleton compositions",
 ["qadence/transpile/flatten.py", "qadence/transpile/block.py", "qadence/transpile/circuit.py", "qadence/transpile/apply_fn.py", "qadence/transpile/transpile.py", "qadence/transpile/digitalize.py"],
 [("flatten", "qadence/transpile/flatten.py flatten, _flat_blocks"), ("scale push-down", "qadence/transpile/block.py scale_primitive_blocks_only, scale_only_first_block"), ("chain_single_qubit_ops / fill_identities", "qadence/transpile/block.py, circuit.py"), ("apply_fn_to_blocks / transpile / blockfn_to_circfn", "qadence/transpile/apply_fn.py, transpile.py")])

prop("C03", "Qubit relabelling and bit-order inversion are exact permutations",
 "Relabelling a block with a qubit map yields the same operator with every qubit index replaced through the map (including controls, targets and scaled or nested parts), leaving the original block untouched. Inverting the bit order of a block, circuit, state vector or measurement counter maps qubit i of n to qubit n-1-i everywhere, never loses or merges amplitudes or counts, and is its own inverse.",
 ["inputs", "programs"], "all block trees, all injective qubit maps, all numbers of qubits, all state vectors and counters",
 "tests sample a few circuits and palindromic or short bitstrings; the claim is over all trees, maps, widths and counters",
 ["qadence/transpile/invert.py"],
 [("reassign", "qadence/transpile/invert.py reassign"), ("invert_endianness", "qadence/transpile/invert.py invert_endianness (block, circuit, Tensor, ndarray, Counter, list)")])

prop("C04", "Arithmetic on blocks computes the corresponding operator algebra",
 "For all blocks and scalars, product, scalar product, division, sum, difference, negation, non-negative integer power, tensor product and all in-place variants build a block whose operator is the corresponding product, multiple, sum, difference, power or tensor product of the operands' operators (a product applies its left factor first). Operands are left unchanged, summing with the builtin sum works, and the zero and identity blocks act as neutral or absorbing elements where they are so defined.",
 ["inputs", "programs"], "all operand blocks of every class (including already scaled, chained, kroned or summed operands), all scalar values and expressions, all integer powers",
 "tests build a few expressions with literal scalars; the operators special-case operand classes, so the claim is over all class combinations and values",
 ["qadence/blocks/abstract.py", "qadence/blocks/primitive.py", "qadence/blocks/utils.py", "qadence/operations/primitive.py"],
 [("dunder operators", "qadence/blocks/abstract.py AbstractBlock.__mul__ .. __imatmul__"), ("ScaleBlock/Zero/I overrides", "qadence/blocks/primitive.py, qadence/operations/primitive.py"), ("constructors", "qadence/blocks/utils.py chain, kron, add, _construct")])

prop("C05", "Qubit support is exactly the set of qubits acted on",
 "For every composition of digital blocks the reported support is exactly the union of its parts' supports without duplicates, the number of supports is its size and the number of qubits is one more than the largest index; support union is associative, commutative and idempotent, and disjointness is decided exactly. Tensor products of overlapping or global blocks are always rejected and never otherwise, and a circuit whose block needs more qubits than its register is always rejected.",
 ["inputs", "programs"], "all tuples of qubit indices, all block trees, all register sizes",
 "tests use a handful of supports; validity must hold for arbitrary index sets and nesting",
 ["qadence/qubit_support.py", "qadence/blocks/composite.py", "qadence/blocks/primitive.py", "qadence/blocks/analog.py", "qadence/circuit.py"],
 [("QubitSupport", "qadence/qubit_support.py QubitSupport.__new__, __add__, is_disjoint"), ("composite support", "qadence/blocks/composite.py CompositeBlock.qubit_support, n_qubits, KronBlock.__init__"), ("circuit check", "qadence/circuit.py QuantumCircuit.__init__")])

prop("C06", "Serialization round-trips every supported object",
 "Serializing a block, parameter, expression, register, device description, noise handler, circuit, quantum model or neural network (to a dictionary or a file) and deserializing the result yields an object that compares equal to the original and denotes the same thing: same structure, qubits, tags of compositions, parameter names, values and trainability, same noise, coordinates, edges and device settings, same observables, backend, differentiation mode, measurement and mitigation settings and, where stored, the same parameter values. Serialization does not modify the object, serialized data are plain JSON data, and strings that are not well-formed parameter expressions are rejected rather than evaluated.",
 ["inputs", "programs"], "all block trees over the serializable operations, all parameter expressions of the supported grammar, all registers and circuits",
 "tests round-trip a fixed list of gates and circuits; every class has its own to/from code and nesting and optional fields multiply",
 ["qadence/serialization.py", "qadence/blocks/abstract.py", "qadence/blocks/primitive.py", "qadence/blocks/composite.py", "qadence/blocks/analog.py", "qadence/parameters.py", "qadence/register.py", "qadence/analog/device.py", "qadence/analog/addressing.py", "qadence/noise/protocols.py", "qadence/circuit.py", "qadence/model.py", "qadence/ml_tools/models.py", "qadence/measurements/protocols.py", "qadence/mitigations/protocols.py"],
 [("serialize/deserialize", "qadence/serialization.py"), ("_to_dict/_from_dict", "each block class, ParamMap, Parameter, Register, RydbergDevice, NoiseHandler, QuantumCircuit, QuantumModel, QNN, Measurements, Mitigations"), ("expression grammar", "qadence/serial_expr_grammar.peg")])

prop("C07", "Every gate receives the value of its own parameter expression",
 "For every block and every assignment of values, embedding delivers to each gate exactly the value of that gate's own expression, with user inputs taking precedence over stored trainable values; distinct constants never share an entry, and expression-level and gate-level embeddings agree. A missing feature parameter raises an error naming it, stored trainable values are left unmodified, and evaluating an expression uses the supplied values over the defaults.",
 ["inputs", "programs"], "all blocks, all expressions, all value assignments and batch sizes",
 "tests embed a few circuits; the key under which a value travels is derived from the expression, so collisions and precedence are questions over all expressions",
 ["qadence/blocks/embedding.py", "qadence/parameters.py", "qadence/blocks/utils.py", "qadence/utils.py"],
 [("embedding", "qadence/blocks/embedding.py embedding"), ("stringify/evaluate", "qadence/parameters.py stringify, evaluate, sympy_to_numeric"), ("uuid maps", "qadence/blocks/utils.py uuid_to_expression, expression_to_uuids")])

prop("C08", "Block matrices and simulated states follow the definition of the block",
 "The matrix computed for any digital block on any requested set of qubits (in ascending order) equals the operator defined by its tree: identities on untouched qubits, chained blocks applied first to last, kroned blocks as tensor factors, sums and scale factors linear, controls acting only when all controls are one, for both endianness conventions and for the diagonal form. Running the block on the default simulator from any state gives that matrix applied to the state, and expectation values are those of the observable's matrix in that state, for each element of a batch.",
 ["inputs", "programs"], "all block trees over the supported gates, all qubit orders and supersets, all parameter values and batch sizes, all input states",
 "tests compare sampled gates on two or three qubits; placement, order and nesting multiply without bound",
 ["qadence/blocks/block_to_tensor.py", "qadence/backends/pyqtorch/convert_ops.py", "qadence/backends/pyqtorch/backend.py", "qadence/utils.py", "qadence/states.py"],
 [("block_to_tensor", "qadence/blocks/block_to_tensor.py _block_to_tensor_embedded, _fill_identities, _controlled_block_with_params, block_to_diagonal"), ("simulation", "qadence/backends/pyqtorch/convert_ops.py convert_block; backend.py Backend.run")])

prop("C09", "Parameter-shift rules return the exact derivative",
 "For every expectation value that is a trigonometric polynomial with the declared spectral gaps, the single-gap and multi-gap shift rules return exactly its derivative at every angle, for every admissible shift and gap values and batch size. Gradients of model expectations obtained through the shift rules equal those of automatic differentiation, for parameters that are repeated, scaled, appear in expressions or scale an observable, and for several observables; expectation values are the same in every differentiation mode.",
 ["inputs", "programs"], "all coefficient, angle, gap and shift values; all parameter expressions and repeated uses",
 "tests compare gradients at sampled points; exactness is an identity over all coefficients, gaps and shifts",
 ["qadence/backends/parameter_shift_rules.py", "qadence/engines/torch/differentiable_expectation.py", "qadence/blocks/utils.py"],
 [("psr rules", "qadence/backends/parameter_shift_rules.py single_gap_psr, multi_gap_psr, general_psr"), ("backward pass", "qadence/engines/torch/differentiable_expectation.py PSRExpectation"), ("spectra", "qadence/blocks/utils.py uuid_to_eigen; eigenvalues_generator of operations")])

prop("C10", "Sample post-processing is exact and loses no counts",
 "Turning samples or counters into marginal counts, empirical averages, integers, bitstrings and bases is exact: marginals sum the counts of all matching outcomes, totals are preserved, the empirical average of a diagonal Pauli term is the sum of signed frequencies, and the integer/bitstring conversions are mutually inverse for every width and bit order. Rotating an observable term (a product of Pauli and identity factors) into the measurement basis maps it to a product of Z operators on the same qubits, and the estimate of an observable is the coefficient-weighted sum of the averages of its terms, each sampled from the given circuit, state and noise.",
 ["inputs"], "all counters, qubit subsets, widths, integers and bit orders",
 "tests use a few short bitstrings; the claim is over all widths, subsets and counter contents",
 ["qadence/measurements/utils.py", "qadence/utils.py", "qadence/measurements/tomography.py", "qadence/measurements/samples.py"],
 [("counts", "qadence/measurements/utils.py get_counts, empirical_average, get_qubit_indices_for_op, rotate, pauli_z_expectation"), ("bit strings", "qadence/utils.py samples_to_integers, bitstring_to_int, int_to_basis, basis_to_int, nqubits_to_basis")])

prop("C11", "A noise handler is valid after any sequence of operations",
 "Whatever sequence of construction, appending, filtering and builder calls is made, a noise handler holds equally many protocols and option sets, aligned pairwise in the order they were given, with at most one analog noise and readout noise only as the last entry; an operation that would break this raises and leaves the handler unchanged. Filtering returns exactly the entries of the requested kind in order, and two handlers are equal exactly when their protocols and options are.",
 ["inputs", "histories"], "all finite sequences of constructor, append, builder and filter calls with all protocol kinds",
 "tests try a few hand-picked combinations; the invariant is over all histories",
 ["qadence/noise/protocols.py"],
 [("NoiseHandler", "qadence/noise/protocols.py NoiseHandler.__init__, _verify_single_protocol, verify_all_protocols, append, filter, builders, __eq__")],
 state="NoiseHandler.protocol, NoiseHandler.options")

prop("C12", "Hamiltonian constructors contain exactly the requested terms",
 "For every register and every choice of interaction, detuning, strengths, ordering flags and custom callables, the constructed Hamiltonian contains exactly one interaction term per edge (or per pair when all pairs are requested) and one detuning term per node, each with its own strength in the register's order. The interaction, number, Ising, XY, transverse-field and Rydberg interaction, drive and addressing-pattern terms equal their textbook operators, with distance-dependent strengths computed from the coordinates of that same pair.",
 ["inputs", "configurations"], "all registers, strength arrays, strength names and term choices",
 "tests use small registers and uniform strengths, where misaligned terms are invisible",
 ["qadence/constructors/hamiltonians.py", "qadence/analog/hamiltonian_terms.py", "qadence/constructors/utils.py", "qadence/register.py"],
 [("hamiltonian_factory", "qadence/constructors/hamiltonians.py hamiltonian_factory, _parse_strength, interaction_*"), ("Rydberg terms", "qadence/analog/hamiltonian_terms.py rydberg_interaction_hamiltonian, rydberg_drive_hamiltonian, rydberg_pattern_hamiltonian")])

prop("C13", "Register geometry is consistent",
 "Every register constructor yields the requested number of qubits with a minimum distance equal to the requested spacing (when one is requested), its distances are the Euclidean distances of the reported coordinates for exactly the reported pairs, and its neighbours are symmetric. Rescaling multiplies every coordinate by the factor, keeps nodes, edges and device, and leaves the original register and any user-supplied coordinates untouched.",
 ["inputs", "configurations"], "all coordinate sets, lattices, sizes, spacings and scale factors",
 "tests look at a few lattices at unit spacing",
 ["qadence/register.py"],
 [("Register", "qadence/register.py Register.__init__, from_coordinates, line, square, circle, rectangular_lattice, triangular_lattice, honeycomb_lattice, rescale_coords, distances, edge_distances")])

prop("C14", "Decompositions and the QFT implement the stated unitary",
 "The decomposition of a Hamiltonian evolution whose Pauli terms commute equals the exact evolution operator for every time and coefficients, the decomposition of a general rotation equals that rotation, and Trotter-Suzuki decompositions of the requested order give every term its full share of the total evolution time and converge with that order. The quantum Fourier transform equals the discrete Fourier matrix for every number of qubits, with the inverse, bit-reversed, swapped and digital-analog variants related as documented, and the digital-analog transformation of an Ising evolution equals that evolution.",
 ["inputs", "programs"], "all commuting Pauli Hamiltonians, times and coefficients; all widths and flag combinations",
 "tests compare sampled two- or three-qubit cases on adjacent qubits",
 ["qadence/decompose.py", "qadence/operations/ham_evo.py", "qadence/operations/parametric.py", "qadence/constructors/qft.py", "qadence/constructors/daqc/daqc.py", "qadence/transpile/digitalize.py", "qadence/blocks/utils.py"],
 [("decompose", "qadence/decompose.py lie_trotter_suzuki, decompose_pauli_exp, change_to_z_basis"), ("unrolling", "qadence/blocks/utils.py unroll_block_with_scaling, block_is_commuting_hamiltonian"), ("qft", "qadence/constructors/qft.py qft")])

prop("C15", "Readout-error mitigation returns valid counts and inverts known noise",
 "For every confusion matrix and measured distribution, the mitigated result is a genuine probability distribution: no negative entries, total preserved, and already valid inputs are returned unchanged. Mitigated counters sum to the number of shots of their own sample, every outcome has a non-negative count within one shot of its share, and the confusion matrices or error probability given by the user are the ones inverted, so that exact noisy distributions are restored. Mitigation of noise-free readout leaves counts unchanged, and zero-noise extrapolation returns the zero-noise value of data its polynomial can describe.",
 ["inputs"], "all real vectors summing to one, all counters and shot numbers",
 "tests use sampled noise with tolerances, which hide misplaced or lost weight",
 ["qadence/mitigations/readout.py", "qadence/mitigations/analog_zne.py", "qadence/mitigations/protocols.py"],
 [("mitigation", "qadence/mitigations/readout.py mle_solve, renormalize_counts, mitigation_minimization, mitigate"), ("zero-noise extrapolation", "qadence/mitigations/analog_zne.py zne")])

prop("C16", "Parameter and term extraction is complete and exact",
 "For every block tree, the extraction functions report every parameter expression of every gate exactly once per gate parameter (including those inside scaled, nested, controlled and time-evolution blocks), unique parameters contain no duplicates and omit none, and unrolling a Hamiltonian into scaled terms yields terms whose weighted sum is the Hamiltonian. Marking parameters as trainable or fixed changes exactly the requested ones.",
 ["inputs", "programs"], "all finite block trees and name lists",
 "tests inspect a few blocks; a missed nesting case silently drops a parameter",
 ["qadence/blocks/utils.py", "qadence/transpile/block.py"],
 [("extraction", "qadence/blocks/utils.py uuid_to_block, uuid_to_expression, parameters, unique_parameters, expressions, primitive_blocks, get_pauli_blocks, unroll_block_with_scaling"), ("trainability", "qadence/transpile/block.py set_trainable, set_as_variational, set_as_fixed")])

prop("C17", "Analog operations evolve the register under its documented Hamiltonian",
 "An analog rotation acts as exp(-iHt), where t is its duration in nanoseconds divided by 1000 and H is the sum over its qubits of omega/2 (cos(phase) X - sin(phase) Y) - delta N, plus the interaction between all atoms of the register, plus the addressing pattern of the device unless switched off; waiting evolves under the interaction and pattern alone, and on a register of distant atoms the analog X, Y and Z rotations are the ordinary rotations. Analog sequences act in order and parallel local rotations are carried out one after another. Digital blocks, the given circuit and its register are left unchanged.",
 ["inputs", "programs"], "all registers, devices, durations, amplitudes, detunings, phases and all trees mixing analog and digital blocks",
 "tests compare a few pulses on small registers against each other or against a second backend",
 ["qadence/analog/parse_analog.py", "qadence/analog/hamiltonian_terms.py", "qadence/operations/analog.py", "qadence/blocks/analog.py", "qadence/transpile/apply_fn.py"],
 [("parsing", "qadence/analog/parse_analog.py add_background_hamiltonian, _analog_to_hevo, _build_rot_ham_evo"), ("constructors", "qadence/operations/analog.py"), ("traversal", "qadence/transpile/apply_fn.py apply_fn_to_blocks")])

prop("C18", "Feature maps and ansatze consist of exactly the documented gates",
 "A feature map has one rotation per support qubit, by the reupload multiplier of that qubit times the qubit's scaling times the basis function of the data mapped affinely from feature range to target range; the feature is an input and the optional factors are trained, one per qubit. In every layer, hardware-efficient and alternating-layer ansatze apply the listed rotations to every qubit in order and then the entangler to the documented pairs (even links, odd links, the closing link of a periodic ansatz; blocks of m shifted by half in odd layers) or as one evolution, each with its own trainable parameter, the identity-initialized ansatz starts as the identity, and Rydberg ansatze and feature maps give every layer or qubit its own parameter or pattern. The configuration objects used to build models are honoured: depth, operations, entanglers, repeats, feature assignment, ranges and interleaving.",
 ["inputs", "configurations"], "all numbers of qubits, supports, depths, operation lists, ranges, scalings and data values",
 "tests build a few ansatze and check counts or that they run, so a shared parameter, a missing link or a wrong scale on one qubit goes unseen",
 ["qadence/constructors/feature_maps.py", "qadence/constructors/hea.py", "qadence/constructors/ala.py", "qadence/constructors/iia.py", "qadence/constructors/rydberg_feature_maps.py", "qadence/constructors/rydberg_hea.py", "qadence/ml_tools/constructors.py", "qadence/ml_tools/config.py"],
 [("feature maps", "qadence/constructors/feature_maps.py feature_map, fm_parameter_scaling, fm_parameter_func, exp_fourier_feature_map; qadence/constructors/rydberg_feature_maps.py"), ("ansatze", "qadence/constructors/hea.py hea, hea_digital, hea_sDAQC; ala.py; iia.py; rydberg_hea.py"), ("configurations", "qadence/ml_tools/constructors.py create_fm_blocks, create_ansatz, build_qnn_from_configs")])

prop("C19", "Overlaps are the squared inner products of the prepared states",
 "For any two circuits on equally many qubits, entry (i, j) of an overlap is the squared modulus of the inner product of the bra state at its i-th value and the ket state at its j-th value, the same for the exact, compute-uncompute, swap-test and Hadamard-test methods and, with shots, estimated from the outcome counts of the test; features may be in bra and ket, in one of them or in neither, and conflicting values for one circuit are rejected. The Jensen-Shannon method returns one minus the divergence of the two outcome distributions, and the divergence and norm difference of counters compare the relative counts of equal outcomes. Circuits, values and counters handed in are left unchanged.",
 ["inputs", "programs"], "all pairs of circuits, all value batches, all counters and states",
 "tests compare methods on product circuits of a single rotation angle, for which swapped roles, conjugations and misplaced values are invisible",
 ["qadence/overlap.py", "qadence/divergences.py"],
 [("test circuits", "qadence/overlap.py _select_overlap_method, _cswap, _controlled_unitary"), ("evaluation", "qadence/overlap.py overlap_exact, overlap_compute_uncompute, overlap_swap_test, overlap_hadamard_test, overlap_jensen_shannon"), ("batches", "qadence/overlap.py Overlap.forward, _process_param_values"), ("divergences", "qadence/divergences.py")])

prop("C20", "Models evaluate what they were given, independently of earlier calls",
 "Running, sampling or taking expectations of a model, a neural network or, with the convenience functions, of a block, circuit or register acts on exactly the given circuit, values, state, observables (in order), bit order, shots, noise and mitigation, those set in the model applying where the call gives none; a network assigns column i of an input tensor to its i-th input. No sequence of evaluations changes the model or the result of a later evaluation, stored parameter values change only by setting or training them, vectors of parameters are read and written in one order, and marking parameters as fixed or trained keeps the values of the others. Derivatives of a network with respect to its inputs are the derivatives of its output in the requested order, exact for automatic differentiation and up to the accuracy of finite differences otherwise.",
 ["inputs", "histories", "programs"], "all circuits, observables, value batches, states and settings; all sequences of calls",
 "tests call a model a few times with default settings; a setting that is dropped or leaks into later calls shows only for particular combinations and sequences",
 ["qadence/model.py", "qadence/ml_tools/models.py", "qadence/execution.py", "qadence/backends/utils.py", "qadence/ml_tools/parameters.py", "qadence/ml_tools/utils.py"],
 [("models", "qadence/model.py QuantumModel.run, sample, expectation, reset_vparams, set_as_fixed, set_as_variational"), ("networks", "qadence/ml_tools/models.py QNN, format_to_dict_fn, derivative"), ("functions", "qadence/execution.py run, sample, expectation"), ("finite differences", "qadence/backends/utils.py finitediff"), ("parameter vectors", "qadence/ml_tools/parameters.py get_parameters, set_parameters")],
 state="QuantumModel._params, _noise, _measurement, _mitigation, _observable")

prop("C21", "Classical shadows estimate the observable from the recorded snapshots",
 "A classical shadow holds, per snapshot, one measurement of the state prepared by the given circuit (with its values, initial state and noise) after rotating every qubit to the X, Y or Z basis recorded for it. The estimate of an observable is the sum over its Pauli terms of the coefficient times the median over K equal groups of the mean signed outcome of those snapshots measured in the term's bases, whatever the order of the factors; identities contribute one. The shot budget and number of groups follow the documented formula from the largest number of non-identity factors, the accuracy and the confidence, a given shadow size replacing the budget.",
 ["inputs"], "all circuits, Pauli observables, bases, outcomes, accuracies and confidences; any number of qubits and snapshots",
 "tests compare a few estimates with wide tolerances on fixed seeds; a factor matched with another qubit's basis or a lost identity shows only for some observables",
 ["qadence/measurements/shadow.py"],
 [("snapshots", "qadence/measurements/shadow.py local_shadow, classical_shadow"), ("estimators", "qadence/measurements/shadow.py estimators, estimations"), ("budget", "qadence/measurements/shadow.py maximal_weight, number_of_samples"), ("protocol", "qadence/measurements/shadow.py compute_expectation")],
 state="none")

prop("C22", "Training data, callbacks, schedules, checkpoints and steps",
 "An infinite data set yields, per full pass, every sample exactly once with rows of all tensors kept together, independently of other iterators over it, and data moved to a device keep their structure, values and batching. A callback runs exactly at its stage and, outside train start and end, at the positive multiples of its period for which its condition holds; learning-rate schedules set the documented function of the iteration, early stopping stops exactly after `patience` consecutive calls without improvement, and the best checkpoint is written exactly when the criterion improves. Loading the latest checkpoint restores the model values, optimizer state and iteration of the highest-numbered checkpoint written for the device, and a gradient or gradient-free step updates the parameters from the loss of the given batch.",
 ["inputs", "histories"], "all data sets, iterations, periods, conditions, rates, metric histories and sets of checkpoints",
 "tests run a handful of epochs; an off-by-one at a boundary, a reordered pass or a wrong checkpoint among many shows only for particular histories",
 ["qadence/ml_tools/data.py", "qadence/ml_tools/optimize_step.py", "qadence/ml_tools/callbacks/callback.py", "qadence/ml_tools/callbacks/saveload.py", "qadence/ml_tools/callbacks/callbackmanager.py"],
 [("data", "qadence/ml_tools/data.py InfiniteTensorDataset, DictDataLoader, to_dataloader, data_to_device"), ("callbacks", "qadence/ml_tools/callbacks/callback.py Callback, EarlyStopping, LRScheduler*, SaveBestCheckpoint"), ("checkpoints", "qadence/ml_tools/callbacks/saveload.py write_checkpoint, load_checkpoint, get_latest_checkpoint_name"), ("steps", "qadence/ml_tools/optimize_step.py optimize_step, update_ng_parameters")],
 state="InfiniteTensorDataset.indices, EarlyStopping.best_value and counter, SaveBestCheckpoint.best_loss, optimizer parameter groups, checkpoint files")

prop("C23", "The training loop covers its epochs and batches and reports their means",
 "Training runs `max_iter` + 1 epochs from the loaded iteration on, each over every batch of its data once (one batch for infinite or no data, at most `max_batches`), until the first epoch boundary after a stop request or interrupt; validation runs, without gradients, exactly at the epochs that are multiples of `val_every`, and testing evaluates every batch of the test data. The loss and metrics reported to callbacks and hooks are the means over the epoch's batches of what the loss function gave, named by phase, and the configured callbacks are registered at their stages and periods. A checkpoint found at the start is continued from, and a temporarily changed optimization mode and optimizer are restored afterwards.",
 ["inputs", "histories"], "all data sizes, batch sizes, numbers of epochs, validation periods, stop requests, losses and configurations",
 "tests check that training runs and the loss falls; a batch skipped at the end of an epoch or a wrong average does not change that",
 ["qadence/ml_tools/trainer.py", "qadence/ml_tools/train_utils/base_trainer.py", "qadence/ml_tools/callbacks/callbackmanager.py", "qadence/ml_tools/loss/loss.py", "qadence/ml_tools/train_utils/accelerator.py"],
 [("loop", "qadence/ml_tools/trainer.py Trainer._train, _train_epochs, run_training, run_validation, test, _batch_iter"), ("results", "qadence/ml_tools/trainer.py Trainer.build_optimize_result, _modify_batch_end_loss_metrics"), ("batches", "qadence/ml_tools/train_utils/base_trainer.py BaseTrainer._compute_num_batches"), ("modes", "qadence/ml_tools/train_utils/base_trainer.py enable_grad_opt, disable_grad_opt"), ("configuration", "qadence/ml_tools/callbacks/callbackmanager.py initialize_callbacks, start_training"), ("losses", "qadence/ml_tools/loss/loss.py")],
 state="Trainer.current_epoch, global_step, opt_result, _stop_training, training_stage")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
