EX = "exhaustive bounded enumeration of inputs on the real code, compared with a reference model (n-d array = shape + value list)"
NOTE = "Every case inside the stated bounds is run on the real implementation and its whole observable result compared with the reference model; nothing is sampled. Trusts the reference model and the harness; nothing is claimed outside the bounds in the evidence file."
C, N, K = 'rstsr-common/src/', 'rstsr-native-impl/src/', 'rstsr-core/src/'

p('P01', 'View histories denote the right elements of the same buffer',
  'Any sequence of layout-only operations (transpose, permute, swap/move axes, flip, slice, insert/remove unit axes, broadcast, diagonal, split) on a tensor yields a view that shows exactly the elements the same sequence denotes on the mathematical array, still refers to the original buffer, and never addresses an element outside it. Copying any such view gives an equal dense array.',
  ['histories', 'inputs'], 'all operation sequences from any starting shape',
  'Unit tests exercise single operations on a few shapes; strides, offsets and flags interact across long histories (flip of a strided slice of a broadcast, empty axes, ...).',
  [C+'layout/layoutbase.rs', C+'layout/indexer.rs', C+'layout/broadcast.rs', K+'tensor/manipulation/transpose.rs', K+'tensor/manipulation/flip.rs', K+'tensor/indexing.rs'],
  [('layout transformations', C+'layout/layoutbase.rs'), ('slicing', C+'layout/indexer.rs')],
  'explicit-state breadth-first search over operation histories of the real view API against an index-map model', NOTE)
p('P02', 'Indexing and slicing follow the Python grammar for every argument',
  'For every axis length, integer index, slice start/stop/step (present or absent, negative, out of range), ellipsis and inserted axis, indexing gives the elements Python/NumPy would give in that order, or is rejected where NumPy rejects it. The two-argument element accessors agree with slicing, and mutable slicing writes to exactly those elements.',
  ['inputs'], 'all axis lengths, all slice triples, all indexer lists',
  'Tests sample a handful of slices; boundary combinations of negative start/stop/step and lengths are many.',
  [C+'layout/indexer.rs', C+'axis_index.rs', K+'tensor/indexing.rs'],
  [('slice normalisation', C+'layout/indexer.rs'), ('tensor indexing', K+'tensor/indexing.rs')], EX, NOTE)
p('P03', 'Broadcasting follows the NumPy rule in both orders',
  'Two or more shapes are compatible exactly when the NumPy broadcasting rule (aligning trailing axes in row-major convention, leading axes in column-major convention) says so; the common shape is the one the rule gives, every element of the broadcast view equals the element the rule maps it to, and incompatible shapes are rejected.',
  ['inputs', 'configurations'], 'all tuples of shapes, both memory-order conventions, all source layouts',
  'Tests cover typical pairs, not zero-length axes, col-major alignment, rank differences, non-contiguous sources together.',
  [C+'layout/broadcast.rs', K+'tensor/manipulation/broadcast.rs'],
  [('broadcast rule', C+'layout/broadcast.rs')], EX, NOTE)
p('P04', 'Reshape preserves element order for every source layout and order',
  'Reshaping keeps the sequence of elements as listed in the requested order (row-major or column-major), for every source layout, target shape and inferred (-1) extent; it returns a view only when no copy is needed, honours a request to forbid copying, and rejects targets whose element count differs.',
  ['inputs', 'configurations'], 'all shapes, source layouts, target shapes, orders and copy modes',
  'View-vs-copy is decided by a stride analysis whose cases (merged groups, unit axes, broadcast, negative strides, empty arrays) tests only sample.',
  [C+'layout/reshape.rs', K+'tensor/manipulation/reshape.rs', K+'tensor/manipulation/into_compatible_shape.rs'],
  [('stride analysis', C+'layout/reshape.rs')], EX, NOTE)
p('P05', 'Copies, layout and ownership conversions preserve values',
  'Converting a tensor to another memory order or explicit layout, to owned/shared/copy-on-write storage, to a vector or scalar, or to another device preserves every element at its index; the result has the contiguity that was asked for, and writing through the result never changes another tensor that was not asked to share.',
  ['inputs', 'histories', 'configurations'], 'all source layouts, target orders, storage kinds and conversion sequences',
  'Shortcuts that avoid copies depend on offset, size, contiguity flags and reference counts together.',
  [K+'tensor/manipulation/to_contig.rs', K+'tensor/manipulation/to_layout.rs', K+'tensor/ownership_conversion.rs', K+'storage/data.rs', N+'cpu_serial/assignment.rs'],
  [('layout assignment', N+'cpu_serial/assignment.rs'), ('ownership', K+'tensor/ownership_conversion.rs')], EX, NOTE)
p('P06', 'Element-wise operations equal the scalar operation at every index',
  'Every element-wise arithmetic, comparison, logical and math operation on arrays (and array-scalar mixes) equals the scalar operation applied index by index to the broadcast operands, for every operand layout, ownership form and device; operands that are only borrowed are unchanged.',
  ['inputs', 'configurations'], 'all operand layouts, shapes, ownership forms, orders and devices',
  'The kernels pick among contiguous, inner-contiguous and general loops and in-place buffer reuse depending on both layouts; tests mostly use contiguous operands.',
  [N+'cpu_serial/op_with_func.rs', N+'cpu_rayon/op_with_func.rs', K+'tensor/operators/op_binary_arithmetic.rs', K+'tensor/operators/op_binary_common.rs', K+'tensor/operators/op_unary_common.rs'],
  [('serial kernels', N+'cpu_serial/op_with_func.rs'), ('operator dispatch', K+'tensor/operators/op_binary_arithmetic.rs')], EX, NOTE)
p('P07', 'In-place operations change exactly the addressed elements',
  'In-place operations (assign, fill, compound arithmetic, in-place map, unary in place) write, at every index of the destination, the value the out-of-place operation would give with the source broadcast to it, and leave every other element of the underlying buffer and the source untouched; a source that does not broadcast to the destination is rejected without writing.',
  ['inputs', 'configurations'], 'all destination and source layouts, both orders, all devices',
  'Frame conditions on strided/flipped/offset destinations are not observable in tests that compare only the result.',
  [N+'cpu_serial/assignment.rs', N+'cpu_serial/op_with_func.rs', K+'tensor/assignment.rs', K+'tensor/operators/op_binary_assign.rs', K+'tensor/map_elementwise.rs'],
  [('assignment', N+'cpu_serial/assignment.rs'), ('compound ops', K+'tensor/operators/op_binary_assign.rs')], EX, NOTE)
p('P08', 'Reductions equal the fold over exactly the reduced elements',
  'Sum, product, min, max, mean, variance, standard deviation, norm, all, any, count and similar reductions, over all axes or any subset of axes (positive or negative indices), equal the corresponding fold over exactly the elements with the remaining indices fixed, for every input layout; invalid or repeated axes are rejected.',
  ['inputs', 'configurations'], 'all shapes, layouts, axis subsets, orders, devices, element types',
  'The kernels choose loop nests from strides; axis subsets x layouts x orders is far larger than the tested set.',
  [N+'cpu_serial/reduction.rs', N+'cpu_rayon/reduction.rs', K+'tensor/reduction.rs', C+'axis_index.rs'],
  [('serial reduction', N+'cpu_serial/reduction.rs'), ('parallel reduction', N+'cpu_rayon/reduction.rs')], EX, NOTE)
p('P09', 'Index-returning reductions give the first extremal index',
  'argmin/argmax and their unravelled forms return, for all axes or any subset of axes and every layout, the index of the first extremal element in the iteration order of the current convention; the element at that index equals the min/max, on every device.',
  ['inputs', 'configurations'], 'all shapes, layouts, tie patterns, axis subsets, orders, devices',
  'Ties, layouts and thread splits decide which index is returned; tests use data without ties.',
  [N+'cpu_serial/reduction.rs', N+'cpu_rayon/reduction.rs', K+'tensor/reduction.rs'],
  [('arg reductions', N+'cpu_serial/reduction.rs')], EX, NOTE)
p('P10', 'Matrix multiplication equals the textbook contraction',
  'Matrix multiplication of operands of any rank >= 1 gives, at every index, the sum of products defined by the matmul rule (vector, matrix and broadcast-batch cases), for every operand layout, both conventions and every device, including alpha/beta accumulation into an output view that leaves the rest of its buffer untouched; incompatible shapes are rejected.',
  ['inputs', 'configurations'], 'all shape combinations, operand and output layouts, devices, orders',
  'Dispatch among gevm/gemv/gemm/syrk/batched/naive paths depends on strides of three operands.',
  [C+'layout/matmul.rs', N+'cpu_serial/matmul_naive.rs', K+'tensor/linalg/matmul.rs', K+'device_faer/matmul.rs', K+'device_faer/matmul_impl.rs'],
  [('rule selection', C+'layout/matmul.rs'), ('naive kernel', N+'cpu_serial/matmul_naive.rs'), ('faer kernels', K+'device_faer/matmul_impl.rs')], EX, NOTE)
p('P11', 'Vector dot products equal the contraction over the chosen axes',
  'The vector dot product over one axis or several axes (broadcasting the others) equals the sum over the contracted indices of conj(a)*b, for every layout of both operands, with mismatching lengths rejected.',
  ['inputs', 'configurations'], 'all shapes, axes, layouts, orders and devices',
  'Offset and stride handling of the contracted axes is only tested on contiguous data.',
  [K+'tensor/linalg/vecdot.rs', N+'cpu_rayon/vecdot.rs'],
  [('vecdot', K+'tensor/linalg/vecdot.rs')], EX, NOTE)
p('P12', 'Iterators visit every element exactly once in the documented order',
  'Element, indexed and axis iterators over any layout visit every element (or sub-view) exactly once in the requested order with the right index, whichever way next, next_back, length queries and splits are interleaved, and mutable iterators yield distinct elements.',
  ['inputs', 'histories'], 'all layouts, orders and next/next_back/split histories',
  'Double-ended and split iteration state is a product of cursor positions; tests only drain forward.',
  [C+'layout/iterator.rs', C+'par_iter.rs', K+'tensor/iterator_elem.rs', K+'tensor/iterator_axes.rs'],
  [('layout iterators', C+'layout/iterator.rs')],
  'explicit-state exploration of iterator histories (front/back/split) of the real iterators against a deque model', NOTE)
p('P13', 'Parallel kernels give the serial result under every schedule and split',
  'For every way the work is divided and every order in which the pieces run, parallel element-wise, assignment, reduction, arg-reduction, matmul and iterator operations produce the result of the serial implementation, and no two concurrent pieces touch the same element with at least one writing.',
  ['schedules', 'inputs', 'configurations'], 'all fork-join split trees and piece orders, all layouts in bounds',
  'Tests run whatever split and schedule the thread pool happens to choose on the machine, and arrays below the parallel threshold never reach the parallel code.',
  [N+'cpu_rayon/op_with_func.rs', N+'cpu_rayon/assignment.rs', N+'cpu_rayon/reduction.rs', C+'par_iter.rs', C+'layout/iterator.rs'],
  [('parallel kernels', N+'cpu_rayon/op_with_func.rs'), ('split of iterators', C+'par_iter.rs')],
  'stateless exploration of the real parallel kernels under a controlled fork-join scheduler (replacement rayon), all split trees and orders within bounds', NOTE)
p('P14', 'Creation functions produce the specified values, shape and order',
  'Creation functions (arange, linspace, eye, zeros/ones/full and their -like forms, tri masks, asarray from vectors, slices, nested arrays or scalars, uninit-then-fill) produce exactly the specified elements for every shape, order and argument; data with too few elements for the requested shape or layout are rejected.',
  ['inputs', 'configurations'], 'all shapes, orders, argument combinations within bounds',
  'Boundary arguments (zero sizes, negative steps, off-diagonal offsets, layout objects) are not enumerated by tests.',
  [K+'tensor/creation.rs', K+'tensor/asarray.rs', K+'device_cpu_serial/creation.rs'],
  [('creation', K+'tensor/creation.rs'), ('asarray', K+'tensor/asarray.rs')], EX, NOTE)
p('P15', 'Joining and splitting arrays places every element where specified',
  'Concatenating, stacking, h/v-stacking, unstacking, meshgrid and atleast-nd place every input element at the position the NumPy definition gives, for any number of inputs, any axis (negative too) and any layouts, and reject inputs whose other extents differ.',
  ['inputs', 'configurations'], 'all lists of shapes, axes, layouts, orders',
  'Tests use two or three contiguous inputs.',
  [K+'tensor/creation_from_tensor.rs'], [('joining', K+'tensor/creation_from_tensor.rs')], EX, NOTE)
p('P16', 'Selection by index list or mask returns exactly the selected slices',
  'Selecting by index lists (repeated, unordered, negative) or boolean masks along any axis returns exactly the chosen sub-arrays in the given order, for every source layout, and rejects out-of-range indices and masks of the wrong length.',
  ['inputs', 'configurations'], 'all index lists/masks up to bound, axes, layouts, orders, devices',
  'Combinations of axis, layout and index list are sampled by two tests.',
  [K+'tensor/adv_indexing.rs', N+'cpu_serial/adv_indexing.rs'], [('index_select', N+'cpu_serial/adv_indexing.rs')], EX, NOTE)
p('P17', 'Triangular packing round-trips with the right symmetry',
  'Packing the upper or lower triangle and unpacking it with any symmetry option (symmetric, antisymmetric, hermitian, antihermitian, none) yields exactly the matrix the definition gives at every index and batch position, in both conventions and for every layout; tril/triu keep exactly the elements on the stated side of the k-th diagonal.',
  ['inputs', 'configurations'], 'all sizes, triangles, symmetries, batch shapes, layouts, orders',
  'Index arithmetic differs for each triangle x order x symmetry.',
  [N+'cpu_serial/op_tri.rs', N+'cpu_rayon/op_tri.rs', K+'tensor/operators/op_tri.rs'], [('tri kernels', N+'cpu_serial/op_tri.rs')], EX, NOTE)
p('P18', 'Mixed-type arithmetic promotes without losing values',
  'For every ordered pair of supported element types, the promoted type is the same in both orders, represents both operands as documented, and mixed-type array operations (comparisons, maximum, minimum, floor division, closeness tests) equal converting both operands to the promoted type and applying the scalar operation.',
  ['inputs', 'configurations'], 'all pairs of element types and boundary values',
  'Tests check a few pairs; the tables have hundreds of entries.',
  ['rstsr-dtype-traits/src/promotion.rs', 'rstsr-dtype-traits/src/isclose.rs', 'rstsr-dtype-traits/src/ext_num.rs'],
  [('promotion table', 'rstsr-dtype-traits/src/promotion.rs')], EX, NOTE)
p('P19', 'Fallible operations report errors instead of panicking',
  'The fallible form of every shape, axis, index, layout or data-length dependent operation returns an error value on any invalid argument, never panics or aborts, and never reads or writes outside its buffers; on valid arguments it succeeds.',
  ['inputs'], 'all small argument combinations, valid and invalid',
  'Tests check a few error cases per function.',
  [C+'error.rs', C+'axis_index.rs', C+'layout/layoutbase.rs', K+'tensor/manipulation/mod.rs', K+'tensorbase.rs'],
  [('error macros', C+'error.rs')], EX, NOTE)
p('P20', 'Every element is dropped exactly once',
  'For element types with destructors, every operation that creates, copies, converts, maps, reduces or consumes arrays drops each element it created exactly once and leaks none, whichever ownership form is used and also when the operation is rejected; when user code (a closure, or an element\'s clone, operator or comparison) panics, elements may leak but none is dropped twice or before it was initialised.',
  ['inputs', 'histories', 'fault_sequences'], 'all operations on drop-counted elements, a panic at every call into user code',
  'Tests use plain numbers, where a double drop or an uninitialised read is invisible.',
  [K+'tensor/map_elementwise.rs', N+'cpu_serial/reduction.rs', N+'cpu_serial/op_with_func.rs', K+'tensor/ownership_conversion.rs'],
  [('uninit kernels', N+'cpu_serial/op_with_func.rs')],
  'exhaustive enumeration of operations x layouts x panic points with an instrumented element type (live-object table)', NOTE)
p('P21', 'Accepted layouts address only their buffer and never alias',
  'A layout that the checked constructors accept for a buffer addresses only positions inside that buffer and maps distinct indices to distinct positions, unless the axis is an explicit broadcast; every such layout that views of a dense array can have (each stride steps over what the smaller ones cover) is accepted; contiguity flags, sizes and index bounds it reports are exact; and rearrangements of layouts for traversal or copying (all iteration orders) visit the same positions, each as often as before, with elements of several layouts paired as before.',
  ['inputs'], 'all shape/stride/offset/buffer-length combinations in bounds',
  'The accepted set is defined by arithmetic over strides; tests give a few examples.',
  [C+'layout/layoutbase.rs', C+'layout/rearrangement.rs', K+'tensorbase.rs'], [('layout validation', C+'layout/layoutbase.rs'), ('rearrangement', C+'layout/rearrangement.rs')], EX, NOTE)
p('P22', 'Row-major and column-major conventions are exact duals',
  'Performing any operation in the column-major convention on the axis-reversed array gives the axis reversal of the row-major result (axes, shapes and matmul operands mirrored accordingly), so that the choice of convention never changes the mathematics of an operation.',
  ['configurations', 'inputs'], 'all operations under both conventions, all shapes and layouts in bounds',
  'Tests of the two conventions use different examples and are not compared with each other.',
  [C+'flags.rs', C+'layout/rearrangement.rs', K+'tensor/linalg/matmul.rs'], [('convention flag', C+'flags.rs')], EX, NOTE)
p('P23', 'Devices agree with each other',
  'The same program run on the serial, rayon/faer and BLAS-backed CPU devices gives the same shapes, acceptance and values (up to rounding for floating-point sums), for every layout and size including those around internal block and parallelism thresholds.',
  ['configurations', 'inputs'], 'all operations x layouts x sizes around thresholds, per device',
  'Thresholds switch kernels at sizes tests hardly ever use with non-contiguous layouts.',
  [K+'device_faer/matmul.rs', 'crates-device/rstsr-openblas/src/matmul.rs', N+'cpu_rayon/op_with_func.rs'], [('device kernels', N+'cpu_rayon/op_with_func.rs')], EX, NOTE)
p('P24', 'Linear-algebra results satisfy their defining equations',
  'Cholesky, inverse, pseudo-inverse, solve (general, symmetric, triangular), eigen- and singular-value decompositions and determinants return factors satisfying their defining equations to working precision for every input layout, triangle choice, convention and backend, and read only the stated triangle. Borrowed inputs are unchanged; a non-positive-definite matrix has no Cholesky factor but an error; a determinant of a singular matrix is zero; non-square or mismatching operands and options a backend does not support are rejected.',
  ['inputs', 'configurations'], 'all small integer matrices in bounds x layouts x options x backends',
  'Tests use one matrix per function; layout handling and triangle selection are per call.',
  ['rstsr-linalg-traits/src/traits_def.rs', 'rstsr-linalg-traits/src/faer_impl/eigh.rs', 'rstsr-linalg-traits/src/ref_impl_blas.rs', 'rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs'],
  [('faer backend', 'rstsr-linalg-traits/src/faer_impl/eigh.rs'), ('lapack backend', 'rstsr-linalg-traits/src/ref_impl_blas.rs')], EX, NOTE)
p('P25', 'BLAS thread-count changes are restored under every interleaving',
  'A scoped change of the BLAS thread count is undone when the scope ends, normally or by panic, and after any interleaving of scopes on several threads the count is what it was before them. The scopes that the library opens for its own matrix products and linear algebra leave no trace either, whether the operation succeeds, returns an error or panics.',
  ['schedules', 'fault_sequences'], 'all interleavings of scoped changes on several threads; all small products and factorizations, valid or not',
  'Tests are single-threaded and do not look at the setting afterwards.',
  ['rstsr-blas-traits/src/threading.rs', 'crates-device/rstsr-openblas/src/threading.rs', 'crates-device/rstsr-blis/src/threading.rs', 'crates-plugin/rstsr-tblis/src/einsum_impl.rs', 'crates-device/rstsr-openblas/src/matmul.rs', 'crates-device/rstsr-openblas/src/linalg_auto_impl/cholesky.rs'], [('scoped thread count', 'rstsr-blas-traits/src/threading.rs')], 'stateless model checking: controlled scheduler over the real code, exhaustive depth-first enumeration of interleavings up to a preemption bound', NOTE)
p('P26', 'Pairwise distances equal the metric definition for every layout',
  'Every pairwise distance metric equals its mathematical definition applied to each pair of rows, for every layout, order, weight option and device; operands with differing numbers of columns, and weights whose number differs from the columns, are rejected.',
  ['inputs', 'configurations'], 'all metrics, small shapes, layouts, weights, orders',
  'Tests compare a fingerprint for one contiguous input per metric.',
  ['rstsr-sci-traits/src/distance/native_impl.rs', 'rstsr-sci-traits/src/distance/metric.rs'], [('metrics', 'rstsr-sci-traits/src/distance/metric.rs')], EX, NOTE)
p('P27', 'Printed tensors list exactly the elements of the tensor',
  'The textual form of a tensor lists its elements in order with the nesting of its shape, for every layout; elided output shows exactly the documented leading and trailing entries, and formatting never panics.',
  ['inputs', 'configurations'], 'all shapes, layouts, precision/width/limit options',
  'Tests print a few tensors without checking against the elements.',
  [K+'format/format_tensor.rs', K+'format/mod.rs'], [('format', K+'format/format_tensor.rs')], EX, NOTE)
p('P28', 'Packing to fixed-size arrays keeps every element in place',
  'Packing one axis of a tensor into fixed-size arrays, and unpacking it back, keeps every element at its index; views are reinterpreted without copying and owned tensors are never read, written or released outside their allocation. It works when the packed axis has exactly the array length and unit stride and the offset and all other strides are multiples of the array length, for any length above zero and any spare capacity, and every other layout, axis or length is rejected with an error.',
  ['inputs'], 'all shapes, layouts, axes and array lengths in bounds',
  'Reinterpretation of buffers depends on strides and offsets being multiples of the array length.',
  [K+'tensor/pack_array.rs', 'rstsr-common/src/pack_array.rs'], [('pack', K+'tensor/pack_array.rs')], EX, NOTE)
p('P29', 'BLAS drivers compute what their flags say and write only their target',
  'The level-3 BLAS builders (general, symmetric, hermitian and triangular-solve) compute alpha * op(a) * op(b) + beta * c, or the triangular solution, exactly as side, triangle, transposition and unit-diagonal flags say, for every operand layout including views inside larger buffers; only the stated triangle is read, an output view is updated in place and nothing of its buffer outside the view is written, and operands of mismatching shape are rejected.',
  ['inputs', 'configurations'], 'all small shapes, operand layouts, flags and output layouts',
  'Tests use contiguous operands; flips between conventions, leading dimensions and offsets combine per call.',
  ['rstsr-blas-traits/src/blas3/gemm.rs', 'rstsr-blas-traits/src/blas3/syhemm.rs', 'rstsr-blas-traits/src/blas3/trsm.rs', 'rstsr-blas-traits/src/util/util_tensor.rs'],
  [('gemm builder', 'rstsr-blas-traits/src/blas3/gemm.rs'), ('operand conversion', 'rstsr-blas-traits/src/util/util_tensor.rs')], EX, NOTE)
p('P30', 'Lebedev quadratures are exact up to their order',
  'Every Lebedev rule has the stated number of points, all on the unit sphere, with weights summing to one; it integrates every polynomial up to its order over the sphere exactly to working precision, and an order or number of points is accepted exactly if such a rule exists.',
  ['inputs'], 'all rules and all monomials up to the order of the rule',
  'Tests compare a fingerprint of one rule; a wrong digit among thousands of constants is invisible otherwise.',
  ['rstsr-sci-traits/src/integrate/lebedev.rs'], [('rules', 'rstsr-sci-traits/src/integrate/lebedev.rs')], EX, NOTE)
p('P31', 'Tensor contractions equal the sum over labels',
  'einsum and tensordot give, for every expression (labels repeated, permuted, summed or kept, output given or implied), every pairing of axes, every operand layout and both conventions, the tensor that the definition by sums over labels gives; written into a given output the result fills exactly the output view and nothing else. Expressions or axes that do not fit the operands (differing extents, unequally many, repeated or missing axes, unknown labels, wrong output shape) are rejected with the output untouched.',
  ['inputs', 'configurations'], 'all small expressions and pairings of axes, operand and output layouts, conventions and contraction orders',
  'The tests need an external library and compare two products of contiguous arrays.',
  ['crates-plugin/rstsr-tblis/src/einsum_impl.rs', 'crates-plugin/rstsr-tblis/src/tensordot_impl.rs', 'rstsr-common/src/tensordot_to_einsum.rs'],
  [('tensordot labels', 'rstsr-common/src/tensordot_to_einsum.rs'), ('einsum', 'crates-plugin/rstsr-tblis/src/einsum_impl.rs')], EX, NOTE + ' The tensor kernels of the external TBLIS library are replaced by a stand-in that computes their definition.')
