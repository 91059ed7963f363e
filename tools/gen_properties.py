#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every map partitions its index space exactly once and consistently",
 "For every map (block, cyclic, block-cyclic and whole distributions, any processor set, any number of dimensions) applied to a domain, each element belongs to exactly one subblock and one patch, and the patches of all subblocks tile the domain without gap or overlap. Global-to-local and local-to-global index translation are mutual inverses, agree with the subblock and patch domains, and every subblock is owned by exactly one processor of the map (every processor, for replicated maps). Subset, transposed and projected maps describe the same ownership as the map they derive from, restricted to the sub-domain.",
 ["configurations", "inputs"], "all distributions, block sizes, processor grids, domain shapes and dimension counts",
 "Tests check a few block and cyclic maps of fixed sizes on at most two processes; ownership arithmetic must hold for every size, including sizes that do not divide the processor count and empty subblocks.",
 ["src/vsip/map.hpp", "src/vsip/impl/dist.hpp", "src/vsip/impl/replicated_map.hpp", "src/ovxx/parallel/map_utils.hpp", "src/ovxx/parallel/subset_map_decl.hpp", "src/ovxx/parallel/transpose_map_decl.hpp"],
 [("Distribution patch/subblock arithmetic", "src/vsip/impl/dist.hpp"), ("Map global/local domain queries", "src/vsip/map.hpp"), ("derived maps", "src/ovxx/parallel/subset_map_decl.hpp")],
 [("pvec_", "processors of the map", "src/vsip/map.hpp"), ("ddomain_", "patch tables for general distributions", "src/vsip/map.hpp")],
 ["subblock_domain, global_domain, local_domain, num_subblocks, num_patches, index translation functions"])

prop("C02", "Distributed assignment moves every element exactly as serial assignment",
 "Assigning one distributed view to another of the same shape leaves the destination, on every process, with exactly the values the same assignment gives on serial views, whatever the two maps (block, cyclic, block-cyclic, whole, replicated, local; any processor subset or order), element type, dimension order, sub-domain or number of processes. No element outside the destination is modified, the source is unchanged, and repeating a prepared assignment transfers the then-current source values.",
 ["configurations", "inputs", "schedules"], "all pairs of maps, shapes, sub-domains and process counts up to the bound, every message schedule of the reduced schedule space",
 "The parallel tests run a handful of map pairs with two processes and one MPI implementation's timing; three or more processes, processor subsets and mixed cyclic pairs are never executed.",
 ["src/ovxx/parallel/assign.hpp", "src/ovxx/parallel/assign_chain.hpp", "src/ovxx/parallel/assign_block_vector.hpp", "src/ovxx/parallel/assign_local.hpp", "src/ovxx/parallel/copy_chain.cpp", "src/ovxx/mpi/chain_builder.hpp", "src/vsip/impl/parallel.hpp"],
 [("chain of patch intersections for sends and receives", "src/ovxx/parallel/assign_chain.hpp"), ("point-to-point assignment", "src/ovxx/parallel/assign_block_vector.hpp")],
 [("send_list/recv_list/copy_list", "what each process sends, receives and copies locally", "src/ovxx/parallel/assign_chain.hpp")],
 ["values of every local patch after the assignment"])

prop("C03", "Parallel operations never deadlock, lose or mix messages under any schedule",
 "For every legal behaviour of the message-passing layer (any interleaving of the processes, sends that complete early or only when received, data read from the send buffer as late as the layer is allowed to, collectives that return early) every parallel operation terminates on all processes. Results do not depend on the schedule, every message sent is received, every request and derived datatype is completed and freed, and no send buffer is changed while a send may still read it.",
 ["schedules", "configurations"], "all interleavings, message-completion orders and buffering choices within the bound",
 "A test run observes one schedule of one MPI implementation, which buffers small messages; rendezvous behaviour, late buffer reads and unreceived messages stay invisible.",
 ["src/ovxx/mpi/communicator.hpp", "src/ovxx/mpi/communicator.cpp", "src/ovxx/mpi/service.cpp", "src/ovxx/mpi/group.hpp", "src/ovxx/mpi/datatype.hpp", "src/ovxx/parallel/assign_chain.hpp", "src/ovxx/parallel/assign_block_vector.hpp", "src/ovxx/parallel/copy_chain.cpp"],
 [("non-blocking send, receive, wait order", "src/ovxx/parallel/assign_chain.hpp"), ("buffered sends", "src/ovxx/mpi/communicator.hpp")],
 [("request lists", "outstanding sends", "src/ovxx/parallel/assign_chain.hpp")],
 ["MPI calls made by each process"])

prop("C04", "Distributed expressions, reductions and element access equal the serial result",
 "Evaluating an expression over distributed operands, reducing a distributed view (sums, means, minimum and maximum with index, logical reductions), reading or writing single elements, taking subviews, transposes, or vector-matrix products of distributed views gives on every process the value the same program gives on serial views, for every combination of maps the library accepts and every process count. Each process returns the same result of a reduction or a single-element read.",
 ["configurations", "inputs", "schedules"], "all operand map combinations, operations and process counts up to the bound",
 "Tests cover a few expressions with a fixed map on two processes; operand maps that differ from each other and from the destination, and more than two processes, are not covered.",
 ["src/ovxx/parallel/expr.hpp", "src/ovxx/parallel/distributed_block.hpp", "src/ovxx/reductions/reductions.hpp", "src/vsip/impl/vmmul.hpp", "src/ovxx/parallel/support.hpp"],
 [("expression reorganisation to the destination map", "src/ovxx/parallel/expr.hpp"), ("broadcast element read", "src/ovxx/parallel/distributed_block.hpp"), ("cross-process combination of partial reductions", "src/ovxx/reductions")],
 observe=["values returned on each process"])

prop("C05", "Library initialisation and finalisation balance over any history",
 "However many library objects are created and destroyed, in whatever nesting order and from however many threads, the message-passing layer is initialised once before first use and finalised once after the last object is gone, and only if the library initialised it. Each thread's default allocator and communicator stay usable while that thread holds a library object, and every resource is released exactly once.",
 ["histories", "schedules"], "all create/destroy histories and thread interleavings up to the bound",
 "The init/finalise test runs one history in one thread; overlapping lifetimes from several threads are never run.",
 ["src/ovxx/library.cpp", "src/ovxx/mpi/service.cpp", "src/ovxx/allocator.cpp", "src/vsip/initfin.hpp"],
 [("global and per-thread counts", "src/ovxx/library.cpp")],
 [("global_count", "live library objects", "src/ovxx/library.cpp"), ("local_count", "live library objects of the thread", "src/ovxx/library.cpp")],
 ["MPI_Init/Finalize/Buffer calls, allocator lifetime"])

prop("C06", "User storage and block data stay coherent over admit, release and rebind",
 "For every sequence of construct, admit, release, rebind, find, read and write operations on a block bound to user storage, a block that is admitted with update holds the user's values, a block released with update leaves its current values in the user's storage, and without update neither side is copied. The pointers, storage format and admission state the block reports are those of the last bind, for array, interleaved and split user storage in any dimension order; user storage the block no longer owns is never touched again.",
 ["histories", "inputs"], "all operation sequences up to the depth bound, over all user formats and block layouts",
 "Tests follow a few fixed sequences per format; stale-copy and double-admit histories, format changes on rebind and partial updates need every ordering.",
 ["src/vsip/dense.hpp", "src/ovxx/storage/block.hpp", "src/ovxx/storage/user.hpp", "src/ovxx/storage/manager.hpp", "src/ovxx/storage/host.hpp"],
 [("admit/release with or without update", "src/ovxx/storage/block.hpp"), ("user storage formats", "src/ovxx/storage/user.hpp")],
 [("admitted_", "data is owned by the library", "src/ovxx/storage"), ("user storage", "bound pointers", "src/ovxx/storage/user.hpp")],
 ["admit, release, find, rebind, get, put"])

prop("C07", "Every view of a block addresses exactly the elements it names",
 "Any composition of subviews, strided and reversed sub-domains, rows, columns, diagonals, planes, transposes, dimension permutations and real or imaginary parts of a view reads and writes exactly the elements of the original that the composition names: reading through it gives their current values, writing through it changes them and nothing else, and sizes agree. This holds for every dimension order, storage format and packing of the underlying block, through element access, whole-view assignment and direct data access.",
 ["inputs", "programs"], "all compositions of view operations up to the depth bound over all small shapes and layouts",
 "Tests exercise single subviews of fixed shapes; composed subviews with negative strides and permutations on non-default layouts are sampled at best.",
 ["src/ovxx/expr/subset.hpp", "src/ovxx/expr/sliced.hpp", "src/ovxx/expr/transposed.hpp", "src/ovxx/expr/permuted.hpp", "src/ovxx/expr/diag.hpp", "src/ovxx/expr/component.hpp", "src/vsip/vector.hpp", "src/vsip/matrix.hpp", "src/vsip/tensor.hpp"],
 [("index translation of view blocks", "src/ovxx/expr/subset.hpp"), ("layout and offset for direct data access", "src/ovxx/expr/sliced.hpp")],
 observe=["get, put, operator(), direct data access pointers and strides"])

prop("C08", "Assignment copies all and only the named elements, whatever the layouts",
 "Assigning a view or scalar to a view copies each element to the same index of the destination for every combination of element types, dimension orders, packing, storage formats (interleaved or split complex), strides, alignments and shapes, including transposing and format-changing copies. Elements of the underlying storage outside the destination view, including padding neighbours and surrounding memory, keep their values and the source is unchanged.",
 ["inputs", "configurations"], "all source/destination layout pairs, strides and shapes up to the bound",
 "Tests use a few size and layout pairs; the dispatch picks different kernels by stride, order, density and alignment, and each pair must be right at every size.",
 ["src/ovxx/assign.hpp", "src/ovxx/assign/copy.hpp", "src/ovxx/assign/loop_fusion.hpp", "src/ovxx/assign/rbo.hpp", "src/ovxx/dispatcher/dispatcher.hpp"],
 [("backend selection by layout", "src/ovxx/assign.hpp"), ("copy and transpose kernels", "src/ovxx/assign/copy.hpp")],
 observe=["every element of source, destination and surrounding storage"])

prop("C09", "Direct data access shows a view in the requested layout and syncs it back",
 "While a direct data access object exists for a view, its pointer, strides and sizes address the view's elements in the requested dimension order, packing and complex format, holding the view's values when the access policy reads. When it ends, or is synchronised explicitly, values written through the pointer are in the view if and only if the policy writes, no other element changes, and user-supplied buffers are used when given.",
 ["inputs", "configurations", "histories"], "all block layouts x requested layouts x sync policies x shapes, and sync/release histories up to the bound",
 "Tests fix a few layout pairs; whether a copy is needed is decided from strides, packing, alignment and format jointly.",
 ["src/vsip/dda.hpp", "src/ovxx/dda/accessor.hpp", "src/ovxx/dda/block_copy.hpp", "src/ovxx/dda/runtime.hpp", "src/ovxx/dda/persistent.hpp", "src/ovxx/layout.hpp", "src/ovxx/adjust_layout.hpp"],
 [("access cost decision", "src/ovxx/dda/accessor.hpp"), ("copy in and out", "src/ovxx/dda/block_copy.hpp")],
 [("need_copy", "whether a temporary is used", "src/ovxx/dda/accessor.hpp")],
 ["pointer, stride, size, and view contents afterwards"])

prop("C10", "Reductions equal their mathematical definition for every view",
 "Every reduction (sum, sum of squares, mean, mean square, all/any true, minimum and maximum value and magnitude) of a view equals its definition over exactly the view's elements, whatever the view's dimensions, dimension order, strides or expression form. Index-returning reductions return an index whose element is the extremum they return.",
 ["inputs"], "all value patterns over a small alphabet x shapes x layouts up to the bound",
 "Tests reduce a few ramps; the position and repetition of the extremum and the traversal order of each layout need all patterns.",
 ["src/ovxx/reductions/reductions.hpp", "src/ovxx/reductions/reductions_idx.hpp", "src/ovxx/reductions/functors.hpp"],
 [("per-order traversal", "src/ovxx/reductions/reductions_idx.hpp"), ("accumulate and early exit", "src/ovxx/reductions/functors.hpp")],
 observe=["returned value and index"])

prop("C11", "FIR filtering is invariant to framing, copying and resetting",
 "Feeding a signal through a FIR filter object frame by frame gives the same outputs as filtering the whole signal at once: each output is the decimated convolution of everything since construction or the last reset, for every kernel symmetry, length, decimation and frame size. A filter that does not save state treats every frame as the first; copies of a filter continue independently from the state at the moment of copying.",
 ["histories", "inputs"], "all histories of apply, reset, copy, assign up to the bound over all kernel lengths, decimations and frame sizes up to the bound",
 "Tests run one long history per configuration; carry-over state, decimation phase and copies interact only over multi-step histories.",
 ["src/ovxx/signal/fir.hpp", "src/vsip/impl/signal/fir.hpp"],
 [("saved state and decimation phase", "src/ovxx/signal/fir.hpp")],
 [("state_", "tail of the previous input", "src/ovxx/signal/fir.hpp"), ("skip_", "decimation phase", "src/ovxx/signal/fir.hpp")],
 ["output values and returned count"])

prop("C12", "IIR filtering is invariant to framing, copying and resetting",
 "An IIR filter object computes the cascade of its second-order sections; with saved state, consecutive frames give the same outputs as one long frame, and copies continue independently from the state at the moment of copying. After a reset, or when it does not save state, each frame is filtered from zero state.",
 ["histories", "inputs"], "all histories of apply, reset, copy, assign up to the bound over section counts and coefficient alphabets",
 "Tests run a single fixed history; state isolation between copies needs histories.",
 ["src/vsip/impl/signal/iir.hpp"], [("per-section delay line", "src/vsip/impl/signal/iir.hpp")],
 [("w_", "delay line", "src/vsip/impl/signal/iir.hpp")], ["output values"])

prop("C13", "Convolution and correlation equal their definition for every geometry",
 "A convolution object yields, for every kernel symmetry, support region, kernel and input size and decimation, exactly the defined samples and the defined number of them, in one and two dimensions; a correlation object yields, for every support region, bias mode and size, the defined correlation. Objects can be applied repeatedly to different inputs and strided views with the same result.",
 ["inputs", "configurations"], "all kernel/input sizes, symmetries, supports, decimations and biases up to the bound, on a basis of inputs",
 "Tests check selected sizes; the edge handling differs by parity and by which of the sizes divide.",
 ["src/ovxx/signal/conv.hpp", "src/ovxx/signal/corr.hpp", "src/vsip/impl/signal/conv.hpp", "src/vsip/impl/signal/corr.hpp"],
 [("kernel unfolding, output sizes, edge loops", "src/ovxx/signal/conv.hpp"), ("edge scaling", "src/ovxx/signal/corr.hpp")],
 observe=["output sizes and values"])

prop("C14", "FFT objects compute the DFT for every size, layout and way of calling",
 "Every FFT and multiple-FFT object (complex and real transforms, forward and inverse, one to three dimensions, either axis, any scale) computes the discrete Fourier transform of its input with the requested scaling, for every size, input and output layout, stride and storage format, by value, by reference or in place. The input of an out-of-place call is unchanged, nothing outside the output is written, and reuse gives the same results.",
 ["inputs", "configurations"], "all sizes x layouts x calling conventions up to the bound, on a basis of inputs",
 "Tests use selected sizes and random data; layout-dependent copying, in-place aliasing and half-spectrum handling vary with size parity and strides.",
 ["src/ovxx/signal/fft.hpp", "src/ovxx/signal/fft/workspace.hpp", "src/ovxx/signal/fft/backend.hpp", "src/ovxx/fftw/fftw.cpp", "src/ovxx/fftw/fft.cpp", "src/ovxx/signal/fft/dft.hpp", "src/vsip/impl/signal/fft.hpp"],
 [("layout negotiation and workspace copies", "src/ovxx/signal/fft/workspace.hpp"), ("FFTW plans", "src/ovxx/fftw/fftw.cpp")],
 observe=["output values, input preservation"])

prop("C15", "Linear solvers satisfy their defining equations over any call history",
 "After a successful decomposition, every solve or product with an LU, Cholesky, QR or SVD object satisfies the defining equation of the requested variant (plain, transposed, Hermitian; left or right; full, reduced or no Q storage; upper or lower) for the most recently decomposed matrix, whatever was decomposed or solved before and whether the object was copied or assigned. Least-squares, covariance and Toeplitz solvers return the solution of their defining system for any view layout, and inputs they are not documented to overwrite are unchanged.",
 ["inputs", "histories"], "all variants, sizes and layouts up to the bound over a family of matrices, and decompose/solve/copy histories up to the bound",
 "Tests use a few matrices per solver; variant combinations, rectangular shapes, re-decomposition and copying are only partly exercised.",
 ["src/ovxx/lapack/lu.hpp", "src/ovxx/lapack/qr.hpp", "src/ovxx/lapack/cholesky.hpp", "src/ovxx/lapack/svd.hpp", "src/vsip/impl/solver/toepsol.hpp", "src/vsip/impl/solver/llsqsol.hpp", "src/vsip/impl/solver/covsol.hpp"],
 [("LAPACK drivers and storage handling", "src/ovxx/lapack/qr.hpp")],
 [("data_", "current factorisation", "src/ovxx/lapack/lu.hpp")], ["returned matrices"])

prop("C16", "Element-wise functions and expressions equal element-by-element evaluation",
 "Every element-wise function and operator applied to views and scalars, in any nesting, assigned or compound-assigned to any view, gives at each index the value of the scalar function applied to the operands' elements at that index, with the result type's conversion rules, independent of how the evaluation is fused or dispatched. User-supplied element functions are applied exactly as given, and operands other than the destination are unchanged.",
 ["programs", "inputs"], "all expression trees up to the depth bound over operand kinds, types, layouts and sizes up to the bound",
 "Tests check functions one at a time on one layout; dispatch picks specialised kernels for particular tree shapes (fused multiply-add, scalar operands, broadcasts).",
 ["src/ovxx/expr/unary.hpp", "src/ovxx/expr/binary.hpp", "src/ovxx/expr/ternary.hpp", "src/ovxx/expr/operations.hpp", "src/ovxx/view/fns_elementwise.hpp", "src/ovxx/view/operators.hpp", "src/ovxx/view/functors.hpp", "src/ovxx/math/scalar.hpp", "src/ovxx/assign/loop_fusion.hpp", "src/vsip/impl/fns_userelt.hpp"],
 [("lazy expression blocks", "src/ovxx/expr/binary.hpp"), ("fused evaluation", "src/ovxx/assign/loop_fusion.hpp")],
 observe=["destination values"])

prop("C17", "Random generators give one reproducible stream, however it is consumed",
 "A random generator is a deterministic function of its seed, number of subsequences, subsequence id and portability flag. Filling a vector, matrix or tensor draws the same numbers, in the element order of the destination (its dimension order), as the same number of scalar draws, any mix of uniform and normal draws advances the same stream, and in the non-portable mode the subsequences interleave to the single-sequence stream while in the portable mode they start at evenly spaced positions of it.",
 ["histories", "inputs", "configurations"], "all draw histories up to the depth bound over seeds, ids, subsequence counts and element types",
 "Tests compare one history against stored values; the jump-ahead arithmetic and mixed histories are not covered.",
 ["src/vsip/random.hpp"], [("linear congruential step and jump-ahead", "src/vsip/random.hpp")],
 [("X_, X1_, X2_", "generator state", "src/vsip/random.hpp")], ["draws"])

prop("C18", "Matrix and vector products equal their definition for every layout",
 "Dot, outer and Kronecker products, generalised matrix product and sum, matrix-vector, vector-matrix and matrix-matrix products including transposed, Hermitian and conjugated forms, the special 3x3 and 4x4 products, vector-matrix element products, transposition, cumulative sums, traces and model updates equal their mathematical definition for every operand size, dimension order, stride and element type. Operands are unchanged.",
 ["inputs", "configurations"], "all sizes, layouts, strides and element types up to the bound",
 "Tests use selected sizes; the BLAS dispatch depends on order, stride and leading dimension, where each combination picks different transposition flags.",
 ["src/vsip/impl/matvec.hpp", "src/vsip/impl/matvec_prod.hpp", "src/vsip/impl/vmmul.hpp", "src/ovxx/lapack/blas.hpp", "src/ovxx/expr/vmmul.hpp"],
 [("BLAS argument selection", "src/ovxx/lapack/blas.hpp"), ("generic loops", "src/vsip/impl/matvec.hpp")],
 observe=["result values"])

prop("C19", "Selection, generation, histogram, swap and window functions match definitions",
 "first, indexbool, gather, scatter, ramp, clip, invclip, swap, histograms (with and without accumulation), frequency swap (in place or not) and the window generators produce what their definitions say for every size, view layout and argument relation, and write nothing else. Gather after scatter with distinct indices returns the scattered values.",
 ["inputs", "histories"], "all boolean patterns, index lists, sizes, layouts and thresholds up to the bound",
 "Tests use one example of each; parity, boundary and in-place cases vary with size and layout.",
 ["src/vsip/selgen.hpp", "src/vsip/impl/signal/histo.hpp", "src/ovxx/signal/freqswap.hpp", "src/vsip/impl/signal/freqswap.hpp", "src/ovxx/signal/window.cpp"],
 [("cursor and bound handling", "src/vsip/selgen.hpp"), ("quadrant exchange", "src/ovxx/signal/freqswap.hpp"), ("bin selection", "src/vsip/impl/signal/histo.hpp")],
 observe=["returned values, indices, destination contents"])

prop("C20", "Domain and layout arithmetic enumerates exactly the intended index sets",
 "Domain arithmetic, comparison, intersection, composition and normalisation agree with the set of indices a domain denotes, for every first index, stride (negative included) and length; equal domains denote equal index sequences up to direction. Every applied layout (dimension order, packing, alignment) maps distinct indices to distinct storage offsets within its stated total size, and index traversal visits each index exactly once.",
 ["inputs"], "all domains with small first index, stride and length, all pairs; all layouts of small shapes",
 "Tests check a few domains; intersection of strided and negative domains and packing arithmetic need all pairs.",
 ["src/vsip/domain.hpp", "src/ovxx/domain_utils.hpp", "src/ovxx/layout.hpp", "src/ovxx/length.hpp", "src/ovxx/vertex.hpp", "src/ovxx/expr/traversal.hpp"],
 [("domain operators", "src/vsip/domain.hpp"), ("intersect, first, next and valid", "src/ovxx/domain_utils.hpp"), ("stride computation", "src/ovxx/layout.hpp")],
 observe=["index sets"])

prop("C21", "Blocks live exactly as long as something refers to them",
 "For every history of creating, copying, assigning, taking subviews of, and destroying views, reference-counted handles and objects holding them, from one or several threads, a block's storage is released exactly once, when its last reference goes, and never while any view or subview of it is usable. Copying a view shares data, assigning a view copies data, and a self- or null-assignment of a handle is harmless.",
 ["histories", "schedules"], "all histories up to the depth bound, and all interleavings of small multi-thread histories",
 "Tests do a handful of copies in one thread; lifetime bugs need particular orders of destruction or concurrent release.",
 ["src/ovxx/refcounted.hpp", "src/ovxx/view/view.hpp", "src/ovxx/storage/manager.hpp", "src/ovxx/allocator.cpp", "src/ovxx/pointer.hpp"],
 [("atomic reference count", "src/ovxx/refcounted.hpp")], [("count_", "number of references", "src/ovxx/refcounted.hpp")],
 ["allocator calls, destructor calls"])

prop("C22", "Allocators hand out disjoint memory and reuse all of it",
 "For every sequence of allocations and deallocations, memory handed out by the library's allocators (aligned heap and huge-page pool) lies inside the memory the allocator owns, is aligned as requested, and never overlaps memory still in use. After everything is returned, the whole pool can be allocated again as one piece, and exhaustion is reported as an allocation failure, not corruption.",
 ["histories"], "all allocate/deallocate sequences up to the depth bound over a set of sizes",
 "No test exercises the pool (it needs huge pages); free-list splitting and merging need every order of release.",
 ["src/ovxx/huge_page_allocator.cpp", "src/ovxx/huge_page_allocator.hpp", "src/ovxx/aligned_allocator.hpp", "src/ovxx/allocator.cpp", "src/ovxx/allocator.hpp", "src/ovxx/aligned_array.hpp"],
 [("address-ordered free list with merging", "src/ovxx/huge_page_allocator.cpp")],
 [("free_", "head of the free list", "src/ovxx/huge_page_allocator.cpp"), ("total_avail_", "free bytes", "src/ovxx/huge_page_allocator.cpp")],
 ["allocate, deallocate"])

prop("C23", "Serialised descriptors rebuild an equal view or are rejected",
 "The descriptor of a block's data states its value type, shape, storage format, strides and storage size, and rebinding a block that reports itself compatible to data described so reproduces every element at the same index. A block reports itself compatible only if value type, dimension count and memory layout match.",
 ["inputs", "configurations"], "all pairs of writer and reader block types (value types, dimensions, orders, formats) and small shapes",
 "The test round-trips a few block types; false acceptance of a mismatched layout needs all pairs.",
 ["src/vsip/serialization.hpp", "src/vsip/dense.hpp", "src/ovxx/storage/user.hpp"],
 [("compatibility predicate", "src/vsip/serialization.hpp")], observe=["Descriptor fields, is_compatible, values after rebind"])

prop("C24", "Python blocks address the same elements as the numpy view",
 "Through the compiled Python modules, every block obtained from another by slicing, taking a row, column, diagonal, real or imaginary part, at any nesting, shares the parent's storage and addresses exactly the elements the corresponding numpy view addresses: reads, writes, in-place arithmetic, assignment, copies and the exposed arrays agree with it, for every element type. Arrays and derived blocks keep the data alive.",
 ["inputs", "histories"], "all chains of derivations and accesses up to the depth bound, per element type",
 "No stable test covers the bindings; offsets and strides only interact when derivations are nested.",
 ["src/ovxx/python/block.hpp", "python/src/block_api.hpp", "python/src/_block_d.cpp", "src/ovxx/python/converter.hpp"],
 [("sub-blocks hold offset and strides of the shared storage", "src/ovxx/python/block.hpp")], observe=["Values through block methods and through the exposed arrays"])

prop("C25", "Objects and functions on distributed operands give the serial result",
 "A convolution, correlation, FIR or IIR filter, decomposition or solver object, and every matrix, selection or generation function that accepts distributed views, gives the result it gives for local operands, on every rank, whatever block or replicated distributions input, output and kernel have. Inputs are left unchanged and every rank returns.",
 ["inputs", "configurations"], "all pairs of distributions of the operands on 1 to 3 ranks, per function and shape",
 "The serial tests of these objects never use distributed views; the data must be gathered from and scattered to every combination of distributions.",
 ["src/ovxx/dda/accessor.hpp", "src/ovxx/parallel/assign_local.hpp", "src/ovxx/signal/conv.hpp", "src/vsip/impl/signal/iir.hpp", "src/vsip/selgen.hpp"],
 [("direct access to distributed data works on a gathered copy", "src/ovxx/dda/accessor.hpp")], observe=["Values of every operand on every rank"])

prop("C26", "Python functions and objects agree with numpy on derived blocks",
 "The functions and objects of the compiled Python modules (element-wise operations, products, reductions, clipping, frequency swap, Fft, Fftm, convolution, correlation, FIR and IIR filters, solvers) compute what numpy computes from the same elements, wherever the blocks passed for arguments and results lie: whole blocks, slices with any step, rows, columns, diagonals, real or imaginary parts. They change no element but those of the result.",
 ["inputs", "configurations"], "all combinations of placements of arguments and results, per function and small shape",
 "No stable test runs the bindings; a function that ignores the stride or offset of a block is right for whole blocks.",
 ["python/src/math/elementwise.hpp", "python/src/math/matvec_api.hpp", "python/src/math/reductions.hpp", "python/src/selgen/clip.hpp", "python/src/signal/fft.hpp", "python/src/signal/fftm.hpp", "python/src/signal/conv.hpp", "python/src/math/solvers/solvers.hpp", "src/ovxx/python/block.hpp"],
 [("views of Python blocks hand offset and strides to the library", "src/ovxx/python/block.hpp")], observe=["Returned values and all elements of all blocks involved"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
