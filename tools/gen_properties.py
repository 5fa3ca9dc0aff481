#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
C = "eisvogel/core/impl/"
D = C + "DistributedNDVecArray.hxx"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=hook)))

prop("P01", "A distributed array always reads back exactly what was written into it",
     "After any sequence of chunk registrations, slice appends (along any axis), element reads, region reads, flushes and further operations, "
     "reading an element or a rectangular region of a distributed array returns, for every index covered by a chunk, exactly the value most recently written there. "
     "The result does not depend on the cache depth, on which chunks happen to be cached, on the order of reads, or on the layout used on disk.",
     ["histories", "configurations"],
     "all interleavings of register/append/read/flush over all cache depths (including 0), chunk layouts, data mixes (zero and non-zero) and streamer layouts the array accepts",
     "The tests run one write-everything-then-read-everything script with one or two cache depths; the bugs live in the interaction of cache status (clean, to serialize, to append), eviction and re-reading, which needs specific histories.",
     [D, C + "DistributedNDVecArray.hh", C + "Cache.hxx", C + "NDVecArrayStreamer.hxx"],
     [("write-back chunk cache", D + ": ChunkCache::RegisterNewChunk / RetrieveChunk / AppendSlice"),
      ("eviction and synchronisation with disk", D + ": ChunkCache::descope_cache_element / sync_cache_element_with_disk"),
      ("region reads", D + ": ChunkLibrary::FillArray / operator[]")],
     [("cache entry status", "clean, to be serialized, or to be appended along an axis", C + "DistributedNDVecArray.hh: CacheStatus"),
      ("chunk index", "which chunk covers which index range", D + ": ChunkIndex")],
     ["DistributedNDVecArray::operator[]", "DistributedNDVecArray::FillArray"])

prop("P02", "Flushed or closed arrays survive reopening, later writes and a crash",
     "Whatever a distributed array contained when it was last flushed or properly closed is found again, chunk by chunk and value by value, when a new array object is opened on the same directory, and the reopened array accepts further writes without affecting what was there. "
     "If the process dies after a flush, everything registered up to that flush is still readable, whatever reads, registrations of new chunks, or cache evictions happened in between.",
     ["histories", "crash_points", "configurations"],
     "all histories with any number of close/reopen cycles and process deaths between operations, for any cache depth",
     "Tests write once and reopen read-only at most once; nothing reopens and then continues to write, and no test kills the process.",
     [D, C + "DefaultSerializationTraits.hxx", C + "NDVecArrayStreamer.hxx"],
     [("index persistence", D + ": ChunkIndex::FlushIndex / load_and_rebuild_index"),
      ("chunk persistence", D + ": ChunkCache::FlushCache / descope_cache_element")],
     [("index.bin", "list of chunk descriptions", D + ": ChunkIndex::FlushIndex"), ("*.chunk", "chunk data", D + ": ChunkCache::get_abs_path")],
     ["files in the array's directory", "reopened array contents"])

prop("P03", "Moving and importing arrays neither loses nor alters data",
     "Moving an array to another directory leaves its contents and later behaviour unchanged and removes the old directory; importing another array adds exactly that array's chunks to the existing ones, leaving both the previous contents and, unless asked to move, the imported directory intact. "
     "Any number of imports, in any order and mixed with writes, yields the union of all contents.",
     ["histories", "configurations"],
     "all histories combining writes, moves, copy-imports and move-imports of separately produced arrays",
     "Tests import at most once into an empty array and never continue writing afterwards.",
     [D], [("import with re-numbering", D + ": ChunkIndex::ImportIndex, ChunkCache::ImportCache"), ("move", D + ": ChunkLibrary::MoveLibrary, ChunkCache::MoveCache, ChunkIndex::MoveIndex")],
     [("chunk ids", "must stay unique after merging", D + ": ChunkIndex::get_next_chunk_id")], ["contents after Move/Import", "directory listings"])

prop("P04", "Rechunking preserves contents and fills overlaps correctly",
     "Rebuilding an array (or a region of it) with any requested chunk shape and overlap yields chunks that tile the requested region exactly, hold exactly the original values, and whose overlap margins hold the original neighbouring values wherever these exist. "
     "The boundary evaluator is asked for precisely those margin elements that lie outside the original array and its answer is what ends up there; a partial rebuild leaves the source unchanged and places its output at the requested start index.",
     ["inputs", "configurations", "histories"],
     "all array shapes, chunkings, requested chunk shapes (including ones that do not divide the array), overlaps, sub-regions, output shifts and preceding histories",
     "Tests cover a few cubic cases with one overlap value and compare only the interior; margins, corners, and uneven remainders are not checked.",
     [D, C + "IteratorUtils.hh"], [("rebuild", D + ": DistributedNDVecArray::RebuildChunksPartial / RebuildChunks"), ("boundary elements", D + ": index_loop_over_penetrating_chunk_elements")],
     [("overlap", "margin width stored with every chunk", C + "DistributedNDVecArray.hh: ChunkMetadata")],
     ["rebuilt array contents", "chunk files of the rebuilt array", "calls to the boundary evaluator"])

prop("P05", "Swapping two axes transposes the array and nothing else",
     "After swapping two axes of a distributed array, the value at an index equals the value previously found at the index with those two coordinates exchanged, the reported shape is exchanged accordingly, and further writes, appends, reopening and swapping back behave as if the array had been created in that order.",
     ["histories", "configurations"],
     "all chunk layouts (including ones whose swapped footprint overlaps other chunks' old footprint), any pair of axes, any cache depth and any preceding or following history",
     "A single test swaps once on a freshly written cube with one cache depth.",
     [D, C + "NDVecArray.hxx"], [("swap", D + ": ChunkLibrary::SwapAxes / map_over_chunks, ChunkIndex::Map, ChunkCache::ReplaceChunk"), ("dense transpose", C + "NDVecArray.hxx: SwapAxes")],
     [], ["operator[] / FillArray / GetShape after SwapAxes", "reopened array"])

prop("P06", "The reported array shape is the exact extent of contiguous data",
     "At any time the reported shape of a distributed array equals the extent of its bounding box if its chunks fill that box without gaps, and is zero in every direction otherwise (including for an empty array); it reflects every completed registration, append, import, rebuild and swap, and an append is rejected without any effect when the slice does not fit the chunk it is meant to extend.",
     ["histories", "inputs"],
     "all histories of operations, with the shape queried between any two of them, over arrays with gaps and offsets",
     "Tests query the shape at the end of complete builds only, so a stale or miscounted shape in between is never seen.",
     [D], [("shape cache and invalidation", D + ": ChunkIndex::calculate_and_cache_index_metadata / invalidate_cached_index_metadata"), ("shape check", C + "NDVecArray.hxx: ShapeAllowsConcatenation")],
     [("cached shape", "valid until the index changes", D + ": ChunkIndex")], ["DistributedNDVecArray::GetShape"])

prop("P07", "The all-zero optimisation is invisible except in what is stored",
     "Requesting the all-zero optimisation when registering or rebuilding chunks changes no value that can be read through any operation, now or after reopening, moving, importing or swapping axes; only chunks whose every value is zero are recorded without a data file, and asking to append to such a chunk is rejected.",
     ["histories", "inputs", "configurations"],
     "all mixes of zero, partly zero and non-zero chunks, with and without overlap, and all later operations on them",
     "One test registers zero chunks and reads them back immediately from the cache; evicted, overlapping, swapped or imported zero chunks are not reached.",
     [D, C + "NDVecArray.hxx"], [("zero detection", C + "NDVecArray.hxx: IsAllNull"), ("typed chunks", D + ": ChunkLibrary::RegisterChunk, ChunkCache::deserialize_into_cache, ChunkLibrary::FillArray")],
     [("chunk type", "specified or all-zero", C + "DistributedNDVecArray.hh: ChunkType")], ["reads", "number of data files"])

prop("P08", "Chunk-aware iteration visits every element exactly once",
     "Looping over all elements of a contiguous array that starts at the origin calls the worker exactly once per index of the array, with the value stored there, for any chunking, overlap, zero-optimised chunks and cache depth, and overlap margins are never reported as elements.",
     ["configurations", "histories"],
     "all chunk layouts and overlaps of contiguous arrays, any cache depth, any preceding history",
     "Tests sum or compare over one regular layout; duplicates or misses in irregular layouts would not be noticed.",
     [D], [("loop", D + ": ChunkLibrary::index_loop_over_elements"), ("range query", C + "RStarTree.hxx: Search(start, end)")],
     [], ["worker invocations of index_loop_over_elements"])

prop("P09", "The cache keeps exactly the most recently used entries",
     "A cache of fixed depth contains exactly the entries inserted and not evicted, each with the payload last stored for it; accessing or inserting an entry makes it the most recent one, evicting from a full cache always removes the least recently used one, and both iteration orders list the contained entries by recency.",
     ["histories", "configurations"],
     "all sequences of insert, access, targeted evict, evict-oldest and iteration for any depth",
     "There is no direct cache test; the array tests only see the cache through results that are correct even when the wrong entry is evicted.",
     [C + "Cache.hxx", C + "Cache.hh"], [("linked slots", C + "Cache.hxx: get / insert / evict / evict_oldest_from_full_cache")],
     [("slot order", "recency list over the slots", C + "Cache.hh")], ["contains / get / contained_elements / loop_over_elements_*"])

prop("P10", "Memory pool slots are never shared, lost or relocated by index",
     "Every slot handed out by the memory pool is distinct from all slots currently in use, keeps the value stored in it until it is released (also when the pool grows), and released slots become available again; listing the pool yields exactly the slots in use.",
     ["histories"],
     "all sequences of allocate, release, write, list and reset, across any number of growths",
     "The spatial-index tests allocate monotonically and hardly ever release.",
     [C + "RStarTree.hxx", C + "RStarTree.hh"], [("free list", C + "RStarTree.hxx: MemoryPool::get_empty_slot_front / free_slot / grow")],
     [("free and allocated lists", "doubly linked through the slots", C + "RStarTree.hh: MemoryPool")], ["pool contents"])

prop("P11", "Spatial lookups return exactly the matching entries",
     "For any set of non-overlapping boxes inserted in any order (and later resized), looking up a point returns the box containing it, or nothing if there is none, and looking up a region returns each box intersecting the region exactly once and no other box. "
     "This holds regardless of the lookups made before, of the number of entries, and after rebuilding the index in bulk or clearing it.",
     ["histories", "inputs"],
     "all insertion orders, resize sequences and query interleavings, with enough entries to force splits and forced re-insertions at several levels",
     "The test inserts one random grid once and queries points, with no interleaved updates.",
     [C + "RStarTree.hxx"], [("search", C + "RStarTree.hxx: Search"), ("insertion, split, re-insertion", C + "RStarTree.hxx: InsertElement, split, reinsert"), ("bounding box update", C + "RStarTree.hxx: UpdateBoundingBox")],
     [("last accessed entry", "memo that must never return a stale match", C + "RStarTree.hh")], ["Search(point)", "Search(start, end)", "GetAllEntries"])

prop("P12", "The spatial index stays a well-formed balanced tree",
     "After any sequence of insertions, resizes and bulk rebuilds, all entries sit at the same depth, each appears exactly once, every node stays within its maximum fan-out and every node's box encloses all entries and nodes below it; the overall bounding box is the exact hull of the entries.",
     ["histories", "inputs"],
     "all insertion orders and resize sequences with enough entries for several tree levels",
     "Tests look only at lookup results for one insertion order; structural decay shows up as lost entries only for special histories.",
     [C + "RStarTree.hxx"], [("overflow treatment", C + "RStarTree.hxx: overflow_treatment / split / reinsert"), ("bulk load", C + "RStarTree.hxx: RebuildSTR")],
     [("tree", "nodes and entries with bounding boxes", C + "RStarTree.hh")], ["DumpJSONTreeStructure", "GetBoundingBox"])

prop("P13", "Streamed arrays round-trip, also when extended in place",
     "An array written to a stream, in either storage mode and for any supported on-disk layout, and extended by any number of slices along an axis the layout supports, reads back as the concatenation of everything written. "
     "Extensions that the layout cannot represent, that do not fit in shape, or that come after the data were marked final are rejected and leave the stored array readable and unchanged, and several arrays in one file do not disturb each other when read in order.",
     ["inputs", "histories", "configurations"],
     "all shapes, data with any pattern of zero vectors, on-disk layouts, storage modes and append sequences",
     "The test appends in one layout along one axis; rejected or unsupported combinations, run boundaries of zero vectors and odd remainders are unreached.",
     [C + "NDVecArrayStreamer.hxx", C + "NDVecArraySerialization.hh"],
     [("write", C + "NDVecArrayStreamer.hxx: serialize_all_chunks_*"), ("extend", C + "NDVecArrayStreamer.hxx: append_slice"), ("zero suppression", C + "NDVecArraySerialization.hh: null_suppressed")],
     [("header", "layout, shape and access mode", C + "NDVecArrayStreamer.hh")], ["deserialize after serialize/append_slice/mark_as_final"])

prop("P14", "The on-disk format is stable and portable",
     "The bytes written for a streamed array, a chunk index entry and the metadata of a Green's function follow one fixed, machine-independent layout (big-endian 64-bit integers and IEEE-754 floats, header, then segments in a fixed order with runs of zero vectors stored as one zero vector and a count), so that files written earlier remain readable and new files are readable by earlier versions.",
     ["inputs", "configurations"],
     "all shapes, on-disk layouts, zero patterns and storage modes, judged byte for byte",
     "All tests write and read with the same code, so a change made on both sides goes unnoticed.",
     [C + "DefaultSerializationTraits.hxx", C + "NDVecArrayStreamer.hxx", C + "NDVecArraySerialization.hh", D],
     [("element encoding", C + "DefaultSerializationTraits.hxx"), ("segment encoding", C + "NDVecArraySerialization.hh")],
     [], ["file bytes", "hand-built files read by the library"])

prop("P15", "The signal is the discretised convolution, however it is computed",
     "The signal accumulated for a current segment equals the trapezoidal convolution sum of the interpolated Green's function with the segment's current, for every output sample. "
     "It does not depend on how the Green's function is divided into chunks, on which chunks are zero-optimised, on the cache depth, or on the internal blocking of samples and integration steps.",
     ["configurations", "inputs"],
     "all chunkings, cache depths and sample/step counts (below, at and beyond the internal block sizes) and all segments inside the domain",
     "Tests compare against an analytic field at percent-level tolerance for one chunking and would hide dropped or doubled block boundaries.",
     [C + "GreensFunction.hxx", C + "Quadrature.hh", C + "Interpolation.hxx"],
     [("blocked accumulation", C + "GreensFunction.hxx: apply_accumulate"), ("chunk walk", C + "GreensFunction.hxx: accumulate_inner_product"), ("weights", C + "Quadrature.hh")],
     [], ["signal vector"])

prop("P16", "Signals are causal, additive and linear",
     "A segment contributes nothing to signal samples earlier than its start; computing into a signal adds to what is already there; and splitting a segment into consecutive pieces at integration points, or scaling its charge or weight, changes the result exactly as the convolution sum prescribes.",
     ["inputs", "histories"],
     "all signal windows, segment start times, splits, and orders of accumulation",
     "Tests accumulate a single segment into a zero signal and start it at a fixed time.",
     [C + "GreensFunction.hxx"], [("causal start sample", C + "GreensFunction.hxx: apply_accumulate"), ("accumulation", C + "GreensFunction.hxx: accumulate_inner_product")],
     [], ["signal vector before and after"])

prop("P17", "Parts of a track outside the Green's function are handled as requested",
     "When a track leaves the region covered by the Green's function's chunks, the ignoring mode contributes nothing for the pairs of integration point and sample that fall outside and exactly the usual contribution for those inside, while the strict mode (the default) reports an error to the caller; in neither case is unrelated memory or data used.",
     ["inputs", "configurations"],
     "all tracks crossing any face of the domain in space and time, both modes, any chunking",
     "No test leaves the domain.",
     [C + "GreensFunction.hxx"], [("out-of-bounds handling", C + "GreensFunction.hxx: accumulate_inner_product")],
     [], ["signal vector", "exception"])

prop("P18", "Sampling the field on a grid does not depend on chunking",
     "Sampling a Green's function on a regular grid between two positions inside its domain returns at each grid point the interpolated field at that position, for any chunking, overlap wide enough for the interpolation, zero-optimised chunks, and grid spacing, including points on or next to chunk borders.",
     ["inputs", "configurations"],
     "all start/end positions and sample counts inside the domain and all chunkings",
     "The only use samples one fixed grid; points in the last partial cell or at chunk borders are not checked against a reference.",
     [C + "GreensFunction.hxx", C + "Interpolation.hxx"], [("grid sampling", C + "GreensFunction.hxx: fill_array")],
     [], ["array returned by fill_array"])

prop("P19", "Cylindrical symmetry margin: mirror at r < 0, zero at other faces",
     "When a Green's function is rechunked with the cylindrical boundary rule, a margin element at negative radius holds the value found at the mirrored radius (same other coordinates, inside or outside the array), and margin elements beyond any other face hold zero, for every chunking and overlap.",
     ["inputs", "configurations"],
     "all array and chunk shapes, overlaps not larger than the radial extent of the chunks, including corners where two faces meet",
     "Tests use a constant or smooth field where a wrong mirror index or a wrong corner is hardly visible.",
     [C + "Symmetry.hxx", D], [("mirror rule", C + "Symmetry.hxx: Cylindrical::boundary_evaluator"), ("boundary elements", D + ": index_loop_over_penetrating_chunk_elements")],
     [], ["margin values of rebuilt chunks"])

prop("P20", "Downsampling pieces equals downsampling the whole",
     "Downsampling an array by integer factors keeps exactly the elements whose global index is a multiple of the factor in every direction, and doing so piece by piece for any partition of the array, each piece with its own start index, produces pieces that fit together to the downsampled whole with the announced start indices and shapes.",
     ["inputs", "configurations"],
     "all shapes, start indices, factors and partitions, including pieces that contribute nothing",
     "Tests use one partition; pieces that fall between sampling points and factors larger than the piece are not covered.",
     [C + "NDVecArrayOperations.hxx"], [("downsampling", C + "NDVecArrayOperations.hxx: downsample / get_downsampled_shape")],
     [], ["downsampled array, start index, shape"])

prop("P21", "Dense arrays behave as plain mathematical arrays",
     "For dense multi-dimensional arrays of vectors, construction, assignment, copying, resizing, clearing, filling, element access, filling a region from another array, appending along the first axis (the others are refused), axis swapping, sub-views, loops and zero tests give exactly the results of the same operation on the mathematical array, leave the operands they only read unchanged, and never alias unintentionally.",
     ["histories", "inputs", "configurations"],
     "all shapes, regions, axes and sequences of operations, in one to three dimensions",
     "Tests try each operation once on one shape.",
     [C + "NDVecArray.hxx", C + "NDVecArray.hh"], [("array operations", C + "NDVecArray.hxx: fill_from, Append, SwapAxes, resize, operator=, IsAllNull")],
     [("shape, strides, offset", "address mapping", C + "NDVecArray.hh")], ["array contents"])

prop("P22", "Index and chunk loops tile a region exactly",
     "Looping over the elements of an index region visits every index once in row-major order; looping over chunks of a given size produces consecutive, non-empty, non-overlapping boxes of at most that size that cover the region exactly, with only the last box per direction smaller, and geometric overlap tests and intersections of boxes agree with the sets of indices they denote.",
     ["inputs"],
     "all begin/end/chunk-size combinations in one to three dimensions, signed and unsigned",
     "Used everywhere but tested nowhere directly; remainders in several directions at once are the risk.",
     [C + "IteratorUtils.hh", C + "ChunkUtils.hh"], [("loops", C + "IteratorUtils.hh"), ("box geometry", C + "ChunkUtils.hh")],
     [], ["worker invocations"])

prop("P23", "Quadrature weights do not depend on how the range is split",
     "The trapezoidal weights produced for consecutive pieces of an integration range, taken together, equal the weights of the whole range: one half for its first and last point and one for every other, for any way of splitting it.",
     ["inputs", "configurations"],
     "all numbers of points and all splits into consecutive blocks",
     "Tests integrate with fewer points than a block, so the split never happens.",
     [C + "Quadrature.hh"], [("weights", C + "Quadrature.hh: TrapezoidalRule::fill_weights")], [], ["weights"])

prop("P24", "Interpolation reproduces samples and is independent of batching",
     "Interpolating a dense array with a kernel at sample positions returns the stored samples; at intermediate positions it returns the kernel-weighted sum over exactly the kernel's neighbourhood; and requesting many points along the inner direction in one call gives the same values as requesting them one at a time or in any grouping.",
     ["inputs", "configurations"],
     "all positions, step sizes, batch lengths and both kernels on arrays of any size",
     "Tests check smooth data within a tolerance, so an off-by-one neighbour at a rounding boundary can pass.",
     [C + "Interpolation.hxx"], [("interpolation", C + "Interpolation.hxx: interpolate")], [], ["interpolated values"])

prop("P25", "Arrays exported to NumPy files contain the same array",
     "A dense array exported to a NumPy file yields a file whose header states the element type, order and the array's true shape (with the vector direction last), is padded to the required alignment, and whose data are exactly the array's elements in row-major order.",
     ["inputs", "configurations"],
     "all shapes in one to three dimensions, all vector lengths, header lengths across the alignment boundary",
     "No test reads an exported file.",
     [C + "NDVecArray.hxx"], [("export", C + "NDVecArray.hxx: NumPy export traits")], [], ["exported file bytes"])

prop("P26", "Vector arithmetic and comparisons are componentwise",
     "Index and coordinate vectors and views of vectors support element-wise arithmetic, comparison, minimum/maximum, casting and named coordinates such that every result component depends only on the matching operand components, assignment through a view writes exactly the viewed components, and operands are not modified.",
     ["inputs"],
     "all operand values of small range for every supported operator, sizes one to four, vectors and views mixed",
     "Tests touch a handful of operators with equal components.",
     [C + "Vector.hh", C + "Vector.hxx", C + "VectorView.hh"], [("operators", C + "Vector.hh, " + C + "VectorView.hh")], [], ["operator results"])

prop("P27", "A Green's function created from an array can be reopened unchanged",
     "Creating a Green's function from a distributed array and then opening it by path, any number of times and with any cache depth, yields the same coordinates, the same sampling interval and the same field values and signals as the object it was created from.",
     ["histories", "configurations"],
     "all array contents, chunkings, coordinate ranges and numbers of reopenings",
     "Tests create and load once with one layout.",
     [C + "GreensFunction.hxx"], [("metadata", C + "GreensFunction.hxx: save_metadata / load_metadata"), ("take-over of the array", C + "GreensFunction.hxx: move_path_from")],
     [("green.meta", "coordinate ranges and sampling", C + "GreensFunction.hh")], ["reopened Green's function"])

prop("P28", "Green's function production does not depend on the number of parallel jobs",
     "The Green's function produced from a simulation covers the requested region of the simulation volume to within one cell at either end (exactly, if the request lies on the grid), and says so in its coordinates. For each time step and each grid point kept by the downsampling it holds the recorded field value, or zero where that is below the configured dynamic range relative to the largest value recorded so far there or directly beside it, or where this largest value is not above the configured minimum. It is stored in (r, z, t) order, in chunks of the requested size with symmetric overlap margins, and is the same however many parallel jobs shared the work, in whatever order they proceeded, and whatever chunk sizes were used in between. A request that cannot be met (volume not a whole number of cells, region outside of it or empty, output directory in use) is refused and leaves the output directory as it was; no temporary files remain.",
     ["configurations", "inputs", "schedules"],
     "all numbers of jobs, volume decompositions, chunk and padding sizes, downsampling factors and dynamic-range limits",
     "The simulation package is not even available to the test suite; this code is never executed by a test.",
     ["eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx"],
     [("storing of simulation chunks", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx: chunkloop functions"), ("merge and rechunk", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx: merge_mpi_chunks / rechunk_mpi")],
     [("field statistics", "running maximum per location", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx: FieldStatisticsTracker")],
     ["produced Green's function directory"])

prop("P29", "Analytic Green's functions and special functions agree with their definitions",
     "The incomplete gamma function of integer order agrees with its definition for every positive argument. The analytic Green's function of a vertical electric dipole covers exactly the requested region, with along every axis the largest number of whole steps that fits in the sampling asked for (the bandwidth of the low-pass filter, times the oversampling factor, in units of the wavelength in the medium), holds at every grid point farther from the dipole than the excluded radius the field of the filtered dipole in a homogeneous medium (zero before the signal arrives), reads back the same through interpolation at the grid points, is independent of the maximum chunk size, and replaces whatever its directory contained.",
     ["inputs", "configurations"],
     "all orders, arguments, filters, indices of refraction, regions and chunk sizes",
     "Tests compare a few points of the gamma function and one signal shape only.",
     [C + "MathUtils.hxx", C + "AnalyticGreensFunctionCalculator.hxx"],
     [("series and continued fraction", C + "MathUtils.hxx: incomplete_gamma"), ("field of the dipole", C + "AnalyticGreensFunctionCalculator.hxx: EvaluateElectricDipoleGreensFunction"), ("sampling and chunks", C + "AnalyticGreensFunctionCalculator.hxx: ElectricDipole")],
     [], ["function values", "analytic Green's function directory"])

prop("P30", "Exported signals are the exact decimal text",
     "Exporting a signal writes one line per sample, the time with the requested number of decimals and the value in scientific notation with the requested number of digits, both correctly rounded from the binary values, separated by a comma and a space, and replaces the former contents of the file. The default precision is 3 decimals for times and 15 for values.",
     ["inputs"],
     "all times, values and precisions",
     "Tests do not look at exported files.",
     [C + "SignalExport.hxx"],
     [("export", C + "SignalExport.hxx: ExportSignal")], [], ["exported text file"])

prop("P31", "The simulation package is told geometry and antenna faithfully",
     "Unphysical regions and volumes (negative radius, inverted extents) are refused; a region is reported as inside of a volume exactly if it is; coordinates are converted between the system of the user and that of the simulation by exactly the position of the lower edge of the volume, both ways; the permittivity that the simulation asks for at a location is that of the user there. The antenna is a single vertical point source, 1.5 cells from the symmetry axis at the antenna's position, whose feed current is, from the start to the end time inclusive, minus the impulse response the user gave, and zero at all other times; a simulation run scales it by 0.11 times the resolution, and by nothing else.",
     ["inputs", "configurations"],
     "all geometries, permittivity profiles, antenna positions, feed shapes, times and resolutions",
     "The simulation package is not available to the test suite; this code is never executed by a test.",
     [C + "Geometry.hxx", C + "Antenna.hxx", "eisvogel/meep/impl/MEEPCylindricalGreensFunctionCalculator.hxx"],
     [("geometry", C + "Geometry.hxx"), ("feed current", C + "Antenna.hxx")], [], ["sources and materials handed to the simulation package"])

prop("P32", "A shower from the library becomes the track its profile describes",
     "A shower made for a primary type and an energy uses a profile of that primary type whose energy is closest to the requested one among all profiles of the library file: the one with the requested number (in the order of the file), or some existing one if none is requested. It starts at the given position, moves in the given direction at the speed of light, and has a point after every time step that begins before the last grammage of the profile has been traversed. The charge at every point, the first included, is the profile's charge at the grammage traversed so far (that of the first entry before it, linearly interpolated between neighbouring entries after it), scaled by the ratio of the requested energy to that of the profile. The track consists of one current segment per pair of successive points, with the charge at the first of them; successive segments share end points and times, and are added behind whatever the list of segments already contains.",
     ["inputs", "histories"],
     "all library files, primary types, energies, positions, directions and time steps",
     "The shower generator is not part of the tested build; none of its code is executed by a test.",
     ["extern/shower_profile/shower_creator/shower_creator.cpp", "extern/shower_profile/shower_1D/shower_1D.cpp"],
     [("library and choice of the profile", "extern/shower_profile/shower_creator/shower_creator.cpp: ShowerCreator, create_shower"), ("track", "extern/shower_profile/shower_1D/shower_1D.cpp: get_shower, fill_tracks")],
     [], ["points, charges and current segments of a shower"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
