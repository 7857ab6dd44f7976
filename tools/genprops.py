#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (one JSON object per line) from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = list(observe)
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Dense fields store each voxel independently",
  "After sizing a dense field to any extents and data window, every voxel of the data window has its own storage: writing one voxel changes exactly that voxel, and reading it back through any read path (value, fast accessor, writable reference) yields the last value written. No access inside the data window touches memory outside the field's storage.",
  ["inputs", "configurations"], "all data windows (including negative origins and padding), all pairs of voxels, all element types",
  "The unit tests fill a handful of fixed windows; aliasing or off-by-one addressing shows only for particular window shapes and voxel pairs.",
  ["export/DenseField.h", "export/Field.h"],
  [("linear address computation from window minimum and slice sizes", "export/DenseField.h: ptr(), sizeChanged()")])
p("C02", "Dense iteration visits each voxel of the requested bounds exactly once",
  "Iterating a dense field over any bounding box inside its data window visits every voxel of the box exactly once in x-fastest order, reports the correct coordinate for each position and gives access to exactly that voxel's value, for both read-only and writable iteration. Iteration ends after the last voxel.",
  ["inputs"], "all data windows and all sub-boxes of them",
  "Tests iterate whole fields of a few sizes; sub-windows, negative origins and single-slice boxes are not enumerated.",
  ["export/DenseField.h", "export/Field.h"],
  [("iterator increments that jump at row and slice ends", "export/DenseField.h: iterator/const_iterator operator++")])
p("C03", "Sparse fields behave as a total map from voxel to last written value",
  "For any block size, any resolution and any sequence of voxel writes, block empty-value changes and clears, reading a voxel of a sparse field returns the value most recently given to it by a write, or else the empty value of its block. Reading never allocates storage, and writing allocates exactly the block holding the voxel.",
  ["inputs", "histories"], "all windows, block orders, voxel coordinates, values and bounded operation sequences",
  "Tests write a few fixed voxels; an error depends on coordinate, block order, window origin and the preceding operations jointly.",
  ["export/SparseField.h"],
  [("block/voxel coordinate split and lazy block allocation", "export/SparseField.h: value(), fastValue(), lvalue(), fastLValue(), getVoxelInBlock()")])
p("C04", "Sparse block arithmetic covers the data window for every size",
  "For every data window and block size, the number of blocks along each axis is the smallest number that covers the window, and each voxel of the window belongs to exactly one existing block and one position in it. This holds for every window size the integer coordinates can express.",
  ["inputs", "configurations"], "all window minima/maxima and block orders",
  "Tests use windows of at most a few hundred voxels; rounding in the block count appears only at large or unusual extents.",
  ["export/SparseField.h"],
  [("block resolution from window size", "export/SparseField.h: setupBlocks()"),
   ("voxel to block index and offset", "export/SparseField.h: applyDataWindowOffset(), getBlockCoord(), blockId()")])
p("C05", "Sparse iteration visits each voxel and block exactly once",
  "Iterating a sparse field over any box inside its data window visits each voxel of the box exactly once with the correct coordinate and the value a direct read returns, whether or not blocks are allocated, and writes through the iterator land on that voxel only. Block iteration visits each block once with the voxel bounds that the block really covers, clipped to the data window.",
  ["inputs", "histories"], "all windows, sub-boxes, block orders and allocation patterns",
  "Tests iterate fully or uniformly allocated fields with zero-origin windows.",
  ["export/SparseField.h"],
  [("block-change detection while stepping", "export/SparseField.h: iterator, const_iterator, block_iterator")])
p("C06", "Releasing blocks never changes any voxel's value",
  "Releasing sparse blocks that satisfy a release criterion keeps every voxel readable with a value the criterion permits (identical for the equality-style criteria), releases no block that fails the criterion, and leaves all other blocks untouched. The count returned is the number of blocks actually freed.",
  ["inputs", "histories"], "all block contents, block orders and window clippings for each shipped criterion",
  "The test releases one field with all-equal blocks.",
  ["export/SparseField.h"],
  [("block check functors and release", "export/SparseField.h: releaseBlocks(), CheckAllEqual, CheckMaxAbs; deallocBlock")])
p("C07", "Copies and clones are equal and independent",
  "A field copied, assigned or cloned from another has the same extents, data window, mapping, metadata, name, attribute and voxel values, and afterwards a change to either one is never visible in the other. Assigning a field to itself, or over a field with other contents or sizes, leaves it equal to the source.",
  ["inputs", "histories"], "all field contents and shapes within bounds, writes after the copy on either side, all concrete field kinds",
  "Tests copy a field once and compare a few values; shared storage shows only when the copy is mutated in particular ways.",
  ["export/Field.h", "export/DenseField.h", "export/SparseField.h", "export/MACField.h", "export/MIPField.h"],
  [("copy constructors, copy assignment, clone", "all field headers")])
p("C08", "Staggered fields store every face sample independently",
  "For any data window a staggered field has one more face than voxels along each component's axis, each face is stored independently, reads return the last value written, and the cell-centred value of a voxel is the mean of the two faces on either side of it per component. Accesses in range never leave the component's storage.",
  ["inputs", "configurations"], "all data windows (negative minima included), all face coordinates, all components",
  "Tests use one or two zero-origin resolutions.",
  ["export/MACField.h"],
  [("per-component slice sizes and addressing", "export/MACField.h: sizeChanged(), ptr helpers, value()")])
p("C09", "Staggered iteration visits each sample exactly once",
  "Iterating the cells or one component's faces of a staggered field over any bounds visits each sample of the bounds exactly once, with the right coordinate and exactly that sample's value, read-only or writable.",
  ["inputs"], "all data windows and sub-boxes, all three components",
  "Tests iterate one full window.",
  ["export/MACField.h"],
  [("component iterator increment", "export/MACField.h: mac_comp_iterator, const_mac_comp_iterator, const_iterator")])
p("C10", "Coordinate conversions and bounds helpers are consistent",
  "Converting a discrete voxel coordinate to continuous and back is the identity; every continuous coordinate converts to the voxel whose unit cell contains it; and the box predicates, intersection, clipping and growth helpers agree with set membership of voxels.",
  ["inputs"], "all finite coordinates and boxes",
  "Tests probe a few coordinates; cell borders and negative coordinates need every value.",
  ["export/Field.h", "export/CoordSys.h", "src/FieldInterp.cpp", "export/StdMathLib.h"],
  [("discToCont/contToDisc", "export/CoordSys.h"), ("bounding box helpers", "export/Field.h, export/Types.h")])
p("C11", "Linear interpolation is a clamped convex blend of the eight neighbours",
  "Trilinear interpolation at any point returns the stored value at voxel centres, otherwise the trilinear blend of the eight surrounding voxels with coordinates clamped to the data window; weights lie in [0,1] and sum to one. It never reads outside the data window, and every field-specific variant gives the same answer as the generic one.",
  ["inputs", "configurations"], "all sample points (inside, outside, negative windows), all voxel values and windows in bounds, every interpolator variant",
  "Tests compare variants on random points of zero-origin fields.",
  ["export/FieldInterp.h", "src/FieldInterp.cpp"],
  [("linear interpolators", "export/FieldInterp.h: LinearFieldInterp, LinearGenericFieldInterp, LinearMACFieldInterp")])
p("C12", "Cubic interpolation stays in its window and variants agree",
  "Cubic interpolation at any point uses only voxels of the data window, returns the stored value at voxel centres of the window for every window origin, reproduces a constant field, follows the documented cubic segment between the bracketing samples along an axis (flat between equal samples, constant beyond the first and last centre), and field-specific variants give the same answer as the generic one.",
  ["inputs", "configurations"], "all sample points, voxel values and windows in bounds, every interpolator variant",
  "Tests never use a window with a nonzero origin.",
  ["export/FieldInterp.h", "src/FieldInterp.cpp"],
  [("cubic interpolators", "export/FieldInterp.h: CubicFieldInterp, CubicGenericFieldInterp, CubicMACFieldInterp")])
p("C13", "Curves stay sorted and sample inside the bracketing samples",
  "Whatever order samples are added in, a curve keeps them sorted by time, returns a sample's own value at its time, linearly interpolates between the two bracketing samples, clamps outside the sampled range, and returns the default (or identity) value when empty.",
  ["inputs", "histories"], "all sample times/values and query times, bounded sample counts, all insertion orders",
  "The unit test adds samples in one fixed order.",
  ["export/Curve.h"],
  [("sorted insertion and lookup", "export/Curve.h: addSample(), linear()")])
p("C14", "Field mappings are mutually inverse",
  "For every mapping kind, local-to-voxel and voxel-to-local conversions undo each other, local and world conversions undo each other, and voxel-space corners correspond to the unit cube of local space for any extents, including ones with a nonzero origin. Reported voxel sizes equal the distance between neighbouring voxel centres.",
  ["inputs", "configurations"], "all extents, invertible transforms and points (exact arithmetic idealisation for the algebraic identity)",
  "Tests use one transform and one resolution.",
  ["export/FieldMapping.h", "src/FieldMapping.cpp"],
  [("null, matrix and frustum mapping transforms", "src/FieldMapping.cpp")])
p("C15", "MIP level geometry is consistent",
  "For every base resolution and offset, level resolutions and offsets follow the halving rule so that each coarse voxel covers exactly the fine voxels it is computed from, levels have a positive size, and level windows cover the base window. The number of levels is the least at which the resolution stops shrinking at the requested floor.",
  ["inputs", "configurations"], "all resolutions, offsets, level counts and thread-free filter configurations in bounds",
  "Tests build MIPs of a few power-of-two sized fields.",
  ["export/MIPUtil.h", "src/MIPUtil.cpp", "export/MIPField.h"],
  [("mipResolution, mipOffset, makeMIP", "export/MIPUtil.h, src/MIPUtil.cpp")])
p("C16", "Resampling stays inside the source and preserves constants",
  "Resampling or filtering a field to any size with any shipped filter reads only voxels of the source window, gives the same values for dense and sparse fields with the same contents, yields a result with the requested window, maps a constant field to the same constant, and uses non-negative normalised weights for the non-negative filters.",
  ["inputs", "configurations"], "all source/target sizes in bounds, all voxel values, all shipped filters",
  "Tests resample a few sizes and inspect the result visually or at a point.",
  ["export/Resample.h", "src/Resample.cpp"],
  [("separable resampling and filters", "export/Resample.h: separableResample, resample; filter functors")])
p("C17", "Archive write/read round trip",
  "Any tree of groups and data blocks written to an archive and closed reads back as the same tree: same order and number of children, same kinds, and byte-identical data, including empty groups and empty data, shared children and data rewritten in place. The archive is marked complete only once everything is written.",
  ["inputs", "histories", "crash_points"], "all bounded trees, data sizes and contents; every prefix of the write sequence",
  "Tests never exercise the archive layer directly; only field files made by the library reach it.",
  ["src/OArchive.cpp", "src/OStream.cpp", "src/OGroup.cpp", "src/OData.cpp", "src/IArchive.cpp", "src/IStreams.cpp", "src/IGroup.cpp", "src/IData.cpp"],
  [("group freeze and position patching", "src/OGroup.cpp: freeze(); src/OStream.cpp: dtor")])
p("C18", "Reading an arbitrary archive never corrupts memory",
  "Opening and traversing any byte sequence as an archive either reports it invalid or yields a traversable tree; it never reads or writes memory outside its buffers, dereferences null, or fails to terminate. A file that is truncated, not frozen or of another version is reported as such.",
  ["inputs", "fault_sequences"], "all byte strings up to a bounded length, all truncations",
  "Tests open one missing file and a few good ones.",
  ["src/IArchive.cpp", "src/IStreams.cpp", "src/IGroup.cpp", "src/IData.cpp", "include/OgIGroup.h", "src/OgIGroup.cpp", "include/OgIAttribute.h", "include/OgIDataset.h"],
  [("header validation and bounded reads", "src/IStreams.cpp, src/IGroup.cpp, src/IData.cpp")])
p("C19", "Typed archive attributes and datasets round trip",
  "Every typed attribute or dataset written under a name reads back under that name with the same type, length and values, other names are reported absent, and asking for it with another type is refused rather than reinterpreted.",
  ["inputs", "histories"], "all values of all supported types, bounded names and lengths, bounded numbers of siblings",
  "Only the attributes the field writers happen to use are read back.",
  ["include/OgOAttribute.h", "include/OgODataset.h", "include/OgOGroup.h", "include/OgIAttribute.h", "include/OgIDataset.h", "include/OgIGroup.h", "src/OgIGroup.cpp", "src/OgUtil.cpp", "include/OgUtil.h"],
  [("name/type/data triplets", "include/Og*.h")])
p("C20", "Dense and staggered fields round trip through a file",
  "A dense or staggered field of any supported type written to a file reads back with the same name, attribute, extents, data window, mapping, metadata and bit-identical voxels. Requesting it as another type fails or converts, never reinterprets.",
  ["inputs", "configurations"], "all voxel bit patterns, windows and metadata within bounds, every supported element type",
  "Tests write one field per type with one pattern of values.",
  ["src/DenseFieldIO.cpp", "include/DenseFieldIO.h", "src/MACFieldIO.cpp", "include/MACFieldIO.h", "src/Field3DFile.cpp", "src/FieldMappingIO.cpp"],
  [("field IO read/write", "src/DenseFieldIO.cpp, src/MACFieldIO.cpp")])
p("C21", "Sparse fields round trip through a file",
  "A sparse field written to a file reads back with the same block size, windows, set of allocated blocks, empty values and bit-identical voxels, for any pattern of allocated blocks, and loading it on demand yields the same values as loading it whole.",
  ["inputs", "configurations", "histories"], "all allocation patterns, empty values and voxel bit patterns within bounds, all read orders for on-demand loading",
  "Tests write a couple of patterns; the file-block numbering depends on which blocks are allocated.",
  ["src/SparseFieldIO.cpp", "include/SparseFieldIO.h", "export/SparseDataReader.h", "include/OgSparseDataReader.h", "export/SparseFile.h", "src/SparseFile.cpp"],
  [("block map and compressed block data", "src/SparseFieldIO.cpp: writeInternal/readData"), ("deferred block read", "export/SparseFile.h")])
p("C22", "On-demand block cache accounting never drifts",
  "Under any sequence of block reads, reference holds, evictions, limit changes and flushes, the reported memory use equals the storage of the blocks actually loaded, a held block is never evicted, a released one can be, reads always return the file's value, and per-block load and reference counts match what happened. Use never exceeds the limit while an unheld block could be evicted.",
  ["histories", "inputs"], "all bounded operation sequences over several files and blocks, with any memory limit",
  "Tests read a field in one order under one limit and look at the end state.",
  ["export/SparseFile.h", "src/SparseFile.cpp"],
  [("clock eviction and usage counters", "src/SparseFile.cpp: SparseFileManager::activateBlock, deallocateBlock, flushCache; export/SparseFile.h: Reference")],
  [("memory use", "bytes of loaded blocks", "SparseFileManager m_memUse")])
p("C23", "Concurrent block reads are safe",
  "Threads reading, holding and releasing on-demand blocks at the same time never see a block that is not fully loaded, never have a held block freed under them, and leave the accounting as some sequential order would; no deadlock is possible.",
  ["schedules", "histories"], "all interleavings of two threads at lock granularity within a bounded number of operations",
  "The one threaded test runs whatever schedule the OS picks.",
  ["export/SparseFile.h", "src/SparseFile.cpp", "export/SparseField.h"],
  [("per-block, per-reference and manager mutexes", "export/SparseFile.h, src/SparseFile.cpp")])
p("C24", "Layers never collide in a file",
  "However fields are named and however mappings coincide or differ, every field written to a file occupies its own partition and layer, can be found under its own name and attribute, keeps its own mapping, and listing the file returns exactly the names written.",
  ["inputs", "histories"], "all bounded sequences of writes with arbitrary short names, attributes and mappings",
  "Tests use distinct well-formed names.",
  ["src/Field3DFile.cpp", "export/Field3DFile.h"],
  [("unique partition names from name and counter", "src/Field3DFile.cpp: intPartitionName, makeIntPartitionName, removeUniqueId, OutputFile writeLayer")])
p("C25", "Name pattern matching follows its wildcard rules",
  "A name matches a pattern list exactly when the documented wildcard, exclusion and attribute rules say so, for any text, and matching always terminates.",
  ["inputs"], "all names and patterns up to a bounded length over any characters",
  "Tests check a table of examples.",
  ["src/PatternMatch.cpp", "export/PatternMatch.h"],
  [("recursive wildcard matcher", "src/PatternMatch.cpp")])
p("C26", "File sequence expansion lists exactly the specified frames",
  "A sequence specification expands to exactly the frames from first to last in order, numbered in plain decimal, the name of an existing file expands to itself, and malformed specifications are rejected instead of yielding made-up names.",
  ["inputs"], "all specification strings up to a bounded length",
  "Tests check a few well-formed strings.",
  ["src/FileSequence.cpp", "export/FileSequence.h"],
  [("specification parser", "src/FileSequence.cpp")])
p("C27", "Metadata is a typed map",
  "Setting metadata of each supported kind makes it readable under that name and kind and leaves every other entry alone, an absent name yields the caller's default, and copying field metadata makes an equal independent set.",
  ["inputs", "histories"], "all names, values and bounded set/get/copy sequences over all kinds",
  "Tests set one entry of each kind.",
  ["export/FieldMetadata.h", "src/FieldMetadata.cpp", "export/Field.h"],
  [("per-kind maps", "src/FieldMetadata.cpp")])
p("C28", "Runtime types and reference counts are sound",
  "A dynamic field cast succeeds exactly when the object's class is or derives from the target and then refers to the same object; a shared object is destroyed exactly when its last reference goes; and the factory creates exactly the registered class for each type name.",
  ["histories", "inputs"], "all concrete field classes crossed with all cast targets; all bounded copy/assign/reset sequences of references",
  "Tests cast a few pairs.",
  ["export/RefCount.h", "export/Traits.h", "export/ClassFactory.h", "src/ClassFactory.cpp", "export/Field.h"],
  [("class type matching", "export/RefCount.h: matchRTTI/classType; field_dynamic_cast"), ("intrusive counting", "export/RefCount.h")])
p("C29", "Value clamping and half conversion never produce surprises",
  "Converting any value into a narrower element type yields the nearest representable value with out-of-range magnitudes clamped to the type's range, and finite input never becomes infinite or not-a-number.",
  ["inputs"], "every float and double bit pattern",
  "Tests probe a few values.",
  ["export/StdMathLib.h", "export/Types.h", "export/FieldInterp.h", "include/UtilPlainOldDataType.h"],
  [("clampForType and conversions", "export/StdMathLib.h / Types.h")])
p("C30", "Stand-in fields answer with one constant everywhere",
  "An empty or procedural stand-in field reports the extents, window and mapping it was given and returns its constant value for every voxel, through direct reads, iteration and interpolation, and writes outside its one stored value are impossible.",
  ["inputs", "configurations"], "all windows, coordinates and values",
  "Tests exercise one size.",
  ["export/EmptyField.h", "export/ProceduralField.h", "src/ProceduralField.cpp"],
  [("constant value storage", "export/EmptyField.h")])
p("C31", "Lazy MIP levels equal eagerly loaded ones",
  "A MIP field whose levels are loaded on demand answers every read at every level exactly as one whose levels were loaded up front, each level is loaded at most once, and copies keep answering after the original is gone.",
  ["histories", "inputs", "schedules"], "all orders of level reads and copies within bounds, all voxel coordinates",
  "Tests load levels in increasing order once.",
  ["export/MIPField.h", "export/MIPBase.h", "src/MIPFieldIO.cpp"],
  [("per-level lazy load actions", "export/MIPField.h: loadLevelFromDisk, setupLazyLoad")])
p("C32", "Grouped samplers agree with the fields they wrap",
  "Sampling a group of fields at a world position returns, per field, what interpolating that field directly at that position returns, fields that do not contain the position contribute nothing, and the hit count equals the number that do. Bounds reported for the group enclose each field's.",
  ["inputs", "configurations"], "all positions, voxel values and bounded groups of each field kind",
  "Tests sample a group of one field.",
  ["export/FieldGroup.h", "export/FieldSampler.h", "export/FieldWrapper.h"],
  [("sampler dispatch", "export/FieldSampler.h, export/FieldGroup.h")])
p("C33", "Fields round trip through the HDF5 file format",
  "A field of any supported kind written in the HDF5 format reads back equal to the original.",
  ["inputs", "configurations"], "all voxel values, windows and metadata",
  "Tests write one field per type.",
  ["src/Field3DFileHDF5.cpp", "src/Hdf5Util.cpp", "src/DenseFieldIO.cpp", "src/SparseFieldIO.cpp"],
  [("HDF5 reads and writes", "src/Hdf5Util.cpp")])
p("C34", "Parallel MIP filtering never shares a destination block between workers",
  "When a MIP level is computed by several worker threads, no two workers ever write the same destination block or voxel, every destination voxel is written by exactly one, and the result equals the single-threaded one whatever the schedule.",
  ["schedules", "configurations", "inputs"], "all work splits, block orders, resolutions and thread counts in bounds",
  "Tests run one schedule and do not compare block orders.",
  ["export/MIPUtil.h"],
  [("work block partition of the destination", "export/MIPUtil.h: MIPSeparableThreadOp, mipSeparable")])
p("C35", "Splitting a window into blocks or grains partitions it",
  "Splitting any window into blocks or work grains of any size yields pieces that are disjoint, lie inside the window and together cover it, so parallel per-piece work touches each voxel exactly once. Per-field minimum, maximum and similar reductions equal the reduction over all voxels.",
  ["inputs", "configurations", "schedules"], "all windows, piece sizes and voxel values in bounds",
  "Tests use a single size.",
  ["export/MinMaxUtil.h", "src/MinMaxUtil.cpp", "export/FieldSampler.h", "export/SparseField.h"],
  [("block enumeration and reductions", "export/MinMaxUtil.h, export/SparseField.h")])
p("C36", "Conversions between staggered and cell-centred fields are faithful",
  "Converting a cell-centred vector field to a staggered one and back keeps the mapping and windows, averages exactly the neighbouring samples, preserves constant fields, and reads and writes only valid samples.",
  ["inputs", "configurations"], "all windows and values in bounds",
  "Tests convert one size.",
  ["export/MACFieldUtil.h"],
  [("convertMAC conversions", "export/MACFieldUtil.h")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
