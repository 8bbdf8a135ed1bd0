#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the list can be edited in one place)."""
import json, os
P = []
L = "lib/"
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=[L + f if not f.startswith(("src", "lib")) else f for f in files],
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=hook))
    if state:
        d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "A dimension label always denotes one and the same dimension",
  "Creating a dimension from a label and asking for its name gives the label back, creating it again from the same label gives an equal dimension, and dimensions created from different labels compare different; a label is refused only when every id for user labels is taken. This holds for built-in and user labels, for any number of labels in any order, and for any interleaving of threads that create dimensions and read names concurrently.",
  ["histories", "schedules", "inputs"], "all sequences of label creations and name look-ups, issued by any number of threads in any interleaving, over all label strings",
  "tests create a handful of labels in one process order, and the concurrency test cannot choose the interleaving in which two threads intern the same new label",
  ["units/dim.cpp", "units/include/scipp/units/dim.h"],
  [("Dim::Dim(const std::string &)", "lib/units/dim.cpp"), ("Dim::name", "lib/units/dim.cpp"), ("shared_mutex around the table of custom labels", "lib/units/dim.cpp")],
  ["Dim(label)", "Dim::name()", "Dim::operator==", "Dim::operator<"],
  [("custom_ids", "label to id table of user labels, append only", "lib/units/dim.cpp")])

p("C02", "Dimension lists stay ordered, duplicate-free label-to-length maps",
  "A dimension list keeps its labels unique, in insertion order, and each with the length it was given: adding at either end, removing, renaming, resizing and looking up change exactly the addressed entry and keep the order of all others. Adding a label that is present, addressing one that is absent, renaming onto another existing label, or giving a negative length is refused and leaves the list as it was.",
  ["inputs", "histories"], "all dimension lists up to the maximum rank, all labels and all lengths; operations compose, so all histories of operations",
  "tests exercise a few labels and lengths; the claim is about every position of every list and about what a refused operation leaves behind",
  ["core/sizes.cpp", "core/include/scipp/core/sizes.h", "core/dimensions.cpp", "core/include/scipp/core/dimensions.h"],
  [("small_stable_map::insert_left/insert_right/erase/assign/replace_key/find", "lib/core/sizes.cpp"), ("Sizes::set/resize/relabel", "lib/core/sizes.cpp"), ("Dimensions::addInner/resize/addLabel checks", "lib/core/dimensions.cpp")],
  ["Sizes", "Dimensions"])

p("C03", "Slicing selects exactly the requested index range",
  "A slice description is accepted only if its begin is non-negative, its end does not precede its begin (an end of -1 denotes a point slice) and its stride is positive; slicing a dimension list with it is accepted only if it fits the existing extent. A point slice then removes exactly that dimension, and a range slice from b to e with stride s gives it the number of indices b, b+s, b+2s, ... below e, all other dimensions staying as they were.",
  ["inputs"], "all slice parameters (dimension, begin, end, stride) and all dimension lists up to the maximum rank",
  "tests use a few begin/end/stride triples; off-by-one errors in strided lengths and range checks depend on divisibility and boundary cases",
  ["core/slice.cpp", "core/include/scipp/core/slice.h", "core/sizes.cpp", "core/except.cpp"],
  [("Slice constructors", "lib/core/slice.cpp"), ("expect::validSlice", "lib/core/except.cpp"), ("Sizes::slice", "lib/core/sizes.cpp")],
  ["Slice", "Sizes::slice"])

p("C04", "Combining dimension lists aligns them by label",
  "Merging dimension lists yields every label of the operands exactly once with its common length, those of the first operand first and in their order, and refuses operands that disagree on a length; their intersection yields exactly the labels common to both; the inclusion test between dimension lists holds exactly when each label of the one occurs in the other with the same length; transposing to a given order yields that order with unchanged lengths and refuses anything that is not a permutation of the labels.",
  ["inputs"], "all pairs of dimension lists up to the maximum rank, all lengths, all requested orders",
  "tests cover a few ranks and orders; agreement must hold for every overlap pattern of labels",
  ["core/sizes.cpp", "core/dimensions.cpp"],
  [("merge", "lib/core/sizes.cpp, lib/core/dimensions.cpp"), ("Sizes::includes", "lib/core/sizes.cpp"), ("transpose / get_transposed", "lib/core/sizes.cpp, lib/core/dimensions.cpp")],
  ["merge", "Sizes::includes", "transpose"])

p("C05", "Walking a strided view visits each element once, in order",
  "Iterating over an array view visits, in row-major order of the target dimensions, the memory position offset plus the sum of index times stride for every index tuple, once each, also when axes have been merged, broadcast (stride 0) or transposed. Advancing step by step, jumping to a position and comparing for the end agree with each other at every position.",
  ["inputs"], "all shapes and strides up to the maximum rank, all positions",
  "tests walk a few small shapes; the carry logic between axes and axis merging must be right for every shape, stride combination and position",
  ["core/view_index.cpp", "core/include/scipp/core/view_index.h", "core/include/scipp/core/element_array_view.h", "core/element_array_view.cpp", "common/include/scipp/common/index_composition.h"],
  [("ViewIndex constructor (drops and merges axes)", "lib/core/view_index.cpp"), ("ViewIndex::increment/set_index/get", "lib/core/include/scipp/core/view_index.h"), ("extract_indices, flat_index_from_strides", "lib/common/include/scipp/common/index_composition.h")],
  ["ViewIndex", "ElementArrayView::iterator"])

p("C06", "Joint iteration of several operands pairs up matching elements",
  "When several dense operands with the same iteration dimensions but different strides are traversed together, then at every step the position of each operand is its own sum of index times stride for one common row-major index tuple; after as many steps as there are elements the traversal compares equal to its end. Jumping to any position yields the same positions as stepping there.",
  ["inputs"], "all iteration shapes up to the maximum rank, all strides of up to the supported number of operands, all positions",
  "tests use small fixed shapes; broadcasts, transposed operands and axis carries interact for every combination",
  ["core/include/scipp/core/multi_index.h", "core/multi_index.cpp", "common/include/scipp/common/index_composition.h"],
  [("MultiIndex::increment/increment_outer/set_index/end", "lib/core/include/scipp/core/multi_index.h"), ("flatten_dims and dense constructor", "lib/core/multi_index.cpp")],
  ["MultiIndex::increment", "MultiIndex::get", "MultiIndex::set_index"])

p("C07", "Array views that share memory are recognised as overlapping",
  "Every element of a strided view lies inside the memory bounds reported for it, and both ends of the bounds are attained, including for broadcast and negative strides; a view without elements has empty bounds. Consequently two different views (offset, shape or strides differ) into the same buffer with any element in common are always reported as overlapping, so an in-place operation never silently reads data it has already overwritten.",
  ["inputs"], "all shapes, strides (positive, zero, negative) and offsets",
  "tests use two or three layouts; a missed overlap silently corrupts results only for particular shapes and strides",
  ["common/include/scipp/common/index_composition.h", "core/element_array_view.cpp", "core/include/scipp/core/element_array_view.h"],
  [("memory_bounds", "lib/common/include/scipp/common/index_composition.h"), ("ElementArrayViewParams::overlaps", "lib/core/element_array_view.cpp")],
  ["memory_bounds", "ElementArrayViewParams::overlaps"])

p("C08", "Flat positions and index tuples convert into each other without loss",
  "Row-major strides computed for a shape, decomposition of a flat position into an index tuple, and composition of an index tuple with strides fit together: decomposing a flat position and composing the result with the row-major strides of the same shape gives the position back, all indices are inside the shape, and different positions give different tuples. Erasing or clearing single axes changes exactly those axes' strides.",
  ["inputs"], "all shapes up to the maximum rank and all positions",
  "tests check a table of shapes; inversion must hold for all",
  ["common/include/scipp/common/index_composition.h", "core/strides.cpp", "core/include/scipp/core/strides.h"],
  [("extract_indices, flat_index", "lib/common/include/scipp/common/index_composition.h"), ("Strides, transpose, Strides::erase/clear", "lib/core/strides.cpp")],
  ["extract_indices", "flat_index", "Strides"])

p("C09", "Element buffers have value semantics",
  "A buffer of elements behaves as a value: copying gives an equal, independent buffer; moving hands over the elements and leaves the source empty; resizing and assignment give the requested size and content; and an empty buffer stays distinguishable from one that was never given a size. Writing to one buffer never changes another.",
  ["inputs", "histories"], "all sizes and contents, all sequences of construct, copy, move, assign, resize, reset",
  "tests use one small size; aliasing or a wrong size after a particular sequence escapes them",
  ["core/include/scipp/core/element_array.h"],
  [("element_array constructors, assignment, resize, reset", "lib/core/include/scipp/core/element_array.h")],
  ["element_array"])

p("C10", "Uncertainties propagate to first order for uncorrelated operands",
  "For every arithmetic operation and function supported on values with variances, the resulting value equals the operation applied to the values, and the resulting variance equals the sum over the operands of the squared partial derivative times the operand's variance, an operand without variance contributing none. In-place and out-of-place forms agree.",
  ["inputs"], "all operand values and variances for which the operation is defined, in real arithmetic, for every combination of operands with and without variances",
  "tests compare a few numbers, and a formula that is wrong by a factor vanishing at those numbers or with swapped operands passes",
  ["core/include/scipp/core/value_and_variance.h", "core/include/scipp/core/element/arithmetic.h", "core/include/scipp/core/element/math.h", "core/include/scipp/core/element/trigonometry.h"],
  [("ValueAndVariance operators +,-,*,/ and pow, sqrt, exp, log, log10, abs, unary minus", "lib/core/include/scipp/core/value_and_variance.h")],
  ["ValueAndVariance arithmetic", "element::plus/minus/times/divide"])

p("C11", "Comparing and classifying uncertain values looks at values only",
  "Comparisons, minimum/maximum selection and NaN, infinity and sign tests of a value with variance give the answer they give for its value alone, whatever the variances are. Selecting the minimum or maximum returns one of the operands unchanged, with its own variance.",
  ["inputs"], "all values (including NaN, infinities, signed zeros) and all variances",
  "tests use a few finite numbers; special values and all operator/operand-type combinations are out of reach",
  ["core/include/scipp/core/value_and_variance.h", "core/include/scipp/core/element/comparison.h", "core/include/scipp/core/element/special_values.h"],
  [("comparison operators, isnan/isinf/isfinite/signbit/isposinf/isneginf, min/max of ValueAndVariance", "lib/core/include/scipp/core/value_and_variance.h")],
  ["ValueAndVariance comparison"])

p("C12", "Floor division and remainder follow Python semantics",
  "For integers, the floor quotient of a by b is the largest integer q with q*b not beyond a, the remainder is a - q*b and has the sign of the divisor with magnitude below the divisor's; division by zero yields 0 for both. For floating-point operands the quotient is the floor of the quotient and the remainder is complementary to it, NaN for divisor 0.",
  ["inputs"], "all 32- and 64-bit integer operand pairs whose quotient is representable; all floating-point operands in real arithmetic",
  "tests use small operands; rounding of large integers and sign combinations at boundaries are not sampled",
  ["common/include/scipp/common/numeric.h", "core/include/scipp/core/element/arithmetic.h"],
  [("floor_divide, remainder", "lib/common/include/scipp/common/numeric.h")],
  ["numeric::floor_divide", "numeric::remainder", "numeric::true_divide"])

p("C13", "Integer powers equal repeated multiplication",
  "Raising a number to a non-negative integer power gives the product of that many copies of it, exactly; a negative integer exponent gives the reciprocal of the positive power. This holds for every base and every exponent whose negation is representable and for which no intermediate overflows.",
  ["inputs"], "all bases (integer, real) and all integer exponents",
  "tests use exponents up to a small number; a wrong recursion step shows only for particular bit patterns of the exponent",
  ["common/include/scipp/common/numeric.h"],
  [("numeric::pow, integer_pow_pos_exponent", "lib/common/include/scipp/common/numeric.h")],
  ["numeric::pow"])

p("C14", "Ranges are recognised as evenly spaced exactly when they are",
  "An integer sequence whose steps are representable is reported as consecutive exactly if each element is its predecessor plus one, and as linearly spaced exactly if it has at least two elements, does not descend, and all steps are equal; a floating-point sequence reported as linearly spaced ascends strictly from end to end, holds no NaN, and every step deviates from the mean step by no more than the rounding tolerance.",
  ["inputs"], "all sequences of any length",
  "tests use short regular sequences; zig-zags, one deviating element anywhere, NaN, and boundary lengths are not sampled",
  ["common/include/scipp/common/numeric.h"],
  [("islinspace, isarange", "lib/common/include/scipp/common/numeric.h")],
  ["numeric::islinspace", "numeric::isarange"])

p("C15", "A coordinate is assigned to the bin whose edges enclose it",
  "For ascending edges, looking up the bin of a coordinate yields the bin whose lower edge is not above and whose upper edge is strictly above the coordinate, and yields no bin exactly if the coordinate is below the first edge, at or beyond the last edge, or NaN. The fast path for evenly spaced edges and the general path give the same answer, and values looked up by bin are those of that bin or the fill value.",
  ["inputs"], "all edge arrays of any length, all coordinates",
  "tests probe a few coordinates; boundary coordinates, NaN, rounding in the fast path and repeated edges are not covered for all edges",
  ["core/include/scipp/core/histogram.h", "core/include/scipp/core/element/event_operations.h", "core/include/scipp/core/element/bin.h"],
  [("get_bin, linear_edge_params", "lib/core/include/scipp/core/histogram.h"), ("map_linspace, map_sorted_edges, lookup_previous, map_and_mul", "lib/core/include/scipp/core/element/event_operations.h"), ("update_indices_by_binning", "lib/core/include/scipp/core/element/bin.h")],
  ["get_bin", "element::event::map", "element::update_indices_by_binning"])

p("C16", "Binning neither loses, duplicates nor misplaces events",
  "When events are counted per bin and then moved into bins, each event with a valid bin index appears exactly once, in the output range of exactly that bin, events within one bin keep their input order, events without a bin are dropped, and the count reported for a bin equals the number of events written to it.",
  ["inputs"], "all event lists, all bin-index assignments and all numbers of bins",
  "tests bin a handful of events; loss or duplication that depends on chunking, index type or empty bins escapes them",
  ["core/include/scipp/core/element/bin.h", "core/include/scipp/core/element/map_to_bins.h", "core/include/scipp/core/element/bin_detail.h"],
  [("count_indices, update_indices_*", "lib/core/include/scipp/core/element/bin.h"), ("map_to_bins_direct, map_to_bins_chunkwise", "lib/core/include/scipp/core/element/map_to_bins.h"), ("begin_edge, end_edge, subbin_sizes_*", "lib/core/include/scipp/core/element/bin_detail.h, lib/core/include/scipp/core/element/bin.h")],
  ["element::bin", "element::count_indices"])

p("C17", "Histogram bins hold the sum of the weights of their events",
  "After histogramming, each bin's value (and variance) is the sum of the values (variances) of exactly the events whose coordinate lies in that half-open bin; events outside all bins, or with NaN coordinate, contribute nowhere. Unsorted edges are refused.",
  ["inputs"], "all event lists, weights, and edge arrays of any length, for the evenly spaced and the general path",
  "tests histogram a few events; conservation over arbitrary event lists and edges is a loop invariant, not a sample",
  ["core/include/scipp/core/element/histogram.h", "core/include/scipp/core/histogram.h"],
  [("element::histogram", "lib/core/include/scipp/core/element/histogram.h"), ("get_bin", "lib/core/include/scipp/core/histogram.h")],
  ["element::histogram"])

p("C18", "Rebinning distributes counts by overlap and conserves them",
  "Rebinning gives each new bin the sum over the old bins of their content times the fraction of the old bin's width that overlaps the new bin, for ascending and descending edges alike, the old edges being strictly monotonic (a bin without width has no density). Hence if the new edges cover the old ones the total is unchanged, and variances are treated like values.",
  ["inputs"], "all old and new edge arrays of any length and all contents, in real arithmetic",
  "tests use a few aligned grids; the two-pointer sweep must advance correctly for every interleaving of edges",
  ["core/include/scipp/core/element/rebin.h"],
  [("element::rebin", "lib/core/include/scipp/core/element/rebin.h")],
  ["element::rebin"])

p("C19", "Sparse sub-bin counts behave like zero-padded integer sequences",
  "Sums, differences, intersections, totals and running sums of offset count blocks equal those of the corresponding integer sequences that are zero outside the block, whatever the offsets and lengths of the operands. A block with a negative offset is refused.",
  ["inputs"], "all offsets, block lengths and counts",
  "tests use a few offset/length pairs; all overlap patterns and lengths must agree with the sequence semantics",
  ["core/subbin_sizes.cpp", "core/include/scipp/core/subbin_sizes.h"],
  [("SubbinSizes arithmetic", "lib/core/subbin_sizes.cpp")],
  ["SubbinSizes"])

p("C20", "Scans, time points and unit scaling compute what they name",
  "Running sums yield at each position the total of the elements before (exclusive) or up to (inclusive) it; adding and subtracting offsets to time points is exact integer arithmetic whose operations invert one another; converting integers and times to another unit rounds the scaled value to the nearest integer and saturates instead of wrapping.",
  ["inputs"], "all element values, time points, offsets and scales",
  "tests use small numbers; halves, negative values and values at the limits of the integer range are not covered",
  ["core/include/scipp/core/element/cumulative.h", "core/include/scipp/core/time_point.h", "core/include/scipp/core/element/to_unit.h"],
  [("exclusive_scan, inclusive_scan", "lib/core/include/scipp/core/element/cumulative.h"), ("time_point operators", "lib/core/include/scipp/core/time_point.h"), ("to_unit, round, safe_cast", "lib/core/include/scipp/core/element/to_unit.h")],
  ["time_point", "element::to_unit", "element::exclusive_scan"])

p("C21", "Combining spatial transforms equals applying them one after the other",
  "For rotations, translations, linear and affine transforms, the product of two transforms applied to a vector equals applying the right one and then the left one, for every pairing of kinds; applying a transform and then its inverse gives the vector back.",
  ["inputs"], "all vectors, matrices, translations and unit quaternions, in real arithmetic, for all pairings of transform kinds",
  "tests use particular, often axis-aligned transforms in which a swapped order or dropped translation can go unnoticed",
  ["core/include/scipp/core/spatial_transforms.h", "core/include/scipp/core/eigen.h"],
  [("Quaternion, Translation and their operator*", "lib/core/include/scipp/core/spatial_transforms.h")],
  ["Quaternion", "Translation", "Eigen::Affine3d"])

p("C22", "Units of results follow the rules of physical quantities",
  "Adding, subtracting or taking remainders requires equal units and keeps the unit; comparing requires equal units and yields no unit; multiplying and dividing multiply and divide the units, powers and roots raise them; trigonometric functions require angles and their inverses yield radians; closeness tolerances must have the unit the comparison needs; no-unit combines only with no-unit; and an operation whose unit would not be representable is refused.",
  ["inputs"], "all pairs of units, including no-unit, counts, radians and degrees, over an abstract unit algebra",
  "tests combine a few units; the special cases must be consistent for every operand pair and both orders",
  ["units/unit.cpp", "units/include/scipp/units/unit.h", "core/include/scipp/core/element/arithmetic.h"],
  [("Unit operators, expect_not_none, pow, sqrt, trigonometric units", "lib/units/unit.cpp")],
  ["units::Unit"])

p("C23", "NaN-, infinity- and tolerance-aware element operations are exact",
  "Tests for NaN, infinities and finiteness match IEEE classification; replacing special values replaces exactly the matching elements; closeness comparison is |x-y| <= tolerance (for integers whose difference is representable), optionally treating NaN as equal to NaN and infinities of equal sign as equal; running minimum and maximum propagate NaN or skip it as named, independent of operand order.",
  ["inputs"], "all IEEE doubles and floats, including NaN, infinities, signed zeros and subnormals",
  "tests cover one representative per class; every bit pattern and operand order is required",
  ["core/include/scipp/core/element/special_values.h", "core/include/scipp/core/element/comparison.h", "common/include/scipp/common/numeric.h"],
  [("isnan, isinf, isfinite, isposinf, isneginf, nan_to_num, positive_inf_to_num, negative_inf_to_num", "lib/core/include/scipp/core/element/special_values.h"), ("isclose, isclose_equal_nan, min_equals, max_equals, nanmin_equals, nanmax_equals", "lib/core/include/scipp/core/element/comparison.h")],
  ["element::isnan", "element::isclose", "element::max_equals"])

p("C24", "Keyed collections keep insertion order and one value per key",
  "A keyed collection maps each key to the last value assigned to it, keeps keys in order of first insertion, and after removing a key keeps the other pairs unchanged and in order; looking up a missing key is refused; iterating while the collection changes size is detected.",
  ["inputs", "histories"], "all keys, values and sizes; operations compose to all histories",
  "tests use a few keys; pairing of keys and values after arbitrary removals needs every position",
  ["core/include/scipp/core/dict.h"],
  [("Dict::insert_or_assign/extract/erase/find/operator[]", "lib/core/include/scipp/core/dict.h")],
  ["core::Dict"])

p("C25", "Read-only data is never modified through any handle",
  "Data marked read-only cannot be changed through a variable, slice, coordinate or mask handle obtained from it by any sequence of public operations; attempts are refused and leave all data as it was.",
  ["histories", "programs"], "all sequences of slicing, viewing, assigning and in-place operations on variables, data arrays and datasets",
  "tests try individual operations; the guarantee ranges over all paths from a read-only object to a writable handle",
  ["variable/variable.cpp", "dataset/data_array.cpp", "dataset/sized_dict.cpp"],
  [("Variable::expect_writable and read-only propagation in slice", "lib/variable/variable.cpp"), ("SizedDict::set_readonly", "lib/dataset/sized_dict.cpp")],
  ["Variable", "DataArray"])

p("C26", "Coordinates and masks always fit the data they belong to",
  "Every coordinate, mask and attribute of a data array or dataset only has dimensions of its parent, with matching length or, where allowed, bin-edge length in one dimension; operations that would violate this are refused and leave the object unchanged.",
  ["histories", "inputs"], "all sequences of insertions, removals, slices, renames and merges",
  "tests cover particular insertions; the representation invariant must survive every history",
  ["dataset/sized_dict.cpp", "dataset/dataset.cpp", "dataset/data_array.cpp"],
  [("SizedDict::set, setSizes, slice, rename_dims", "lib/dataset/sized_dict.cpp")],
  ["SizedDict", "DataArray", "Dataset"])

p("C27", "Element-wise operations give the same result however they are scheduled",
  "The result of an element-wise operation or reduction on arrays is the same whether it runs on one thread or is split over any number of threads with any chunk sizes, and in-place operations on overlapping operands give the result of first copying the operand.",
  ["schedules", "inputs"], "all thread counts, chunkings and interleavings, all operand layouts",
  "tests run one schedule on small arrays that are not split at all",
  ["variable/include/scipp/variable/transform.h", "core/include/scipp/core/parallel-tbb.h", "variable/include/scipp/variable/accumulate.h"],
  [("do_transform, in_place transform, parallel_for", "lib/variable/include/scipp/variable/transform.h")],
  ["transform", "transform_in_place", "accumulate_in_place"])

p("C28", "Saving and loading gives back the same object",
  "An object written to a file and read back is identical in dimensions, units, types, values, variances, names, masks and alignment flags, for every supported element type and nesting of binned data.",
  ["inputs"], "all supported objects",
  "tests round-trip a list of example objects",
  ["src/scipp/io/hdf5.py"],
  [("save_hdf5, load_hdf5", "src/scipp/io/hdf5.py")],
  ["scipp.io.save_hdf5", "scipp.io.load_hdf5"])

p("C29", "Grouping data keeps every element in exactly one group",
  "Splitting an array into groups along a dimension puts each slice of the input into exactly the group of its key, in input order, and copying the groups back together restores the grouped slices; combining groups reduces exactly the members of each group.",
  ["inputs"], "all key arrays, group orders and dimension lengths",
  "tests group a few rows with a few keys",
  ["dataset/groupby.cpp"],
  [("groupby, GroupBy::copy, GroupBy::reduce", "lib/dataset/groupby.cpp")],
  ["groupby"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for d in P:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
