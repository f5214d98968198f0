"""Writes properties.jsonl (kept as Python for readability)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), obs=()):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if obs:
        a['observe_at'] = list(obs)
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


p('C01', 'Sorting returns an ordered permutation',
  'Every sorting routine leaves the elements in the requested order and keeps exactly the same elements with the same multiplicities; the index-returning sort also reports, for every final position, the distinct old position its element came from. Building a heap makes every parent dominate its children, and repairing one position restores that without touching elements outside the heap.',
  ['inputs'], 'all sequences (any length below 2^30, any values) and both directions',
  'The tests sort a few random vectors; a comparison or bound that is wrong only for some length, order or tie is not reached, and one of the routines has no test at all.',
  ['basicmath/include/mt_sort.h'], [('bubble sort, heap sort, heap construction and repair, index sort', 'basicmath/include/mt_sort.h')])
p('C02', 'Top-k selection keeps the k best elements',
  'After any sequence of elements was passed to a top-k selection created for k >= 1 largest (or smallest) elements, the selection holds exactly min(k, length) of them, with their multiplicities, and each is at least as good as every element left out. The sorted form returns the same elements ordered best first, and asking for it does not disturb the selection.',
  ['inputs'], 'all sequences, all k, both directions', 'The single test compares one random sample; ties, k equal to the length and adversarial orders are not reached.',
  ['basicmath/include/mt_top_k.h', 'basicmath/include/mt_sort.h'], [('heap of the k best seen so far', 'basicmath/include/mt_top_k.h')])
p('C03', 'Dynamic-programming helpers return the true optimum',
  'The maximum-sum run is a contiguous run whose sum equals the reported value and no contiguous run has a larger sum; the longest common substring occurs in both inputs at the reported places, all such places are listed, and no longer one exists; the knapsack value equals the best value of any choice of items that fits, and the marked items fit and are worth exactly that.',
  ['inputs'], 'all sequences of numbers, all pairs of strings, all item lists and capacities',
  'Optimality is a statement about all alternatives; the tests check a few fixed inputs.',
  ['basicmath/include/dynamic_programming/mt_max_sum_for_continuous_element.h', 'basicmath/include/dynamic_programming/mt_longest_common_substring.h', 'basicmath/include/dynamic_programming/mt_01_bag.h'],
  [('running best of runs ending at each position', 'basicmath/include/dynamic_programming/mt_max_sum_for_continuous_element.h'), ('table of common suffix lengths', 'basicmath/include/dynamic_programming/mt_longest_common_substring.h'), ('value table over items and capacity', 'basicmath/include/dynamic_programming/mt_01_bag.h')])
p('C04', 'Sequence statistics equal their definitions',
  'Minimum, maximum, smallest absolute value, first position of an extremum, median, sum, product, prefix sums, sub-sequence, mirror image, partition by parity, and the test that all elements equal a value, agree with their mathematical definitions over all elements of the sequence, whatever the position of the extremum and whatever the signs. Rearranging operations keep exactly the same elements; none of them reads or writes outside the sequence and the others leave it unchanged.',
  ['inputs'], 'all sequences of representable results', 'The helpers are used everywhere but hardly tested: extremes at the ends, negatives and ties decide correctness.',
  ['basicmath/include/mt_helper.h', 'basicmath/src/mt_helper.cpp'], [('loops over the whole sequence', 'basicmath/include/mt_helper.h')])
p('C05', 'Integer and bit helpers equal their definitions',
  'Counting one bits, reversing the bytes of a number, factorial and combination numbers, conversion between a multi-dimensional and a flat index (each the inverse of the other), counting the digit 1 in all numbers up to a bound, and inserting the digit 5 for the largest result return the mathematically defined value for every argument whose result is representable, and end for every argument.',
  ['inputs'], 'all 2^32 arguments (pairs for binary operations)', 'Corner arguments (0, all ones, the minimum) are not in the tests.',
  ['basicmath/include/mt_helper.h', 'basicmath/src/mt_helper.cpp'], [('bit manipulation loops', 'basicmath/src/mt_helper.cpp')])
p('C06', 'Rectangles and ranges behave as sets of points',
  'A rectangle built from two corners, moved, intersected, united or grown contains exactly the points the operation says; intersection is the set of common points, union the smallest rectangle containing both, and area, centre, corners and containment tests agree with that set.',
  ['inputs'], 'all rectangles of non-negative size and all points of representable coordinates', 'Only constructors are exercised; overlap by one row, empty overlap and negative origins are not.',
  ['basicmath/include/mt_rect_t.h', 'basicmath/include/mt_range_t.h', 'basicmath/include/mt_point_t.h'], [('closed form of corners and overlap', 'basicmath/include/mt_rect_t.h')])
p('C07', 'The block arena hands out distinct stable storage',
  'Every element handed out by the growing arena is distinct from all others handed out since the last clear, stays at its address and keeps its content while more elements are added, and element number i is the i-th one handed out. Clearing and reusing never hands out storage outside the blocks.',
  ['inputs', 'histories'], 'all sequences of add / clear / index operations and all block sizes', 'Tests add a few elements; crossing a block boundary after a clear needs specific histories.',
  ['basicmath/include/mt_block_memory.h'], [('blocks of 2^k elements, position = block * size + offset', 'basicmath/include/mt_block_memory.h')],
  [('block list, current block, fill position', 'elements handed out so far', 'basicmath/include/mt_block_memory.h')])
p('C08', 'Matrix element addressing is exact and stays inside the storage',
  'For every shape, element type and channel count the element at given coordinates lives at offset sum(coordinate * stride) with dense row-major strides, distinct coordinates never share bytes, every element lies inside the allocated bytes, and element count, byte count and shape queries agree with that layout.',
  ['inputs', 'configurations'], 'all shapes (up to 2^31 elements), all element types and channel counts', 'Tests use a handful of shapes.',
  ['basicmath/include/mt_mat.h', 'basicmath/src/mt_mat.cpp', 'basicmath/include/mt_array_iteration.h', 'basicmath/src/mt_array_iteration.cpp'],
  [('stride computation on creation', 'basicmath/src/mt_mat.cpp'), ('coordinate to pointer', 'basicmath/include/mt_mat.h')])
p('C09', 'Matrix views denote the right elements of the same storage',
  'Sub-range, row, column, channel, transposed, flipped and reshaped views read and write exactly the elements of the original that their definition names, without copying, and never any other element.',
  ['inputs', 'configurations'], 'all shapes, ranges, steps, axes', 'Composed views (a flip of a sub-range of a transpose) are not covered.',
  ['basicmath/src/mt_mat.cpp', 'basicmath/include/mt_mat.h'], [('offset, size and signed stride per axis', 'basicmath/src/mt_mat.cpp')])
p('C10', 'Shared matrix storage lives exactly as long as its users',
  'Storage shared by matrices and views is released exactly once, when the last of them is destroyed, detached or reassigned, and never while one of them still refers to it; assigning a matrix to itself changes nothing.',
  ['histories'], 'all sequences of create, copy, assign, view, release', 'A double release or early release needs a particular history.',
  ['basicmath/src/mt_mat.cpp', 'basicmath/include/mt_mat.h'], [('reference count of the shared block', 'basicmath/src/mt_mat.cpp')])
p('C11', 'Matrix fill, copy, convert and compare act on every element',
  'Filling, copying, converting the element type, comparing and building identity-like matrices act on every element of the matrix or view and on nothing else, and the value written equals the converted source value.',
  ['inputs', 'configurations'], 'all shapes, views, types', 'Tests use small continuous matrices.',
  ['basicmath/src/mt_mat.cpp', 'basicmath/src/mt_array_iteration.cpp', 'basicmath/include/mt_array_iteration.h'], [('line-wise iteration over all elements', 'basicmath/include/mt_array_iteration.h')])
p('C12', 'Matrix arithmetic is element by element',
  'Adding, subtracting, multiplying, dividing and reducing matrices computes, at every element, the scalar operation on the corresponding elements, for continuous and strided operands alike.',
  ['inputs', 'configurations'], 'all shapes, types, operand layouts', 'Only a few shapes are tested.', ['basicmath/src/mt_mat_math_operation.cpp'], [('per-type loops', 'basicmath/src/mt_mat_math_operation.cpp')])
p('C13', 'Convolution and pooling sizes and pooled values follow their definitions',
  'The result size of a convolution equals the number of kernel placements for the border mode, stride and kernel; the result size of a pooling is the smallest number of windows, one per stride step, that reaches the end of the input, so every window starts inside the input and none is superfluous; every pooled value is the mean, sum, maximum, minimum or first value of exactly the input elements inside its window, and the recorded position of a maximum or minimum names an element of the window with that value.',
  ['inputs'], 'all sizes, strides, kernels and border modes; all matrices', 'Tests use one or two sizes; off-by-one appears only when stride does not divide.',
  ['basicmath/src/mt_mat_helper.cpp', 'basicmath/include/mt_mat_helper.h', 'basicmath/src/mt_pooling.cpp'], [('closed-form size computation', 'basicmath/src/mt_mat_helper.cpp'), ('pooling kernels', 'basicmath/src/mt_pooling.cpp')])
p('C14', 'Buffers and files return what was written',
  'What is written to a byte or string buffer or file through any sequence of writes and seeks is read back unchanged, in order and complete, binary zeros included: a write replaces or appends exactly the bytes written at the current position and moves it past them; reading more bytes than are left changes nothing but the status, reading a line ends at the end of the line, and readers report the end exactly when all bytes were consumed.',
  ['inputs', 'histories'], 'all byte sequences, all types of values and all orders of writes, seeks and reads', 'Boundary positions, binary zeros and writes in the middle are not exercised.',
  ['basicsys/include/sys_buffer.h', 'basicsys/src/sys_buffer.cpp'], [('position and length bookkeeping', 'basicsys/src/sys_buffer.cpp')])
p('C15', 'JSON values survive writing and reading',
  'Any value built from numbers, booleans, strings, arrays and objects that is written in the text or the binary form reads back as an equal value.',
  ['inputs'], 'all value trees', 'Tests round-trip one document.', ['basicsys/src/sys_json.cpp', 'basicsys/include/sys_json.h'], [('writer and reader of both forms', 'basicsys/src/sys_json.cpp')])
p('C16', 'String helpers equal their definitions',
  'Splitting, replacing, case mapping, trimming, prefix and suffix tests and number conversion of strings equal their definitions for every input and always end; splitting and joining with the same separator gives the string back.',
  ['inputs'], 'all strings and separators', 'Empty separators, separators at the ends and overlapping matches are not tested.', ['basicsys/src/sys_strhelper.cpp', 'basicsys/src/sys_strconvert.cpp'], [('scan with find', 'basicsys/src/sys_strhelper.cpp')])
p('C17', 'Element type codes encode depth and channels faithfully',
  'An element type built from a depth and a channel count gives back that depth, channel count and byte size, and distinct pairs give distinct types.',
  ['inputs'], 'all depths and channel counts', 'Only a few types are named in tests.', ['basicmath/include/mt_data_type.h', 'basicmath/src/mt_data_type.cpp', 'basicmath/include/mt_mat.h'], [('bit layout of the type code', 'basicmath/include/mt_data_type.h')])
p('C18', 'Parallel MSER: patches tile the image and work areas are disjoint',
  'For every image size and supported thread count the image is cut into patches that cover every pixel exactly once, and the work areas given to different threads (pixel lists, heaps, region stores) never overlap and are large enough for their patch.',
  ['inputs', 'configurations'], 'all image sizes and all supported thread counts', 'There is no test of the extractor at all; sizes that do not divide by the grid decide it.',
  ['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp'], [('patch geometry and buffer offsets computed on allocation', 'basicimg/src/img_fast_mser_v2.cpp'), ('the same for version 1', 'basicimg/src/img_fast_mser_v1.cpp')])
p('C19', 'Parallel MSER: the boundary heap is laid out exactly by gray level',
  'Before a patch is flooded every gray level owns a slice of the pixel list as long as the number of pixels of that level in the patch, the slices are disjoint and cover the list, the border of the patch is marked so that flooding never leaves it, and both polarities use the same rule on the mirrored gray values.',
  ['inputs'], 'all images and patches', 'No test runs the extractor.', ['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp'], [('gray histogram and prefix sums per patch', 'basicimg/src/img_fast_mser_v2.cpp')])
p('C20', 'MSER: merging components never loses or duplicates a pixel',
  'When two components are merged the result contains exactly the pixels of both, its size is the sum of both sizes, and a region created from a component records its current size, gray level and pixel list.',
  ['inputs', 'histories'], 'all sequences of merges', 'No test runs the extractor.', ['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp'], [('linked pixel lists and sizes', 'basicimg/src/img_fast_mser_v2.cpp')])
p('C21', 'MSER: joining patch trees keeps an ordered component forest',
  'Joining the component trees of two neighbouring patches at a pair of adjacent pixels keeps the parent relation acyclic and ordered by gray level, preserves the total number of pixels, and links the two pixels at the smallest gray level that connects them.',
  ['inputs', 'schedules'], 'all forests and all orders of joining', 'No test runs the extractor; deep and unbalanced trees decide it.', ['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp'], [('joining along patch borders', 'basicimg/src/img_fast_mser_v2.cpp')])
p('C22', 'MSER: a region is reported exactly when it is stable and maximal',
  'A component is accepted exactly when its size lies within the limits and its growth over delta gray levels is below the variation limit and a local minimum along its path to the root; of nested near-duplicates exactly those within the diversity limit are suppressed.',
  ['inputs', 'configurations'], 'all component trees and all parameter settings', 'No test runs the extractor.', ['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_mser_base.cpp'], [('variation, stability and duplicate tests', 'basicimg/src/img_fast_mser_v2.cpp')])
p('C23', 'MSER extraction equals the definition for every thread count',
  'The set of regions extracted from an image (each a set of pixels with a gray level and polarity) equals the set given by the definition of maximally stable extremal regions, is the same for both versions of the extractor and for every supported number of threads, and does not depend on what was extracted before.',
  ['inputs', 'configurations', 'histories', 'schedules'], 'all images, parameter settings, thread counts and preceding extractions', 'There is no test of the extractor in the suite.',
  ['basicimg/src/img_fast_mser_v1.cpp', 'basicimg/src/img_fast_mser_v2.cpp', 'basicimg/src/img_mser_base.cpp', 'basicimg/include/img_mser_base.h'], [('flooding, joining, recognition, pixel extraction', 'basicimg/src/img_fast_mser_v2.cpp')])
p('C24', 'MSER results own their pixels',
  'A copied or assigned extraction result denotes the same regions as the original, stays valid and unchanged when the original is changed, extracted into again or destroyed, and all memory is released exactly once.',
  ['histories'], 'all sequences of copy, assign, extract, destroy', 'Nothing in the suite copies a result.', ['basicimg/include/img_mser_base.h', 'basicimg/src/img_mser_base.cpp', 'basicimg/src/img_mser_result.cpp'], [('owned and shared point storage', 'basicimg/include/img_mser_base.h')])
p('C25', 'Connected components are the connectivity classes',
  'Labelling gives two foreground pixels the same label exactly when they are connected under the chosen neighbourhood, labels are consecutive, and the union-find behind it keeps exactly the equivalence generated by the unions made so far.',
  ['inputs', 'histories'], 'all binary images and all union sequences', 'Spirals and late merges decide it; nothing tests it.', ['basicimg/include/img_connected_component.h', 'basicimg/src/img_connected_component.cpp'], [('label equivalences', 'basicimg/include/img_connected_component.h')])
p('C26', 'Log records reach the sink once, whole and in order',
  'A record whose level is enabled and whose tag is not filtered reaches the sink of the logger exactly once, whole and in the order of submission, never mixed with a record of another thread; a disabled level or a filtered tag delivers nothing; switching one level changes no other; the file sink writes every record once to its current file and starts a new file in its folder, overwriting none of the kept ones, exactly when there is none or it is full.',
  ['inputs', 'histories', 'schedules'], 'all sequences of records and settings, all lengths of records', 'Tests only call the logger and compare nothing.', ['basiclog/src/basiclog.cpp', 'basiclog/include/basiclog.h'], [('level switches, filters, pieces of long records, mutex', 'basiclog/src/basiclog.cpp'), ('macros that test the level', 'basiclog/include/basiclog.h')])
if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
