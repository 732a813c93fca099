"""Texts of the properties. tools/gen.py writes properties.jsonl and MANIFEST.json from this file and vf/props.py."""
C = {}


def P(id, title, statement, over, text, why, files, mech, note, state=None, observe=None):
    C[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]), note=note)


NA = {}

P('P01', 'Bit counting, rotation, byte order and bit arrays are exact',
  'Bit counts, right rotations by 1 to 31 (or 63) places, big-endian splitting and composing, and bit-array creation, clearing, writing and reading return the mathematically exact result for every operand and every index. Writing or clearing bits changes only the addressed bits (for clearing, only the bytes that hold the array).',
  ['inputs'], 'all 32- and 64-bit operands, all rotation amounts the operation is defined for, all bit indices and array lengths',
  'tests sample a few operands; 2^64 operands and indices beyond 2^32 cannot be enumerated',
  ['include/virg/nexus/nx_bit_ops.h', 'src/nx_bit_ops.c'],
  [('bit counting', 'src/nx_bit_ops.c nx_bit_count32/64'), ('rotation, byte order, bit arrays', 'include/virg/nexus/nx_bit_ops.h')],
  'all bit operations proved for every operand; allocation failure is fatal by contract of the allocator model')
P('P02', 'SHA-256 digests follow the standard for every message and every split',
  'The digest of a message is the FIPS 180-4 SHA-256 digest for every byte sequence of every length, and hashing a message given as consecutive parts gives the digest of their concatenation whatever the part boundaries, including empty parts. No byte outside the given parts is read and only the 32 digest bytes are written.',
  ['inputs'], 'all messages up to 2^61 bytes, all part counts and part lengths',
  'tests hash a few hundred fixed vectors; padding boundaries, part boundaries and long messages form an unbounded space',
  ['src/nx_hash_sha256.c', 'src/nx_string.c'],
  [('block compression', 'src/nx_hash_sha256.c nx_sha256_process_block'), ('padding and length', 'src/nx_hash_sha256.c nx_sha256_multi'), ('part gathering', 'src/nx_string.c nx_memncpy_multi')],
  'block compression, gathering, padding and the whole-message digest proved against FIPS 180-4 written as specification functions; unbounded message length and part count')
P('P03', 'Memory blocks and typed vectors keep their contents and ownership',
  'After any operation on a memory block or typed vector, the bytes (elements) below the smaller of old and new size are unchanged, the size is the requested one, the capacity is at least the size and never shrinks unless released or replaced. Owned memory is freed exactly once, borrowed memory is never freed, resized or written beyond its size by growth, copies are independent of their source, and swapping exchanges both blocks completely.',
  ['inputs', 'histories'], 'all sequences of create, reserve, resize, wrap, copy, swap, push, clear, release and free with any sizes, owned or borrowed memory',
  'tests run a few fixed operation sequences; ownership errors show only in particular histories and only as memory corruption',
  ['src/nx_mem_block.c', 'src/nx_vector_gen.c', 'src/nx_keypoint_vector.c'],
  [('memory block', 'src/nx_mem_block.c'), ('generic vector', 'src/nx_vector_gen.c instantiated in src/nx_keypoint_vector.c')],
  'every operation proved to preserve the block invariant and to transform contents as specified, so any history preserves it; heap leaks and double frees are obligations; vector proved on its key-point instantiation')
P('P04', 'Strings, their stored forms and their escaped forms round-trip',
  'Duplicating or re-duplicating a string yields an independent equal copy and frees what it replaces. Writing a string to a stream and reading it back returns the same string whatever characters and length it has; a short, corrupt or failing stream is reported and never yields a string. Reading lines returns each line in turn, keeps the buffer large enough, and reports the end of input. Text written in readable or double-quoted form decodes to the original text; decoding never reads or writes outside the text.',
  ['inputs', 'fault_sequences'], 'all strings of any length and content, all stream contents including truncated and corrupt ones, failure of any read or write',
  'tests use a handful of short strings; escapes at buffer ends, stored lengths and truncated streams form an unbounded space',
  ['src/nx_string.c'],
  [('copies and formatting', 'src/nx_string.c nx_strdup, nx_strredup, nx_vfstr, nx_fstr'), ('stored form', 'src/nx_string.c nx_strwrite, nx_strread, nx_strread0'), ('line input', 'src/nx_string.c nx_getline'), ('escaped forms', 'src/nx_string.c nx_fputs_readable, nx_fputs_double_quoted, nx_xstr_from_readable, nx_xstr_from_double_quoted'), ('digest text', 'src/nx_string.c nx_hash_to_str')],
  'all functions proved for strings of any length and any stream behaviour; vsnprintf text itself is trusted; nx_fstr (variadic wrapper) is run, not proved')
P('P05', 'String arrays own their strings and keep them',
  'An array of strings behaves as a sequence of optional strings: setting, resizing, appending and clearing change exactly the addressed slots, kept slots hold the same text, new slots are empty, searching returns the first equal string or -1, and every string that leaves the array is freed exactly once. Writing an array to a stream and reading it back returns equal strings, and a truncated or corrupt stream is reported.',
  ['inputs', 'histories', 'fault_sequences'], 'all sequences of operations with any sizes and strings, including unset slots and self-appending, and all stream contents',
  'tests run a few fixed sequences; ownership mistakes need particular histories of growth, shrinking and unset slots',
  ['src/nx_string_array.c'],
  [('array operations', 'src/nx_string_array.c'), ('stored form', 'src/nx_string_array.c nx_string_array_write, nx_string_array_read')],
  'every operation proved to preserve the ownership invariant and to change exactly the specified slots, for arrays of any size; stream reading back is a bounded stand-in')
P('P06', 'Lexers split every text into exactly the specified tokens',
  'For every text a lexer moves one character at a time (every byte value except the terminator is a character), reports end of file only at the end, and its line and column are those of its position. Matching a word succeeds exactly when the word stands at the position and moves past it, else nothing changes. A number is the longest JSON number, a quoted string ends at its first unescaped quote; ill-formed ones end the program. The CSV lexer yields fields, quoted fields with doubled quotes undone, commas, ends of record and of file; the JSON lexer skips white space and yields punctuation, constants, numbers and decoded strings; each token owns exactly its text, the text of the previous token is released, and the input text is not changed.',
  ['inputs', 'histories'], 'all texts (up to 2^27 bytes), positions and sequences of lexer operations',
  'tests tokenise a few well-formed texts; a wrong end position, a lost state restore or a misread byte shows only for particular texts',
  ['src/nx_lexer.c', 'src/nx_csv_lexer.c', 'src/nx_json_lexer.c'],
  [('character lexer', 'src/nx_lexer.c nx_lexer_consume, nx_lexer_match, nx_lexer_NUMBER, nx_lexer_QUOTED_STRING'), ('CSV tokens', 'src/nx_csv_lexer.c nx_csv_lexer_next_token'), ('JSON tokens', 'src/nx_json_lexer.c nx_json_lexer_next_token')],
  'all lexer operations and both token functions proved for every text against recursive definitions of where tokens end; that the decoder undoes the encoding is the contract of P04; token names are bounded stand-ins')
P('P07', 'JSON documents become exactly the tree they describe, and back',
  'For every token sequence the parser accepts exactly the JSON documents whose root is an array or an object and builds exactly the described tree: one node per value, of its kind, with the decoded text, children in order, members as name followed by value; anything else ends the program. Access by position or by name yields the matching element of a fitting type, else null, and the forcing variants end the program instead; appending keeps the order of the children; freeing a tree releases every node and text exactly once. Printing a tree and parsing the output gives the same tree; bundled values (vectors, matrices, keypoints, matches) carry all their numbers.',
  ['inputs', 'histories'], 'all token sequences of any length and nesting, trees of any shape, all sequences of tree operations',
  'tests parse two or three documents; wrong nesting, lost siblings, accepted garbage or lost escapes need particular documents',
  ['src/nx_json_parser.c', 'src/nx_json_tree.c', 'src/nx_json_bundle.c', 'src/nx_json_log.c'],
  [('parser', 'src/nx_json_parser.c nx_json_parser_parse, nx_json_parser_parse_value'), ('tree', 'src/nx_json_tree.c nx_json_node_add_child, nx_json_object_get, nx_json_array_get, nx_json_tree_free'), ('bundling', 'src/nx_json_bundle.c')],
  'parser proved against the recursive grammar for every token sequence (the tokens are the contract of P06), tree building, access and release proved for trees of any shape; printing, bundling and log streams are bounded stand-ins')
P('P08', 'Data frames keep every typed element; CSV text and frames agree',
  'After any history of adding columns and rows, setting, clearing and turning columns into factors, every element of a data frame is the value last set there (an own copy) or missing, labels and column types are the given ones, a factor column has each distinct value as one level in order of first use, and reading or setting with another type, or reading a missing element, ends the program. Freeing releases everything once. Saving writes labels and strings quoted with doubled quotes, numbers so that they read back to the same value and nothing for missing elements; loading accepts exactly the tables with equally many fields per record, gives each column the smallest type that holds all its fields (decimal integers in range, numbers, true and false, else strings; quoted fields are strings), and reads back what was saved.',
  ['inputs', 'histories'], 'all histories of operations, all sizes, all strings and numbers, all CSV texts',
  'tests set a few elements of small frames and never load what they saved with unusual labels, types or sizes',
  ['src/nx_data_frame.c', 'src/nx_csv_parser.c', 'include/virg/nexus/nx_data_frame.h'],
  [('elements', 'src/nx_data_frame.c nx_data_frame_set_*, nx_data_frame_get_*'), ('columns and rows', 'src/nx_data_frame.c nx_data_frame_add_column, nx_data_frame_add_row, nx_data_column_append_row'), ('CSV', 'src/nx_csv_parser.c nx_csv_parser_parse, src/nx_data_frame.c nx_data_frame_fprintf, nx_data_frame_load_csv_stream')],
  'element access, column and row growth, queries and release proved for frames of any size; the CSV reader and writer, factors made from columns and the variadic setters are bounded stand-ins against independent rules')
P('P09', 'Command-line options get exactly the values the arguments give them',
  'For every set of declared options and every argument list each option has the value of its last occurrence (the following argument for integers, numbers and texts; true for a switch), else its default, also when arguments are parsed again; is-set reports exactly the options that occurred; the rest holds exactly the other arguments, in order, as own copies. A declaration with an ill-formed or already used name, a missing value, a missing required option or rest, help, and a query of an unknown name or of another type end the program. Printed values and usage list every option once with its names, value or default and help. Freeing releases everything once.',
  ['inputs', 'histories'], 'all declarations, names (also with equal hashes), argument lists, repeated parses and queries',
  'tests parse a few fixed argument lists; colliding names, repeated options, repeated parses and error paths are not settled by them',
  ['src/nx_options.c'],
  [('map', 'src/nx_options.c nx_options_hash_code, nx_options_find_in_map, nx_options_add_to_map'), ('declaring', 'src/nx_options.c nx_options_add, nx_options_vadd, nx_option_data_add, nx_option_data_set_names'), ('parsing', 'src/nx_options.c nx_options_set_from_args, nx_options_set_rest_from_args, nx_options_check_required'), ('queries', 'src/nx_options.c nx_options_get_bool, nx_options_get_int, nx_options_get_double, nx_options_get_string, nx_options_is_set, nx_options_get_rest'), ('release', 'src/nx_options.c nx_option_data_free, nx_options_free')],
  'the map, declarations by type, parsing of whole argument lists, gathering of the rest, defaults and required options, queries and release proved for all declarations and argument lists; splitting of declared names and printing are bounded stand-ins')
P('P10', 'Graphs hold exactly the undirected edges inserted, with their last weights',
  'After any history of insertions an adjacency-matrix and an adjacency-list graph hold exactly the edges inserted, in both directions, with the weight last given; an edge from a vertex to itself is ignored; the edge count is the number of distinct edges; the name is the given one or G. Searching a list finds the first node of the vertex or nothing. Freeing a graph or a list releases every node, list and name exactly once.',
  ['inputs', 'histories'], 'all numbers of vertices, lists of any length, all histories of insertions including repeated ones',
  'tests insert a few edges into small graphs; duplicates, updates, counts and releases go wrong only for particular histories',
  ['src/nx_graph.c', 'include/virg/nexus/nx_graph.h'],
  [('matrix form', 'src/nx_graph.c nx_graph_*_adj_mat'), ('list form', 'src/nx_graph.c nx_graph_*_adj_lst, nx_graph_edge_*')],
  'every function proved for graphs and lists of any size (insertion per step, given symmetric lists)')
P('P11', 'An image always describes exactly the storage it has',
  'After any history of creating, resizing, wrapping, copying, swapping, zeroing and releasing images, the reported width, height, type, element type, channel count and row stride are those last requested (the stride never below one full row), the pixel pointer is the image\'s own block, which holds row_stride * height elements; a copy has the same pixels in separate storage; wrapped storage is used as given and freed only if ownership was passed; freeing releases everything exactly once.',
  ['histories', 'inputs'], 'all well-formed images (empty, owning, wrapping; both types and element types), dimensions and strides with stride * height within int, and all sequences of container operations',
  'tests build a few small images; stale strides, sizes or owners show only after particular sequences of operations',
  ['src/nx_image.c', 'include/virg/nexus/nx_image.h', 'src/nx_mem_block.c'],
  [('container', 'src/nx_image.c nx_image_alloc, nx_image_new*, nx_image_resize, nx_image_copy, nx_image_wrap, nx_image_swap, nx_image_release, nx_image_free, nx_image_set_zero')],
  'each container function proved to map every well-formed image to the specified well-formed image; histories follow by induction')
P('P12', 'Pixel-wise operations map every pixel by their formula',
  'For images of every size, stride, type and element type: a*v+y scaling (truncated and clamped to 0..255 for bytes), normalisation to [0, 1] by the true extremes, subtraction over the common area, conversion between byte and float pixels, gray and RGBA, and colour-map application give every pixel of the result, in the result\'s own storage, the value of the formula; alpha is full; other images and row padding are untouched.',
  ['inputs', 'configurations'], 'all image sizes and strides with stride * height within int, all pixel values (float to byte conversions within int range), all previous states of the destination image',
  'tests use a few small images; stride, channel and last-column errors or wrong clamping show only for particular shapes and values',
  ['src/nx_image.c', 'src/nx_colorspace.c', 'include/virg/nexus/nx_colorspace.h'],
  [('pixel operations', 'src/nx_image.c nx_image_axpy*, nx_image_subtract, nx_image_normalize_to_zero_one, nx_image_convert_*, nx_image_apply_colormap'), ('colour conversion', 'src/nx_colorspace.c')],
  'every function proved for all image sizes and strides in real arithmetic, normalisation for grayscale (RGBA bounded)')
P('P13', 'Filters compute their convolution for every kernel, size and border mode',
  'Copying a row into a filter buffer puts the row in the middle and fills both borders as the border mode says (zero, replicated, mirrored); symmetric and box convolution give at every position the weighted sum of the window; the Gaussian kernel is symmetric, positive and sums to one; the image derivatives are the central differences of every pixel, with the documented treatment of the border. Smoothing and box filtering an image equals filtering its rows, then its columns. Only the result is written, for every size, stride and element type.',
  ['inputs', 'configurations'], 'all row lengths, border widths, kernels, image sizes and strides with stride * height within int; border width below the row length for mirroring, at least two columns or rows for derivatives',
  'tests check one or two kernels on small images; a wrong border element or a stride used for the width shows only for particular shapes and modes',
  ['src/nx_filter.c', 'src/nx_image.c', 'include/virg/nexus/nx_filter.h'],
  [('border modes', 'src/nx_filter.c nx_filter_copy_to_buffer*'), ('convolution', 'src/nx_filter.c nx_convolve_sym, nx_convolve_box'), ('kernels', 'src/nx_filter.c nx_kernel_*'), ('derivatives and smoothing', 'src/nx_image.c nx_image_deriv_*, nx_image_smooth_*, nx_image_filter_box_*')],
  'border fill, convolution, kernels and derivatives proved for all sizes in real arithmetic; whole-image smoothing and box filtering are bounded stand-ins')
P('P14', 'Resampling gives every pixel the value of its sampling formula',
  'Downsampling takes every second pixel of every second row; anti-aliased downsampling along x or y weights the neighbours with (1 6 11 6 1)/25 (mirrored at the start, the centre standing in past the end); upsampling doubles both sizes and interpolates linearly between pixels; scaling interpolates bilinearly at the scaled position. Each result has the stated size and type, every pixel has the value of the formula in its own storage whatever the previous state of the destination, and the source is unchanged. Image pyramids hold the levels these operations produce, with their level, sigma and scale recorded.',
  ['inputs', 'configurations'], 'all image sizes, strides and pixel values, byte and float pixels, all scale factors, all previous states of the destination',
  'tests check that a call succeeds on one image; odd sizes, last columns and padded strides are where index slips show',
  ['src/nx_image.c', 'src/nx_image_pyr.c'],
  [('downsampling', 'src/nx_image.c nx_image_downsample*'), ('upsampling and scaling', 'src/nx_image.c nx_image_upsample*, nx_image_scale*'), ('pyramids', 'src/nx_image_pyr.c')],
  'every resampling operation proved for all sizes, strides and values in real arithmetic; pyramids are bounded stand-ins')
P('P15', 'Vector and matrix operations compute their textbook definitions',
  'Every vector and matrix operation returns the value of its mathematical definition (up to floating point rounding) for operands of any size and any leading dimension: sums, dot and cross products, norms, normalisation (a zero vector is kept), products, determinants, inverses (a singular matrix gives zero), transposition of any shape, largest-element search, solving and decomposition. Only the result elements are written; padding and neighbouring memory are kept. A matrix written as text and read back has the same shape and the same elements.',
  ['inputs'], 'all operand values, all vector lengths, all matrix shapes and leading dimensions, including singular matrices and zero vectors',
  'tests use a few fixed matrices; index and sign slips show only for asymmetric operands, unusual shapes or leading dimensions',
  ['include/virg/nexus/nx_vec.h', 'include/virg/nexus/nx_vec234.h', 'include/virg/nexus/nx_mat.h', 'include/virg/nexus/nx_mat234.h', 'src/nx_mat.c'],
  [('fixed-size operations', 'include/virg/nexus/nx_vec234.h, nx_mat234.h'), ('operations of any size', 'include/virg/nexus/nx_vec.h, nx_mat.h'), ('text form', 'src/nx_mat.c')],
  '49 operations proved equal to their definitions in real arithmetic (rounding is not modelled) with exact write sets; in-place transposition, text form, and the LAPACK wrappers are bounded stand-ins')
P('P16', 'Rotations, quaternions and pinhole projection are geometrically exact',
  'Rotation matrices built from Euler angles, axis and angle, or unit quaternions are the rotations they name (orthogonal, determinant one) and agree with each other; converting between quaternions and matrices and back gives the same rotation; quaternion algebra follows its definition. Projection maps every point as the camera matrix K [R | t] prescribes and returns the least absolute depth; triangulation returns exactly the inlier points in order, never more than requested, at their true positions for consistent matches.',
  ['inputs'], 'all angles, axes, unit quaternions, rotation matrices, camera matrices and numbers of points',
  'tests check a few angles and points; a wrong sign or branch shows only for particular rotations such as half turns',
  ['src/nx_rotation_3d.c', 'src/nx_quaternion.c', 'src/nx_pinhole.c', 'include/virg/nexus/nx_quaternion.h', 'include/virg/nexus/nx_rotation_3d.h'],
  [('Euler angles and axis-angle', 'src/nx_rotation_3d.c'), ('quaternions', 'src/nx_quaternion.c, include/virg/nexus/nx_quaternion.h'), ('projection and triangulation', 'src/nx_pinhole.c')],
  'all rotation, quaternion and projection functions proved in real arithmetic (sine and cosine are uninterpreted with their squares summing to one); triangulation (LAPACK) is a bounded stand-in')
P('P17', 'Planar transforms, homographies and epipolar geometry are consistent',
  'Similarity, affine and perspective transforms equal their documented composition; a homography estimated from four corners maps them to the unit square. Marking inliers sets the flag of exactly the matches within the tolerance, returns their number and changes nothing else. Normalising matches and undoing it gives the matches back, and a model estimated in normalised coordinates is converted to the equivalent model. Robust estimation samples distinct matches, permutes but never alters them, and returns a model whose inliers are exactly those flagged and counted; exact data are recovered. Essential matrices follow from pose and calibration, and the true pose is among the four candidates and is picked.',
  ['inputs', 'schedules'], 'all transforms, matches, match counts and tolerances, and all random sample sequences',
  'tests estimate a few models from fixed matches; flags, normalisation and sampling errors depend on particular matches and random draws',
  ['src/nx_homography.c', 'src/nx_epipolar.c', 'src/nx_transform_2d.c', 'src/nx_point_match_2d_stats.c', 'include/virg/nexus/nx_homography.h', 'include/virg/nexus/nx_point_match_2d.h'],
  [('transforms', 'src/nx_transform_2d.c'), ('inlier marking and robust estimation', 'src/nx_homography.c, src/nx_epipolar.c'), ('normalisation', 'src/nx_point_match_2d_stats.c')],
  'transforms, four-corner homographies, inlier marking, normalisation and its inverses, sampling of distinct matches and essential matrices proved in real arithmetic; SVD-based estimation and the robust loops are bounded stand-ins')
P('P18', 'Order statistics and moments of any sample are exact',
  'For every list of numbers the reported count, least and largest value, mean, sample standard deviation, median, quartiles (medians of the lower and upper half, the middle value excluded) and interquartile range are those of the list, whatever its length, order and magnitude; an empty list gives zeros. Comparison and extremum helpers order all values correctly.',
  ['inputs'], 'all lists of doubles or integers of any length and order, including extreme integers',
  'tests check a few short lists; which elements form a quartile depends on the length modulo four and overflow on extreme values',
  ['src/nx_statistics.c', 'include/virg/nexus/nx_math.h'],
  [('statistics', 'src/nx_statistics.c'), ('comparators', 'include/virg/nexus/nx_math.h nx_compare_double_incr, nx_compare_int_incr')],
  'statistics proved for lists of any length over the sorted values (qsort trusted, comparators proved), in real arithmetic')
P('P19', 'Random samplers are reproducible and stay in range',
  'Two samplers given the same seed yield the same sequence, which is the SFMT-19937 sequence of that seed; single and bulk sampling agree. Uniform real samples lie in [0, 1) for every generator output. Gaussian sampling writes exactly the requested number of samples, each finite and equal to mean plus sigma times the polar-method variate of the uniform samples consumed.',
  ['inputs', 'schedules'], 'all seeds, sample counts and generator outputs, including the extreme 32-bit words',
  'tests draw some samples; a sample of exactly one or a zero radius appears about once in 2^25 or 2^48 draws',
  ['src/nx_uniform_sampler.c', 'src/nx_gaussian_sampler.c', 'src/SFMT/SFMT.h', 'src/SFMT/SFMT.c'],
  [('uniform sampling', 'src/nx_uniform_sampler.c'), ('Gaussian sampling', 'src/nx_gaussian_sampler.c')],
  'seeding and the extent and definedness of Gaussian sampling proved for every uniform sequence; rounding to [0, 1), the generator sequence and the sample values are bounded stand-ins on chosen generator words')
P('P20', 'Image files hold exactly the pixels: what is saved loads back unchanged',
  'Saving an 8-bit image as PGM or PPM writes a correct header and then every pixel row by row whatever the row stride, and reports success exactly when the file could be opened, every byte was accepted and the close succeeded. Loading a binary PGM or PPM, with comment lines after the magic number, gives an image of the size in the header whose every pixel is the one in the file, converted to gray or RGBA as asked, from any earlier state of the image; a file that is truncated, of another kind or of unsupported size or depth is refused. PNG keeps pixels exactly, JPEG approximately; a file is treated according to its first bytes when loaded and to its name when saved. The stream is always closed, once.',
  ['inputs', 'fault_sequences'], 'all image sizes, strides, pixel values, file contents and points at which a write fails',
  'tests load a few fixed files; strides, comments, truncated files, full disks and the other PNG kinds are never tried',
  ['src/nx_image_io.c', 'src/nx_image_io_pnm.c', 'src/nx_image_io_png.c', 'src/nx_image_io_jpeg.c', 'src/nx_io.c'],
  [('PNM', 'src/nx_image_io_pnm.c save_as_pnm, read_pnm_data, nx_image_load_pnm, nx_image_xload_pnm'), ('closing', 'src/nx_io.c nx_fclose, nx_xfclose'), ('formats', 'src/nx_image_io.c nx_image_file_format_from_header, nx_image_file_format_from_filename, nx_image_load, nx_image_save'), ('PNG and JPEG', 'src/nx_image_io_png.c, src/nx_image_io_jpeg.c')],
  'PNM saving and loading, stream closing and header detection proved for all images, files and write failures; the PNG and JPEG codecs (setjmp, external libraries) and the dispatch by name are bounded stand-ins')
P('P22', 'Keypoints and BRIEF descriptors follow their definition and survive storage',
  'FAST detection returns exactly the pixels that pass the 9-point segment test at the threshold, in scan order and at most as many as asked for; scores are the largest threshold at which a corner still passes, and suppression keeps exactly those not beaten by a neighbour. Over a pyramid the levels are searched from the coarsest to the finest until the list is full, and each keypoint carries the number, scale and sigma of its level and consecutive ids. The adaptive threshold moves towards the wanted count within 5..250. BRIEF test pairs lie within the radius and at least three pixels apart for every seed, a point is accepted exactly when all its samples fall inside the sampled level, descriptor bits are the comparisons of the two samples of each test (also for a turned pattern, refused exactly when a sample is outside), and descriptor distance is the Hamming distance. Keypoint lists and extractors written to a stream are read back unchanged, and truncated streams are reported.',
  ['inputs', 'fault_sequences'], 'all images, pyramids, thresholds, points, offsets, random sequences, descriptors, streams and points at which a stream ends or fails',
  'tests try a few constructed corners; buffer limits, level boundaries, turned patterns and stored extractors are never tried',
  ['src/nx_fast_detector.c', 'src/fast/fast_9.c', 'src/fast/fast_nonmax.c', 'src/nx_brief_extractor.c', 'src/nx_keypoint.c'],
  [('lists', 'src/nx_fast_detector.c nx_fast_detect_keypoints, nx_fast_suppress_keypoints, nx_fast_detect_keypoints_pyr, nx_fast_detector_detect, nx_fast_detector_detect_pyr, nx_fast_detector_adapt_threshold'), ('BRIEF', 'src/nx_brief_extractor.c nx_brief_extractor_randomize_with_seed, nx_brief_extractor_update_limits, nx_brief_extractor_check_point_pyr, nx_brief_extractor_compute_pyr, nx_brief_extractor_compute_pyr_at_theta, nx_brief_extractor_descriptor_distance, nx_brief_extractor_write, nx_brief_extractor_read'), ('stored keypoints', 'src/nx_keypoint.c nx_keypoint_write, nx_keypoint_read')],
  'lists over images and pyramids, thresholds, BRIEF and stored data proved for all inputs (exact arithmetic); the generated FAST decision tree, the score, non-maximum suppression and orientations are bounded stand-ins')
