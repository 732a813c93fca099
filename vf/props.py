"""Property registry: which contracts decide which property."""
PROPS = {
 'P01': dict(title='Bit operations are exact', proofs=[('bit_ops', None)], fuzz=8),
 'P02': dict(title='SHA-256', proofs=[('sha256', ['nx_sha256_process_block', 'nx_memncpy_multi', 'nx_sha256_multi', 'nx_sha256'])], slow=('nx_sha256_multi',), fuzz=8),
 'P03': dict(title='Memory blocks', proofs=[('mem_block', None), ('vector', None)], fuzz=10),
 'P04': dict(title='Strings and codecs', proofs=[('strings', None)], fuzz=10, bounded=['nx_fstr'], bound='formatted text up to 650 characters'),
 'P05': dict(title='String arrays', proofs=[('string_array', None)], fuzz=10, bounded=['nx_string_array_read', 'nx_string_array_read0', 'nx_string_array_vsetf'], bound='arrays of up to 12 strings, histories of up to 40 operations'),
 'P06': dict(title='Lexers', proofs=[('lexers', None)], slow=('nx_json_lexer_next_token', 'nx_lexer_NUMBER'), fuzz=10, bounded=['nx_csv_token_to_string', 'nx_json_token_to_string', 'nx_csv_lexer_new', 'nx_json_lexer_new'], bound='texts of up to 100 bytes'),
 'P07': dict(title='JSON trees', proofs=[('json_tree', None), ('json_parser', None)], fuzz=12, bounded=['nx_json_tree_print', 'nx_json_parser_new', 'nx_json_parser_free', 'nx_json_bundle.c', 'nx_json_log.c'], bound='generated documents and trees up to 300 bytes of input',
              assumptions=['the number of nodes of a child list is below 2^24', 'the recursive call of nx_json_parser_parse_value and nx_json_tree_free is used through its own contract (the inner value is shorter, the subtree smaller)']),
 'P08': dict(title='Data frames', proofs=[('data_frame', None)], fuzz=15, bounded=['nx_data_frame_make_factor', 'nx_data_frame_vset', 'nx_data_frame_fprintf', 'nx_data_frame_load_csv_stream', 'nx_data_frame_add_columns', 'nx_csv_parser.c (all but nx_csv_column_pick_larger_type)'], bound='frames up to 6 columns and 60 operations, CSV texts up to about 400 bytes',
              assumptions=['fewer than 2^24 rows and columns', 'the levels of a factor column are a string array with the contracts of P03']),
 'P09': dict(title='Command-line options', proofs=[('options', None)], fuzz=10, bounded=['nx_options_vadd', 'nx_options_add_rest', 'nx_option_data_set_names', 'name_short_name_join', 'nx_options_free_map', 'nx_options_print_values', 'nx_options_print_usage'], bound='up to 14 declarations and argument lists of up to 10 arguments, parsed repeatedly',
              assumptions=['the hash of a name is a function of its text (its value is not specified)', 'numbers given to integer options fit an int; atol and atof are functions of the text', 'fewer than 2^24 options and arguments']),
 'P10': dict(title='Graphs', proofs=[('graph', None)], fuzz=8),
 'P11': dict(title='Image containers', proofs=[('image', None)], fuzz=10),
 'P12': dict(title='Pixel operations', proofs=[('pixels', ['nx_image_convert_uc_to_f32', 'nx_image_convert_f32_to_uc', 'nx_image_subtract', 'nx_image_axpy_f32', 'nx_image_axpy_uc', 'nx_image_axpy', 'nx_convert_rgba_to_gray_uc', 'nx_convert_rgba_to_gray_f32', 'nx_convert_gray_to_rgba_uc', 'nx_convert_gray_to_rgba_f32', 'interpolate_color_map_data', 'nx_color_map_apply', 'nx_image_apply_colormap', 'nx_image_convert_dtype', 'nx_image_convert_type', 'nx_image_normalize_to_zero_one'])], slow=('nx_image_convert_type', 'nx_image_apply_colormap', 'nx_image_subtract', 'nx_image_normalize_to_zero_one', 'nx_image_convert_dtype', 'nx_image_axpy'), fuzz=10, bounded=['nx_image_normalize_to_zero_one on RGBA images'], bound='images up to 12x12'),
 'P13': dict(title='Filters', proofs=[('filters', None)], slow=('nx_image_deriv_y_f32', 'nx_image_deriv_y_uc', 'nx_image_deriv_x_f32', 'nx_image_deriv_x_uc'), fuzz=12, bounded=['nx_image_smooth', 'nx_image_filter_box_x', 'nx_image_filter_box_y', 'nx_image_filter_box', 'nx_filter_buffer_alloc', 'nx_image_filter_buffer_alloc'], bound='images up to 14x14'),
 'P14': dict(title='Resampling and pyramids', proofs=[('resample', None)], slow=('nx_image_scale_uc', 'nx_image_scale_f32', 'nx_image_upsample_uc', 'nx_image_upsample_f32', 'nx_image_downsample_aa_x_uc', 'nx_image_downsample_aa_y_uc', 'nx_image_downsample_aa_x_f32', 'nx_image_downsample_aa_y_f32'), fuzz=12, bounded=['nx_image_pyr_builder_build', 'nx_image_pyr_builder_update', 'nx_image_pyr_builder_init_levels', 'nx_image_pyr_alloc_levels'], bound='images up to 24x24, pyramids of up to 9 levels, up to 3 builds per pyramid'),
 'P15': dict(title='Vectors and matrices', proofs=[('linalg', None)], slow=('nx_dmat_mul',), fuzz=10, bounded=['nx_dmat_transpose', 'nx_dmat_xread', 'nx_dmat_xwrite', 'nx_dmat2_sym_solve_single', 'nx_dmat3_sym_solve_single', 'nx_dmat3_svd'], bound='matrices up to 9x9, rounding tolerances on all operations'),
 'P16': dict(title='Rotations and projection', proofs=[('rotation', None)], fuzz=10, bounded=['nx_pinhole_triangulate'], bound='up to 8 points'),
 'P17': dict(title='Planar and epipolar geometry', proofs=[('geometry', None)], fuzz=15, bounded=['nx_homography_estimate_4pt', 'nx_homography_estimate_dlt', 'nx_homography_estimate_dlt_inliers', 'nx_homography_estimate_ransac', 'nx_homography_estimate_norm_ransac', 'nx_fundamental_estimate_ransac', 'nx_fundamental_estimate_norm_ransac', 'nx_essential_decompose_to_Rt', 'nx_epipolar_pick_best_Rt', 'nx_homography_transfer_error_fwd', 'nx_homography_transfer_error_bwd'], bound='up to 40 matches, 40 iterations'),
 'P18': dict(title='Statistics', proofs=[('statistics', None)], fuzz=8),
 'P19': dict(title='Samplers', proofs=[('samplers', None)], fuzz=10, bounded=['nx_uniform_sampler_sample_s', 'nx_uniform_sampler_sample_d', 'nx_uniform_sampler_fill32', 'nx_uniform_sampler_fill64', 'sfmt_gen_rand_all'], bound='streams of up to 1500 samples, chosen generator words'),
 'P20': dict(title='Image files', proofs=[('image_io', None)], slow=('read_pnm_data', 'nx_image_load_pnm', 'nx_image_xload_pnm', 'nx_image_save_pnm', 'nx_image_xsave_pnm'), fuzz=12, bounded=['nx_image_io_png.c', 'nx_image_io_jpeg.c', 'nx_image_file_format_from_filename', 'nx_image_load', 'nx_image_save', 'nx_image_xload', 'nx_image_xsave'], bound='images up to 12x12, files up to a few hundred bytes', assumptions=['stdio as documented: a stream is a byte sequence, any write or close may fail', 'fscanf %d is a function of the file and the position']),
 'P22': dict(title='Keypoints and descriptors', proofs=[('keypoints', None)], slow=('nx_fast_detector_detect_pyr',), fuzz=12, bounded=['fast9_detect', 'fast9_score', 'fast_nonmax_suppression', 'nx_fast_detector_compute_keypoint_ori_ic', 'nx_fast_detector_ic_data_new', 'nx_keypoint_ori_ic'], bound='images up to 26x26, pyramids up to 4 levels', assumptions=['scales and their ratios are exact (single precision rounding is exercised by the harness only)', 'BRIEF radius >= 4 (below, no pair of points can be three pixels apart from the centre)', 'rejection sampling ends with probability 1']),
}


def _expand():
    import importlib
    for p in PROPS.values():
        p['proofs'] = [(m, list(importlib.import_module('vf.specs.' + m).OWN if fs is None and hasattr(importlib.import_module('vf.specs.' + m), 'OWN') else importlib.import_module('vf.specs.' + m).CONTRACTS) if fs is None else fs) for m, fs in p['proofs']]


_expand()
