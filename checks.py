"""The registered checks: per property the harness entries (jobs) per tier, the bounds, and what lies outside them."""
CHECKS = {}


def J(src, entry, **kw):
    return dict(src=src, entry=entry, **kw)


def jobs(src, entries, **kw):
    return [J(src, e, **kw) for e in entries]


def prop(pid, jobs, bounds, outside, assumptions=(), **kw):
    CHECKS[pid] = dict(jobs=jobs, bounds=bounds, outside=outside, assumptions=list(assumptions), **kw)


def _text():
    r = []
    for n, d, neg in (("u8", 3, 0), ("u16", 5, 0), ("u32", 10, 0), ("ul", 20, 0), ("ull", 20, 0), ("s8", 3, 1), ("s16", 5, 1), ("s32", 10, 1), ("sl", 19, 1), ("sll", 19, 1)):
        for k in range(1, d + 1):
            r.append(J("text_int.cpp", "text_%s_p%d" % (n, k), args=["--direct"]))
            if neg: r.append(J("text_int.cpp", "text_%s_m%d" % (n, k), args=["--direct"]))
    return sorted(r, key=lambda j: -int("".join(c for c in j["entry"].rsplit("_", 1)[1] if c.isdigit())))


prop("T01", _text(), "none: the decimal-length classes of the ten integer types cover every value of each type", "float and double (F01); 32-bit long")

prop("T02", jobs("text_more.cpp", ["t2_array_first", "t2_array_last", "t2_array_mid", "t2_ptr", "t2_mptr", "t2_long", "t2_long_two", "t2_extremes", "t2_int", "t2_u64", "t2_mixed", "t2_text_alone", "t2_row", "t2_rows", "t2_row_long"]),
     "character arrays of 2 to 5 with any content, texts of up to 6 and around 1024 characters, all integer types, arrays of 3 integers, of 2 by 2 and 220 8-bit ones", "more than eleven values in one string; longer arrays; floating point (F01)")
prop("F01", jobs("text_real.cpp", ["f_float", "f_double", "f_many", "f_row_float", "f_row_double", "f_vec", "f_string"]) + jobs("text_more.cpp", ["f_bits_float", "f_bits_double"]),
     "every float and double, NaNs with any payload included, alone, in arrays and vectors of up to three, among other values and in as_string; every length of text the conversion may give", "the C++ library's own conversion, which a function that writes type, bits and any length stands for",
     ["std::to_chars without a format writes the shortest text that reads back as the same value of the same type, at most 15 characters for a float and 24 for a double"])
prop("T03", jobs("text_more.cpp", ["t3_bool", "t3_char", "t3_enum_u8", "t3_enum_i8", "t3_enum_i32", "t3_enum_u64", "t3_enum_plain", "t3_nullptr", "t3_ptr", "t3_ref", "t3_str", "t3_mstr", "t3_chars", "t3_arr1", "t3_arr2", "t3_arr3", "t3_vec2", "t3_vec3", "t3_vec4", "t3_vec2_i32", "t3_nested", "t3_boolarr", "t3_many"]),
     "every scalar value; arrays and vectors of up to 4 elements; texts of up to 6 characters", "longer arrays and texts", ["the text of a single integer is the one T01 decides"])
prop("H01", jobs("hash.cpp", ["crc_c_8", "crc_c_32", "crc_c_64", "crc_z_8", "crc_z_32", "crc_z_64", "crc_text"]) + jobs("hash.cpp", ["crc_c_8_long", "crc_c_32_long", "crc_c_64_long"], tiers=["thorough"]),
     {"quick": "any start value, any data of up to 8 bytes, 4 32-bit words or 3 64-bit words, every split; polynomials 0x82f63b78 and 0xedb88320", "thorough": "up to 24 bytes, 12 32-bit and 8 64-bit words"}, "longer data (each further element repeats the same step)")
prop("H02", jobs("hash.cpp", ["fnv_u8", "fnv_s8", "fnv_u16", "fnv_s16", "fnv_u32", "fnv_s32", "fnv_u64", "fnv_s64", "fnv_text"]) + jobs("hash.cpp", ["fnv_u8_long", "fnv_u32_long", "fnv_u64_long"], tiers=["thorough"]),
     {"quick": "any basis, any data of up to 6 elements of 1, 2, 4 and 8 bytes, every split; texts of up to 8 characters", "thorough": "up to 16 elements"}, "longer data (each further element repeats the same step)")
prop("R01", jobs("rng.cpp", ["r_64ss", "r_rotate"], defs=["-DGCC_FORM"]) + jobs("rng.cpp", ["r_64ss", "r_128pp", "r_pcg", "r_pcg_seed", "r_seed_bytes"]), "every state, two to five successive outputs; seeds of up to 9 bytes", "longer seeds")
prop("R02", jobs("rng.cpp", ["r_ranged", "r_ranged_pcg", "r_unbiased_2", "r_unbiased_3"]), {"quick": "every n and every sequence of raw outputs that is accepted within 3 draws", "thorough": "the same"}, "longer runs of rejected raw outputs")
prop("B01", jobs("codec.cpp", ["b64_count", "b64_size", "b64_decode", "b64_padded"], fold=24) + jobs("codec.cpp", ["b64_size_long", "b64_decode_long"], fold=24, tiers=["thorough"]), {"quick": "texts of up to 11 characters, every destination size", "thorough": "up to 40"}, "longer texts")
prop("B02", jobs("codec.cpp", ["lz_two", "lz_three", "lz_controls", "lz_far_300", "lz_far_4100"]) + jobs("codec.cpp", ["lz_short", "lz_four", "lz_five", "lz_mix"], tiers=["thorough"], time=900), {"quick": "streams of up to 2 tokens with every span, 3 with spans of 3 to 6, ten tokens with one span, one span of every distance up to 300, and spans of boundary distances up to 4096", "thorough": "also 3 tokens with every span, 5 with spans of 3 and 4, 12 tokens of any kind"}, "malformed streams; longer streams")
prop("C01", jobs("containers.cpp", ["c1_single_u64_1", "c1_single_u64_5", "c1_single_u8_8", "c1_single_num_1", "c1_single_num_5", "c1_single_agg_3", "c1_copy_u64", "c1_copy_num", "c1_copy_agg", "c1_assign_u64", "c1_assign_num", "c1_assign_agg", "c1_steps_num", "c1_append_args"]) + jobs("containers.cpp", ["c1_single_u64_9", "c1_assign_num_6", "c1_steps_num_5"], tiers=["thorough"]),
     {"quick": "one operation with any arguments from every state (every length and content) of bulks of capacity 1, 3, 5 and 8 of trivial, aggregate and class items; copies and assignments between any two states of capacity up to 4; three operations from empty", "thorough": "capacities up to 9, four operations"}, "larger capacities")
prop("C02", jobs("containers.cpp", ["c2_item_1", "c2_item_4", "c2_item_2_steps", "c2_pair", "c2_pair_2", "c2_nocopy"]) + jobs("containers.cpp", ["c2_pair_4", "c2_item_5_steps"], tiers=["thorough"]),
     {"quick": "one operation from every state of bulks of capacity up to 4, two or three for capacity 2, pairs of bulks of capacity up to 3; items with and without a copy constructor", "thorough": "pairs of capacity 5 over two operations, one of capacity 4 over three"}, "larger capacities; items that throw (exceptions are disabled)")
prop("C03", jobs("containers.cpp", ["c3_step_1", "c3_step_4", "c3_step_5", "c3_hist_4"]) + jobs("containers.cpp", ["c3_step_6", "c3_step_7", "c3_step_8", "c3_hist_6"], tiers=["thorough"], time=900),
     {"quick": "one enqueue from every heap of up to 5 items (capacity 1 and 5) followed by dequeuing everything; every history of 4 operations at capacity 3", "thorough": "heaps of up to 8, histories of 6 at capacity 4"}, "larger queues")
prop("C04", jobs("containers.cpp", ["c4_1", "c4_7", "c4_8", "c4_9", "c4_20", "c4_64", "c4_131"]), "one operation with any index and value from every content of sets of 1, 7, 8, 9, 20, 64 and 131 bits", "other sizes")
prop("C05", jobs("containers.cpp", ["c5_ranges", "c5_iterate"]), "every size up to 2^40 and every count; iteration over up to 5 items", "none beyond that")
prop("C06", jobs("containers.cpp", ["c6_u32_2", "c6_u32_4", "c6_u64_3", "c6_u8_5", "c6_i32_1"]) + jobs("containers.cpp", ["c6_u32_6"], tiers=["thorough"]), {"quick": "up to 4 binds of any names and values into storages of 1 to 5, each followed by finding every name; any query", "thorough": "7 binds into a storage of 6"}, "longer histories; dictionaries with a sorted part (nothing in the library builds one)")
prop("C07", jobs("containers.cpp", ["c7_one", "c7_two", "c7_three", "c7_small", "c7_limit", "c7_alloc"]) + jobs("containers.cpp", ["c7_two_7", "c7_three_5"], tiers=["thorough"]), {"quick": "every history of 4 to 6 operations over one to three queues sharing a pool of 2 to 5, any items; a pool of 256 with 8-bit indices", "thorough": "histories of 7 over two queues, 5 over three"}, "larger pools over longer histories")
prop("S01", jobs("order.cpp", ["s_insertion_5", "s_intro_1", "s_intro_2", "s_intro_3", "s_intro_4", "s_intro_5", "s_intro_def", "s_partition_4", "s_partition_6", "s_median", "s_long"]) + jobs("order.cpp", ["s_insertion_7", "s_intro_1_6", "s_intro_2_7", "s_intro_4_7", "s_partition_8"], tiers=["thorough"], time=900), {"quick": "every range of up to 5 (insertion_sort) and 6 (intro_sort with thresholds 1 to 5 and 128, partition) items with keys of 8 to 32 bits; monotone ranges of runs, 127 to 129 items, with any item in one of 5 places", "thorough": "up to 7 or 8 items"}, "longer ranges; an intro_sort threshold of 0, which would partition an empty range")
prop("S02", jobs("order.cpp", ["s_bounds_u32", "s_bounds_i64", "s_bounds_u8", "s_bounds_z", "s_bounds_less"]) + jobs("order.cpp", ["s_bounds_17", "s_bounds_40"], tiers=["thorough"]), {"quick": "every sorted range of up to 7 32-bit items, 5 64-bit items and 11 8-bit items, every key", "thorough": "up to 17 32-bit and 40 8-bit items"}, "longer ranges")
prop("Z01", jobs("order.cpp", ["z_code", "z_order", "z_inside", "z_split", "z_gap"]), "every pair of coordinates, every box and every point", "nothing")
prop("Z02", jobs("order.cpp", ["zq_1_4", "zq_2_3", "zq_3_1", "zq_corner_low", "zq_corner_high"]) + jobs("order.cpp", ["zq_3_2", "zq_1_8", "zq_2_5", "zq_3_4", "zq_corner_low_6", "zq_corner_high_6"], tiers=["thorough"], time=900), {"quick": "every array of up to 3 codes and boxes whose corners differ by up to 4, 3 and 1 levels of cells (for 1, 2 and 3 codes); boxes from near the first to near the last code, at every split level, with an array of one corner", "thorough": "8, 5 and 4 levels"}, "arrays of more elements with boxes of more levels")
prop("G01", jobs("geometry.cpp", ["g_scalar", "g_scalar_sqr", "g_vec2", "g_vec3", "g_less", "g_arith_v2", "g_arith_v3", "g_arith_l2"]), "every operand for which the result fits (arithmetic operators: operands up to 30000)", "overflowing operands")
prop("G02", jobs("geometry.cpp", ["g_inside", "g_inside_64"]) + jobs("geometry.cpp", ["g_edge_3", "g_edge_7", "g_fan_3_3", "g_fan_3_7", "g_fan_4_3", "g_tri_7"], args=["--merge"]) + jobs("geometry.cpp", ["g_edge_15", "g_fan_3_15", "g_fan_4_7", "g_tri_31"], tiers=["thorough"], args=["--merge"]), {"quick": "every two 32-bit vectors; every two triangles sharing an edge and fan of three triangles with coordinates up to 7, of four up to 3", "thorough": "coordinates up to 15, fans of four up to 7"}, "larger coordinates for edges and fans")
prop("G03", jobs("geometry.cpp", ["g_poly_3", "g_poly_4", "g_poly_64", "g_poly_rev_3", "g_poly_rot_3", "g_poly_exact"], args=["--merge"]) + jobs("geometry.cpp", ["g_poly_5", "g_poly_3_big", "g_poly_4_big", "g_poly_rev_4", "g_poly_rot_4"], tiers=["thorough"], args=["--merge"]), {"quick": "every polygon of up to 3 vertices with coordinates up to 7, 4 with coordinates up to 3; triangles over the whole range for exactness", "thorough": "3 vertices with coordinates up to 31, 4 up to 7 and 5 up to 2"}, "longer polygons; points on the boundary")
prop("G04", jobs("geometry.cpp", ["rr_point", "rr_geo_line", "rr_geo_edge", "rr_geo_ray", "rr_geo_segment", "rr_exact_line", "rr_exact_edge", "rr_exact_ray", "rr_exact_segment", "rr_ball"], args=["--merge"]) + jobs("geometry.cpp", ["rr_geo_line_big", "rr_geo_edge_big", "rr_geo_ray_big", "rr_geo_segment_big"], tiers=["thorough"], args=["--merge"]), {"quick": "against the cross-product form of the distance for coordinates up to 5; against the same polynomials in 128 bits for every coordinate and squared radius", "thorough": "up to 15"}, "coordinates whose squares do not fit")
prop("G05", jobs("geometry.cpp", ["g_degrees", "g_degrees_any", "g_muldiv_32", "g_muldiv_64", "g_muldiv_32_full", "g_intersect_2", "g_intersect_exact"], args=["--merge"]) + jobs("geometry.cpp", ["g_muldiv_32_big", "g_muldiv_64_big", "g_intersect_3"], tiers=["thorough"], args=["--merge"]), {"quick": "every number of degrees; truncation of the quotient for operands up to 7, the error of intersections for differences up to 2, and that every 32-bit vector, fraction and pair of lines divides the exact product", "thorough": "operands up to 15, differences up to 3"}, "intersections outside 32 bits")
prop("L01", jobs("report.cpp", ["l1_3", "l1_2", "l1_1", "l1_full_1", "l1_full_2", "l1_full_3", "l1_log_levels", "l1_log_args", "l1_log_none", "l1_log_msg", "l1_log_unicode"]) + jobs("report.cpp", ["l1_1_8", "l1_2_7", "l1_3_7", "l1_4_7", "l1_full_2_5"], tiers=["thorough"], time=850), {"quick": "every text of up to 6, 5 and 5 characters split into 1, 2 and 3 arguments over an alphabet of one member per character class, up to 4, 4 and 3 over all characters; macro uses with one to six arguments of any value", "thorough": "up to 8, 7 and 7 characters, 4 arguments"}, "longer texts; digit separators and commas in template argument lists")
prop("L02", jobs("report.cpp", ["l2_assert", "l2_verify", "l2_reject", "l2_assert_args", "l2_verify_args", "l2_reject_args", "l2_compound", "l2_condition_use", "l2_error"]), "every condition value and hook answer, no to four arguments with any one-digit number and texts of any two characters", "other argument types (T02 decides their texts)")
prop("L03", jobs("report.cpp", ["l3_log_2", "l3_log_4", "l3_error_3", "l3_error_4", "l3_error_none"]), "every level, up to 4 pairs, keys and values of up to 2 characters of any content", "longer texts, more pairs")
prop("K01", jobs("meta.cpp", ["k_step_1", "k_step_60", "k_step_1000", "k_step_ntsc", "k_step_slow", "k_step_same", "k_step_fast", "k_step_mhz", "k_history_3", "k_history_5", "k_history_pow"]), "one reading after any elapsed time from every reachable state, for eight rates and frequencies (1/60 to 10^9 ticks per second, 48 Hz to 1 GHz); three readings from reset for three rates", "other rates and frequencies (they are constants of the same formula)")
prop("O01", jobs("posix.cpp", ["o_now", "o_now_fails", "o_sleep", "o_text", "o_text_long", "o_files"]), "every system time of up to 9e9 seconds, every duration, texts of up to 24 characters", "what the kernel does; the file functions, which the POSIX back end does not implement")
prop("I01", jobs("meta.cpp", ["i_flat", "i_outer", "i_list", "i_small", "i_unicode", "i_load", "i_load_flat", "i_names_1", "i_names_2", "i_names_3"]) + jobs("meta.cpp", ["i_names_2_10", "i_names_4_9"], tiers=["thorough"], time=850), {"quick": "eight bound types with every list size and value; binding texts of up to 6 characters for 1 to 3 members over all characters", "thorough": "up to 9 characters, 4 members"}, "other types; binding texts whose members are not identifiers")
prop("N01", jobs("meta.cpp", ["n_name_u8", "n_name_i8", "n_name_i16", "n_name_int", "n_name_u32", "n_name_i64", "n_name_u64", "n_name_plain", "n_name_deep", "n_name_member", "n_name_member_class", "n_name_flat", "n_name_anon", "n_name_anon_plain", "n_name_tmpl", "n_value_u32", "n_value_u64", "n_value_u8", "n_value_int", "n_value_plain", "n_value_deep", "n_value_anon", "n_value_default", "n_round_u8", "n_round_deep", "n_type"]), "fourteen enumerations (scoped and unscoped, of 8 to 64 bits, global, in namespaces, classes, templates and unnamed namespaces), every value of the underlying type; every text of up to 5 to 10 characters", "enumerators outside 0 to 255, which the library does not look at; other compilers' spelling of names")

_mesh = dict(args=["--poly", "--polytab", "12"])
_mm = dict(defs=["-DMSVC_MATH"])
prop("G08", jobs("geometry.cpp", ["g_less_free", "g_less_32", "g_muldiv_64_wide", "g_muldiv_64_few", "g_intersect_2"], **_mm) + jobs("geometry.cpp", ["g_muldiv_32"], args=["--merge"], **_mm) + jobs("geometry.cpp", ["g_muldiv_64", "g_muldiv_64_big", "g_intersect_3"], tiers=["thorough"], time=1200, **_mm),
     {"quick": "comparison: every 64-bit operand with products of the right sign and size, and every 8-bit operand; scaling: 64-bit operands up to 3, 32-bit ones up to 7, and any 64-bit numerator with some powers of two below and some factors; intersections of differences up to 2", "thorough": "operands up to 15, differences up to 3"}, "intersections outside 32 bits; Microsoft's compiler itself", ["_mul128 and _div128 do what Microsoft documents"])
prop("D01", jobs("mesh.cpp", ["d_loc_0", "d_loc_0_corner", "d_loc_0_edge", "d_loc_0_any", "d_loc_0_q", "d_loc_1", "d_loc_1_far", "d_loc_1_q", "d_loc_2", "d_loc_2_wide"], **_mesh) + jobs("mesh.cpp", ["d_loc_3", "d_loc_4", "d_loc_4_near"], tiers=["thorough"], **_mesh),
     {"quick": "up to 2 points, every point and query of small and wide grids of up to 256 places (queries also over the full 32-bit range on a grid), coordinates scaled by 1, 8 and 1024, every hint", "thorough": "up to 4 points"}, "more points; other places (comparisons of the same sign pattern repeat)", ["the mesh is one reached by inserting points", "comparisons of polynomials over few input bits are given to the solver as decision diagrams"])
prop("D02", jobs("mesh.cpp", ["d_ins_1", "d_ins_1_low", "d_ins_1_high", "d_ins_1_all", "d_ins_2", "d_ins_2_wide", "d_ins_2_far", "d_ins_3", "d_ins_3_mixed", "d_ins_4", "d_ins_4_wide", "d_ins_5", "d_ref_left", "d_ref_bottom", "d_ref_out_right", "d_ref_out_top", "d_ref_out_left", "d_ref_out_far", "d_ref_full", "d_round_0", "d_round_3"], **_mesh)
     + jobs("mesh.cpp", ["d_ins_3_more", "d_ins_3_wide", "d_ins_4_more", "d_ins_5_wide", "d_ins_6"], tiers=["thorough"], time=900, **_mesh),
     {"quick": "histories of up to 5 points, each anywhere on its own grid of 2 to 256 places (fine, wide, near the corners; coinciding and collinear points included), every hint for up to 2 points", "thorough": "up to 6 points, larger grids"}, "more points, other places, hints after the second point", ["comparisons of polynomials over few input bits are given to the solver as decision diagrams"])
prop("D03", jobs("mesh.cpp", ["d_del_2_wide", "d_del_2_far", "d_del_3", "d_del_3_mixed", "d_del_4", "d_del_4_wide", "d_del_5", "d_circle_small", "d_circle_mid", "d_circle_any"], **_mesh) + jobs("mesh.cpp", ["d_circle_corner"], args=["--poly", "--polytab", "16"]) + jobs("mesh.cpp", ["d_del_3_more", "d_del_3_wide", "d_del_4_more", "d_del_5_wide", "d_del_6"], tiers=["thorough"], time=900, **_mesh),
     {"quick": "the circle test for every four vertices with coordinates from -8192 to 8191, and for coordinates at the corners of the full range; histories of up to 5 points, each anywhere on its own grid of 2 to 64 places", "thorough": "up to 6 points, larger grids"}, "other vertices between these ranges; more points", ["comparisons of polynomials over few input bits are given to the solver as decision diagrams"])
prop("D04", jobs("mesh.cpp", ["d_edge_empty", "d_edge_corner", "d_edge_long", "d_edge_point", "d_edge_point_fine", "d_edge_points", "d_edge_points_long", "d_edge_same", "d_edge_cross", "d_edge_cross_fine", "d_edge_touch", "d_edge_three"], **_mesh) + jobs("mesh.cpp", ["d_edge_points_more", "d_edge_cross_more", "d_edge_fine_more", "d_edge_four"], tiers=["thorough"], time=900, **_mesh),
     {"quick": "up to 3 points and 3 edges, every end on its own grid of 2 to 16 places: sharing ends, touching, overlapping, crossing with and without rounding", "thorough": "up to 4 edges, larger grids"}, "more edges, other places", ["comparisons of polynomials over few input bits are given to the solver as decision diagrams"])
prop("D05", jobs("mesh.cpp", ["d_fill_0", "d_fill_1", "d_fill_2", "d_fill_none", "d_fill_long"]) + jobs("mesh.cpp", ["d_fill_3"], tiers=["thorough"], time=900),
     {"quick": "the meshes of 0 to 2 fixed points with every choice of constrained edges, labels and start; a strip of 600 faces", "thorough": "3 points"}, "larger meshes")
prop("D06", jobs("mesh.cpp", ["d_view_0", "d_view_q", "d_view_few", "d_view_real"], **_mesh),
     "meshes of up to 6 vertices with any stored vertex positions, vertex numbers, links, constraints and labels, coordinates scaled by 1, 8 and 1024; the meshes of 2 points on a small grid", "larger meshes")
prop("U01", jobs("values.cpp", ["u_get", "u_ascii", "u_rgba", "u_sequence", "u_map"]),
     "aggregates, pairs and tuples of one to four members with any values; all 256 characters; colours of three component types with any values; sequences of 0 to 40, 256 and 500 numbers; mapped files of every size", "other member types")

_at = dict(threads=True)
prop("A01", jobs("atomic.cpp", ["a_u32_11", "a_u64_11", "a_u8_21_mem", "a_u8_21_sum", "a_u8_21_bit", "a_u8_111_mem", "a_u8_111_bit", "a_i32_11", "a_i64_11", "a_u8_11", "a_i16_11", "a_ptr_11", "a_bool_21", "a_enum_21", "a_float_11", "a_double_11", "a_float_21_add", "a_float_111_add", "a_float_111_sub", "a_one_float", "a_one_double", "a_special_float", "a_special_double", "a_special_race", "a_one_u8", "a_one_u64", "a_one_ptr", "a_one_addf", "a_one_addd", "a_store_buffer", "a_message", "a_message_float", "a_relay", "a_readers"], **_at)
     + jobs("atomic.cpp", ["a_u8_21", "a_u8_111", "a_u8_111_sum", "a_u8_22_mem", "a_u8_22_sum", "a_float_21", "a_float_111"], tiers=["thorough"], time=1200, **_at),
     {"quick": "two threads with one operation each of any kind on 8 to 64-bit integers, pointers, float and double; two or three threads with two and one operations of four kinds each on 8-bit integers, bool and an enumeration; every interleaving of the atomic accesses, every operand (floating-point operands in races: two values), one spurious failure of a weak compare-exchange per history; litmus tests of two to four threads over two locations",
      "thorough": "three threads with one operation each of any kind, two threads with two operations each"}, "more threads or operations; orders in which a load sees a store that its thread has not yet reached",
     ["the memory model of rt/vs_atomic.cpp stands for the C++ one: per location the newest value or any older one the thread may still see by happens-before; writes are ordered as executed", "accesses of the code under test that are not atomic count as relaxed ones"])
_ms = dict(threads=True, defs=["-DMSVC_ATOMIC", "-Wno-c++11-narrowing"])
prop("A02", jobs("atomic.cpp", ["a_u32_11", "a_u64_11", "a_u8_21_mem", "a_u8_21_sum", "a_u8_111_mem", "a_i32_11", "a_i64_11", "a_u8_11", "a_i16_11", "a_ptr_11", "a_bool_21", "a_enum_21", "a_float_11", "a_double_11", "a_float_21_add", "a_float_111_add", "a_float_111_sub", "a_one_float", "a_one_double", "a_special_float", "a_special_double", "a_special_race", "a_one_u8", "a_one_u64", "a_one_ptr", "a_one_addf", "a_one_addd", "a_store_buffer", "a_message", "a_message_float", "a_relay", "a_readers", "a_wide_11", "a_wide2_11", "a_wide2_21", "a_one_wide"], **_ms)
     + jobs("atomic.cpp", ["a_u8_21", "a_u8_111", "a_u8_111_sum", "a_u8_22_mem", "a_u8_22_sum", "a_float_21", "a_float_111", "a_wide2_111"], tiers=["thorough"], time=1200, **_ms),
     {"quick": "as A01, and values of two and three words that the library locks: two threads with one operation each of any kind, or two and one loads and stores", "thorough": "as A01; three threads that exchange values of two words (up to three preemptions)"}, "as A01; Microsoft's compiler itself; compare-exchange of values larger than eight bytes and addition to values of sixteen, which do not compile",
     ["as A01", "the intrinsics do what Microsoft documents; other accesses do what an x86 processor does: a load sees memory as it is, a store may reach it later"])
prop("M01", jobs("mutex.cpp", ["m_two", "m_three", "m_shared_two", "m_shared_writer", "m_shared_three", "m_state", "m_state_shared"], **_at) + jobs("mutex.cpp", ["m_shared_three_w", "m_shared_all"], tiers=["thorough"], time=1200, **_at),
     {"quick": "two threads that acquire up to twice each and three that acquire once, every interleaving; the shared mutex with two readers and a writer, or two users of any kind; every state of a lock seen through both try forms; any content of the memory before construction", "thorough": "three users of any kind (up to four preemptions)"}, "more threads; the system's own lock primitives, which the model in the harness stands for",
     ["pthread_mutex_* and pthread_rwlock_* act in one instant, block while the lock is not free for the requested mode and order memory between holders"])
prop("W01", jobs("windows.cpp", ["w_utf_0", "w_utf_1", "w_utf_2", "w_utf_3", "w_utf_4", "w_open", "w_open_into", "w_close", "w_map", "w_map_path", "w_map_items", "w_unmap", "w_time", "w_sleep", "w_debug", "w_alloc"])
     + jobs("mutex.cpp", ["m_two", "m_three", "m_shared_two", "m_shared_writer", "m_shared_three", "m_state", "m_state_shared"], defs=["-DWIN_LOCKS"], **_at) + jobs("mutex.cpp", ["m_shared_three_w", "m_shared_all"], tiers=["thorough"], time=1200, defs=["-DWIN_LOCKS"], **_at),
     {"quick": "every text of up to 4 code points; every answer of the system; every file size, time and duration; the locks as in M01: two threads that acquire up to twice each and three that acquire once, every interleaving", "thorough": "three users of a shared lock of any kind (up to four preemptions)"}, "longer texts (each code point repeats the same step); texts that are not UTF-8; a real Windows system, which stand-ins with the documented behaviour replace; Microsoft's compiler",
     ["the Windows functions behave as documented; harness/win/windows.h declares them as Windows does, except that wchar_t has four bytes in the stand-in", "an SRW lock acts in one instant, blocks while it is not free for the requested mode, orders memory between holders and must be released in the mode it is held in"])
_q = dict(args=["--poly", "--polytab", "16"])
prop("G07", jobs("fixed.cpp", ["q_root_first", "q_root_low", "q_root_wide", "q_root_scales", "q_root_300", "q_root_46000", "q_root_16", "q_root_20", "q_root_24", "q_root_25", "q_root_25b", "q_root_53", "q_root_30", "q_root_mid", "q_root_top", "q_root_squares", "q_hyp_small", "q_hyp_axis", "q_hyp_axis_neg", "q_hyp_axis_y", "q_hyp_46340", "q_hyp_32768", "q_hyp_diagonal", "q_hyp_mid", "q_hyp_25", "q_hyp_16"], **_q),
     "the first 65536 numbers; 65536 numbers near the squares and half-way points of 256 consecutive (or spread) roots around 2^8, 2^15.5, 2^16, 2^20, 2^24, 2^25, 2^26.5, 2^30 and up to 2^31-1; 256 numbers around every power of two; windows of 256 x 256 vectors at the axes, on the diagonal, spread over the whole range and around the bounds of 16 bits", "arguments outside these windows",
     ["conversions and square root follow IEEE 754 with rounding to nearest, as the processor's default mode does"])
prop("F02", jobs("unit.cpp", ["n_grid", "n_grid_tiny", "n_grid_huge", "n_scale_x", "n_scale_y", "n_scale_z", "n_axis_x", "n_axis_y", "n_axis_z", "n_fine"], **_q),
     "every direction on a grid of 16 steps per axis at three scales; one component of any sign, 126 scales and 16 mantissas alone or beside two fixed ones; 16 neighbouring values per component; eight errors of the reciprocal square root from the least to the greatest allowed", "other vectors; squared lengths that overflow or underflow a float",
     ["the processor's reciprocal square root has a relative error of at most 1.5 / 4096, as its makers document"])
prop("G06", jobs("fixed.cpp", ["t_top_mid_max", "t_top_mid_neg", "t_top_mid_k", "t_top_low_max", "t_top_low_m", "t_top_unit_max", "t_top_unit_m", "t_mid_low_max", "t_mid_low_g", "t_mid_unit_max", "t_small_max", "t_small_m", "t_near90_max", "t_near90_k", "t_near45_max", "t_mid_c_max", "s_small", "s_wide", "s_top", "s_low", "s_mid", "v_small", "v_medium", "v_million", "v_wide", "v_axis_x", "v_axis_neg", "v_axis_y", "v_axis_up", "v_diagonal", "v_flat", "t_quarter", "t_turns"], **_q),
     "65536 angles at a time (every choice of the upper, middle, lower bytes of the angle with the rest fixed, and all angles of windows near 0, 45 and 90 degrees) for radii up to 2^31-16, compared with exact tables; 256 radii by 256 angles; quarter and full turns for every radius and angle; polar form of windows of 65536 vectors, at the axes, the diagonal and spread over the whole range", "other combinations of radius and angle; vectors longer than 2^31-1",
     ["the cosine and sine tables in harness/trig.inc come from the power series in exact arithmetic (tools/gentrig.py)"])
