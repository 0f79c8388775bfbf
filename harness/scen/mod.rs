//! The scenarios: each drives rusty-git's public API with symbolic inputs and states its property as
//! assertions. Shared by the symbolic build (../sym) and the native replay build (../native).
//! The table is generated by tools/mkscen.py from the `pub fn NAME()` of each module.
pub mod kit;
pub mod rt;

mod loose;
mod write;
mod tree;
mod commit;
mod tag;
mod sig;
mod ids;
mod index;
mod pack;
mod pair;
mod delta;
mod chain;
mod stores;
mod corrupt;
mod faults;
mod refs;
mod threads;
mod readonly;
mod hold;
mod errs;
mod own;
mod stream;
mod fresh;

pub const ALL: &[(&str, fn())] = &[
    ("loose_read_ok", || quiet(loose::read_ok)),
    ("loose_read_big", || quiet(loose::read_big)),
    ("loose_read_run", || quiet(loose::read_run)),
    ("loose_header_any", || quiet(loose::header_any)),
    ("loose_kind_any", || quiet(loose::kind_any)),
    ("loose_length_any", || quiet(loose::length_any)),
    ("loose_length_huge", || quiet(loose::length_huge)),
    ("loose_length_wide", || quiet(loose::length_wide)),
    ("loose_length_off", || quiet(loose::length_off)),
    ("loose_truncated", || quiet(loose::truncated)),
    ("loose_large", || quiet(loose::large)),
    ("loose_edge_sizes", || quiet(loose::edge_sizes)),
    ("loose_words", || quiet(loose::words)),
    ("write_round_trip", write::round_trip),
    ("write_parse_back", write::parse_back),
    ("write_two_objects", write::two_objects),
    ("write_id_shapes", write::id_shapes),
    ("write_sizes", write::sizes),
    ("write_history", write::history),
    ("write_lost", write::lost),
    ("write_two_repositories", write::two_repositories),
    ("write_crash", write::crash),
    ("write_crash_twice", write::crash_twice),
    ("write_faulty", write::faulty),
    ("write_rewrite", write::rewrite),
    ("write_reader_during_write", write::reader_during_write),
    ("write_two_writers", write::two_writers),
    ("write_meanwhile", write::meanwhile),
    ("write_large", write::large),
    ("write_edge_sizes", write::edge_sizes),
    ("write_words", write::words),
    ("write_places", write::places),
    ("tree_raw", || quiet(tree::raw)),
    ("tree_name_and_id", || quiet(tree::name_and_id)),
    ("tree_modes", || quiet(tree::modes)),
    ("tree_mode_values", || quiet(tree::mode_values)),
    ("tree_many", || quiet(tree::many)),
    ("tree_cut", || quiet(tree::cut)),
    ("tree_order", || quiet(tree::order)),
    ("tree_words", || quiet(tree::words)),
    ("tree_far", || quiet(tree::far)),
    ("commit_fields", || quiet(commit::fields)),
    ("commit_one_byte", || quiet(commit::one_byte)),
    ("commit_two_bytes", || quiet(commit::two_bytes)),
    ("commit_cut", || quiet(commit::cut)),
    ("commit_lines", || quiet(commit::lines)),
    ("commit_other_headers", || quiet(commit::other_headers)),
    ("commit_ids", || quiet(commit::ids)),
    ("commit_big", || quiet(commit::big)),
    ("commit_words", || quiet(commit::words)),
    ("commit_far", || quiet(commit::far)),
    ("tag_fields", || quiet(tag::fields)),
    ("tag_message", || quiet(tag::message)),
    ("tag_kinds", || quiet(tag::kinds)),
    ("tag_one_byte", || quiet(tag::one_byte)),
    ("tag_cut", || quiet(tag::cut)),
    ("tag_lines", || quiet(tag::lines)),
    ("tag_big", || quiet(tag::big)),
    ("tag_words", || quiet(tag::words)),
    ("tag_names", || quiet(tag::names)),
    ("tag_far", || quiet(tag::far)),
    ("sig_name", || quiet(sig::name)),
    ("sig_email", || quiet(sig::email)),
    ("sig_both", || quiet(sig::both)),
    ("sig_inside", || quiet(sig::inside)),
    ("sig_dates", || quiet(sig::dates)),
    ("sig_no_email", || quiet(sig::no_email)),
    ("sig_any_line", || quiet(sig::any_line)),
    ("sig_cut", || quiet(sig::cut)),
    ("sig_long", || quiet(sig::long)),
    ("sig_words", || quiet(sig::words)),
    ("sig_odd_dates", || quiet(sig::odd_dates)),
    ("sig_digit_counts", || quiet(sig::digit_counts)),
    ("ids_there_and_back", || quiet(ids::there_and_back)),
    ("ids_strings", || quiet(ids::strings)),
    ("ids_parse_full", || quiet(ids::parse_full)),
    ("ids_lengths", || quiet(ids::lengths)),
    ("ids_parse_short", || quiet(ids::parse_short)),
    ("ids_order", || quiet(ids::order)),
    ("ids_prefix", || quiet(ids::prefix)),
    ("ids_hashes", || quiet(ids::hashes)),
    ("index_first_byte", || quiet(index::first_byte)),
    ("index_any_ids", || quiet(index::any_ids)),
    ("index_large_tables", || quiet(index::large_tables)),
    ("index_all_entries", || quiet(index::all_entries)),
    ("index_wide_offsets", || quiet(index::wide_offsets)),
    ("index_far_offsets", || quiet(index::far_offsets)),
    ("index_several_packs", || quiet(index::several_packs)),
    ("index_huge_tables", || quiet(index::huge_tables)),
    ("index_apart", || quiet(index::apart)),
    ("pack_small", || quiet(pack::small)),
    ("pack_sizes", || quiet(pack::sizes)),
    ("pack_types", || quiet(pack::types)),
    ("pack_type_any", || quiet(pack::type_any)),
    ("pack_size_any", || quiet(pack::size_any)),
    ("pack_size_huge", || quiet(pack::size_huge)),
    ("pack_size_off", || quiet(pack::size_off)),
    ("pack_cut", || quiet(pack::cut)),
    ("pack_orders", || quiet(pack::orders)),
    ("pack_duplicates", || quiet(pack::duplicates)),
    ("pack_large", || quiet(pack::large)),
    ("pack_size_one_off", || quiet(pack::size_one_off)),
    ("pack_edge_sizes", || quiet(pack::edge_sizes)),
    ("pack_words", || quiet(pack::words)),
    ("pair_well_formed", || quiet(pair::well_formed)),
    ("pair_pack_header", || quiet(pair::pack_header)),
    ("pair_pack_count", || quiet(pair::pack_count)),
    ("pair_index_header", || quiet(pair::index_header)),
    ("pair_fan_out", || quiet(pair::fan_out)),
    ("pair_too_many", || quiet(pair::too_many)),
    ("pair_checksum", || quiet(pair::checksum)),
    ("pair_index_length", || quiet(pair::index_length)),
    ("pair_pack_length", || quiet(pair::pack_length)),
    ("pair_swapped", || quiet(pair::swapped)),
    ("pair_offset_reference", || quiet(pair::offset_reference)),
    ("pair_small_pairs", || quiet(pair::small_pairs)),
    ("delta_raw", || quiet(delta::raw)),
    ("delta_raw_sizes", || quiet(delta::raw_sizes)),
    ("delta_copy_opcodes", || quiet(delta::copy_opcodes)),
    ("delta_copy_operands", || quiet(delta::copy_operands)),
    ("delta_inserts", || quiet(delta::inserts)),
    ("delta_sequences", || quiet(delta::sequences)),
    ("delta_sizes_off", || quiet(delta::sizes_off)),
    ("delta_sizes_huge", || quiet(delta::sizes_huge)),
    ("delta_damaged", || quiet(delta::damaged)),
    ("delta_sixty_four_k", || quiet(delta::sixty_four_k)),
    ("delta_long", || quiet(delta::long)),
    ("delta_entry_size", || quiet(delta::entry_size)),
    ("delta_large", || quiet(delta::large)),
    ("delta_edge_sizes", || quiet(delta::edge_sizes)),
    ("chain_shapes", || quiet(chain::shapes)),
    ("chain_types", || quiet(chain::types)),
    ("chain_orders", || quiet(chain::orders)),
    ("chain_deep_chains", || quiet(chain::deep_chains)),
    ("chain_distances", || quiet(chain::distances)),
    ("chain_distance_any", || quiet(chain::distance_any)),
    ("chain_broken", || quiet(chain::broken)),
    ("chain_distance_huge", || quiet(chain::distance_huge)),
    ("chain_many", || quiet(chain::many)),
    ("stores_combinations", || quiet(stores::combinations)),
    ("stores_siblings", || quiet(stores::siblings)),
    ("stores_packed_meanwhile", || quiet(stores::packed_meanwhile)),
    ("stores_repacked_meanwhile", || quiet(stores::repacked_meanwhile)),
    ("stores_unpacked_meanwhile", || quiet(stores::unpacked_meanwhile)),
    ("stores_added_later", || quiet(stores::added_later)),
    ("stores_removed", || quiet(stores::removed)),
    ("stores_odd_files", || quiet(stores::odd_files)),
    ("stores_no_folders", || quiet(stores::no_folders)),
    ("stores_many_packs", || quiet(stores::many_packs)),
    ("stores_pack_names", || quiet(stores::pack_names)),
    ("stores_added_one_by_one", || quiet(stores::added_one_by_one)),
    ("stores_two_pack_names", || quiet(stores::two_pack_names)),
    ("stores_special_ids", || quiet(stores::special_ids)),
    ("stores_places", || quiet(stores::places)),
    ("corrupt_deflate", || quiet(corrupt::deflate)),
    ("corrupt_deflate_damaged", || quiet(corrupt::deflate_damaged)),
    ("corrupt_zlib_header", || quiet(corrupt::zlib_header)),
    ("corrupt_huffman", || quiet(corrupt::huffman)),
    ("corrupt_bombs", || quiet(corrupt::bombs)),
    ("corrupt_lengths", || quiet(corrupt::lengths)),
    ("corrupt_bodies", || quiet(corrupt::bodies)),
    ("corrupt_texts", || quiet(corrupt::texts)),
    ("corrupt_signatures", || quiet(corrupt::signatures)),
    ("corrupt_pack_bytes", || quiet(corrupt::pack_bytes)),
    ("corrupt_pack_entry", || quiet(corrupt::pack_entry)),
    ("corrupt_index_bytes", || quiet(corrupt::index_bytes)),
    ("corrupt_index_counts", || quiet(corrupt::index_counts)),
    ("corrupt_index_offsets", || quiet(corrupt::index_offsets)),
    ("corrupt_fan_out", || quiet(corrupt::fan_out)),
    ("corrupt_delta_bombs", || quiet(corrupt::delta_bombs)),
    ("corrupt_delta_bytes", || quiet(corrupt::delta_bytes)),
    ("corrupt_chains", || quiet(corrupt::chains)),
    ("corrupt_ref_bytes", || quiet(corrupt::ref_bytes)),
    ("corrupt_ref_damaged", || quiet(corrupt::ref_damaged)),
    ("corrupt_ref_long", || quiet(corrupt::ref_long)),
    ("corrupt_ref_loops", || quiet(corrupt::ref_loops)),
    ("corrupt_wrong_files", || quiet(corrupt::wrong_files)),
    ("corrupt_deep_folders", || quiet(corrupt::deep_folders)),
    ("corrupt_printed", || quiet(corrupt::printed)),
    ("faults_split_loose", || quiet(faults::split_loose)),
    ("faults_split_packed", || quiet(faults::split_packed)),
    ("faults_split_kinds", || quiet(faults::split_kinds)),
    ("faults_split_refs", || quiet(faults::split_refs)),
    ("faults_error_loose", || quiet(faults::error_loose)),
    ("faults_error_packed", || quiet(faults::error_packed)),
    ("faults_error_search", || quiet(faults::error_search)),
    ("faults_error_kinds", || quiet(faults::error_kinds)),
    ("faults_error_refs", || quiet(faults::error_refs)),
    ("faults_error_list", || quiet(faults::error_list)),
    ("faults_error_open", || quiet(faults::error_open)),
    ("refs_parse_any", || quiet(refs::parse_any)),
    ("refs_parse_around", || quiet(refs::parse_around)),
    ("refs_parse_id", || quiet(refs::parse_id)),
    ("refs_parse_lines", || quiet(refs::parse_lines)),
    ("refs_parse_long", || quiet(refs::parse_long)),
    ("refs_parse_peel", || quiet(refs::parse_peel)),
    ("refs_names_any", || quiet(refs::names_any)),
    ("refs_names_parts", || quiet(refs::names_parts)),
    ("refs_names_damaged", || quiet(refs::names_damaged)),
    ("refs_names_followed", || quiet(refs::names_followed)),
    ("refs_names_ordinary", || quiet(refs::names_ordinary)),
    ("refs_peel_graphs", || quiet(refs::peel_graphs)),
    ("refs_peel_chains", || quiet(refs::peel_chains)),
    ("refs_peel_kinds", || quiet(refs::peel_kinds)),
    ("refs_peel_spellings", || quiet(refs::peel_spellings)),
    ("refs_peel_again", || quiet(refs::peel_again)),
    ("refs_list_layouts", || quiet(refs::list_layouts)),
    ("refs_list_names", || quiet(refs::list_names)),
    ("refs_list_special", || quiet(refs::list_special)),
    ("refs_list_many", || quiet(refs::list_many)),
    ("refs_list_not_folders", || quiet(refs::list_not_folders)),
    ("refs_list_faults", || quiet(refs::list_faults)),
    ("refs_list_again", || quiet(refs::list_again)),
    ("refs_parse_words", || quiet(refs::parse_words)),
    ("refs_names_known", || quiet(refs::names_known)),
    ("refs_parse_far", || quiet(refs::parse_far)),
    ("refs_list_places", || quiet(refs::list_places)),
    ("refs_names_places", || quiet(refs::names_places)),
    ("threads_pairs", || quiet(threads::pairs)),
    ("threads_two_each", || quiet(threads::two_each)),
    ("threads_three", || quiet(threads::three)),
    ("threads_new_pack", || quiet(threads::new_pack)),
    ("threads_two_packs", || quiet(threads::two_packs)),
    ("threads_packed_meanwhile", || quiet(threads::packed_meanwhile)),
    ("threads_one_fails", || quiet(threads::one_fails)),
    ("threads_kinds", || quiet(threads::kinds)),
    ("threads_references", || quiet(threads::references)),
    ("readonly_open_kinds", || quiet(readonly::open_kinds)),
    ("readonly_open_faults", || quiet(readonly::open_faults)),
    ("readonly_each_read", || quiet(readonly::each_read)),
    ("readonly_each_read_faults", || quiet(readonly::each_read_faults)),
    ("readonly_sequences", || quiet(readonly::sequences)),
    ("readonly_two_threads", || quiet(readonly::two_threads)),
    ("readonly_without", || quiet(readonly::without)),
    ("hold_reads", || quiet(hold::reads)),
    ("hold_operations", || quiet(hold::operations)),
    ("hold_references", || quiet(hold::references)),
    ("hold_after_faults", || quiet(hold::after_faults)),
    ("hold_writes_again", hold::writes_again),
    ("hold_two_threads", || quiet(hold::two_threads)),
    ("hold_many_times", || quiet(hold::many_times)),
    ("hold_broken_pairs", || quiet(hold::broken_pairs)),
    ("errs_reading", || quiet(errs::reading)),
    ("errs_faulty", || quiet(errs::faulty)),
    ("errs_looking_up", || quiet(errs::looking_up)),
    ("errs_peeling", || quiet(errs::peeling)),
    ("errs_reference_faults", || quiet(errs::reference_faults)),
    ("errs_id_texts", || quiet(errs::id_texts)),
    ("errs_opening", || quiet(errs::opening)),
    ("own_beside", own::beside),
    ("own_in_the_way", own::in_the_way),
    ("own_known_object", own::known_object),
    ("own_failing", own::failing),
    ("own_cut_off", own::cut_off),
    ("own_two_writers", own::two_writers),
    ("own_places", own::places),
    ("stream_any_sizes", stream::any_sizes),
    ("stream_side_by_side", stream::side_by_side),
    ("stream_meanwhile", stream::meanwhile),
    ("stream_parsed_stay", stream::parsed_stay),
    ("stream_two_threads", stream::two_threads),
    ("fresh_history", || quiet(fresh::history)),
    ("fresh_folders", || quiet(fresh::folders)),
    ("fresh_replaced", || quiet(fresh::replaced)),
    ("fresh_peeled_meanwhile", || quiet(fresh::peeled_meanwhile)),
    ("fresh_new_object", || quiet(fresh::new_object)),
    ("fresh_listed", || quiet(fresh::listed)),
];

/// a scenario that only reads: it must leave the file system alone
fn quiet(f: fn()) {
    f();
    rt::check(rt::writes() == 0, "[C22] reading changed the file system")
}
