#![allow(static_mut_refs, unexpected_cfgs, clippy::all)]
#[macro_use]
pub mod rt;
pub mod io;
pub mod proto;
pub mod spec;
pub mod wr;
pub mod p_block;
pub mod p_payload;
pub mod p_packet;
pub mod p_stream;
pub mod p_store;
pub mod p_full;
pub mod p_more;
pub mod p_try;
pub mod p_write;

macro_rules! entries {
    ($($m:ident :: { $($f:ident),* $(,)? }),* $(,)?) => {
        $($( #[no_mangle] pub extern "C" fn $f() { $m::$f() } )*)*
        pub static ENTRIES: &[(&str, extern "C" fn())] = &[$($((stringify!($f), $f)),*),*];
    };
}
entries! {
    p_block::{h_block_rt, h_block_enum_rt, h_block_layout, h_block_skip_sig},
    p_payload::{h_payload_layout, h_payload_rt, h_payload_header_rt},
    p_stream::{h_litter_litter, h_litter_cuts, h_litter_long_litter, h_litter_many, h_litter_boundary, h_litter_large,
        h_stream_litter, h_stream_cuts, h_stream_long_litter, h_stream_many, h_stream_boundary,
        h_stream_large, h_stream_overlap, h_stream_damage_block, h_stream_damage_payload, h_stream_damage_mixed,
        h_stream_forged, h_stream_any, h_stream_stops, h_stream_flaky, h_rules_stream, h_rules_packet, h_rules_remove},
    p_try::{h_part_block_seek, h_part_block_buf, h_part_own_seek, h_part_own_buf, h_part_packet_seek,
        h_part_packet_buf, h_part_header_seek, h_part_header_buf, h_part_payload_header, h_part_payload_body, h_window_block,
        h_any_block, h_any_slice, h_any_payload_header, h_any_payload_body, h_any_packet, h_agree_packet, h_damage_block, h_damage_packet},
    p_write::{h_write_parts, h_write_parts_block, h_write_parts_payload, h_write_fails, h_write_once, h_limit, h_buffered_reader},
    p_store::{h_store_rt, h_store_ops, h_store_short, h_store_layout, h_store_kinds, h_store_reopen, h_store_filtered, h_store_reload,
        h_store_crash, h_store_trunc, h_store_fail, h_store_damage_slot, h_store_recover, h_store_damage_packet, h_store_damage_range, h_store_any, h_store_any_bytes},
    p_more::{h_long_block, h_long_payload, h_long_packet, h_long_parts, h_long_store, h_payload_any_size, h_slow_block, h_slow_payload, h_slow_packet, h_write_two_cuts, h_write_once_parts, h_write_fails_parts, h_stream_flaky2, h_stream_flaky_large, h_stream_kinds, h_stream_grows, h_stream_damage_two, h_rules_seq, h_rules_change, h_buffered_flaky, h_buffered_packets, h_store_reload_torn, h_store_fail_two, h_store_leftover, h_store_buffered, h_store_read_fails, h_litter_damaged, h_stream_torn, h_long_try, h_long_damage},
    p_full::{h_full_history, h_full_reload},
    p_packet::{h_packet_layout, h_packet_rt, h_packet_rt3, h_packet_rt_stream, h_packet_rt_seq},
}
