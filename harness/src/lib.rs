//! Harnesses: each `h_*` function is an entry point of the symbolic executor and of the native replay.
#![allow(clippy::all)]
pub mod sym;
pub mod refm;
pub mod codec;
pub mod encode;
pub mod ids;
pub mod evloop;

macro_rules! harnesses {
    ($($m:ident :: $f:ident),* $(,)?) => {
        $( #[no_mangle] pub extern "C-unwind" fn $f() { $m::$f() } )*
        pub fn lookup(name: &str) -> Option<fn()> {
            match name { $( stringify!($f) => Some($m::$f), )* _ => None }
        }
    };
}
harnesses! {
    codec::h_total_any_6,
    codec::h_total_any_7,
    codec::h_total_any_8,
    codec::h_total_connack,
    codec::h_total_publish,
    codec::h_total_puback,
    codec::h_total_suback,
    codec::h_total_unsuback,
    codec::h_total_disconnect,
    codec::h_total_other,
    codec::h_total_long,
    codec::h_total_very_long,
    codec::h_framing_any_6,
    codec::h_framing_any_7,
    codec::h_framing_header,
    codec::h_framing_suffix,
    codec::h_framing_suffix_deep,
    codec::h_framing_sizes,
    codec::h_framing_sizes_deep,
    codec::h_framing_two,
    codec::h_framing_many,
    codec::h_framing_history,
    codec::h_varint_roundtrip,
    codec::h_varint_decode,
    codec::h_publish_any_7,
    codec::h_publish_any_9,
    codec::h_publish_shaped_1,
    codec::h_publish_shaped_2,
    codec::h_publish_shaped_3,
    codec::h_publish_long,
    codec::h_publish_lengths,
    codec::h_publish_prop_lengths,
    codec::h_publish_prop_lengths_deep,
    codec::h_ack_connack,
    codec::h_ack_puback,
    codec::h_ack_suback,
    codec::h_ack_unsuback,
    codec::h_ack_disconnect,
    codec::h_ack_lengths,
    codec::h_ack_lengths_deep,
    codec::h_ack_shaped_1,
    codec::h_ack_shaped_2,
    codec::h_fmt_acks,
    codec::h_ack_pingresp,
    codec::h_props_any_7,
    codec::h_props_any_9,
    codec::h_props_shaped_2,
    codec::h_props_shaped_3,
    codec::h_props_roundtrip_1,
    codec::h_props_roundtrip_2,
    codec::h_props_roundtrip_3,
    codec::h_props_long,
    codec::h_props_many,
    encode::h_enc_publish_content,
    encode::h_enc_publish_content_deep,
    encode::h_enc_publish_props,
    encode::h_enc_publish_props_deep,
    encode::h_enc_publish_sizes,
    encode::h_enc_publish_sizes_deep,
    encode::h_enc_publish_lengths,
    encode::h_enc_publish_long,
    encode::h_enc_publish_long_deep,
    encode::h_enc_connect,
    encode::h_enc_subscribe,
    encode::h_enc_unsubscribe,
    encode::h_enc_long_topics,
    encode::h_enc_puback,
    encode::h_enc_pingreq,
    encode::h_enc_disconnect,
    encode::h_enc_puback_again,
    encode::h_enc_disconnect_again,
    encode::h_enc_history,
    ids::h_ids_history,
    ids::h_ids_history_deep,
    ids::h_ids_arbitrary,
    ids::h_ids_arbitrary_deep,
    ids::h_ids_full,
    ids::h_ids_permuted,
    ids::h_ids_permuted_deep,
    ids::h_ids_patterns,
    ids::h_ids_churn,
    evloop::h_hs_connect_first,
    evloop::h_hs_connack,
    evloop::h_hs_connack_deep,
    evloop::h_hs_other,
    evloop::h_hs_other_deep,
    evloop::h_hs_slow,
    evloop::h_hs_failures,
    evloop::h_in_sequence,
    evloop::h_in_sequence_3,
    evloop::h_in_sequence_4,
    evloop::h_in_publish,
    evloop::h_in_publish_deep,
    evloop::h_in_backpressure,
    evloop::h_in_no_listener,
    evloop::h_in_listener_leaves,
    evloop::h_in_many,
    evloop::h_fmt_in_order,
    evloop::h_fmt_backpressure,
    evloop::h_fmt_in_text,
    evloop::h_fmt_values,
    evloop::h_fmt_values_deep,
    evloop::h_fmt_unsuback_many,
    evloop::h_fmt_texts,
    evloop::h_fmt_long,
    evloop::h_out_sequence,
    evloop::h_out_sequence_3,
    evloop::h_out_sequence_4,
    evloop::h_out_mixed,
    evloop::h_out_mixed_any,
    evloop::h_out_mixed_3,
    evloop::h_out_full,
    evloop::h_out_many,
    evloop::h_out_limits,
    evloop::h_out_limits_wide,
    evloop::h_out_oversized,
    evloop::h_builder,
    evloop::h_builder_deep,
    evloop::h_client_after_end,
    evloop::h_ids_loop,
    evloop::h_ids_loop_deep,
    evloop::h_ids_loop_many,
    evloop::h_ka_alive,
    evloop::h_ka_alive_deep,
    evloop::h_ka_many,
    evloop::h_ka_slow,
    evloop::h_ka_slow_many,
    evloop::h_ka_slow_socket,
    evloop::h_ka_slow_socket_3,
    evloop::h_ka_stuck,
    evloop::h_ka_silent_blocked,
    evloop::h_ka_silent,
    evloop::h_ka_answer,
    evloop::h_ka_answer_deep,
    evloop::h_end_client,
    evloop::h_end_server,
    evloop::h_end_server_deep,
    evloop::h_end_connection,
    evloop::h_end_no_clients,
    evloop::h_chunks,
    evloop::h_chunks_2,
    evloop::h_chunks_deep,
    evloop::h_chunks_large,
    evloop::h_chunks_blocked,
    evloop::h_loop_total,
    evloop::h_loop_total_deep,
    evloop::h_loop_total_long,
    evloop::h_loop_total_very_long,
    evloop::h_loop_total_early,
    evloop::h_loop_total_early_deep,
    evloop::h_loop_total_state,
    evloop::h_loop_total_packets,
    evloop::h_loop_total_packets_2,
    evloop::h_sess_in,
    evloop::h_sess_in_deep,
    evloop::h_sess_listener,
    evloop::h_sess_listener_deep,
    evloop::h_sess_out,
    evloop::h_sess_out_deep,
    evloop::h_sess_alive,
    evloop::h_sess_alive_deep,
    evloop::h_sess_dead,
    evloop::h_sess_dead_deep,
    evloop::h_sess_end,
    evloop::h_sess_end_deep,
    evloop::h_sess_all,
    evloop::h_sess_long_in,
    evloop::h_sess_long_out,
    evloop::h_sess_long_alive,
    evloop::h_sess_long_dead,
    evloop::h_sess_long_listener,
    evloop::h_sess_long_idle,
    evloop::h_sess_long_one,
    evloop::h_sess_long_flight_in,
    evloop::h_sess_long_flight_out,
    evloop::h_sess_long_flight_alive,
    evloop::h_sess_long_flight_dead,
    evloop::h_sess_long_end,
    evloop::h_sess_alone,
    evloop::h_sess_alone_alive,
    evloop::h_sess_alone_dead,
    evloop::h_sess_traffic_alive,
    evloop::h_sess_traffic_dead,
    evloop::h_sess_between_alive,
    evloop::h_sess_between_dead,
    evloop::h_poll_spurious,
    evloop::h_poll_spurious_deep,
    evloop::h_poll_spurious_4,
    evloop::h_poll_spurious_5,
    evloop::h_poll_often,
    evloop::h_poll_ends,
    evloop::h_poll_full,
    evloop::h_drop,
    evloop::h_drop_deep,
    evloop::h_drop_4,
    evloop::h_drop_5,
    evloop::h_drop_full,
    evloop::h_flood_notifications,
    evloop::h_flood_notifications_deep,
    evloop::h_flood_acks,
    evloop::h_flood_acks_deep,
    evloop::h_flood_commands,
    evloop::h_chunks_connack,
    evloop::h_chunks_connack_deep,
    evloop::h_end_early,
    evloop::h_hs_refused_more,
    evloop::h_end_client_slow,
    evloop::h_blocked_anywhere,
    evloop::h_full_mix,
    evloop::h_hs_no_listener,
    evloop::h_ids_reasons,
    evloop::h_end_errors,
    evloop::h_out_batch,
    evloop::h_in_batch,
}

/// where tokio's `select!` starts polling; 0 = declaration order
#[no_mangle]
pub extern "C-unwind" fn verif_select(n: u32) -> u32 {
    evloop::select_start(n)
}
