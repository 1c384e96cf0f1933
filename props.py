"""Which harnesses decide which property. `quick` runs on every change, `thorough` adds to it."""
PROPS = {
    "C01": dict(
        quick="h_total_any_6 h_total_any_7 h_total_connack h_total_publish h_total_puback h_total_suback h_total_unsuback "
              "h_total_disconnect h_total_other h_total_any_8 h_total_long h_total_very_long",
        thorough="",
        bounds="arbitrary buffers of 0..8 bytes; for each packet type, complete packets with arbitrary flags and "
               "arbitrary bodies up to 9 bytes; packets of every type with texts, property lists or payloads of up to "
               "65535 bytes in 18 sizes, lengths off by -1, 1, 256, arbitrary bytes at the ends of their parts"),
    "C02": dict(
        quick="h_framing_history h_framing_any_6 h_framing_header h_framing_suffix h_framing_sizes h_framing_two h_framing_any_7 "
              "h_framing_suffix_deep h_framing_sizes_deep h_framing_many",
        thorough="",
        bounds="arbitrary buffers of 0..7 bytes; any 5 byte header with up to a few body bytes; packets whose length field has "
               "1, 2, 3 bytes with arbitrary first and last body bytes; two packets back to back; up to 300 packets in one "
               "buffer; "
               "after any number of up to 300 packets, in pieces"),
    "C03": dict(
        quick="h_varint_roundtrip h_varint_decode",
        thorough="",
        bounds="every value 0..268435455 (symbolic 32 bit); every sequence of 0..6 bytes"),
    "C04": dict(
        quick="h_publish_prop_lengths h_publish_prop_lengths_deep h_publish_any_7 h_publish_shaped_1 h_publish_shaped_2 h_publish_long h_publish_any_9 h_publish_lengths",
        thorough="h_publish_shaped_3",
        bounds="arbitrary PUBLISH bodies of 0..9 bytes, and bodies with up to 2 (thorough 3) well formed properties, all "
               "content bytes and flags arbitrary; every topic length and every payload length 0..300, topic lengths up to "
               "65535 at the boundaries; "
               "property sets of every length 0..300 and up to 65535"),
    "C05": dict(
        quick="h_ack_connack h_ack_puback h_ack_suback h_ack_unsuback h_ack_disconnect h_ack_shaped_1 h_ack_pingresp "
              "h_ack_shaped_2 h_fmt_acks h_ack_lengths h_ack_lengths_deep",
        thorough="",
        bounds="arbitrary bodies up to the sizes in harness/src/codec.rs (h_ack_*), and bodies with up to two well formed "
               "properties of arbitrary content; reason strings and user properties of every length 0..300 and up to 65535, up to "
               "100 user properties; up to 3 reason codes of an UNSUBACK in texts, any number within the size otherwise"),
    "C06": dict(
        quick="h_props_any_7 h_props_shaped_2 h_props_roundtrip_1 h_props_roundtrip_2 h_props_long h_props_any_9 "
              "h_props_shaped_3 h_props_roundtrip_3 h_props_many",
        thorough="",
        bounds="arbitrary property bytes up to 9; up to 3 properties of any supported kind with arbitrary values and UTF-8 "
               "text; up to 300 properties of mixed kinds; lists whose length needs 1, 2, 3 bytes"),
    "C07": dict(
        quick="h_enc_history h_enc_publish_content h_enc_publish_props h_enc_publish_sizes h_enc_publish_long h_enc_publish_content_deep h_out_sequence h_builder "
              "h_enc_publish_props_deep h_enc_publish_sizes_deep h_enc_publish_long_deep h_enc_publish_lengths",
        thorough="",
        bounds="arbitrary topic and payload bytes (few), arbitrary packet id, QoS, retain, up to 2 properties of any kind; "
               "every topic length and every payload length 0..300, and sizes at the boundaries of the length encodings up to "
               "4 length bytes; "
               "through the client: 2 commands with arbitrary contents, messages with up to 2 properties; "
               "after any number of up to 600 packets"),
    "C08": dict(
        quick="h_enc_history h_enc_connect h_enc_subscribe h_enc_unsubscribe h_enc_long_topics h_enc_puback h_enc_pingreq h_enc_disconnect h_enc_puback_again h_enc_disconnect_again h_out_sequence h_hs_connect_first",
        thorough="",
        bounds="arbitrary keep alive, packet ids, reason codes, QoS; arbitrary short texts, and texts at the boundaries of the "
               "length encodings up to 65535 bytes; "
               "through the client: 2 commands with arbitrary contents, CONNECT; "
               "after any number of up to 600 packets"),
    "C09": dict(
        quick="h_ids_history h_ids_history_deep h_ids_arbitrary h_ids_full h_ids_permuted h_ids_permuted_deep h_ids_patterns h_ids_churn h_ids_loop_many",
        thorough="h_ids_arbitrary_deep",
        bounds="every history of up to 12 allocations and returns of identifiers in use, with 1..4 identifiers in all; 4 "
               "(thorough 5) operations returning arbitrary 16 bit values; the full range of 65535 identifiers once round; "
               "up to 8 identifiers returned in every order; regular patterns and moving windows with up to 61 identifiers; "
               "through the client: hundreds of ids in flight"),
    "C10": dict(
        quick="h_ids_reasons h_sess_long_flight_out h_ids_loop h_ids_loop_many h_ids_loop_deep h_out_many",
        thorough="",
        bounds="every history of 6 events: QoS 1 publish, subscribe, unsubscribe, their acknowledgement, an acknowledgement of "
               "anything else, with 1..3 identifiers in all; 300 requests in flight with the full range; 700 requests with "
               "0..40 in flight; up to 270 requests that nobody answers; every reason code of every acknowledgement, with a property or none, consumer or none, a single identifier"),
    "C11": dict(
        quick="h_hs_no_listener h_hs_refused_more h_hs_connect_first h_hs_connack h_hs_other h_hs_failures h_hs_connack_deep h_hs_other_deep h_hs_slow",
        thorough="",
        bounds="any CONNACK body up to the sizes in h_hs_*; any other first packet; failures of connect, read, write at every point; "
               "CONNACK after 1..3 arbitrary delays; commands waiting or not; every order of select!; "
               "a refusal followed by other packets or arbitrary bytes; no consumer of notifications"),
    "C12": dict(
        quick="h_in_batch h_sess_alone h_sess_long_flight_in h_sess_long_in h_in_sequence h_in_sequence_3 h_in_sequence_4 h_in_publish h_in_publish_deep h_in_many h_fmt_in_order h_sess_in",
        thorough="h_sess_in_deep",
        bounds="sequences of 2, 3 and 4 server packets of any supported kind with arbitrary packet ids and content bytes, "
               "delivered one by one or together; 700 messages in a row; every order of select!; "
               "sessions of 4 (thorough 5) steps of server packets, commands and answers, some before CONNACK; "
               "any number of up to 300 rounds of all kinds of traffic, then each kind of step; up to 270 requests that nobody answers, then each kind of step; sessions of 5 steps without clients or consumer; 2 to 96 packets arriving together, one kind among another"),
    "C13": dict(
        quick="h_sess_alone h_full_mix h_sess_long_listener h_in_backpressure h_in_no_listener h_in_listener_leaves h_fmt_backpressure h_sess_listener",
        thorough="h_sess_listener_deep",
        bounds="more messages than the notification queue holds (its capacity and a few), the consumer reading after any "
               "number of them; 330 messages in bursts of up to 250 to a slower consumer; consumer dropped before and after "
               "the handshake and while the event loop waits for it; "
               "sessions of 4 (thorough 5) steps in which the consumer goes away at any of them; "
               "any number of up to 300 rounds of all kinds of traffic, then each kind of step; 60 to 140 notifications of mixed kinds with commands and a ping meanwhile; sessions of 5 steps without clients or consumer"),
    "C14": dict(
        quick="h_out_batch h_out_limits_wide h_full_mix h_sess_long_flight_out h_sess_long_out h_out_sequence h_out_sequence_3 h_out_mixed h_out_full h_builder h_out_mixed_3 h_builder_deep h_out_many h_out_limits h_sess_out",
        thorough="h_out_sequence_4 h_out_mixed_any h_out_oversized h_sess_out_deep",
        bounds="sequences of 2 and 3 (thorough 4) commands of any kind with arbitrary contents, given together or one by one, "
               "with server packets in between; 700 commands in a row; a full command queue; "
               "texts of 65533..131074 bytes around each limit (thorough: messages of 268435455 bytes and more); every order of select!; "
               "sessions of 4 (thorough 5) steps of commands, acknowledgements, messages and time; "
               "any number of up to 300 rounds of all kinds of traffic, then each kind of step; up to 270 requests that nobody answers, then each kind of step; 2 to 100 commands waiting together, one kind among another, before or after CONNACK"),
    "C15": dict(
        quick="h_sess_between_alive h_sess_traffic_alive h_sess_alone_alive h_sess_long_flight_alive h_sess_long_alive h_sess_long_idle h_ka_alive h_ka_many h_ka_slow h_ka_slow_socket h_sess_alive",
        thorough="h_ka_alive_deep h_ka_slow_many h_ka_slow_socket_3 h_sess_alive_deep",
        bounds="3 steps of arbitrary duration (any number of ms up to one keep alive period), each with traffic or not "
               "(thorough: 5 steps of boundary durations); hundreds of periods with and without traffic; 3 (thorough 4) such steps with a full notification queue, 0..2 "
               "notifications taken in each; a packet taken in 3 (thorough 4) pieces at arbitrary times; every order of "
               "select!; "
               "sessions of 6 (thorough 8) half intervals, answers (asked for or not), messages and commands; "
               "any number of up to 300 rounds of all kinds of traffic, then each kind of step; up to 130 requests that nobody answers; sessions of 6 steps without clients or consumer; 5 steps out of 7 kinds of traffic; two kinds of traffic between the halves of 4 intervals"),
    "C16": dict(
        quick="h_sess_between_dead h_sess_traffic_dead h_sess_alone_dead h_sess_long_flight_dead h_sess_long_dead h_ka_answer h_ka_silent h_ka_answer_deep h_ka_silent_blocked h_ka_stuck h_sess_dead",
        thorough="h_sess_dead_deep",
        bounds="answer to a PINGREQ after any number of ms or never, after 0..2 answered ones; with and without other traffic; "
               "a socket that takes nothing from an arbitrary moment on, or for an arbitrary time; "
               "sessions of 6 (thorough 8) half intervals, answers (asked for or not), messages and commands; "
               "any number of up to 300 rounds of all kinds of traffic, then each kind of step; up to 130 requests that nobody answers; sessions of 6 steps without clients or consumer; 5 steps out of 7 kinds of traffic; two kinds of traffic between the halves of 4 intervals"),
    "C17": dict(
        quick="h_end_errors h_sess_long_end h_end_client_slow h_end_early h_sess_long_one h_end_client h_end_server h_end_connection h_end_no_clients h_client_after_end h_end_server_deep h_sess_end h_sess_all",
        thorough="h_sess_end_deep",
        bounds="up to 2 commands before Client::disconnect; any server DISCONNECT body up to the sizes in h_end_server; end of "
               "stream or read/write error at every byte of a packet; every order of select!; "
               "sessions of 3 (thorough 4) steps of any kind, clients or consumer going away among them, ended in each way; "
               "any number of up to 300 steps of one kind, then each kind; "
               "the end right behind CONNACK; disconnect before CONNACK or to a server that is slow to take it; any number of up to 270 steps of one kind, then each end; 19 kinds of errors when reading, writing, flushing, in 7 states"),
    "C18": dict(
        quick="h_in_batch h_blocked_anywhere h_chunks_connack h_chunks_connack_deep h_framing_history h_chunks h_chunks_2 h_chunks_large h_chunks_blocked",
        thorough="h_chunks_deep",
        bounds="three server packets cut at up to two arbitrary places, the socket accepting arbitrary small pieces; messages of up "
               "to 40000 bytes in pieces; a socket that takes nothing for a while; "
               "after any number of up to 300 packets; "
               "CONNACK and three packets behind it cut at up to two places; every kind of packet of the client blocked after any number of up to 47 bytes, or near the end of up to 20000"),
    "C19": dict(
        quick="h_loop_total_state h_loop_total h_loop_total_early h_loop_total_packets h_loop_total_early_deep h_loop_total_packets_2 "
              "h_loop_total_long h_loop_total_very_long",
        thorough="h_loop_total_deep",
        bounds="arbitrary bytes from the server (number of bytes in h_loop_total*), before and after CONNACK; one or two "
               "complete packets of every type with arbitrary small bodies; long packets as in C01; any complete packet of up to 4 bytes with requests in flight, messages not taken, a ping open, no consumer, no client"),
    "C20": dict(
        quick="h_fmt_unsuback_many h_fmt_texts h_fmt_in_text h_fmt_values h_fmt_long h_fmt_values_deep",
        thorough="",
        bounds="every SUBACK and UNSUBACK reason code, every combination of QoS 0/1, retain, DUP, text or binary payload, every "
               "property kind; arbitrary packet id, payload of up to 2 arbitrary bytes, arbitrary property values; texts and payloads of up to "
               "10000 bytes of fixed content; formatting code executed symbolically as well; topics, text payloads and property texts with any ASCII byte at their ends; UNSUBACK with up to 130 reason codes"),
    "C21": dict(
        quick="h_drop h_drop_full h_drop_deep h_drop_4",
        thorough="h_drop_5",
        bounds="dropped before the first poll, while connecting, inside CONNECT, at each byte of CONNACK, and after up to 4 (thorough 5) "
               "events of 9 kinds, or ended in 4 ways after them; up to 105 messages waiting; orders of select!"),
    "C22": dict(
        quick="h_poll_spurious h_poll_often h_poll_ends h_poll_full h_poll_spurious_4",
        thorough="h_poll_spurious_5 h_poll_spurious_deep",
        bounds="4 (thorough 5) events of 11 kinds with arbitrary points in time and packet ids, during handshake and session, a poll after "
               "each, or any number up to 1200, by the same or another task (thorough: each or not)"),
    "C23": dict(
        quick="h_flood_notifications h_flood_acks h_flood_commands h_flood_notifications_deep h_flood_acks_deep",
        thorough="",
        bounds="floods of 1500 and 4000 packets with arbitrary packet ids, or of 1500 commands"),
}
