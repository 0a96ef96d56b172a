"""Which harnesses decide which property, within which bounds."""

PROTO = ("Protocol of the harness: eight blocks covering every field kind the macros support (all integer widths "
         "to 128 bits, f32/f64, bool, byte arrays first/last/adjacent, linked enums, a block without checksum, one of 317 bytes), "
         "payloads Bytes, String, a bincode struct, a hand-written one with 8-byte signature and checksum, one without checksum. ")

STORE = ("Protocol as in C04; slots of 3 packets (`--cfg brec_verif`), packets of five shapes with every value symbolic. ")


def h(entry, covers=(1,), **kw):
    return dict(kw, entry=entry, covers=list(covers))


PROPS = {
    "C01": {
        "bounds": PROTO + "Every value of every field (fully symbolic bytes); one block; sources that hand out everything, or 1, 2 or 7 bytes per call; one trailing byte.",
        "outside": "Blocks with other field combinations; byte arrays of other lengths than 1..=4, 7 and 300.",
        "harnesses": [h("h_block_rt"), h("h_block_enum_rt"), h("h_block_skip_sig"),
                      h("h_long_block"), h("h_slow_block")],
    },
    "C02": {
        "bounds": PROTO + "Every value of every field; each of the four write paths.",
        "outside": "Blocks with other field combinations; the value of a signature (opaque to the specification, taken from the type).",
        "harnesses": [h("h_block_layout"),
                      h("h_long_block")],
    },
    "C03": {
        "bounds": PROTO + "Payload bodies of 0..=9 bytes (fully symbolic); every read path; payload headers with signatures and checksums of 4, 8, 16, 32, 64 and 128 bytes, every value; any announced body length; bodies of 255, 256, 257, 4 096, 65 535, 65 536 and 65 537 bytes (symbolic at the ends and around the borders of a byte and of a half word); any 64-bit size of a payload.",
        "outside": "Other lengths.",
        "harnesses": [h("h_payload_layout"), h("h_payload_rt"), h("h_payload_header_rt"),
                      h("h_long_payload"), h("h_slow_payload"), h("h_payload_any_size", (1, 2))],
    },
    "C04": {
        "bounds": PROTO + "0..=3 blocks (the first of any kind), every payload or none, every value; five readers of whole packets, sources that hand out everything, or 1, 2 or 7 bytes per call, packets behind other bytes; two packets in one source; payloads of up to 65 537 bytes (as C03).",
        "outside": "More than three blocks of mixed kind (255 blocks of one kind: C25).",
        "harnesses": [h("h_packet_rt"), h("h_packet_rt3"), h("h_packet_rt_stream"), h("h_packet_rt_seq"),
                      h("h_long_packet"), h("h_slow_packet")],
    },
    "C05": {
        "bounds": PROTO + "0..=2 blocks (the first of any kind), every payload or none, every value; four write paths; payloads of up to 65 537 bytes (as C03).",
        "outside": "More blocks.",
        "harnesses": [h("h_packet_layout"),
                      h("h_long_packet")],
    },
    "C06": {
        "bounds": PROTO + "One burst of 1..=4 damaged bytes (any mask) at any position of a block, of a packet header, of the fields and checksum of any block of a packet, of the checksum or body of a payload; every value of the original; every reader.",
        "outside": "Wider or several damages (CRC-32 gives no guarantee); a packet's payload length and signature fields; length prefixes inside a bincode body (brec takes the checksum of the decoded value, documented); blocks and payloads declared without checksum.",
        "harnesses": [h("h_damage_block"), h("h_damage_packet", shards={0: 4, 1: 4}), h("h_long_damage")],
    },
    "C07": {
        "bounds": "Any bytes behind any declared signature (full length of each block, or short by 1 or 4 bytes), any 12 bytes; any slice up to a byte longer than a block, with and without its signature; payload headers of any 16 bytes cut at 8 lengths; payload bodies of 0..=13 bytes under headers of any length and checksum; packet headers with a valid checksum and any 64-bit sizes over five kinds of body up to 40 bytes; five readers.",
        "outside": "Longer inputs. Allocation is checked against what the source holds, not against a memory limit.",
        "harnesses": [h("h_any_packet", shards={0: 2, 1: 5, 2: 5}), h("h_any_block", (1, 2)), h("h_any_payload_header", (1, 2)),
                      h("h_any_payload_body", (1, 2)), h("h_stream_any", shards={0: 5, 1: 3}), h("h_any_slice", (1, 2))],
    },
    "C08": {
        "bounds": PROTO + "Blocks, packet headers, payload headers and bodies, five shapes of packets; cut after any number of bytes; starting at offset 0 or 3 of the source; then completed. Failing reads: any bytes behind every block signature, any payload header, any body.",
        "outside": "More than one block kind per packet beyond the five shapes.",
        "harnesses": [h("h_part_block_seek"), h("h_part_own_seek"), h("h_part_packet_seek"), h("h_part_header_seek"),
                      h("h_part_payload_header"), h("h_part_payload_body"), h("h_any_block", (1, 2)), h("h_any_payload_header", (1, 2)),
                      h("h_any_payload_body", (1, 2)), h("h_any_packet", shards={0: 2, 1: 5, 2: 5}), h("h_long_try"), h("h_long_damage")],
    },
    "C09": {
        "bounds": PROTO + "Blocks, packet headers, payload headers, five shapes of packets; cut after any number of bytes, then completed; blocks behind a window of any size from 4 bytes.",
        "outside": "The reader of payload bodies, which is documented to be given all its data.",
        "harnesses": [h("h_part_block_buf"), h("h_part_own_buf"), h("h_part_packet_buf"), h("h_part_header_buf"), h("h_part_payload_header"),
                      h("h_window_block"), h("h_any_packet", shards={0: 2, 1: 5, 2: 5}), h("h_any_block", (1, 2)), h("h_long_try"), h("h_long_damage")],
    },
    "C10": {
        "bounds": "2..=4 packets of five shapes with every field value symbolic; litter of 0..=3 symbolic bytes, of 5, 9, 28..=31, 37 and 60 symbolic bytes; chunks: everything at once, byte by byte, one or two cuts at any position followed by chunks of any size, 1, 7 or 30 bytes, equal chunks of every size up to 63; the first packet at every position of the last 80 before and the first 10 after the 8 192-byte buffer; packets of 8 100..=16 500 bytes; packets of every block and payload kind; a source that reports its end at any byte and goes on later. The litter does not contain the 8-byte packet signature.",
        "outside": "Longer histories; litter that contains a packet signature (C12).",
        "harnesses": [h("h_stream_litter", weight=4), h("h_stream_cuts", weight=6, shards={0: 4}), h("h_stream_long_litter", weight=5), h("h_stream_many"),
                      h("h_stream_boundary"), h("h_stream_large"), h("h_stream_overlap"),
                      h("h_stream_kinds"), h("h_stream_grows")],
    },
    "C11": {
        "bounds": "As C10: 2..=4 packets, litter between them of 0..=3, 5, 9, 28..=31, 37, 60 symbolic bytes or 8 112..=8 202 bytes, the same chunkings.",
        "outside": "Longer histories; streams with damaged packets.",
        "harnesses": [h("h_litter_litter", weight=4), h("h_litter_cuts", weight=6, shards={0: 4}), h("h_litter_long_litter", weight=5), h("h_litter_many"),
                      h("h_litter_boundary"), h("h_litter_large"), h("h_litter_damaged")],
    },
    "C12": {
        "bounds": "Three packets, the middle one damaged by any mask over one byte (two for the shape with one block) at any position, delivered at once, byte by byte, or cut behind the damage; four packets with any change of one byte at ten positions of each of two of them, or of the first or last; packet headers with valid checksum and any 64-bit sizes, then up to 14 bytes; any 1, 8, 29, 31 or 33 bytes; a stream that stops at any byte of its second packet.",
        "outside": "Damage that makes up a packet signature.",
        "harnesses": [h("h_stream_damage_block", weight=3), h("h_stream_damage_payload", weight=3), h("h_stream_damage_mixed", weight=3),
                      h("h_stream_forged", shards={0: 2, 1: 4, 2: 3}), h("h_stream_any", shards={0: 5, 1: 3}), h("h_stream_stops"),
                      h("h_stream_damage_two"), h("h_litter_damaged"), h("h_stream_torn", weight=3)],
    },
    "C13": {
        "bounds": "All eight subsets of the three filtering rules x all eight combinations of verdicts x static or dynamic rules x four shapes of packet with symbolic content x one or two chunks; removal of each kind of rule; all sequences of three verdicts of each rule over three packets; rules added, removed and added again between packets.",
        "outside": "Longer histories.",
        "harnesses": [h("h_rules_stream", (1, 2)), h("h_rules_packet", (1, 2)), h("h_rules_remove"),
                      h("h_rules_seq"), h("h_rules_change")],
    },
    "C14": {
        "bounds": "A valid packet header that announces exactly the body that follows, with every split of it into blocks and payload; five kinds of body up to 40 bytes, symbolic content; five readers.",
        "outside": "Headers that announce another size than there is (C07 decides that every reader ends).",
        "harnesses": [h("h_agree_packet", (1, 2))],
    },
    "C15": {
        "bounds": "Three shapes of packets, every block kind, every payload kind, symbolic content; writers that take 1, 2, 3, 5 or 7 bytes at a time or any first portion, with and without vectored writing; failure or refusal at any call; a first partial write after 0..=3 calls; any two portions followed by everything; payloads of up to 65 537 bytes in portions of 100 to 65 536.",
        "outside": "Other sequences of portions.",
        "harnesses": [h("h_write_parts"), h("h_write_parts_block"), h("h_write_parts_payload"), h("h_write_fails"), h("h_write_once"),
                      h("h_write_two_cuts"), h("h_write_once_parts"), h("h_write_fails_parts"), h("h_long_parts")],
    },
    "C16": {
        "bounds": STORE + "0..=7 packets in every rotation of the five shapes; one access of every kind with every argument up to 5 behind the end, and every pair of accesses (1, 3, 5 packets); sources with short reads; packets of every block and payload kind, and of up to 65 900 bytes; any one read or seek failing during an access. " +
                  "Slots of 500 packets as shipped: storages of 0, 1, 255, 256, 498..500 and 998..1000 packets, 1..=3 inserts by one or several writers, then an access of each kind at 20 indices around the borders of slots and bytes.",
        "outside": "More than three slots.",
        "harnesses": [h("h_store_rt"), h("h_store_ops", weight=3, shards={0: 3}), h("h_store_short"), h("h_store_kinds"),
                      h("h_full_history", build="full", weight=6, shards={0: 10}),
                      h("h_long_store"), h("h_store_read_fails")],
    },
    "C17": {
        "bounds": STORE + "0..=7 packets, written by up to three writers one after another with the file closed and reopened between any two inserts, any initial position of the file, short reads; a file behind a buffer that only a flush or a change of position empties. " +
                  "Slots of 500 packets as shipped: storages of 0, 1, 255, 256, 498..500 and 998..1000 packets, 1..=3 inserts by one or several writers, compared with the layout byte for byte.",
        "outside": "Two writers at the same time.",
        "harnesses": [h("h_store_reopen", weight=5, shards={0: 8}), h("h_store_buffered"), h("h_full_history", build="full", weight=6, shards={0: 10})],
    },
    "C18": {
        "bounds": STORE + "All eight subsets of the three filtering rules over 2 or 5 packets with symbolic content (each packet accepted or refused), whole storage and every range (from, len).",
        "outside": "Rules whose verdict depends on earlier packets.",
        "harnesses": [h("h_store_filtered", (1, 2), weight=4, shards={0: 8})],
    },
    "C19": {
        "bounds": STORE + "A reader over 0..=4 packets, then three rounds of 0..=4, 0..=3 and 0..=2 inserts by a writer on the same file, a reload after each; a reload after any byte of an insert has reached the file. " +
                  "Slots of 500 packets as shipped: storages of 0, 1, 255, 256, 498..500 and 998..1000 packets, 1..=3 inserts by one or several writers, while a reader is open.",
        "outside": "Longer histories.",
        "harnesses": [h("h_store_reload", weight=2), h("h_full_reload", build="full", weight=6, shards={0: 10}),
                      h("h_store_reload_torn", (1, 2)), h("h_store_buffered")],
    },
    "C20": {
        "bounds": STORE + "0..=7 packets; one burst of 1..=4 damaged bytes (any mask) at any position of any slot's metadata.",
        "outside": "Wider or several damages (CRC-32 gives no guarantee).",
        "harnesses": [h("h_store_layout"), h("h_store_kinds"), h("h_store_damage_slot", weight=3, shards={0: 3}),
                      h("h_long_store")],
    },
    "C21": {
        "bounds": STORE + "The medium stops taking bytes after any byte of an insert into a storage of 0..=4 packets; a storage of 1, 3 or 4 packets cut at any byte; a packet of 78 bytes lost before its slot is rewritten, then 0..=4 shorter ones inserted, each by a later writer.",
        "outside": "Writes that reach the medium in another order; a slot's metadata torn in its rewritten bytes is reported as damaged (packets are then found by stream recovery, which is checked).",
        "harnesses": [h("h_store_crash", (1, 2)), h("h_store_trunc"), h("h_store_leftover")],
    },
    "C22": {
        "bounds": STORE + "0..=3 packets, then three inserts of which any one write fails after 0, 1, 30 or all bytes, then one more insert; five inserts of which two writes or one seek fail; a long packet lost by a failing seek, then shorter ones; reopened by a later writer.",
        "outside": "More failures.",
        "harnesses": [h("h_store_fail"),
                      h("h_store_fail_two"), h("h_store_leftover")],
    },
    "C23": {
        "bounds": STORE + "1..=5 packets, the metadata of one slot (all of it, behind the signature, or behind the number of entries) replaced with any bytes.",
        "outside": "Bytes that imitate a packet signature.",
        "harnesses": [h("h_store_recover")],
    },
    "C24": {
        "bounds": "A source of 12 symbolic bytes shown in windows of 1, 3, 5 or 12; every sequence of three operations among read (0, 2, 7 bytes), refill, fill_buf + consume (1, 4 bytes), then reading to the end; the same over 10 bytes while one read or look of the source fails; two packets read through windows of 1, 8, 29, 31 or 64 bytes with refills.",
        "outside": "Longer sequences.",
        "harnesses": [h("h_buffered_reader"),
                      h("h_buffered_flaky"), h("h_buffered_packets")],
    },
    "C25": {
        "bounds": "254, 255, 256 and 257 blocks, with and without payload, symbolic first and last block; five readers.",
        "outside": "Other numbers of blocks.",
        "harnesses": [h("h_limit", (1, 2))],
    },
    "C28": {
        "bounds": STORE + "Any file of 0..=36 bytes, with or without a slot signature; slots with valid checksum of 0, 1 or 3 entries, any 64-bit lengths, followed by nothing, a packet or another such slot; each way to read and an insert.",
        "outside": "Longer files.",
        "harnesses": [h("h_store_any", (1, 2), weight=5, shards={0: 3, 1: 5}), h("h_store_any_bytes", (1, 2), shards={1: 7})],
    },
    "C29": {
        "bounds": STORE + "Four packets over two slots; any change of any one byte of any packet.",
        "outside": "Several damaged bytes.",
        "harnesses": [h("h_store_damage_packet", weight=4, shards={1: 4}), h("h_store_damage_range", shards={1: 4})],
    },
    "C27": {
        "bounds": "Three packets with litter, chunks of 1, 13 or 30 bytes, one failing read (WouldBlock, TimedOut, Interrupted) at any call; two packets and any two failing reads; packets at and over the border of the internal buffer.",
        "outside": "More failing reads.",
        "harnesses": [h("h_stream_flaky"),
                      h("h_stream_flaky2"), h("h_stream_flaky_large")],
    },
}
