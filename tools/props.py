"""What is claimed: one entry per property. properties.jsonl and MANIFEST.json are generated from this (gen_manifest.py)."""

A_STD = "models of std, byteorder, snafu, bitflags and tokio in contracts/prelude.rs (assumed contracts; sampled against the real libraries by kreplay, which runs the compiled crate)"
A_EXTRACT = "kvx's rewriting rules preserve the meaning of the functions (listed with counts in coverage.extraction_rules)"
A_VERUS = "Verus 0.2026.09.13 and Z3 are sound; rustc compiles what Verus reads"
A_SEQ = "tokio's Mutex gives mutual exclusion: tasks interleave only between critical sections (what a section finds is arbitrary, for the owning receive task changed by the steps proved of the calls); each task's logs of socket and channel operations are its own; timeouts and select! branches are nondeterministic choices, a receive that times out has received nothing; deadlines of receives are part of the contracts, that the real timers keep them is sampled by kreplay under a paused clock"
A_SOCK = "UDP socket model: a send either puts exactly the given octets on the wire or fails; a receive either fills a prefix of the buffer with one datagram (the rest of a longer datagram is lost) or fails leaving it unchanged"
BASE = [A_STD, A_EXTRACT, A_VERUS]
NET = BASE + [A_SEQ, A_SOCK]
VT = "contract-based deductive verification (Verus) of the functions extracted from /repo on every run; failing inputs searched on the compiled crate"
NOTE = "Every function the property rests on is verified against its contract for all inputs and iterations; assumes the listed models of std, byteorder, snafu and tokio and the extraction rules. Functions a change puts out of the verifier's reach are reported as bounded (random and exhaustive search on the compiled crate), never as proved."

EX_ADDR = {
    "packets::addresses::IndividualAddress::to_u16": "addr_components_all", "packets::addresses::IndividualAddress::from_u16": "addr_u16_all",
    "packets::addresses::Group3LevelAddress::to_u16": "addr_components_all", "packets::addresses::Group3LevelAddress::from_u16": "addr_u16_all",
    "packets::addresses::Group2LevelAddress::to_u16": "addr_components_all", "packets::addresses::Group1LevelAddress::to_u16": "addr_components_all",
    "packets::addresses::KnxAddress::to_u16": "addr_components_all",
}
# functions with a finite domain that a kreplay family enumerates completely
EXHAUSTIVE = dict(EX_ADDR)
EXHAUSTIVE.update({
    "packets::apdu::APCI::packet": "apci_all", "packets::apdu::APCI::a_group_value_read": "apci_all", "packets::apdu::APCI::a_group_value_write": "apci_all",
    "packets::core::KnxMedium::try_from": "codes_all", "packets::core::DescriptionTypeCode::try_from": "codes_all",
    "packets::emi::CEMIAdditionalInfoType::try_from": "codes_all", "packets::tunneling::KnxIpFeature::try_from": "codes_all",
})
for t in ("PdtKnxByte", "PdtKnxScaledValue", "PdtKnxB1U3", "PdtKnxBit", "PdtKnxWord", "PdtKnxInt"):
    for f in ("general", "get_value", "get_bytes", "is_small", "dimming", "blinds", "switch", "value_2_count"):
        EXHAUSTIVE[f"dp_types::{t}::{f}"] = "dpt_small_all"
EXHAUSTIVE["dp_types::PdtKnxInt::percent_v16"] = "percent_all"


def mech(*a):
    return [dict(name=n, where=w) for n, w in a]


PROPS = {
"C01": dict(
    title="Addresses map losslessly to and from their 16-bit wire form",
    statement="Every individual address (area and line 0-15, device 0-255) and every 1-, 2- and 3-level group address within its component ranges converts to exactly the 16-bit number of the KNX layout (individual 4/4/8 bits, 3-level 5/3/8, 2-level 5/11, 1-level plain 16 bits, most significant component first). Converting any 16-bit number to an individual or 3-level group address and back gives the same number, and converting any in-range address to a number and back gives the same address.",
    over=["inputs"], text="all 2^16 numbers and all component combinations of every address form",
    why="The tests convert a handful of addresses; a shifted or masked-away bit only shows for particular component values.",
    files=["src/packets/addresses.rs"], mechanism=mech(("to_u16 / from_u16 of each address form", "src/packets/addresses.rs")),
    secs=3, exhaustive_families=["addr_u16_all", "addr_components_all"]),
"C02": dict(
    title="Textual addresses are parsed exactly or refused",
    statement="Text is accepted as an individual address exactly when it is three dot-separated decimal numbers in 0-15, 0-15 and 0-255, and as a group address exactly when it is one number up to 65535, two slash-separated numbers up to 31 and 2047, or three up to 31, 7 and 255. The resulting address has exactly the written components in the written order and form, and every other text is an error rather than a wrapped or truncated address.",
    over=["inputs"], text="all strings",
    why="The tests parse a few valid strings; refusal must hold for every malformed or out-of-range text.",
    files=["src/packets/addresses.rs"], mechanism=mech(("TryFrom<&str> of the address types", "src/packets/addresses.rs")),
    secs=5, exhaustive_families=["addr_text_all_3level"],
    assumptions_extra=["str::split, str::contains and integer parsing behave as modelled (fields, parse_nat)"]),
"C03": dict(
    title="No received octets can crash a decoder",
    statement="Every decoder of received data (KNXnet/IP frames, description blocks, cEMI frames, bus telegrams, datapoint values, datagram dispatch) returns a value or an error for every octet sequence of any length; it never panics, overflows, reads out of bounds or fails to terminate. Anything a device or an attacker can send is therefore at worst an error value.",
    over=["inputs"], text="all octet sequences of all lengths and, where the decoder takes a cursor, all cursor positions",
    why="Tests decode a few well-formed frames; a crash needs a particular truncation or length field.",
    files=["src/packets/core.rs", "src/packets/emi.rs", "src/packets/tunneling.rs", "src/dp_types.rs", "src/transport/udp.rs"],
    mechanism=mech(("from_packet / from_cemi / from_bytes", "src/packets/*.rs, src/dp_types.rs"), ("parse_response", "src/transport/udp.rs")),
    secs=10, only_safety=True, kani=["c03_float_from_bytes"]),
"C04": dict(
    title="Connection-management frames are encoded per the KNXnet/IP layout",
    statement="Connect, connection-state and disconnect requests and responses are encoded as exactly the octets of KNXnet/IP Core: header with the right service type and a total length equal to the number of octets produced, channel and status octets, endpoint blocks with host protocol, IP address and port in network order, and connection request/response information. This holds for every channel, status, endpoint and address.",
    over=["inputs"], text="all field values of all connection-management frames",
    why="Tests compare one or two constant frames; wrong octets appear only for particular field values.",
    files=["src/packets/core.rs"], mechanism=mech(("packet() of the connection frames, HPAI, CRI, CRD, header", "src/packets/core.rs")), secs=5),
"C05": dict(
    title="Connection-management frames are accepted exactly when well-formed",
    statement="Received connect, connection-state and disconnect frames are accepted exactly when header, service type, the length field the frame kind prescribes, and the structure lengths of their endpoint and response blocks are right and no mandatory octet is missing (connect responses announcing a known error status are refused). An accepted frame yields exactly the channel, status, endpoint address and port, and individual address that it carries.",
    over=["inputs"], text="all octet sequences at all cursor positions",
    why="Acceptance and refusal have to be decided for every truncation and field value, tests sample a few frames.",
    files=["src/packets/core.rs"], mechanism=mech(("from_packet() of the connection frames, HPAI, CRD", "src/packets/core.rs")), secs=6),
"C06": dict(
    title="Tunnelling requests, acknowledgements and features follow the layout both ways",
    statement="Tunnelling requests, acknowledgements, feature-set and feature-response frames are encoded as exactly the octets of KNXnet/IP Tunnelling, with a total length that covers a cEMI payload of any size that fits a frame. Received tunnelling requests, acknowledgements and feature responses are accepted exactly when header, service type, length fields and feature code are right and all octets are present, and then yield exactly the channel, sequence number, status, feature, value and payload they carry.",
    over=["inputs"], text="all field values, all payload lengths up to 65525 octets, all received octet sequences",
    why="Payload length and field values are unbounded, tests use two constant frames.",
    files=["src/packets/tunneling.rs"], mechanism=mech(("packet()/from_packet() of TunnelingRequest, TunnelingAck, FeatureSet, FeatureResp", "src/packets/tunneling.rs")), secs=6),
"C07": dict(
    title="Discovery frames and description blocks follow the layout both ways",
    statement="Search requests and responses and the six kinds of description block (device information, service families, IP configuration, current IP configuration, KNX addresses, manufacturer data) are encoded as exactly the octets of KNXnet/IP Core, each block with an even length octet that counts the whole block including padding. Received blocks and frames are accepted exactly when type codes, medium and lengths are valid and all announced octets are present, and yield exactly the carried fields, one entry per announced service family or address. Device names of up to 30 Latin-1 characters survive encoding, others are refused.",
    over=["inputs"], text="all field values, all list lengths that fit a block, all received octet sequences",
    why="List lengths, padding and truncation are open-ended, the one search-response test has a single shape.",
    files=["src/packets/core.rs"], mechanism=mech(("SearchRequest, SearchResponse, DIB and its kinds", "src/packets/core.rs")), secs=8,
    assumptions_extra=["the encoding crate maps Latin-1 text to octets one to one", "blocks are at most 255 octets long (126 service families)"]),
"C08": dict(
    title="Group reads and writes put exactly the right telegram on the bus",
    statement="A group read or write for any destination produces the cEMI request with no additional info, standard frame control with the set priority, hop count 6 to a group destination, source 0, the destination's 16-bit number, the right data length, and a group-value read or write whose value rides in the low six bits for small values and follows as octets otherwise. Values too long for a telegram are refused before anything is sent.",
    over=["inputs"], text="all addresses, priorities, values of all lengths, small or not, raw or as datapoint values",
    why="The tests compare a few constant telegrams; length and value bits vary independently.",
    files=["src/packets/apdu.rs", "src/packets/tpdu.rs", "src/packets/emi.rs", "src/transport/udp.rs", "src/transport/udp_monitor.rs"],
    mechanism=mech(("APDU, APCI, TPDU, LDataReqMessage packet()", "src/packets/apdu.rs, tpdu.rs, emi.rs"), ("write_group_address_value", "src/transport/*.rs")), secs=6,
    assumptions_extra=["a 2-octet float's octets are those proved for C13"]),
"C09": dict(
    title="Received bus telegrams are decoded to exactly what they carry",
    statement="A received cEMI frame is split into message code, additional information blocks and service information exactly as its length octets say, and refused when a block is truncated or of unknown type. From the service information an indication yields exactly the carried control flags, source, destination, application service and value (six-bit values from the service octet, longer ones from the octets after it), and a confirmation yields the flags, source, destination and whether the bus confirmed positively; both are refused when octets are missing.",
    over=["inputs"], text="all octet sequences, all numbers and sizes of additional information blocks",
    why="Additional-information chains and value lengths are open-ended, tests decode single examples.",
    files=["src/packets/emi.rs"], mechanism=mech(("CEMI::from_packet", "src/packets/emi.rs"), ("LDataInd/LDataCon::from_cemi", "src/packets/emi.rs")), secs=6),
"C10": dict(
    title="Every datagram is dispatched to the message kind it announces",
    statement="A datagram from the gateway is turned into a tunnelling request, acknowledgement, feature response, connection-state response, disconnect response or disconnect request exactly when its service type announces that kind and it is well-formed for it, with exactly the carried fields. Every other datagram, however short, is an error and never mistaken for another kind.",
    over=["inputs"], text="all octet sequences of all lengths",
    why="Dispatch depends on octet values and length; no test calls it with more than a sample.",
    files=["src/transport/udp.rs"], mechanism=mech(("parse_response", "src/transport/udp.rs")), secs=6),
"C11": dict(
    title="Encoding then decoding gives the same message back",
    statement="For every frame and description block that can be both encoded and decoded, decoding the encoded octets succeeds and gives back the same fields (description blocks up to their zero padding). A written group value, sent and received back as a bus telegram, decodes to the same destination and value.",
    over=["inputs"], text="all representable messages",
    why="Round trips hold per field combination and length, tests try a few.",
    files=["src/packets/core.rs", "src/packets/tunneling.rs", "src/packets/emi.rs", "src/packets/apdu.rs"],
    mechanism=mech(("packet()/from_packet() pairs; lemmas lemma_rt_* over their contracts", "src/packets/*.rs")), secs=8),
"C12": dict(
    title="Fixed-width datapoint values encode and decode exactly",
    statement="Boolean, 4-bit control, 8-bit, 16-bit signed and unsigned and 32-bit unsigned datapoint values are encoded as their big-endian octets (control values as direction bit and three step bits), decoded from octets to the same value, refused when octets are missing, and report truthfully whether they fit the six-bit form. Each constructor keeps the given value and names the right datapoint type.",
    over=["inputs"], text="all values and all octet sequences",
    why="2^32 values and all lengths, tests sample single values.",
    files=["src/dp_types.rs"], mechanism=mech(("Pdt implementations", "src/dp_types.rs")), secs=5, exhaustive_families=["dpt_small_all"]),
"C13": dict(
    title="2-octet floats encode to the nearest value and decode exactly",
    statement="For every number that is not NaN the 2-octet float encoding denotes a value at most half a step (of the smallest exponent that can hold it) away, saturating at the ends of the range, with the sign preserved. Every 2-octet encoding decodes to 0.01 * mantissa * 2^exponent with the mantissa in two's complement, and other lengths are refused.",
    over=["inputs"], text="all 2^32 single-precision numbers, all 2^16 encodings",
    why="Rounding and exponent boundaries are sparse among 2^32 inputs, the tests check six values.",
    files=["src/dp_types.rs"], mechanism=mech(("float encoder and decoder", "src/dp_types.rs")),
    verus=True, kani=["c13_float_decode", "c13_enc_p0", "c13_enc_p1", "c13_enc_p2", "c13_enc_n0", "c13_enc_n1", "c13_enc_n2"], kani_timeout=780, secs=5, deep_secs=60,
    thorough_env={"KREPLAY_STRIDE": "1"}, exhaustive_families=["float_decode_all", "float_encode_stride (thorough: all 2^32)"],
    technique="contract-based verification: postconditions of the float functions discharged by Kani/CBMC bit-precisely over the whole input domain (loops bounded by the format, unwinding assertions on)",
    trusted=["Kani 0.68 / CBMC float model (IEEE 754 binary32/64, round to nearest)"],
    assumptions=["Kani/CBMC's IEEE 754 model matches the target's arithmetic", "tolerance: f32 rounding of value*100 (relative 2^-22)"],
    note="Complete over all f32 inputs and all 2-octet encodings (symbolic, no bound; loops bounded by the 16 exponents with unwinding assertions); trusts Kani/CBMC. The thorough tier additionally runs all 2^32 values on the compiled code."),
"C14": dict(
    title="Percent values scale correctly and saturate",
    statement="A percentage is encoded as the octet nearest to 2.55 times it, values below 0 or above 100 percent saturating at 0 and 255, and every octet reads back as the percentage that encodes to it. The signed hundredth-percent type keeps value times 100, saturating at the 16-bit limits instead of wrapping.",
    over=["inputs"], text="all single-precision numbers, all octets, all 16-bit integers",
    why="Rounding and saturation limits, not covered by any test.",
    files=["src/dp_types.rs"], mechanism=mech(("scaling, get_value, percent_v16", "src/dp_types.rs")),
    kani=["c14_percent_decode", "c14_percent_encode"], secs=4, exhaustive_families=["percent_all"],
    technique="contract-based verification: Kani/CBMC over the whole f32 domain for the float functions, Verus contract for the integer type",
    trusted=["Kani 0.68 / CBMC float model"], note="Complete over all inputs (Kani for the float functions, Verus for the integer one); trusts Kani/CBMC and the extraction.",
    assumptions=["Kani/CBMC's IEEE 754 model matches the target's arithmetic", "tolerance 0.0001 of an octet for f32 rounding"] + BASE),
"C15": dict(
    title="Telegrams carry the connection's channel and consecutive sequence numbers",
    statement="Every request sent through an open tunnel carries the channel the gateway assigned and a sequence number that starts at 0 for a client (1 for a bus monitor, whose enabling request takes 0), grows by one per sent request and wraps from 255 to 0. Channel and number (and for connection-state and disconnect requests channel and endpoint) are those of one and the same connection, even when calls run concurrently and the receive task replaces the connection meanwhile. Without an open connection nothing is sent and an error is returned.",
    over=["inputs", "histories", "schedules"], text="all connection states, channels and sequence numbers, all histories of calls, all interleavings of critical sections",
    why="Wrap-around and failure paths need long histories and closed connections, no test sends twice.",
    files=["src/transport/udp.rs", "src/transport/udp_monitor.rs"], mechanism=mech(("get_next_sequence_nr, tunnel_req, set_feature", "src/transport/*.rs")), net=True, secs=12),
"C16": dict(
    title="The receive loop acknowledges and delivers every telegram in order",
    statement="Of every sequence of datagrams (of up to 512 octets) from the gateway, each tunnelling request is acknowledged once with its own channel and sequence number and its telegram, if well-formed, handed to the user once and in order, as long as the user takes them; a request that repeats the one before (same sequence number) is acknowledged again but not delivered again. Feature responses are acknowledged; nothing else is acknowledged or delivered. A malformed datagram or an error connection state ends the connection, and a disconnect request is answered before hanging up.",
    over=["inputs", "histories"], text="all sequences of datagrams",
    why="The order and content of datagrams are unbounded; tests exchange one connection.",
    files=["src/transport/udp.rs"], mechanism=mech(("handle_recv_from_knx_device", "src/transport/udp.rs")), net=True, secs=12),
"C17": dict(
    title="Reads return only the addressed value; writes succeed only when confirmed",
    statement="A group read sends one read telegram and returns the value of the first indication received since then that is addressed to that group and carries a value, ignoring confirmations, read requests and traffic for other groups. A group write sends one write telegram and succeeds exactly when the next confirmation received since then is positive, ignoring other devices' indications while it waits; a negative confirmation is an error. Both are errors when the connection closes or no answer came within 10 seconds, whatever other traffic arrives; what was queued before the call is no answer to it. Each call sends and waits in one turn: concurrent calls do not take each other's answers.",
    over=["inputs", "histories", "schedules"], text="all sequences of received telegrams, all interleavings of calls",
    why="Interleaved bus traffic is unbounded and no test reads or writes.",
    files=["src/transport/udp.rs"], mechanism=mech(("read_group_address_value, write_group_address_value", "src/transport/udp.rs")), net=True, secs=12),
"C18": dict(
    title="A tunnel is only used after the gateway accepted it",
    statement="Connecting sends a tunnelling connect request for the link layer and is completed only by a well-formed connect response with status 0, whose channel and data endpoint are then used; every other answer (incomplete ones included), 30 seconds of silence or an error leaves the connection closed and leads to another attempt 10 seconds later.",
    over=["inputs", "fault_sequences"], text="all answers of the gateway, all sequences of failed attempts",
    why="Error statuses and malformed answers are not in the tests.",
    files=["src/transport/udp.rs"], mechanism=mech(("try_connection, connect", "src/transport/udp.rs")), net=True, secs=12),
"C19": dict(
    title="The bus monitor reports every indication and sends what it is asked",
    statement="Waiting for the next bus message keeps no other call from being served and returns the first received indication (or bus monitor indication) with exactly its fields, skipping confirmations and other messages without losing any indication, and is an error once the transport is closed or an indication is malformed. Asking for a group read or write sends exactly one such telegram, whether connected is reported truthfully, and every registered listener is kept.",
    over=["inputs", "histories"], text="all sequences of received telegrams",
    why="No test uses the monitor.",
    files=["src/transport/udp_monitor.rs"], mechanism=mech(("next_msg, solecitate_group_read, write_group_address_value, is_connected, add_on_connect", "src/transport/udp_monitor.rs")), net=True, secs=12),
"C20": dict(
    title="A connection is kept alive, re-established and closed cleanly",
    statement="While connected, the client and the bus monitor send connection-state requests for the open connection's channel and endpoint at once and then every 60 seconds, and send nothing else of their own accord but connect requests, answers and (for a monitor) the enabling request. Heart beats missed during an outage are not made up for. After a socket error, malformed datagram or error state they drop the connection and establish a new one; after a disconnect request or response they are closed for good: no connection is reported, nothing more is sent and pending and later calls return errors. Disconnecting returns when the gateway answered (a monitor returns the answered status), asking for the connection status returns the next status the gateway reports, both return an error when no answer comes for 10 seconds, whatever other traffic arrives and whoever waits for it meanwhile. Every monitor listener is told about every connection, and a slow listener keeps no call from returning.",
    over=["inputs", "histories", "schedules"], text="all sequences of datagrams, heart beats, reconnections and calls",
    why="Lifecycles span minutes and many reconnections, tests open one connection.",
    files=["src/transport/udp.rs", "src/transport/udp_monitor.rs"],
    mechanism=mech(("the receive tasks spawned by UdpTransport::connect and UdpMonitorTransport::connect", "src/transport/*.rs"), ("disconnect, get_connectionstate, add_on_connect", "src/transport/*.rs")), net=True, secs=14,
    assumptions_extra=["the heart beat timer is proved to be set to 60 seconds; that the timer keeps its period, and that listeners are told, is searched on the compiled crate"]),
"C21": dict(
    title="Device discovery reports every answer, once and exactly",
    statement="A search sends exactly one search request, to 224.0.23.12 port 3671, naming the searching socket's own endpoint, and keeps listening until no response came for the given time. It then returns one entry per search response received (of up to 126 service families), in the order of arrival and with exactly the fields that response carries, dropping, merging and inventing none; it is an error only when the socket fails or a datagram is not a well-formed search response.",
    over=["inputs", "histories"], text="all durations, all sequences of datagrams",
    why="How many devices answer, with which sizes and when, is unbounded; no test searches.",
    files=["src/transport/udp.rs"], mechanism=mech(("UdpTransport::search, UdpClient::search", "src/transport/udp.rs"), ("SearchRequest, SearchResponse", "src/packets/core.rs")), net=True, secs=10),
}
for _k, _p in PROPS.items():
    _p.setdefault("technique", VT)
    _p.setdefault("level", "proof")
    _p.setdefault("note", NOTE)
    _p.setdefault("assumptions", (NET if _p.get("net") else BASE) + _p.get("assumptions_extra", []))
    _p.setdefault("exhaustive", EXHAUSTIVE)
NOT_APPLICABLE = {}
