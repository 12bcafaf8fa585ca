=== items vspec
// ================================================================ shared vocabulary
pub open spec fn at2(d: Seq<u8>, p: int) -> u16 { w16(d[p], d[p + 1]) }
/// KNXnet/IP header at p: header length 6, version 1.0, service type `code`
pub open spec fn hdr(d: Seq<u8>, p: int, code: u16) -> bool {
    p + 6 <= d.len() && d[p] == 6 && d[p + 1] == 0x10 && at2(d, p + 2) == code
}
pub open spec fn hdr_bytes(code: u16, len: int) -> Seq<u8> { seq![6u8, 0x10u8] + be16(code) + be16(len as u16) }

pub broadcast proof fn lem_take_drop_last<A>(s: Seq<A>, n: int)
    requires 0 < n <= s.len()
    ensures #[trigger] s.take(n).drop_last() == s.take(n - 1)
{ assert(s.take(n).drop_last() =~= s.take(n - 1)); }
pub broadcast proof fn lem_take_all<A>(s: Seq<A>, n: int)
    requires n == s.len()
    ensures #[trigger] s.take(n) == s
{ assert(s.take(n) =~= s); }
pub broadcast proof fn lem_w16(v: u16)
    ensures w16(#[trigger] hi8(v), lo8(v)) == v
{ }
pub broadcast proof fn lem_hi_lo(a: u8, b: u8)
    ensures hi8(#[trigger] w16(a, b)) == a, lo8(w16(a, b)) == b
{ }
/// the low six bits of a big-endian word are those of its second octet
pub broadcast proof fn lem_w16_low6(h: u8, l: u8)
    ensures ((#[trigger] w16(h, l)) & 0x3fu16) == (l & 0x3fu8) as u16, (l & 0x3fu8) < 64, (w16(h, l) & 0xffu16) == l as u16
{
    let (x, y) = (h as u16, l as u16);
    assert(w16(h, l) == add(mul(x, 256), y));
    assert(x <= 255 && y <= 255 ==> (add(mul(x, 256), y) & 0x3fu16) == (y & 0x3fu16)) by (bit_vector);
    assert(x <= 255 && y <= 255 ==> (add(mul(x, 256), y) & 0xffu16) == y) by (bit_vector);
    assert((l & 0x3fu8) as u16 == (l as u16) & 0x3fu16) by (bit_vector);
    assert((l & 0x3fu8) < 64) by (bit_vector);
}
pub broadcast proof fn lem_fam_len(s: Seq<ServiceFamily>)
    ensures (#[trigger] fam_bytes(s)).len() == 2 * s.len()
    decreases s.len()
{ if s.len() > 0 { lem_fam_len(s.drop_last()); } }
pub broadcast proof fn lem_ias_len(s: Seq<IndividualAddress>)
    ensures (#[trigger] ias_bytes(s)).len() == 2 * s.len()
    decreases s.len()
{ if s.len() > 0 { lem_ias_len(s.drop_last()); } }
pub broadcast group group_spec { lem_take_drop_last, lem_conn_req_const, lem_take_all, lem_w16, lem_hi_lo, lem_w16_low6, lem_fam_len, lem_ias_len, lem_ai_view_push, lem_skip_push, lem_push_drop_last, lem_cviews_push, lem_svs_push, lem_task_conn, lem_task_replies, lem_task_beat, lem_task_enable, lem_push_take, lem_take_push, lem_short_push, lem_small_push, lemma_taken_push, lemma_taken_idle }

// ================================================================ addresses
pub open spec fn ia_wf(a: IndividualAddress) -> bool { a.area <= 15 && a.line <= 15 }
pub open spec fn ia_u16(a: IndividualAddress) -> u16 { ((a.area as u16) << 12u16) | ((a.line as u16) << 8u16) | (a.address as u16) }
pub open spec fn ia_of(v: u16) -> IndividualAddress {
    IndividualAddress { area: (v / 4096) as u8, line: ((v / 256) % 16) as u8, address: (v % 256) as u8 }
}
pub open spec fn g3_wf(a: Group3LevelAddress) -> bool { a.main <= 31 && a.middle <= 7 }
pub open spec fn g3_u16(a: Group3LevelAddress) -> u16 { ((a.main as u16) << 11u16) | ((a.middle as u16) << 8u16) | (a.sub as u16) }
pub open spec fn g3_of(v: u16) -> Group3LevelAddress {
    Group3LevelAddress { main: (v / 2048) as u8, middle: ((v / 256) % 8) as u8, sub: (v % 256) as u8 }
}
pub open spec fn g2_wf(a: Group2LevelAddress) -> bool { a.main <= 31 && a.sub <= 2047 }
pub open spec fn g2_u16(a: Group2LevelAddress) -> u16 { ((a.main as u16) << 11u16) | a.sub }
pub open spec fn knx_u16(a: KnxAddress) -> u16 {
    match a {
        KnxAddress::Individual(a) => ia_u16(a),
        KnxAddress::Group3Level(a) => g3_u16(a),
        KnxAddress::Group2Level(a) => g2_u16(a),
        KnxAddress::Group1Level(a) => a.main,
    }
}
/// area/line/address are 4/4/8 bits, most significant first
pub proof fn lemma_ia_value(a: IndividualAddress)
    requires ia_wf(a)
    ensures ia_u16(a) as int == a.area * 4096 + a.line * 256 + a.address
{
    let (x, y, z) = (a.area as u16, a.line as u16, a.address as u16);
    assert(x <= 15 && y <= 15 && z <= 255 ==> ((x << 12u16) | (y << 8u16) | z) == x * 4096 + y * 256 + z) by (bit_vector);
}
pub proof fn lemma_g3_value(a: Group3LevelAddress)
    requires g3_wf(a)
    ensures g3_u16(a) as int == a.main * 2048 + a.middle * 256 + a.sub
{
    let (x, y, z) = (a.main as u16, a.middle as u16, a.sub as u16);
    assert(x <= 31 && y <= 7 && z <= 255 ==> ((x << 11u16) | (y << 8u16) | z) == x * 2048 + y * 256 + z) by (bit_vector);
}
pub proof fn lemma_g2_value(a: Group2LevelAddress)
    requires g2_wf(a)
    ensures g2_u16(a) as int == a.main * 2048 + a.sub
{
    let (x, z) = (a.main as u16, a.sub);
    assert(x <= 31 && z <= 2047 ==> ((x << 11u16) | z) == x * 2048 + z) by (bit_vector);
}
/// lossless in both directions
pub proof fn lemma_ia_lossless(v: u16, a: IndividualAddress)
    ensures ia_u16(ia_of(v)) == v, ia_wf(ia_of(v)), ia_wf(a) ==> ia_of(ia_u16(a)) == a,
{
    assert(v / 4096 <= 15 && (v / 256) % 16 <= 15 && v % 256 <= 255 && ((((v / 4096) as u8) as u16) << 12u16) | (((((v / 256) % 16) as u8) as u16) << 8u16) | (((v % 256) as u8) as u16) == v) by (bit_vector);
    let (x, y, z) = (a.area, a.line, a.address);
    assert(x <= 15 && y <= 15 ==> ({ let w = ((x as u16) << 12u16) | ((y as u16) << 8u16) | (z as u16);
        (w / 4096) as u8 == x && ((w / 256) % 16) as u8 == y && (w % 256) as u8 == z })) by (bit_vector);
}
pub proof fn lemma_g3_lossless(v: u16, g: Group3LevelAddress)
    ensures g3_u16(g3_of(v)) == v, g3_wf(g3_of(v)), g3_wf(g) ==> g3_of(g3_u16(g)) == g,
{
    assert(v / 2048 <= 31 && (v / 256) % 8 <= 7 && v % 256 <= 255 && ((((v / 2048) as u8) as u16) << 11u16) | (((((v / 256) % 8) as u8) as u16) << 8u16) | (((v % 256) as u8) as u16) == v) by (bit_vector);
    let (x, y, z) = (g.main, g.middle, g.sub);
    assert(x <= 31 && y <= 7 ==> ({ let w = ((x as u16) << 11u16) | ((y as u16) << 8u16) | (z as u16);
        (w / 2048) as u8 == x && ((w / 256) % 8) as u8 == y && (w % 256) as u8 == z })) by (bit_vector);
}
// ---- textual form
pub open spec fn ia_text_ok(s: Seq<char>) -> bool {
    let f = fields(s, '.');
    f.len() == 3 && fits(f[0], 15) && fits(f[1], 15) && fits(f[2], 255)
}
pub open spec fn ia_text(s: Seq<char>) -> IndividualAddress {
    let f = fields(s, '.');
    IndividualAddress { area: parse_nat(f[0])->0 as u8, line: parse_nat(f[1])->0 as u8, address: parse_nat(f[2])->0 as u8 }
}
pub open spec fn g3_text_ok(s: Seq<char>) -> bool {
    let f = fields(s, '/');
    f.len() == 3 && fits(f[0], 31) && fits(f[1], 7) && fits(f[2], 255)
}
pub open spec fn g3_text(s: Seq<char>) -> Group3LevelAddress {
    let f = fields(s, '/');
    Group3LevelAddress { main: parse_nat(f[0])->0 as u8, middle: parse_nat(f[1])->0 as u8, sub: parse_nat(f[2])->0 as u8 }
}
pub open spec fn knx_text(s: Seq<char>) -> Option<KnxAddress> {
    let f = fields(s, '/');
    if s.contains('.') {
        if ia_text_ok(s) { Some(KnxAddress::Individual(ia_text(s))) } else { None }
    } else if f.len() == 1 && fits(f[0], 65535) {
        Some(KnxAddress::Group1Level(Group1LevelAddress { main: parse_nat(f[0])->0 as u16 }))
    } else if f.len() == 2 && fits(f[0], 31) && fits(f[1], 2047) {
        Some(KnxAddress::Group2Level(Group2LevelAddress { main: parse_nat(f[0])->0 as u8, sub: parse_nat(f[1])->0 as u16 }))
    } else if g3_text_ok(s) {
        Some(KnxAddress::Group3Level(g3_text(s)))
    } else { None }
}

// ================================================================ HPAI, CRI, CRD
pub open spec fn hpai_bytes(h: HPAI) -> Seq<u8> { seq![8u8, h.host_protocol_code] + h.address.ip.o@ + be16(h.address.port) }
pub open spec fn hpai_ok(d: Seq<u8>, p: int) -> bool { p + 8 <= d.len() && d[p] == 8 }
pub open spec fn hpai_at(h: HPAI, d: Seq<u8>, p: int) -> bool {
    h.host_protocol_code == d[p + 1] && h.address.ip.o@ =~= d.subrange(p + 2, p + 6) && h.address.port == at2(d, p + 6)
}
pub open spec fn hpai_udp(h: HPAI) -> bool { h.host_protocol_code == 1 && h.address.ip.o@ =~= seq![0u8, 0, 0, 0] && h.address.port == 0 }
pub open spec fn cri_bytes(c: CRI) -> Seq<u8> { seq![4u8, 4u8, c.connection_type, 0u8] }
pub open spec fn crd_bytes(c: CRD) -> Seq<u8> { seq![4u8, 4u8] + be16(ia_u16(c.knx_individual_address)) }
pub open spec fn crd_ok(d: Seq<u8>, p: int) -> bool { p + 4 <= d.len() && d[p] == 4 && d[p + 1] == 4 }
pub open spec fn crd_at(c: CRD, d: Seq<u8>, p: int) -> bool { c.knx_individual_address == ia_of(at2(d, p + 2)) }

// ================================================================ connection management frames
pub open spec fn conn_req_bytes(c: ConnectionRequest) -> Seq<u8> {
    hdr_bytes(0x0205, 26) + hpai_bytes(c.control_endpoint) + hpai_bytes(c.data_endpoint) + cri_bytes(c.cri)
}
/// a connection request asking for layer `t`, both endpoints left to the network address translation (0.0.0.0:0)
pub open spec fn conn_req_const(t: u8) -> Seq<u8> {
    seq![6u8, 0x10, 2, 5, 0, 26, 8, 1, 0, 0, 0, 0, 0, 0, 8, 1, 0, 0, 0, 0, 0, 0, 4, 4, t, 0]
}
pub broadcast proof fn lem_conn_req_const(c: ConnectionRequest)
    requires hpai_udp(c.control_endpoint), hpai_udp(c.data_endpoint)
    ensures #[trigger] conn_req_bytes(c) == conn_req_const(c.cri.connection_type)
{ assert(conn_req_bytes(c) =~= conn_req_const(c.cri.connection_type)); }
pub open spec fn conn_resp_bytes(c: ConnectionResponse) -> Seq<u8> {
    hdr_bytes(0x0206, 20) + seq![c.communication_channel_id, c.status] + hpai_bytes(c.data_endpoint) + crd_bytes(c.crd)
}
pub open spec fn conn_resp_ok(d: Seq<u8>, p: int) -> bool {
    hdr(d, p, 0x0206) && at2(d, p + 4) >= 8 && p + 8 <= d.len()
    && d[p + 7] != 0x22 && d[p + 7] != 0x23 && d[p + 7] != 0x24 && d[p + 7] != 0x29
    && hpai_ok(d, p + 8) && crd_ok(d, p + 16)
}
pub open spec fn conn_resp_at(c: ConnectionResponse, d: Seq<u8>, p: int) -> bool {
    c.communication_channel_id == d[p + 6] && c.status == d[p + 7] && hpai_at(c.data_endpoint, d, p + 8) && crd_at(c.crd, d, p + 16)
}
pub open spec fn chan_hpai_bytes(code: u16, ch: u8, h: HPAI) -> Seq<u8> { hdr_bytes(code, 16) + seq![ch, 0u8] + hpai_bytes(h) }
pub open spec fn chan_hpai_ok(code: u16, d: Seq<u8>, p: int) -> bool { hdr(d, p, code) && p + 8 <= d.len() && hpai_ok(d, p + 8) }
pub open spec fn chan_status_bytes(code: u16, ch: u8, status: u8) -> Seq<u8> { hdr_bytes(code, 8) + seq![ch, status] }
pub open spec fn chan_status_ok(code: u16, d: Seq<u8>, p: int) -> bool { hdr(d, p, code) && at2(d, p + 4) == 8 && p + 8 <= d.len() }

// ================================================================ tunnelling
pub open spec fn treq_raw(ch: u8, nr: u8, cemi: Seq<u8>) -> Seq<u8> {
    hdr_bytes(0x0420, 10 + cemi.len() as int) + seq![4u8, ch, nr, 0u8] + cemi
}
pub open spec fn treq_bytes(t: TunnelingRequest) -> Seq<u8> { treq_raw(t.communication_channel_id, t.sequence_nr, t.cemi@) }
pub open spec fn treq_ok(d: Seq<u8>, p: int) -> bool {
    hdr(d, p, 0x0420) && at2(d, p + 4) >= 10 && p + at2(d, p + 4) <= d.len() && d[p + 6] == 4
}
pub open spec fn treq_at(t: TunnelingRequest, d: Seq<u8>, p: int) -> bool {
    t.communication_channel_id == d[p + 7] && t.sequence_nr == d[p + 8] && t.cemi@ =~= d.subrange(p + 10, p + at2(d, p + 4))
}
pub open spec fn tack_raw(ch: u8, nr: u8, status: u8) -> Seq<u8> { hdr_bytes(0x0421, 10) + seq![4u8, ch, nr, status] }
pub open spec fn tack_bytes(t: TunnelingAck) -> Seq<u8> { tack_raw(t.communication_channel_id, t.sequence_nr, t.status) }
pub open spec fn tack_ok(d: Seq<u8>, p: int) -> bool { hdr(d, p, 0x0421) && at2(d, p + 4) == 10 && p + 10 <= d.len() && d[p + 6] == 4 }
pub open spec fn tack_at(t: TunnelingAck, d: Seq<u8>, p: int) -> bool {
    t.communication_channel_id == d[p + 7] && t.sequence_nr == d[p + 8] && t.status == d[p + 9]
}
pub open spec fn feature_code(f: KnxIpFeature) -> u8 {
    match f { KnxIpFeature::MaskVersion => 2, KnxIpFeature::IndividualAddress => 6, KnxIpFeature::MaxApduLength => 7, KnxIpFeature::InfoServiceEnable => 8 }
}
pub open spec fn feature_ok(v: u8) -> bool { v == 2 || v == 6 || v == 7 || v == 8 }
pub open spec fn feature_of(v: u8) -> KnxIpFeature {
    if v == 2 { KnxIpFeature::MaskVersion } else if v == 6 { KnxIpFeature::IndividualAddress } else if v == 7 { KnxIpFeature::MaxApduLength } else { KnxIpFeature::InfoServiceEnable }
}
pub open spec fn fset_raw(ch: u8, nr: u8, feature: u8, value: u8) -> Seq<u8> { hdr_bytes(0x0424, 13) + seq![4u8, ch, nr, 0u8, feature, 0u8, value] }
pub open spec fn fset_bytes(f: FeatureSet) -> Seq<u8> { fset_raw(f.communication_channel_id, f.sequence_nr, feature_code(f.feature), f.value) }
pub open spec fn fresp_bytes(f: FeatureResp) -> Seq<u8> {
    hdr_bytes(0x0423, 13) + seq![4u8, f.communication_channel_id, f.sequence_nr, 0u8, feature_code(f.feature), f.status, f.value]
}
pub open spec fn fresp_ok(d: Seq<u8>, p: int) -> bool {
    hdr(d, p, 0x0423) && at2(d, p + 4) == 13 && p + 13 <= d.len() && d[p + 6] == 4 && feature_ok(d[p + 10])
}
pub open spec fn fresp_at(f: FeatureResp, d: Seq<u8>, p: int) -> bool {
    f.communication_channel_id == d[p + 7] && f.sequence_nr == d[p + 8] && f.feature == feature_of(d[p + 10]) && f.status == d[p + 11] && f.value == d[p + 12]
}

// ================================================================ APDU / TPDU / L_Data.req
pub open spec fn apci_bytes(a: APCI) -> Seq<u8> {
    seq![(a.code & 0x0cu8) >> 2u8, ((a.code & 0x03u8) << 6u8) | (if a.extended_code is Some { a.extended_code->0 & 0x3fu8 } else { 0u8 })]
}
pub open spec fn apdu_bytes(a: APDU) -> Seq<u8> {
    match a.data {
        APDUData::Small(v) => seq![apci_bytes(a.apci)[0], apci_bytes(a.apci)[1] | (v & 0x3fu8)],
        APDUData::Big(v) => apci_bytes(a.apci) + v@,
    }
}
pub open spec fn first_or_0(s: Seq<u8>) -> u8 { if s.len() > 0 { s[0] } else { 0 } }
/// A_GroupValue_Write: values of up to 6 bits ride in the APCI octet, others follow it
pub open spec fn group_write_apdu(value: Seq<u8>, small: bool) -> Seq<u8> {
    if small { seq![0u8, 0x80u8 | (first_or_0(value) & 0x3fu8)] } else { seq![0u8, 0x80u8] + value }
}
/// L_Data.req: no additional info, standard frame, not repeated, broadcast, priority, hop count 6 to a group address,
/// source 0, destination, length of the data after the first APDU octet, APDU
pub open spec fn ldata_req(priority: u8, dest: u16, apdu: Seq<u8>) -> Seq<u8> {
    seq![0x11u8, 0u8, 0xb0u8 | ((priority & 3u8) << 2u8), 0xe0u8, 0u8, 0u8] + be16(dest) + seq![(apdu.len() - 1) as u8] + apdu
}
/// connectionless data to a group: the TPCI bits are all zero
pub open spec fn group_data(t: TPDU) -> bool { t.address_type is Group && t.kind is Data && !t.numbered && t.sequence_number == 0 }
pub open spec fn ldata_req_bytes(m: LDataReqMessage) -> Seq<u8> { ldata_req(m.priority, knx_u16(m.dest_address), apdu_bytes(m.tpdu.apdu)) }

// ================================================================ incoming cEMI
pub open spec fn ai_type_ok(t: u8) -> bool { (1 <= t && t <= 10) || t == 0xfe }
pub open spec fn ai_code(t: CEMIAdditionalInfoType) -> u8 {
    match t {
        CEMIAdditionalInfoType::PLMediumInfo => 1, CEMIAdditionalInfoType::RFMediumInfo => 2,
        CEMIAdditionalInfoType::BusmonitorStatusInfo => 3, CEMIAdditionalInfoType::TimestampRelative => 4,
        CEMIAdditionalInfoType::TimeDelayUnitlSending => 5, CEMIAdditionalInfoType::ExtendedRelativeTime => 6,
        CEMIAdditionalInfoType::BiBatInfo => 7, CEMIAdditionalInfoType::RFMultiInfo => 8,
        CEMIAdditionalInfoType::PreambleAndPostamble => 9, CEMIAdditionalInfoType::RFFastAckInfo => 10,
        CEMIAdditionalInfoType::ManufacturerSpecificData => 0xfe,
    }
}
pub open spec fn ai_of(t: u8) -> CEMIAdditionalInfoType {
    if t == 1 { CEMIAdditionalInfoType::PLMediumInfo } else if t == 2 { CEMIAdditionalInfoType::RFMediumInfo }
    else if t == 3 { CEMIAdditionalInfoType::BusmonitorStatusInfo } else if t == 4 { CEMIAdditionalInfoType::TimestampRelative }
    else if t == 5 { CEMIAdditionalInfoType::TimeDelayUnitlSending } else if t == 6 { CEMIAdditionalInfoType::ExtendedRelativeTime }
    else if t == 7 { CEMIAdditionalInfoType::BiBatInfo } else if t == 8 { CEMIAdditionalInfoType::RFMultiInfo }
    else if t == 9 { CEMIAdditionalInfoType::PreambleAndPostamble } else if t == 10 { CEMIAdditionalInfoType::RFFastAckInfo }
    else { CEMIAdditionalInfoType::ManufacturerSpecificData }
}
pub open spec fn pos(v: int) -> int { if v > 0 { v } else { 0 } }
/// the additional information area: type, length, value blocks until `left` octets are used up
pub open spec fn ai_ok(d: Seq<u8>, p: int, left: int) -> bool decreases pos(left) {
    if left <= 0 { true }
    else { p + 2 <= d.len() && ai_type_ok(d[p]) && p + 2 + d[p + 1] <= d.len() && ai_ok(d, p + 2 + d[p + 1], left - 2 - d[p + 1]) }
}
pub open spec fn ai_end(d: Seq<u8>, p: int, left: int) -> int decreases pos(left) {
    if left <= 0 { p } else { ai_end(d, p + 2 + d[p + 1], left - 2 - d[p + 1]) }
}
pub open spec fn ai_list(d: Seq<u8>, p: int, left: int) -> Seq<(u8, Seq<u8>)> decreases pos(left) {
    if left <= 0 { Seq::empty() }
    else { seq![(d[p], d.subrange(p + 2, p + 2 + d[p + 1]))] + ai_list(d, p + 2 + d[p + 1], left - 2 - d[p + 1]) }
}
pub open spec fn ai_view(v: Seq<CEMIAdditionalInfo>) -> Seq<(u8, Seq<u8>)> {
    Seq::new(v.len(), |i: int| (ai_code(v[i].info_type), v[i].value@))
}
pub broadcast proof fn lem_ai_view_push(v: Seq<CEMIAdditionalInfo>, x: CEMIAdditionalInfo)
    ensures #[trigger] ai_view(v.push(x)) == ai_view(v).push((ai_code(x.info_type), x.value@))
{ assert(ai_view(v.push(x)) =~= ai_view(v).push((ai_code(x.info_type), x.value@))); }
pub open spec fn cemi_ok(d: Seq<u8>, p: int) -> bool { p + 2 <= d.len() && ai_ok(d, p + 2, d[p + 1] as int) }
pub open spec fn cemi_at(c: CEMI, d: Seq<u8>, p: int) -> bool {
    c.msg_code == d[p] && ai_view(c.additional_infos@) =~= ai_list(d, p + 2, d[p + 1] as int)
    && c.service_info@ =~= d.subrange(ai_end(d, p + 2, d[p + 1] as int), d.len() as int)
}
pub proof fn lemma_ai_end_bound(d: Seq<u8>, p: int, left: int)
    requires ai_ok(d, p, left), 0 <= p <= d.len()
    ensures p <= ai_end(d, p, left) <= d.len()
    decreases pos(left)
{
    if left > 0 { lemma_ai_end_bound(d, p + 2 + d[p + 1], left - 2 - d[p + 1]); }
}
pub open spec fn ldata_at(l: LData, s: Seq<u8>) -> bool {
    l.frame_type == ((s[0] & 0x80u8) > 0) && l.repetition == ((s[0] & 0x20u8) > 0) && l.system_broadcast == ((s[0] & 0x10u8) > 0)
    && l.ack_request == ((s[0] & 0x02u8) > 0) && l.src == at2(s, 2) && l.dest == at2(s, 4)
}
pub open spec fn lcon_ok(s: Seq<u8>) -> bool { s.len() >= 6 }
pub open spec fn lcon_confirm(s: Seq<u8>) -> bool { (s[0] & 0x01u8) == 0 }
/// number of value octets following the two TPCI/APCI octets
pub open spec fn lind_extra(s: Seq<u8>) -> int { if s[6] > 0 { s[6] - 1 } else { 0 } }
pub open spec fn lind_ok(s: Seq<u8>) -> bool { s.len() >= 9 && s.len() >= 9 + lind_extra(s) }
pub open spec fn lind_apci(s: Seq<u8>) -> u16 { (at2(s, 7) & 0x03c0u16) >> 6u16 }
pub open spec fn lind_value(s: Seq<u8>) -> Seq<u8> {
    if lind_extra(s) > 0 { s.subrange(9, 9 + lind_extra(s)) } else { seq![s[8] & 0x3fu8] }
}

// ================================================================ discovery
pub open spec fn search_req_bytes(r: SearchRequest) -> Seq<u8> { hdr_bytes(0x0201, 14) + hpai_bytes(r.discovery_endpoint) }
pub open spec fn medium_code(m: KnxMedium) -> u8 { match m { KnxMedium::TP1 => 2, KnxMedium::PL110 => 3, KnxMedium::RF => 0x10, KnxMedium::IP => 0x20 } }
pub open spec fn medium_ok(v: u8) -> bool { v == 2 || v == 3 || v == 0x10 || v == 0x20 }
pub open spec fn medium_of(v: u8) -> KnxMedium { if v == 2 { KnxMedium::TP1 } else if v == 3 { KnxMedium::PL110 } else if v == 0x10 { KnxMedium::RF } else { KnxMedium::IP } }
pub open spec fn dtc_ok(v: u8) -> bool { (1 <= v && v <= 5) || v == 0xfe }
pub open spec fn dtc_of(v: u8) -> DescriptionTypeCode {
    if v == 1 { DescriptionTypeCode::DeviceInfo } else if v == 2 { DescriptionTypeCode::SupportedServiceFamilies } else if v == 3 { DescriptionTypeCode::IpConfig }
    else if v == 4 { DescriptionTypeCode::IpCurrentConfig } else if v == 5 { DescriptionTypeCode::KNXAddresses } else { DescriptionTypeCode::ManufacturerData }
}
pub open spec fn dev_bytes(x: DeviceInformationDIB) -> Seq<u8> {
    seq![medium_code(x.knx_medium), x.knx_device_status.bits] + be16(ia_u16(x.knx_individual_address)) + be16(x.project_installation_identifier)
    + x.serial_number@ + x.routing_multicast_address.o@ + x.mac_address@ + x.friendly_name@
}
pub open spec fn dev_ok(d: Seq<u8>, p: int) -> bool { p + 52 <= d.len() && medium_ok(d[p]) }
pub open spec fn dev_at(x: DeviceInformationDIB, d: Seq<u8>, p: int, len: u8) -> bool {
    x.structure_length == len && x.description_type_code == DescriptionTypeCode::DeviceInfo
    && x.knx_medium == medium_of(d[p]) && x.knx_device_status.bits == (d[p + 1] & 1u8) && x.knx_individual_address == ia_of(at2(d, p + 2))
    && x.project_installation_identifier == at2(d, p + 4) && x.serial_number@ =~= d.subrange(p + 6, p + 12)
    && x.routing_multicast_address.o@ =~= d.subrange(p + 12, p + 16) && x.mac_address@ =~= d.subrange(p + 16, p + 22)
    && x.friendly_name@ =~= d.subrange(p + 22, p + 52)
}
pub open spec fn fam_bytes(s: Seq<ServiceFamily>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { fam_bytes(s.drop_last()) + seq![s.last().service_family, s.last().version] }
}
pub open spec fn pairs(len: u8, fixed: int) -> int { (len - fixed) / 2 }
pub open spec fn fam_ok(d: Seq<u8>, p: int, len: u8) -> bool { len >= 2 && (pairs(len, 2) > 0 ==> p + 2 * pairs(len, 2) <= d.len()) }
pub open spec fn fam_at(x: SupportedServiceFamiliesDIB, d: Seq<u8>, p: int, len: u8) -> bool {
    x.structure_length == len && x.description_type_code == DescriptionTypeCode::SupportedServiceFamilies
    && x.service_families@.len() == pairs(len, 2)
    && forall|i: int| 0 <= i < pairs(len, 2) ==> fam_elem(#[trigger] x.service_families@[i], d, p + 2 * i)
}
pub open spec fn fam_elem(x: ServiceFamily, d: Seq<u8>, q: int) -> bool { x.service_family == d[q] && x.version == d[q + 1] }
pub open spec fn ipc_bytes(x: IpConfigDIB) -> Seq<u8> {
    x.ip_address.o@ + x.subnet_mask.o@ + x.default_gateway.o@ + seq![x.ip_capabilities, x.ip_assignment_method]
}
pub open spec fn ipc_ok(d: Seq<u8>, p: int) -> bool { p + 14 <= d.len() }
pub open spec fn ipc_at(x: IpConfigDIB, d: Seq<u8>, p: int, len: u8) -> bool {
    x.structure_length == len && x.description_type_code == DescriptionTypeCode::IpConfig
    && x.ip_address.o@ =~= d.subrange(p, p + 4) && x.subnet_mask.o@ =~= d.subrange(p + 4, p + 8) && x.default_gateway.o@ =~= d.subrange(p + 8, p + 12)
    && x.ip_capabilities == d[p + 12] && x.ip_assignment_method == d[p + 13]
}
pub open spec fn ipcc_bytes(x: IpCurrentConfigDIB) -> Seq<u8> {
    x.current_ip_address.o@ + x.current_subnet_mask.o@ + x.current_default_gateway.o@ + x.dhcp_server.o@ + seq![x.current_ip_assignment_method, x.reserved]
}
pub open spec fn ipcc_ok(d: Seq<u8>, p: int) -> bool { p + 18 <= d.len() }
pub open spec fn ipcc_at(x: IpCurrentConfigDIB, d: Seq<u8>, p: int, len: u8) -> bool {
    x.structure_length == len && x.description_type_code == DescriptionTypeCode::IpCurrentConfig
    && x.current_ip_address.o@ =~= d.subrange(p, p + 4) && x.current_subnet_mask.o@ =~= d.subrange(p + 4, p + 8)
    && x.current_default_gateway.o@ =~= d.subrange(p + 8, p + 12) && x.dhcp_server.o@ =~= d.subrange(p + 12, p + 16)
    && x.current_ip_assignment_method == d[p + 16] && x.reserved == d[p + 17]
}
pub open spec fn ias_bytes(s: Seq<IndividualAddress>) -> Seq<u8> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { ias_bytes(s.drop_last()) + be16(ia_u16(s.last())) }
}
pub open spec fn kad_bytes(x: KNXAddressesDIB) -> Seq<u8> { be16(ia_u16(x.knx_individual_address)) + ias_bytes(x.additional_individual_addresses@) }
pub open spec fn kad_ok(d: Seq<u8>, p: int, len: u8) -> bool { len >= 4 && p + 2 + 2 * pairs(len, 4) <= d.len() }
pub open spec fn kad_at(x: KNXAddressesDIB, d: Seq<u8>, p: int, len: u8) -> bool {
    x.structure_length == len && x.description_type_code == DescriptionTypeCode::KNXAddresses
    && x.knx_individual_address == ia_of(at2(d, p)) && x.additional_individual_addresses@.len() == pairs(len, 4)
    && forall|i: int| 0 <= i < pairs(len, 4) ==> (#[trigger] x.additional_individual_addresses@[i]) == ia_of(at2(d, p + 2 + 2 * i))
}
pub open spec fn man_bytes(x: ManufacturerDataDIB) -> Seq<u8> { be16(x.knx_manufacturer_id) + x.manufacturer_specific_data@ }
pub open spec fn man_ok(d: Seq<u8>, p: int, len: u8) -> bool { len >= 4 && p + len - 2 <= d.len() }
pub open spec fn man_at(x: ManufacturerDataDIB, d: Seq<u8>, p: int, len: u8) -> bool {
    x.structure_length == len && x.description_type_code == DescriptionTypeCode::ManufacturerData
    && x.knx_manufacturer_id == at2(d, p) && x.manufacturer_specific_data@ =~= d.subrange(p + 2, p + len - 2)
}
pub open spec fn dib_code(x: DIB) -> u8 {
    match x { DIB::DeviceInformation(_) => 1, DIB::SupportedServiceFamilies(_) => 2, DIB::IpConfig(_) => 3, DIB::IpCurrentConfig(_) => 4, DIB::KNXAddresses(_) => 5, DIB::ManufacturerData(_) => 0xfe }
}
pub open spec fn dib_body(x: DIB) -> Seq<u8> {
    match x {
        DIB::DeviceInformation(y) => dev_bytes(y), DIB::SupportedServiceFamilies(y) => fam_bytes(y.service_families@), DIB::IpConfig(y) => ipc_bytes(y),
        DIB::IpCurrentConfig(y) => ipcc_bytes(y), DIB::KNXAddresses(y) => kad_bytes(y), DIB::ManufacturerData(y) => man_bytes(y),
    }
}
/// description information block: total length (even, padding included), type, body, padding
pub open spec fn dib_bytes(x: DIB) -> Seq<u8> {
    let b = dib_body(x);
    seq![(2 + b.len() + b.len() % 2) as u8, dib_code(x)] + b + (if b.len() % 2 != 0 { seq![0u8] } else { Seq::empty() })
}
pub open spec fn dib_size(x: DIB) -> int { let b = dib_body(x); 2 + b.len() as int + b.len() as int % 2 }
pub open spec fn dib_ok(d: Seq<u8>, p: int) -> bool {
    p + 2 <= d.len() && dtc_ok(d[p + 1]) && match dtc_of(d[p + 1]) {
        DescriptionTypeCode::DeviceInfo => dev_ok(d, p + 2), DescriptionTypeCode::SupportedServiceFamilies => fam_ok(d, p + 2, d[p]),
        DescriptionTypeCode::IpConfig => ipc_ok(d, p + 2), DescriptionTypeCode::IpCurrentConfig => ipcc_ok(d, p + 2),
        DescriptionTypeCode::KNXAddresses => kad_ok(d, p + 2, d[p]), DescriptionTypeCode::ManufacturerData => man_ok(d, p + 2, d[p]),
    }
}
pub open spec fn dib_at(x: DIB, d: Seq<u8>, p: int) -> bool {
    match dtc_of(d[p + 1]) {
        DescriptionTypeCode::DeviceInfo => x is DeviceInformation && dev_at(x->DeviceInformation_0, d, p + 2, d[p]),
        DescriptionTypeCode::SupportedServiceFamilies => x is SupportedServiceFamilies && fam_at(x->SupportedServiceFamilies_0, d, p + 2, d[p]),
        DescriptionTypeCode::IpConfig => x is IpConfig && ipc_at(x->IpConfig_0, d, p + 2, d[p]),
        DescriptionTypeCode::IpCurrentConfig => x is IpCurrentConfig && ipcc_at(x->IpCurrentConfig_0, d, p + 2, d[p]),
        DescriptionTypeCode::KNXAddresses => x is KNXAddresses && kad_at(x->KNXAddresses_0, d, p + 2, d[p]),
        DescriptionTypeCode::ManufacturerData => x is ManufacturerData && man_at(x->ManufacturerData_0, d, p + 2, d[p]),
    }
}
/// octets consumed by a block
pub open spec fn dib_len(d: Seq<u8>, p: int) -> int {
    2 + match dtc_of(d[p + 1]) {
        DescriptionTypeCode::DeviceInfo => 52, DescriptionTypeCode::SupportedServiceFamilies => 2 * pairs(d[p], 2),
        DescriptionTypeCode::IpConfig => 14, DescriptionTypeCode::IpCurrentConfig => 18,
        DescriptionTypeCode::KNXAddresses => 2 + 2 * pairs(d[p], 4), DescriptionTypeCode::ManufacturerData => d[p] - 2,
    }
}
pub open spec fn search_resp_bytes(x: SearchResponse) -> Seq<u8> {
    let a = dib_bytes(DIB::DeviceInformation(x.device_hardware));
    let b = dib_bytes(DIB::SupportedServiceFamilies(x.supported_service_families));
    hdr_bytes(0x0202, 14 + a.len() as int + b.len() as int) + hpai_bytes(x.control_endpoint) + a + b
}
pub open spec fn search_resp_ok(d: Seq<u8>, p: int) -> bool {
    hdr(d, p, 0x0202) && hpai_ok(d, p + 6) && dib_ok(d, p + 14) && dtc_of(d[p + 15]) == DescriptionTypeCode::DeviceInfo
    && dib_ok(d, p + 68) && dtc_of(d[p + 69]) == DescriptionTypeCode::SupportedServiceFamilies
}
pub open spec fn search_resp_at(x: SearchResponse, d: Seq<u8>, p: int) -> bool {
    hpai_at(x.control_endpoint, d, p + 6) && dev_at(x.device_hardware, d, p + 16, d[p + 14]) && fam_at(x.supported_service_families, d, p + 70, d[p + 68])
}
// ================================================================ discovery
/// all this socket sent is one search request naming its own address, to 224.0.23.12:3671; no operation on it failed
pub open spec fn search_sent(s: UdpSocket) -> bool {
    s.local@ is V4 && s.fails@ == 0 && s.to@ =~= seq![(seq![224u8, 0, 23, 12], 3671int)]
    && s.tx@ =~= seq![(0int, search_req_bytes(SearchRequest { discovery_endpoint: HPAI { host_protocol_code: 1, address: s.local@->V4_0 } }))]
}
/// no datagram is longer than the longest search response (126 service families)
pub open spec fn all_small(rx: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < rx.len() ==> (#[trigger] rx[i]).len() <= 322 }
pub broadcast proof fn lem_small_push(s: Seq<Seq<u8>>, x: Seq<u8>)
    ensures #[trigger] all_small(s.push(x)) == (all_small(s) && x.len() <= 322)
{
    if all_small(s.push(x)) {
        assert(s.push(x)[s.len() as int] == x);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() <= 322 by { assert(s.push(x)[i] == s[i]); }
    }
}
/// the entries are exactly the search responses among ds, which are all of them, in order
pub open spec fn found_at(v: Seq<SearchResponse>, ds: Seq<Seq<u8>>) -> bool {
    v.len() == ds.len() && forall|i: int| 0 <= i < ds.len() ==> search_resp_ok(#[trigger] ds[i], 0) && search_resp_at(v[i], ds[i], 0)
}
pub open spec fn search_post(r: Result<Vec<SearchResponse>, Whatever>, ms: int) -> bool {
    &&& r is Ok ==> exists|s: UdpSocket| #[trigger] live(s) && search_sent(s) && s.late@ =~= seq![ms] && (all_small(s.rx@) ==> found_at(r->Ok_0@, s.rx@))
    &&& r is Err ==> no_socket() || exists|s: UdpSocket| #[trigger] live(s) && (s.local@ is V6 || s.fails@ > 0
        || (search_sent(s) && s.rx@.len() > 0 && (all_small(s.rx@) ==> !search_resp_ok(s.rx@.last(), 0))))
}
// ================================================================ datagram dispatch and receive loop
pub broadcast proof fn lem_skip_push<A>(s: Seq<A>, x: A, n: int)
    requires 0 <= n <= s.len()
    ensures #[trigger] s.push(x).skip(n) == s.skip(n).push(x)
{ assert(s.push(x).skip(n) =~= s.skip(n).push(x)); }
pub broadcast proof fn lem_push_drop_last<A>(s: Seq<A>, x: A)
    ensures #[trigger] s.push(x).drop_last() == s
{ assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lem_push_take<A>(s: Seq<A>, x: A, n: int)
    requires 0 <= n <= s.len()
    ensures #[trigger] s.push(x).take(n) == s.take(n)
{ assert(s.push(x).take(n) =~= s.take(n)); }
pub broadcast proof fn lem_take_push<A>(s: Seq<A>, n: int)
    requires 0 <= n < s.len()
    ensures #[trigger] s.take(n + 1) == s.take(n).push(s[n])
{ assert(s.take(n + 1) =~= s.take(n).push(s[n])); }
/// a received datagram that one of the tunnelling decoders accepts
pub open spec fn pr_ok(d: Seq<u8>) -> bool {
    treq_ok(d, 0) || tack_ok(d, 0) || fresp_ok(d, 0) || chan_status_ok(0x020a, d, 0) || chan_status_ok(0x0208, d, 0) || chan_hpai_ok(0x0209, d, 0)
}
pub open spec fn pr_at(r: TunnelingResponse, d: Seq<u8>) -> bool {
    match r {
        TunnelingResponse::TunnelingRequest(t) => treq_ok(d, 0) && treq_at(t, d, 0),
        TunnelingResponse::TunnelingAck(t) => tack_ok(d, 0) && tack_at(t, d, 0),
        TunnelingResponse::FeatureResponse(f) => fresp_ok(d, 0) && fresp_at(f, d, 0),
        TunnelingResponse::DisconnectResponse(x) => chan_status_ok(0x020a, d, 0) && x.communication_channel_id == d[6] && x.status == d[7],
        TunnelingResponse::ConnectionstateResponse(x) => chan_status_ok(0x0208, d, 0) && x.communication_channel_id == d[6] && x.status == d[7],
        TunnelingResponse::DisconnectRequest(x) => chan_hpai_ok(0x0209, d, 0) && x.communication_channel_id == d[6] && hpai_at(x.control_endpoint, d, 8),
    }
}
/// what is sent in answer to a datagram
pub open spec fn reply(d: Seq<u8>) -> Option<Seq<u8>> {
    if treq_ok(d, 0) || fresp_ok(d, 0) { Some(tack_raw(d[7], d[8], 0)) }
    else if chan_hpai_ok(0x0209, d, 0) { Some(chan_status_bytes(0x020a, d[6], 0)) }
    else { None }
}
/// after this datagram the receive loop goes on
pub open spec fn goes_on(d: Seq<u8>) -> bool {
    d.len() == 0 || treq_ok(d, 0) || tack_ok(d, 0) || fresp_ok(d, 0) || (chan_status_ok(0x0208, d, 0) && d[7] == 0)
}
/// this datagram ends the connection
pub open spec fn hangs_up(d: Seq<u8>) -> bool { chan_status_ok(0x020a, d, 0) || chan_hpai_ok(0x0209, d, 0) }
pub struct CView { pub code: u8, pub infos: Seq<(u8, Seq<u8>)>, pub body: Seq<u8> }
pub open spec fn cview(c: CEMI) -> CView { CView { code: c.msg_code, infos: ai_view(c.additional_infos@), body: c.service_info@ } }
pub open spec fn cemi_of(s: Seq<u8>) -> CView {
    CView { code: s[0], infos: ai_list(s, 2, s[1] as int), body: s.subrange(ai_end(s, 2, s[1] as int), s.len() as int) }
}
pub open spec fn cviews(s: Seq<CEMI>) -> Seq<CView> { Seq::new(s.len(), |i: int| cview(s[i])) }
pub broadcast proof fn lem_cviews_push(s: Seq<CEMI>, c: CEMI)
    ensures #[trigger] cviews(s.push(c)) == cviews(s).push(cview(c))
{ assert(cviews(s.push(c)) =~= cviews(s).push(cview(c))); }
pub open spec fn payload(d: Seq<u8>) -> Seq<u8> { d.subrange(10, at2(d, 4) as int) }
pub open spec fn replies(n0: int, ds: Seq<Seq<u8>>) -> Seq<(int, Seq<u8>)> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() }
    else {
        let p = replies(n0, ds.drop_last());
        if reply(ds.last()) is Some { p.push((n0 + ds.len() as int, reply(ds.last())->0)) } else { p }
    }
}
/// number of the last request or feature response
pub open spec fn last_nr(ds: Seq<Seq<u8>>) -> Option<u8> decreases ds.len() {
    if ds.len() == 0 { None } else if treq_ok(ds.last(), 0) || fresp_ok(ds.last(), 0) { Some(ds.last()[8]) } else { last_nr(ds.drop_last()) }
}
/// each telegram once: a request with the number of the one before repeats it
pub open spec fn delivered(ds: Seq<Seq<u8>>) -> Seq<CView> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() }
    else {
        let p = delivered(ds.drop_last());
        if treq_ok(ds.last(), 0) && cemi_ok(payload(ds.last()), 0) && last_nr(ds.drop_last()) != Some(ds.last()[8]) { p.push(cemi_of(payload(ds.last()))) } else { p }
    }
}
/// connection state answers, channel and status
pub open spec fn states(ds: Seq<Seq<u8>>) -> Seq<(u8, u8)> decreases ds.len() {
    if ds.len() == 0 { Seq::empty() }
    else { let p = states(ds.drop_last()); if chan_status_ok(0x0208, ds.last(), 0) { p.push((ds.last()[6], ds.last()[7])) } else { p } }
}
pub open spec fn svs(s: Seq<ConnectionstateResponse>) -> Seq<(u8, u8)> { Seq::new(s.len(), |i: int| (s[i].communication_channel_id, s[i].status)) }
pub broadcast proof fn lem_svs_push(s: Seq<ConnectionstateResponse>, c: ConnectionstateResponse)
    ensures #[trigger] svs(s.push(c)) == svs(s).push((c.communication_channel_id, c.status))
{ assert(svs(s.push(c)) =~= svs(s).push((c.communication_channel_id, c.status))); }
/// the status of a disconnection: the gateway's answer, 0 when it asked for it
pub open spec fn hang_status(d: Seq<u8>) -> u8 { if chan_status_ok(0x020a, d, 0) { d[7] } else { 0 } }
pub open spec fn all_go_on(ds: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < ds.len() ==> goes_on(#[trigger] ds[i]) }
/// the datagrams `ds` were received after state s0/t0 and every one of them was answered and delivered
pub open spec fn handled(s0: UdpSocket, t0: Seq<CEMI>, s1: UdpSocket, t1: Seq<CEMI>, ds: Seq<Seq<u8>>) -> bool {
    s1.tx@ =~= s0.tx@ + replies(s0.rx@.len() as int, ds) && cviews(t1) =~= cviews(t0) + delivered(ds)
}
/// every datagram fits the 512 octets that the receive loop can take
pub open spec fn all_short(rx: Seq<Seq<u8>>) -> bool { forall|i: int| 0 <= i < rx.len() ==> (#[trigger] rx[i]).len() <= 512 }
pub broadcast proof fn lem_short_pre(a: Seq<Seq<u8>>, b: Seq<Seq<u8>>)
    requires #[trigger] pre(a, b) ensures all_short(b) ==> #[trigger] all_short(a)
{ if all_short(b) { assert forall|i: int| 0 <= i < a.len() implies (#[trigger] a[i]).len() <= 512 by { assert(b[i] == a[i]); } } }
pub broadcast proof fn lem_short_push(s: Seq<Seq<u8>>, x: Seq<u8>)
    ensures #[trigger] all_short(s.push(x)) == (all_short(s) && x.len() <= 512)
{
    if all_short(s.push(x)) {
        assert(s.push(x)[s.len() as int] == x);
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).len() <= 512 by { assert(s.push(x)[i] == s[i]); }
    }
}
pub open spec fn new_rx(s0: UdpSocket, s1: UdpSocket) -> Seq<Seq<u8>> { s1.rx@.skip(s0.rx@.len() as int) }
/// an accepted answer to a connect request
pub open spec fn good_conn(d: Seq<u8>) -> bool { conn_resp_ok(d, 0) && d[7] == 0 }
pub open spec fn pre<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[i] }
pub open spec fn grown(s0: UdpSocket, s1: UdpSocket) -> bool { pre(s0.rx@, s1.rx@) && pre(s0.tx@, s1.tx@) && s1.to == s0.to && (s0.fail_at@ <= s0.rx@.len() ==> s1.fail_at@ <= s1.rx@.len()) }
/// every pause made since s0 was one of 10 seconds
pub open spec fn rested(s0: UdpSocket, s1: UdpSocket) -> bool { pre(s0.rests@, s1.rests@) && forall|i: int| s0.rests@.len() <= i < s1.rests@.len() ==> #[trigger] s1.rests@[i] == 10000 }
/// what was sent (after e.0 datagrams had been received) is a connect request
pub open spec fn e_conn(rx: Seq<Seq<u8>>, n0: int, e: (int, Seq<u8>)) -> bool { n0 <= e.0 <= rx.len() && e.1 =~= conn_req_const(2) }
/// ... the answer to the datagram received just before it
pub open spec fn e_reply(rx: Seq<Seq<u8>>, n0: int, e: (int, Seq<u8>)) -> bool {
    n0 < e.0 <= rx.len() && reply(rx[e.0 - 1]) is Some && e.1 =~= reply(rx[e.0 - 1])->0
}
/// rx[j] accepted the connection that is open after k datagrams
pub open spec fn opened_by(rx: Seq<Seq<u8>>, k: int, j: int) -> bool {
    0 <= j < k <= rx.len() && good_conn(rx[j]) && forall|m: int| j < m < k ==> !good_conn(#[trigger] rx[m])
}
pub open spec fn of_conn(d: Seq<u8>, ch: u8, h: HPAI) -> bool { ch == d[6] && hpai_at(h, d, 8) }
/// ... the state request of the open connection
pub open spec fn e_beat(rx: Seq<Seq<u8>>, n0: int, e: (int, Seq<u8>)) -> bool {
    n0 < e.0 <= rx.len() && exists|j: int, ch: u8, h: HPAI| n0 <= j && #[trigger] opened_by(rx, e.0, j) && #[trigger] of_conn(rx[j], ch, h) && e.1 =~= chan_hpai_bytes(0x0207, ch, h)
}
/// ... the request that enables the bus monitor of the connection accepted just before
pub open spec fn e_enable(rx: Seq<Seq<u8>>, n0: int, e: (int, Seq<u8>)) -> bool {
    n0 < e.0 <= rx.len() && good_conn(rx[e.0 - 1]) && e.1 =~= fset_raw(rx[e.0 - 1][6], 0, 8, 1)
}
pub open spec fn e_any(rx: Seq<Seq<u8>>, n0: int, e: (int, Seq<u8>), monitor: bool) -> bool {
    e_conn(rx, n0, e) || e_reply(rx, n0, e) || e_beat(rx, n0, e) || (monitor && e_enable(rx, n0, e))
}
/// since s0 only connect requests were sent
pub open spec fn only_conn(s0: UdpSocket, s1: UdpSocket) -> bool {
    grown(s0, s1) && forall|i: int| s0.tx@.len() <= i < s1.tx@.len() ==> e_conn(s1.rx@, s0.rx@.len() as int, #[trigger] s1.tx@[i])
}
/// since s0 only answers were sent
pub open spec fn only_replies(s0: UdpSocket, s1: UdpSocket) -> bool {
    grown(s0, s1) && (all_short(s1.rx@) ==> forall|i: int| s0.tx@.len() <= i < s1.tx@.len() ==> e_reply(s1.rx@, s0.rx@.len() as int, #[trigger] s1.tx@[i]))
}
/// everything sent since s0 is a connect request, an answer, or a state request (or, for a monitor, the enabling request)
pub open spec fn task_sent(s0: UdpSocket, s1: UdpSocket, monitor: bool) -> bool {
    grown(s0, s1) && (all_short(s1.rx@) ==> forall|i: int| s0.tx@.len() <= i < s1.tx@.len() ==> e_any(s1.rx@, s0.rx@.len() as int, #[trigger] s1.tx@[i], monitor))
}
pub proof fn lem_beat_grows(rx: Seq<Seq<u8>>, rx2: Seq<Seq<u8>>, n0: int, e: (int, Seq<u8>))
    requires pre(rx, rx2), e_beat(rx, n0, e) ensures e_beat(rx2, n0, e)
{
    let (j, ch, h) = choose|j: int, ch: u8, h: HPAI| n0 <= j && #[trigger] opened_by(rx, e.0, j) && #[trigger] of_conn(rx[j], ch, h) && e.1 =~= chan_hpai_bytes(0x0207, ch, h);
    assert(rx2[j] == rx[j]);
    assert(opened_by(rx2, e.0, j) && of_conn(rx2[j], ch, h));
}
pub broadcast proof fn lem_task_conn(s0: UdpSocket, s1: UdpSocket, s2: UdpSocket, m: bool)
    requires #[trigger] task_sent(s0, s1, m), #[trigger] only_conn(s1, s2) ensures task_sent(s0, s2, m)
{
    lem_short_pre(s1.rx@, s2.rx@);
    if all_short(s2.rx@) { assert forall|i: int| s0.tx@.len() <= i < s2.tx@.len() implies e_any(s2.rx@, s0.rx@.len() as int, #[trigger] s2.tx@[i], m) by {
        if i < s1.tx@.len() { let e = s1.tx@[i]; assert(s2.tx@[i] == e); assert(e_any(s1.rx@, s0.rx@.len() as int, e, m));
            if e_beat(s1.rx@, s0.rx@.len() as int, e) { lem_beat_grows(s1.rx@, s2.rx@, s0.rx@.len() as int, e); } }
    } }
}
pub broadcast proof fn lem_task_replies(s0: UdpSocket, s1: UdpSocket, s2: UdpSocket, m: bool)
    requires #[trigger] task_sent(s0, s1, m), #[trigger] only_replies(s1, s2) ensures task_sent(s0, s2, m)
{
    lem_short_pre(s1.rx@, s2.rx@);
    if all_short(s2.rx@) { assert forall|i: int| s0.tx@.len() <= i < s2.tx@.len() implies e_any(s2.rx@, s0.rx@.len() as int, #[trigger] s2.tx@[i], m) by {
        if i < s1.tx@.len() { let e = s1.tx@[i]; assert(s2.tx@[i] == e); assert(e_any(s1.rx@, s0.rx@.len() as int, e, m));
            if e_beat(s1.rx@, s0.rx@.len() as int, e) { lem_beat_grows(s1.rx@, s2.rx@, s0.rx@.len() as int, e); } }
    } }
}
pub broadcast proof fn lem_task_beat(s0: UdpSocket, s1: UdpSocket, s2: UdpSocket, m: bool, ch: u8, h: HPAI)
    requires #[trigger] task_sent(s0, s1, m), #[trigger] sent1(s1, s2, chan_hpai_bytes(0x0207, ch, h)), s1.rx@.len() > s0.rx@.len(), good_conn(s1.rx@.last()), of_conn(s1.rx@.last(), ch, h)
    ensures task_sent(s0, s2, m)
{
    let k = s1.rx@.len() as int;
    assert(opened_by(s2.rx@, k, k - 1) && of_conn(s2.rx@[k - 1], ch, h));
    lem_short_pre(s1.rx@, s2.rx@);
    if all_short(s2.rx@) { assert forall|i: int| s0.tx@.len() <= i < s2.tx@.len() implies e_any(s2.rx@, s0.rx@.len() as int, #[trigger] s2.tx@[i], m) by {
        if i < s1.tx@.len() { let e = s1.tx@[i]; assert(s2.tx@[i] == e); assert(e_any(s1.rx@, s0.rx@.len() as int, e, m)); }
    } }
}
pub broadcast proof fn lem_task_enable(s0: UdpSocket, s1: UdpSocket, s2: UdpSocket, ch: u8)
    requires #[trigger] task_sent(s0, s1, true), #[trigger] sent1(s1, s2, fset_raw(ch, 0, 8, 1)), s1.rx@.len() > s0.rx@.len(), good_conn(s1.rx@.last()), ch == s1.rx@.last()[6]
    ensures task_sent(s0, s2, true)
{
    lem_short_pre(s1.rx@, s2.rx@);
    if all_short(s2.rx@) { assert forall|i: int| s0.tx@.len() <= i < s2.tx@.len() implies e_any(s2.rx@, s0.rx@.len() as int, #[trigger] s2.tx@[i], true) by {
        if i < s1.tx@.len() { let e = s1.tx@[i]; assert(s2.tx@[i] == e); assert(e_any(s1.rx@, s0.rx@.len() as int, e, true)); }
    } }
}
/// a datagram in a zeroed buffer of n octets
// ================================================================ client
pub open spec fn read_telegram(a: KnxAddress) -> Seq<u8> { ldata_req(3, knx_u16(a), seq![0u8, 0u8]) }
pub open spec fn write_telegram(a: KnxAddress, value: Seq<u8>, small: bool) -> Seq<u8> { ldata_req(3, knx_u16(a), group_write_apdu(value, small)) }
/// an indication that carries a value for the address
pub open spec fn value_ind(c: CEMI, a: KnxAddress) -> bool {
    c.msg_code == 0x29 && lind_ok(c.service_info@) && at2(c.service_info@, 4) == knx_u16(a) && lind_apci(c.service_info@) != 0
}
pub open spec fn positive_con(c: CEMI) -> bool { c.msg_code == 0x2e && lcon_ok(c.service_info@) && lcon_confirm(c.service_info@) }
pub open spec fn lind_at(x: LDataInd, c: CEMI) -> bool {
    x.cemi == c && ldata_at(x.l_data, c.service_info@) && x.apci == lind_apci(c.service_info@) && x.value@ =~= lind_value(c.service_info@)
}
// ------------------------------------------------------------------ the data of the connection, shared between the calls and the receive task
pub trait Conn: Sized { spec fn chan(self) -> u8; spec fn ep(self) -> HPAI; spec fn nr(self) -> u8; }
/// a critical section that took the next number: nothing else changed
pub open spec fn bump<C: Conn>(s: (Option<C>, Option<C>)) -> bool {
    s.0 is Some && s.1 is Some && s.1->0.chan() == s.0->0.chan() && s.1->0.ep() == s.0->0.ep() && s.1->0.nr() == s.0->0.nr().wrapping_add(1)
}
/// what a call may do in a critical section: nothing, or take one number
pub open spec fn call_step<C: Conn>(s: (Option<C>, Option<C>)) -> bool { s.1 == s.0 || bump(s) }
/// what the receive task may do: nothing, drop the connection, or set a new one, numbered from `start`, where there was none
pub open spec fn own_step<C: Conn>(s: (Option<C>, Option<C>), start: u8) -> bool { s.1 == s.0 || s.1 is None || (s.0 is None && s.1 is Some && s.1->0.nr() == start) }
pub open spec fn own_all<C: Conn>(h: Seq<(Option<C>, Option<C>)>, start: u8) -> bool { forall|i: int| 0 <= i < h.len() ==> own_step(#[trigger] h[i], start) }
/// what the receive task finds is what it left, but for the numbers that were taken
pub open spec fn conn_rely<C: Conn>(a: Option<C>, b: Option<C>) -> bool { (a is Some <==> b is Some) && (a is Some ==> b->0.chan() == a->0.chan() && b->0.ep() == a->0.ep()) }
impl Shared for Option<u8> { open spec fn rely(self, other: Self) -> bool { other == self } }
impl<T> Shared for Vec<mpsc::Sender<T>> { open spec fn rely(self, other: Self) -> bool { self@.is_prefix_of(other@) } }
/// the numbers taken in a history of critical sections
pub open spec fn taken<C: Conn>(h: Seq<(Option<C>, Option<C>)>) -> Seq<C> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else if bump(h.last()) { taken(h.drop_last()).push(h.last().0->0) } else { taken(h.drop_last()) }
}
pub open spec fn fair<C: Conn>(h0: Seq<(Option<C>, Option<C>)>, h1: Seq<(Option<C>, Option<C>)>) -> bool {
    h1.len() >= h0.len() && h1.take(h0.len() as int) =~= h0 && forall|i: int| h0.len() <= i < h1.len() ==> call_step(#[trigger] h1[i])
}
/// a call that took at most one number
pub open spec fn one_or_none<C: Conn>(h0: Seq<(Option<C>, Option<C>)>, h1: Seq<(Option<C>, Option<C>)>) -> bool {
    fair(h0, h1) && (taken(h1) == taken(h0) || (taken(h1).len() == taken(h0).len() + 1 && taken(h1).drop_last() =~= taken(h0)))
}
/// there was no connection in one of the sections
pub open spec fn no_conn<C: Conn>(h0: Seq<(Option<C>, Option<C>)>, h1: Seq<(Option<C>, Option<C>)>) -> bool {
    exists|i: int| h0.len() <= i < h1.len() && (#[trigger] h1[i]).0 is None
}
pub open spec fn look_post<C: Conn>(h0: Seq<(Option<C>, Option<C>)>, h1: Seq<(Option<C>, Option<C>)>) -> bool { idle_all(h0, h1) && h1.len() > h0.len() }
pub open spec fn next_post<C: Conn>(h0: Seq<(Option<C>, Option<C>)>, h1: Seq<(Option<C>, Option<C>)>, ok: bool, v: (u8, u8)) -> bool {
    one_or_none(h0, h1) && h1.len() > h0.len()
    && (ok <==> taken(h1) != taken(h0)) && (ok ==> v.0 == taken(h1).last().chan() && v.1 == taken(h1).last().nr()) && (!ok ==> no_conn(h0, h1))
}
pub open spec fn added<T>(h0: Seq<(Vec<T>, Vec<T>)>, h1: Seq<(Vec<T>, Vec<T>)>, v: T) -> bool {
    h1.len() == h0.len() + 1 && h1.drop_last() =~= h0 && h1.last().1@ =~= h1.last().0@.push(v)
}
pub broadcast proof fn lemma_taken_push<C: Conn>(h: Seq<(Option<C>, Option<C>)>, s: (Option<C>, Option<C>))
    ensures (#[trigger] taken(h.push(s))) == (if bump(s) { taken(h).push(s.0->0) } else { taken(h) })
{ assert(h.push(s).drop_last() =~= h); }
pub broadcast proof fn lemma_taken_idle<C: Conn>(h0: Seq<(Option<C>, Option<C>)>, h1: Seq<(Option<C>, Option<C>)>)
    requires #[trigger] idle_all(h0, h1)
    ensures taken(h1) == taken(h0)
    decreases h1.len()
{
    if h1.len() == h0.len() { assert(h1 =~= h0); }
    else { let p = h1.drop_last(); assert(p.take(h0.len() as int) =~= h1.take(h0.len() as int)); lemma_taken_idle(h0, p); assert(!bump(h1.last())) by { let s = h1[h1.len() - 1]; assert(s.1 == s.0); if s.0 is Some { let n = s.0->0.nr(); assert(n != n.wrapping_add(1)); } } }
}
// ------------------------------------------------------------------ all critical sections of all tasks, in the order of the lock
pub open spec fn chained<C: Conn>(h: Seq<(Option<C>, Option<C>)>, start: u8) -> bool {
    (h.len() > 0 ==> h[0].0 is None) && (forall|i: int| 0 < i < h.len() ==> (#[trigger] h[i]).0 == h[i - 1].1)
    && forall|i: int| 0 <= i < h.len() ==> call_step(#[trigger] h[i]) || own_step(h[i], start)
}
/// numbers taken since the connection was set
pub open spec fn since<C: Conn>(h: Seq<(Option<C>, Option<C>)>) -> nat decreases h.len() {
    if h.len() == 0 { 0 } else if bump(h.last()) { since(h.drop_last()) + 1 } else if h.last().0 is None { 0 } else { since(h.drop_last()) }
}
proof fn lemma_chained_init<C: Conn>(h: Seq<(Option<C>, Option<C>)>, start: u8)
    requires chained(h, start), h.len() > 0
    ensures chained(h.drop_last(), start), call_step(h.last()) || own_step(h.last(), start), h.len() > 1 ==> h.last().0 == h.drop_last().last().1, h.len() == 1 ==> h.last().0 is None
{
    let p = h.drop_last();
    assert(call_step(h[h.len() - 1]) || own_step(h[h.len() - 1], start));
    assert(h.last() == h[h.len() - 1]);
    if p.len() > 0 {
        assert forall|i: int| 0 < i < p.len() implies (#[trigger] p[i]).0 == p[i - 1].1 by { assert(p[i] == h[i]); assert(p[i - 1] == h[i - 1]); }
        assert forall|i: int| 0 <= i < p.len() implies call_step(#[trigger] p[i]) || own_step(p[i], start) by { assert(p[i] == h[i]); }
        assert(p[0] == h[0]);
        assert(p.last() == h[h.len() - 2]);
    }
}
proof fn lemma_step<C: Conn>(s: (Option<C>, Option<C>), start: u8, k: int)
    requires call_step(s) || own_step(s, start), s.0 is Some ==> s.0->0.nr() as int == (start as int + k) % 256, k >= 0
    ensures bump(s) ==> s.1->0.nr() as int == (start as int + k + 1) % 256, !bump(s) && s.0 is Some && s.1 is Some ==> s.1->0.nr() as int == (start as int + k) % 256,
        s.0 is None && s.1 is Some ==> s.1->0.nr() as int == start as int % 256
{
    let n = start as int + k;
    assert((n + 1) % 256 == (n % 256 + 1) % 256);
}
/// whatever the interleaving: the k-th number taken on a connection is start + k (mod 256)
pub proof fn lemma_numbers<C: Conn>(h: Seq<(Option<C>, Option<C>)>, start: u8)
    requires chained(h, start), h.len() > 0
    ensures h.last().1 is Some ==> h.last().1->0.nr() as int == (start as int + since(h)) % 256,
        bump(h.last()) ==> h.last().0->0.nr() as int == (start as int + since(h.drop_last())) % 256,
    decreases h.len()
{
    hide(chained); hide(call_step); hide(own_step);
    let p = h.drop_last();
    lemma_chained_init(h, start);
    if p.len() > 0 { lemma_numbers(p, start); }
    lemma_step(h.last(), start, since(p) as int);
    lemma_not_bump(h.last());
}
proof fn lemma_not_bump<C: Conn>(s: (Option<C>, Option<C>)) ensures s.0 is None ==> !bump(s) { }
/// the calls keep to what the receive task relies on
pub proof fn lemma_calls_keep_rely<C: Conn>(a: Option<C>, b: Option<C>, c: Option<C>)
    ensures call_step((a, b)) ==> conn_rely(a, b), conn_rely(a, b) && conn_rely(b, c) ==> conn_rely(a, c), conn_rely(a, a)
{ }
pub proof fn lemma_listeners_keep_rely<T>(h0: Seq<(Vec<T>, Vec<T>)>, h1: Seq<(Vec<T>, Vec<T>)>, v: T, a: Seq<T>, b: Seq<T>, c: Seq<T>)
    ensures added(h0, h1, v) ==> h1.last().0@.is_prefix_of(h1.last().1@), a.is_prefix_of(b) && b.is_prefix_of(c) ==> a.is_prefix_of(c)
{ }
