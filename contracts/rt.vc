=== items vspec
// ================================================================ round trips (C11): encoder contract and decoder contract composed
pub open spec fn hpai_eq(a: HPAI, b: HPAI) -> bool { a.host_protocol_code == b.host_protocol_code && a.address.ip.o@ =~= b.address.ip.o@ && a.address.port == b.address.port }
/// w is found in d at p
pub open spec fn sits(w: Seq<u8>, d: Seq<u8>, p: int) -> bool { 0 <= p && p + w.len() <= d.len() && d.subrange(p, p + w.len()) =~= w }
pub proof fn lem_sits(w: Seq<u8>, d: Seq<u8>, p: int)
    requires sits(w, d, p) ensures forall|i: int| 0 <= i < w.len() ==> #[trigger] w[i] == d[p + i]
{ assert forall|i: int| 0 <= i < w.len() implies #[trigger] w[i] == d[p + i] by { assert(d.subrange(p, p + w.len())[i] == d[p + i]); } }
pub proof fn lem_sits_i(w: Seq<u8>, d: Seq<u8>, p: int, i: int)
    requires sits(w, d, p), 0 <= i < w.len() ensures d[p + i] == w[i]
{ lem_sits(w, d, p); }
pub proof fn lemma_rt_hpai(h: HPAI, d: Seq<u8>, p: int)
    requires sits(hpai_bytes(h), d, p)
    ensures hpai_ok(d, p), forall|x: HPAI| #[trigger] hpai_at(x, d, p) ==> hpai_eq(x, h)
{
    let w = hpai_bytes(h);
    assert forall|i: int| 0 <= i < 8 implies d[p + i] == #[trigger] w[i] by { lem_sits_i(w, d, p, i); }
    assert(d[p] == w[0] && d[p + 1] == w[1] && d[p + 2] == w[2] && d[p + 3] == w[3] && d[p + 4] == w[4] && d[p + 5] == w[5] && d[p + 6] == w[6] && d[p + 7] == w[7]);
    assert(d.subrange(p + 2, p + 6) =~= h.address.ip.o@);
}
pub proof fn lemma_rt_crd(c: CRD, d: Seq<u8>, p: int)
    requires sits(crd_bytes(c), d, p), ia_wf(c.knx_individual_address)
    ensures crd_ok(d, p), forall|x: CRD| #[trigger] crd_at(x, d, p) ==> x == c
{
    let w = crd_bytes(c);
    assert forall|i: int| 0 <= i < 4 implies d[p + i] == #[trigger] w[i] by { lem_sits_i(w, d, p, i); }
    assert(d[p] == w[0] && d[p + 1] == w[1] && d[p + 2] == w[2] && d[p + 3] == w[3]);
    lemma_ia_lossless(0, c.knx_individual_address);
}
pub proof fn lemma_rt_conn_resp(c: ConnectionResponse)
    requires ia_wf(c.crd.knx_individual_address)
    ensures ({ let d = conn_resp_bytes(c);
        (conn_resp_ok(d, 0) <==> c.status != 0x22 && c.status != 0x23 && c.status != 0x24 && c.status != 0x29)
        && forall|x: ConnectionResponse| #[trigger] conn_resp_at(x, d, 0) ==> x.communication_channel_id == c.communication_channel_id && x.status == c.status
            && hpai_eq(x.data_endpoint, c.data_endpoint) && x.crd == c.crd })
{
    let d = conn_resp_bytes(c);
    assert(d.subrange(8, 16) =~= hpai_bytes(c.data_endpoint));
    assert(d.subrange(16, 20) =~= crd_bytes(c.crd));
    lemma_rt_hpai(c.data_endpoint, d, 8);
    lemma_rt_crd(c.crd, d, 16);
}
pub proof fn lemma_rt_chan_hpai(code: u16, ch: u8, h: HPAI)
    ensures ({ let d = chan_hpai_bytes(code, ch, h); chan_hpai_ok(code, d, 0) && d[6] == ch && forall|x: HPAI| #[trigger] hpai_at(x, d, 8) ==> hpai_eq(x, h) })
{
    let d = chan_hpai_bytes(code, ch, h);
    assert(d.subrange(8, 16) =~= hpai_bytes(h));
    lemma_rt_hpai(h, d, 8);
}
pub proof fn lemma_rt_chan_status(code: u16, ch: u8, status: u8)
    ensures ({ let d = chan_status_bytes(code, ch, status); chan_status_ok(code, d, 0) && d[6] == ch && d[7] == status })
{ }
pub proof fn lemma_rt_treq(t: TunnelingRequest)
    requires t.cemi@.len() <= 65525
    ensures ({ let d = treq_bytes(t); treq_ok(d, 0) && forall|x: TunnelingRequest| #[trigger] treq_at(x, d, 0) ==>
        x.communication_channel_id == t.communication_channel_id && x.sequence_nr == t.sequence_nr && x.cemi@ =~= t.cemi@ })
{
    let d = treq_bytes(t);
    assert(at2(d, 4) == 10 + t.cemi@.len());
    assert(d.subrange(10, d.len() as int) =~= t.cemi@);
}
pub proof fn lemma_rt_tack(t: TunnelingAck)
    ensures ({ let d = tack_bytes(t); tack_ok(d, 0) && forall|x: TunnelingAck| #[trigger] tack_at(x, d, 0) ==>
        x.communication_channel_id == t.communication_channel_id && x.sequence_nr == t.sequence_nr && x.status == t.status })
{ }
pub proof fn lemma_rt_fresp(t: FeatureResp)
    ensures ({ let d = fresp_bytes(t); fresp_ok(d, 0) && forall|x: FeatureResp| #[trigger] fresp_at(x, d, 0) ==>
        x.communication_channel_id == t.communication_channel_id && x.sequence_nr == t.sequence_nr && x.status == t.status && x.feature == t.feature && x.value == t.value })
{ }
pub proof fn lemma_rt_search_req(r: SearchRequest)
    ensures ({ let d = search_req_bytes(r); hdr(d, 0, 0x0201) && hpai_ok(d, 6) && forall|x: HPAI| #[trigger] hpai_at(x, d, 6) ==> hpai_eq(x, r.discovery_endpoint) })
{
    let d = search_req_bytes(r);
    assert(d.subrange(6, 14) =~= hpai_bytes(r.discovery_endpoint));
    lemma_rt_hpai(r.discovery_endpoint, d, 6);
}
// ---- description blocks
pub open spec fn dev_same(x: DeviceInformationDIB, y: DeviceInformationDIB) -> bool {
    x.knx_medium == y.knx_medium && x.knx_device_status.bits == y.knx_device_status.bits && x.knx_individual_address == y.knx_individual_address
    && x.project_installation_identifier == y.project_installation_identifier && x.serial_number@ =~= y.serial_number@
    && x.routing_multicast_address.o@ =~= y.routing_multicast_address.o@ && x.mac_address@ =~= y.mac_address@ && x.friendly_name@ =~= y.friendly_name@
}
pub proof fn lemma_rt_dev(y: DeviceInformationDIB, d: Seq<u8>, p: int, len: u8)
    requires sits(dev_bytes(y), d, p), ia_wf(y.knx_individual_address), y.knx_device_status.bits <= 1
    ensures dev_ok(d, p), forall|x: DeviceInformationDIB| #[trigger] dev_at(x, d, p, len) ==> dev_same(x, y)
{
    let w = dev_bytes(y);
    assert(w.len() == 52);
    lem_sits(w, d, p);
    assert(d[p] == w[0] && d[p + 1] == w[1] && d[p + 2] == w[2] && d[p + 3] == w[3] && d[p + 4] == w[4] && d[p + 5] == w[5]);
    lemma_ia_lossless(0, y.knx_individual_address);
    let b = y.knx_device_status.bits;
    assert(b <= 1 ==> (b & 1u8) == b) by (bit_vector);
    assert(d.subrange(p + 6, p + 12) =~= y.serial_number@) by { assert forall|i: int| 0 <= i < 6 implies d[p + 6 + i] == #[trigger] y.serial_number@[i] by { assert(w[6 + i] == d[p + (6 + i)]); } }
    assert(d.subrange(p + 12, p + 16) =~= y.routing_multicast_address.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + 12 + i] == #[trigger] y.routing_multicast_address.o@[i] by { assert(w[12 + i] == d[p + (12 + i)]); } }
    assert(d.subrange(p + 16, p + 22) =~= y.mac_address@) by { assert forall|i: int| 0 <= i < 6 implies d[p + 16 + i] == #[trigger] y.mac_address@[i] by { assert(w[16 + i] == d[p + (16 + i)]); } }
    assert(d.subrange(p + 22, p + 52) =~= y.friendly_name@) by { assert forall|i: int| 0 <= i < 30 implies d[p + 22 + i] == #[trigger] y.friendly_name@[i] by { assert(w[22 + i] == d[p + (22 + i)]); } }
}
pub proof fn lem_fam_at(s: Seq<ServiceFamily>, i: int)
    requires 0 <= i < s.len()
    ensures fam_bytes(s)[2 * i] == s[i].service_family, fam_bytes(s)[2 * i + 1] == s[i].version
    decreases s.len()
{
    lem_fam_len(s.drop_last());
    if i < s.len() - 1 { lem_fam_at(s.drop_last(), i); }
}
pub proof fn lem_ias_at(s: Seq<IndividualAddress>, i: int)
    requires 0 <= i < s.len()
    ensures at2(ias_bytes(s), 2 * i) == ia_u16(s[i])
    decreases s.len()
{
    lem_ias_len(s.drop_last());
    lem_w16(ia_u16(s[i]));
    if i < s.len() - 1 { lem_ias_at(s.drop_last(), i); }
}
pub proof fn lemma_rt_fam(y: SupportedServiceFamiliesDIB, d: Seq<u8>, p: int, len: u8)
    requires sits(fam_bytes(y.service_families@), d, p), len == 2 + 2 * y.service_families@.len()
    ensures fam_ok(d, p, len), forall|x: SupportedServiceFamiliesDIB| #[trigger] fam_at(x, d, p, len) ==> x.service_families@.len() == y.service_families@.len()
        && forall|i: int| 0 <= i < y.service_families@.len() ==> (#[trigger] x.service_families@[i]).service_family == y.service_families@[i].service_family && x.service_families@[i].version == y.service_families@[i].version
{
    let s = y.service_families@;
    let w = fam_bytes(s);
    lem_fam_len(s);
    assert(pairs(len, 2) == s.len());
    assert forall|i: int| 0 <= i < s.len() implies d[p + 2 * i] == (#[trigger] s[i]).service_family && d[p + 2 * i + 1] == s[i].version by {
        lem_fam_at(s, i); lem_sits_i(w, d, p, 2 * i); lem_sits_i(w, d, p, 2 * i + 1); assert(p + (2 * i + 1) == p + 2 * i + 1);
    }
    assert forall|x: SupportedServiceFamiliesDIB| #[trigger] fam_at(x, d, p, len) implies x.service_families@.len() == y.service_families@.len()
        && forall|i: int| 0 <= i < y.service_families@.len() ==> (#[trigger] x.service_families@[i]).service_family == y.service_families@[i].service_family && x.service_families@[i].version == y.service_families@[i].version by {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] x.service_families@[i]).service_family == s[i].service_family && x.service_families@[i].version == s[i].version by {
            assert(fam_elem(x.service_families@[i], d, p + 2 * i)); let z = s[i];
        }
    }
}
pub proof fn lemma_rt_ipc(y: IpConfigDIB, d: Seq<u8>, p: int, len: u8)
    requires sits(ipc_bytes(y), d, p)
    ensures ipc_ok(d, p), forall|x: IpConfigDIB| #[trigger] ipc_at(x, d, p, len) ==> x.ip_address.o@ =~= y.ip_address.o@ && x.subnet_mask.o@ =~= y.subnet_mask.o@
        && x.default_gateway.o@ =~= y.default_gateway.o@ && x.ip_capabilities == y.ip_capabilities && x.ip_assignment_method == y.ip_assignment_method
{
    let w = ipc_bytes(y);
    assert forall|i: int| 0 <= i < 14 implies d[p + i] == #[trigger] w[i] by { lem_sits_i(w, d, p, i); }
    assert(w[12] == y.ip_capabilities && w[13] == y.ip_assignment_method);
    assert(d[p + 12] == w[12] && d[p + 13] == w[13]);
    assert(d.subrange(p, p + 4) =~= y.ip_address.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + i] == #[trigger] y.ip_address.o@[i] by { assert(w[i] == d[p + i]); } }
    assert(d.subrange(p + 4, p + 8) =~= y.subnet_mask.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + 4 + i] == #[trigger] y.subnet_mask.o@[i] by { assert(w[4 + i] == d[p + (4 + i)]); } }
    assert(d.subrange(p + 8, p + 12) =~= y.default_gateway.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + 8 + i] == #[trigger] y.default_gateway.o@[i] by { assert(w[8 + i] == d[p + (8 + i)]); } }
}
pub proof fn lemma_rt_ipcc(y: IpCurrentConfigDIB, d: Seq<u8>, p: int, len: u8)
    requires sits(ipcc_bytes(y), d, p)
    ensures ipcc_ok(d, p), forall|x: IpCurrentConfigDIB| #[trigger] ipcc_at(x, d, p, len) ==> x.current_ip_address.o@ =~= y.current_ip_address.o@ && x.current_subnet_mask.o@ =~= y.current_subnet_mask.o@
        && x.current_default_gateway.o@ =~= y.current_default_gateway.o@ && x.dhcp_server.o@ =~= y.dhcp_server.o@
        && x.current_ip_assignment_method == y.current_ip_assignment_method && x.reserved == y.reserved
{
    let w = ipcc_bytes(y);
    assert forall|i: int| 0 <= i < 18 implies d[p + i] == #[trigger] w[i] by { lem_sits_i(w, d, p, i); }
    assert(w[16] == y.current_ip_assignment_method && w[17] == y.reserved);
    assert(d[p + 16] == w[16] && d[p + 17] == w[17]);
    assert(d.subrange(p, p + 4) =~= y.current_ip_address.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + i] == #[trigger] y.current_ip_address.o@[i] by { assert(w[i] == d[p + i]); } }
    assert(d.subrange(p + 4, p + 8) =~= y.current_subnet_mask.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + 4 + i] == #[trigger] y.current_subnet_mask.o@[i] by { assert(w[4 + i] == d[p + (4 + i)]); } }
    assert(d.subrange(p + 8, p + 12) =~= y.current_default_gateway.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + 8 + i] == #[trigger] y.current_default_gateway.o@[i] by { assert(w[8 + i] == d[p + (8 + i)]); } }
    assert(d.subrange(p + 12, p + 16) =~= y.dhcp_server.o@) by { assert forall|i: int| 0 <= i < 4 implies d[p + 12 + i] == #[trigger] y.dhcp_server.o@[i] by { assert(w[12 + i] == d[p + (12 + i)]); } }
}
pub proof fn lemma_rt_kad(y: KNXAddressesDIB, d: Seq<u8>, p: int, len: u8)
    requires sits(kad_bytes(y), d, p), len == 4 + 2 * y.additional_individual_addresses@.len(), ia_wf(y.knx_individual_address),
        forall|i: int| 0 <= i < y.additional_individual_addresses@.len() ==> ia_wf(#[trigger] y.additional_individual_addresses@[i])
    ensures kad_ok(d, p, len), forall|x: KNXAddressesDIB| #[trigger] kad_at(x, d, p, len) ==> x.knx_individual_address == y.knx_individual_address && x.additional_individual_addresses@ =~= y.additional_individual_addresses@
{
    let s = y.additional_individual_addresses@;
    let w = kad_bytes(y);
    lem_ias_len(s);
    assert(pairs(len, 4) == s.len());
    lem_sits_i(w, d, p, 0); lem_sits_i(w, d, p, 1);
    lem_w16(ia_u16(y.knx_individual_address));
    lemma_ia_lossless(0, y.knx_individual_address);
    assert forall|i: int| 0 <= i < s.len() implies ia_of(at2(d, p + 2 + 2 * i)) == #[trigger] s[i] by {
        lem_ias_at(s, i); lemma_ia_lossless(0, s[i]);
        lem_sits_i(w, d, p, 2 + 2 * i); lem_sits_i(w, d, p, 3 + 2 * i);
        assert(w[2 + 2 * i] == ias_bytes(s)[2 * i] && w[3 + 2 * i] == ias_bytes(s)[2 * i + 1]);
        assert(p + (2 + 2 * i) == p + 2 + 2 * i && p + (3 + 2 * i) == p + 2 + 2 * i + 1);
    }
}
pub proof fn lemma_rt_man(y: ManufacturerDataDIB, d: Seq<u8>, p: int, len: u8)
    requires sits(man_bytes(y), d, p), len == 4 + y.manufacturer_specific_data@.len() || (len == 5 + y.manufacturer_specific_data@.len() && p + len - 2 <= d.len())
    ensures man_ok(d, p, len), forall|x: ManufacturerDataDIB| #[trigger] man_at(x, d, p, len) ==> x.knx_manufacturer_id == y.knx_manufacturer_id
        && x.manufacturer_specific_data@.len() >= y.manufacturer_specific_data@.len() && x.manufacturer_specific_data@.take(y.manufacturer_specific_data@.len() as int) =~= y.manufacturer_specific_data@
        && (x.manufacturer_specific_data@.len() > y.manufacturer_specific_data@.len() ==> x.manufacturer_specific_data@.len() == y.manufacturer_specific_data@.len() + 1 && x.manufacturer_specific_data@.last() == d[p + len - 3])
{
    let w = man_bytes(y);
    let s = y.manufacturer_specific_data@;
    lem_sits_i(w, d, p, 0); lem_sits_i(w, d, p, 1);
    lem_w16(y.knx_manufacturer_id);
    assert forall|i: int| 0 <= i < s.len() implies d[p + 2 + i] == #[trigger] s[i] by { lem_sits_i(w, d, p, 2 + i); assert(w[2 + i] == s[i]); assert(p + (2 + i) == p + 2 + i); }
}
pub open spec fn dib_wf(x: DIB) -> bool {
    dib_size(x) <= 255 && match x {
        DIB::DeviceInformation(y) => ia_wf(y.knx_individual_address) && y.knx_device_status.bits <= 1,
        DIB::KNXAddresses(y) => ia_wf(y.knx_individual_address) && forall|i: int| 0 <= i < y.additional_individual_addresses@.len() ==> ia_wf(#[trigger] y.additional_individual_addresses@[i]),
        _ => true,
    }
}
/// the same block, up to the zero octet that pads manufacturer data of odd length
pub open spec fn dib_same(x: DIB, y: DIB) -> bool {
    match (x, y) {
        (DIB::DeviceInformation(a), DIB::DeviceInformation(b)) => dev_same(a, b),
        (DIB::SupportedServiceFamilies(a), DIB::SupportedServiceFamilies(b)) => a.service_families@.len() == b.service_families@.len()
            && forall|i: int| 0 <= i < b.service_families@.len() ==> (#[trigger] a.service_families@[i]).service_family == b.service_families@[i].service_family && a.service_families@[i].version == b.service_families@[i].version,
        (DIB::IpConfig(a), DIB::IpConfig(b)) => a.ip_address.o@ =~= b.ip_address.o@ && a.subnet_mask.o@ =~= b.subnet_mask.o@ && a.default_gateway.o@ =~= b.default_gateway.o@
            && a.ip_capabilities == b.ip_capabilities && a.ip_assignment_method == b.ip_assignment_method,
        (DIB::IpCurrentConfig(a), DIB::IpCurrentConfig(b)) => a.current_ip_address.o@ =~= b.current_ip_address.o@ && a.current_subnet_mask.o@ =~= b.current_subnet_mask.o@
            && a.current_default_gateway.o@ =~= b.current_default_gateway.o@ && a.dhcp_server.o@ =~= b.dhcp_server.o@ && a.current_ip_assignment_method == b.current_ip_assignment_method && a.reserved == b.reserved,
        (DIB::KNXAddresses(a), DIB::KNXAddresses(b)) => a.knx_individual_address == b.knx_individual_address && a.additional_individual_addresses@ =~= b.additional_individual_addresses@,
        (DIB::ManufacturerData(a), DIB::ManufacturerData(b)) => a.knx_manufacturer_id == b.knx_manufacturer_id
            && (a.manufacturer_specific_data@ =~= b.manufacturer_specific_data@ || a.manufacturer_specific_data@ =~= b.manufacturer_specific_data@.push(0u8)),
        _ => false,
    }
}
pub proof fn lemma_rt_dib(y: DIB, d: Seq<u8>, p: int)
    requires sits(dib_bytes(y), d, p), dib_wf(y)
    ensures dib_ok(d, p), dib_len(d, p) == dib_bytes(y).len(), dtc_of(d[p + 1]) == dtc_of(dib_code(y)), d[p] == dib_bytes(y).len(), forall|x: DIB| #[trigger] dib_at(x, d, p) ==> dib_same(x, y)
{
    let w = dib_bytes(y);
    let b = dib_body(y);
    lem_sits_i(w, d, p, 0); lem_sits_i(w, d, p, 1);
    assert(w.subrange(2, 2 + b.len() as int) =~= b);
    assert(sits(b, d, p + 2)) by {
        assert forall|i: int| 0 <= i < b.len() implies d[p + 2 + i] == #[trigger] b[i] by { lem_sits_i(w, d, p, 2 + i); assert(w[2 + i] == b[i]); assert(p + (2 + i) == p + 2 + i); }
        assert(d.subrange(p + 2, p + 2 + b.len()) =~= b);
    }
    match y {
        DIB::DeviceInformation(z) => { lemma_rt_dev(z, d, p + 2, d[p]); }
        DIB::SupportedServiceFamilies(z) => { lem_fam_len(z.service_families@); lemma_rt_fam(z, d, p + 2, d[p]); }
        DIB::IpConfig(z) => { lemma_rt_ipc(z, d, p + 2, d[p]); }
        DIB::IpCurrentConfig(z) => { lemma_rt_ipcc(z, d, p + 2, d[p]); }
        DIB::KNXAddresses(z) => { lem_ias_len(z.additional_individual_addresses@); lemma_rt_kad(z, d, p + 2, d[p]); }
        DIB::ManufacturerData(z) => {
            lemma_rt_man(z, d, p + 2, d[p]);
            if b.len() % 2 != 0 { lem_sits_i(w, d, p, w.len() - 1); }
            assert forall|x: DIB| #[trigger] dib_at(x, d, p) implies dib_same(x, y) by {
                let a = x->ManufacturerData_0.manufacturer_specific_data@;
                let s = z.manufacturer_specific_data@;
                if a.len() > s.len() { assert(a =~= s.push(0u8)) by { assert(forall|i: int| 0 <= i < s.len() ==> a.take(s.len() as int)[i] == #[trigger] a[i]); } }
                else { assert(a.take(s.len() as int) =~= a); }
            }
        }
    }
}
pub proof fn lemma_rt_search_resp(y: SearchResponse)
    requires dib_wf(DIB::DeviceInformation(y.device_hardware)), dib_wf(DIB::SupportedServiceFamilies(y.supported_service_families))
    ensures ({ let d = search_resp_bytes(y); search_resp_ok(d, 0) && forall|x: SearchResponse| #[trigger] search_resp_at(x, d, 0) ==>
        hpai_eq(x.control_endpoint, y.control_endpoint) && dev_same(x.device_hardware, y.device_hardware)
        && dib_same(DIB::SupportedServiceFamilies(x.supported_service_families), DIB::SupportedServiceFamilies(y.supported_service_families)) })
{
    let (da, db) = (DIB::DeviceInformation(y.device_hardware), DIB::SupportedServiceFamilies(y.supported_service_families));
    let (a, b) = (dib_bytes(da), dib_bytes(db));
    let d = search_resp_bytes(y);
    assert(dib_body(da).len() == 52);
    lem_fam_len(y.supported_service_families.service_families@);
    assert(d.subrange(6, 14) =~= hpai_bytes(y.control_endpoint));
    assert(d.subrange(14, 68) =~= a);
    assert(d.subrange(68, 68 + b.len() as int) =~= b);
    lemma_rt_hpai(y.control_endpoint, d, 6);
    lemma_rt_dib(da, d, 14);
    lemma_rt_dib(db, d, 68);
    assert forall|x: SearchResponse| #[trigger] search_resp_at(x, d, 0) implies
        hpai_eq(x.control_endpoint, y.control_endpoint) && dev_same(x.device_hardware, y.device_hardware)
        && dib_same(DIB::SupportedServiceFamilies(x.supported_service_families), DIB::SupportedServiceFamilies(y.supported_service_families)) by {
        assert(dib_at(DIB::DeviceInformation(x.device_hardware), d, 14));
        assert(dib_at(DIB::SupportedServiceFamilies(x.supported_service_families), d, 68));
    }
}
// ---- a written value comes back: the gateway echoes the request's service information as an indication or confirmation
pub proof fn lemma_rt_write(a: KnxAddress, value: Seq<u8>, small: bool)
    requires small || (1 <= value.len() <= 253)
    ensures ({ let w = write_telegram(a, value, small); let s = w.subrange(2, w.len() as int);
        cemi_ok(w, 0) && w[1] == 0 && lind_ok(s) && at2(s, 4) == knx_u16(a) && lind_apci(s) == 2
        && lind_value(s) =~= (if small { seq![first_or_0(value) & 0x3fu8] } else { value }) })
{
    let w = write_telegram(a, value, small);
    let s = w.subrange(2, w.len() as int);
    let apdu = group_write_apdu(value, small);
    assert(s.subrange(7, s.len() as int) =~= apdu);
    assert(s[6] == (apdu.len() - 1) as u8);
    lem_w16(knx_u16(a));
    let v = first_or_0(value);
    assert(((0x80u8 | (v & 0x3fu8)) & 0x3fu8) == (v & 0x3fu8)) by (bit_vector);
    let l = s[8];
    assert(s[7] == 0);
    assert(at2(s, 7) == l as u16);
    assert(l == 0x80u8 | (v & 0x3fu8) ==> (((l as u16) & 0x03c0u16) >> 6u16) == 2) by (bit_vector);
    assert(l == 0x80u8 ==> (((l as u16) & 0x03c0u16) >> 6u16) == 2) by (bit_vector);
    if !small { assert(s.subrange(9, 9 + lind_extra(s)) =~= value); }
}
pub proof fn lemma_rt_read(a: KnxAddress)
    ensures ({ let w = read_telegram(a); let s = w.subrange(2, w.len() as int);
        cemi_ok(w, 0) && w[1] == 0 && lind_ok(s) && at2(s, 4) == knx_u16(a) && lind_apci(s) == 0 })
{
    let w = read_telegram(a);
    let s = w.subrange(2, w.len() as int);
    lem_w16(knx_u16(a));
    assert(s[7] == 0 && s[8] == 0);
    assert((0u16 & 0x03c0u16) >> 6u16 == 0) by (bit_vector);
}
