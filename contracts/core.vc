=== fn packets::core::KnxNetIpHeader::packet | C04 C07 C11
ensures r@ =~= hdr_bytes(self.service_type_identifier, self.total_length as int)
=== fn packets::core::KnxNetIpHeader::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> (old($1).at() + 6 <= old($1).data().len() && old($1).data()[old($1).at()] == 6 && old($1).data()[old($1).at() + 1] == 0x10),
    r is Ok ==> r->Ok_0.service_type_identifier == at2(old($1).data(), old($1).at() + 2) && r->Ok_0.total_length == at2(old($1).data(), old($1).at() + 4) && final($1).at() == old($1).at() + 6,
=== fn packets::core::CRI::tunnel_linklayer | C04
ensures r.connection_type == 0x02u8
=== fn packets::core::CRI::tunnel_raw | C04
ensures r.connection_type == 0x04u8
=== fn packets::core::CRI::tunnel_busmonitor | C04
ensures r.connection_type == 0x80u8
=== fn packets::core::CRI::packet | C04
ensures r@ =~= cri_bytes(*self)
=== fn packets::core::CRD::from_packet | C05 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> crd_ok(old($1).data(), old($1).at()),
    r is Ok ==> crd_at(r->Ok_0, old($1).data(), old($1).at()) && final($1).at() == old($1).at() + 4,
=== fn packets::core::CRD::packet | C04 C11
ensures r@ =~= crd_bytes(*self)
=== fn packets::core::ConnectionRequest::tunnel | C04
ensures hpai_udp(r.control_endpoint), hpai_udp(r.data_endpoint), r.cri.connection_type == 0x02u8
=== fn packets::core::ConnectionRequest::busmonitor | C04
ensures hpai_udp(r.control_endpoint), hpai_udp(r.data_endpoint), r.cri.connection_type == 0x80u8
=== fn packets::core::ConnectionRequest::packet | C04
ensures r@ =~= conn_req_bytes(*self)
=== fn packets::core::ConnectionResponse::get_communication_channel_id | C05
ensures r == self.communication_channel_id
=== fn packets::core::ConnectionResponse::get_data_endpoint | C05
ensures r == self.data_endpoint
=== fn packets::core::ConnectionResponse::get_status | C05
ensures r == self.status
=== fn packets::core::ConnectionResponse::from_packet | C05 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> conn_resp_ok(old($1).data(), old($1).at()),
    r is Ok ==> conn_resp_at(r->Ok_0, old($1).data(), old($1).at()) && final($1).at() == old($1).at() + 20,
=== fn packets::core::ConnectionResponse::packet | C04 C11
ensures r@ =~= conn_resp_bytes(*self)
=== fn packets::core::ConnectionstateRequest::new | C04
ensures r.communication_channel_id == $1, r.control_endpoint == $2
=== fn packets::core::ConnectionstateRequest::from_connection_response | C04
ensures r.communication_channel_id == $1.communication_channel_id, r.control_endpoint == $1.data_endpoint
=== fn packets::core::ConnectionstateRequest::from_packet | C05 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> chan_hpai_ok(0x0207, old($1).data(), old($1).at()),
    r is Ok ==> r->Ok_0.communication_channel_id == old($1).data()[old($1).at() + 6] && hpai_at(r->Ok_0.control_endpoint, old($1).data(), old($1).at() + 8) && final($1).at() == old($1).at() + 16,
=== fn packets::core::ConnectionstateRequest::packet | C04 C11
ensures r@ =~= chan_hpai_bytes(0x0207, self.communication_channel_id, self.control_endpoint)
=== fn packets::core::DisconnectRequest::new | C04
ensures r.communication_channel_id == $1, r.control_endpoint == $2
=== fn packets::core::DisconnectRequest::from_connection_response | C04
ensures r.communication_channel_id == $1.communication_channel_id, r.control_endpoint == $1.data_endpoint
=== fn packets::core::DisconnectRequest::from_packet | C05 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> chan_hpai_ok(0x0209, old($1).data(), old($1).at()),
    r is Ok ==> r->Ok_0.communication_channel_id == old($1).data()[old($1).at() + 6] && hpai_at(r->Ok_0.control_endpoint, old($1).data(), old($1).at() + 8) && final($1).at() == old($1).at() + 16,
=== fn packets::core::DisconnectRequest::packet | C04 C11
ensures r@ =~= chan_hpai_bytes(0x0209, self.communication_channel_id, self.control_endpoint)
=== fn packets::core::ConnectionstateResponse::from_packet | C05 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> chan_status_ok(0x0208, old($1).data(), old($1).at()),
    r is Ok ==> r->Ok_0.communication_channel_id == old($1).data()[old($1).at() + 6] && r->Ok_0.status == old($1).data()[old($1).at() + 7] && final($1).at() == old($1).at() + 8,
=== fn packets::core::ConnectionstateResponse::packet | C04 C11
ensures r@ =~= chan_status_bytes(0x0208, self.communication_channel_id, self.status)
=== fn packets::core::DisconnectResponse::from_packet | C05 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> chan_status_ok(0x020a, old($1).data(), old($1).at()),
    r is Ok ==> r->Ok_0.communication_channel_id == old($1).data()[old($1).at() + 6] && r->Ok_0.status == old($1).data()[old($1).at() + 7] && final($1).at() == old($1).at() + 8,
=== fn packets::core::DisconnectResponse::packet | C04 C11
ensures r@ =~= chan_status_bytes(0x020a, self.communication_channel_id, self.status)
=== fn packets::core::DisconnectResponse::from_disconnect_request | C04
ensures r.communication_channel_id == $1.communication_channel_id, r.status == 0
=== fn packets::core::SearchRequest::udp | C07
ensures r.discovery_endpoint.host_protocol_code == 1, r.discovery_endpoint.address.port == 3671, r.discovery_endpoint.address.ip.o@ =~= seq![224u8, 0, 23, 12]
=== fn packets::core::SearchRequest::udp_unicast | C07
ensures r.discovery_endpoint.host_protocol_code == 1, r.discovery_endpoint.address == $1
=== fn packets::core::SearchRequest::packet | C07 C11
ensures r@ =~= search_req_bytes(*self)
=== fn packets::core::SearchRequest::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> (hdr(old($1).data(), old($1).at(), 0x0201) && hpai_ok(old($1).data(), old($1).at() + 6)),
    r is Ok ==> hpai_at(r->Ok_0.discovery_endpoint, old($1).data(), old($1).at() + 6) && final($1).at() == old($1).at() + 14,
=== fn packets::core::SearchResponse::packet | C07 C11
requires self.supported_service_families.service_families@.len() <= 126
ensures r@ =~= search_resp_bytes(*self)
=== fn packets::core::SearchResponse::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> search_resp_ok(old($1).data(), old($1).at()),
    r is Ok ==> search_resp_at(r->Ok_0, old($1).data(), old($1).at()),
=== fn packets::core::HPAI::udp | C04 C07
ensures hpai_udp(r)
=== fn packets::core::HPAI::tcp | C04
ensures r.host_protocol_code == 2, r.address.ip.o@ =~= seq![0u8, 0, 0, 0], r.address.port == 0
=== fn packets::core::HPAI::set_addr | C07
ensures final(self).address == $1, final(self).host_protocol_code == old(self).host_protocol_code
=== fn packets::core::HPAI::packet | C04 C07 C11
ensures r@ =~= hpai_bytes(*self)
=== fn packets::core::HPAI::from_packet | C05 C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> hpai_ok(old($1).data(), old($1).at()),
    r is Ok ==> hpai_at(r->Ok_0, old($1).data(), old($1).at()) && final($1).at() == old($1).at() + 8,
=== fn packets::core::DescriptionTypeCode::try_from | C07 C03
=== fn packets::core::KnxMedium::try_from | C07 C03
=== const packets::core::SYSTEM_MULTICAST_ADDRESS
ensures SYSTEM_MULTICAST_ADDRESS.o@ =~= seq![224u8, 0, 23, 12]
=== items packets::core
impl TryFromSpecImpl<u8> for KnxMedium {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, Whatever> { if medium_ok(v) { Ok(medium_of(v)) } else { Err(Whatever) } }
}
impl TryFromSpecImpl<u8> for DescriptionTypeCode {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, Whatever> { if dtc_ok(v) { Ok(dtc_of(v)) } else { Err(Whatever) } }
}
=== fn packets::core::DIB::structure_length | C07
ensures r == (match *self { DIB::DeviceInformation(y) => y.structure_length, DIB::SupportedServiceFamilies(y) => y.structure_length, DIB::IpConfig(y) => y.structure_length,
    DIB::IpCurrentConfig(y) => y.structure_length, DIB::KNXAddresses(y) => y.structure_length, DIB::ManufacturerData(y) => y.structure_length })
=== fn packets::core::DIB::packet | C07 C11
requires dib_size(*self) <= 255
ensures r@ =~= dib_bytes(*self)
=== fn packets::core::DIB::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> dib_ok(old($1).data(), old($1).at()),
    r is Ok ==> dib_at(r->Ok_0, old($1).data(), old($1).at()) && final($1).at() == old($1).at() + dib_len(old($1).data(), old($1).at()),
=== fn packets::core::DeviceInformationDIB::new | C07 external
=== fn packets::core::DeviceInformationDIB::friendly_name | C07 external
=== fn packets::core::DeviceInformationDIB::packet | C07 C11
ensures r@ =~= dev_bytes(*self)
=== fn packets::core::DeviceInformationDIB::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> dev_ok(old($1).data(), old($1).at()),
    r is Ok ==> dev_at(r->Ok_0, old($1).data(), old($1).at(), $2) && final($1).at() == old($1).at() + 52,
=== fn packets::core::SupportedServiceFamiliesDIB::packet | C07 C11
ensures r@ =~= fam_bytes(self.service_families@)
--- loop 0 it
invariant packet@ =~= fam_bytes(self.service_families@.take(it.index@ as int)),
=== fn packets::core::SupportedServiceFamiliesDIB::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> fam_ok(old($1).data(), old($1).at(), $2),
    r is Ok ==> fam_at(r->Ok_0, old($1).data(), old($1).at(), $2) && final($1).at() == old($1).at() + 2 * pairs($2, 2),
--- loop 0 it
invariant $1.inner == old($1).inner, $1.at() == old($1).at() + 2 * it.index@, service_families@.len() == it.index@, it.index@ <= pairs($2, 2),
    it.index@ > 0 ==> $1.at() <= old($1).data().len(),
    forall|i: int| 0 <= i < it.index@ ==> fam_elem(#[trigger] service_families@[i], old($1).data(), old($1).at() + 2 * i),
=== fn packets::core::IpConfigDIB::packet | C07 C11
ensures r@ =~= ipc_bytes(*self)
=== fn packets::core::IpConfigDIB::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> ipc_ok(old($1).data(), old($1).at()),
    r is Ok ==> ipc_at(r->Ok_0, old($1).data(), old($1).at(), $2) && final($1).at() == old($1).at() + 14,
=== fn packets::core::IpCurrentConfigDIB::packet | C07 C11
ensures r@ =~= ipcc_bytes(*self)
=== fn packets::core::IpCurrentConfigDIB::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> ipcc_ok(old($1).data(), old($1).at()),
    r is Ok ==> ipcc_at(r->Ok_0, old($1).data(), old($1).at(), $2) && final($1).at() == old($1).at() + 18,
=== fn packets::core::KNXAddressesDIB::packet | C07 C11
ensures r@ =~= kad_bytes(*self)
--- loop 0 it
invariant packet@ =~= be16(ia_u16(self.knx_individual_address)) + ias_bytes(self.additional_individual_addresses@.take(it.index@ as int)),
=== fn packets::core::KNXAddressesDIB::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> kad_ok(old($1).data(), old($1).at(), $2),
    r is Ok ==> kad_at(r->Ok_0, old($1).data(), old($1).at(), $2) && final($1).at() == old($1).at() + 2 + 2 * pairs($2, 4),
--- loop 0 it
invariant $1.inner == old($1).inner, $1.at() == old($1).at() + 2 + 2 * it.index@, additional_individual_addresses@.len() == it.index@, it.index@ <= pairs($2, 4),
    $1.at() <= old($1).data().len(),
    forall|i: int| 0 <= i < it.index@ ==> (#[trigger] additional_individual_addresses@[i]) == ia_of(at2(old($1).data(), old($1).at() + 2 + 2 * i)),
=== fn packets::core::ManufacturerDataDIB::packet | C07 C11
ensures r@ =~= man_bytes(*self)
=== fn packets::core::ManufacturerDataDIB::from_packet | C07 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> man_ok(old($1).data(), old($1).at(), $2),
    r is Ok ==> man_at(r->Ok_0, old($1).data(), old($1).at(), $2) && final($1).at() == old($1).at() + $2 - 2,
