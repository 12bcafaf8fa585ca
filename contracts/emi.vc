=== fn packets::emi::LDataCon::from_cemi | C09 C03
ensures r is Ok <==> lcon_ok($1.service_info@),
    r is Ok ==> r->Ok_0.cemi == $1 && ldata_at(r->Ok_0.l_data, $1.service_info@) && r->Ok_0.confirm == lcon_confirm($1.service_info@),
--- begin
assert((1u8 << 5u8) == 0x20u8 && (1u8 << 4u8) == 0x10u8 && (1u8 << 1u8) == 0x02u8) by (bit_vector);
=== fn packets::emi::LDataInd::from_cemi | C09 C03
ensures r is Ok <==> lind_ok($1.service_info@),
    r is Ok ==> r->Ok_0.cemi == $1 && ldata_at(r->Ok_0.l_data, $1.service_info@) && r->Ok_0.apci == lind_apci($1.service_info@)
        && r->Ok_0.value@ =~= lind_value($1.service_info@),
--- begin
assert((1u8 << 5u8) == 0x20u8 && (1u8 << 4u8) == 0x10u8 && (1u8 << 1u8) == 0x02u8) by (bit_vector);
=== fn packets::emi::LDataReqMessage::new | C08
ensures r.priority == 3, r.dest_address == $1, r.tpdu == $2
=== fn packets::emi::LDataReqMessage::set_priority | C08
ensures final(self).priority == $1, final(self).dest_address == old(self).dest_address, final(self).tpdu == old(self).tpdu
=== fn packets::emi::LDataReqMessage::packet | C08
ensures group_data(self.tpdu) ==> r@ =~= ldata_req_bytes(*self)
--- begin
assert((0u8 | (1u8 << 7u8)) == 0x80u8 && (0x80u8 | (1u8 << 5u8)) == 0xa0u8 && (0xa0u8 | (1u8 << 4u8)) == 0xb0u8) by (bit_vector);
=== fn packets::emi::CEMI::from_packet | C09 C03
ensures final($1).inner == old($1).inner,
    r is Ok <==> cemi_ok(old($1).data(), old($1).at()),
    r is Ok ==> cemi_at(r->Ok_0, old($1).data(), old($1).at()),
--- loop 0
invariant $1.inner == old($1).inner, old($1).at() + 2 <= old($1).data().len(), msg_code == old($1).data()[old($1).at()], additional_infos_size == old($1).data()[old($1).at() + 1],
    old($1).at() + 2 <= $1.at() <= old($1).data().len(), position <= 255 + 257, $1.at() == old($1).at() + 2 + position,
    cemi_ok(old($1).data(), old($1).at()) <==> ai_ok(old($1).data(), $1.at(), additional_infos_size - position),
    ai_end(old($1).data(), old($1).at() + 2, additional_infos_size as int) == ai_end(old($1).data(), $1.at(), additional_infos_size - position),
    ai_list(old($1).data(), old($1).at() + 2, additional_infos_size as int) =~= ai_view(additional_infos@) + ai_list(old($1).data(), $1.at(), additional_infos_size - position),
=== fn packets::emi::CEMIAdditionalInfoType::try_from | C09 C03
=== items packets::emi
impl TryFromSpecImpl<u8> for CEMIAdditionalInfoType {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, ()> { if ai_type_ok(v) { Ok(ai_of(v)) } else { Err(()) } }
}
