=== fn packets::apdu::APDU::new | C08
ensures r.apci == $1, r.data == $2
=== fn packets::apdu::APDU::group_value_read | C08
ensures apdu_bytes(r) =~= seq![0u8, 0u8]
--- begin
assert((0u8 & 0x0cu8) >> 2u8 == 0u8 && ((0u8 & 0x03u8) << 6u8) == 0u8 && (0u8 & 0x3fu8) == 0u8 && (0u8 | 0u8) == 0u8) by (bit_vector);
=== fn packets::apdu::APDU::group_value_write | C08
ensures apdu_bytes(r) =~= group_write_apdu($1@, $2)
--- begin
assert((2u8 & 0x0cu8) >> 2u8 == 0u8 && ((2u8 & 0x03u8) << 6u8) == 0x80u8 && (0x80u8 | 0u8) == 0x80u8) by (bit_vector);
=== fn packets::apdu::APDU::group_value_write_pd | C08
ensures apdu_bytes(r) =~= group_write_apdu($1.sp_bytes(), $1.sp_small())
--- begin
assert((2u8 & 0x0cu8) >> 2u8 == 0u8 && ((2u8 & 0x03u8) << 6u8) == 0x80u8 && (0x80u8 | 0u8) == 0x80u8) by (bit_vector);
=== fn packets::apdu::APDU::packet | C08
ensures r@ =~= apdu_bytes(*self)
=== fn packets::apdu::APCI::a_group_value_read | C08
ensures r.code == 0, r.extended_code == Some(0u8)
=== fn packets::apdu::APCI::a_group_value_write | C08
ensures r.code == 2, r.extended_code == None::<u8>
=== fn packets::apdu::APCI::packet | C08
ensures r@ =~= apci_bytes(*self)
--- begin
assert(forall|x: u8| #[trigger] (x | 0u8) == x) by (bit_vector);
=== fn packets::tpdu::TPDU::t_data_broadcast | C08
ensures r.apdu == $1
=== fn packets::tpdu::TPDU::t_data_group | C08
ensures r.apdu == $1, r.address_type is Group, r.kind is Data, !r.numbered, r.sequence_number == 0
=== fn packets::tpdu::TPDU::t_data_tag_group | C08
ensures r.apdu == $1
=== fn packets::tpdu::TPDU::t_data_individual | C08
ensures r.apdu == $1
=== fn packets::tpdu::TPDU::t_data_connected | C08
ensures r.apdu == $1
=== fn packets::tpdu::TPDU::t_connect | C08
ensures r.apdu == $1
=== fn packets::tpdu::TPDU::t_disconnect | C08
ensures r.apdu == $1
=== fn packets::tpdu::TPDU::packet | C08
ensures r@.len() >= 1, group_data(*self) ==> r@ =~= apdu_bytes(self.apdu)
