=== inject dp_types::Pdt
spec fn sp_val(&self) -> T;
spec fn sp_bytes(&self) -> Seq<u8>;
spec fn sp_small(&self) -> bool;
=== fn dp_types::Pdt::get_value | C12
ensures r == self.sp_val()
=== fn dp_types::Pdt::get_bytes | C12 C08
ensures r@ =~= self.sp_bytes()
=== fn dp_types::Pdt::is_small | C12 C08
ensures r == self.sp_small()
=== inject dp_types::PdtKnxScaledValue as Pdt
open spec fn sp_val(&self) -> u8 { self.value }
open spec fn sp_bytes(&self) -> Seq<u8> { seq![self.value] }
open spec fn sp_small(&self) -> bool { false }
=== fn dp_types::PdtKnxScaledValue::get_value | C12 C08
=== fn dp_types::PdtKnxScaledValue::get_bytes | C12 C08
=== fn dp_types::PdtKnxScaledValue::is_small | C12 C08
=== fn dp_types::PdtKnxScaledValue::general | C12
ensures r.value == $1, r.code@ == "5.x"@
=== fn dp_types::PdtKnxScaledValue::from_bytes | C12 C03
ensures r is Ok <==> $1@.len() >= 1, r is Ok ==> r->Ok_0.value == $1@[0] && r->Ok_0.code@ == "5.001"@
=== inject dp_types::PdtKnxInt as Pdt
open spec fn sp_val(&self) -> i16 { self.value }
open spec fn sp_bytes(&self) -> Seq<u8> { be16(self.value as u16) }
open spec fn sp_small(&self) -> bool { false }
=== fn dp_types::PdtKnxInt::get_value | C12 C08
=== fn dp_types::PdtKnxInt::get_bytes | C12 C08
=== fn dp_types::PdtKnxInt::is_small | C12 C08
=== fn dp_types::PdtKnxInt::general | C12
ensures r.value == $1, r.code@ == "8.x"@
=== fn dp_types::PdtKnxInt::from_bytes | C12 C03
ensures r is Ok <==> $1@.len() >= 2, r is Ok ==> r->Ok_0.value == w16($1@[0], $1@[1]) as i16 && r->Ok_0.code@ == "8.x"@
=== fn dp_types::PdtKnxInt::value_2_count | C12
ensures r.value == $1, r.code@ == "8.001"@
=== fn dp_types::PdtKnxInt::percent_v16 | C14
ensures r.value == clamp_i16($1 * 100), r.code@ == "8.010"@
=== inject dp_types::PdtKnxByte as Pdt
open spec fn sp_val(&self) -> u8 { self.value }
open spec fn sp_bytes(&self) -> Seq<u8> { seq![self.value] }
open spec fn sp_small(&self) -> bool { false }
=== fn dp_types::PdtKnxByte::get_value | C12 C08
=== fn dp_types::PdtKnxByte::get_bytes | C12 C08
=== fn dp_types::PdtKnxByte::is_small | C12 C08
=== fn dp_types::PdtKnxByte::general | C12
ensures r.value == $1, r.code@ == "20.x"@
=== fn dp_types::PdtKnxByte::from_bytes | C12 C03
ensures r is Ok <==> $1@.len() >= 1, r is Ok ==> r->Ok_0.value == $1@[0] && r->Ok_0.code@ == "20.x"@
=== inject dp_types::PdtKnxWord as Pdt
open spec fn sp_val(&self) -> u16 { self.value }
open spec fn sp_bytes(&self) -> Seq<u8> { be16(self.value) }
open spec fn sp_small(&self) -> bool { false }
=== fn dp_types::PdtKnxWord::get_value | C12 C08
=== fn dp_types::PdtKnxWord::get_bytes | C12 C08
=== fn dp_types::PdtKnxWord::is_small | C12 C08
=== fn dp_types::PdtKnxWord::general | C12
ensures r.value == $1, r.code@ == "7.x"@
=== fn dp_types::PdtKnxWord::from_bytes | C12 C03
ensures r is Ok <==> $1@.len() >= 2, r is Ok ==> r->Ok_0.value == w16($1@[0], $1@[1]) && r->Ok_0.code@ == "7.x"@
=== inject dp_types::PdtKnxULong as Pdt
open spec fn sp_val(&self) -> u32 { self.value }
open spec fn sp_bytes(&self) -> Seq<u8> { be32(self.value) }
open spec fn sp_small(&self) -> bool { false }
=== fn dp_types::PdtKnxULong::get_value | C12 C08
=== fn dp_types::PdtKnxULong::get_bytes | C12 C08
=== fn dp_types::PdtKnxULong::is_small | C12 C08
=== fn dp_types::PdtKnxULong::general | C12
ensures r.value == $1, r.code@ == "12.x"@
=== fn dp_types::PdtKnxULong::from_bytes | C12 C03
ensures r is Ok <==> $1@.len() >= 4, r is Ok ==> r->Ok_0.value == w32($1@[0], $1@[1], $1@[2], $1@[3]) && r->Ok_0.code@ == "12.x"@
=== inject dp_types::PdtKnxBit as Pdt
open spec fn sp_val(&self) -> bool { self.value }
open spec fn sp_bytes(&self) -> Seq<u8> { seq![if self.value { 1u8 } else { 0u8 }] }
open spec fn sp_small(&self) -> bool { true }
=== fn dp_types::PdtKnxBit::get_value | C12 C08
=== fn dp_types::PdtKnxBit::get_bytes | C12 C08
=== fn dp_types::PdtKnxBit::is_small | C12 C08
=== fn dp_types::PdtKnxBit::general | C12
ensures r.value == $1, r.code@ == "1.x"@
=== fn dp_types::PdtKnxBit::from_bytes | C12 C03
ensures r is Ok <==> $1@.len() >= 1, r is Ok ==> r->Ok_0.value == ($1@[0] > 0) && r->Ok_0.code@ == "1.x"@
=== fn dp_types::PdtKnxBit::switch | C12
ensures r.value == $1, r.code@ == "1.001"@
=== inject dp_types::PdtKnxB1U3 as Pdt
open spec fn sp_val(&self) -> u8 { (if self.bit { 8u8 } else { 0u8 }) | self.step }
open spec fn sp_bytes(&self) -> Seq<u8> { seq![self.sp_val()] }
open spec fn sp_small(&self) -> bool { true }
=== fn dp_types::PdtKnxB1U3::get_value | C12 C08
=== fn dp_types::PdtKnxB1U3::get_bytes | C12 C08
=== fn dp_types::PdtKnxB1U3::is_small | C12 C08
=== fn dp_types::PdtKnxB1U3::general | C12
ensures r.code@ == "3.x"@, r.bit == (($1 & 8u8) > 0), r.step == ($1 & 7u8)
--- begin
proof { assert(0b111u8 == 7u8); }
=== fn dp_types::PdtKnxB1U3::from_bytes | C12 C03
ensures r is Ok <==> $1@.len() >= 1, r is Ok ==> r->Ok_0.code@ == "3.x"@ && r->Ok_0.bit == (($1@[0] & 8u8) > 0) && r->Ok_0.step == ($1@[0] & 7u8)
=== fn dp_types::PdtKnxB1U3::dimming | C12
ensures r.code@ == "3.007"@, r.bit == $1, r.step == ($2 & 7u8)
=== fn dp_types::PdtKnxB1U3::blinds | C12
ensures r.code@ == "3.008"@, r.bit == $1, r.step == ($2 & 7u8)
=== inject dp_types::PdtKnxFloat as Pdt
open spec fn sp_val(&self) -> f32 { self.value }
uninterp spec fn sp_bytes(&self) -> Seq<u8>;
open spec fn sp_small(&self) -> bool { false }
=== fn dp_types::PdtKnxFloat::is_small | C12 C08
=== fn dp_types::PdtKnxFloat::get_bytes | C13 external
=== fn dp_types::PdtKnxFloat::get_value | C13 external
