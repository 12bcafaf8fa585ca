=== fn packets::addresses::KnxAddress::individual | C01 C02 C08
ensures r == KnxAddress::Individual(IndividualAddress { area: $1, line: $2, address: $3 })
=== fn packets::addresses::KnxAddress::group_1_level | C01 C02 C08
ensures r == KnxAddress::Group1Level(Group1LevelAddress { main: $1 })
=== fn packets::addresses::KnxAddress::group_2_level | C01 C02 C08
ensures r == KnxAddress::Group2Level(Group2LevelAddress { main: $1, sub: $2 })
=== fn packets::addresses::KnxAddress::group_3_level | C01 C02 C08
ensures r == KnxAddress::Group3Level(Group3LevelAddress { main: $1, middle: $2, sub: $3 })
=== fn packets::addresses::KnxAddress::to_u16 | C01 C08
ensures r == knx_u16(*self)
=== fn packets::addresses::KnxAddress::try_from | C02
=== fn packets::addresses::IndividualAddress::to_u16 | C01 C08 C04 C07
ensures r == ia_u16(*self)
--- begin
assert(forall|x: u16| #[trigger] (0u16 | x) == x) by (bit_vector);
=== fn packets::addresses::IndividualAddress::from_u16 | C01 C05 C07
ensures r == ia_of($1)
--- begin
let ghost v0: u16 = $1;
assert(((0xf000u16 & v0) >> 12u16) == v0 / 4096 && ((0x0f00u16 & v0) >> 8u16) == (v0 / 256) % 16 && (0x00ffu16 & v0) == v0 % 256) by (bit_vector);
=== fn packets::addresses::IndividualAddress::try_from | C02
=== fn packets::addresses::Group3LevelAddress::try_from | C02
=== fn packets::addresses::Group3LevelAddress::from_u16 | C01
ensures r == g3_of($1)
--- begin
let ghost v0: u16 = $1;
assert((0b11111u16 << 11u16) == 0xf800u16 && (0b111u16 << 8u16) == 0x0700u16) by (bit_vector);
assert(((v0 & 0xf800u16) >> 11u16) == v0 / 2048 && ((v0 & 0x0700u16) >> 8u16) == (v0 / 256) % 8 && (v0 & 0b11111111u16) == v0 % 256) by (bit_vector);
=== fn packets::addresses::Group3LevelAddress::to_u16 | C01 C08
ensures r == g3_u16(*self)
--- begin
assert(forall|x: u16| #[trigger] (0u16 | x) == x) by (bit_vector);
=== fn packets::addresses::Group2LevelAddress::to_u16 | C01 C08
ensures r == g2_u16(*self)
--- begin
assert(forall|x: u16| #[trigger] (0u16 | x) == x) by (bit_vector);
=== fn packets::addresses::Group1LevelAddress::to_u16 | C01 C08
ensures r == self.main
=== items packets::addresses
impl TryFromSpecImpl<&str> for IndividualAddress {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: &str) -> Result<Self, Whatever> { if ia_text_ok(v@) { Ok(ia_text(v@)) } else { Err(Whatever) } }
}
impl TryFromSpecImpl<&str> for Group3LevelAddress {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: &str) -> Result<Self, Whatever> { if g3_text_ok(v@) { Ok(g3_text(v@)) } else { Err(Whatever) } }
}
impl TryFromSpecImpl<&str> for KnxAddress {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: &str) -> Result<Self, Whatever> { match knx_text(v@) { Some(a) => Ok(a), None => Err(Whatever) } }
}
