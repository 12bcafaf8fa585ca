// ---- bit operations told bit by bit (second proof strategy, see DESIGN.md); generated by tools/genbits.py ----
pub mod vbits {
#![allow(unused_imports)]
use vstd::prelude::*;
verus! {
/// bit i of a number below 65536; opaque outside this module: the lemmas below say all that is needed
pub closed spec fn bit(v: int, i: int) -> bool { ((v as u16) >> (i as u16)) & 1u16 == 1 }
pub open spec fn dec8(v: int) -> bool { v == (if bit(v, 0) { 1int } else { 0 }) + (if bit(v, 1) { 2int } else { 0 }) + (if bit(v, 2) { 4int } else { 0 }) + (if bit(v, 3) { 8int } else { 0 }) + (if bit(v, 4) { 16int } else { 0 }) + (if bit(v, 5) { 32int } else { 0 }) + (if bit(v, 6) { 64int } else { 0 }) + (if bit(v, 7) { 128int } else { 0 }) }
pub open spec fn dec16(v: int) -> bool { v == (if bit(v, 0) { 1int } else { 0 }) + (if bit(v, 1) { 2int } else { 0 }) + (if bit(v, 2) { 4int } else { 0 }) + (if bit(v, 3) { 8int } else { 0 }) + (if bit(v, 4) { 16int } else { 0 }) + (if bit(v, 5) { 32int } else { 0 }) + (if bit(v, 6) { 64int } else { 0 }) + (if bit(v, 7) { 128int } else { 0 }) + (if bit(v, 8) { 256int } else { 0 }) + (if bit(v, 9) { 512int } else { 0 }) + (if bit(v, 10) { 1024int } else { 0 }) + (if bit(v, 11) { 2048int } else { 0 }) + (if bit(v, 12) { 4096int } else { 0 }) + (if bit(v, 13) { 8192int } else { 0 }) + (if bit(v, 14) { 16384int } else { 0 }) + (if bit(v, 15) { 32768int } else { 0 }) }
pub proof fn lem_dec8(x: u8) ensures dec8(x as int)
{
    let y = x as u16;
    assert(y < 256 ==> y == add(add(add(add(add(add(add((y & 1u16), mul((y >> 1u16) & 1u16, 2u16)), mul((y >> 2u16) & 1u16, 4u16)), mul((y >> 3u16) & 1u16, 8u16)), mul((y >> 4u16) & 1u16, 16u16)), mul((y >> 5u16) & 1u16, 32u16)), mul((y >> 6u16) & 1u16, 64u16)), mul((y >> 7u16) & 1u16, 128u16))) by (bit_vector);
    assert((y >> 0u16) & 1u16 == 0 || (y >> 0u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 0) == ((y >> 0u16) & 1u16 == 1));
    assert((y >> 1u16) & 1u16 == 0 || (y >> 1u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 1) == ((y >> 1u16) & 1u16 == 1));
    assert((y >> 2u16) & 1u16 == 0 || (y >> 2u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 2) == ((y >> 2u16) & 1u16 == 1));
    assert((y >> 3u16) & 1u16 == 0 || (y >> 3u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 3) == ((y >> 3u16) & 1u16 == 1));
    assert((y >> 4u16) & 1u16 == 0 || (y >> 4u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 4) == ((y >> 4u16) & 1u16 == 1));
    assert((y >> 5u16) & 1u16 == 0 || (y >> 5u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 5) == ((y >> 5u16) & 1u16 == 1));
    assert((y >> 6u16) & 1u16 == 0 || (y >> 6u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 6) == ((y >> 6u16) & 1u16 == 1));
    assert((y >> 7u16) & 1u16 == 0 || (y >> 7u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 7) == ((y >> 7u16) & 1u16 == 1));
    assert(y >> 0u16 == y) by (bit_vector);
}
pub proof fn lem_dec16(x: u16) ensures dec16(x as int)
{
    let y = x as u16;
    assert(y == add(add(add(add(add(add(add(add(add(add(add(add(add(add(add((y & 1u16), mul((y >> 1u16) & 1u16, 2u16)), mul((y >> 2u16) & 1u16, 4u16)), mul((y >> 3u16) & 1u16, 8u16)), mul((y >> 4u16) & 1u16, 16u16)), mul((y >> 5u16) & 1u16, 32u16)), mul((y >> 6u16) & 1u16, 64u16)), mul((y >> 7u16) & 1u16, 128u16)), mul((y >> 8u16) & 1u16, 256u16)), mul((y >> 9u16) & 1u16, 512u16)), mul((y >> 10u16) & 1u16, 1024u16)), mul((y >> 11u16) & 1u16, 2048u16)), mul((y >> 12u16) & 1u16, 4096u16)), mul((y >> 13u16) & 1u16, 8192u16)), mul((y >> 14u16) & 1u16, 16384u16)), mul((y >> 15u16) & 1u16, 32768u16))) by (bit_vector);
    assert((y >> 0u16) & 1u16 == 0 || (y >> 0u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 0) == ((y >> 0u16) & 1u16 == 1));
    assert((y >> 1u16) & 1u16 == 0 || (y >> 1u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 1) == ((y >> 1u16) & 1u16 == 1));
    assert((y >> 2u16) & 1u16 == 0 || (y >> 2u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 2) == ((y >> 2u16) & 1u16 == 1));
    assert((y >> 3u16) & 1u16 == 0 || (y >> 3u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 3) == ((y >> 3u16) & 1u16 == 1));
    assert((y >> 4u16) & 1u16 == 0 || (y >> 4u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 4) == ((y >> 4u16) & 1u16 == 1));
    assert((y >> 5u16) & 1u16 == 0 || (y >> 5u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 5) == ((y >> 5u16) & 1u16 == 1));
    assert((y >> 6u16) & 1u16 == 0 || (y >> 6u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 6) == ((y >> 6u16) & 1u16 == 1));
    assert((y >> 7u16) & 1u16 == 0 || (y >> 7u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 7) == ((y >> 7u16) & 1u16 == 1));
    assert((y >> 8u16) & 1u16 == 0 || (y >> 8u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 8) == ((y >> 8u16) & 1u16 == 1));
    assert((y >> 9u16) & 1u16 == 0 || (y >> 9u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 9) == ((y >> 9u16) & 1u16 == 1));
    assert((y >> 10u16) & 1u16 == 0 || (y >> 10u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 10) == ((y >> 10u16) & 1u16 == 1));
    assert((y >> 11u16) & 1u16 == 0 || (y >> 11u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 11) == ((y >> 11u16) & 1u16 == 1));
    assert((y >> 12u16) & 1u16 == 0 || (y >> 12u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 12) == ((y >> 12u16) & 1u16 == 1));
    assert((y >> 13u16) & 1u16 == 0 || (y >> 13u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 13) == ((y >> 13u16) & 1u16 == 1));
    assert((y >> 14u16) & 1u16 == 0 || (y >> 14u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 14) == ((y >> 14u16) & 1u16 == 1));
    assert((y >> 15u16) & 1u16 == 0 || (y >> 15u16) & 1u16 == 1) by (bit_vector); assert(bit(x as int, 15) == ((y >> 15u16) & 1u16 == 1));
    assert(y >> 0u16 == y) by (bit_vector);
}
pub broadcast proof fn bl_and8(x: u8, m: u8) ensures #![trigger x & m] dec8(x as int), dec8(m as int), dec8((x & m) as int), bit((x & m) as int, 0) == (bit(x as int, 0) && bit(m as int, 0)), bit((x & m) as int, 1) == (bit(x as int, 1) && bit(m as int, 1)), bit((x & m) as int, 2) == (bit(x as int, 2) && bit(m as int, 2)), bit((x & m) as int, 3) == (bit(x as int, 3) && bit(m as int, 3)), bit((x & m) as int, 4) == (bit(x as int, 4) && bit(m as int, 4)), bit((x & m) as int, 5) == (bit(x as int, 5) && bit(m as int, 5)), bit((x & m) as int, 6) == (bit(x as int, 6) && bit(m as int, 6)), bit((x & m) as int, 7) == (bit(x as int, 7) && bit(m as int, 7))
{
    hide(dec8); lem_dec8(x); lem_dec8(m); lem_dec8(x & m); let (y, n) = (x as u16, m as u16);
    assert((x & m) as u16 == (x as u16) & (m as u16)) by (bit_vector);
    assert((((y & n) >> 0u16) & 1u16 == 1) == (((y >> 0u16) & 1u16 == 1) && ((n >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 1u16) & 1u16 == 1) == (((y >> 1u16) & 1u16 == 1) && ((n >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 2u16) & 1u16 == 1) == (((y >> 2u16) & 1u16 == 1) && ((n >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 3u16) & 1u16 == 1) == (((y >> 3u16) & 1u16 == 1) && ((n >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 4u16) & 1u16 == 1) == (((y >> 4u16) & 1u16 == 1) && ((n >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 5u16) & 1u16 == 1) == (((y >> 5u16) & 1u16 == 1) && ((n >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 6u16) & 1u16 == 1) == (((y >> 6u16) & 1u16 == 1) && ((n >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 7u16) & 1u16 == 1) == (((y >> 7u16) & 1u16 == 1) && ((n >> 7u16) & 1u16 == 1))) by (bit_vector);
}
pub broadcast proof fn bl_or8(x: u8, m: u8) ensures #![trigger x | m] dec8(x as int), dec8(m as int), dec8((x | m) as int), bit((x | m) as int, 0) == (bit(x as int, 0) || bit(m as int, 0)), bit((x | m) as int, 1) == (bit(x as int, 1) || bit(m as int, 1)), bit((x | m) as int, 2) == (bit(x as int, 2) || bit(m as int, 2)), bit((x | m) as int, 3) == (bit(x as int, 3) || bit(m as int, 3)), bit((x | m) as int, 4) == (bit(x as int, 4) || bit(m as int, 4)), bit((x | m) as int, 5) == (bit(x as int, 5) || bit(m as int, 5)), bit((x | m) as int, 6) == (bit(x as int, 6) || bit(m as int, 6)), bit((x | m) as int, 7) == (bit(x as int, 7) || bit(m as int, 7))
{
    hide(dec8); lem_dec8(x); lem_dec8(m); lem_dec8(x | m); let (y, n) = (x as u16, m as u16);
    assert((x | m) as u16 == (x as u16) | (m as u16)) by (bit_vector);
    assert((((y | n) >> 0u16) & 1u16 == 1) == (((y >> 0u16) & 1u16 == 1) || ((n >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 1u16) & 1u16 == 1) == (((y >> 1u16) & 1u16 == 1) || ((n >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 2u16) & 1u16 == 1) == (((y >> 2u16) & 1u16 == 1) || ((n >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 3u16) & 1u16 == 1) == (((y >> 3u16) & 1u16 == 1) || ((n >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 4u16) & 1u16 == 1) == (((y >> 4u16) & 1u16 == 1) || ((n >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 5u16) & 1u16 == 1) == (((y >> 5u16) & 1u16 == 1) || ((n >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 6u16) & 1u16 == 1) == (((y >> 6u16) & 1u16 == 1) || ((n >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 7u16) & 1u16 == 1) == (((y >> 7u16) & 1u16 == 1) || ((n >> 7u16) & 1u16 == 1))) by (bit_vector);
}
pub broadcast proof fn bl_xor8(x: u8, m: u8) ensures #![trigger x ^ m] dec8(x as int), dec8(m as int), dec8((x ^ m) as int), bit((x ^ m) as int, 0) == (bit(x as int, 0) != bit(m as int, 0)), bit((x ^ m) as int, 1) == (bit(x as int, 1) != bit(m as int, 1)), bit((x ^ m) as int, 2) == (bit(x as int, 2) != bit(m as int, 2)), bit((x ^ m) as int, 3) == (bit(x as int, 3) != bit(m as int, 3)), bit((x ^ m) as int, 4) == (bit(x as int, 4) != bit(m as int, 4)), bit((x ^ m) as int, 5) == (bit(x as int, 5) != bit(m as int, 5)), bit((x ^ m) as int, 6) == (bit(x as int, 6) != bit(m as int, 6)), bit((x ^ m) as int, 7) == (bit(x as int, 7) != bit(m as int, 7))
{
    hide(dec8); lem_dec8(x); lem_dec8(m); lem_dec8(x ^ m); let (y, n) = (x as u16, m as u16);
    assert((x ^ m) as u16 == (x as u16) ^ (m as u16)) by (bit_vector);
    assert((((y ^ n) >> 0u16) & 1u16 == 1) == (((y >> 0u16) & 1u16 == 1) != ((n >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 1u16) & 1u16 == 1) == (((y >> 1u16) & 1u16 == 1) != ((n >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 2u16) & 1u16 == 1) == (((y >> 2u16) & 1u16 == 1) != ((n >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 3u16) & 1u16 == 1) == (((y >> 3u16) & 1u16 == 1) != ((n >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 4u16) & 1u16 == 1) == (((y >> 4u16) & 1u16 == 1) != ((n >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 5u16) & 1u16 == 1) == (((y >> 5u16) & 1u16 == 1) != ((n >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 6u16) & 1u16 == 1) == (((y >> 6u16) & 1u16 == 1) != ((n >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 7u16) & 1u16 == 1) == (((y >> 7u16) & 1u16 == 1) != ((n >> 7u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_0(x: u8) ensures dec8((x << 0u8) as int), bit((x << 0u8) as int, 0) == bit(x as int, 0), bit((x << 0u8) as int, 1) == bit(x as int, 1), bit((x << 0u8) as int, 2) == bit(x as int, 2), bit((x << 0u8) as int, 3) == bit(x as int, 3), bit((x << 0u8) as int, 4) == bit(x as int, 4), bit((x << 0u8) as int, 5) == bit(x as int, 5), bit((x << 0u8) as int, 6) == bit(x as int, 6), bit((x << 0u8) as int, 7) == bit(x as int, 7)
{
    hide(dec8); lem_dec8(x << 0u8); let (y, z) = (x as u16, (x << 0u8) as u16);
    assert((x << 0u8) as u16 == ((x as u16) << 0u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 0u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_1(x: u8) ensures dec8((x << 1u8) as int), bit((x << 1u8) as int, 0) == false, bit((x << 1u8) as int, 1) == bit(x as int, 0), bit((x << 1u8) as int, 2) == bit(x as int, 1), bit((x << 1u8) as int, 3) == bit(x as int, 2), bit((x << 1u8) as int, 4) == bit(x as int, 3), bit((x << 1u8) as int, 5) == bit(x as int, 4), bit((x << 1u8) as int, 6) == bit(x as int, 5), bit((x << 1u8) as int, 7) == bit(x as int, 6)
{
    hide(dec8); lem_dec8(x << 1u8); let (y, z) = (x as u16, (x << 1u8) as u16);
    assert((x << 1u8) as u16 == ((x as u16) << 1u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 1u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_2(x: u8) ensures dec8((x << 2u8) as int), bit((x << 2u8) as int, 0) == false, bit((x << 2u8) as int, 1) == false, bit((x << 2u8) as int, 2) == bit(x as int, 0), bit((x << 2u8) as int, 3) == bit(x as int, 1), bit((x << 2u8) as int, 4) == bit(x as int, 2), bit((x << 2u8) as int, 5) == bit(x as int, 3), bit((x << 2u8) as int, 6) == bit(x as int, 4), bit((x << 2u8) as int, 7) == bit(x as int, 5)
{
    hide(dec8); lem_dec8(x << 2u8); let (y, z) = (x as u16, (x << 2u8) as u16);
    assert((x << 2u8) as u16 == ((x as u16) << 2u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 2u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_3(x: u8) ensures dec8((x << 3u8) as int), bit((x << 3u8) as int, 0) == false, bit((x << 3u8) as int, 1) == false, bit((x << 3u8) as int, 2) == false, bit((x << 3u8) as int, 3) == bit(x as int, 0), bit((x << 3u8) as int, 4) == bit(x as int, 1), bit((x << 3u8) as int, 5) == bit(x as int, 2), bit((x << 3u8) as int, 6) == bit(x as int, 3), bit((x << 3u8) as int, 7) == bit(x as int, 4)
{
    hide(dec8); lem_dec8(x << 3u8); let (y, z) = (x as u16, (x << 3u8) as u16);
    assert((x << 3u8) as u16 == ((x as u16) << 3u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 3u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_4(x: u8) ensures dec8((x << 4u8) as int), bit((x << 4u8) as int, 0) == false, bit((x << 4u8) as int, 1) == false, bit((x << 4u8) as int, 2) == false, bit((x << 4u8) as int, 3) == false, bit((x << 4u8) as int, 4) == bit(x as int, 0), bit((x << 4u8) as int, 5) == bit(x as int, 1), bit((x << 4u8) as int, 6) == bit(x as int, 2), bit((x << 4u8) as int, 7) == bit(x as int, 3)
{
    hide(dec8); lem_dec8(x << 4u8); let (y, z) = (x as u16, (x << 4u8) as u16);
    assert((x << 4u8) as u16 == ((x as u16) << 4u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 4u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_5(x: u8) ensures dec8((x << 5u8) as int), bit((x << 5u8) as int, 0) == false, bit((x << 5u8) as int, 1) == false, bit((x << 5u8) as int, 2) == false, bit((x << 5u8) as int, 3) == false, bit((x << 5u8) as int, 4) == false, bit((x << 5u8) as int, 5) == bit(x as int, 0), bit((x << 5u8) as int, 6) == bit(x as int, 1), bit((x << 5u8) as int, 7) == bit(x as int, 2)
{
    hide(dec8); lem_dec8(x << 5u8); let (y, z) = (x as u16, (x << 5u8) as u16);
    assert((x << 5u8) as u16 == ((x as u16) << 5u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 5u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_6(x: u8) ensures dec8((x << 6u8) as int), bit((x << 6u8) as int, 0) == false, bit((x << 6u8) as int, 1) == false, bit((x << 6u8) as int, 2) == false, bit((x << 6u8) as int, 3) == false, bit((x << 6u8) as int, 4) == false, bit((x << 6u8) as int, 5) == false, bit((x << 6u8) as int, 6) == bit(x as int, 0), bit((x << 6u8) as int, 7) == bit(x as int, 1)
{
    hide(dec8); lem_dec8(x << 6u8); let (y, z) = (x as u16, (x << 6u8) as u16);
    assert((x << 6u8) as u16 == ((x as u16) << 6u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y << 6u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl8_7(x: u8) ensures dec8((x << 7u8) as int), bit((x << 7u8) as int, 0) == false, bit((x << 7u8) as int, 1) == false, bit((x << 7u8) as int, 2) == false, bit((x << 7u8) as int, 3) == false, bit((x << 7u8) as int, 4) == false, bit((x << 7u8) as int, 5) == false, bit((x << 7u8) as int, 6) == false, bit((x << 7u8) as int, 7) == bit(x as int, 0)
{
    hide(dec8); lem_dec8(x << 7u8); let (y, z) = (x as u16, (x << 7u8) as u16);
    assert((x << 7u8) as u16 == ((x as u16) << 7u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y << 7u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
}
pub broadcast proof fn bl_shl8(x: u8, k: u8) ensures #![trigger x << k] dec8(x as int), k == 0 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == bit(x as int, 0) && bit((x << k) as int, 1) == bit(x as int, 1) && bit((x << k) as int, 2) == bit(x as int, 2) && bit((x << k) as int, 3) == bit(x as int, 3) && bit((x << k) as int, 4) == bit(x as int, 4) && bit((x << k) as int, 5) == bit(x as int, 5) && bit((x << k) as int, 6) == bit(x as int, 6) && bit((x << k) as int, 7) == bit(x as int, 7),
    k == 1 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == bit(x as int, 0) && bit((x << k) as int, 2) == bit(x as int, 1) && bit((x << k) as int, 3) == bit(x as int, 2) && bit((x << k) as int, 4) == bit(x as int, 3) && bit((x << k) as int, 5) == bit(x as int, 4) && bit((x << k) as int, 6) == bit(x as int, 5) && bit((x << k) as int, 7) == bit(x as int, 6),
    k == 2 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == bit(x as int, 0) && bit((x << k) as int, 3) == bit(x as int, 1) && bit((x << k) as int, 4) == bit(x as int, 2) && bit((x << k) as int, 5) == bit(x as int, 3) && bit((x << k) as int, 6) == bit(x as int, 4) && bit((x << k) as int, 7) == bit(x as int, 5),
    k == 3 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == bit(x as int, 0) && bit((x << k) as int, 4) == bit(x as int, 1) && bit((x << k) as int, 5) == bit(x as int, 2) && bit((x << k) as int, 6) == bit(x as int, 3) && bit((x << k) as int, 7) == bit(x as int, 4),
    k == 4 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == bit(x as int, 0) && bit((x << k) as int, 5) == bit(x as int, 1) && bit((x << k) as int, 6) == bit(x as int, 2) && bit((x << k) as int, 7) == bit(x as int, 3),
    k == 5 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == bit(x as int, 0) && bit((x << k) as int, 6) == bit(x as int, 1) && bit((x << k) as int, 7) == bit(x as int, 2),
    k == 6 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == bit(x as int, 0) && bit((x << k) as int, 7) == bit(x as int, 1),
    k == 7 ==> dec8((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == bit(x as int, 0)
{
    hide(dec8); hide(bit); lem_dec8(x);
    if k == 0 { bl_shl8_0(x); }
    if k == 1 { bl_shl8_1(x); }
    if k == 2 { bl_shl8_2(x); }
    if k == 3 { bl_shl8_3(x); }
    if k == 4 { bl_shl8_4(x); }
    if k == 5 { bl_shl8_5(x); }
    if k == 6 { bl_shl8_6(x); }
    if k == 7 { bl_shl8_7(x); }
}
proof fn bl_shr8_0(x: u8) ensures dec8((x >> 0u8) as int), bit((x >> 0u8) as int, 0) == bit(x as int, 0), bit((x >> 0u8) as int, 1) == bit(x as int, 1), bit((x >> 0u8) as int, 2) == bit(x as int, 2), bit((x >> 0u8) as int, 3) == bit(x as int, 3), bit((x >> 0u8) as int, 4) == bit(x as int, 4), bit((x >> 0u8) as int, 5) == bit(x as int, 5), bit((x >> 0u8) as int, 6) == bit(x as int, 6), bit((x >> 0u8) as int, 7) == bit(x as int, 7)
{
    hide(dec8); lem_dec8(x >> 0u8); let (y, z) = (x as u16, (x >> 0u8) as u16);
    assert((x >> 0u8) as u16 == ((x as u16) >> 0u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 0u16) & 0xffu16) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shr8_1(x: u8) ensures dec8((x >> 1u8) as int), bit((x >> 1u8) as int, 0) == bit(x as int, 1), bit((x >> 1u8) as int, 1) == bit(x as int, 2), bit((x >> 1u8) as int, 2) == bit(x as int, 3), bit((x >> 1u8) as int, 3) == bit(x as int, 4), bit((x >> 1u8) as int, 4) == bit(x as int, 5), bit((x >> 1u8) as int, 5) == bit(x as int, 6), bit((x >> 1u8) as int, 6) == bit(x as int, 7), bit((x >> 1u8) as int, 7) == false
{
    hide(dec8); lem_dec8(x >> 1u8); let (y, z) = (x as u16, (x >> 1u8) as u16);
    assert((x >> 1u8) as u16 == ((x as u16) >> 1u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 6u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 1u16) & 0xffu16) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr8_2(x: u8) ensures dec8((x >> 2u8) as int), bit((x >> 2u8) as int, 0) == bit(x as int, 2), bit((x >> 2u8) as int, 1) == bit(x as int, 3), bit((x >> 2u8) as int, 2) == bit(x as int, 4), bit((x >> 2u8) as int, 3) == bit(x as int, 5), bit((x >> 2u8) as int, 4) == bit(x as int, 6), bit((x >> 2u8) as int, 5) == bit(x as int, 7), bit((x >> 2u8) as int, 6) == false, bit((x >> 2u8) as int, 7) == false
{
    hide(dec8); lem_dec8(x >> 2u8); let (y, z) = (x as u16, (x >> 2u8) as u16);
    assert((x >> 2u8) as u16 == ((x as u16) >> 2u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 5u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 2u16) & 0xffu16) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr8_3(x: u8) ensures dec8((x >> 3u8) as int), bit((x >> 3u8) as int, 0) == bit(x as int, 3), bit((x >> 3u8) as int, 1) == bit(x as int, 4), bit((x >> 3u8) as int, 2) == bit(x as int, 5), bit((x >> 3u8) as int, 3) == bit(x as int, 6), bit((x >> 3u8) as int, 4) == bit(x as int, 7), bit((x >> 3u8) as int, 5) == false, bit((x >> 3u8) as int, 6) == false, bit((x >> 3u8) as int, 7) == false
{
    hide(dec8); lem_dec8(x >> 3u8); let (y, z) = (x as u16, (x >> 3u8) as u16);
    assert((x >> 3u8) as u16 == ((x as u16) >> 3u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 4u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 3u16) & 0xffu16) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr8_4(x: u8) ensures dec8((x >> 4u8) as int), bit((x >> 4u8) as int, 0) == bit(x as int, 4), bit((x >> 4u8) as int, 1) == bit(x as int, 5), bit((x >> 4u8) as int, 2) == bit(x as int, 6), bit((x >> 4u8) as int, 3) == bit(x as int, 7), bit((x >> 4u8) as int, 4) == false, bit((x >> 4u8) as int, 5) == false, bit((x >> 4u8) as int, 6) == false, bit((x >> 4u8) as int, 7) == false
{
    hide(dec8); lem_dec8(x >> 4u8); let (y, z) = (x as u16, (x >> 4u8) as u16);
    assert((x >> 4u8) as u16 == ((x as u16) >> 4u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 3u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 4u16) & 0xffu16) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr8_5(x: u8) ensures dec8((x >> 5u8) as int), bit((x >> 5u8) as int, 0) == bit(x as int, 5), bit((x >> 5u8) as int, 1) == bit(x as int, 6), bit((x >> 5u8) as int, 2) == bit(x as int, 7), bit((x >> 5u8) as int, 3) == false, bit((x >> 5u8) as int, 4) == false, bit((x >> 5u8) as int, 5) == false, bit((x >> 5u8) as int, 6) == false, bit((x >> 5u8) as int, 7) == false
{
    hide(dec8); lem_dec8(x >> 5u8); let (y, z) = (x as u16, (x >> 5u8) as u16);
    assert((x >> 5u8) as u16 == ((x as u16) >> 5u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 2u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 5u16) & 0xffu16) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr8_6(x: u8) ensures dec8((x >> 6u8) as int), bit((x >> 6u8) as int, 0) == bit(x as int, 6), bit((x >> 6u8) as int, 1) == bit(x as int, 7), bit((x >> 6u8) as int, 2) == false, bit((x >> 6u8) as int, 3) == false, bit((x >> 6u8) as int, 4) == false, bit((x >> 6u8) as int, 5) == false, bit((x >> 6u8) as int, 6) == false, bit((x >> 6u8) as int, 7) == false
{
    hide(dec8); lem_dec8(x >> 6u8); let (y, z) = (x as u16, (x >> 6u8) as u16);
    assert((x >> 6u8) as u16 == ((x as u16) >> 6u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 1u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 6u16) & 0xffu16) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr8_7(x: u8) ensures dec8((x >> 7u8) as int), bit((x >> 7u8) as int, 0) == bit(x as int, 7), bit((x >> 7u8) as int, 1) == false, bit((x >> 7u8) as int, 2) == false, bit((x >> 7u8) as int, 3) == false, bit((x >> 7u8) as int, 4) == false, bit((x >> 7u8) as int, 5) == false, bit((x >> 7u8) as int, 6) == false, bit((x >> 7u8) as int, 7) == false
{
    hide(dec8); lem_dec8(x >> 7u8); let (y, z) = (x as u16, (x >> 7u8) as u16);
    assert((x >> 7u8) as u16 == ((x as u16) >> 7u16) & 0xffu16) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 0u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(y < 256 ==> ((((((y >> 7u16) & 0xffu16) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
}
pub broadcast proof fn bl_shr8(x: u8, k: u8) ensures #![trigger x >> k] dec8(x as int), k == 0 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 0) && bit((x >> k) as int, 1) == bit(x as int, 1) && bit((x >> k) as int, 2) == bit(x as int, 2) && bit((x >> k) as int, 3) == bit(x as int, 3) && bit((x >> k) as int, 4) == bit(x as int, 4) && bit((x >> k) as int, 5) == bit(x as int, 5) && bit((x >> k) as int, 6) == bit(x as int, 6) && bit((x >> k) as int, 7) == bit(x as int, 7),
    k == 1 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 1) && bit((x >> k) as int, 1) == bit(x as int, 2) && bit((x >> k) as int, 2) == bit(x as int, 3) && bit((x >> k) as int, 3) == bit(x as int, 4) && bit((x >> k) as int, 4) == bit(x as int, 5) && bit((x >> k) as int, 5) == bit(x as int, 6) && bit((x >> k) as int, 6) == bit(x as int, 7) && bit((x >> k) as int, 7) == false,
    k == 2 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 2) && bit((x >> k) as int, 1) == bit(x as int, 3) && bit((x >> k) as int, 2) == bit(x as int, 4) && bit((x >> k) as int, 3) == bit(x as int, 5) && bit((x >> k) as int, 4) == bit(x as int, 6) && bit((x >> k) as int, 5) == bit(x as int, 7) && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false,
    k == 3 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 3) && bit((x >> k) as int, 1) == bit(x as int, 4) && bit((x >> k) as int, 2) == bit(x as int, 5) && bit((x >> k) as int, 3) == bit(x as int, 6) && bit((x >> k) as int, 4) == bit(x as int, 7) && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false,
    k == 4 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 4) && bit((x >> k) as int, 1) == bit(x as int, 5) && bit((x >> k) as int, 2) == bit(x as int, 6) && bit((x >> k) as int, 3) == bit(x as int, 7) && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false,
    k == 5 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 5) && bit((x >> k) as int, 1) == bit(x as int, 6) && bit((x >> k) as int, 2) == bit(x as int, 7) && bit((x >> k) as int, 3) == false && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false,
    k == 6 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 6) && bit((x >> k) as int, 1) == bit(x as int, 7) && bit((x >> k) as int, 2) == false && bit((x >> k) as int, 3) == false && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false,
    k == 7 ==> dec8((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 7) && bit((x >> k) as int, 1) == false && bit((x >> k) as int, 2) == false && bit((x >> k) as int, 3) == false && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false
{
    hide(dec8); hide(bit); lem_dec8(x);
    if k == 0 { bl_shr8_0(x); }
    if k == 1 { bl_shr8_1(x); }
    if k == 2 { bl_shr8_2(x); }
    if k == 3 { bl_shr8_3(x); }
    if k == 4 { bl_shr8_4(x); }
    if k == 5 { bl_shr8_5(x); }
    if k == 6 { bl_shr8_6(x); }
    if k == 7 { bl_shr8_7(x); }
}
pub broadcast proof fn bl_and16(x: u16, m: u16) ensures #![trigger x & m] dec16(x as int), dec16(m as int), dec16((x & m) as int), bit((x & m) as int, 0) == (bit(x as int, 0) && bit(m as int, 0)), bit((x & m) as int, 1) == (bit(x as int, 1) && bit(m as int, 1)), bit((x & m) as int, 2) == (bit(x as int, 2) && bit(m as int, 2)), bit((x & m) as int, 3) == (bit(x as int, 3) && bit(m as int, 3)), bit((x & m) as int, 4) == (bit(x as int, 4) && bit(m as int, 4)), bit((x & m) as int, 5) == (bit(x as int, 5) && bit(m as int, 5)), bit((x & m) as int, 6) == (bit(x as int, 6) && bit(m as int, 6)), bit((x & m) as int, 7) == (bit(x as int, 7) && bit(m as int, 7)), bit((x & m) as int, 8) == (bit(x as int, 8) && bit(m as int, 8)), bit((x & m) as int, 9) == (bit(x as int, 9) && bit(m as int, 9)), bit((x & m) as int, 10) == (bit(x as int, 10) && bit(m as int, 10)), bit((x & m) as int, 11) == (bit(x as int, 11) && bit(m as int, 11)), bit((x & m) as int, 12) == (bit(x as int, 12) && bit(m as int, 12)), bit((x & m) as int, 13) == (bit(x as int, 13) && bit(m as int, 13)), bit((x & m) as int, 14) == (bit(x as int, 14) && bit(m as int, 14)), bit((x & m) as int, 15) == (bit(x as int, 15) && bit(m as int, 15))
{
    hide(dec16); lem_dec16(x); lem_dec16(m); lem_dec16(x & m); let (y, n) = (x as u16, m as u16);
    assert((x & m) as u16 == (x as u16) & (m as u16)) by (bit_vector);
    assert((((y & n) >> 0u16) & 1u16 == 1) == (((y >> 0u16) & 1u16 == 1) && ((n >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 1u16) & 1u16 == 1) == (((y >> 1u16) & 1u16 == 1) && ((n >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 2u16) & 1u16 == 1) == (((y >> 2u16) & 1u16 == 1) && ((n >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 3u16) & 1u16 == 1) == (((y >> 3u16) & 1u16 == 1) && ((n >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 4u16) & 1u16 == 1) == (((y >> 4u16) & 1u16 == 1) && ((n >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 5u16) & 1u16 == 1) == (((y >> 5u16) & 1u16 == 1) && ((n >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 6u16) & 1u16 == 1) == (((y >> 6u16) & 1u16 == 1) && ((n >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 7u16) & 1u16 == 1) == (((y >> 7u16) & 1u16 == 1) && ((n >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 8u16) & 1u16 == 1) == (((y >> 8u16) & 1u16 == 1) && ((n >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 9u16) & 1u16 == 1) == (((y >> 9u16) & 1u16 == 1) && ((n >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 10u16) & 1u16 == 1) == (((y >> 10u16) & 1u16 == 1) && ((n >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 11u16) & 1u16 == 1) == (((y >> 11u16) & 1u16 == 1) && ((n >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 12u16) & 1u16 == 1) == (((y >> 12u16) & 1u16 == 1) && ((n >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 13u16) & 1u16 == 1) == (((y >> 13u16) & 1u16 == 1) && ((n >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 14u16) & 1u16 == 1) == (((y >> 14u16) & 1u16 == 1) && ((n >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert((((y & n) >> 15u16) & 1u16 == 1) == (((y >> 15u16) & 1u16 == 1) && ((n >> 15u16) & 1u16 == 1))) by (bit_vector);
}
pub broadcast proof fn bl_or16(x: u16, m: u16) ensures #![trigger x | m] dec16(x as int), dec16(m as int), dec16((x | m) as int), bit((x | m) as int, 0) == (bit(x as int, 0) || bit(m as int, 0)), bit((x | m) as int, 1) == (bit(x as int, 1) || bit(m as int, 1)), bit((x | m) as int, 2) == (bit(x as int, 2) || bit(m as int, 2)), bit((x | m) as int, 3) == (bit(x as int, 3) || bit(m as int, 3)), bit((x | m) as int, 4) == (bit(x as int, 4) || bit(m as int, 4)), bit((x | m) as int, 5) == (bit(x as int, 5) || bit(m as int, 5)), bit((x | m) as int, 6) == (bit(x as int, 6) || bit(m as int, 6)), bit((x | m) as int, 7) == (bit(x as int, 7) || bit(m as int, 7)), bit((x | m) as int, 8) == (bit(x as int, 8) || bit(m as int, 8)), bit((x | m) as int, 9) == (bit(x as int, 9) || bit(m as int, 9)), bit((x | m) as int, 10) == (bit(x as int, 10) || bit(m as int, 10)), bit((x | m) as int, 11) == (bit(x as int, 11) || bit(m as int, 11)), bit((x | m) as int, 12) == (bit(x as int, 12) || bit(m as int, 12)), bit((x | m) as int, 13) == (bit(x as int, 13) || bit(m as int, 13)), bit((x | m) as int, 14) == (bit(x as int, 14) || bit(m as int, 14)), bit((x | m) as int, 15) == (bit(x as int, 15) || bit(m as int, 15))
{
    hide(dec16); lem_dec16(x); lem_dec16(m); lem_dec16(x | m); let (y, n) = (x as u16, m as u16);
    assert((x | m) as u16 == (x as u16) | (m as u16)) by (bit_vector);
    assert((((y | n) >> 0u16) & 1u16 == 1) == (((y >> 0u16) & 1u16 == 1) || ((n >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 1u16) & 1u16 == 1) == (((y >> 1u16) & 1u16 == 1) || ((n >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 2u16) & 1u16 == 1) == (((y >> 2u16) & 1u16 == 1) || ((n >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 3u16) & 1u16 == 1) == (((y >> 3u16) & 1u16 == 1) || ((n >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 4u16) & 1u16 == 1) == (((y >> 4u16) & 1u16 == 1) || ((n >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 5u16) & 1u16 == 1) == (((y >> 5u16) & 1u16 == 1) || ((n >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 6u16) & 1u16 == 1) == (((y >> 6u16) & 1u16 == 1) || ((n >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 7u16) & 1u16 == 1) == (((y >> 7u16) & 1u16 == 1) || ((n >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 8u16) & 1u16 == 1) == (((y >> 8u16) & 1u16 == 1) || ((n >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 9u16) & 1u16 == 1) == (((y >> 9u16) & 1u16 == 1) || ((n >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 10u16) & 1u16 == 1) == (((y >> 10u16) & 1u16 == 1) || ((n >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 11u16) & 1u16 == 1) == (((y >> 11u16) & 1u16 == 1) || ((n >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 12u16) & 1u16 == 1) == (((y >> 12u16) & 1u16 == 1) || ((n >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 13u16) & 1u16 == 1) == (((y >> 13u16) & 1u16 == 1) || ((n >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 14u16) & 1u16 == 1) == (((y >> 14u16) & 1u16 == 1) || ((n >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert((((y | n) >> 15u16) & 1u16 == 1) == (((y >> 15u16) & 1u16 == 1) || ((n >> 15u16) & 1u16 == 1))) by (bit_vector);
}
pub broadcast proof fn bl_xor16(x: u16, m: u16) ensures #![trigger x ^ m] dec16(x as int), dec16(m as int), dec16((x ^ m) as int), bit((x ^ m) as int, 0) == (bit(x as int, 0) != bit(m as int, 0)), bit((x ^ m) as int, 1) == (bit(x as int, 1) != bit(m as int, 1)), bit((x ^ m) as int, 2) == (bit(x as int, 2) != bit(m as int, 2)), bit((x ^ m) as int, 3) == (bit(x as int, 3) != bit(m as int, 3)), bit((x ^ m) as int, 4) == (bit(x as int, 4) != bit(m as int, 4)), bit((x ^ m) as int, 5) == (bit(x as int, 5) != bit(m as int, 5)), bit((x ^ m) as int, 6) == (bit(x as int, 6) != bit(m as int, 6)), bit((x ^ m) as int, 7) == (bit(x as int, 7) != bit(m as int, 7)), bit((x ^ m) as int, 8) == (bit(x as int, 8) != bit(m as int, 8)), bit((x ^ m) as int, 9) == (bit(x as int, 9) != bit(m as int, 9)), bit((x ^ m) as int, 10) == (bit(x as int, 10) != bit(m as int, 10)), bit((x ^ m) as int, 11) == (bit(x as int, 11) != bit(m as int, 11)), bit((x ^ m) as int, 12) == (bit(x as int, 12) != bit(m as int, 12)), bit((x ^ m) as int, 13) == (bit(x as int, 13) != bit(m as int, 13)), bit((x ^ m) as int, 14) == (bit(x as int, 14) != bit(m as int, 14)), bit((x ^ m) as int, 15) == (bit(x as int, 15) != bit(m as int, 15))
{
    hide(dec16); lem_dec16(x); lem_dec16(m); lem_dec16(x ^ m); let (y, n) = (x as u16, m as u16);
    assert((x ^ m) as u16 == (x as u16) ^ (m as u16)) by (bit_vector);
    assert((((y ^ n) >> 0u16) & 1u16 == 1) == (((y >> 0u16) & 1u16 == 1) != ((n >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 1u16) & 1u16 == 1) == (((y >> 1u16) & 1u16 == 1) != ((n >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 2u16) & 1u16 == 1) == (((y >> 2u16) & 1u16 == 1) != ((n >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 3u16) & 1u16 == 1) == (((y >> 3u16) & 1u16 == 1) != ((n >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 4u16) & 1u16 == 1) == (((y >> 4u16) & 1u16 == 1) != ((n >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 5u16) & 1u16 == 1) == (((y >> 5u16) & 1u16 == 1) != ((n >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 6u16) & 1u16 == 1) == (((y >> 6u16) & 1u16 == 1) != ((n >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 7u16) & 1u16 == 1) == (((y >> 7u16) & 1u16 == 1) != ((n >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 8u16) & 1u16 == 1) == (((y >> 8u16) & 1u16 == 1) != ((n >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 9u16) & 1u16 == 1) == (((y >> 9u16) & 1u16 == 1) != ((n >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 10u16) & 1u16 == 1) == (((y >> 10u16) & 1u16 == 1) != ((n >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 11u16) & 1u16 == 1) == (((y >> 11u16) & 1u16 == 1) != ((n >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 12u16) & 1u16 == 1) == (((y >> 12u16) & 1u16 == 1) != ((n >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 13u16) & 1u16 == 1) == (((y >> 13u16) & 1u16 == 1) != ((n >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 14u16) & 1u16 == 1) == (((y >> 14u16) & 1u16 == 1) != ((n >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert((((y ^ n) >> 15u16) & 1u16 == 1) == (((y >> 15u16) & 1u16 == 1) != ((n >> 15u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_0(x: u16) ensures dec16((x << 0u16) as int), bit((x << 0u16) as int, 0) == bit(x as int, 0), bit((x << 0u16) as int, 1) == bit(x as int, 1), bit((x << 0u16) as int, 2) == bit(x as int, 2), bit((x << 0u16) as int, 3) == bit(x as int, 3), bit((x << 0u16) as int, 4) == bit(x as int, 4), bit((x << 0u16) as int, 5) == bit(x as int, 5), bit((x << 0u16) as int, 6) == bit(x as int, 6), bit((x << 0u16) as int, 7) == bit(x as int, 7), bit((x << 0u16) as int, 8) == bit(x as int, 8), bit((x << 0u16) as int, 9) == bit(x as int, 9), bit((x << 0u16) as int, 10) == bit(x as int, 10), bit((x << 0u16) as int, 11) == bit(x as int, 11), bit((x << 0u16) as int, 12) == bit(x as int, 12), bit((x << 0u16) as int, 13) == bit(x as int, 13), bit((x << 0u16) as int, 14) == bit(x as int, 14), bit((x << 0u16) as int, 15) == bit(x as int, 15)
{
    hide(dec16); lem_dec16(x << 0u16); let (y, z) = (x as u16, (x << 0u16) as u16);
    assert((x << 0u16) as u16 == ((x as u16) << 0u16)) by (bit_vector);
    assert(((((((y << 0u16)) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 8u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 9u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 10u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 11u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 12u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 13u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 14u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 0u16)) >> 15u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_1(x: u16) ensures dec16((x << 1u16) as int), bit((x << 1u16) as int, 0) == false, bit((x << 1u16) as int, 1) == bit(x as int, 0), bit((x << 1u16) as int, 2) == bit(x as int, 1), bit((x << 1u16) as int, 3) == bit(x as int, 2), bit((x << 1u16) as int, 4) == bit(x as int, 3), bit((x << 1u16) as int, 5) == bit(x as int, 4), bit((x << 1u16) as int, 6) == bit(x as int, 5), bit((x << 1u16) as int, 7) == bit(x as int, 6), bit((x << 1u16) as int, 8) == bit(x as int, 7), bit((x << 1u16) as int, 9) == bit(x as int, 8), bit((x << 1u16) as int, 10) == bit(x as int, 9), bit((x << 1u16) as int, 11) == bit(x as int, 10), bit((x << 1u16) as int, 12) == bit(x as int, 11), bit((x << 1u16) as int, 13) == bit(x as int, 12), bit((x << 1u16) as int, 14) == bit(x as int, 13), bit((x << 1u16) as int, 15) == bit(x as int, 14)
{
    hide(dec16); lem_dec16(x << 1u16); let (y, z) = (x as u16, (x << 1u16) as u16);
    assert((x << 1u16) as u16 == ((x as u16) << 1u16)) by (bit_vector);
    assert(((((((y << 1u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 1u16)) >> 1u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 2u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 3u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 4u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 5u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 6u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 7u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 8u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 9u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 10u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 11u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 12u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 13u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 14u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 1u16)) >> 15u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_2(x: u16) ensures dec16((x << 2u16) as int), bit((x << 2u16) as int, 0) == false, bit((x << 2u16) as int, 1) == false, bit((x << 2u16) as int, 2) == bit(x as int, 0), bit((x << 2u16) as int, 3) == bit(x as int, 1), bit((x << 2u16) as int, 4) == bit(x as int, 2), bit((x << 2u16) as int, 5) == bit(x as int, 3), bit((x << 2u16) as int, 6) == bit(x as int, 4), bit((x << 2u16) as int, 7) == bit(x as int, 5), bit((x << 2u16) as int, 8) == bit(x as int, 6), bit((x << 2u16) as int, 9) == bit(x as int, 7), bit((x << 2u16) as int, 10) == bit(x as int, 8), bit((x << 2u16) as int, 11) == bit(x as int, 9), bit((x << 2u16) as int, 12) == bit(x as int, 10), bit((x << 2u16) as int, 13) == bit(x as int, 11), bit((x << 2u16) as int, 14) == bit(x as int, 12), bit((x << 2u16) as int, 15) == bit(x as int, 13)
{
    hide(dec16); lem_dec16(x << 2u16); let (y, z) = (x as u16, (x << 2u16) as u16);
    assert((x << 2u16) as u16 == ((x as u16) << 2u16)) by (bit_vector);
    assert(((((((y << 2u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 2u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 2u16)) >> 2u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 3u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 4u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 5u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 6u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 7u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 8u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 9u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 10u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 11u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 12u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 13u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 14u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 2u16)) >> 15u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_3(x: u16) ensures dec16((x << 3u16) as int), bit((x << 3u16) as int, 0) == false, bit((x << 3u16) as int, 1) == false, bit((x << 3u16) as int, 2) == false, bit((x << 3u16) as int, 3) == bit(x as int, 0), bit((x << 3u16) as int, 4) == bit(x as int, 1), bit((x << 3u16) as int, 5) == bit(x as int, 2), bit((x << 3u16) as int, 6) == bit(x as int, 3), bit((x << 3u16) as int, 7) == bit(x as int, 4), bit((x << 3u16) as int, 8) == bit(x as int, 5), bit((x << 3u16) as int, 9) == bit(x as int, 6), bit((x << 3u16) as int, 10) == bit(x as int, 7), bit((x << 3u16) as int, 11) == bit(x as int, 8), bit((x << 3u16) as int, 12) == bit(x as int, 9), bit((x << 3u16) as int, 13) == bit(x as int, 10), bit((x << 3u16) as int, 14) == bit(x as int, 11), bit((x << 3u16) as int, 15) == bit(x as int, 12)
{
    hide(dec16); lem_dec16(x << 3u16); let (y, z) = (x as u16, (x << 3u16) as u16);
    assert((x << 3u16) as u16 == ((x as u16) << 3u16)) by (bit_vector);
    assert(((((((y << 3u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 3u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 3u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 3u16)) >> 3u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 4u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 5u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 6u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 7u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 8u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 9u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 10u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 11u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 12u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 13u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 14u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 3u16)) >> 15u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_4(x: u16) ensures dec16((x << 4u16) as int), bit((x << 4u16) as int, 0) == false, bit((x << 4u16) as int, 1) == false, bit((x << 4u16) as int, 2) == false, bit((x << 4u16) as int, 3) == false, bit((x << 4u16) as int, 4) == bit(x as int, 0), bit((x << 4u16) as int, 5) == bit(x as int, 1), bit((x << 4u16) as int, 6) == bit(x as int, 2), bit((x << 4u16) as int, 7) == bit(x as int, 3), bit((x << 4u16) as int, 8) == bit(x as int, 4), bit((x << 4u16) as int, 9) == bit(x as int, 5), bit((x << 4u16) as int, 10) == bit(x as int, 6), bit((x << 4u16) as int, 11) == bit(x as int, 7), bit((x << 4u16) as int, 12) == bit(x as int, 8), bit((x << 4u16) as int, 13) == bit(x as int, 9), bit((x << 4u16) as int, 14) == bit(x as int, 10), bit((x << 4u16) as int, 15) == bit(x as int, 11)
{
    hide(dec16); lem_dec16(x << 4u16); let (y, z) = (x as u16, (x << 4u16) as u16);
    assert((x << 4u16) as u16 == ((x as u16) << 4u16)) by (bit_vector);
    assert(((((((y << 4u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 4u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 4u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 4u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 4u16)) >> 4u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 5u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 6u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 7u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 8u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 9u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 10u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 11u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 12u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 13u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 14u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 4u16)) >> 15u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_5(x: u16) ensures dec16((x << 5u16) as int), bit((x << 5u16) as int, 0) == false, bit((x << 5u16) as int, 1) == false, bit((x << 5u16) as int, 2) == false, bit((x << 5u16) as int, 3) == false, bit((x << 5u16) as int, 4) == false, bit((x << 5u16) as int, 5) == bit(x as int, 0), bit((x << 5u16) as int, 6) == bit(x as int, 1), bit((x << 5u16) as int, 7) == bit(x as int, 2), bit((x << 5u16) as int, 8) == bit(x as int, 3), bit((x << 5u16) as int, 9) == bit(x as int, 4), bit((x << 5u16) as int, 10) == bit(x as int, 5), bit((x << 5u16) as int, 11) == bit(x as int, 6), bit((x << 5u16) as int, 12) == bit(x as int, 7), bit((x << 5u16) as int, 13) == bit(x as int, 8), bit((x << 5u16) as int, 14) == bit(x as int, 9), bit((x << 5u16) as int, 15) == bit(x as int, 10)
{
    hide(dec16); lem_dec16(x << 5u16); let (y, z) = (x as u16, (x << 5u16) as u16);
    assert((x << 5u16) as u16 == ((x as u16) << 5u16)) by (bit_vector);
    assert(((((((y << 5u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 5u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 5u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 5u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 5u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 5u16)) >> 5u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 6u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 7u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 8u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 9u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 10u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 11u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 12u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 13u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 14u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 5u16)) >> 15u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_6(x: u16) ensures dec16((x << 6u16) as int), bit((x << 6u16) as int, 0) == false, bit((x << 6u16) as int, 1) == false, bit((x << 6u16) as int, 2) == false, bit((x << 6u16) as int, 3) == false, bit((x << 6u16) as int, 4) == false, bit((x << 6u16) as int, 5) == false, bit((x << 6u16) as int, 6) == bit(x as int, 0), bit((x << 6u16) as int, 7) == bit(x as int, 1), bit((x << 6u16) as int, 8) == bit(x as int, 2), bit((x << 6u16) as int, 9) == bit(x as int, 3), bit((x << 6u16) as int, 10) == bit(x as int, 4), bit((x << 6u16) as int, 11) == bit(x as int, 5), bit((x << 6u16) as int, 12) == bit(x as int, 6), bit((x << 6u16) as int, 13) == bit(x as int, 7), bit((x << 6u16) as int, 14) == bit(x as int, 8), bit((x << 6u16) as int, 15) == bit(x as int, 9)
{
    hide(dec16); lem_dec16(x << 6u16); let (y, z) = (x as u16, (x << 6u16) as u16);
    assert((x << 6u16) as u16 == ((x as u16) << 6u16)) by (bit_vector);
    assert(((((((y << 6u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 6u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 6u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 6u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 6u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 6u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 6u16)) >> 6u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 7u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 8u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 9u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 10u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 11u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 12u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 13u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 14u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 6u16)) >> 15u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_7(x: u16) ensures dec16((x << 7u16) as int), bit((x << 7u16) as int, 0) == false, bit((x << 7u16) as int, 1) == false, bit((x << 7u16) as int, 2) == false, bit((x << 7u16) as int, 3) == false, bit((x << 7u16) as int, 4) == false, bit((x << 7u16) as int, 5) == false, bit((x << 7u16) as int, 6) == false, bit((x << 7u16) as int, 7) == bit(x as int, 0), bit((x << 7u16) as int, 8) == bit(x as int, 1), bit((x << 7u16) as int, 9) == bit(x as int, 2), bit((x << 7u16) as int, 10) == bit(x as int, 3), bit((x << 7u16) as int, 11) == bit(x as int, 4), bit((x << 7u16) as int, 12) == bit(x as int, 5), bit((x << 7u16) as int, 13) == bit(x as int, 6), bit((x << 7u16) as int, 14) == bit(x as int, 7), bit((x << 7u16) as int, 15) == bit(x as int, 8)
{
    hide(dec16); lem_dec16(x << 7u16); let (y, z) = (x as u16, (x << 7u16) as u16);
    assert((x << 7u16) as u16 == ((x as u16) << 7u16)) by (bit_vector);
    assert(((((((y << 7u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 7u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 7u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 7u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 7u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 7u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 7u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 7u16)) >> 7u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 8u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 9u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 10u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 11u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 12u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 13u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 14u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 7u16)) >> 15u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_8(x: u16) ensures dec16((x << 8u16) as int), bit((x << 8u16) as int, 0) == false, bit((x << 8u16) as int, 1) == false, bit((x << 8u16) as int, 2) == false, bit((x << 8u16) as int, 3) == false, bit((x << 8u16) as int, 4) == false, bit((x << 8u16) as int, 5) == false, bit((x << 8u16) as int, 6) == false, bit((x << 8u16) as int, 7) == false, bit((x << 8u16) as int, 8) == bit(x as int, 0), bit((x << 8u16) as int, 9) == bit(x as int, 1), bit((x << 8u16) as int, 10) == bit(x as int, 2), bit((x << 8u16) as int, 11) == bit(x as int, 3), bit((x << 8u16) as int, 12) == bit(x as int, 4), bit((x << 8u16) as int, 13) == bit(x as int, 5), bit((x << 8u16) as int, 14) == bit(x as int, 6), bit((x << 8u16) as int, 15) == bit(x as int, 7)
{
    hide(dec16); lem_dec16(x << 8u16); let (y, z) = (x as u16, (x << 8u16) as u16);
    assert((x << 8u16) as u16 == ((x as u16) << 8u16)) by (bit_vector);
    assert(((((((y << 8u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 8u16)) >> 8u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 8u16)) >> 9u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 8u16)) >> 10u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 8u16)) >> 11u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 8u16)) >> 12u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 8u16)) >> 13u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 8u16)) >> 14u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 8u16)) >> 15u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_9(x: u16) ensures dec16((x << 9u16) as int), bit((x << 9u16) as int, 0) == false, bit((x << 9u16) as int, 1) == false, bit((x << 9u16) as int, 2) == false, bit((x << 9u16) as int, 3) == false, bit((x << 9u16) as int, 4) == false, bit((x << 9u16) as int, 5) == false, bit((x << 9u16) as int, 6) == false, bit((x << 9u16) as int, 7) == false, bit((x << 9u16) as int, 8) == false, bit((x << 9u16) as int, 9) == bit(x as int, 0), bit((x << 9u16) as int, 10) == bit(x as int, 1), bit((x << 9u16) as int, 11) == bit(x as int, 2), bit((x << 9u16) as int, 12) == bit(x as int, 3), bit((x << 9u16) as int, 13) == bit(x as int, 4), bit((x << 9u16) as int, 14) == bit(x as int, 5), bit((x << 9u16) as int, 15) == bit(x as int, 6)
{
    hide(dec16); lem_dec16(x << 9u16); let (y, z) = (x as u16, (x << 9u16) as u16);
    assert((x << 9u16) as u16 == ((x as u16) << 9u16)) by (bit_vector);
    assert(((((((y << 9u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 9u16)) >> 9u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 9u16)) >> 10u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 9u16)) >> 11u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 9u16)) >> 12u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 9u16)) >> 13u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 9u16)) >> 14u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 9u16)) >> 15u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_10(x: u16) ensures dec16((x << 10u16) as int), bit((x << 10u16) as int, 0) == false, bit((x << 10u16) as int, 1) == false, bit((x << 10u16) as int, 2) == false, bit((x << 10u16) as int, 3) == false, bit((x << 10u16) as int, 4) == false, bit((x << 10u16) as int, 5) == false, bit((x << 10u16) as int, 6) == false, bit((x << 10u16) as int, 7) == false, bit((x << 10u16) as int, 8) == false, bit((x << 10u16) as int, 9) == false, bit((x << 10u16) as int, 10) == bit(x as int, 0), bit((x << 10u16) as int, 11) == bit(x as int, 1), bit((x << 10u16) as int, 12) == bit(x as int, 2), bit((x << 10u16) as int, 13) == bit(x as int, 3), bit((x << 10u16) as int, 14) == bit(x as int, 4), bit((x << 10u16) as int, 15) == bit(x as int, 5)
{
    hide(dec16); lem_dec16(x << 10u16); let (y, z) = (x as u16, (x << 10u16) as u16);
    assert((x << 10u16) as u16 == ((x as u16) << 10u16)) by (bit_vector);
    assert(((((((y << 10u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 10u16)) >> 10u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 10u16)) >> 11u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 10u16)) >> 12u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 10u16)) >> 13u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 10u16)) >> 14u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 10u16)) >> 15u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_11(x: u16) ensures dec16((x << 11u16) as int), bit((x << 11u16) as int, 0) == false, bit((x << 11u16) as int, 1) == false, bit((x << 11u16) as int, 2) == false, bit((x << 11u16) as int, 3) == false, bit((x << 11u16) as int, 4) == false, bit((x << 11u16) as int, 5) == false, bit((x << 11u16) as int, 6) == false, bit((x << 11u16) as int, 7) == false, bit((x << 11u16) as int, 8) == false, bit((x << 11u16) as int, 9) == false, bit((x << 11u16) as int, 10) == false, bit((x << 11u16) as int, 11) == bit(x as int, 0), bit((x << 11u16) as int, 12) == bit(x as int, 1), bit((x << 11u16) as int, 13) == bit(x as int, 2), bit((x << 11u16) as int, 14) == bit(x as int, 3), bit((x << 11u16) as int, 15) == bit(x as int, 4)
{
    hide(dec16); lem_dec16(x << 11u16); let (y, z) = (x as u16, (x << 11u16) as u16);
    assert((x << 11u16) as u16 == ((x as u16) << 11u16)) by (bit_vector);
    assert(((((((y << 11u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 11u16)) >> 11u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 11u16)) >> 12u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 11u16)) >> 13u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 11u16)) >> 14u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 11u16)) >> 15u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_12(x: u16) ensures dec16((x << 12u16) as int), bit((x << 12u16) as int, 0) == false, bit((x << 12u16) as int, 1) == false, bit((x << 12u16) as int, 2) == false, bit((x << 12u16) as int, 3) == false, bit((x << 12u16) as int, 4) == false, bit((x << 12u16) as int, 5) == false, bit((x << 12u16) as int, 6) == false, bit((x << 12u16) as int, 7) == false, bit((x << 12u16) as int, 8) == false, bit((x << 12u16) as int, 9) == false, bit((x << 12u16) as int, 10) == false, bit((x << 12u16) as int, 11) == false, bit((x << 12u16) as int, 12) == bit(x as int, 0), bit((x << 12u16) as int, 13) == bit(x as int, 1), bit((x << 12u16) as int, 14) == bit(x as int, 2), bit((x << 12u16) as int, 15) == bit(x as int, 3)
{
    hide(dec16); lem_dec16(x << 12u16); let (y, z) = (x as u16, (x << 12u16) as u16);
    assert((x << 12u16) as u16 == ((x as u16) << 12u16)) by (bit_vector);
    assert(((((((y << 12u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 12u16)) >> 12u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 12u16)) >> 13u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 12u16)) >> 14u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 12u16)) >> 15u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_13(x: u16) ensures dec16((x << 13u16) as int), bit((x << 13u16) as int, 0) == false, bit((x << 13u16) as int, 1) == false, bit((x << 13u16) as int, 2) == false, bit((x << 13u16) as int, 3) == false, bit((x << 13u16) as int, 4) == false, bit((x << 13u16) as int, 5) == false, bit((x << 13u16) as int, 6) == false, bit((x << 13u16) as int, 7) == false, bit((x << 13u16) as int, 8) == false, bit((x << 13u16) as int, 9) == false, bit((x << 13u16) as int, 10) == false, bit((x << 13u16) as int, 11) == false, bit((x << 13u16) as int, 12) == false, bit((x << 13u16) as int, 13) == bit(x as int, 0), bit((x << 13u16) as int, 14) == bit(x as int, 1), bit((x << 13u16) as int, 15) == bit(x as int, 2)
{
    hide(dec16); lem_dec16(x << 13u16); let (y, z) = (x as u16, (x << 13u16) as u16);
    assert((x << 13u16) as u16 == ((x as u16) << 13u16)) by (bit_vector);
    assert(((((((y << 13u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 13u16)) >> 13u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 13u16)) >> 14u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 13u16)) >> 15u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_14(x: u16) ensures dec16((x << 14u16) as int), bit((x << 14u16) as int, 0) == false, bit((x << 14u16) as int, 1) == false, bit((x << 14u16) as int, 2) == false, bit((x << 14u16) as int, 3) == false, bit((x << 14u16) as int, 4) == false, bit((x << 14u16) as int, 5) == false, bit((x << 14u16) as int, 6) == false, bit((x << 14u16) as int, 7) == false, bit((x << 14u16) as int, 8) == false, bit((x << 14u16) as int, 9) == false, bit((x << 14u16) as int, 10) == false, bit((x << 14u16) as int, 11) == false, bit((x << 14u16) as int, 12) == false, bit((x << 14u16) as int, 13) == false, bit((x << 14u16) as int, 14) == bit(x as int, 0), bit((x << 14u16) as int, 15) == bit(x as int, 1)
{
    hide(dec16); lem_dec16(x << 14u16); let (y, z) = (x as u16, (x << 14u16) as u16);
    assert((x << 14u16) as u16 == ((x as u16) << 14u16)) by (bit_vector);
    assert(((((((y << 14u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 14u16)) >> 14u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y << 14u16)) >> 15u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shl16_15(x: u16) ensures dec16((x << 15u16) as int), bit((x << 15u16) as int, 0) == false, bit((x << 15u16) as int, 1) == false, bit((x << 15u16) as int, 2) == false, bit((x << 15u16) as int, 3) == false, bit((x << 15u16) as int, 4) == false, bit((x << 15u16) as int, 5) == false, bit((x << 15u16) as int, 6) == false, bit((x << 15u16) as int, 7) == false, bit((x << 15u16) as int, 8) == false, bit((x << 15u16) as int, 9) == false, bit((x << 15u16) as int, 10) == false, bit((x << 15u16) as int, 11) == false, bit((x << 15u16) as int, 12) == false, bit((x << 15u16) as int, 13) == false, bit((x << 15u16) as int, 14) == false, bit((x << 15u16) as int, 15) == bit(x as int, 0)
{
    hide(dec16); lem_dec16(x << 15u16); let (y, z) = (x as u16, (x << 15u16) as u16);
    assert((x << 15u16) as u16 == ((x as u16) << 15u16)) by (bit_vector);
    assert(((((((y << 15u16)) >> 0u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y << 15u16)) >> 15u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
}
pub broadcast proof fn bl_shl16(x: u16, k: u16) ensures #![trigger x << k] dec16(x as int), k == 0 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == bit(x as int, 0) && bit((x << k) as int, 1) == bit(x as int, 1) && bit((x << k) as int, 2) == bit(x as int, 2) && bit((x << k) as int, 3) == bit(x as int, 3) && bit((x << k) as int, 4) == bit(x as int, 4) && bit((x << k) as int, 5) == bit(x as int, 5) && bit((x << k) as int, 6) == bit(x as int, 6) && bit((x << k) as int, 7) == bit(x as int, 7) && bit((x << k) as int, 8) == bit(x as int, 8) && bit((x << k) as int, 9) == bit(x as int, 9) && bit((x << k) as int, 10) == bit(x as int, 10) && bit((x << k) as int, 11) == bit(x as int, 11) && bit((x << k) as int, 12) == bit(x as int, 12) && bit((x << k) as int, 13) == bit(x as int, 13) && bit((x << k) as int, 14) == bit(x as int, 14) && bit((x << k) as int, 15) == bit(x as int, 15),
    k == 1 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == bit(x as int, 0) && bit((x << k) as int, 2) == bit(x as int, 1) && bit((x << k) as int, 3) == bit(x as int, 2) && bit((x << k) as int, 4) == bit(x as int, 3) && bit((x << k) as int, 5) == bit(x as int, 4) && bit((x << k) as int, 6) == bit(x as int, 5) && bit((x << k) as int, 7) == bit(x as int, 6) && bit((x << k) as int, 8) == bit(x as int, 7) && bit((x << k) as int, 9) == bit(x as int, 8) && bit((x << k) as int, 10) == bit(x as int, 9) && bit((x << k) as int, 11) == bit(x as int, 10) && bit((x << k) as int, 12) == bit(x as int, 11) && bit((x << k) as int, 13) == bit(x as int, 12) && bit((x << k) as int, 14) == bit(x as int, 13) && bit((x << k) as int, 15) == bit(x as int, 14),
    k == 2 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == bit(x as int, 0) && bit((x << k) as int, 3) == bit(x as int, 1) && bit((x << k) as int, 4) == bit(x as int, 2) && bit((x << k) as int, 5) == bit(x as int, 3) && bit((x << k) as int, 6) == bit(x as int, 4) && bit((x << k) as int, 7) == bit(x as int, 5) && bit((x << k) as int, 8) == bit(x as int, 6) && bit((x << k) as int, 9) == bit(x as int, 7) && bit((x << k) as int, 10) == bit(x as int, 8) && bit((x << k) as int, 11) == bit(x as int, 9) && bit((x << k) as int, 12) == bit(x as int, 10) && bit((x << k) as int, 13) == bit(x as int, 11) && bit((x << k) as int, 14) == bit(x as int, 12) && bit((x << k) as int, 15) == bit(x as int, 13),
    k == 3 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == bit(x as int, 0) && bit((x << k) as int, 4) == bit(x as int, 1) && bit((x << k) as int, 5) == bit(x as int, 2) && bit((x << k) as int, 6) == bit(x as int, 3) && bit((x << k) as int, 7) == bit(x as int, 4) && bit((x << k) as int, 8) == bit(x as int, 5) && bit((x << k) as int, 9) == bit(x as int, 6) && bit((x << k) as int, 10) == bit(x as int, 7) && bit((x << k) as int, 11) == bit(x as int, 8) && bit((x << k) as int, 12) == bit(x as int, 9) && bit((x << k) as int, 13) == bit(x as int, 10) && bit((x << k) as int, 14) == bit(x as int, 11) && bit((x << k) as int, 15) == bit(x as int, 12),
    k == 4 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == bit(x as int, 0) && bit((x << k) as int, 5) == bit(x as int, 1) && bit((x << k) as int, 6) == bit(x as int, 2) && bit((x << k) as int, 7) == bit(x as int, 3) && bit((x << k) as int, 8) == bit(x as int, 4) && bit((x << k) as int, 9) == bit(x as int, 5) && bit((x << k) as int, 10) == bit(x as int, 6) && bit((x << k) as int, 11) == bit(x as int, 7) && bit((x << k) as int, 12) == bit(x as int, 8) && bit((x << k) as int, 13) == bit(x as int, 9) && bit((x << k) as int, 14) == bit(x as int, 10) && bit((x << k) as int, 15) == bit(x as int, 11),
    k == 5 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == bit(x as int, 0) && bit((x << k) as int, 6) == bit(x as int, 1) && bit((x << k) as int, 7) == bit(x as int, 2) && bit((x << k) as int, 8) == bit(x as int, 3) && bit((x << k) as int, 9) == bit(x as int, 4) && bit((x << k) as int, 10) == bit(x as int, 5) && bit((x << k) as int, 11) == bit(x as int, 6) && bit((x << k) as int, 12) == bit(x as int, 7) && bit((x << k) as int, 13) == bit(x as int, 8) && bit((x << k) as int, 14) == bit(x as int, 9) && bit((x << k) as int, 15) == bit(x as int, 10),
    k == 6 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == bit(x as int, 0) && bit((x << k) as int, 7) == bit(x as int, 1) && bit((x << k) as int, 8) == bit(x as int, 2) && bit((x << k) as int, 9) == bit(x as int, 3) && bit((x << k) as int, 10) == bit(x as int, 4) && bit((x << k) as int, 11) == bit(x as int, 5) && bit((x << k) as int, 12) == bit(x as int, 6) && bit((x << k) as int, 13) == bit(x as int, 7) && bit((x << k) as int, 14) == bit(x as int, 8) && bit((x << k) as int, 15) == bit(x as int, 9),
    k == 7 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == bit(x as int, 0) && bit((x << k) as int, 8) == bit(x as int, 1) && bit((x << k) as int, 9) == bit(x as int, 2) && bit((x << k) as int, 10) == bit(x as int, 3) && bit((x << k) as int, 11) == bit(x as int, 4) && bit((x << k) as int, 12) == bit(x as int, 5) && bit((x << k) as int, 13) == bit(x as int, 6) && bit((x << k) as int, 14) == bit(x as int, 7) && bit((x << k) as int, 15) == bit(x as int, 8),
    k == 8 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == bit(x as int, 0) && bit((x << k) as int, 9) == bit(x as int, 1) && bit((x << k) as int, 10) == bit(x as int, 2) && bit((x << k) as int, 11) == bit(x as int, 3) && bit((x << k) as int, 12) == bit(x as int, 4) && bit((x << k) as int, 13) == bit(x as int, 5) && bit((x << k) as int, 14) == bit(x as int, 6) && bit((x << k) as int, 15) == bit(x as int, 7),
    k == 9 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == false && bit((x << k) as int, 9) == bit(x as int, 0) && bit((x << k) as int, 10) == bit(x as int, 1) && bit((x << k) as int, 11) == bit(x as int, 2) && bit((x << k) as int, 12) == bit(x as int, 3) && bit((x << k) as int, 13) == bit(x as int, 4) && bit((x << k) as int, 14) == bit(x as int, 5) && bit((x << k) as int, 15) == bit(x as int, 6),
    k == 10 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == false && bit((x << k) as int, 9) == false && bit((x << k) as int, 10) == bit(x as int, 0) && bit((x << k) as int, 11) == bit(x as int, 1) && bit((x << k) as int, 12) == bit(x as int, 2) && bit((x << k) as int, 13) == bit(x as int, 3) && bit((x << k) as int, 14) == bit(x as int, 4) && bit((x << k) as int, 15) == bit(x as int, 5),
    k == 11 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == false && bit((x << k) as int, 9) == false && bit((x << k) as int, 10) == false && bit((x << k) as int, 11) == bit(x as int, 0) && bit((x << k) as int, 12) == bit(x as int, 1) && bit((x << k) as int, 13) == bit(x as int, 2) && bit((x << k) as int, 14) == bit(x as int, 3) && bit((x << k) as int, 15) == bit(x as int, 4),
    k == 12 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == false && bit((x << k) as int, 9) == false && bit((x << k) as int, 10) == false && bit((x << k) as int, 11) == false && bit((x << k) as int, 12) == bit(x as int, 0) && bit((x << k) as int, 13) == bit(x as int, 1) && bit((x << k) as int, 14) == bit(x as int, 2) && bit((x << k) as int, 15) == bit(x as int, 3),
    k == 13 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == false && bit((x << k) as int, 9) == false && bit((x << k) as int, 10) == false && bit((x << k) as int, 11) == false && bit((x << k) as int, 12) == false && bit((x << k) as int, 13) == bit(x as int, 0) && bit((x << k) as int, 14) == bit(x as int, 1) && bit((x << k) as int, 15) == bit(x as int, 2),
    k == 14 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == false && bit((x << k) as int, 9) == false && bit((x << k) as int, 10) == false && bit((x << k) as int, 11) == false && bit((x << k) as int, 12) == false && bit((x << k) as int, 13) == false && bit((x << k) as int, 14) == bit(x as int, 0) && bit((x << k) as int, 15) == bit(x as int, 1),
    k == 15 ==> dec16((x << k) as int) && bit((x << k) as int, 0) == false && bit((x << k) as int, 1) == false && bit((x << k) as int, 2) == false && bit((x << k) as int, 3) == false && bit((x << k) as int, 4) == false && bit((x << k) as int, 5) == false && bit((x << k) as int, 6) == false && bit((x << k) as int, 7) == false && bit((x << k) as int, 8) == false && bit((x << k) as int, 9) == false && bit((x << k) as int, 10) == false && bit((x << k) as int, 11) == false && bit((x << k) as int, 12) == false && bit((x << k) as int, 13) == false && bit((x << k) as int, 14) == false && bit((x << k) as int, 15) == bit(x as int, 0)
{
    hide(dec16); hide(bit); lem_dec16(x);
    if k == 0 { bl_shl16_0(x); }
    if k == 1 { bl_shl16_1(x); }
    if k == 2 { bl_shl16_2(x); }
    if k == 3 { bl_shl16_3(x); }
    if k == 4 { bl_shl16_4(x); }
    if k == 5 { bl_shl16_5(x); }
    if k == 6 { bl_shl16_6(x); }
    if k == 7 { bl_shl16_7(x); }
    if k == 8 { bl_shl16_8(x); }
    if k == 9 { bl_shl16_9(x); }
    if k == 10 { bl_shl16_10(x); }
    if k == 11 { bl_shl16_11(x); }
    if k == 12 { bl_shl16_12(x); }
    if k == 13 { bl_shl16_13(x); }
    if k == 14 { bl_shl16_14(x); }
    if k == 15 { bl_shl16_15(x); }
}
proof fn bl_shr16_0(x: u16) ensures dec16((x >> 0u16) as int), bit((x >> 0u16) as int, 0) == bit(x as int, 0), bit((x >> 0u16) as int, 1) == bit(x as int, 1), bit((x >> 0u16) as int, 2) == bit(x as int, 2), bit((x >> 0u16) as int, 3) == bit(x as int, 3), bit((x >> 0u16) as int, 4) == bit(x as int, 4), bit((x >> 0u16) as int, 5) == bit(x as int, 5), bit((x >> 0u16) as int, 6) == bit(x as int, 6), bit((x >> 0u16) as int, 7) == bit(x as int, 7), bit((x >> 0u16) as int, 8) == bit(x as int, 8), bit((x >> 0u16) as int, 9) == bit(x as int, 9), bit((x >> 0u16) as int, 10) == bit(x as int, 10), bit((x >> 0u16) as int, 11) == bit(x as int, 11), bit((x >> 0u16) as int, 12) == bit(x as int, 12), bit((x >> 0u16) as int, 13) == bit(x as int, 13), bit((x >> 0u16) as int, 14) == bit(x as int, 14), bit((x >> 0u16) as int, 15) == bit(x as int, 15)
{
    hide(dec16); lem_dec16(x >> 0u16); let (y, z) = (x as u16, (x >> 0u16) as u16);
    assert((x >> 0u16) as u16 == ((x as u16) >> 0u16)) by (bit_vector);
    assert(((((((y >> 0u16)) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 8u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 9u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 10u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 11u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 12u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 13u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 14u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 0u16)) >> 15u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
}
proof fn bl_shr16_1(x: u16) ensures dec16((x >> 1u16) as int), bit((x >> 1u16) as int, 0) == bit(x as int, 1), bit((x >> 1u16) as int, 1) == bit(x as int, 2), bit((x >> 1u16) as int, 2) == bit(x as int, 3), bit((x >> 1u16) as int, 3) == bit(x as int, 4), bit((x >> 1u16) as int, 4) == bit(x as int, 5), bit((x >> 1u16) as int, 5) == bit(x as int, 6), bit((x >> 1u16) as int, 6) == bit(x as int, 7), bit((x >> 1u16) as int, 7) == bit(x as int, 8), bit((x >> 1u16) as int, 8) == bit(x as int, 9), bit((x >> 1u16) as int, 9) == bit(x as int, 10), bit((x >> 1u16) as int, 10) == bit(x as int, 11), bit((x >> 1u16) as int, 11) == bit(x as int, 12), bit((x >> 1u16) as int, 12) == bit(x as int, 13), bit((x >> 1u16) as int, 13) == bit(x as int, 14), bit((x >> 1u16) as int, 14) == bit(x as int, 15), bit((x >> 1u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 1u16); let (y, z) = (x as u16, (x >> 1u16) as u16);
    assert((x >> 1u16) as u16 == ((x as u16) >> 1u16)) by (bit_vector);
    assert(((((((y >> 1u16)) >> 0u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 1u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 2u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 3u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 4u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 5u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 6u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 7u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 8u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 9u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 10u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 11u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 12u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 13u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 14u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 1u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_2(x: u16) ensures dec16((x >> 2u16) as int), bit((x >> 2u16) as int, 0) == bit(x as int, 2), bit((x >> 2u16) as int, 1) == bit(x as int, 3), bit((x >> 2u16) as int, 2) == bit(x as int, 4), bit((x >> 2u16) as int, 3) == bit(x as int, 5), bit((x >> 2u16) as int, 4) == bit(x as int, 6), bit((x >> 2u16) as int, 5) == bit(x as int, 7), bit((x >> 2u16) as int, 6) == bit(x as int, 8), bit((x >> 2u16) as int, 7) == bit(x as int, 9), bit((x >> 2u16) as int, 8) == bit(x as int, 10), bit((x >> 2u16) as int, 9) == bit(x as int, 11), bit((x >> 2u16) as int, 10) == bit(x as int, 12), bit((x >> 2u16) as int, 11) == bit(x as int, 13), bit((x >> 2u16) as int, 12) == bit(x as int, 14), bit((x >> 2u16) as int, 13) == bit(x as int, 15), bit((x >> 2u16) as int, 14) == false, bit((x >> 2u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 2u16); let (y, z) = (x as u16, (x >> 2u16) as u16);
    assert((x >> 2u16) as u16 == ((x as u16) >> 2u16)) by (bit_vector);
    assert(((((((y >> 2u16)) >> 0u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 1u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 2u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 3u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 4u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 5u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 6u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 7u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 8u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 9u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 10u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 11u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 12u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 13u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 2u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 2u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_3(x: u16) ensures dec16((x >> 3u16) as int), bit((x >> 3u16) as int, 0) == bit(x as int, 3), bit((x >> 3u16) as int, 1) == bit(x as int, 4), bit((x >> 3u16) as int, 2) == bit(x as int, 5), bit((x >> 3u16) as int, 3) == bit(x as int, 6), bit((x >> 3u16) as int, 4) == bit(x as int, 7), bit((x >> 3u16) as int, 5) == bit(x as int, 8), bit((x >> 3u16) as int, 6) == bit(x as int, 9), bit((x >> 3u16) as int, 7) == bit(x as int, 10), bit((x >> 3u16) as int, 8) == bit(x as int, 11), bit((x >> 3u16) as int, 9) == bit(x as int, 12), bit((x >> 3u16) as int, 10) == bit(x as int, 13), bit((x >> 3u16) as int, 11) == bit(x as int, 14), bit((x >> 3u16) as int, 12) == bit(x as int, 15), bit((x >> 3u16) as int, 13) == false, bit((x >> 3u16) as int, 14) == false, bit((x >> 3u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 3u16); let (y, z) = (x as u16, (x >> 3u16) as u16);
    assert((x >> 3u16) as u16 == ((x as u16) >> 3u16)) by (bit_vector);
    assert(((((((y >> 3u16)) >> 0u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 1u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 2u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 3u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 4u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 5u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 6u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 7u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 8u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 9u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 10u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 11u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 12u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 3u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 3u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 3u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_4(x: u16) ensures dec16((x >> 4u16) as int), bit((x >> 4u16) as int, 0) == bit(x as int, 4), bit((x >> 4u16) as int, 1) == bit(x as int, 5), bit((x >> 4u16) as int, 2) == bit(x as int, 6), bit((x >> 4u16) as int, 3) == bit(x as int, 7), bit((x >> 4u16) as int, 4) == bit(x as int, 8), bit((x >> 4u16) as int, 5) == bit(x as int, 9), bit((x >> 4u16) as int, 6) == bit(x as int, 10), bit((x >> 4u16) as int, 7) == bit(x as int, 11), bit((x >> 4u16) as int, 8) == bit(x as int, 12), bit((x >> 4u16) as int, 9) == bit(x as int, 13), bit((x >> 4u16) as int, 10) == bit(x as int, 14), bit((x >> 4u16) as int, 11) == bit(x as int, 15), bit((x >> 4u16) as int, 12) == false, bit((x >> 4u16) as int, 13) == false, bit((x >> 4u16) as int, 14) == false, bit((x >> 4u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 4u16); let (y, z) = (x as u16, (x >> 4u16) as u16);
    assert((x >> 4u16) as u16 == ((x as u16) >> 4u16)) by (bit_vector);
    assert(((((((y >> 4u16)) >> 0u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 1u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 2u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 3u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 4u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 5u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 6u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 7u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 8u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 9u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 10u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 11u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 4u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 4u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 4u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 4u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_5(x: u16) ensures dec16((x >> 5u16) as int), bit((x >> 5u16) as int, 0) == bit(x as int, 5), bit((x >> 5u16) as int, 1) == bit(x as int, 6), bit((x >> 5u16) as int, 2) == bit(x as int, 7), bit((x >> 5u16) as int, 3) == bit(x as int, 8), bit((x >> 5u16) as int, 4) == bit(x as int, 9), bit((x >> 5u16) as int, 5) == bit(x as int, 10), bit((x >> 5u16) as int, 6) == bit(x as int, 11), bit((x >> 5u16) as int, 7) == bit(x as int, 12), bit((x >> 5u16) as int, 8) == bit(x as int, 13), bit((x >> 5u16) as int, 9) == bit(x as int, 14), bit((x >> 5u16) as int, 10) == bit(x as int, 15), bit((x >> 5u16) as int, 11) == false, bit((x >> 5u16) as int, 12) == false, bit((x >> 5u16) as int, 13) == false, bit((x >> 5u16) as int, 14) == false, bit((x >> 5u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 5u16); let (y, z) = (x as u16, (x >> 5u16) as u16);
    assert((x >> 5u16) as u16 == ((x as u16) >> 5u16)) by (bit_vector);
    assert(((((((y >> 5u16)) >> 0u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 1u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 2u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 3u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 4u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 5u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 6u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 7u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 8u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 9u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 10u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 5u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 5u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 5u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 5u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 5u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_6(x: u16) ensures dec16((x >> 6u16) as int), bit((x >> 6u16) as int, 0) == bit(x as int, 6), bit((x >> 6u16) as int, 1) == bit(x as int, 7), bit((x >> 6u16) as int, 2) == bit(x as int, 8), bit((x >> 6u16) as int, 3) == bit(x as int, 9), bit((x >> 6u16) as int, 4) == bit(x as int, 10), bit((x >> 6u16) as int, 5) == bit(x as int, 11), bit((x >> 6u16) as int, 6) == bit(x as int, 12), bit((x >> 6u16) as int, 7) == bit(x as int, 13), bit((x >> 6u16) as int, 8) == bit(x as int, 14), bit((x >> 6u16) as int, 9) == bit(x as int, 15), bit((x >> 6u16) as int, 10) == false, bit((x >> 6u16) as int, 11) == false, bit((x >> 6u16) as int, 12) == false, bit((x >> 6u16) as int, 13) == false, bit((x >> 6u16) as int, 14) == false, bit((x >> 6u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 6u16); let (y, z) = (x as u16, (x >> 6u16) as u16);
    assert((x >> 6u16) as u16 == ((x as u16) >> 6u16)) by (bit_vector);
    assert(((((((y >> 6u16)) >> 0u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 1u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 2u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 3u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 4u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 5u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 6u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 7u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 8u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 9u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 6u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 6u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 6u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 6u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 6u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 6u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_7(x: u16) ensures dec16((x >> 7u16) as int), bit((x >> 7u16) as int, 0) == bit(x as int, 7), bit((x >> 7u16) as int, 1) == bit(x as int, 8), bit((x >> 7u16) as int, 2) == bit(x as int, 9), bit((x >> 7u16) as int, 3) == bit(x as int, 10), bit((x >> 7u16) as int, 4) == bit(x as int, 11), bit((x >> 7u16) as int, 5) == bit(x as int, 12), bit((x >> 7u16) as int, 6) == bit(x as int, 13), bit((x >> 7u16) as int, 7) == bit(x as int, 14), bit((x >> 7u16) as int, 8) == bit(x as int, 15), bit((x >> 7u16) as int, 9) == false, bit((x >> 7u16) as int, 10) == false, bit((x >> 7u16) as int, 11) == false, bit((x >> 7u16) as int, 12) == false, bit((x >> 7u16) as int, 13) == false, bit((x >> 7u16) as int, 14) == false, bit((x >> 7u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 7u16); let (y, z) = (x as u16, (x >> 7u16) as u16);
    assert((x >> 7u16) as u16 == ((x as u16) >> 7u16)) by (bit_vector);
    assert(((((((y >> 7u16)) >> 0u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 1u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 2u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 3u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 4u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 5u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 6u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 7u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 8u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 7u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 7u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 7u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 7u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 7u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 7u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 7u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_8(x: u16) ensures dec16((x >> 8u16) as int), bit((x >> 8u16) as int, 0) == bit(x as int, 8), bit((x >> 8u16) as int, 1) == bit(x as int, 9), bit((x >> 8u16) as int, 2) == bit(x as int, 10), bit((x >> 8u16) as int, 3) == bit(x as int, 11), bit((x >> 8u16) as int, 4) == bit(x as int, 12), bit((x >> 8u16) as int, 5) == bit(x as int, 13), bit((x >> 8u16) as int, 6) == bit(x as int, 14), bit((x >> 8u16) as int, 7) == bit(x as int, 15), bit((x >> 8u16) as int, 8) == false, bit((x >> 8u16) as int, 9) == false, bit((x >> 8u16) as int, 10) == false, bit((x >> 8u16) as int, 11) == false, bit((x >> 8u16) as int, 12) == false, bit((x >> 8u16) as int, 13) == false, bit((x >> 8u16) as int, 14) == false, bit((x >> 8u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 8u16); let (y, z) = (x as u16, (x >> 8u16) as u16);
    assert((x >> 8u16) as u16 == ((x as u16) >> 8u16)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 0u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 1u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 2u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 3u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 4u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 5u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 6u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 7u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 8u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 8u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_9(x: u16) ensures dec16((x >> 9u16) as int), bit((x >> 9u16) as int, 0) == bit(x as int, 9), bit((x >> 9u16) as int, 1) == bit(x as int, 10), bit((x >> 9u16) as int, 2) == bit(x as int, 11), bit((x >> 9u16) as int, 3) == bit(x as int, 12), bit((x >> 9u16) as int, 4) == bit(x as int, 13), bit((x >> 9u16) as int, 5) == bit(x as int, 14), bit((x >> 9u16) as int, 6) == bit(x as int, 15), bit((x >> 9u16) as int, 7) == false, bit((x >> 9u16) as int, 8) == false, bit((x >> 9u16) as int, 9) == false, bit((x >> 9u16) as int, 10) == false, bit((x >> 9u16) as int, 11) == false, bit((x >> 9u16) as int, 12) == false, bit((x >> 9u16) as int, 13) == false, bit((x >> 9u16) as int, 14) == false, bit((x >> 9u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 9u16); let (y, z) = (x as u16, (x >> 9u16) as u16);
    assert((x >> 9u16) as u16 == ((x as u16) >> 9u16)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 0u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 9u16)) >> 1u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 9u16)) >> 2u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 9u16)) >> 3u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 9u16)) >> 4u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 9u16)) >> 5u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 9u16)) >> 6u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 9u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 9u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_10(x: u16) ensures dec16((x >> 10u16) as int), bit((x >> 10u16) as int, 0) == bit(x as int, 10), bit((x >> 10u16) as int, 1) == bit(x as int, 11), bit((x >> 10u16) as int, 2) == bit(x as int, 12), bit((x >> 10u16) as int, 3) == bit(x as int, 13), bit((x >> 10u16) as int, 4) == bit(x as int, 14), bit((x >> 10u16) as int, 5) == bit(x as int, 15), bit((x >> 10u16) as int, 6) == false, bit((x >> 10u16) as int, 7) == false, bit((x >> 10u16) as int, 8) == false, bit((x >> 10u16) as int, 9) == false, bit((x >> 10u16) as int, 10) == false, bit((x >> 10u16) as int, 11) == false, bit((x >> 10u16) as int, 12) == false, bit((x >> 10u16) as int, 13) == false, bit((x >> 10u16) as int, 14) == false, bit((x >> 10u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 10u16); let (y, z) = (x as u16, (x >> 10u16) as u16);
    assert((x >> 10u16) as u16 == ((x as u16) >> 10u16)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 0u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 10u16)) >> 1u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 10u16)) >> 2u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 10u16)) >> 3u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 10u16)) >> 4u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 10u16)) >> 5u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 10u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 10u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_11(x: u16) ensures dec16((x >> 11u16) as int), bit((x >> 11u16) as int, 0) == bit(x as int, 11), bit((x >> 11u16) as int, 1) == bit(x as int, 12), bit((x >> 11u16) as int, 2) == bit(x as int, 13), bit((x >> 11u16) as int, 3) == bit(x as int, 14), bit((x >> 11u16) as int, 4) == bit(x as int, 15), bit((x >> 11u16) as int, 5) == false, bit((x >> 11u16) as int, 6) == false, bit((x >> 11u16) as int, 7) == false, bit((x >> 11u16) as int, 8) == false, bit((x >> 11u16) as int, 9) == false, bit((x >> 11u16) as int, 10) == false, bit((x >> 11u16) as int, 11) == false, bit((x >> 11u16) as int, 12) == false, bit((x >> 11u16) as int, 13) == false, bit((x >> 11u16) as int, 14) == false, bit((x >> 11u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 11u16); let (y, z) = (x as u16, (x >> 11u16) as u16);
    assert((x >> 11u16) as u16 == ((x as u16) >> 11u16)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 0u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 11u16)) >> 1u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 11u16)) >> 2u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 11u16)) >> 3u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 11u16)) >> 4u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 11u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 11u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_12(x: u16) ensures dec16((x >> 12u16) as int), bit((x >> 12u16) as int, 0) == bit(x as int, 12), bit((x >> 12u16) as int, 1) == bit(x as int, 13), bit((x >> 12u16) as int, 2) == bit(x as int, 14), bit((x >> 12u16) as int, 3) == bit(x as int, 15), bit((x >> 12u16) as int, 4) == false, bit((x >> 12u16) as int, 5) == false, bit((x >> 12u16) as int, 6) == false, bit((x >> 12u16) as int, 7) == false, bit((x >> 12u16) as int, 8) == false, bit((x >> 12u16) as int, 9) == false, bit((x >> 12u16) as int, 10) == false, bit((x >> 12u16) as int, 11) == false, bit((x >> 12u16) as int, 12) == false, bit((x >> 12u16) as int, 13) == false, bit((x >> 12u16) as int, 14) == false, bit((x >> 12u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 12u16); let (y, z) = (x as u16, (x >> 12u16) as u16);
    assert((x >> 12u16) as u16 == ((x as u16) >> 12u16)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 0u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 12u16)) >> 1u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 12u16)) >> 2u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 12u16)) >> 3u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 12u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 12u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_13(x: u16) ensures dec16((x >> 13u16) as int), bit((x >> 13u16) as int, 0) == bit(x as int, 13), bit((x >> 13u16) as int, 1) == bit(x as int, 14), bit((x >> 13u16) as int, 2) == bit(x as int, 15), bit((x >> 13u16) as int, 3) == false, bit((x >> 13u16) as int, 4) == false, bit((x >> 13u16) as int, 5) == false, bit((x >> 13u16) as int, 6) == false, bit((x >> 13u16) as int, 7) == false, bit((x >> 13u16) as int, 8) == false, bit((x >> 13u16) as int, 9) == false, bit((x >> 13u16) as int, 10) == false, bit((x >> 13u16) as int, 11) == false, bit((x >> 13u16) as int, 12) == false, bit((x >> 13u16) as int, 13) == false, bit((x >> 13u16) as int, 14) == false, bit((x >> 13u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 13u16); let (y, z) = (x as u16, (x >> 13u16) as u16);
    assert((x >> 13u16) as u16 == ((x as u16) >> 13u16)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 0u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 13u16)) >> 1u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 13u16)) >> 2u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 13u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 13u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_14(x: u16) ensures dec16((x >> 14u16) as int), bit((x >> 14u16) as int, 0) == bit(x as int, 14), bit((x >> 14u16) as int, 1) == bit(x as int, 15), bit((x >> 14u16) as int, 2) == false, bit((x >> 14u16) as int, 3) == false, bit((x >> 14u16) as int, 4) == false, bit((x >> 14u16) as int, 5) == false, bit((x >> 14u16) as int, 6) == false, bit((x >> 14u16) as int, 7) == false, bit((x >> 14u16) as int, 8) == false, bit((x >> 14u16) as int, 9) == false, bit((x >> 14u16) as int, 10) == false, bit((x >> 14u16) as int, 11) == false, bit((x >> 14u16) as int, 12) == false, bit((x >> 14u16) as int, 13) == false, bit((x >> 14u16) as int, 14) == false, bit((x >> 14u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 14u16); let (y, z) = (x as u16, (x >> 14u16) as u16);
    assert((x >> 14u16) as u16 == ((x as u16) >> 14u16)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 0u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 14u16)) >> 1u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 14u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 14u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
proof fn bl_shr16_15(x: u16) ensures dec16((x >> 15u16) as int), bit((x >> 15u16) as int, 0) == bit(x as int, 15), bit((x >> 15u16) as int, 1) == false, bit((x >> 15u16) as int, 2) == false, bit((x >> 15u16) as int, 3) == false, bit((x >> 15u16) as int, 4) == false, bit((x >> 15u16) as int, 5) == false, bit((x >> 15u16) as int, 6) == false, bit((x >> 15u16) as int, 7) == false, bit((x >> 15u16) as int, 8) == false, bit((x >> 15u16) as int, 9) == false, bit((x >> 15u16) as int, 10) == false, bit((x >> 15u16) as int, 11) == false, bit((x >> 15u16) as int, 12) == false, bit((x >> 15u16) as int, 13) == false, bit((x >> 15u16) as int, 14) == false, bit((x >> 15u16) as int, 15) == false
{
    hide(dec16); lem_dec16(x >> 15u16); let (y, z) = (x as u16, (x >> 15u16) as u16);
    assert((x >> 15u16) as u16 == ((x as u16) >> 15u16)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 0u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1))) by (bit_vector);
    assert(((((((y >> 15u16)) >> 1u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 2u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 3u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 4u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 5u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 6u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 7u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 8u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 9u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 10u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 11u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 12u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 13u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 14u16) & 1u16) == 1) == false)) by (bit_vector);
    assert(((((((y >> 15u16)) >> 15u16) & 1u16) == 1) == false)) by (bit_vector);
}
pub broadcast proof fn bl_shr16(x: u16, k: u16) ensures #![trigger x >> k] dec16(x as int), k == 0 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 0) && bit((x >> k) as int, 1) == bit(x as int, 1) && bit((x >> k) as int, 2) == bit(x as int, 2) && bit((x >> k) as int, 3) == bit(x as int, 3) && bit((x >> k) as int, 4) == bit(x as int, 4) && bit((x >> k) as int, 5) == bit(x as int, 5) && bit((x >> k) as int, 6) == bit(x as int, 6) && bit((x >> k) as int, 7) == bit(x as int, 7) && bit((x >> k) as int, 8) == bit(x as int, 8) && bit((x >> k) as int, 9) == bit(x as int, 9) && bit((x >> k) as int, 10) == bit(x as int, 10) && bit((x >> k) as int, 11) == bit(x as int, 11) && bit((x >> k) as int, 12) == bit(x as int, 12) && bit((x >> k) as int, 13) == bit(x as int, 13) && bit((x >> k) as int, 14) == bit(x as int, 14) && bit((x >> k) as int, 15) == bit(x as int, 15),
    k == 1 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 1) && bit((x >> k) as int, 1) == bit(x as int, 2) && bit((x >> k) as int, 2) == bit(x as int, 3) && bit((x >> k) as int, 3) == bit(x as int, 4) && bit((x >> k) as int, 4) == bit(x as int, 5) && bit((x >> k) as int, 5) == bit(x as int, 6) && bit((x >> k) as int, 6) == bit(x as int, 7) && bit((x >> k) as int, 7) == bit(x as int, 8) && bit((x >> k) as int, 8) == bit(x as int, 9) && bit((x >> k) as int, 9) == bit(x as int, 10) && bit((x >> k) as int, 10) == bit(x as int, 11) && bit((x >> k) as int, 11) == bit(x as int, 12) && bit((x >> k) as int, 12) == bit(x as int, 13) && bit((x >> k) as int, 13) == bit(x as int, 14) && bit((x >> k) as int, 14) == bit(x as int, 15) && bit((x >> k) as int, 15) == false,
    k == 2 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 2) && bit((x >> k) as int, 1) == bit(x as int, 3) && bit((x >> k) as int, 2) == bit(x as int, 4) && bit((x >> k) as int, 3) == bit(x as int, 5) && bit((x >> k) as int, 4) == bit(x as int, 6) && bit((x >> k) as int, 5) == bit(x as int, 7) && bit((x >> k) as int, 6) == bit(x as int, 8) && bit((x >> k) as int, 7) == bit(x as int, 9) && bit((x >> k) as int, 8) == bit(x as int, 10) && bit((x >> k) as int, 9) == bit(x as int, 11) && bit((x >> k) as int, 10) == bit(x as int, 12) && bit((x >> k) as int, 11) == bit(x as int, 13) && bit((x >> k) as int, 12) == bit(x as int, 14) && bit((x >> k) as int, 13) == bit(x as int, 15) && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 3 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 3) && bit((x >> k) as int, 1) == bit(x as int, 4) && bit((x >> k) as int, 2) == bit(x as int, 5) && bit((x >> k) as int, 3) == bit(x as int, 6) && bit((x >> k) as int, 4) == bit(x as int, 7) && bit((x >> k) as int, 5) == bit(x as int, 8) && bit((x >> k) as int, 6) == bit(x as int, 9) && bit((x >> k) as int, 7) == bit(x as int, 10) && bit((x >> k) as int, 8) == bit(x as int, 11) && bit((x >> k) as int, 9) == bit(x as int, 12) && bit((x >> k) as int, 10) == bit(x as int, 13) && bit((x >> k) as int, 11) == bit(x as int, 14) && bit((x >> k) as int, 12) == bit(x as int, 15) && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 4 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 4) && bit((x >> k) as int, 1) == bit(x as int, 5) && bit((x >> k) as int, 2) == bit(x as int, 6) && bit((x >> k) as int, 3) == bit(x as int, 7) && bit((x >> k) as int, 4) == bit(x as int, 8) && bit((x >> k) as int, 5) == bit(x as int, 9) && bit((x >> k) as int, 6) == bit(x as int, 10) && bit((x >> k) as int, 7) == bit(x as int, 11) && bit((x >> k) as int, 8) == bit(x as int, 12) && bit((x >> k) as int, 9) == bit(x as int, 13) && bit((x >> k) as int, 10) == bit(x as int, 14) && bit((x >> k) as int, 11) == bit(x as int, 15) && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 5 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 5) && bit((x >> k) as int, 1) == bit(x as int, 6) && bit((x >> k) as int, 2) == bit(x as int, 7) && bit((x >> k) as int, 3) == bit(x as int, 8) && bit((x >> k) as int, 4) == bit(x as int, 9) && bit((x >> k) as int, 5) == bit(x as int, 10) && bit((x >> k) as int, 6) == bit(x as int, 11) && bit((x >> k) as int, 7) == bit(x as int, 12) && bit((x >> k) as int, 8) == bit(x as int, 13) && bit((x >> k) as int, 9) == bit(x as int, 14) && bit((x >> k) as int, 10) == bit(x as int, 15) && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 6 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 6) && bit((x >> k) as int, 1) == bit(x as int, 7) && bit((x >> k) as int, 2) == bit(x as int, 8) && bit((x >> k) as int, 3) == bit(x as int, 9) && bit((x >> k) as int, 4) == bit(x as int, 10) && bit((x >> k) as int, 5) == bit(x as int, 11) && bit((x >> k) as int, 6) == bit(x as int, 12) && bit((x >> k) as int, 7) == bit(x as int, 13) && bit((x >> k) as int, 8) == bit(x as int, 14) && bit((x >> k) as int, 9) == bit(x as int, 15) && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 7 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 7) && bit((x >> k) as int, 1) == bit(x as int, 8) && bit((x >> k) as int, 2) == bit(x as int, 9) && bit((x >> k) as int, 3) == bit(x as int, 10) && bit((x >> k) as int, 4) == bit(x as int, 11) && bit((x >> k) as int, 5) == bit(x as int, 12) && bit((x >> k) as int, 6) == bit(x as int, 13) && bit((x >> k) as int, 7) == bit(x as int, 14) && bit((x >> k) as int, 8) == bit(x as int, 15) && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 8 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 8) && bit((x >> k) as int, 1) == bit(x as int, 9) && bit((x >> k) as int, 2) == bit(x as int, 10) && bit((x >> k) as int, 3) == bit(x as int, 11) && bit((x >> k) as int, 4) == bit(x as int, 12) && bit((x >> k) as int, 5) == bit(x as int, 13) && bit((x >> k) as int, 6) == bit(x as int, 14) && bit((x >> k) as int, 7) == bit(x as int, 15) && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 9 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 9) && bit((x >> k) as int, 1) == bit(x as int, 10) && bit((x >> k) as int, 2) == bit(x as int, 11) && bit((x >> k) as int, 3) == bit(x as int, 12) && bit((x >> k) as int, 4) == bit(x as int, 13) && bit((x >> k) as int, 5) == bit(x as int, 14) && bit((x >> k) as int, 6) == bit(x as int, 15) && bit((x >> k) as int, 7) == false && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 10 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 10) && bit((x >> k) as int, 1) == bit(x as int, 11) && bit((x >> k) as int, 2) == bit(x as int, 12) && bit((x >> k) as int, 3) == bit(x as int, 13) && bit((x >> k) as int, 4) == bit(x as int, 14) && bit((x >> k) as int, 5) == bit(x as int, 15) && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 11 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 11) && bit((x >> k) as int, 1) == bit(x as int, 12) && bit((x >> k) as int, 2) == bit(x as int, 13) && bit((x >> k) as int, 3) == bit(x as int, 14) && bit((x >> k) as int, 4) == bit(x as int, 15) && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 12 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 12) && bit((x >> k) as int, 1) == bit(x as int, 13) && bit((x >> k) as int, 2) == bit(x as int, 14) && bit((x >> k) as int, 3) == bit(x as int, 15) && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 13 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 13) && bit((x >> k) as int, 1) == bit(x as int, 14) && bit((x >> k) as int, 2) == bit(x as int, 15) && bit((x >> k) as int, 3) == false && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 14 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 14) && bit((x >> k) as int, 1) == bit(x as int, 15) && bit((x >> k) as int, 2) == false && bit((x >> k) as int, 3) == false && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false,
    k == 15 ==> dec16((x >> k) as int) && bit((x >> k) as int, 0) == bit(x as int, 15) && bit((x >> k) as int, 1) == false && bit((x >> k) as int, 2) == false && bit((x >> k) as int, 3) == false && bit((x >> k) as int, 4) == false && bit((x >> k) as int, 5) == false && bit((x >> k) as int, 6) == false && bit((x >> k) as int, 7) == false && bit((x >> k) as int, 8) == false && bit((x >> k) as int, 9) == false && bit((x >> k) as int, 10) == false && bit((x >> k) as int, 11) == false && bit((x >> k) as int, 12) == false && bit((x >> k) as int, 13) == false && bit((x >> k) as int, 14) == false && bit((x >> k) as int, 15) == false
{
    hide(dec16); hide(bit); lem_dec16(x);
    if k == 0 { bl_shr16_0(x); }
    if k == 1 { bl_shr16_1(x); }
    if k == 2 { bl_shr16_2(x); }
    if k == 3 { bl_shr16_3(x); }
    if k == 4 { bl_shr16_4(x); }
    if k == 5 { bl_shr16_5(x); }
    if k == 6 { bl_shr16_6(x); }
    if k == 7 { bl_shr16_7(x); }
    if k == 8 { bl_shr16_8(x); }
    if k == 9 { bl_shr16_9(x); }
    if k == 10 { bl_shr16_10(x); }
    if k == 11 { bl_shr16_11(x); }
    if k == 12 { bl_shr16_12(x); }
    if k == 13 { bl_shr16_13(x); }
    if k == 14 { bl_shr16_14(x); }
    if k == 15 { bl_shr16_15(x); }
}
proof fn bl_mod_1(x: int) requires 0 <= x < 65536 ensures bit(x % 2, 0) == bit(x, 0), bit(x % 2, 1) == false, bit(x % 2, 2) == false, bit(x % 2, 3) == false, bit(x % 2, 4) == false, bit(x % 2, 5) == false, bit(x % 2, 6) == false, bit(x % 2, 7) == false, bit(x % 2, 8) == false, bit(x % 2, 9) == false, bit(x % 2, 10) == false, bit(x % 2, 11) == false, bit(x % 2, 12) == false, bit(x % 2, 13) == false, bit(x % 2, 14) == false, bit(x % 2, 15) == false, dec16(x % 2)
{
    hide(dec16); let (y, z) = (x as u16, (x % 2) as u16); lem_dec16(z);
    assert(y % 2u16 == z);
    assert(((((y % 2u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2u16) >> 1u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 2u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 3u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 4u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 5u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_2(x: int) requires 0 <= x < 65536 ensures bit(x % 4, 0) == bit(x, 0), bit(x % 4, 1) == bit(x, 1), bit(x % 4, 2) == false, bit(x % 4, 3) == false, bit(x % 4, 4) == false, bit(x % 4, 5) == false, bit(x % 4, 6) == false, bit(x % 4, 7) == false, bit(x % 4, 8) == false, bit(x % 4, 9) == false, bit(x % 4, 10) == false, bit(x % 4, 11) == false, bit(x % 4, 12) == false, bit(x % 4, 13) == false, bit(x % 4, 14) == false, bit(x % 4, 15) == false, dec16(x % 4)
{
    hide(dec16); let (y, z) = (x as u16, (x % 4) as u16); lem_dec16(z);
    assert(y % 4u16 == z);
    assert(((((y % 4u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4u16) >> 2u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 3u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 4u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 5u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_3(x: int) requires 0 <= x < 65536 ensures bit(x % 8, 0) == bit(x, 0), bit(x % 8, 1) == bit(x, 1), bit(x % 8, 2) == bit(x, 2), bit(x % 8, 3) == false, bit(x % 8, 4) == false, bit(x % 8, 5) == false, bit(x % 8, 6) == false, bit(x % 8, 7) == false, bit(x % 8, 8) == false, bit(x % 8, 9) == false, bit(x % 8, 10) == false, bit(x % 8, 11) == false, bit(x % 8, 12) == false, bit(x % 8, 13) == false, bit(x % 8, 14) == false, bit(x % 8, 15) == false, dec16(x % 8)
{
    hide(dec16); let (y, z) = (x as u16, (x % 8) as u16); lem_dec16(z);
    assert(y % 8u16 == z);
    assert(((((y % 8u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 8u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 8u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 8u16) >> 3u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 4u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 5u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 8u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_4(x: int) requires 0 <= x < 65536 ensures bit(x % 16, 0) == bit(x, 0), bit(x % 16, 1) == bit(x, 1), bit(x % 16, 2) == bit(x, 2), bit(x % 16, 3) == bit(x, 3), bit(x % 16, 4) == false, bit(x % 16, 5) == false, bit(x % 16, 6) == false, bit(x % 16, 7) == false, bit(x % 16, 8) == false, bit(x % 16, 9) == false, bit(x % 16, 10) == false, bit(x % 16, 11) == false, bit(x % 16, 12) == false, bit(x % 16, 13) == false, bit(x % 16, 14) == false, bit(x % 16, 15) == false, dec16(x % 16)
{
    hide(dec16); let (y, z) = (x as u16, (x % 16) as u16); lem_dec16(z);
    assert(y % 16u16 == z);
    assert(((((y % 16u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 16u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 16u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 16u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 16u16) >> 4u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 5u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 16u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_5(x: int) requires 0 <= x < 65536 ensures bit(x % 32, 0) == bit(x, 0), bit(x % 32, 1) == bit(x, 1), bit(x % 32, 2) == bit(x, 2), bit(x % 32, 3) == bit(x, 3), bit(x % 32, 4) == bit(x, 4), bit(x % 32, 5) == false, bit(x % 32, 6) == false, bit(x % 32, 7) == false, bit(x % 32, 8) == false, bit(x % 32, 9) == false, bit(x % 32, 10) == false, bit(x % 32, 11) == false, bit(x % 32, 12) == false, bit(x % 32, 13) == false, bit(x % 32, 14) == false, bit(x % 32, 15) == false, dec16(x % 32)
{
    hide(dec16); let (y, z) = (x as u16, (x % 32) as u16); lem_dec16(z);
    assert(y % 32u16 == z);
    assert(((((y % 32u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 32u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 32u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 32u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 32u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 32u16) >> 5u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 32u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_6(x: int) requires 0 <= x < 65536 ensures bit(x % 64, 0) == bit(x, 0), bit(x % 64, 1) == bit(x, 1), bit(x % 64, 2) == bit(x, 2), bit(x % 64, 3) == bit(x, 3), bit(x % 64, 4) == bit(x, 4), bit(x % 64, 5) == bit(x, 5), bit(x % 64, 6) == false, bit(x % 64, 7) == false, bit(x % 64, 8) == false, bit(x % 64, 9) == false, bit(x % 64, 10) == false, bit(x % 64, 11) == false, bit(x % 64, 12) == false, bit(x % 64, 13) == false, bit(x % 64, 14) == false, bit(x % 64, 15) == false, dec16(x % 64)
{
    hide(dec16); let (y, z) = (x as u16, (x % 64) as u16); lem_dec16(z);
    assert(y % 64u16 == z);
    assert(((((y % 64u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 64u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 64u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 64u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 64u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 64u16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 64u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 64u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_7(x: int) requires 0 <= x < 65536 ensures bit(x % 128, 0) == bit(x, 0), bit(x % 128, 1) == bit(x, 1), bit(x % 128, 2) == bit(x, 2), bit(x % 128, 3) == bit(x, 3), bit(x % 128, 4) == bit(x, 4), bit(x % 128, 5) == bit(x, 5), bit(x % 128, 6) == bit(x, 6), bit(x % 128, 7) == false, bit(x % 128, 8) == false, bit(x % 128, 9) == false, bit(x % 128, 10) == false, bit(x % 128, 11) == false, bit(x % 128, 12) == false, bit(x % 128, 13) == false, bit(x % 128, 14) == false, bit(x % 128, 15) == false, dec16(x % 128)
{
    hide(dec16); let (y, z) = (x as u16, (x % 128) as u16); lem_dec16(z);
    assert(y % 128u16 == z);
    assert(((((y % 128u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 128u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 128u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 128u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 128u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 128u16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 128u16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 128u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 128u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_8(x: int) requires 0 <= x < 65536 ensures bit(x % 256, 0) == bit(x, 0), bit(x % 256, 1) == bit(x, 1), bit(x % 256, 2) == bit(x, 2), bit(x % 256, 3) == bit(x, 3), bit(x % 256, 4) == bit(x, 4), bit(x % 256, 5) == bit(x, 5), bit(x % 256, 6) == bit(x, 6), bit(x % 256, 7) == bit(x, 7), bit(x % 256, 8) == false, bit(x % 256, 9) == false, bit(x % 256, 10) == false, bit(x % 256, 11) == false, bit(x % 256, 12) == false, bit(x % 256, 13) == false, bit(x % 256, 14) == false, bit(x % 256, 15) == false, dec16(x % 256)
{
    hide(dec16); let (y, z) = (x as u16, (x % 256) as u16); lem_dec16(z);
    assert(y % 256u16 == z);
    assert(((((y % 256u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 256u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 256u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 256u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 256u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 256u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 256u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 256u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 256u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_9(x: int) requires 0 <= x < 65536 ensures bit(x % 512, 0) == bit(x, 0), bit(x % 512, 1) == bit(x, 1), bit(x % 512, 2) == bit(x, 2), bit(x % 512, 3) == bit(x, 3), bit(x % 512, 4) == bit(x, 4), bit(x % 512, 5) == bit(x, 5), bit(x % 512, 6) == bit(x, 6), bit(x % 512, 7) == bit(x, 7), bit(x % 512, 8) == bit(x, 8), bit(x % 512, 9) == false, bit(x % 512, 10) == false, bit(x % 512, 11) == false, bit(x % 512, 12) == false, bit(x % 512, 13) == false, bit(x % 512, 14) == false, bit(x % 512, 15) == false, dec16(x % 512)
{
    hide(dec16); let (y, z) = (x as u16, (x % 512) as u16); lem_dec16(z);
    assert(y % 512u16 == z);
    assert(((((y % 512u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 8u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 512u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 512u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 512u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 512u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 512u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 512u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 512u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_10(x: int) requires 0 <= x < 65536 ensures bit(x % 1024, 0) == bit(x, 0), bit(x % 1024, 1) == bit(x, 1), bit(x % 1024, 2) == bit(x, 2), bit(x % 1024, 3) == bit(x, 3), bit(x % 1024, 4) == bit(x, 4), bit(x % 1024, 5) == bit(x, 5), bit(x % 1024, 6) == bit(x, 6), bit(x % 1024, 7) == bit(x, 7), bit(x % 1024, 8) == bit(x, 8), bit(x % 1024, 9) == bit(x, 9), bit(x % 1024, 10) == false, bit(x % 1024, 11) == false, bit(x % 1024, 12) == false, bit(x % 1024, 13) == false, bit(x % 1024, 14) == false, bit(x % 1024, 15) == false, dec16(x % 1024)
{
    hide(dec16); let (y, z) = (x as u16, (x % 1024) as u16); lem_dec16(z);
    assert(y % 1024u16 == z);
    assert(((((y % 1024u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 8u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 9u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 1024u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 1024u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 1024u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 1024u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 1024u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 1024u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_11(x: int) requires 0 <= x < 65536 ensures bit(x % 2048, 0) == bit(x, 0), bit(x % 2048, 1) == bit(x, 1), bit(x % 2048, 2) == bit(x, 2), bit(x % 2048, 3) == bit(x, 3), bit(x % 2048, 4) == bit(x, 4), bit(x % 2048, 5) == bit(x, 5), bit(x % 2048, 6) == bit(x, 6), bit(x % 2048, 7) == bit(x, 7), bit(x % 2048, 8) == bit(x, 8), bit(x % 2048, 9) == bit(x, 9), bit(x % 2048, 10) == bit(x, 10), bit(x % 2048, 11) == false, bit(x % 2048, 12) == false, bit(x % 2048, 13) == false, bit(x % 2048, 14) == false, bit(x % 2048, 15) == false, dec16(x % 2048)
{
    hide(dec16); let (y, z) = (x as u16, (x % 2048) as u16); lem_dec16(z);
    assert(y % 2048u16 == z);
    assert(((((y % 2048u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 8u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 9u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 10u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 2048u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2048u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2048u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2048u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 2048u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_mod_12(x: int) requires 0 <= x < 65536 ensures bit(x % 4096, 0) == bit(x, 0), bit(x % 4096, 1) == bit(x, 1), bit(x % 4096, 2) == bit(x, 2), bit(x % 4096, 3) == bit(x, 3), bit(x % 4096, 4) == bit(x, 4), bit(x % 4096, 5) == bit(x, 5), bit(x % 4096, 6) == bit(x, 6), bit(x % 4096, 7) == bit(x, 7), bit(x % 4096, 8) == bit(x, 8), bit(x % 4096, 9) == bit(x, 9), bit(x % 4096, 10) == bit(x, 10), bit(x % 4096, 11) == bit(x, 11), bit(x % 4096, 12) == false, bit(x % 4096, 13) == false, bit(x % 4096, 14) == false, bit(x % 4096, 15) == false, dec16(x % 4096)
{
    hide(dec16); let (y, z) = (x as u16, (x % 4096) as u16); lem_dec16(z);
    assert(y % 4096u16 == z);
    assert(((((y % 4096u16) >> 0u16) & 1u16) == 1) == ((y >> 0u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 1u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 2u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 3u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 4u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 5u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 6u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 7u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 8u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 9u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 10u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 11u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y % 4096u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4096u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4096u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y % 4096u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
pub broadcast proof fn bl_mod(x: int, c: int) ensures #![trigger x % c] 0 <= x < 65536 ==> dec16(x), 0 <= x < 65536 && c == 2 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == false && bit(x % c, 2) == false && bit(x % c, 3) == false && bit(x % c, 4) == false && bit(x % c, 5) == false && bit(x % c, 6) == false && bit(x % c, 7) == false && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 4 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == false && bit(x % c, 3) == false && bit(x % c, 4) == false && bit(x % c, 5) == false && bit(x % c, 6) == false && bit(x % c, 7) == false && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 8 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == false && bit(x % c, 4) == false && bit(x % c, 5) == false && bit(x % c, 6) == false && bit(x % c, 7) == false && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 16 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == false && bit(x % c, 5) == false && bit(x % c, 6) == false && bit(x % c, 7) == false && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 32 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == false && bit(x % c, 6) == false && bit(x % c, 7) == false && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 64 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == bit(x, 5) && bit(x % c, 6) == false && bit(x % c, 7) == false && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 128 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == bit(x, 5) && bit(x % c, 6) == bit(x, 6) && bit(x % c, 7) == false && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 256 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == bit(x, 5) && bit(x % c, 6) == bit(x, 6) && bit(x % c, 7) == bit(x, 7) && bit(x % c, 8) == false && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 512 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == bit(x, 5) && bit(x % c, 6) == bit(x, 6) && bit(x % c, 7) == bit(x, 7) && bit(x % c, 8) == bit(x, 8) && bit(x % c, 9) == false && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 1024 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == bit(x, 5) && bit(x % c, 6) == bit(x, 6) && bit(x % c, 7) == bit(x, 7) && bit(x % c, 8) == bit(x, 8) && bit(x % c, 9) == bit(x, 9) && bit(x % c, 10) == false && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 2048 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == bit(x, 5) && bit(x % c, 6) == bit(x, 6) && bit(x % c, 7) == bit(x, 7) && bit(x % c, 8) == bit(x, 8) && bit(x % c, 9) == bit(x, 9) && bit(x % c, 10) == bit(x, 10) && bit(x % c, 11) == false && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false,
    0 <= x < 65536 && c == 4096 ==> dec16(x % c) && bit(x % c, 0) == bit(x, 0) && bit(x % c, 1) == bit(x, 1) && bit(x % c, 2) == bit(x, 2) && bit(x % c, 3) == bit(x, 3) && bit(x % c, 4) == bit(x, 4) && bit(x % c, 5) == bit(x, 5) && bit(x % c, 6) == bit(x, 6) && bit(x % c, 7) == bit(x, 7) && bit(x % c, 8) == bit(x, 8) && bit(x % c, 9) == bit(x, 9) && bit(x % c, 10) == bit(x, 10) && bit(x % c, 11) == bit(x, 11) && bit(x % c, 12) == false && bit(x % c, 13) == false && bit(x % c, 14) == false && bit(x % c, 15) == false
{
    hide(dec16); hide(bit); if 0 <= x < 65536 { lem_dec16(x as u16); }
    if 0 <= x < 65536 && c == 2 { bl_mod_1(x); }
    if 0 <= x < 65536 && c == 4 { bl_mod_2(x); }
    if 0 <= x < 65536 && c == 8 { bl_mod_3(x); }
    if 0 <= x < 65536 && c == 16 { bl_mod_4(x); }
    if 0 <= x < 65536 && c == 32 { bl_mod_5(x); }
    if 0 <= x < 65536 && c == 64 { bl_mod_6(x); }
    if 0 <= x < 65536 && c == 128 { bl_mod_7(x); }
    if 0 <= x < 65536 && c == 256 { bl_mod_8(x); }
    if 0 <= x < 65536 && c == 512 { bl_mod_9(x); }
    if 0 <= x < 65536 && c == 1024 { bl_mod_10(x); }
    if 0 <= x < 65536 && c == 2048 { bl_mod_11(x); }
    if 0 <= x < 65536 && c == 4096 { bl_mod_12(x); }
}
proof fn bl_div_1(x: int) requires 0 <= x < 65536 ensures bit(x / 2, 0) == bit(x, 1), bit(x / 2, 1) == bit(x, 2), bit(x / 2, 2) == bit(x, 3), bit(x / 2, 3) == bit(x, 4), bit(x / 2, 4) == bit(x, 5), bit(x / 2, 5) == bit(x, 6), bit(x / 2, 6) == bit(x, 7), bit(x / 2, 7) == bit(x, 8), bit(x / 2, 8) == bit(x, 9), bit(x / 2, 9) == bit(x, 10), bit(x / 2, 10) == bit(x, 11), bit(x / 2, 11) == bit(x, 12), bit(x / 2, 12) == bit(x, 13), bit(x / 2, 13) == bit(x, 14), bit(x / 2, 14) == bit(x, 15), bit(x / 2, 15) == false, dec16(x / 2)
{
    hide(dec16); let (y, z) = (x as u16, (x / 2) as u16); lem_dec16(z);
    assert(y / 2u16 == z);
    assert(((((y / 2u16) >> 0u16) & 1u16) == 1) == ((y >> 1u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 1u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 2u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 3u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 4u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 5u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 6u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 7u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 8u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 9u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 10u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 11u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 12u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 13u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 14u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_2(x: int) requires 0 <= x < 65536 ensures bit(x / 4, 0) == bit(x, 2), bit(x / 4, 1) == bit(x, 3), bit(x / 4, 2) == bit(x, 4), bit(x / 4, 3) == bit(x, 5), bit(x / 4, 4) == bit(x, 6), bit(x / 4, 5) == bit(x, 7), bit(x / 4, 6) == bit(x, 8), bit(x / 4, 7) == bit(x, 9), bit(x / 4, 8) == bit(x, 10), bit(x / 4, 9) == bit(x, 11), bit(x / 4, 10) == bit(x, 12), bit(x / 4, 11) == bit(x, 13), bit(x / 4, 12) == bit(x, 14), bit(x / 4, 13) == bit(x, 15), bit(x / 4, 14) == false, bit(x / 4, 15) == false, dec16(x / 4)
{
    hide(dec16); let (y, z) = (x as u16, (x / 4) as u16); lem_dec16(z);
    assert(y / 4u16 == z);
    assert(((((y / 4u16) >> 0u16) & 1u16) == 1) == ((y >> 2u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 1u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 2u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 3u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 4u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 5u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 6u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 7u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 8u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 9u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 10u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 11u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 12u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 13u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_3(x: int) requires 0 <= x < 65536 ensures bit(x / 8, 0) == bit(x, 3), bit(x / 8, 1) == bit(x, 4), bit(x / 8, 2) == bit(x, 5), bit(x / 8, 3) == bit(x, 6), bit(x / 8, 4) == bit(x, 7), bit(x / 8, 5) == bit(x, 8), bit(x / 8, 6) == bit(x, 9), bit(x / 8, 7) == bit(x, 10), bit(x / 8, 8) == bit(x, 11), bit(x / 8, 9) == bit(x, 12), bit(x / 8, 10) == bit(x, 13), bit(x / 8, 11) == bit(x, 14), bit(x / 8, 12) == bit(x, 15), bit(x / 8, 13) == false, bit(x / 8, 14) == false, bit(x / 8, 15) == false, dec16(x / 8)
{
    hide(dec16); let (y, z) = (x as u16, (x / 8) as u16); lem_dec16(z);
    assert(y / 8u16 == z);
    assert(((((y / 8u16) >> 0u16) & 1u16) == 1) == ((y >> 3u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 1u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 2u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 3u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 4u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 5u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 6u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 7u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 8u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 9u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 10u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 11u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 12u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 8u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 8u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 8u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_4(x: int) requires 0 <= x < 65536 ensures bit(x / 16, 0) == bit(x, 4), bit(x / 16, 1) == bit(x, 5), bit(x / 16, 2) == bit(x, 6), bit(x / 16, 3) == bit(x, 7), bit(x / 16, 4) == bit(x, 8), bit(x / 16, 5) == bit(x, 9), bit(x / 16, 6) == bit(x, 10), bit(x / 16, 7) == bit(x, 11), bit(x / 16, 8) == bit(x, 12), bit(x / 16, 9) == bit(x, 13), bit(x / 16, 10) == bit(x, 14), bit(x / 16, 11) == bit(x, 15), bit(x / 16, 12) == false, bit(x / 16, 13) == false, bit(x / 16, 14) == false, bit(x / 16, 15) == false, dec16(x / 16)
{
    hide(dec16); let (y, z) = (x as u16, (x / 16) as u16); lem_dec16(z);
    assert(y / 16u16 == z);
    assert(((((y / 16u16) >> 0u16) & 1u16) == 1) == ((y >> 4u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 1u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 2u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 3u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 4u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 5u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 6u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 7u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 8u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 9u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 10u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 11u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 16u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 16u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 16u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 16u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_5(x: int) requires 0 <= x < 65536 ensures bit(x / 32, 0) == bit(x, 5), bit(x / 32, 1) == bit(x, 6), bit(x / 32, 2) == bit(x, 7), bit(x / 32, 3) == bit(x, 8), bit(x / 32, 4) == bit(x, 9), bit(x / 32, 5) == bit(x, 10), bit(x / 32, 6) == bit(x, 11), bit(x / 32, 7) == bit(x, 12), bit(x / 32, 8) == bit(x, 13), bit(x / 32, 9) == bit(x, 14), bit(x / 32, 10) == bit(x, 15), bit(x / 32, 11) == false, bit(x / 32, 12) == false, bit(x / 32, 13) == false, bit(x / 32, 14) == false, bit(x / 32, 15) == false, dec16(x / 32)
{
    hide(dec16); let (y, z) = (x as u16, (x / 32) as u16); lem_dec16(z);
    assert(y / 32u16 == z);
    assert(((((y / 32u16) >> 0u16) & 1u16) == 1) == ((y >> 5u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 1u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 2u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 3u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 4u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 5u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 6u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 7u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 8u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 9u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 10u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 32u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 32u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 32u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 32u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 32u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_6(x: int) requires 0 <= x < 65536 ensures bit(x / 64, 0) == bit(x, 6), bit(x / 64, 1) == bit(x, 7), bit(x / 64, 2) == bit(x, 8), bit(x / 64, 3) == bit(x, 9), bit(x / 64, 4) == bit(x, 10), bit(x / 64, 5) == bit(x, 11), bit(x / 64, 6) == bit(x, 12), bit(x / 64, 7) == bit(x, 13), bit(x / 64, 8) == bit(x, 14), bit(x / 64, 9) == bit(x, 15), bit(x / 64, 10) == false, bit(x / 64, 11) == false, bit(x / 64, 12) == false, bit(x / 64, 13) == false, bit(x / 64, 14) == false, bit(x / 64, 15) == false, dec16(x / 64)
{
    hide(dec16); let (y, z) = (x as u16, (x / 64) as u16); lem_dec16(z);
    assert(y / 64u16 == z);
    assert(((((y / 64u16) >> 0u16) & 1u16) == 1) == ((y >> 6u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 1u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 2u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 3u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 4u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 5u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 6u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 7u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 8u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 9u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 64u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 64u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 64u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 64u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 64u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 64u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_7(x: int) requires 0 <= x < 65536 ensures bit(x / 128, 0) == bit(x, 7), bit(x / 128, 1) == bit(x, 8), bit(x / 128, 2) == bit(x, 9), bit(x / 128, 3) == bit(x, 10), bit(x / 128, 4) == bit(x, 11), bit(x / 128, 5) == bit(x, 12), bit(x / 128, 6) == bit(x, 13), bit(x / 128, 7) == bit(x, 14), bit(x / 128, 8) == bit(x, 15), bit(x / 128, 9) == false, bit(x / 128, 10) == false, bit(x / 128, 11) == false, bit(x / 128, 12) == false, bit(x / 128, 13) == false, bit(x / 128, 14) == false, bit(x / 128, 15) == false, dec16(x / 128)
{
    hide(dec16); let (y, z) = (x as u16, (x / 128) as u16); lem_dec16(z);
    assert(y / 128u16 == z);
    assert(((((y / 128u16) >> 0u16) & 1u16) == 1) == ((y >> 7u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 1u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 2u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 3u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 4u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 5u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 6u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 7u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 8u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 128u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 128u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 128u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 128u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 128u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 128u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 128u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_8(x: int) requires 0 <= x < 65536 ensures bit(x / 256, 0) == bit(x, 8), bit(x / 256, 1) == bit(x, 9), bit(x / 256, 2) == bit(x, 10), bit(x / 256, 3) == bit(x, 11), bit(x / 256, 4) == bit(x, 12), bit(x / 256, 5) == bit(x, 13), bit(x / 256, 6) == bit(x, 14), bit(x / 256, 7) == bit(x, 15), bit(x / 256, 8) == false, bit(x / 256, 9) == false, bit(x / 256, 10) == false, bit(x / 256, 11) == false, bit(x / 256, 12) == false, bit(x / 256, 13) == false, bit(x / 256, 14) == false, bit(x / 256, 15) == false, dec16(x / 256)
{
    hide(dec16); let (y, z) = (x as u16, (x / 256) as u16); lem_dec16(z);
    assert(y / 256u16 == z);
    assert(((((y / 256u16) >> 0u16) & 1u16) == 1) == ((y >> 8u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 1u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 2u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 3u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 4u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 5u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 6u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 7u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 256u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 256u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 256u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 256u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 256u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 256u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 256u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 256u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_9(x: int) requires 0 <= x < 65536 ensures bit(x / 512, 0) == bit(x, 9), bit(x / 512, 1) == bit(x, 10), bit(x / 512, 2) == bit(x, 11), bit(x / 512, 3) == bit(x, 12), bit(x / 512, 4) == bit(x, 13), bit(x / 512, 5) == bit(x, 14), bit(x / 512, 6) == bit(x, 15), bit(x / 512, 7) == false, bit(x / 512, 8) == false, bit(x / 512, 9) == false, bit(x / 512, 10) == false, bit(x / 512, 11) == false, bit(x / 512, 12) == false, bit(x / 512, 13) == false, bit(x / 512, 14) == false, bit(x / 512, 15) == false, dec16(x / 512)
{
    hide(dec16); let (y, z) = (x as u16, (x / 512) as u16); lem_dec16(z);
    assert(y / 512u16 == z);
    assert(((((y / 512u16) >> 0u16) & 1u16) == 1) == ((y >> 9u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 512u16) >> 1u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 512u16) >> 2u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 512u16) >> 3u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 512u16) >> 4u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 512u16) >> 5u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 512u16) >> 6u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 512u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 512u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_10(x: int) requires 0 <= x < 65536 ensures bit(x / 1024, 0) == bit(x, 10), bit(x / 1024, 1) == bit(x, 11), bit(x / 1024, 2) == bit(x, 12), bit(x / 1024, 3) == bit(x, 13), bit(x / 1024, 4) == bit(x, 14), bit(x / 1024, 5) == bit(x, 15), bit(x / 1024, 6) == false, bit(x / 1024, 7) == false, bit(x / 1024, 8) == false, bit(x / 1024, 9) == false, bit(x / 1024, 10) == false, bit(x / 1024, 11) == false, bit(x / 1024, 12) == false, bit(x / 1024, 13) == false, bit(x / 1024, 14) == false, bit(x / 1024, 15) == false, dec16(x / 1024)
{
    hide(dec16); let (y, z) = (x as u16, (x / 1024) as u16); lem_dec16(z);
    assert(y / 1024u16 == z);
    assert(((((y / 1024u16) >> 0u16) & 1u16) == 1) == ((y >> 10u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 1024u16) >> 1u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 1024u16) >> 2u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 1024u16) >> 3u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 1024u16) >> 4u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 1024u16) >> 5u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 1024u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 1024u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_11(x: int) requires 0 <= x < 65536 ensures bit(x / 2048, 0) == bit(x, 11), bit(x / 2048, 1) == bit(x, 12), bit(x / 2048, 2) == bit(x, 13), bit(x / 2048, 3) == bit(x, 14), bit(x / 2048, 4) == bit(x, 15), bit(x / 2048, 5) == false, bit(x / 2048, 6) == false, bit(x / 2048, 7) == false, bit(x / 2048, 8) == false, bit(x / 2048, 9) == false, bit(x / 2048, 10) == false, bit(x / 2048, 11) == false, bit(x / 2048, 12) == false, bit(x / 2048, 13) == false, bit(x / 2048, 14) == false, bit(x / 2048, 15) == false, dec16(x / 2048)
{
    hide(dec16); let (y, z) = (x as u16, (x / 2048) as u16); lem_dec16(z);
    assert(y / 2048u16 == z);
    assert(((((y / 2048u16) >> 0u16) & 1u16) == 1) == ((y >> 11u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2048u16) >> 1u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2048u16) >> 2u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2048u16) >> 3u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2048u16) >> 4u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 2048u16) >> 5u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 2048u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
proof fn bl_div_12(x: int) requires 0 <= x < 65536 ensures bit(x / 4096, 0) == bit(x, 12), bit(x / 4096, 1) == bit(x, 13), bit(x / 4096, 2) == bit(x, 14), bit(x / 4096, 3) == bit(x, 15), bit(x / 4096, 4) == false, bit(x / 4096, 5) == false, bit(x / 4096, 6) == false, bit(x / 4096, 7) == false, bit(x / 4096, 8) == false, bit(x / 4096, 9) == false, bit(x / 4096, 10) == false, bit(x / 4096, 11) == false, bit(x / 4096, 12) == false, bit(x / 4096, 13) == false, bit(x / 4096, 14) == false, bit(x / 4096, 15) == false, dec16(x / 4096)
{
    hide(dec16); let (y, z) = (x as u16, (x / 4096) as u16); lem_dec16(z);
    assert(y / 4096u16 == z);
    assert(((((y / 4096u16) >> 0u16) & 1u16) == 1) == ((y >> 12u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4096u16) >> 1u16) & 1u16) == 1) == ((y >> 13u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4096u16) >> 2u16) & 1u16) == 1) == ((y >> 14u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4096u16) >> 3u16) & 1u16) == 1) == ((y >> 15u16) & 1u16 == 1)) by (bit_vector);
    assert(((((y / 4096u16) >> 4u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 5u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 6u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 7u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 8u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 9u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 10u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 11u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 12u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 13u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 14u16) & 1u16) == 1) == false) by (bit_vector);
    assert(((((y / 4096u16) >> 15u16) & 1u16) == 1) == false) by (bit_vector);
}
pub broadcast proof fn bl_div(x: int, c: int) ensures #![trigger x / c] 0 <= x < 65536 ==> dec16(x), 0 <= x < 65536 && c == 2 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 1) && bit(x / c, 1) == bit(x, 2) && bit(x / c, 2) == bit(x, 3) && bit(x / c, 3) == bit(x, 4) && bit(x / c, 4) == bit(x, 5) && bit(x / c, 5) == bit(x, 6) && bit(x / c, 6) == bit(x, 7) && bit(x / c, 7) == bit(x, 8) && bit(x / c, 8) == bit(x, 9) && bit(x / c, 9) == bit(x, 10) && bit(x / c, 10) == bit(x, 11) && bit(x / c, 11) == bit(x, 12) && bit(x / c, 12) == bit(x, 13) && bit(x / c, 13) == bit(x, 14) && bit(x / c, 14) == bit(x, 15) && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 4 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 2) && bit(x / c, 1) == bit(x, 3) && bit(x / c, 2) == bit(x, 4) && bit(x / c, 3) == bit(x, 5) && bit(x / c, 4) == bit(x, 6) && bit(x / c, 5) == bit(x, 7) && bit(x / c, 6) == bit(x, 8) && bit(x / c, 7) == bit(x, 9) && bit(x / c, 8) == bit(x, 10) && bit(x / c, 9) == bit(x, 11) && bit(x / c, 10) == bit(x, 12) && bit(x / c, 11) == bit(x, 13) && bit(x / c, 12) == bit(x, 14) && bit(x / c, 13) == bit(x, 15) && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 8 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 3) && bit(x / c, 1) == bit(x, 4) && bit(x / c, 2) == bit(x, 5) && bit(x / c, 3) == bit(x, 6) && bit(x / c, 4) == bit(x, 7) && bit(x / c, 5) == bit(x, 8) && bit(x / c, 6) == bit(x, 9) && bit(x / c, 7) == bit(x, 10) && bit(x / c, 8) == bit(x, 11) && bit(x / c, 9) == bit(x, 12) && bit(x / c, 10) == bit(x, 13) && bit(x / c, 11) == bit(x, 14) && bit(x / c, 12) == bit(x, 15) && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 16 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 4) && bit(x / c, 1) == bit(x, 5) && bit(x / c, 2) == bit(x, 6) && bit(x / c, 3) == bit(x, 7) && bit(x / c, 4) == bit(x, 8) && bit(x / c, 5) == bit(x, 9) && bit(x / c, 6) == bit(x, 10) && bit(x / c, 7) == bit(x, 11) && bit(x / c, 8) == bit(x, 12) && bit(x / c, 9) == bit(x, 13) && bit(x / c, 10) == bit(x, 14) && bit(x / c, 11) == bit(x, 15) && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 32 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 5) && bit(x / c, 1) == bit(x, 6) && bit(x / c, 2) == bit(x, 7) && bit(x / c, 3) == bit(x, 8) && bit(x / c, 4) == bit(x, 9) && bit(x / c, 5) == bit(x, 10) && bit(x / c, 6) == bit(x, 11) && bit(x / c, 7) == bit(x, 12) && bit(x / c, 8) == bit(x, 13) && bit(x / c, 9) == bit(x, 14) && bit(x / c, 10) == bit(x, 15) && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 64 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 6) && bit(x / c, 1) == bit(x, 7) && bit(x / c, 2) == bit(x, 8) && bit(x / c, 3) == bit(x, 9) && bit(x / c, 4) == bit(x, 10) && bit(x / c, 5) == bit(x, 11) && bit(x / c, 6) == bit(x, 12) && bit(x / c, 7) == bit(x, 13) && bit(x / c, 8) == bit(x, 14) && bit(x / c, 9) == bit(x, 15) && bit(x / c, 10) == false && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 128 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 7) && bit(x / c, 1) == bit(x, 8) && bit(x / c, 2) == bit(x, 9) && bit(x / c, 3) == bit(x, 10) && bit(x / c, 4) == bit(x, 11) && bit(x / c, 5) == bit(x, 12) && bit(x / c, 6) == bit(x, 13) && bit(x / c, 7) == bit(x, 14) && bit(x / c, 8) == bit(x, 15) && bit(x / c, 9) == false && bit(x / c, 10) == false && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 256 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 8) && bit(x / c, 1) == bit(x, 9) && bit(x / c, 2) == bit(x, 10) && bit(x / c, 3) == bit(x, 11) && bit(x / c, 4) == bit(x, 12) && bit(x / c, 5) == bit(x, 13) && bit(x / c, 6) == bit(x, 14) && bit(x / c, 7) == bit(x, 15) && bit(x / c, 8) == false && bit(x / c, 9) == false && bit(x / c, 10) == false && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 512 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 9) && bit(x / c, 1) == bit(x, 10) && bit(x / c, 2) == bit(x, 11) && bit(x / c, 3) == bit(x, 12) && bit(x / c, 4) == bit(x, 13) && bit(x / c, 5) == bit(x, 14) && bit(x / c, 6) == bit(x, 15) && bit(x / c, 7) == false && bit(x / c, 8) == false && bit(x / c, 9) == false && bit(x / c, 10) == false && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 1024 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 10) && bit(x / c, 1) == bit(x, 11) && bit(x / c, 2) == bit(x, 12) && bit(x / c, 3) == bit(x, 13) && bit(x / c, 4) == bit(x, 14) && bit(x / c, 5) == bit(x, 15) && bit(x / c, 6) == false && bit(x / c, 7) == false && bit(x / c, 8) == false && bit(x / c, 9) == false && bit(x / c, 10) == false && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 2048 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 11) && bit(x / c, 1) == bit(x, 12) && bit(x / c, 2) == bit(x, 13) && bit(x / c, 3) == bit(x, 14) && bit(x / c, 4) == bit(x, 15) && bit(x / c, 5) == false && bit(x / c, 6) == false && bit(x / c, 7) == false && bit(x / c, 8) == false && bit(x / c, 9) == false && bit(x / c, 10) == false && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false,
    0 <= x < 65536 && c == 4096 ==> dec16(x / c) && bit(x / c, 0) == bit(x, 12) && bit(x / c, 1) == bit(x, 13) && bit(x / c, 2) == bit(x, 14) && bit(x / c, 3) == bit(x, 15) && bit(x / c, 4) == false && bit(x / c, 5) == false && bit(x / c, 6) == false && bit(x / c, 7) == false && bit(x / c, 8) == false && bit(x / c, 9) == false && bit(x / c, 10) == false && bit(x / c, 11) == false && bit(x / c, 12) == false && bit(x / c, 13) == false && bit(x / c, 14) == false && bit(x / c, 15) == false
{
    hide(dec16); hide(bit); if 0 <= x < 65536 { lem_dec16(x as u16); }
    if 0 <= x < 65536 && c == 2 { bl_div_1(x); }
    if 0 <= x < 65536 && c == 4 { bl_div_2(x); }
    if 0 <= x < 65536 && c == 8 { bl_div_3(x); }
    if 0 <= x < 65536 && c == 16 { bl_div_4(x); }
    if 0 <= x < 65536 && c == 32 { bl_div_5(x); }
    if 0 <= x < 65536 && c == 64 { bl_div_6(x); }
    if 0 <= x < 65536 && c == 128 { bl_div_7(x); }
    if 0 <= x < 65536 && c == 256 { bl_div_8(x); }
    if 0 <= x < 65536 && c == 512 { bl_div_9(x); }
    if 0 <= x < 65536 && c == 1024 { bl_div_10(x); }
    if 0 <= x < 65536 && c == 2048 { bl_div_11(x); }
    if 0 <= x < 65536 && c == 4096 { bl_div_12(x); }
}
pub broadcast group group_bits { bl_and8, bl_or8, bl_xor8, bl_shl8, bl_shr8, bl_and16, bl_or16, bl_xor16, bl_shl16, bl_shr16 }
pub broadcast group group_bits_div { bl_and8, bl_or8, bl_xor8, bl_shl8, bl_shr8, bl_and16, bl_or16, bl_xor16, bl_shl16, bl_shr16, bl_mod, bl_div }
}
}
