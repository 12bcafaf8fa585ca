#![allow(unused_imports, dead_code, unused_macros, unused_variables, unused_mut, non_upper_case_globals, non_camel_case_types, unreachable_code, unused_labels, unused_assignments, non_snake_case, irrefutable_let_patterns)]
use vstd::prelude::*;
// ---- macros of snafu and log: the message is dropped, its arguments are still evaluated ----
macro_rules! whatever { ($fmt:expr $(, $a:expr)* $(,)?) => { { $(let _ = &$a;)* return Err(VFail::vfail()) } } }
macro_rules! ensure_whatever { ($c:expr, $fmt:expr $(, $a:expr)* $(,)?) => { if !($c) { $(let _ = &$a;)* return Err(VFail::vfail()); } } }
macro_rules! debug { ($fmt:expr $(, $a:expr)* $(,)?) => { if vnondet() { $(let _ = &$a;)* } } }
macro_rules! info { ($fmt:expr $(, $a:expr)* $(,)?) => { if vnondet() { $(let _ = &$a;)* } } }
macro_rules! warn { ($fmt:expr $(, $a:expr)* $(,)?) => { if vnondet() { $(let _ = &$a;)* } } }
macro_rules! trace { ($fmt:expr $(, $a:expr)* $(,)?) => { if vnondet() { $(let _ = &$a;)* } } }
macro_rules! error { ($fmt:expr $(, $a:expr)* $(,)?) => { if vnondet() { $(let _ = &$a;)* } } }
macro_rules! format { ($fmt:expr $(, $a:expr)* $(,)?) => { { $(let _ = &$a;)* vstring() } } }

pub mod vprelude {
#![allow(unused_imports)]
pub use vstd::prelude::*;
pub use vstd::std_specs::convert::*;
pub use core::fmt::Debug;
verus! {


// ------------------------------------------------------------------ errors
pub trait VFail: Sized { fn vfail() -> Self; }
#[derive(Debug)]
pub struct Whatever;
impl VFail for Whatever { fn vfail() -> Self { Whatever } }
#[derive(Debug)]
pub struct IoError;
pub type IoResult<T> = Result<T, IoError>;
pub mod io { pub type Result<T> = core::result::Result<T, super::IoError>; pub type Error = super::IoError; }
#[verifier::external_body] pub fn vnondet() -> bool { unimplemented!() }
#[verifier::external_body] pub fn vstring() -> String { unimplemented!() }

pub trait ResultExt<T, E>: Sized {
    spec fn rx(self) -> Result<T, Whatever>;
    fn whatever_context<S>(self, s: S) -> (r: Result<T, Whatever>) ensures r == self.rx();
    fn with_whatever_context<S, F: FnOnce(&mut E) -> S>(self, f: F) -> (r: Result<T, Whatever>) ensures r == self.rx();
}
impl<T, E> ResultExt<T, E> for Result<T, E> {
    open spec fn rx(self) -> Result<T, Whatever> { match self { Ok(v) => Ok(v), Err(_) => Err(Whatever) } }
    #[verifier::external_body]
    fn whatever_context<S>(self, s: S) -> (r: Result<T, Whatever>) { unimplemented!() }
    #[verifier::external_body]
    fn with_whatever_context<S, F: FnOnce(&mut E) -> S>(self, f: F) -> (r: Result<T, Whatever>) { unimplemented!() }
}
pub trait OptionExt<T>: Sized {
    spec fn ox(self) -> Result<T, Whatever>;
    fn whatever_context<S>(self, s: S) -> (r: Result<T, Whatever>) ensures r == self.ox();
    fn with_whatever_context<S, F: FnOnce() -> S>(self, f: F) -> (r: Result<T, Whatever>) ensures r == self.ox();
}
impl<T> OptionExt<T> for Option<T> {
    open spec fn ox(self) -> Result<T, Whatever> { match self { Some(v) => Ok(v), None => Err(Whatever) } }
    #[verifier::external_body]
    fn whatever_context<S>(self, s: S) -> (r: Result<T, Whatever>) { unimplemented!() }
    #[verifier::external_body]
    fn with_whatever_context<S, F: FnOnce() -> S>(self, f: F) -> (r: Result<T, Whatever>) { unimplemented!() }
}

// ------------------------------------------------------------------ byteorder
pub trait ByteOrder { spec fn be() -> bool; }
pub struct BigEndian;
impl ByteOrder for BigEndian { open spec fn be() -> bool { true } }
pub struct LittleEndian;
impl ByteOrder for LittleEndian { open spec fn be() -> bool { false } }
pub type NetworkEndian = BigEndian;

/// value of two bytes, most significant first
pub open spec fn w16(hi: u8, lo: u8) -> u16 { (hi as int * 256 + lo as int) as u16 }
pub open spec fn w32(a: u8, b: u8, c: u8, d: u8) -> u32 { (((a as int * 256 + b as int) * 256 + c as int) * 256 + d as int) as u32 }
pub open spec fn hi8(v: u16) -> u8 { (v as int / 256) as u8 }
pub open spec fn lo8(v: u16) -> u8 { (v as int % 256) as u8 }
pub open spec fn be16(v: u16) -> Seq<u8> { seq![hi8(v), lo8(v)] }
pub open spec fn le16(v: u16) -> Seq<u8> { seq![lo8(v), hi8(v)] }
pub open spec fn be32(v: u32) -> Seq<u8> { seq![(v as int / 16777216) as u8, ((v as int / 65536) % 256) as u8, ((v as int / 256) % 256) as u8, (v as int % 256) as u8] }
pub open spec fn rev4(s: Seq<u8>) -> Seq<u8> { seq![s[3], s[2], s[1], s[0]] }

// ------------------------------------------------------------------ std::io::Cursor over a byte slice
pub struct Cursor<T> { pub inner: T, pub pos: usize }
pub trait Read {}
pub trait Write {}
pub trait ReadBytesExt {}
pub trait WriteBytesExt {}
impl<'a> Cursor<&'a [u8]> {
    pub open spec fn data(&self) -> Seq<u8> { self.inner@ }
    pub open spec fn at(&self) -> int { self.pos as int }
    pub open spec fn left(&self) -> int { self.inner@.len() - self.pos }
    #[verifier::external_body]
    pub fn new(inner: &'a [u8]) -> (r: Self) ensures r.inner == inner, r.pos == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn position(&self) -> (r: u64) ensures r == self.pos { unimplemented!() }
    #[verifier::external_body]
    pub fn get_ref(&self) -> (r: &&'a [u8]) ensures *r == self.inner { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u8(&mut self) -> (r: Result<u8, IoError>)
        ensures final(self).inner == old(self).inner,
            r is Ok <==> old(self).left() >= 1,
            r is Ok ==> r->Ok_0 == old(self).inner@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i8(&mut self) -> (r: Result<i8, IoError>)
        ensures final(self).inner == old(self).inner,
            r is Ok <==> old(self).left() >= 1,
            r is Ok ==> r->Ok_0 == old(self).inner@[old(self).pos as int] as i8 && final(self).pos == old(self).pos + 1,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u16<B: ByteOrder>(&mut self) -> (r: Result<u16, IoError>)
        ensures final(self).inner == old(self).inner,
            r is Ok <==> old(self).left() >= 2,
            r is Ok ==> final(self).pos == old(self).pos + 2 && r->Ok_0 == (if B::be() {
                w16(old(self).inner@[old(self).pos as int], old(self).inner@[old(self).pos + 1]) } else {
                w16(old(self).inner@[old(self).pos + 1], old(self).inner@[old(self).pos as int]) }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_i16<B: ByteOrder>(&mut self) -> (r: Result<i16, IoError>)
        ensures final(self).inner == old(self).inner,
            r is Ok <==> old(self).left() >= 2,
            r is Ok ==> final(self).pos == old(self).pos + 2 && r->Ok_0 == (if B::be() {
                w16(old(self).inner@[old(self).pos as int], old(self).inner@[old(self).pos + 1]) } else {
                w16(old(self).inner@[old(self).pos + 1], old(self).inner@[old(self).pos as int]) }) as i16,
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_u32<B: ByteOrder>(&mut self) -> (r: Result<u32, IoError>)
        ensures final(self).inner == old(self).inner,
            r is Ok <==> old(self).left() >= 4,
            r is Ok ==> final(self).pos == old(self).pos + 4 && r->Ok_0 == ({ let p = old(self).pos as int; let d = old(self).inner@; if B::be() {
                w32(d[p], d[p + 1], d[p + 2], d[p + 3]) } else { w32(d[p + 3], d[p + 2], d[p + 1], d[p]) } }),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_exact(&mut self, b: &mut [u8]) -> (r: Result<(), IoError>)
        ensures final(self).inner == old(self).inner, final(b)@.len() == old(b)@.len(),
            r is Ok <==> (old(self).left() >= old(b)@.len() || old(b)@.len() == 0),
            r is Ok ==> final(self).pos == old(self).pos + old(b)@.len()
                && (old(self).left() >= 0 ==> final(b)@ =~= old(self).inner@.subrange(old(self).pos as int, old(self).pos + old(b)@.len()))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_end(&mut self, b: &mut Vec<u8>) -> (r: Result<usize, IoError>)
        ensures final(self).inner == old(self).inner, r is Ok,
            old(self).left() >= 0 ==> (final(b)@ =~= old(b)@ + old(self).inner@.subrange(old(self).pos as int, old(self).inner@.len() as int)
               && r->Ok_0 == old(self).left() && final(self).pos == old(self).inner@.len()),
            old(self).left() < 0 ==> (final(b)@ == old(b)@ && final(self).pos == old(self).pos && r->Ok_0 == 0),
    { unimplemented!() }
}

// ------------------------------------------------------------------ byteorder / io::Write on Vec<u8>
pub trait VWrite {
    spec fn bytes(&self) -> Seq<u8>;
    fn write_u8(&mut self, v: u8) -> (r: Result<(), IoError>) ensures r is Ok, final(self).bytes() == old(self).bytes().push(v);
    fn write_i8(&mut self, v: i8) -> (r: Result<(), IoError>) ensures r is Ok, final(self).bytes() == old(self).bytes().push(v as u8);
    fn write_u16<B: ByteOrder>(&mut self, v: u16) -> (r: Result<(), IoError>) ensures r is Ok, final(self).bytes() =~= old(self).bytes() + (if B::be() { be16(v) } else { le16(v) });
    fn write_u32<B: ByteOrder>(&mut self, v: u32) -> (r: Result<(), IoError>) ensures r is Ok, final(self).bytes() =~= old(self).bytes() + (if B::be() { be32(v) } else { rev4(be32(v)) });
    fn write_all(&mut self, v: &[u8]) -> (r: Result<(), IoError>) ensures r is Ok, final(self).bytes() =~= old(self).bytes() + v@;
    fn vextend(&mut self, v: &Vec<u8>) ensures final(self).bytes() =~= old(self).bytes() + v@;
}
impl VWrite for Vec<u8> {
    open spec fn bytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn write_u8(&mut self, v: u8) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn write_i8(&mut self, v: i8) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn write_u16<B: ByteOrder>(&mut self, v: u16) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn write_u32<B: ByteOrder>(&mut self, v: u32) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn write_all(&mut self, v: &[u8]) -> (r: Result<(), IoError>) { unimplemented!() }
    #[verifier::external_body] fn vextend(&mut self, v: &Vec<u8>) { unimplemented!() }
}

// ------------------------------------------------------------------ std::net
#[derive(Copy, Clone, Debug)]
pub struct Ipv4Addr { pub o: [u8; 4] }
impl Ipv4Addr {
    #[verifier::external_body]
    pub const fn new(a: u8, b: u8, c: u8, d: u8) -> (r: Ipv4Addr) ensures r.o@ =~= seq![a, b, c, d] { Ipv4Addr { o: [a, b, c, d] } }
    #[verifier::external_body]
    pub fn octets(&self) -> (r: [u8; 4]) ensures r == self.o { unimplemented!() }
    #[verifier::external_body]
    pub fn from(o: [u8; 4]) -> (r: Ipv4Addr) ensures r.o == o { unimplemented!() }
}
#[derive(Copy, Clone, Debug)]
pub struct SocketAddrV4 { pub ip: Ipv4Addr, pub port: u16 }
impl SocketAddrV4 {
    #[verifier::external_body]
    pub const fn new(ip: Ipv4Addr, port: u16) -> (r: SocketAddrV4) ensures r.ip == ip, r.port == port { SocketAddrV4 { ip, port } }
    #[verifier::external_body]
    pub fn ip(&self) -> (r: &Ipv4Addr) ensures *r == self.ip { unimplemented!() }
    #[verifier::external_body]
    pub fn port(&self) -> (r: u16) ensures r == self.port { unimplemented!() }
}
pub enum SocketAddr { V4(SocketAddrV4), V6(SocketAddrV6) }
pub struct SocketAddrV6;

// ------------------------------------------------------------------ str: parse, split, contains
/// decimal digit value
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
pub open spec fn digit(c: char) -> nat { (c as u32 - '0' as u32) as nat }
pub open spec fn all_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
pub open spec fn dec_value(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { 10 * dec_value(s.drop_last()) + digit(s.last()) }
}
/// what `str::parse` of an unsigned integer type accepts: an optional '+', then digits only
pub open spec fn parse_nat(s: Seq<char>) -> Option<nat> {
    let t = if s.len() > 1 && s[0] == '+' { s.subrange(1, s.len() as int) } else { s };
    if all_digits(t) { Some(dec_value(t)) } else { None }
}
pub open spec fn fits(s: Seq<char>, max: nat) -> bool { parse_nat(s) is Some && parse_nat(s)->0 <= max }
/// fields of s separated by c
pub open spec fn fields(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::<char>::empty()] }
    else {
        let f = fields(s.drop_last(), c);
        if s.last() == c { f.push(Seq::<char>::empty()) } else { f.update(f.len() - 1, f.last().push(s.last())) }
    }
}
pub struct ParseErr;
pub trait VParse: Sized {
    spec fn vok(s: Seq<char>) -> bool;
    spec fn vval(s: Seq<char>) -> Self;
}
impl VParse for u8 {
    open spec fn vok(s: Seq<char>) -> bool { fits(s, 255) }
    open spec fn vval(s: Seq<char>) -> u8 { parse_nat(s)->0 as u8 }
}
impl VParse for u16 {
    open spec fn vok(s: Seq<char>) -> bool { fits(s, 65535) }
    open spec fn vval(s: Seq<char>) -> u16 { parse_nat(s)->0 as u16 }
}
impl VParse for u32 {
    open spec fn vok(s: Seq<char>) -> bool { fits(s, 0xffff_ffff) }
    open spec fn vval(s: Seq<char>) -> u32 { parse_nat(s)->0 as u32 }
}
impl VParse for SocketAddrV4 {
    uninterp spec fn vok(s: Seq<char>) -> bool;
    uninterp spec fn vval(s: Seq<char>) -> SocketAddrV4;
}
impl VParse for SocketAddr {
    uninterp spec fn vok(s: Seq<char>) -> bool;
    uninterp spec fn vval(s: Seq<char>) -> SocketAddr;
}
impl core::fmt::Debug for ParseErr { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub struct VSplit<'a> { pub s: &'a str, pub c: char }
impl<'a> VSplit<'a> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<&'a str>)
        ensures r@.len() == fields(self.s@, self.c).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == fields(self.s@, self.c)[i]
    { unimplemented!() }
}
pub trait VChar { spec fn ch(&self) -> char; }
impl VChar for char { open spec fn ch(&self) -> char { *self } }
impl VChar for &str { uninterp spec fn ch(&self) -> char; }
pub trait VStr {
    spec fn chars(&self) -> Seq<char>;
    fn vparse<T: VParse>(&self) -> (r: Result<T, ParseErr>) ensures r is Ok <==> T::vok(self.chars()), r is Ok ==> r->Ok_0 == T::vval(self.chars());
    fn vsplit<'a, P: VChar>(&'a self, p: P) -> (r: VSplit<'a>) ensures r.s@ == self.chars(), r.c == p.ch();
    fn vcontains<P: VChar>(&self, p: P) -> (r: bool) ensures r == self.chars().contains(p.ch());
}
impl VStr for str {
    open spec fn chars(&self) -> Seq<char> { self@ }
    #[verifier::external_body] fn vparse<T: VParse>(&self) -> (r: Result<T, ParseErr>) { unimplemented!() }
    #[verifier::external_body] fn vsplit<'a, P: VChar>(&'a self, p: P) -> (r: VSplit<'a>) { unimplemented!() }
    #[verifier::external_body] fn vcontains<P: VChar>(&self, p: P) -> (r: bool) { unimplemented!() }
}
// parsing the literal "0.0.0.0:0" and the one-character separators
pub broadcast axiom fn ax_parse_any(s: &str)
    requires is_zero_addr_text(s@) ensures (#[trigger] <SocketAddrV4 as VParse>::vok(s@)), <SocketAddrV4 as VParse>::vval(s@).port == 0, <SocketAddrV4 as VParse>::vval(s@).ip.o@ =~= seq![0u8, 0, 0, 0];
pub broadcast axiom fn ax_parse_any2(s: &str)
    requires is_zero_addr_text(s@) ensures (#[trigger] <SocketAddr as VParse>::vok(s@));
pub open spec fn is_zero_addr_text(s: Seq<char>) -> bool { s.len() == 9 && s[0] == '0' && s[1] == '.' && s[2] == '0' && s[3] == '.' && s[4] == '0' && s[5] == '.' && s[6] == '0' && s[7] == ':' && s[8] == '0' }
pub broadcast axiom fn ax_str_char(s: &str)
    requires s@.len() == 1 ensures (#[trigger] s.ch()) == s@[0];

// ------------------------------------------------------------------ reading an integer through a reference
pub trait VVal: Sized { fn vd(&self) -> (r: Self) ensures r == *self; }
impl VVal for u8 { fn vd(&self) -> (r: Self) { *self } }
impl VVal for u16 { fn vd(&self) -> (r: Self) { *self } }
impl VVal for u32 { fn vd(&self) -> (r: Self) { *self } }
impl VVal for u64 { fn vd(&self) -> (r: Self) { *self } }
impl VVal for usize { fn vd(&self) -> (r: Self) { *self } }
impl VVal for i8 { fn vd(&self) -> (r: Self) { *self } }
impl VVal for i16 { fn vd(&self) -> (r: Self) { *self } }
impl VVal for i32 { fn vd(&self) -> (r: Self) { *self } }

// ------------------------------------------------------------------ std functions vstd has no contract for
pub open spec fn be16i(v: i16) -> Seq<u8> { be16(v as u16) }
pub open spec fn be8(v: u8) -> Seq<u8> { seq![v] }
pub trait VBytes1: Sized { spec fn sp(self) -> u8;
    fn vto_be_bytes(self) -> (r: [u8; 1]) ensures r@ =~= seq![self.sp()];
    fn vto_le_bytes(self) -> (r: [u8; 1]) ensures r@ =~= seq![self.sp()]; }
pub trait VBytes2: Sized { spec fn sp(self) -> u16;
    fn vto_be_bytes(self) -> (r: [u8; 2]) ensures r@ =~= be16(self.sp());
    fn vto_le_bytes(self) -> (r: [u8; 2]) ensures r@ =~= le16(self.sp());
    fn vfrom_be_bytes(b: [u8; 2]) -> (r: Self) ensures r.sp() == w16(b@[0], b@[1]);
    fn vfrom_le_bytes(b: [u8; 2]) -> (r: Self) ensures r.sp() == w16(b@[1], b@[0]); }
pub trait VBytes4: Sized { spec fn sp(self) -> u32;
    fn vto_be_bytes(self) -> (r: [u8; 4]) ensures r@ =~= be32(self.sp());
    fn vto_le_bytes(self) -> (r: [u8; 4]) ensures r@ =~= rev4(be32(self.sp()));
    fn vfrom_be_bytes(b: [u8; 4]) -> (r: Self) ensures r.sp() == w32(b@[0], b@[1], b@[2], b@[3]);
    fn vfrom_le_bytes(b: [u8; 4]) -> (r: Self) ensures r.sp() == w32(b@[3], b@[2], b@[1], b@[0]); }
macro_rules! vbytes { ($t:ty, $u:ty, $tr:ident, $n:expr) => { verus! { impl $tr for $t { open spec fn sp(self) -> $u { self as $u }
    #[verifier::external_body] fn vto_be_bytes(self) -> (r: [u8; $n]) { unimplemented!() }
    #[verifier::external_body] fn vto_le_bytes(self) -> (r: [u8; $n]) { unimplemented!() }
    #[verifier::external_body] fn vfrom_be_bytes(b: [u8; $n]) -> (r: Self) { unimplemented!() }
    #[verifier::external_body] fn vfrom_le_bytes(b: [u8; $n]) -> (r: Self) { unimplemented!() } } } } }
vbytes!(u16, u16, VBytes2, 2);
vbytes!(i16, u16, VBytes2, 2);
vbytes!(u32, u32, VBytes4, 4);
vbytes!(i32, u32, VBytes4, 4);
impl VBytes1 for u8 { open spec fn sp(self) -> u8 { self }
    #[verifier::external_body] fn vto_be_bytes(self) -> (r: [u8; 1]) { unimplemented!() }
    #[verifier::external_body] fn vto_le_bytes(self) -> (r: [u8; 1]) { unimplemented!() } }
pub open spec fn clamp_i16(v: int) -> i16 { if v > 32767 { 32767i16 } else if v < -32768 { -32768i16 } else { v as i16 } }
pub assume_specification [i16::saturating_mul] (a: i16, b: i16) -> (r: i16) ensures r == clamp_i16(a * b);
pub assume_specification [i16::saturating_add] (a: i16, b: i16) -> (r: i16) ensures r == clamp_i16(a + b);
pub assume_specification [<u8 as From<bool>>::from] (b: bool) -> (r: u8) ensures r == (if b { 1u8 } else { 0u8 });
pub assume_specification [<u16 as From<bool>>::from] (b: bool) -> (r: u16) ensures r == (if b { 1u16 } else { 0u16 });
pub assume_specification<T, const N: usize> [<Vec<T> as From<[T; N]>>::from] (s: [T; N]) -> (r: Vec<T>) ensures r@ =~= s@;
pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>) ensures r@ =~= s@;
// ------------------------------------------------------------------ comparison of an optional slice with Some(&[..])
#[verifier::external_body]
pub fn vopt_eq(a: Option<&[u8]>, b: &[u8]) -> (r: bool) ensures r == (a is Some && a->0@ =~= b@) { unimplemented!() }
pub trait VGetRange { spec fn gs(&self) -> Seq<u8>;
    fn vget_range(&self, from: usize, to: usize) -> (r: Option<&[u8]>)
        ensures r is Some <==> (from <= to && to <= self.gs().len()), r is Some ==> r->0@ =~= self.gs().subrange(from as int, to as int); }
impl VGetRange for [u8] { open spec fn gs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vget_range(&self, from: usize, to: usize) -> (r: Option<&[u8]>) { unimplemented!() } }
impl VGetRange for Vec<u8> { open spec fn gs(&self) -> Seq<u8> { self@ }
    #[verifier::external_body] fn vget_range(&self, from: usize, to: usize) -> (r: Option<&[u8]>) { unimplemented!() } }

// ------------------------------------------------------------------ Arc: erased. Mutex: every critical section is recorded (see DESIGN.md)
pub struct Arc;
impl Arc { pub fn new<T>(t: T) -> (r: T) ensures r == t { t } }
/// what a mutex over a value of this type is: data becomes VMutex, a handle (receiver, transport) stays what it is
pub trait VMx: Sized { type M;
    spec fn made(t: Self, m: Self::M) -> bool;
    fn mk(t: Self) -> (r: Self::M) ensures Self::made(t, r); }
pub struct Mutex;
impl Mutex { pub fn new<T: VMx>(t: T) -> (r: T::M) ensures T::made(t, r) { T::mk(t) } }
/// data behind a mutex, seen from one task: the critical sections this task ran, each with the value found and the value left.
/// What other tasks leave in between is arbitrary.
pub struct VMutex<T> { pub last: Ghost<T>, pub hist: Ghost<Seq<(T, T)>> }
impl<T> VMutex<T> {
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut T) ensures final(self).hist@ == old(self).hist@.push((*r, *final(r))), final(self).last@ == *final(r) { unimplemented!() }
    pub fn clone(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
}
impl<T> VMx for Option<T> { type M = VMutex<Option<T>>;
    open spec fn made(t: Self, m: VMutex<Option<T>>) -> bool { m.last@ == t && m.hist@ =~= Seq::<(Option<T>, Option<T>)>::empty() }
    fn mk(t: Self) -> (r: VMutex<Option<T>>) { VMutex { last: Ghost(t), hist: Ghost(Seq::empty()) } } }
impl<T> VMx for Vec<T> { type M = VMutex<Vec<T>>;
    open spec fn made(t: Self, m: VMutex<Vec<T>>) -> bool { m.last@ == t && m.hist@ =~= Seq::<(Vec<T>, Vec<T>)>::empty() }
    fn mk(t: Self) -> (r: VMutex<Vec<T>>) { VMutex { last: Ghost(t), hist: Ghost(Seq::empty()) } } }
macro_rules! vmx { ($t:ty) => { verus! { impl VMx for $t { type M = VMutex<$t>;
    open spec fn made(t: Self, m: VMutex<$t>) -> bool { m.last@ == t && m.hist@ =~= Seq::<($t, $t)>::empty() }
    fn mk(t: Self) -> (r: VMutex<$t>) { VMutex { last: Ghost(t), hist: Ghost(Seq::empty()) } } } } } }
vmx!(u8); vmx!(u16); vmx!(u32); vmx!(u64); vmx!(usize); vmx!(bool);
impl<T> VMx for mpsc::Receiver<T> { type M = mpsc::Receiver<T>; open spec fn made(t: Self, m: Self) -> bool { m == t } fn mk(t: Self) -> (r: Self) { t } }
/// what the other tasks may do to a value between two critical sections of the task that owns it
pub trait Shared: Sized { spec fn rely(self, other: Self) -> bool; }
/// the same mutex seen from the owning task: the value found is the one it left, changed by `rely` only
pub struct Owned<T: Shared> { pub last: Ghost<T>, pub hist: Ghost<Seq<(T, T)>> }
impl<T: Shared> Owned<T> {
    #[verifier::external_body]
    pub fn lock(&mut self) -> (r: &mut T) ensures old(self).last@.rely(*r), final(self).hist@ == old(self).hist@.push((*r, *final(r))), final(self).last@ == *final(r) { unimplemented!() }
    pub fn clone(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
}
/// h1 continues h0 with sections that changed nothing
pub open spec fn idle_all<T>(h0: Seq<(T, T)>, h1: Seq<(T, T)>) -> bool {
    h1.len() >= h0.len() && h1.take(h0.len() as int) =~= h0 && forall|i: int| h0.len() <= i < h1.len() ==> (#[trigger] h1[i]).1 == h1[i].0
}
/// exactly one more section
pub open spec fn one_section<T>(h0: Seq<(T, T)>, h1: Seq<(T, T)>) -> bool { h1.len() == h0.len() + 1 && h1.drop_last() =~= h0 }
pub trait VLock: Sized { fn lock(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r); }
impl<T> VLock for T { fn lock(&mut self) -> (r: &mut Self) { self } }

// ------------------------------------------------------------------ tokio::net::UdpSocket, with the history of datagrams
pub struct UdpSocket {
    /// datagrams received so far
    pub rx: Ghost<Seq<Seq<u8>>>,
    /// datagrams sent so far, each with the number of datagrams received before it
    pub tx: Ghost<Seq<(int, Seq<u8>)>>,
    /// explicit targets of send_to
    pub to: Ghost<Seq<(Seq<u8>, int)>>,
    /// number of socket operations that failed so far
    pub fails: Ghost<int>,
    /// number of datagrams received before the last failure
    pub fail_at: Ghost<int>,
    /// waits that ended without a datagram, in milliseconds
    pub late: Ghost<Seq<int>>,
    /// pauses made between the operations on it, in milliseconds
    pub rests: Ghost<Seq<int>>,
    /// the address it is bound to
    pub local: Ghost<SocketAddr>,
}
/// `s` is a state that a socket opened by this program went through
pub uninterp spec fn live(s: UdpSocket) -> bool;
/// the system gave no socket, or no local address for it
pub uninterp spec fn no_socket() -> bool;
/// exactly `b` was sent, nothing else happened
pub open spec fn sent1(s0: UdpSocket, s1: UdpSocket, b: Seq<u8>) -> bool {
    s1.local == s0.local && s1.rests == s0.rests && s1.fail_at == s0.fail_at && (live(s0) ==> live(s1)) && s1.rx == s0.rx && s1.to == s0.to && s1.fails == s0.fails && s1.late == s0.late && s1.tx@ =~= s0.tx@.push((s0.rx@.len() as int, b))
}
/// one socket operation failed, nothing else happened
pub open spec fn failed1(s0: UdpSocket, s1: UdpSocket) -> bool {
    s1.local == s0.local && s1.rests == s0.rests && s1.fail_at@ == s0.rx@.len() && (live(s0) ==> live(s1)) && s1.rx == s0.rx && s1.to == s0.to && s1.tx == s0.tx && s1.late == s0.late && s1.fails@ == s0.fails@ + 1
}
/// one datagram was received into the front of a buffer; what does not fit is lost
pub open spec fn rcvd1(s0: UdpSocket, s1: UdpSocket, b0: Seq<u8>, b1: Seq<u8>, n: int) -> bool {
    s1.local == s0.local && s1.rests == s0.rests && s1.fail_at == s0.fail_at && (live(s0) ==> live(s1)) && s1.tx == s0.tx && s1.to == s0.to && s1.fails == s0.fails && s1.late == s0.late && b1.len() == b0.len()
    && s1.rx@.len() == s0.rx@.len() + 1 && s1.rx@ =~= s0.rx@.push(s1.rx@.last())
    && n == (if s1.rx@.last().len() <= b0.len() { s1.rx@.last().len() } else { b0.len() })
    && b1.take(n) =~= s1.rx@.last().take(n) && forall|i: int| n <= i < b0.len() ==> #[trigger] b1[i] == b0[i]
}
/// a wait for X.recv(..) with a deadline: true when the deadline passed first (nothing was received then)
pub open spec fn late1(s0: UdpSocket, s1: UdpSocket, ms: int) -> bool { s1.local == s0.local && s1.rests == s0.rests && s1.fail_at == s0.fail_at && (live(s0) ==> live(s1)) && s1.rx == s0.rx && s1.to == s0.to && s1.tx == s0.tx && s1.fails == s0.fails && s1.late@ =~= s0.late@.push(ms) }
/// a pause
pub open spec fn rest1(s0: UdpSocket, s1: UdpSocket, ms: int) -> bool { s1.local == s0.local && s1.rests@ =~= s0.rests@.push(ms) && s1.fail_at == s0.fail_at && (live(s0) ==> live(s1)) && s1.rx == s0.rx && s1.to == s0.to && s1.tx == s0.tx && s1.fails == s0.fails && s1.late == s0.late }
pub trait VTarget { spec fn tgt(&self) -> (Seq<u8>, int); }
impl VTarget for (Ipv4Addr, u16) { open spec fn tgt(&self) -> (Seq<u8>, int) { (self.0.o@, self.1 as int) } }
impl VTarget for SocketAddrV4 { open spec fn tgt(&self) -> (Seq<u8>, int) { (self.ip.o@, self.port as int) } }
pub trait ToSocketAddrs {}
impl<T> ToSocketAddrs for T {}
impl UdpSocket {
    #[verifier::external_body]
    pub fn bind<A>(a: A) -> (r: Result<UdpSocket, IoError>) ensures r is Err ==> no_socket(), r is Ok ==> live(r->Ok_0) && r->Ok_0.rx@ =~= Seq::<Seq<u8>>::empty() && r->Ok_0.tx@ =~= Seq::<(int, Seq<u8>)>::empty() && r->Ok_0.to@ =~= Seq::<(Seq<u8>, int)>::empty() && r->Ok_0.fails@ == 0 && r->Ok_0.fail_at@ == -1 && r->Ok_0.late@ =~= Seq::<int>::empty() && r->Ok_0.rests@ =~= Seq::<int>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn connect<A>(&mut self, a: A) -> (r: Result<(), IoError>) ensures *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn local_addr(&self) -> (r: Result<SocketAddr, IoError>) ensures r is Ok ==> r->Ok_0 == self.local@, r is Err ==> no_socket() { unimplemented!() }
    #[verifier::external_body]
    pub fn send(&mut self, buf: &[u8]) -> (r: Result<usize, IoError>)
        ensures r is Ok ==> sent1(*old(self), *final(self), buf@), r is Err ==> failed1(*old(self), *final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn send_to<A: VTarget>(&mut self, buf: &[u8], a: A) -> (r: Result<usize, IoError>)
        ensures r is Ok ==> final(self).local == old(self).local && final(self).rests == old(self).rests && final(self).fail_at == old(self).fail_at && (live(*old(self)) ==> live(*final(self))) && final(self).rx == old(self).rx && final(self).fails == old(self).fails && final(self).late == old(self).late && final(self).tx@ =~= old(self).tx@.push((old(self).rx@.len() as int, buf@)) && final(self).to@ =~= old(self).to@.push(a.tgt()),
            r is Err ==> failed1(*old(self), *final(self)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vlate(&mut self, d: Duration) -> (r: bool) ensures r ==> late1(*old(self), *final(self), d.ms@), !r ==> *final(self) == *old(self) { unimplemented!() }
    #[verifier::external_body]
    pub fn vrest(&mut self, d: Duration) ensures rest1(*old(self), *final(self), d.ms@) { unimplemented!() }
    #[verifier::external_body]
    pub fn recv(&mut self, buf: &mut [u8]) -> (r: Result<usize, IoError>)
        ensures final(buf)@.len() == old(buf)@.len(),
            r is Ok ==> rcvd1(*old(self), *final(self), old(buf)@, final(buf)@, r->Ok_0 as int),
            r is Err ==> failed1(*old(self), *final(self)) && final(buf)@ == old(buf)@,
    { unimplemented!() }
}

// ------------------------------------------------------------------ tokio::sync::mpsc, with the history of messages
pub mod mpsc {
    use super::*;
    pub struct Sender<T> { pub sent: Ghost<Seq<T>>, pub tried: Ghost<Seq<T>>, pub fails: Ghost<int> }
    /// `late`: waits that ended without a message: how long, from which message on; `empty`: where nothing was queued
    pub struct Receiver<T> { pub got: Ghost<Seq<Option<T>>>, pub late: Ghost<Seq<(int, int)>>, pub empty: Ghost<Seq<int>> }
    #[derive(Debug)]
    pub struct SendError;
    #[verifier::external_body]
    pub fn channel<T>(n: usize) -> (r: (Sender<T>, Receiver<T>)) ensures r.0.sent@ =~= Seq::<T>::empty(), r.1.got@ =~= Seq::<Option<T>>::empty(), r.1.late@ =~= Seq::<(int, int)>::empty(), r.1.empty@ =~= Seq::<int>::empty(), r.0.tried@ =~= Seq::<T>::empty(), r.0.fails@ == 0 { unimplemented!() }
    impl<T> Sender<T> {
        #[verifier::external_body]
        pub fn send(&mut self, v: T) -> (r: Result<(), SendError>)
            ensures final(self).tried == old(self).tried, r is Ok ==> final(self).sent@ =~= old(self).sent@.push(v) && final(self).fails == old(self).fails,
                r is Err ==> final(self).sent == old(self).sent && final(self).fails@ == old(self).fails@ + 1,
        { unimplemented!() }
        /// a full or closed queue is not counted as a failure: nobody waits for the message
        #[verifier::external_body]
        pub fn try_send(&mut self, v: T) -> (r: Result<(), SendError>)
            ensures final(self).fails == old(self).fails, final(self).tried@ =~= old(self).tried@.push(v),
                final(self).sent@ =~= (if r is Ok { old(self).sent@.push(v) } else { old(self).sent@ }),
        { unimplemented!() }
        pub fn clone(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
    }
    impl<T> Receiver<T> {
        #[verifier::external_body]
        pub fn try_recv(&mut self) -> (r: Result<T, SendError>)
            ensures final(self).late == old(self).late, final(self).got@ =~= (if r is Ok { old(self).got@.push(Some(r->Ok_0)) } else { old(self).got@ }),
                final(self).empty@ =~= (if r is Ok { old(self).empty@ } else { old(self).empty@.push(old(self).got@.len() as int) })
        { unimplemented!() }
        #[verifier::external_body]
        pub fn recv(&mut self) -> (r: Option<T>) ensures final(self).late == old(self).late, final(self).empty == old(self).empty, final(self).got@ =~= old(self).got@.push(r) { unimplemented!() }
        #[verifier::external_body]
        pub fn vlate(&mut self, d: Duration) -> (r: bool)
            ensures final(self).got == old(self).got, final(self).empty == old(self).empty, r ==> final(self).late@ =~= old(self).late@.push((d.ms@, old(self).got@.len() as int)), !r ==> final(self).late == old(self).late
        { unimplemented!() }
        /// a deadline over a block that receives: true when it passed, after some messages were received
        #[verifier::external_body]
        pub fn vcut(&mut self, d: Duration) -> (r: bool)
            ensures final(self).empty == old(self).empty, r ==> late_rx(*old(self), *final(self), d.ms@), !r ==> *final(self) == *old(self)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn vnow(&self) -> (r: Instant) ensures r.ms@ == 0, r.at@ == self.got@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn vlate_at(&mut self, t: Instant) -> (r: bool)
            ensures final(self).got == old(self).got, final(self).empty == old(self).empty, r ==> final(self).late@ =~= old(self).late@.push((t.ms@, t.at@)), !r ==> final(self).late == old(self).late
        { unimplemented!() }
        pub fn clone(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self }
    }
}
pub open spec fn fresh_sock(s: UdpSocket) -> bool { s.rx@.len() == 0 && s.tx@.len() == 0 && s.to@.len() == 0 && s.fails@ == 0 && s.fail_at@ == -1 && s.late@.len() == 0 && s.rests@.len() == 0 }
pub open spec fn fresh_rx<T>(r: Receiver<T>) -> bool { r.got@.len() == 0 && r.late@.len() == 0 && r.empty@.len() == 0 }
/// messages were received, no end of the channel
pub open spec fn some_more<T>(g0: Seq<Option<T>>, g1: Seq<Option<T>>) -> bool {
    g1.len() >= g0.len() && g1.take(g0.len() as int) =~= g0 && forall|i: int| g0.len() <= i < g1.len() ==> (#[trigger] g1[i]) is Some
}
/// messages were received up to the end of the channel
pub open spec fn closed_rx<T>(r0: Receiver<T>, r1: Receiver<T>) -> bool { r1.late == r0.late && r1.got@.len() > r0.got@.len() && r1.got@.last() is None && some_more(r0.got@, r1.got@.drop_last()) }
/// messages were received, then the wait ended, `ms` milliseconds after it started
pub open spec fn late_rx<T>(r0: Receiver<T>, r1: Receiver<T>, ms: int) -> bool { r1.late@ =~= r0.late@.push((ms, r0.got@.len() as int)) && some_more(r0.got@, r1.got@) }
/// a sender reached through a shared reference: whether the message arrives is not known
pub trait VShared: Sized { fn send<T>(&self, v: T) -> (r: Result<(), mpsc::SendError>); fn try_send<T>(&self, v: T) -> (r: Result<(), mpsc::SendError>); fn is_closed(&self) -> (r: bool); }
impl<T> VShared for mpsc::Sender<T> {
    #[verifier::external_body] fn send<U>(&self, v: U) -> (r: Result<(), mpsc::SendError>) { unimplemented!() }
    #[verifier::external_body] fn try_send<U>(&self, v: U) -> (r: Result<(), mpsc::SendError>) { unimplemented!() }
    #[verifier::external_body] fn is_closed(&self) -> (r: bool) { unimplemented!() }
}
impl<T> Clone for mpsc::Sender<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
pub trait VRetain<T>: Sized { fn vretain<F: Fn(&T) -> bool>(&mut self, f: F) requires forall|x: &T| #[trigger] f.requires((x,)) ; }
impl<T> VRetain<T> for Vec<T> { #[verifier::external_body] fn vretain<F: Fn(&T) -> bool>(&mut self, f: F) ensures final(self)@.len() <= old(self)@.len(), forall|i: int| 0 <= i < final(self)@.len() ==> old(self)@.contains(#[trigger] final(self)@[i]) { unimplemented!() } }
pub use mpsc::Sender;
pub use mpsc::Receiver;

// ------------------------------------------------------------------ tokio::time
#[derive(Copy, Clone)]
pub struct Duration { pub ms: Ghost<int> }
impl Duration {
    pub fn from_secs(n: u64) -> (r: Duration) ensures r.ms@ == n * 1000 { Duration { ms: Ghost(n * 1000) } }
    pub fn from_millis(n: u64) -> (r: Duration) ensures r.ms@ == n as int { Duration { ms: Ghost(n as int) } }
    pub fn clone(&self) -> (r: Duration) ensures r == *self { *self }
}
/// a point in time, told by the messages received from the awaited receiver up to then, and the time added to it
#[derive(Copy, Clone)]
pub struct Instant { pub ms: Ghost<int>, pub at: Ghost<int> }
impl vstd::std_specs::ops::AddSpecImpl<Duration> for Instant {
    open spec fn obeys_add_spec() -> bool { true }
    open spec fn add_req(self, d: Duration) -> bool { true }
    open spec fn add_spec(self, d: Duration) -> Instant { Instant { ms: Ghost(self.ms@ + d.ms@), at: self.at } }
}
impl core::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> (r: Instant) { Instant { ms: Ghost(self.ms@ + d.ms@), at: self.at } }
}
#[derive(Debug)]
pub struct Elapsed;
pub fn vtouch<T>(x: &mut T) ensures *final(x) == *old(x) { }
/// `calm`: ticks that were missed during a long reconnection do not come all at once
pub struct Interval { pub calm: Ghost<bool> }
impl Interval {
    #[verifier::external_body] pub fn tick(&self) requires self.calm@ { unimplemented!() }
    #[verifier::external_body] pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) ensures final(self).calm@ == !(b is Burst) { unimplemented!() }
}
pub enum MissedTickBehavior { Burst, Delay, Skip }
/// the crate's only periodic timer is the heart beat, which KNXnet/IP Core 5.4 wants every 60 s
#[verifier::external_body] pub fn interval(d: Duration) -> (r: Interval) requires d.ms@ == 60000 ensures !r.calm@ { unimplemented!() }
pub mod tokio { pub mod time { pub use super::super::{MissedTickBehavior, interval, Interval}; } }

// ------------------------------------------------------------------ bit operations
pub broadcast group group_kvx { ax_parse_any, ax_parse_any2, ax_str_char }
}
}
