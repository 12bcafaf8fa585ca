//! families over the codecs, addresses and datapoint types (synchronous code)
use crate::refc as R;
use crate::rng::Rng;
use crate::{ensure, Fam, Kind, Res};
use knx_ip_client::dp_types::*;
use knx_ip_client::packets::addresses::*;
use knx_ip_client::packets::apdu::*;
use knx_ip_client::packets::core::*;
use knx_ip_client::packets::emi::*;
use knx_ip_client::packets::tpdu::*;
use knx_ip_client::packets::tunneling::*;
use knx_ip_client::transport::udp::{parse_response, TunnelingResponse};
use std::convert::TryFrom;
use std::io::Cursor;
use std::net::{Ipv4Addr, SocketAddrV4};

pub fn families() -> Vec<Fam> {
    let e = |props, name, f| Fam { props, name, kind: Kind::Exhaustive(f) };
    let r = |props, name, f| Fam { props, name, kind: Kind::Random(f) };
    vec![
        e("C01 C11", "addr_u16_all", addr_u16_all),
        e("C01", "addr_components_all", addr_components_all),
        e("C02", "addr_text_all_3level", addr_text_all),
        r("C02", "addr_text", addr_text),
        r("C03", "decoders_total", decoders_total),
        r("C04", "conn_encode", conn_encode),
        r("C05", "conn_decode", conn_decode),
        e("C06 C07 C09", "codes_all", codes_all),
        r("C06", "tunnel_encode", tunnel_encode),
        r("C06", "tunnel_decode", tunnel_decode),
        r("C07", "search_encode", search_encode),
        r("C07", "search_decode", search_decode),
        r("C07", "dib_decode", dib_decode),
        r("C07", "friendly_name", friendly_name),
        e("C08", "apci_all", apci_all),
        r("C08", "ldata_req", ldata_req),
        r("C08", "ldata_req_pd", ldata_req_pd),
        r("C09", "cemi_decode", cemi_decode),
        r("C09", "ldata_decode", ldata_decode),
        r("C10", "dispatch", dispatch),
        r("C11", "roundtrip", roundtrip),
        r("C11", "roundtrip_dib", roundtrip_dib),
        r("C11", "roundtrip_telegram", roundtrip_telegram),
        e("C12", "dpt_small_all", dpt_small_all),
        r("C12", "dpt", dpt),
        e("C13", "float_decode_all", float_decode_all),
        r("C13", "float_encode", float_encode),
        e("C13", "float_encode_stride", float_encode_stride),
        e("C14", "percent_all", percent_all),
        r("C14", "percent", percent),
    ]
}

fn eq<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Res {
    if got == want {
        Ok(())
    } else {
        Err(format!("{what}: got {got:02x?}, expected {want:02x?}"))
    }
}

// ------------------------------------------------------------------ addresses
/// the numbers in a Debug rendering, when it has exactly n of them
fn nums(s: &str, n: usize) -> Option<Vec<u32>> {
    let v: Vec<u32> = s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect();
    if v.len() == n {
        Some(v)
    } else {
        None
    }
}
fn addr_u16_all() -> Res {
    for v in 0..=u16::MAX {
        let a = IndividualAddress::from_u16(v);
        eq(&format!("IndividualAddress::from_u16({v:#x}).to_u16()"), a.to_u16(), v)?;
        let (x, y, z) = (v / 4096, (v / 256) % 16, v % 256);
        let t = IndividualAddress::try_from(format!("{x}.{y}.{z}").as_str()).map_err(|e| format!("{x}.{y}.{z} refused: {e}"))?;
        ensure!(t == a, "IndividualAddress::from_u16({v:#x}) is not {x}.{y}.{z}");
        let g = Group3LevelAddress::from_u16(v);
        eq(&format!("Group3LevelAddress::from_u16({v:#x}).to_u16()"), g.to_u16(), v)?;
        if let Some(n) = nums(&format!("{:?}", g), 3) {
            eq(&format!("components of Group3LevelAddress::from_u16({v:#x})"), n, vec![(v / 2048) as u32, ((v / 256) % 8) as u32, (v % 256) as u32])?;
        }
    }
    Ok(())
}
fn addr_components_all() -> Res {
    for a in 0..16u16 {
        for l in 0..16u16 {
            for d in 0..256u16 {
                eq(&format!("individual {a}.{l}.{d}"), KnxAddress::individual(a as u8, l as u8, d as u8).to_u16(), a * 4096 + l * 256 + d)?;
            }
        }
    }
    for m in 0..32u16 {
        for k in 0..8u16 {
            for s in 0..256u16 {
                eq(&format!("group {m}/{k}/{s}"), KnxAddress::group_3_level(m as u8, k as u8, s as u8).to_u16(), m * 2048 + k * 256 + s)?;
            }
        }
        for s in 0..2048u16 {
            eq(&format!("group {m}/{s}"), KnxAddress::group_2_level(m as u8, s).to_u16(), m * 2048 + s)?;
        }
    }
    for v in 0..=u16::MAX {
        eq(&format!("group {v}"), KnxAddress::group_1_level(v).to_u16(), v)?;
    }
    Ok(())
}
fn kind(a: &KnxAddress) -> R::RAddr {
    let v = a.to_u16();
    match a {
        KnxAddress::Individual(x) => {
            assert_eq!(x.to_u16(), v);
            R::RAddr::Ind(v)
        }
        KnxAddress::Group3Level(_) => R::RAddr::G3(v),
        KnxAddress::Group2Level(_) => R::RAddr::G2(v),
        KnxAddress::Group1Level(_) => R::RAddr::G1(v),
    }
}
fn text_case(s: &str) -> Res {
    let want = R::addr_text(s);
    let got = KnxAddress::try_from(s).ok().map(|a| kind(&a));
    ensure!(got == want, "KnxAddress::try_from({s:?}) = {got:x?}, expected {want:x?}");
    let want = R::ind_text(s);
    let got = IndividualAddress::try_from(s).ok().map(|a| a.to_u16());
    ensure!(got == want, "IndividualAddress::try_from({s:?}) = {got:x?}, expected {want:x?}");
    let want = R::g3_text(s);
    let got = Group3LevelAddress::try_from(s).ok().map(|a| a.to_u16());
    ensure!(got == want, "Group3LevelAddress::try_from({s:?}) = {got:x?}, expected {want:x?}");
    Ok(())
}
fn addr_text_all() -> Res {
    let a: Vec<String> = (0..34).map(|x| x.to_string()).collect();
    let b: Vec<String> = [0, 1, 6, 7, 8, 9, 14, 15, 16, 17, 255, 256].iter().map(|x: &u32| x.to_string()).collect();
    for x in &a {
        for y in &b {
            for z in 0..260 {
                text_case(&format!("{x}/{y}/{z}"))?;
                text_case(&format!("{x}.{y}.{z}"))?;
            }
        }
        for z in 0..2060 {
            text_case(&format!("{x}/{z}"))?;
        }
    }
    for v in 0..70000u32 {
        text_case(&v.to_string())?;
    }
    Ok(())
}
fn addr_text(r: &mut Rng) -> Res {
    let n = r.below(5) + 1;
    let mut s = String::new();
    for i in 0..n {
        if i > 0 {
            s.push_str(r.pick(&["/", "/", "/", ".", ".", "//", ":", ",", " / "]));
        }
        match r.below(14) {
            0 => {}
            1 => s.push_str(r.pick(&["+", "-", " ", "a", "0x1", "+0", "+5", "-1", "00", "007", " 1", "1 ", "+-1", "++1", "٣", "1e2", "1_0", "_1", "𝟙", "1.0"])),
            2 => s.push_str(&r.pick(&[15u64, 16, 31, 32, 7, 8, 255, 256, 2047, 2048, 65535, 65536, 4294967295, 4294967296, 18446744073709551615]).to_string()),
            3 => s.push_str(&format!("{}{}", "0".repeat(r.below(6)), r.below(300))),
            4 => s.push_str(&format!("{}", r.below(70000))),
            5 => s.push_str(&format!("{}99999999999999999999", r.below(10))),
            _ => s.push_str(&r.pick(&[0usize, 1, 2, 3, 7, 8, 9, 15, 16, 20, 31, 32, 100, 200, 255, 256]).to_string()),
        }
    }
    if r.one_in(20) {
        s.push_str(r.pick(&["/", ".", " ", "\0", "\n"]));
    }
    if r.one_in(20) {
        s.insert_str(0, r.pick(&["/", ".", " ", "+"]));
    }
    text_case(&s)
}

// ------------------------------------------------------------------ generators of frames
fn ip(r: &mut Rng) -> [u8; 4] {
    [r.u8(), r.u8(), r.u8(), r.u8()]
}
pub fn rhpai(r: &mut Rng) -> Vec<u8> {
    R::hpai(r.u8(), ip(r), r.u16())
}
fn hpai_of(h: &[u8]) -> HPAI {
    HPAI { host_protocol_code: h[1], address: SocketAddrV4::new(Ipv4Addr::new(h[2], h[3], h[4], h[5]), R::at2(h, 6)) }
}
fn hpai_eq(what: &str, h: &HPAI, d: &[u8]) -> Res {
    let got = R::hpai(h.host_protocol_code, h.address.ip().octets(), h.address.port());
    eq(what, got, R::hpai(d[1], [d[2], d[3], d[4], d[5]], R::at2(d, 6)))
}
pub fn rcemi(r: &mut Rng) -> Vec<u8> {
    if r.one_in(6) {
        let n = r.len();
        return r.bytes(n);
    }
    let mut infos = vec![];
    for _ in 0..(if r.flip() { 0 } else { 1 + r.below(3) }) {
        let n = if r.one_in(8) { r.below(254) } else { r.below(6) };
        infos.push(r.pick(&[1u8, 2, 3, 4, 5, 6, 7, 8, 9, 10, 0xfe, 3, 4, 6]));
        infos.push(n as u8);
        let b = r.bytes(n);
        infos.extend(b);
    }
    let mut v = vec![r.pick(&[0x29u8, 0x29, 0x29, 0x2e, 0x2e, 0x2b, 0x2b, 0x11, 0x2d, 0xfc]), infos.len() as u8];
    if infos.len() > 255 {
        v[1] = 255;
    }
    v.extend(infos);
    v.extend(rservice(r));
    v
}
fn rservice(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(8) {
        0..=2 => 0,
        3..=6 => r.below(16),
        _ => r.below(256),
    };
    let mut v = vec![r.u8(), r.u8()];
    v.extend(R::be16(r.u16()));
    v.extend(R::be16(r.u16()));
    v.push((n + 1).min(255) as u8);
    v.extend(r.pick(&[[0u8, 0], [0, 0x40], [0, 0x80], [0, 0x41], [0, 0xbf], [3, 0xc0], [1, 0], [2, 0x80], [0xfc, 0x3f]]));
    if r.flip() {
        let k = v.len();
        v[k - 1] = r.u8();
        v[k - 2] = r.u8();
    }
    let b = r.bytes(n.min(254));
    v.extend(b);
    v
}
fn rdev_body(r: &mut Rng) -> Vec<u8> {
    let mut v = vec![r.pick(&[2u8, 3, 0x10, 0x20]), r.pick(&[0u8, 1])];
    v.extend(r.bytes(50));
    v
}
fn dib_wrap(code: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![(2 + body.len() + body.len() % 2) as u8, code];
    v.extend(body);
    if body.len() % 2 == 1 {
        v.push(0);
    }
    v
}
fn rdib(r: &mut Rng) -> Vec<u8> {
    match r.below(6) {
        0 => {
            let b = rdev_body(r);
            dib_wrap(1, &b)
        }
        1 => {
            let n = if r.one_in(6) { r.below(127) } else { r.below(8) };
            let b = r.bytes(2 * n);
            dib_wrap(2, &b)
        }
        2 => {
            let b = r.bytes(14);
            dib_wrap(3, &b)
        }
        3 => {
            let b = r.bytes(18);
            dib_wrap(4, &b)
        }
        4 => {
            let n = if r.one_in(6) { r.below(126) } else { r.below(8) };
            let b = r.bytes(2 + 2 * n);
            dib_wrap(5, &b)
        }
        _ => {
            let n = if r.one_in(6) { r.below(251) } else { r.below(9) };
            let b = r.bytes(2 + n);
            dib_wrap(0xfe, &b)
        }
    }
}
pub fn rsearch(r: &mut Rng) -> Vec<u8> {
    let mut b = rhpai(r);
    let d = rdev_body(r);
    b.extend(dib_wrap(1, &d));
    let n = if r.one_in(6) { r.below(127) } else { r.below(8) };
    let f = r.bytes(2 * n);
    b.extend(dib_wrap(2, &f));
    R::frame(0x0202, &b)
}
pub fn rframe(r: &mut Rng) -> Vec<u8> {
    match r.below(14) {
        0 | 1 => {
            let c = rcemi(r);
            R::treq(r.u8(), r.u8(), &c)
        }
        2 => R::tack(r.u8(), r.u8(), r.u8()),
        3 => R::fresp(r.u8(), r.u8(), r.pick(&[2u8, 6, 7, 8, 8]), r.u8(), r.u8()),
        4 => R::chan_status(0x020a, r.u8(), r.u8()),
        5 => R::chan_status(0x0208, r.u8(), r.u8()),
        6 => {
            let h = rhpai(r);
            R::chan_hpai(0x0209, r.u8(), &h)
        }
        7 => {
            let h = rhpai(r);
            R::chan_hpai(0x0207, r.u8(), &h)
        }
        8 => {
            let h = rhpai(r);
            R::conn_resp(r.u8(), r.pick(&[0u8, 0, 0, 0x21, 0x22, 0x23, 0x24, 0x26, 0x27, 0x29, 1, 255]), &h, r.u16())
        }
        9 => rsearch(r),
        10 => {
            let h = rhpai(r);
            R::frame(0x0201, &h)
        }
        11 => R::fset(r.u8(), r.u8(), 8, r.u8()),
        12 => R::conn_req(2),
        _ => {
            let n = r.len();
            r.bytes(n)
        }
    }
}
fn msg(r: &mut Rng) -> Vec<u8> {
    let f = rframe(r);
    r.mutate(f)
}
/// runs a decoder on d, sometimes with the cursor already advanced over some leading bytes; also reports octets consumed
fn dec<T, E>(r: &mut Rng, d: &[u8], f: impl Fn(&mut Cursor<&[u8]>) -> Result<T, E>) -> (Option<T>, u64) {
    let k = if r.flip() { 0 } else { r.below(7) };
    let mut v = r.bytes(k);
    v.extend(d);
    let mut c = Cursor::new(v.as_slice());
    c.set_position(k as u64);
    let x = f(&mut c).ok();
    (x, c.position().wrapping_sub(k as u64))
}

// ------------------------------------------------------------------ C03
fn decoders_total(r: &mut Rng) -> Res {
    let d = if r.one_in(4) { rdib(r) } else if r.one_in(4) { rcemi(r) } else { rframe(r) };
    let d = r.mutate(d);
    let start = if r.flip() { 0 } else { r.below(d.len() + 3) as u64 };
    fn at(d: &[u8], p: u64) -> Cursor<&[u8]> {
        let mut c = Cursor::new(d);
        c.set_position(p);
        c
    }
    macro_rules! go { ($($e:expr),* $(,)?) => {{ $( { let f = $e; let _ = f(&mut at(&d, start)); if start != 0 { let _ = f(&mut at(&d, 0)); } } )* }} }
    let len = r.u8();
    let res = crate::quiet(|| {
        go!(
            KnxNetIpHeader::from_packet,
            |c: &mut Cursor<&[u8]>| CRD::from_packet(c),
            ConnectionResponse::from_packet,
            |c: &mut Cursor<&[u8]>| ConnectionstateRequest::from_packet(c),
            ConnectionstateResponse::from_packet,
            DisconnectRequest::from_packet,
            DisconnectResponse::from_packet,
            SearchRequest::from_packet,
            SearchResponse::from_packet,
            HPAI::from_packet,
            DIB::from_packet,
            TunnelingRequest::from_packet,
            TunnelingAck::from_packet,
            |c: &mut Cursor<&[u8]>| FeatureResp::from_packet(c),
            |c: &mut Cursor<&[u8]>| DeviceInformationDIB::from_packet(c, len),
            |c: &mut Cursor<&[u8]>| SupportedServiceFamiliesDIB::from_packet(c, len),
            |c: &mut Cursor<&[u8]>| IpConfigDIB::from_packet(c, len),
            |c: &mut Cursor<&[u8]>| IpCurrentConfigDIB::from_packet(c, len),
            |c: &mut Cursor<&[u8]>| KNXAddressesDIB::from_packet(c, len),
            |c: &mut Cursor<&[u8]>| ManufacturerDataDIB::from_packet(c, len),
        );
        for p in [0, start] {
            if let Ok(c) = CEMI::from_packet(&mut at(&d, p)) {
                let copy = || CEMI { msg_code: c.msg_code, additional_infos: vec![], service_info: c.service_info.clone() };
                let _ = LDataInd::from_cemi(copy());
                let _ = LDataCon::from_cemi(copy());
            }
        }
        let c = || CEMI { msg_code: 0x29, additional_infos: vec![], service_info: d.clone() };
        let _ = LDataInd::from_cemi(c());
        let _ = LDataCon::from_cemi(c());
        let _ = parse_response(d.clone());
        let _ = PdtKnxScaledValue::from_bytes(&d);
        let _ = PdtKnxInt::from_bytes(&d);
        let _ = PdtKnxFloat::from_bytes(&d);
        let _ = PdtKnxFloat::temp_from_bytes(&d);
        let _ = PdtKnxByte::from_bytes(&d);
        let _ = PdtKnxWord::from_bytes(&d);
        let _ = PdtKnxULong::from_bytes(&d);
        let _ = PdtKnxBit::from_bytes(&d);
        let _ = PdtKnxB1U3::from_bytes(&d);
    });
    res.map_err(|p| format!("decoding {d:02x?} from offset {start} (block length {len}) panicked: {p}"))
}

// ------------------------------------------------------------------ connection management
fn conn_encode(r: &mut Rng) -> Res {
    let h = rhpai(r);
    let (ch, st, ia) = (r.u8(), r.u8(), r.u16());
    eq("HPAI::packet", hpai_of(&h).packet(), h.clone())?;
    eq("HPAI::udp", HPAI::udp().packet(), R::hpai(1, [0; 4], 0))?;
    eq("HPAI::tcp", HPAI::tcp().packet(), R::hpai(2, [0; 4], 0))?;
    eq("CRI", vec![CRI::tunnel_linklayer().packet(), CRI::tunnel_raw().packet(), CRI::tunnel_busmonitor().packet()], vec![vec![4, 4, 2, 0], vec![4, 4, 4, 0], vec![4, 4, 0x80, 0]])?;
    eq("ConnectionRequest::tunnel", ConnectionRequest::tunnel().packet(), R::conn_req(2))?;
    eq("ConnectionRequest::busmonitor", ConnectionRequest::busmonitor().packet(), R::conn_req(0x80))?;
    eq("ConnectionstateRequest", ConnectionstateRequest::new(ch, hpai_of(&h)).packet(), R::chan_hpai(0x0207, ch, &h))?;
    eq("DisconnectRequest", DisconnectRequest::new(ch, hpai_of(&h)).packet(), R::chan_hpai(0x0209, ch, &h))?;
    eq("ConnectionstateResponse", ConnectionstateResponse { communication_channel_id: ch, status: st }.packet(), R::chan_status(0x0208, ch, st))?;
    eq("DisconnectResponse", DisconnectResponse { communication_channel_id: ch, status: st }.packet(), R::chan_status(0x020a, ch, st))?;
    let (s, l) = (r.u16(), r.u16());
    let mut w = vec![6, 0x10];
    w.extend(R::be16(s));
    w.extend(R::be16(l));
    eq("KnxNetIpHeader", KnxNetIpHeader { service_type_identifier: s, total_length: l }.packet(), w)?;
    // responses to what was received
    let d = R::conn_resp(ch, 0, &h, ia);
    if let Ok(c) = ConnectionResponse::from_packet(&mut Cursor::new(d.as_slice())) {
        eq("ConnectionResponse::packet", c.packet(), d.clone())?;
        eq("ConnectionstateRequest::from_connection_response", ConnectionstateRequest::from_connection_response(&c).packet(), R::chan_hpai(0x0207, ch, &h))?;
        eq("DisconnectRequest::from_connection_response", DisconnectRequest::from_connection_response(&c).packet(), R::chan_hpai(0x0209, ch, &h))?;
    }
    let d = DisconnectRequest::new(ch, hpai_of(&h));
    eq("DisconnectResponse::from_disconnect_request", DisconnectResponse::from_disconnect_request(&d).packet(), R::chan_status(0x020a, ch, 0))?;
    let mut c = vec![4, 4];
    c.extend(R::be16(ia));
    if let Ok(x) = CRD::from_packet(&mut Cursor::new(c.as_slice())) {
        eq("CRD::packet", x.packet(), c)?;
    }
    Ok(())
}
fn conn_decode(r: &mut Rng) -> Res {
    let h = rhpai(r);
    let f = match r.below(8) {
        0..=2 => R::conn_resp(r.u8(), r.pick(&[0u8, 0, 0, 0, 0x21, 0x22, 0x23, 0x24, 0x26, 0x27, 0x29, 1, 255]), &h, r.u16()),
        3 => R::chan_hpai(0x0207, r.u8(), &h),
        4 => R::chan_hpai(0x0209, r.u8(), &h),
        5 => R::chan_status(0x0208, r.u8(), r.u8()),
        6 => R::chan_status(0x020a, r.u8(), r.u8()),
        _ => rframe(r),
    };
    let d = r.mutate(f);
    let (x, n) = dec(r, &d, ConnectionResponse::from_packet);
    ensure!(x.is_some() == R::conn_resp_ok(&d), "ConnectionResponse::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(c) = x {
        eq("channel", c.get_communication_channel_id(), d[6])?;
        eq("status", c.get_status(), d[7])?;
        hpai_eq("data endpoint", &c.get_data_endpoint(), &d[8..16])?;
        let mut w = R::conn_resp(d[6], d[7], &d[8..16], R::at2(&d, 18));
        w[8] = 8;
        eq("re-encoded connection response", c.packet(), w)?;
        eq("octets read", n, 20)?;
    }
    let (x, n) = dec(r, &d, ConnectionstateRequest::from_packet);
    ensure!(x.is_some() == R::chan_hpai_ok(0x0207, &d), "ConnectionstateRequest::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(c) = x {
        eq("channel", c.communication_channel_id, d[6])?;
        hpai_eq("control endpoint", &c.control_endpoint, &d[8..16])?;
        eq("octets read", n, 16)?;
    }
    let (x, n) = dec(r, &d, DisconnectRequest::from_packet);
    ensure!(x.is_some() == R::chan_hpai_ok(0x0209, &d), "DisconnectRequest::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(c) = x {
        eq("disconnect request", c.packet(), R::chan_hpai(0x0209, d[6], &d[8..16]))?;
        eq("octets read", n, 16)?;
    }
    let (x, n) = dec(r, &d, ConnectionstateResponse::from_packet);
    ensure!(x.is_some() == R::chan_status_ok(0x0208, &d), "ConnectionstateResponse::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(c) = x {
        eq("connectionstate response", (c.communication_channel_id, c.status), (d[6], d[7]))?;
        eq("octets read", n, 8)?;
    }
    let (x, n) = dec(r, &d, DisconnectResponse::from_packet);
    ensure!(x.is_some() == R::chan_status_ok(0x020a, &d), "DisconnectResponse::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(c) = x {
        eq("disconnect response", (c.communication_channel_id, c.status), (d[6], d[7]))?;
        eq("octets read", n, 8)?;
    }
    let h = r.mutate(h);
    let (x, n) = dec(r, &h, HPAI::from_packet);
    ensure!(x.is_some() == R::hpai_ok(&h, 0), "HPAI::from_packet accepted={} on {h:02x?}", x.is_some());
    if let Some(x) = x {
        hpai_eq("HPAI", &x, &h)?;
        eq("octets read", n, 8)?;
    }
    let mut c = vec![4, 4];
    c.extend(R::be16(r.u16()));
    let c = r.mutate(c);
    let (x, n) = dec(r, &c, CRD::from_packet);
    ensure!(x.is_some() == (c.len() >= 4 && c[0] == 4 && c[1] == 4), "CRD::from_packet accepted={} on {c:02x?}", x.is_some());
    if let Some(x) = x {
        eq("CRD", x.packet(), c[..4].to_vec())?;
        eq("octets read", n, 4)?;
    }
    let (x, n) = dec(r, &d, KnxNetIpHeader::from_packet);
    ensure!(x.is_some() == (d.len() >= 6 && d[0] == 6 && d[1] == 0x10), "KnxNetIpHeader::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(x) = x {
        eq("header", (x.service_type_identifier, x.total_length), (R::at2(&d, 2), R::at2(&d, 4)))?;
        eq("octets read", n, 6)?;
    }
    Ok(())
}

// ------------------------------------------------------------------ tunnelling
fn feat(v: u8) -> KnxIpFeature {
    match v {
        2 => KnxIpFeature::MaskVersion,
        6 => KnxIpFeature::IndividualAddress,
        7 => KnxIpFeature::MaxApduLength,
        _ => KnxIpFeature::InfoServiceEnable,
    }
}
fn featn(f: &KnxIpFeature) -> u8 {
    match f {
        KnxIpFeature::MaskVersion => 2,
        KnxIpFeature::IndividualAddress => 6,
        KnxIpFeature::MaxApduLength => 7,
        KnxIpFeature::InfoServiceEnable => 8,
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}
fn tunnel_encode(r: &mut Rng) -> Res {
    let (ch, nr, st, f, v) = (r.u8(), r.u8(), r.u8(), r.pick(&[2u8, 6, 7, 8]), r.u8());
    let n = if r.one_in(300) { r.pick(&[65525usize, 65524, 65280, 256, 1000]) } else { r.len() };
    let c = r.bytes(n);
    let t = TunnelingRequest::new(ch, nr, c.clone());
    eq("TunnelingRequest::new", (t.communication_channel_id, t.sequence_nr, t.get_cemi().clone()), (ch, nr, c.clone()))?;
    eq("TunnelingRequest::packet", t.packet(), R::treq(ch, nr, &c))?;
    eq("TunnelingAck::packet", TunnelingAck::new(ch, nr, st).packet(), R::tack(ch, nr, st))?;
    eq("FeatureSet::packet", FeatureSet::new(ch, nr, feat(f), v).packet(), R::fset(ch, nr, f, v))?;
    let x = FeatureResp { feature: feat(f), value: v, status: st, communication_channel_id: ch, sequence_nr: nr };
    eq("FeatureResp::packet", x.packet(), R::fresp(ch, nr, f, st, v))
}
fn tunnel_decode(r: &mut Rng) -> Res {
    let f = match r.below(6) {
        0..=2 => {
            let c = rcemi(r);
            R::treq(r.u8(), r.u8(), &c)
        }
        3 => R::tack(r.u8(), r.u8(), r.u8()),
        4 => R::fresp(r.u8(), r.u8(), r.pick(&[2u8, 6, 7, 8, 1, 3, 5, 9]), r.u8(), r.u8()),
        _ => rframe(r),
    };
    let d = r.mutate(f);
    let (x, n) = dec(r, &d, TunnelingRequest::from_packet);
    ensure!(x.is_some() == R::treq_ok(&d), "TunnelingRequest::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(t) = x {
        let l = R::at2(&d, 4) as usize;
        eq("tunnelling request", (t.communication_channel_id, t.sequence_nr, t.cemi.clone()), (d[7], d[8], d[10..l].to_vec()))?;
        eq("get_cemi", t.get_cemi().clone(), d[10..l].to_vec())?;
        eq("octets read", n, l as u64)?;
    }
    let (x, n) = dec(r, &d, TunnelingAck::from_packet);
    ensure!(x.is_some() == R::tack_ok(&d), "TunnelingAck::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(t) = x {
        eq("tunnelling ack", (t.communication_channel_id, t.sequence_nr, t.status), (d[7], d[8], d[9]))?;
        eq("octets read", n, 10)?;
    }
    let (x, n) = dec(r, &d, FeatureResp::from_packet);
    ensure!(x.is_some() == R::fresp_ok(&d), "FeatureResp::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(t) = x {
        eq("feature response", (t.communication_channel_id, t.sequence_nr, featn(&t.feature), t.status, t.value), (d[7], d[8], d[10], d[11], d[12]))?;
        eq("octets read", n, 13)?;
    }
    let v = r.u8();
    eq("KnxIpFeature::try_from", KnxIpFeature::try_from(v).ok().map(|f| featn(&f)), if R::feature_ok(v) { Some(v) } else { None })
}

// ------------------------------------------------------------------ discovery
fn medium(v: u8) -> KnxMedium {
    match v {
        2 => KnxMedium::TP1,
        3 => KnxMedium::PL110,
        0x10 => KnxMedium::RF,
        _ => KnxMedium::IP,
    }
}
fn mediumn(m: KnxMedium) -> u8 {
    match m {
        KnxMedium::TP1 => 2,
        KnxMedium::PL110 => 3,
        KnxMedium::RF => 0x10,
        KnxMedium::IP => 0x20,
        _ => 0,
    }
}
fn a4(d: &[u8]) -> Ipv4Addr {
    Ipv4Addr::new(d[0], d[1], d[2], d[3])
}
fn dev_of(b: &[u8], len: u8) -> DeviceInformationDIB {
    DeviceInformationDIB {
        structure_length: len,
        description_type_code: DescriptionTypeCode::DeviceInfo,
        knx_medium: medium(b[0]),
        knx_device_status: DeviceStatus::from_bits_retain(b[1]),
        knx_individual_address: IndividualAddress::from_u16(R::at2(b, 2)),
        project_installation_identifier: R::at2(b, 4),
        serial_number: b[6..12].try_into().unwrap(),
        routing_multicast_address: a4(&b[12..]),
        mac_address: b[16..22].try_into().unwrap(),
        friendly_name: b[22..52].try_into().unwrap(),
    }
}
fn dev_view(x: &DeviceInformationDIB) -> (u8, bool, Vec<u8>) {
    let mut v = vec![mediumn(x.knx_medium), x.knx_device_status.bits()];
    v.extend(R::be16(x.knx_individual_address.to_u16()));
    v.extend(R::be16(x.project_installation_identifier));
    v.extend(x.serial_number);
    v.extend(x.routing_multicast_address.octets());
    v.extend(x.mac_address);
    v.extend(x.friendly_name);
    (x.structure_length, x.description_type_code == DescriptionTypeCode::DeviceInfo, v)
}
/// view of a decoded block: type code, stored length, body octets
fn dib_view(x: &DIB) -> (u8, u8, bool, Vec<u8>) {
    match x {
        DIB::DeviceInformation(d) => {
            let v = dev_view(d);
            (1, v.0, v.1, v.2)
        }
        DIB::SupportedServiceFamilies(d) => (
            2,
            d.structure_length,
            d.description_type_code == DescriptionTypeCode::SupportedServiceFamilies,
            d.service_families.iter().flat_map(|s| [s.service_family, s.version]).collect(),
        ),
        DIB::IpConfig(d) => {
            let mut v = d.ip_address.octets().to_vec();
            v.extend(d.subnet_mask.octets());
            v.extend(d.default_gateway.octets());
            v.extend([d.ip_capabilities, d.ip_assignment_method]);
            (3, d.structure_length, d.description_type_code == DescriptionTypeCode::IpConfig, v)
        }
        DIB::IpCurrentConfig(d) => {
            let mut v = d.current_ip_address.octets().to_vec();
            v.extend(d.current_subnet_mask.octets());
            v.extend(d.current_default_gateway.octets());
            v.extend(d.dhcp_server.octets());
            v.extend([d.current_ip_assignment_method, d.reserved]);
            (4, d.structure_length, d.description_type_code == DescriptionTypeCode::IpCurrentConfig, v)
        }
        DIB::KNXAddresses(d) => {
            let mut v = R::be16(d.knx_individual_address.to_u16()).to_vec();
            for a in &d.additional_individual_addresses {
                v.extend(R::be16(a.to_u16()));
            }
            (5, d.structure_length, d.description_type_code == DescriptionTypeCode::KNXAddresses, v)
        }
        DIB::ManufacturerData(d) => {
            let mut v = R::be16(d.knx_manufacturer_id).to_vec();
            v.extend(&d.manufacturer_specific_data);
            (0xfe, d.structure_length, d.description_type_code == DescriptionTypeCode::ManufacturerData, v)
        }
    }
}
fn dib_of(code: u8, len: u8, b: &[u8]) -> DIB {
    match code {
        1 => DIB::DeviceInformation(dev_of(b, len)),
        2 => DIB::SupportedServiceFamilies(SupportedServiceFamiliesDIB {
            structure_length: len,
            description_type_code: DescriptionTypeCode::SupportedServiceFamilies,
            service_families: b.chunks(2).map(|c| ServiceFamily { service_family: c[0], version: c[1] }).collect(),
        }),
        3 => DIB::IpConfig(IpConfigDIB {
            structure_length: len,
            description_type_code: DescriptionTypeCode::IpConfig,
            ip_address: a4(b),
            subnet_mask: a4(&b[4..]),
            default_gateway: a4(&b[8..]),
            ip_capabilities: b[12],
            ip_assignment_method: b[13],
        }),
        4 => DIB::IpCurrentConfig(IpCurrentConfigDIB {
            structure_length: len,
            description_type_code: DescriptionTypeCode::IpCurrentConfig,
            current_ip_address: a4(b),
            current_subnet_mask: a4(&b[4..]),
            current_default_gateway: a4(&b[8..]),
            dhcp_server: a4(&b[12..]),
            current_ip_assignment_method: b[16],
            reserved: b[17],
        }),
        5 => DIB::KNXAddresses(KNXAddressesDIB {
            structure_length: len,
            description_type_code: DescriptionTypeCode::KNXAddresses,
            knx_individual_address: IndividualAddress::from_u16(R::at2(b, 0)),
            additional_individual_addresses: b[2..].chunks(2).map(|c| IndividualAddress::from_u16(R::at2(c, 0))).collect(),
        }),
        _ => DIB::ManufacturerData(ManufacturerDataDIB {
            structure_length: len,
            description_type_code: DescriptionTypeCode::ManufacturerData,
            knx_manufacturer_id: R::at2(b, 0),
            manufacturer_specific_data: b[2..].to_vec(),
        }),
    }
}
fn dib_body_packet(x: &DIB) -> Vec<u8> {
    match x {
        DIB::DeviceInformation(d) => d.packet(),
        DIB::SupportedServiceFamilies(d) => d.packet(),
        DIB::IpConfig(d) => d.packet(),
        DIB::IpCurrentConfig(d) => d.packet(),
        DIB::KNXAddresses(d) => d.packet(),
        DIB::ManufacturerData(d) => d.packet(),
    }
}
fn search_encode(r: &mut Rng) -> Res {
    let a = ip(r);
    let p = r.u16();
    eq("SearchRequest::udp", SearchRequest::udp().packet(), R::frame(0x0201, &R::hpai(1, [224, 0, 23, 12], 3671)))?;
    eq("SearchRequest::udp_unicast", SearchRequest::udp_unicast(SocketAddrV4::new(a.into(), p)).packet(), R::frame(0x0201, &R::hpai(1, a, p)))?;
    let h = rhpai(r);
    let dev = rdev_body(r);
    let n = if r.one_in(6) { r.below(127) } else { r.below(8) };
    let fam = r.bytes(2 * n);
    let mut w = h.clone();
    w.extend(dib_wrap(1, &dev));
    w.extend(dib_wrap(2, &fam));
    let x = SearchResponse {
        control_endpoint: hpai_of(&h),
        device_hardware: dev_of(&dev, r.u8()),
        supported_service_families: match dib_of(2, r.u8(), &fam) {
            DIB::SupportedServiceFamilies(f) => f,
            _ => unreachable!(),
        },
    };
    eq("SearchResponse::packet", x.packet(), R::frame(0x0202, &w))?;
    let d = rdib(r);
    let odd = d[1] == 0xfe && r.flip() && d.len() > 5;
    let body = if odd { &d[2..d.len() - 1] } else { &d[2..] };
    let x = dib_of(d[1], r.u8(), body);
    eq("DIB body", dib_body_packet(&x), body.to_vec())?;
    eq("DIB::packet", x.packet(), dib_wrap(d[1], body))?;
    let l = r.u8();
    eq("DIB::structure_length", dib_of(d[1], l, body).structure_length(), l)
}
fn search_decode(r: &mut Rng) -> Res {
    let f = match r.below(4) {
        0 => {
            let h = rhpai(r);
            R::frame(0x0201, &h)
        }
        1 if r.one_in(3) => rframe(r),
        _ => rsearch(r),
    };
    let d = r.mutate(f);
    let (x, n) = dec(r, &d, SearchRequest::from_packet);
    ensure!(x.is_some() == (R::hdr(&d, 0x0201) && R::hpai_ok(&d, 6)), "SearchRequest::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(x) = x {
        eq("search request", x.packet(), R::frame(0x0201, &d[6..14]))?;
        eq("octets read", n, 14)?;
    }
    let (x, _) = dec(r, &d, SearchResponse::from_packet);
    ensure!(x.is_some() == R::search_resp_ok(&d), "SearchResponse::from_packet accepted={} on {d:02x?}", x.is_some());
    if let Some(x) = x {
        search_view(&x, &d)?;
    }
    Ok(())
}
/// a decoded search response holds exactly what the datagram says
pub fn search_view(x: &SearchResponse, d: &[u8]) -> Res {
    hpai_eq("control endpoint", &x.control_endpoint, &d[6..14])?;
    let mut b = d[16..68].to_vec();
    b[1] &= 1;
    eq("device information", dev_view(&x.device_hardware), (d[14], true, b))?;
    let n = (d[68] as usize - 2) / 2;
    eq("families", dib_view(&DIB::SupportedServiceFamilies(x.supported_service_families.clone())), (2, d[68], true, d[70..70 + 2 * n].to_vec()))
}
fn dib_decode(r: &mut Rng) -> Res {
    let d = rdib(r);
    let d = r.mutate(d);
    let (x, n) = dec(r, &d, DIB::from_packet);
    let want = R::dib_len(&d);
    ensure!(x.is_some() == want.is_some(), "DIB::from_packet accepted={} on {d:02x?}", x.is_some());
    if let (Some(x), Some(l)) = (x, want) {
        let mut b = d[2..l].to_vec();
        if d[1] == 1 {
            b[1] &= 1;
        }
        eq(&format!("DIB of {d:02x?}"), dib_view(&x), (d[1], d[0], true, b))?;
        eq("octets read", n, l as u64)?;
    }
    let v = r.u8();
    eq("KnxMedium::try_from", KnxMedium::try_from(v).ok().map(mediumn), if [2, 3, 0x10, 0x20].contains(&v) { Some(v) } else { None })?;
    eq("DescriptionTypeCode::try_from", DescriptionTypeCode::try_from(v).is_ok(), (1..=5).contains(&v) || v == 0xfe)
}
fn friendly_name(r: &mut Rng) -> Res {
    let n = r.pick(&[0usize, 1, 2, 15, 28, 29, 30, 31, 32, 40]);
    let s: String = (0..n).map(|_| char::from(r.pick(&[b'a', b' ', b'Z', 0xe4, 0xff, 0x20, 0x7e, 0xa0, 0xfc, b'0']))).collect();
    let b: Vec<u8> = s.chars().map(|c| c as u32 as u8).collect();
    let ser: [u8; 6] = r.bytes(6).try_into().unwrap();
    let mac: [u8; 6] = r.bytes(6).try_into().unwrap();
    let a = ip(r);
    let (ia, pid, m, len) = (r.u16(), r.u16(), r.pick(&[2u8, 3, 0x10, 0x20]), r.u8());
    let x = DeviceInformationDIB::new(len, medium(m), DeviceStatus::from_bits_truncate(1), IndividualAddress::from_u16(ia), pid, ser, a.into(), mac, s.clone());
    ensure!(x.is_ok() == (n <= 30), "DeviceInformationDIB::new with a name of {n} characters accepted={}", x.is_ok());
    if let Ok(x) = x {
        let mut w = vec![m, 1];
        w.extend(R::be16(ia));
        w.extend(R::be16(pid));
        w.extend(ser);
        w.extend(a);
        w.extend(mac);
        let mut nm = b;
        nm.resize(30, 0);
        w.extend(&nm);
        eq("DeviceInformationDIB::new", dev_view(&x), (len, true, w))?;
        let t = x.friendly_name().map_err(|e| format!("friendly_name: {e}"))?;
        let want: String = nm.iter().map(|b| char::from(*b)).collect();
        ensure!(t.trim_end_matches('\0') == want.trim_end_matches('\0'), "friendly_name() = {t:?}, expected {want:?}");
    }
    let bad = DeviceInformationDIB::new(54, medium(m), DeviceStatus::from_bits_truncate(0), IndividualAddress::from_u16(ia), pid, ser, a.into(), mac, "snow\u{2603}".into());
    ensure!(bad.is_err(), "a name outside ISO 8859-1 was accepted");
    Ok(())
}

// ------------------------------------------------------------------ outgoing telegrams
fn apci_all() -> Res {
    eq("a_group_value_read", APCI::a_group_value_read().packet(), vec![0, 0])?;
    eq("a_group_value_write", APCI::a_group_value_write().packet(), vec![0, 0x80])?;
    eq("group_value_read", APDU::group_value_read().packet(), vec![0, 0])?;
    for v in 0..=255u8 {
        eq("small", APDU::group_value_write(vec![v], true).packet(), vec![0, 0x80 | (v & 0x3f)])?;
        eq("big", APDU::group_value_write(vec![v], false).packet(), vec![0, 0x80, v])?;
        eq("new small", APDU::new(APCI::a_group_value_write(), APDUData::Small(v)).packet(), vec![0, 0x80 | (v & 0x3f)])?;
        eq("new small", APDU::new(APCI::a_group_value_read(), APDUData::Small(v)).packet(), vec![0, v & 0x3f])?;
    }
    Ok(())
}
pub fn raddr(r: &mut Rng) -> (KnxAddress, u16) {
    match r.below(4) {
        0 => {
            let (a, b, c) = (r.below(32) as u16, r.below(8) as u16, r.u8());
            (KnxAddress::group_3_level(a as u8, b as u8, c), a * 2048 + b * 256 + c as u16)
        }
        1 => {
            let (a, b) = (r.below(32) as u16, r.u16() % 2048);
            (KnxAddress::group_2_level(a as u8, b), a * 2048 + b)
        }
        2 => {
            let a = r.u16();
            (KnxAddress::group_1_level(a), a)
        }
        _ => {
            let (a, b, c) = (r.below(16) as u16, r.below(16) as u16, r.u8());
            (KnxAddress::individual(a as u8, b as u8, c), a * 4096 + b * 256 + c as u16)
        }
    }
}
fn ldata_req(r: &mut Rng) -> Res {
    let n = r.pick(&[0usize, 1, 1, 2, 3, 4, 8, 14, 15, 16, 64, 250, 252, 253]);
    let v = r.bytes(n);
    let small = r.flip();
    let (a, u) = raddr(r);
    let w = R::group_apdu(&v, small);
    eq("APDU", APDU::group_value_write(v.clone(), small).packet(), w.clone())?;
    let t = TPDU::t_data_group(APDU::group_value_write(v.clone(), small));
    eq("TPDU", t.packet(), w.clone())?;
    let mut m = LDataReqMessage::new(a, t);
    eq("L_Data.req", m.packet(), R::ldata_req(3, u, &w))?;
    let p = r.u8();
    m.set_priority(p);
    eq("L_Data.req with priority", m.packet(), R::ldata_req(p, u, &w))?;
    let (a, u) = raddr(r);
    eq("L_Data.req read", LDataReqMessage::new(a, TPDU::t_data_group(APDU::group_value_read())).packet(), R::ldata_req(3, u, &[0, 0]))
}
fn ldata_req_pd(r: &mut Rng) -> Res {
    let v = r.u8();
    eq("bit", APDU::group_value_write_pd(PdtKnxBit::switch(v & 1 == 1)).packet(), vec![0, 0x80 | (v & 1)])?;
    eq("b1u3", APDU::group_value_write_pd(PdtKnxB1U3::general(v)).packet(), vec![0, 0x80 | (v & 15)])?;
    eq("byte", APDU::group_value_write_pd(PdtKnxByte::general(v)).packet(), vec![0, 0x80, v])?;
    eq("scaled", APDU::group_value_write_pd::<u8>(PdtKnxScaledValue::general(v)).packet(), vec![0, 0x80, v])?;
    let w = r.u16();
    let b = R::be16(w);
    eq("word", APDU::group_value_write_pd(PdtKnxWord::general(w)).packet(), vec![0, 0x80, b[0], b[1]])?;
    eq("int", APDU::group_value_write_pd(PdtKnxInt::general(w as i16)).packet(), vec![0, 0x80, b[0], b[1]])?;
    let l = r.u32();
    let mut x = vec![0, 0x80];
    x.extend(R::be16((l / 65536) as u16));
    x.extend(R::be16((l % 65536) as u16));
    eq("ulong", APDU::group_value_write_pd(PdtKnxULong::general(l)).packet(), x)?;
    let f = f32::from_bits(r.u32());
    let mut x = vec![0, 0x80];
    x.extend(PdtKnxFloat::general(f).get_bytes());
    eq("float", APDU::group_value_write_pd(PdtKnxFloat::general(f)).packet(), x.clone())?;
    eq("float length", x.len(), 4)
}

// ------------------------------------------------------------------ incoming telegrams
fn ain(t: &CEMIAdditionalInfoType) -> u8 {
    match t {
        CEMIAdditionalInfoType::PLMediumInfo => 1,
        CEMIAdditionalInfoType::RFMediumInfo => 2,
        CEMIAdditionalInfoType::BusmonitorStatusInfo => 3,
        CEMIAdditionalInfoType::TimestampRelative => 4,
        CEMIAdditionalInfoType::TimeDelayUnitlSending => 5,
        CEMIAdditionalInfoType::ExtendedRelativeTime => 6,
        CEMIAdditionalInfoType::BiBatInfo => 7,
        CEMIAdditionalInfoType::RFMultiInfo => 8,
        CEMIAdditionalInfoType::PreambleAndPostamble => 9,
        CEMIAdditionalInfoType::RFFastAckInfo => 10,
        CEMIAdditionalInfoType::ManufacturerSpecificData => 0xfe,
        #[allow(unreachable_patterns)]
        _ => 0,
    }
}
fn cemi_decode(r: &mut Rng) -> Res {
    let d = rcemi(r);
    let d = r.mutate(d);
    let (x, _) = dec(r, &d, CEMI::from_packet);
    let want = R::cemi(&d);
    ensure!(x.is_some() == want.is_some(), "CEMI::from_packet accepted={} on {d:02x?}", x.is_some());
    if let (Some(x), Some(w)) = (x, want) {
        let infos: Vec<(u8, Vec<u8>)> = x.additional_infos.iter().map(|i| (ain(&i.info_type), i.value.clone())).collect();
        eq(&format!("cEMI of {d:02x?}"), (x.msg_code, infos, x.service_info.clone()), (w.code, w.infos, w.body))?;
    }
    let v = r.u8();
    eq("CEMIAdditionalInfoType::try_from", CEMIAdditionalInfoType::try_from(v).ok().map(|t| ain(&t)), if (1..=10).contains(&v) || v == 0xfe { Some(v) } else { None })
}
pub fn ind_view(x: &LDataInd) -> R::RInd {
    R::RInd {
        src: x.l_data.src,
        dest: x.l_data.dest,
        flags: [x.l_data.frame_type, x.l_data.repetition, x.l_data.system_broadcast, x.l_data.ack_request],
        apci: x.apci,
        value: x.value.clone(),
    }
}
fn ldata_decode(r: &mut Rng) -> Res {
    let s = rservice(r);
    let s = r.mutate(s);
    let code = r.u8();
    let c = || CEMI { msg_code: code, additional_infos: vec![], service_info: s.clone() };
    let x = LDataInd::from_cemi(c()).ok();
    eq(&format!("L_Data.ind of {s:02x?}"), x.as_ref().map(ind_view), R::lind(&s))?;
    if let Some(x) = x {
        eq("cemi kept", (x.cemi.msg_code, x.cemi.service_info), (code, s.clone()))?;
    }
    let x = LDataCon::from_cemi(c()).ok();
    let got = x.as_ref().map(|x| (x.l_data.src, x.l_data.dest, [x.l_data.frame_type, x.l_data.repetition, x.l_data.system_broadcast, x.l_data.ack_request], x.confirm));
    eq(&format!("L_Data.con of {s:02x?}"), got, R::lcon(&s))?;
    if let Some(x) = x {
        eq("cemi kept", (x.cemi.msg_code, x.cemi.service_info), (code, s))?;
    }
    Ok(())
}
fn dispatch(r: &mut Rng) -> Res {
    let d = msg(r);
    let got = parse_response(d.clone()).ok().map(|x| match x {
        TunnelingResponse::TunnelingRequest(t) => R::RResp::Req(t.communication_channel_id, t.sequence_nr, t.cemi),
        TunnelingResponse::TunnelingAck(t) => R::RResp::Ack(t.communication_channel_id, t.sequence_nr, t.status),
        TunnelingResponse::FeatureResponse(t) => R::RResp::Feat(t.communication_channel_id, t.sequence_nr, featn(&t.feature), t.status, t.value),
        TunnelingResponse::ConnectionstateResponse(t) => R::RResp::State(t.communication_channel_id, t.status),
        TunnelingResponse::DisconnectResponse(t) => R::RResp::DiscResp(t.communication_channel_id, t.status),
        TunnelingResponse::DisconnectRequest(t) => {
            let p = t.packet();
            R::RResp::DiscReq(p[6], p[8..16].to_vec())
        }
    });
    eq(&format!("parse_response of {d:02x?}"), got, R::dispatch(&d))
}

// ------------------------------------------------------------------ round trips
fn cur(v: &[u8]) -> Cursor<&[u8]> {
    Cursor::new(v)
}
fn roundtrip(r: &mut Rng) -> Res {
    let (ch, nr, st, f, v) = (r.u8(), r.u8(), r.u8(), r.pick(&[2u8, 6, 7, 8]), r.u8());
    let h = hpai_of(&rhpai(r));
    let hv = |x: &HPAI| (x.host_protocol_code, x.address);
    let e = |n: &str| format!("{n} does not decode its own encoding");
    let x = HPAI::from_packet(&mut cur(&h.packet())).map_err(|_| e("HPAI"))?;
    eq("HPAI", hv(&x), hv(&h))?;
    let p = ConnectionstateRequest::new(ch, h.clone()).packet();
    let x = ConnectionstateRequest::from_packet(&mut cur(&p)).map_err(|_| e("ConnectionstateRequest"))?;
    eq("ConnectionstateRequest", (x.communication_channel_id, hv(&x.control_endpoint)), (ch, hv(&h)))?;
    let p = DisconnectRequest::new(ch, h.clone()).packet();
    let x = DisconnectRequest::from_packet(&mut cur(&p)).map_err(|_| e("DisconnectRequest"))?;
    eq("DisconnectRequest", x.packet(), p)?;
    let x = ConnectionstateResponse::from_packet(&mut cur(&ConnectionstateResponse { communication_channel_id: ch, status: st }.packet())).map_err(|_| e("ConnectionstateResponse"))?;
    eq("ConnectionstateResponse", (x.communication_channel_id, x.status), (ch, st))?;
    let x = DisconnectResponse::from_packet(&mut cur(&DisconnectResponse { communication_channel_id: ch, status: st }.packet())).map_err(|_| e("DisconnectResponse"))?;
    eq("DisconnectResponse", (x.communication_channel_id, x.status), (ch, st))?;
    let n = r.len();
    let c = r.bytes(n);
    let x = TunnelingRequest::from_packet(&mut cur(&TunnelingRequest::new(ch, nr, c.clone()).packet())).map_err(|_| e("TunnelingRequest"))?;
    eq("TunnelingRequest", (x.communication_channel_id, x.sequence_nr, x.cemi), (ch, nr, c))?;
    let x = TunnelingAck::from_packet(&mut cur(&TunnelingAck::new(ch, nr, st).packet())).map_err(|_| e("TunnelingAck"))?;
    eq("TunnelingAck", (x.communication_channel_id, x.sequence_nr, x.status), (ch, nr, st))?;
    let x = FeatureResp { feature: feat(f), value: v, status: st, communication_channel_id: ch, sequence_nr: nr };
    let x = FeatureResp::from_packet(&mut cur(&x.packet())).map_err(|_| e("FeatureResp"))?;
    eq("FeatureResp", (x.communication_channel_id, x.sequence_nr, featn(&x.feature), x.status, x.value), (ch, nr, f, st, v))?;
    let (s, l) = (r.u16(), r.u16());
    let x = KnxNetIpHeader::from_packet(&mut cur(&KnxNetIpHeader { service_type_identifier: s, total_length: l }.packet())).map_err(|_| e("KnxNetIpHeader"))?;
    eq("KnxNetIpHeader", (x.service_type_identifier, x.total_length), (s, l))?;
    let st2 = r.pick(&[0u8, 0, 0x21, 0x26, 0x27, 1, 255]);
    let ia = r.u16();
    let w = R::conn_resp(ch, st2, &h.packet(), ia);
    let x = ConnectionResponse::from_packet(&mut cur(&w)).map_err(|_| "a well-formed ConnectionResponse is refused".to_string())?;
    let y = ConnectionResponse::from_packet(&mut cur(&x.packet())).map_err(|_| e("ConnectionResponse"))?;
    eq("ConnectionResponse", (y.get_communication_channel_id(), y.get_status(), hv(&y.get_data_endpoint()), y.packet()), (ch, st2, hv(&h), x.packet()))?;
    let a = ip(r);
    let po = r.u16();
    let q = SearchRequest::udp_unicast(SocketAddrV4::new(a.into(), po)).packet();
    let x = SearchRequest::from_packet(&mut cur(&q)).map_err(|_| e("SearchRequest"))?;
    eq("SearchRequest", x.packet(), q)
}
fn roundtrip_dib(r: &mut Rng) -> Res {
    let d = rdib(r);
    // an odd manufacturer block is padded, its decoded data keep the padding octet
    let x = dib_of(d[1], d[0], &d[2..]);
    let y = DIB::from_packet(&mut cur(&x.packet())).map_err(|_| format!("DIB {x:?} does not decode its own encoding"))?;
    eq("DIB", dib_view(&y), dib_view(&x))?;
    let f = rsearch(r);
    let x = SearchResponse::from_packet(&mut cur(&f)).map_err(|_| format!("search response {f:02x?} refused"))?;
    let y = SearchResponse::from_packet(&mut cur(&x.packet())).map_err(|_| "SearchResponse does not decode its own encoding".to_string())?;
    eq(
        "SearchResponse",
        (dev_view(&y.device_hardware).2, dib_view(&DIB::SupportedServiceFamilies(y.supported_service_families.clone())).3, y.control_endpoint.address),
        (dev_view(&x.device_hardware).2, dib_view(&DIB::SupportedServiceFamilies(x.supported_service_families.clone())).3, x.control_endpoint.address),
    )
}
/// what is written to the bus comes back as the same value in the indication other devices see
fn roundtrip_telegram(r: &mut Rng) -> Res {
    let small = r.flip();
    let n = if small { 1 } else { 1 + r.pick(&[0usize, 1, 2, 3, 13, 14, 100, 252]) };
    let mut v = r.bytes(n);
    if small {
        v[0] &= 0x3f;
    }
    let (a, u) = raddr(r);
    let p = LDataReqMessage::new(a, TPDU::t_data_group(APDU::group_value_write(v.clone(), small))).packet();
    let c = CEMI::from_packet(&mut cur(&p)).map_err(|_| "own telegram is not a cEMI frame".to_string())?;
    eq("message code", c.msg_code, 0x11)?;
    let i = LDataInd::from_cemi(c).map_err(|_| "own telegram does not decode".to_string())?;
    eq("written value", (i.l_data.dest, i.l_data.src, i.apci, i.value), (u, 0, 2, v))
}

fn codes_all() -> Res {
    for v in 0..=255u8 {
        eq(&format!("medium {v}"), KnxMedium::try_from(v).ok().map(|x| x as u8), if [2, 3, 0x10, 0x20].contains(&v) { Some(v) } else { None })?;
        eq(&format!("description type {v}"), DescriptionTypeCode::try_from(v).ok().map(|x| x as u8), if (1..=5).contains(&v) || v == 0xfe { Some(v) } else { None })?;
        eq(&format!("feature {v}"), KnxIpFeature::try_from(v).ok().map(|x| x as u8), if [2, 6, 7, 8].contains(&v) { Some(v) } else { None })?;
        // additional information types, through a frame with one block of that type
        let f = [0x29, 2, v, 0, 1, 2, 3];
        let r = CEMI::from_packet(&mut cur(&f));
        eq(&format!("additional information type {v}"), r.is_ok(), (1..=10).contains(&v) || v == 0xfe)?;
    }
    Ok(())
}
// ------------------------------------------------------------------ datapoint types
fn dpt_small_all() -> Res {
    for v in 0..=255u8 {
        let x = PdtKnxByte::general(v);
        eq("byte", (x.get_value(), x.get_bytes(), x.is_small(), x.code.as_str()), (v, vec![v], false, "20.x"))?;
        let x = PdtKnxScaledValue::general(v);
        eq("scaled", (Pdt::get_value(&x), x.get_bytes(), x.is_small(), x.code.as_str()), (v, vec![v], false, "5.x"))?;
        let x = PdtKnxB1U3::general(v);
        eq("b1u3", (x.get_value(), x.get_bytes(), x.is_small(), x.code.as_str()), (v & 15, vec![v & 15], true, "3.x"))?;
        for b in [false, true] {
            let w = (b as u8) * 8 + v % 8;
            let x = PdtKnxB1U3::dimming(b, v);
            eq("dimming", (x.get_value(), x.get_bytes(), x.code.as_str()), (w, vec![w], "3.007"))?;
            let x = PdtKnxB1U3::blinds(b, v);
            eq("blinds", (x.get_value(), x.get_bytes(), x.code.as_str()), (w, vec![w], "3.008"))?;
        }
    }
    for b in [false, true] {
        let x = PdtKnxBit::general(b);
        eq("bit", (x.get_value(), x.get_bytes(), x.is_small(), x.code.as_str()), (b, vec![b as u8], true, "1.x"))?;
        let x = PdtKnxBit::switch(b);
        eq("switch", (x.get_value(), x.get_bytes(), x.is_small(), x.code.as_str()), (b, vec![b as u8], true, "1.001"))?;
    }
    for v in 0..=u16::MAX {
        let x = PdtKnxWord::general(v);
        eq("word", (x.get_value(), x.get_bytes(), x.is_small()), (v, R::be16(v).to_vec(), false))?;
        let x = PdtKnxInt::general(v as i16);
        eq("int", (x.get_value(), x.get_bytes(), x.is_small()), (v as i16, R::be16(v).to_vec(), false))?;
        let x = PdtKnxInt::value_2_count(v as i16);
        eq("count", (x.get_value(), x.get_bytes()), (v as i16, R::be16(v).to_vec()))?;
    }
    eq("codes", (PdtKnxWord::general(0).code, PdtKnxInt::general(0).code, PdtKnxInt::value_2_count(0).code, PdtKnxULong::general(0).code), ("7.x".into(), "8.x".into(), "8.001".into(), "12.x".into()))?;
    ensure!(!PdtKnxFloat::general(0.0).is_small(), "2-octet floats do not fit in the APCI octet");
    Ok(())
}
fn dpt(r: &mut Rng) -> Res {
    let n = r.pick(&[0usize, 1, 2, 3, 4, 5, 8]);
    let d = r.bytes(n);
    eq("byte from", PdtKnxByte::from_bytes(&d).ok().map(|x| x.get_value()), d.first().copied())?;
    eq("scaled from", PdtKnxScaledValue::from_bytes(&d).ok().map(|x| Pdt::get_value(&x)), d.first().copied())?;
    eq("bit from", PdtKnxBit::from_bytes(&d).ok().map(|x| x.get_value()), d.first().map(|x| *x != 0))?;
    eq("b1u3 from", PdtKnxB1U3::from_bytes(&d).ok().map(|x| x.get_value()), d.first().map(|x| x & 15))?;
    eq("word from", PdtKnxWord::from_bytes(&d).ok().map(|x| x.get_value()), if n >= 2 { Some(R::at2(&d, 0)) } else { None })?;
    eq("int from", PdtKnxInt::from_bytes(&d).ok().map(|x| x.get_value()), if n >= 2 { Some(R::at2(&d, 0) as i16) } else { None })?;
    eq("ulong from", PdtKnxULong::from_bytes(&d).ok().map(|x| x.get_value()), if n >= 4 { Some(R::at2(&d, 0) as u32 * 65536 + R::at2(&d, 2) as u32) } else { None })?;
    eq("float from", PdtKnxFloat::from_bytes(&d).is_ok(), n == 2)?;
    let l = r.u32();
    let mut w = R::be16((l / 65536) as u16).to_vec();
    w.extend(R::be16((l % 65536) as u16));
    let x = PdtKnxULong::general(l);
    eq("ulong", (x.get_value(), x.get_bytes(), x.is_small()), (l, w.clone(), false))?;
    eq("ulong back", PdtKnxULong::from_bytes(&w).ok().map(|x| x.get_value()), Some(l))
}

/// exact value of a 2-octet float in hundredths
fn f2_exact(w: u16) -> f64 {
    let e = ((w >> 11) & 15) as i32;
    let m = (w & 0x7ff) as i32 - if w & 0x8000 != 0 { 2048 } else { 0 };
    m as f64 * 2f64.powi(e)
}
fn float_decode_all() -> Res {
    for w in 0..=u16::MAX {
        let b = R::be16(w);
        let want = f2_exact(w) * 0.01;
        for x in [PdtKnxFloat::from_bytes(&b), PdtKnxFloat::temp_from_bytes(&b)] {
            let x = x.map_err(|e| format!("{b:02x?} refused: {e}"))?;
            let got = x.get_value() as f64;
            ensure!((got - want).abs() <= want.abs() * 1e-6, "PdtKnxFloat::from_bytes({b:02x?}) = {got}, expected {want}");
            let back = x.get_bytes();
            ensure!(back.len() == 2, "get_bytes of {got} has {} octets", back.len());
            let again = f2_exact(R::at2(&back, 0)) * 0.01;
            ensure!((again - want).abs() <= want.abs() * 1e-6, "{b:02x?} decodes to {want} and encodes to {back:02x?} which is {again}");
        }
    }
    for n in [0usize, 1, 3, 4] {
        ensure!(PdtKnxFloat::from_bytes(&vec![0; n]).is_err(), "{n} octets accepted as a 2-octet float");
    }
    Ok(())
}
pub fn float_case(v: f32) -> Res {
    if v.is_nan() {
        return Ok(());
    }
    let b = PdtKnxFloat::general(v).get_bytes();
    ensure!(b.len() == 2, "get_bytes of {v} has {} octets", b.len());
    let w = R::at2(&b, 0);
    let got = f2_exact(w);
    let want = (v as f64 * 100.0).clamp(-2048.0 * 32768.0, 2047.0 * 32768.0);
    // half a step of the smallest exponent that holds the value, plus f32 rounding of v * 100
    let mut e = 0;
    while want / 2f64.powi(e) < -2048.0 || (want / 2f64.powi(e)) > 2047.5 {
        e += 1;
    }
    let slack = want.abs() * 2.5e-7 + 1e-9;
    ensure!((got - want).abs() <= 0.5 * 2f64.powi(e) + slack, "PdtKnxFloat({v:e}).get_bytes() = {b:02x?} which is {}, more than half a step away", got * 0.01);
    ensure!(v != 0.0 || w == 0, "zero is encoded as {b:02x?}");
    Ok(())
}
fn float_encode(r: &mut Rng) -> Res {
    let f = crate::rng::fdict();
    let v = match r.below(6) {
        k if k < 3 && !f.is_empty() => r.pick(f) * r.pick(&[1.0f32, 1.0, 0.01, 100.0, -1.0]),
        0 => f32::from_bits(r.u32()),
        1 => (r.u64() as i64 % 67108864) as f32 / 100.0,
        2 => (r.u64() as i64 % 300000) as f32 / 100.0,
        3 => {
            let e = r.below(16) as i32;
            let m = r.pick(&[2047i32, 2048, 2046, 1024, 1023, 1, -1, -2048, -2047, -2049, -1024, -1025]);
            let d = r.pick(&[0f32, 0.5, -0.5, 0.49, -0.49, 0.51, -0.51, 0.25]);
            (m as f32 + d) * 2f32.powi(e) * 0.01
        }
        4 => (r.below(4096) as f32 - 2048.0) / 100.0,
        _ => r.pick(&[0.0f32, -0.0, 670760.96, -671088.64, 670761.0, -671089.0, 1e30, -1e30, f32::MAX, f32::MIN, 20.47, 20.475, 20.48, -20.48, -20.49, 21.5, f32::INFINITY, f32::NEG_INFINITY, f32::MIN_POSITIVE]),
    };
    float_case(v).and_then(|_| {
        let t = PdtKnxFloat::temp(v);
        let g = PdtKnxFloat::general(v);
        ensure!(t.get_bytes() == g.get_bytes() || v.is_nan(), "temp and general encode {v} differently");
        ensure!(g.get_value().to_bits() == v.to_bits() || v.is_nan(), "get_value of {v} is {}", g.get_value());
        Ok(())
    })
}
fn float_encode_stride() -> Res {
    // thorough: every f32; quick: every 251st (odd stride, covers every exponent and sign)
    let step = crate::stride();
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4) as u64;
    let hs: Vec<_> = (0..n)
        .map(|k| {
            std::thread::spawn(move || -> Res {
                let mut i = k * step;
                while i <= u32::MAX as u64 {
                    float_case(f32::from_bits(i as u32))?;
                    i += n * step;
                }
                Ok(())
            })
        })
        .collect();
    let mut res = Ok(());
    for h in hs {
        let x = h.join().unwrap_or_else(|_| Err("panicked while encoding a float".into()));
        if x.is_err() {
            res = x;
        }
    }
    res
}
fn percent_all() -> Res {
    for v in 0..=255u8 {
        let x = PdtKnxScaledValue::from_bytes(&[v]).map_err(|e| e.to_string())?;
        let p = PdtKnxScaledValue::get_value(&x) as f64;
        let want = v as f64 * 100.0 / 255.0;
        ensure!((p - want).abs() < 1e-3, "octet {v} reads as {p} %, expected {want} %");
        let y = PdtKnxScaledValue::scaling(p as f32);
        eq(&format!("percentage {p} of octet {v}"), y.get_bytes(), vec![v])?;
    }
    for v in i16::MIN..=i16::MAX {
        let x = PdtKnxInt::percent_v16(v);
        let w = (v as i32 * 100).clamp(i16::MIN as i32, i16::MAX as i32) as i16;
        eq(&format!("percent_v16({v})"), (x.get_value(), x.get_bytes(), x.code.as_str()), (w, R::be16(w as u16).to_vec(), "8.010"))?;
    }
    eq("code", PdtKnxScaledValue::scaling(1.0).code, "5.001".to_string())?;
    for i in 0..=100000u32 {
        percent_case(i as f32 / 1000.0)?;
    }
    Ok(())
}
fn percent_case(p: f32) -> Res {
    if p.is_nan() {
        return Ok(());
    }
    let b = PdtKnxScaledValue::scaling(p).get_bytes();
    ensure!(b.len() == 1, "scaling({p}) has {} octets", b.len());
    let want = (p as f64 * 2.55).clamp(0.0, 255.0);
    ensure!((b[0] as f64 - want).abs() <= 0.5 + 1e-4, "scaling({p}) = {} , expected {want}", b[0]);
    Ok(())
}
fn percent(r: &mut Rng) -> Res {
    let f = crate::rng::fdict();
    let p = match r.below(4) {
        k if k < 2 && !f.is_empty() => r.pick(f),
        0 => f32::from_bits(r.u32()),
        1 => (r.below(256) as f32 + r.pick(&[0.5f32, 0.499, 0.501, 0.0])) / 2.55,
        2 => r.pick(&[0.0f32, 100.0, -1.0, 101.0, 255.0, 256.0, 1e9, -1e9, 50.0, 99.9]),
        _ => r.below(1000000) as f32 / 10000.0,
    };
    percent_case(p)
}
