//! Reference layouts, written from the property statements (KNXnet/IP frames), independent of the crate's code.
pub fn be16(v: u16) -> [u8; 2] {
    [(v / 256) as u8, (v % 256) as u8]
}
pub fn at2(d: &[u8], p: usize) -> u16 {
    d[p] as u16 * 256 + d[p + 1] as u16
}
pub fn frame(code: u16, body: &[u8]) -> Vec<u8> {
    let mut v = vec![6, 0x10];
    v.extend(be16(code));
    v.extend(be16((6 + body.len()) as u16));
    v.extend(body);
    v
}
pub fn hpai(code: u8, ip: [u8; 4], port: u16) -> Vec<u8> {
    let mut v = vec![8, code];
    v.extend(ip);
    v.extend(be16(port));
    v
}
pub fn conn_req(t: u8) -> Vec<u8> {
    let mut b = hpai(1, [0; 4], 0);
    b.extend(hpai(1, [0; 4], 0));
    b.extend([4, 4, t, 0]);
    frame(0x0205, &b)
}
pub fn conn_resp(ch: u8, status: u8, h: &[u8], ia: u16) -> Vec<u8> {
    let mut b = vec![ch, status];
    b.extend(h);
    b.extend([4, 4]);
    b.extend(be16(ia));
    frame(0x0206, &b)
}
pub fn chan_hpai(code: u16, ch: u8, h: &[u8]) -> Vec<u8> {
    let mut b = vec![ch, 0];
    b.extend(h);
    frame(code, &b)
}
pub fn chan_status(code: u16, ch: u8, st: u8) -> Vec<u8> {
    frame(code, &[ch, st])
}
pub fn treq(ch: u8, nr: u8, cemi: &[u8]) -> Vec<u8> {
    let mut b = vec![4, ch, nr, 0];
    b.extend(cemi);
    frame(0x0420, &b)
}
pub fn tack(ch: u8, nr: u8, st: u8) -> Vec<u8> {
    frame(0x0421, &[4, ch, nr, st])
}
pub fn fset(ch: u8, nr: u8, f: u8, v: u8) -> Vec<u8> {
    frame(0x0424, &[4, ch, nr, 0, f, 0, v])
}
pub fn fresp(ch: u8, nr: u8, f: u8, st: u8, v: u8) -> Vec<u8> {
    frame(0x0423, &[4, ch, nr, 0, f, st, v])
}
pub fn group_apdu(value: &[u8], small: bool) -> Vec<u8> {
    if small {
        vec![0, 0x80 | (value.first().copied().unwrap_or(0) & 0x3f)]
    } else {
        let mut v = vec![0, 0x80];
        v.extend(value);
        v
    }
}
pub fn ldata_req(prio: u8, dest: u16, apdu: &[u8]) -> Vec<u8> {
    let mut v = vec![0x11, 0, 0xb0 | ((prio & 3) << 2), 0xe0, 0, 0];
    v.extend(be16(dest));
    v.push((apdu.len() - 1) as u8);
    v.extend(apdu);
    v
}
pub fn ldata_ind(code: u8, c1: u8, src: u16, dest: u16, tpci_apci: u16, value: &[u8]) -> Vec<u8> {
    let mut v = vec![code, 0, c1, 0xe0];
    v.extend(be16(src));
    v.extend(be16(dest));
    v.push(1 + value.len() as u8);
    v.extend(be16(tpci_apci));
    v.extend(value);
    v
}
/// header at the start of d with the given service code
pub fn hdr(d: &[u8], code: u16) -> bool {
    d.len() >= 6 && d[0] == 6 && d[1] == 0x10 && at2(d, 2) == code
}
pub fn hpai_ok(d: &[u8], p: usize) -> bool {
    p + 8 <= d.len() && d[p] == 8
}
pub fn conn_resp_ok(d: &[u8]) -> bool {
    hdr(d, 0x0206) && at2(d, 4) >= 8 && d.len() >= 8 && ![0x22, 0x23, 0x24, 0x29].contains(&d[7]) && hpai_ok(d, 8) && d.len() >= 20 && d[16] == 4 && d[17] == 4
}
pub fn chan_hpai_ok(code: u16, d: &[u8]) -> bool {
    hdr(d, code) && d.len() >= 8 && hpai_ok(d, 8)
}
pub fn chan_status_ok(code: u16, d: &[u8]) -> bool {
    hdr(d, code) && at2(d, 4) == 8 && d.len() >= 8
}
pub fn treq_ok(d: &[u8]) -> bool {
    hdr(d, 0x0420) && at2(d, 4) >= 10 && at2(d, 4) as usize <= d.len() && d[6] == 4
}
pub fn tack_ok(d: &[u8]) -> bool {
    hdr(d, 0x0421) && at2(d, 4) == 10 && d.len() >= 10 && d[6] == 4
}
pub fn feature_ok(v: u8) -> bool {
    [2, 6, 7, 8].contains(&v)
}
pub fn fresp_ok(d: &[u8]) -> bool {
    hdr(d, 0x0423) && at2(d, 4) == 13 && d.len() >= 13 && d[6] == 4 && feature_ok(d[10])
}
pub struct RCemi {
    pub code: u8,
    pub infos: Vec<(u8, Vec<u8>)>,
    pub body: Vec<u8>,
}
pub fn cemi(d: &[u8]) -> Option<RCemi> {
    if d.len() < 2 {
        return None;
    }
    let mut left = d[1] as i32;
    let mut p = 2;
    let mut infos = vec![];
    while left > 0 {
        if p + 2 > d.len() {
            return None;
        }
        let (t, l) = (d[p], d[p + 1] as usize);
        if !((1..=10).contains(&t) || t == 0xfe) || p + 2 + l > d.len() {
            return None;
        }
        infos.push((t, d[p + 2..p + 2 + l].to_vec()));
        p += 2 + l;
        left -= 2 + l as i32;
    }
    Some(RCemi { code: d[0], infos, body: d[p..].to_vec() })
}
#[derive(Debug, PartialEq, Clone)]
pub struct RInd {
    pub src: u16,
    pub dest: u16,
    pub flags: [bool; 4],
    pub apci: u16,
    pub value: Vec<u8>,
}
pub fn flags(c1: u8) -> [bool; 4] {
    [c1 & 0x80 != 0, c1 & 0x20 != 0, c1 & 0x10 != 0, c1 & 2 != 0]
}
pub fn lind(s: &[u8]) -> Option<RInd> {
    if s.len() < 9 {
        return None;
    }
    let extra = (s[6] as usize).saturating_sub(1);
    if s.len() < 9 + extra {
        return None;
    }
    let value = if extra > 0 { s[9..9 + extra].to_vec() } else { vec![s[8] & 0x3f] };
    Some(RInd { src: at2(s, 2), dest: at2(s, 4), flags: flags(s[0]), apci: (at2(s, 7) / 64) % 16, value })
}
pub fn lcon(s: &[u8]) -> Option<(u16, u16, [bool; 4], bool)> {
    if s.len() < 6 {
        return None;
    }
    Some((at2(s, 2), at2(s, 4), flags(s[0]), s[0] & 1 == 0))
}
#[derive(Debug, PartialEq, Clone)]
pub enum RResp {
    Req(u8, u8, Vec<u8>),
    Ack(u8, u8, u8),
    Feat(u8, u8, u8, u8, u8),
    DiscResp(u8, u8),
    State(u8, u8),
    DiscReq(u8, Vec<u8>),
}
pub fn dispatch(d: &[u8]) -> Option<RResp> {
    if treq_ok(d) {
        Some(RResp::Req(d[7], d[8], d[10..at2(d, 4) as usize].to_vec()))
    } else if tack_ok(d) {
        Some(RResp::Ack(d[7], d[8], d[9]))
    } else if fresp_ok(d) {
        Some(RResp::Feat(d[7], d[8], d[10], d[11], d[12]))
    } else if chan_status_ok(0x020a, d) {
        Some(RResp::DiscResp(d[6], d[7]))
    } else if chan_status_ok(0x0208, d) {
        Some(RResp::State(d[6], d[7]))
    } else if chan_hpai_ok(0x0209, d) {
        Some(RResp::DiscReq(d[6], d[8..16].to_vec()))
    } else {
        None
    }
}
/// (consumed, ok) of a description information block at p
pub fn dib_len(d: &[u8]) -> Option<usize> {
    if d.len() < 2 {
        return None;
    }
    let len = d[0] as usize;
    let body = match d[1] {
        1 => {
            if d.len() < 3 || ![2, 3, 0x10, 0x20].contains(&d[2]) {
                return None;
            }
            52
        }
        2 => {
            if len < 2 {
                return None;
            }
            (len - 2) / 2 * 2
        }
        3 => 14,
        4 => 18,
        5 => {
            if len < 4 {
                return None;
            }
            2 + (len - 4) / 2 * 2
        }
        0xfe => {
            if len < 4 {
                return None;
            }
            len - 2
        }
        _ => return None,
    };
    if 2 + body > d.len() {
        None
    } else {
        Some(2 + body)
    }
}
pub fn search_resp_ok(d: &[u8]) -> bool {
    hdr(d, 0x0202) && hpai_ok(d, 6) && d.len() >= 16 && d[15] == 1 && dib_len(&d[14..]).is_some() && d.len() >= 70 && d[69] == 2 && dib_len(&d[68..]).is_some()
}
/// text field: optional +, decimal digits, value at most max
pub fn field(s: &str, max: u32) -> Option<u32> {
    let t = s.strip_prefix('+').unwrap_or(s);
    if t.is_empty() || !t.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut v: u64 = 0;
    for b in t.bytes() {
        v = v * 10 + (b - b'0') as u64;
        if v > max as u64 {
            return None;
        }
    }
    Some(v as u32)
}
#[derive(Debug, PartialEq, Clone, Copy)]
pub enum RAddr {
    Ind(u16),
    G3(u16),
    G2(u16),
    G1(u16),
}
pub fn ind_text(s: &str) -> Option<u16> {
    let f: Vec<&str> = s.split('.').collect();
    if f.len() != 3 {
        return None;
    }
    Some((field(f[0], 15)? * 4096 + field(f[1], 15)? * 256 + field(f[2], 255)?) as u16)
}
pub fn g3_text(s: &str) -> Option<u16> {
    let f: Vec<&str> = s.split('/').collect();
    if f.len() != 3 {
        return None;
    }
    Some((field(f[0], 31)? * 2048 + field(f[1], 7)? * 256 + field(f[2], 255)?) as u16)
}
pub fn addr_text(s: &str) -> Option<RAddr> {
    if s.contains('.') {
        return ind_text(s).map(RAddr::Ind);
    }
    let f: Vec<&str> = s.split('/').collect();
    match f.len() {
        1 => Some(RAddr::G1(field(f[0], 65535)? as u16)),
        2 => Some(RAddr::G2((field(f[0], 31)? * 2048 + field(f[1], 2047)?) as u16)),
        3 => g3_text(s).map(RAddr::G3),
        _ => None,
    }
}
