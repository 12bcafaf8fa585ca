//! Scenarios on the compiled UdpClient / UdpMonitor against a gateway played by this file.
//! Virtual time: the clock is paused and only advanced here (a parked blocking task keeps tokio from
//! advancing it by itself); "settled" means that a number of scheduler and I/O passes went by.
use crate::pure::{ind_view, raddr, rsearch, search_view};
use crate::refc as R;
use crate::{ensure, Fam, Kind, Res, Rng};
use knx_ip_client::packets::addresses::KnxAddress;
use knx_ip_client::packets::core::SearchResponse;
use knx_ip_client::transport::udp::UdpClient;
use knx_ip_client::transport::udp_monitor::UdpMonitor;
use std::collections::VecDeque;
use std::future::{poll_fn, Future};
use std::net::{SocketAddr, UdpSocket};
use std::pin::Pin;
use std::task::Poll;
use std::time::Duration;
use tokio::sync::mpsc;
use tokio::task::yield_now;

type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;
const PASSES: usize = 16;

fn in_rt<F: Future<Output = Res>>(f: F) -> Res {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().map_err(|e| e.to_string())?;
    let r = rt.block_on(async {
        let (tx, rx) = std::sync::mpsc::channel::<()>();
        tokio::task::spawn_blocking(move || {
            let _ = rx.recv();
        });
        let r = f.await;
        drop(tx);
        r
    });
    rt.shutdown_timeout(Duration::from_millis(100));
    r
}
async fn settle() {
    let slow = crate::slow();
    for _ in 0..PASSES {
        if slow {
            std::thread::sleep(Duration::from_millis(1));
        }
        yield_now().await;
    }
}
/// polls the operation until it is done or everything is idle
async fn drive<T>(f: &mut Fut<'_, T>) -> Option<T> {
    let slow = crate::slow();
    for _ in 0..PASSES {
        if let Poll::Ready(v) = poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await {
            settle().await;
            return Some(v);
        }
        if slow {
            std::thread::sleep(Duration::from_millis(1));
        }
        yield_now().await;
    }
    None
}
async fn wait(secs: f64) {
    tokio::time::advance(Duration::from_secs_f64(secs)).await;
    settle().await;
}
/// lets time pass in steps of half a second
async fn pass(secs: f64) {
    for _ in 0..(secs * 2.0) as usize {
        wait(0.5).await;
    }
}
/// the operation goes on for `secs` seconds and gives up then (half a second of tolerance either way)
async fn gives_up<T: std::fmt::Debug>(what: &str, f: &mut Fut<'_, Result<T, String>>, secs: f64) -> Res {
    let mut t = 0.0;
    loop {
        match drive(f).await {
            Some(Err(_)) if t > secs - 1.0 => return Ok(()),
            Some(x) => return Err(format!("{what}: {x:02x?} after {t} s")),
            None => ensure!(t < secs + 0.5, "{what}: still waiting after {t} s"),
        }
        t += 0.5;
        tokio::time::advance(Duration::from_millis(500)).await;
    }
}
/// the gateway: what it told the client and what it heard
struct Gw {
    s: UdpSocket,
    addr: SocketAddr,
    peer: Option<SocketAddr>,
    ch: u8,
    ep: Vec<u8>,
    beats: usize,
    bad_beat: Option<Vec<u8>>,
    seq: u8,
}
impl Gw {
    fn new() -> Result<Gw, String> {
        let s = UdpSocket::bind("127.0.0.1:0").map_err(|e| e.to_string())?;
        s.set_nonblocking(true).map_err(|e| e.to_string())?;
        let addr = s.local_addr().map_err(|e| e.to_string())?;
        Ok(Gw { s, addr, peer: None, ch: 0, ep: vec![], beats: 0, bad_beat: None, seq: 0 })
    }
    fn send(&self, d: &[u8]) {
        if let Some(p) = self.peer {
            let _ = self.s.send_to(d, p);
        }
    }
    fn raw(&mut self) -> Vec<Vec<u8>> {
        let mut out = vec![];
        let mut b = [0u8; 70000];
        while let Ok((n, p)) = self.s.recv_from(&mut b) {
            self.peer = Some(p);
            out.push(b[..n].to_vec());
        }
        out
    }
    /// everything heard since the last call, connection state requests apart
    fn heard(&mut self) -> Vec<Vec<u8>> {
        let mut out = vec![];
        for d in self.raw() {
            if d.len() >= 4 && d[2..4] == [2, 7] {
                self.beats += 1;
                if d != R::chan_hpai(0x0207, self.ch, &self.ep) {
                    self.bad_beat = Some(d);
                }
            } else {
                out.push(d);
            }
        }
        out
    }
    fn beats_ok(&self) -> Res {
        match &self.bad_beat {
            Some(d) => Err(format!("connection state request {d:02x?}, expected {:02x?}", R::chan_hpai(0x0207, self.ch, &self.ep))),
            None => Ok(()),
        }
    }
    fn expect(&mut self, what: &str, want: &[Vec<u8>]) -> Res {
        let got = self.heard();
        ensure!(got == want, "{what}: sent {got:02x?}, expected {want:02x?}");
        self.beats_ok()
    }
    /// a new channel and endpoint for the next connection
    fn assign(&mut self, r: &mut Rng) {
        self.ch = r.u8();
        let ip = if r.flip() { [0; 4] } else { [r.u8(), r.u8(), r.u8(), r.u8()] };
        self.ep = R::hpai(1, ip, r.u16());
        self.seq = if r.flip() { 0 } else { r.u8() };
    }
    fn accept(&self, r: &mut Rng) {
        self.send(&R::conn_resp(self.ch, 0, &self.ep, r.u16()));
    }
    /// expects a connect request and accepts it
    async fn establish(&mut self, r: &mut Rng, monitor: bool) -> Res {
        settle().await;
        self.expect("connecting", &[R::conn_req(2)])?;
        self.assign(r);
        self.accept(r);
        settle().await;
        let want = if monitor { vec![R::fset(self.ch, 0, 8, 1)] } else { vec![] };
        self.expect("after the connection was accepted", &want)
    }
    fn next_treq(&mut self, cemi: &[u8]) -> (Vec<u8>, Vec<u8>) {
        let n = self.seq;
        self.seq = n.wrapping_add(1);
        (R::treq(self.ch, n, cemi), R::tack(self.ch, n, 0))
    }
}
async fn client(r: &mut Rng) -> Result<(Gw, UdpClient), String> {
    let mut g = Gw::new()?;
    let c = UdpClient::connect(g.addr).await.map_err(|e| format!("connect to a local socket failed: {e}"))?;
    g.establish(r, false).await?;
    Ok((g, c))
}
async fn monitor(r: &mut Rng) -> Result<(Gw, UdpMonitor), String> {
    let mut g = Gw::new()?;
    let m = UdpMonitor::connect(&g.addr.to_string()).await.map_err(|e| format!("connect to a local socket failed: {e}"))?;
    g.establish(r, true).await?;
    Ok((g, m))
}

fn con(dest: u16, positive: bool, r: &mut Rng) -> Vec<u8> {
    let mut c = R::ldata_ind(0x2e, 0xbc, r.u16(), dest, 0x80, &[]);
    if !positive {
        c[2] |= 1;
    }
    c
}
fn ind(dest: u16, r: &mut Rng) -> Vec<u8> {
    let n = if r.flip() { 0 } else { r.below(15) };
    let v = r.bytes(n);
    let apci = [0u16, 0x40, 0x80, 0x80, 0x40, 0x3c0][r.below(6)];
    let low = if n == 0 && apci != 0 { r.u8() as u16 & 0x3f } else { 0 };
    let mut c = R::ldata_ind(0x29, r.u8(), r.u16(), dest, apci | low, &v);
    if r.one_in(5) {
        // additional information
        let k = r.below(5);
        let mut info = vec![r.pick(&[3u8, 4, 6, 7, 0xfe]), k as u8];
        info.extend(r.bytes(k));
        c[1] = info.len() as u8;
        c.splice(2..2, info);
    }
    c
}
#[derive(Clone, Debug)]
enum Op {
    Read(KnxAddressW),
    Write(KnxAddressW, Vec<u8>, bool),
}
#[derive(Clone)]
struct KnxAddressW(u16, [u8; 3], u8);
impl std::fmt::Debug for KnxAddressW {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:04x}", self.0)
    }
}
fn group(r: &mut Rng) -> (KnxAddressW, u16) {
    let (_, v) = raddr(r);
    let k = r.below(3) as u8;
    (KnxAddressW(v, [0; 3], k), v)
}
fn mk(a: &KnxAddressW) -> KnxAddress {
    let v = a.0;
    match a.2 {
        0 => KnxAddress::group_3_level((v / 2048) as u8, ((v / 256) % 8) as u8, (v % 256) as u8),
        1 => KnxAddress::group_2_level((v / 2048) as u8, v % 2048),
        _ => KnxAddress::group_1_level(v),
    }
}
fn rop(r: &mut Rng) -> Op {
    let (a, _) = group(r);
    if r.one_in(3) {
        return Op::Read(a);
    }
    let small = r.flip();
    let n = match r.below(10) {
        0 => 0,
        1 => 250 + r.below(6),
        2 => 254 + r.below(300),
        _ => 1 + r.below(14),
    };
    Op::Write(a, r.bytes(n), small)
}
impl Op {
    fn dest(&self) -> u16 {
        match self {
            Op::Read(a) | Op::Write(a, _, _) => a.0,
        }
    }
    /// the telegram, None when the value does not fit
    fn telegram(&self) -> Option<Vec<u8>> {
        match self {
            Op::Read(a) => Some(R::ldata_req(3, a.0, &[0, 0])),
            Op::Write(a, v, s) => {
                if !*s && v.len() > 253 {
                    None
                } else {
                    Some(R::ldata_req(3, a.0, &R::group_apdu(v, *s)))
                }
            }
        }
    }
    fn start<'a>(&self, c: &'a UdpClient) -> Fut<'a, Result<Vec<u8>, String>> {
        match self.clone() {
            Op::Read(a) => Box::pin(async move { c.read_group_address_value(mk(&a)).await.map_err(|e| e.to_string()) }),
            Op::Write(a, v, s) => Box::pin(async move { c.write_group_address_value(mk(&a), v, s).await.map(|_| vec![]).map_err(|e| e.to_string()) }),
        }
    }
    fn start_m<'a>(&self, m: &'a UdpMonitor) -> Fut<'a, Result<(), String>> {
        match self.clone() {
            Op::Read(a) => Box::pin(async move { m.solecitate_group_read(mk(&a)).await.map_err(|e| e.to_string()) }),
            Op::Write(a, v, s) => Box::pin(async move { m.write_group_address_value(mk(&a), v, s).await.map_err(|e| e.to_string()) }),
        }
    }
}

// ------------------------------------------------------------------ C15
fn net_seq(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, c) = client(r).await?;
        let conns = 1 + r.below(2);
        let mut long = r.one_in(16);
        for k in 0..conns {
            let mut nr = 0u8;
            let n = if long { 320 } else { 1 + r.below(6) };
            long = false;
            for _ in 0..n {
                let op = rop(r);
                let mut f = op.start(&c);
                let first = drive(&mut f).await;
                let t = match op.telegram() {
                    None => {
                        ensure!(matches!(first, Some(Err(_))), "{op:02x?}: a value that does not fit gave {first:?}");
                        g.expect("value that does not fit", &[])?;
                        continue;
                    }
                    Some(t) => t,
                };
                ensure!(first.is_none(), "{op:02x?}: done before any answer: {first:?}");
                g.expect(&format!("{op:02x?}"), &[R::treq(g.ch, nr, &t)])?;
                nr = nr.wrapping_add(1);
                if r.one_in(if n > 100 { 100 } else { 6 }) {
                    // no answer: an error in the end
                    gives_up(&format!("{op:02x?} without any answer"), &mut f, 10.0).await?;
                    g.expect("after a timeout", &[])?;
                } else {
                    if r.flip() {
                        g.send(&R::tack(g.ch, nr.wrapping_sub(1), 0));
                    }
                    let a = match &op {
                        Op::Read(_) => R::ldata_ind(0x29, 0xbc, r.u16(), op.dest(), 0x40, &[r.u8(), r.u8()]),
                        Op::Write(..) => con(op.dest(), true, r),
                    };
                    let (q, ack) = g.next_treq(&a);
                    g.send(&q);
                    let x = drive(&mut f).await;
                    ensure!(matches!(x, Some(Ok(_))), "{op:02x?} answered: {x:?}");
                    g.expect("acknowledgement", &[ack])?;
                }
            }
            if k + 1 < conns {
                // the connection breaks; until it is restored nothing is sent
                g.send(&[6, 0x10, 0x55, 0x55, 0, 6]);
                settle().await;
                g.expect("connection lost", &[R::conn_req(2)])?;
                let op = rop(r);
                let x = drive(&mut op.start(&c)).await;
                ensure!(matches!(x, Some(Err(_))), "{op:02x?} without a connection: {x:?}");
                g.expect("without a connection", &[])?;
                g.assign(r);
                g.accept(r);
                settle().await;
                g.expect("reconnected", &[])?;
            }
        }
        // the connection is closed by either side
        if r.flip() {
            let mut f: Fut<Result<(), String>> = Box::pin(async { c.disconnect().await.map_err(|e| e.to_string()) });
            let x = drive(&mut f).await;
            ensure!(x.is_none(), "disconnect without an answer: {x:?}");
            g.expect("disconnect", &[R::chan_hpai(0x0209, g.ch, &g.ep)])?;
            g.send(&R::chan_status(0x020a, g.ch, 0));
            let x = drive(&mut f).await;
            ensure!(matches!(x, Some(Ok(_))), "disconnect answered: {x:?}");
        } else {
            g.send(&R::chan_hpai(0x0209, g.ch, &g.ep));
            settle().await;
            g.expect("disconnect request", &[R::chan_status(0x020a, g.ch, 0)])?;
        }
        let op = rop(r);
        let x = drive(&mut op.start(&c)).await;
        ensure!(matches!(x, Some(Err(_))), "{op:02x?} after disconnection: {x:?}");
        g.expect("after disconnection", &[])
    })
}
fn net_seq_monitor(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, m) = monitor(r).await?;
        for k in 0..2 {
            let mut nr = 1u8;
            let n = if r.one_in(10) { 520 } else { 1 + r.below(10) };
            for _ in 0..n {
                let op = rop(r);
                let x = drive(&mut op.start_m(&m)).await;
                match op.telegram() {
                    None => {
                        ensure!(matches!(x, Some(Err(_))), "{op:02x?}: a value that does not fit gave {x:?}");
                        g.expect("value that does not fit", &[])?;
                    }
                    Some(t) => {
                        ensure!(matches!(x, Some(Ok(_))), "{op:02x?}: {x:?}");
                        g.expect(&format!("{op:02x?}"), &[R::treq(g.ch, nr, &t)])?;
                        nr = nr.wrapping_add(1);
                    }
                }
            }
            if k == 0 {
                g.send(&R::chan_status(0x0208, g.ch, 0x26));
                settle().await;
                g.expect("connection state error", &[R::conn_req(2)])?;
                let op = rop(r);
                let x = drive(&mut op.start_m(&m)).await;
                ensure!(matches!(x, Some(Err(_))), "{op:02x?} without a connection: {x:?}");
                ensure!(drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await == Some(false), "is_connected without a connection");
                g.expect("without a connection", &[])?;
                g.assign(r);
                g.accept(r);
                settle().await;
                g.expect("reconnected", &[R::fset(g.ch, 0, 8, 1)])?;
            }
        }
        Ok(())
    })
}

/// a client or a monitor
enum Any {
    C(UdpClient),
    M(UdpMonitor),
}
impl Any {
    fn start<'a>(&'a self, op: &Op) -> Fut<'a, Result<Vec<u8>, String>> {
        match self {
            Any::C(c) => op.start(c),
            Any::M(m) => {
                let f = op.start_m(m);
                Box::pin(async move { f.await.map(|_| vec![]) })
            }
        }
    }
    fn first(&self) -> u8 {
        matches!(self, Any::M(_)) as u8
    }
}
/// Schedules: tokio makes a task yield at an await once it used up its budget, so an operation started with
/// k units left is interrupted at its k-th lock; what is in the socket then is handled before it goes on.
async fn spend(k: usize) {
    for _ in 0..k {
        tokio::task::consume_budget().await;
    }
}
fn op_that_fits(r: &mut Rng) -> Op {
    loop {
        let op = rop(r);
        if op.telegram().is_some() {
            return op;
        }
    }
}
/// the connection is replaced at any point of a request
fn net_race(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, a) = if r.flip() {
            let (g, c) = client(r).await?;
            (g, Any::C(c))
        } else {
            let (g, m) = monitor(r).await?;
            (g, Any::M(m))
        };
        let start = a.first();
        let mut nr = start;
        for _ in 0..r.below(4) {
            let op = op_that_fits(r);
            let mut f = a.start(&op);
            drive(&mut f).await;
            g.expect("request", &[R::treq(g.ch, nr, &op.telegram().unwrap())])?;
            nr = nr.wrapping_add(1);
            if let Any::C(_) = a {
                g.send(&R::treq(g.ch, g.seq, &if let Op::Read(_) = op { R::ldata_ind(0x29, 0xbc, 1, op.dest(), 0x40, &[1]) } else { con(op.dest(), true, r) }));
                g.seq = g.seq.wrapping_add(1);
                let x = drive(&mut f).await;
                ensure!(matches!(x, Some(Ok(_))), "{op:02x?}: {x:?}");
                g.heard();
            }
        }
        settle().await;
        g.heard();
        g.beats_ok()?;
        let (old, old_ep) = (g.ch, g.ep.clone());
        g.send(&R::chan_status(0x0208, old, 0x21));
        g.assign(r);
        while g.ch == old || g.ep == old_ep {
            g.assign(r);
        }
        g.accept(r);
        let k = if r.one_in(5) { r.below(140) } else { 120 + r.below(9) };
        // one of the requests that name the connection
        let what = r.below(4);
        let op = op_that_fits(r);
        let mut f: Fut<bool> = Box::pin(async {
            spend(k).await;
            match (&a, what) {
                (Any::C(c), 0) => c.get_connection_status().await.is_ok(),
                (Any::C(c), 1) => c.disconnect().await.is_ok(),
                (Any::M(m), 0 | 1) => m.disconnect().await.is_ok(),
                _ => a.start(&op).await.is_ok(),
            }
        });
        for _ in 0..r.below(4) {
            yield_now().await;
        }
        let x = match poll_fn(|cx| Poll::Ready(f.as_mut().poll(cx))).await {
            Poll::Ready(x) => Some(x),
            Poll::Pending => {
                for _ in 0..r.below(6) {
                    yield_now().await;
                }
                drive(&mut f).await
            }
        };
        let t = op.telegram().unwrap();
        let mut new = start;
        for d in g.raw() {
            let code = d.get(2..4).unwrap_or(&[]);
            if d == R::treq(g.ch, start, &t) {
                new = new.wrapping_add(1);
            } else if !(d == R::treq(old, nr, &t) || d == R::conn_req(2) || d == R::fset(g.ch, 0, 8, 1))
                && !((code == [2, 7] || code == [2, 9]) && [R::chan_hpai(0x0200 + code[1] as u16, old, &old_ep), R::chan_hpai(0x0200 + code[1] as u16, g.ch, &g.ep)].contains(&d))
            {
                return Err(format!("connection {old:02x} (next number {nr}) was replaced by {:02x} (endpoint {old_ep:02x?} by {:02x?}): sent {d:02x?}", g.ch, g.ep));
            }
        }
        ensure!(x != Some(false) || new == start, "{op:02x?} failed after sending a telegram");
        drop(f);
        settle().await;
        g.heard();
        let op = op_that_fits(r);
        let mut f = a.start(&op);
        let x = drive(&mut f).await;
        ensure!(!matches!(x, Some(Err(_))), "{op:02x?} on the new connection: {x:?}");
        g.expect("the next request", &[R::treq(g.ch, new, &op.telegram().unwrap())])
    })
}
/// several requests at once: each is sent once, with consecutive numbers, and gets its own answer
fn net_conc(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, a) = if r.flip() {
            let (g, c) = client(r).await?;
            (g, Any::C(c))
        } else {
            let (g, m) = monitor(r).await?;
            (g, Any::M(m))
        };
        let mut nr = a.first();
        let n = 2 + r.below(5);
        let mut ops: Vec<Op> = vec![];
        for i in 0..n {
            let mut op = op_that_fits(r);
            match &mut op {
                Op::Read(x) | Op::Write(x, _, _) => *x = KnxAddressW(x.0 & 0xfff0 | i as u16, [0; 3], x.2),
            }
            ops.push(op);
        }
        let mut fs: Vec<Option<Fut<Result<Vec<u8>, String>>>> = ops
            .iter()
            .map(|op| {
                let f = a.start(op);
                let k = if r.one_in(3) { 100 + r.below(30) } else { r.below(4) };
                Some(Box::pin(async move {
                    spend(k).await;
                    f.await
                }) as Fut<_>)
            })
            .collect();
        let mut todo: Vec<usize> = (0..n).collect();
        let mut idle = 0;
        let mut owed: Vec<(Option<Vec<u8>>, Vec<u8>)> = vec![];
        let slow = 1 + r.below(8);
        let slow = if slow == 1 { 20 } else { slow };
        // somebody may be waiting for the next message
        let mut waiting: Option<Fut<Result<R::RInd, String>>> = match &a {
            Any::M(m) if r.flip() => Some(Box::pin(async { m.next_msg().await.map(|i| ind_view(&i)).map_err(|e| e.to_string()) })),
            _ => None,
        };
        if let Some(w) = &mut waiting {
            let x = drive(w).await;
            ensure!(x.is_none(), "next message without any: {x:?}");
        }
        while fs.iter().any(|f| f.is_some()) {
            // in any order, several of them in one turn
            let order = (0..1 + r.below(2 * n)).map(|_| r.below(n)).collect::<Vec<_>>();
            let done = poll_fn(|cx| {
                let mut done = vec![];
                for &i in &order {
                    if let Some(f) = &mut fs[i] {
                        if let Poll::Ready(x) = f.as_mut().poll(cx) {
                            fs[i] = None;
                            done.push((i, x));
                        }
                    }
                }
                Poll::Ready(done)
            })
            .await;
            for (i, x) in done {
                let want = match (&a, &ops[i]) {
                    (Any::C(_), Op::Read(_)) => vec![i as u8, 7],
                    _ => vec![],
                };
                ensure!(x.as_ref().ok() == Some(&want), "{:02x?}, one of {ops:02x?} at once: {x:02x?}", ops[i]);
            }
            yield_now().await;
            for d in g.heard() {
                if d.get(2..4) != Some(&[4, 0x20]) {
                    continue;
                }
                let k = todo.iter().position(|&i| d == R::treq(g.ch, nr, &ops[i].telegram().unwrap()));
                let k = k.ok_or_else(|| format!("{ops:02x?} at once, next number {nr}: sent {d:02x?}"))?;
                let i = todo.remove(k);
                nr = nr.wrapping_add(1);
                let t = match &ops[i] {
                    Op::Read(x) => R::ldata_ind(0x29, 0xbc, 1, x.0, 0x40, &[i as u8, 7]),
                    Op::Write(x, ..) => con(x.0, true, r),
                };
                let read = matches!(ops[i], Op::Read(_));
                owed.push((if read && r.flip() { Some(con(ops[i].dest(), true, r)) } else { None }, t));
            }
            // answered some time, in any order
            while !owed.is_empty() && !r.one_in(slow) {
                let (c, t) = owed.swap_remove(r.below(owed.len()));
                for x in c.iter().chain([&t]) {
                    let (q, _) = g.next_treq(x);
                    g.send(&q);
                }
            }
            idle += 1;
            ensure!(idle < 2000, "{ops:02x?} at once: not all of them complete");
        }
        ensure!(todo.is_empty(), "{ops:02x?} at once: {todo:?} not sent");
        drop(waiting);
        Ok(())
    })
}
/// listeners that are slow to look at what they are told: calls go on, and all are told in the end
fn net_listen(r: &mut Rng) -> Res {
    struct L {
        rx: mpsc::Receiver<()>,
        cap: usize,
        told: usize,
        read: usize,
    }
    impl L {
        fn look(&mut self) -> bool {
            let x = self.rx.try_recv().is_ok();
            self.read += x as usize;
            x
        }
    }
    async fn add(r: &mut Rng, m: &UdpMonitor, ls: &mut Vec<L>) -> Res {
        let cap = 1 + r.below(3);
        let (tx, rx) = mpsc::channel(cap);
        let x = drive(&mut (Box::pin(m.add_on_connect(tx)) as Fut<()>)).await;
        ensure!(x.is_some(), "add_on_connect does not return");
        ls.push(L { rx, cap, told: 0, read: 0 });
        Ok(())
    }
    in_rt(async {
        let mut g = Gw::new()?;
        let m = UdpMonitor::connect(&g.addr.to_string()).await.map_err(|e| e.to_string())?;
        let mut ls: Vec<L> = vec![];
        for _ in 0..1 + r.below(3) {
            add(r, &m, &mut ls).await?;
        }
        settle().await;
        let n = 1 + r.below(6);
        for c in 0..n {
            if c > 0 {
                g.send(&R::chan_status(0x0208, g.ch, 0x21));
                settle().await;
            }
            g.expect("connecting", &[R::conn_req(2)])?;
            g.assign(r);
            g.accept(r);
            settle().await;
            g.expect("accepted", &[R::fset(g.ch, 0, 8, 1)])?;
            for l in ls.iter_mut() {
                l.told += 1;
            }
            let late = ls.iter().any(|l| l.told - l.read > l.cap);
            let what = format!("connection {c}, a listener with a full channel: {late}");
            let y = drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await;
            ensure!(y == Some(true), "{what}: is_connected {y:?}");
            let mut nr = 1;
            for _ in 0..r.below(3) {
                let op = op_that_fits(r);
                let x = drive(&mut op.start_m(&m)).await;
                ensure!(matches!(x, Some(Ok(()))), "{what}: {op:02x?} {x:?}");
                g.expect(&format!("{what}: {op:02x?}"), &[R::treq(g.ch, nr, &op.telegram().unwrap())])?;
                nr += 1;
            }
            if r.one_in(3) {
                add(r, &m, &mut ls).await?;
            }
            for l in ls.iter_mut() {
                while r.flip() && l.look() {}
            }
            settle().await;
            for _ in 0..r.below(3) {
                let t = ind(r.u16(), r);
                let (q, ack) = g.next_treq(&t);
                g.send(&q);
                settle().await;
                g.expect(&format!("{what}: acknowledgement"), &[ack])?;
                let got = take(&m).await;
                let want = R::lind(&R::cemi(&t).unwrap().body);
                ensure!(got.as_ref().and_then(|x| x.as_ref().ok()) == want.as_ref(), "{what}: received {got:02x?}, expected {want:02x?}");
            }
            if c + 1 == n || r.one_in(4) {
                for _ in 0..8 {
                    for l in ls.iter_mut() {
                        while l.look() {}
                    }
                    settle().await;
                }
                for (i, l) in ls.iter().enumerate() {
                    ensure!(l.read == l.told, "{what}: listener {i} was told {} times of {} connections", l.read, l.told);
                }
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C16
#[derive(PartialEq, Clone, Copy, Debug)]
enum After {
    GoOn,
    Restart,
    HangUp,
}
/// what the datagram has to lead to: datagrams sent back, telegram handed over, what follows
fn model(d: &[u8]) -> (Vec<Vec<u8>>, Option<R::RCemi>, After) {
    if d.is_empty() {
        return (vec![], None, After::GoOn);
    }
    match R::dispatch(d) {
        None => (vec![], None, After::Restart),
        Some(R::RResp::Req(ch, nr, c)) => (vec![R::tack(ch, nr, 0)], R::cemi(&c), After::GoOn),
        Some(R::RResp::Ack(..)) => (vec![], None, After::GoOn),
        Some(R::RResp::Feat(ch, nr, ..)) => (vec![R::tack(ch, nr, 0)], None, After::GoOn),
        Some(R::RResp::State(_, s)) => (vec![], None, if s == 0 { After::GoOn } else { After::Restart }),
        Some(R::RResp::DiscResp(..)) => (vec![], None, After::HangUp),
        Some(R::RResp::DiscReq(ch, _)) => (vec![R::chan_status(0x020a, ch, 0)], None, After::HangUp),
    }
}
fn rcemi(r: &mut Rng) -> Vec<u8> {
    let d = r.u16();
    match r.below(8) {
        0 => {
            let p = r.flip();
            con(d, p, r)
        }
        1 => {
            let n = r.below(30);
            r.bytes(n)
        }
        2 => {
            let c = ind(d, r);
            r.mutate(c)
        }
        3 => {
            let mut c = ind(d, r);
            c[0] = r.pick(&[0x2bu8, 0x2e, 0x11, 0x10, 0x2d]);
            c
        }
        4 => {
            // an extended frame
            let n = 15 + r.below(230);
            let v = r.bytes(n);
            R::ldata_ind(0x29, 0x3c, r.u16(), d, 0x80, &v)
        }
        _ => ind(d, r),
    }
}
fn rdatagram(r: &mut Rng, g: &mut Gw) -> Vec<u8> {
    let ch = if r.one_in(4) { r.u8() } else { g.ch };
    let mut d = match r.below(14) {
        0 => R::tack(ch, r.u8(), r.u8()),
        1 => R::fresp(ch, r.u8(), r.pick(&[2u8, 6, 7, 8]), r.u8(), r.u8()),
        2 => R::chan_status(0x0208, ch, 0),
        3 => vec![],
        _ => {
            let c = rcemi(r);
            // some time the request before once more
            let n = match r.below(6) {
                0 => r.u8(),
                1 => g.seq.wrapping_sub(1),
                _ => g.seq,
            };
            g.seq = n.wrapping_add(1);
            R::treq(ch, n, &c)
        }
    };
    if r.one_in(6) {
        let n = r.below(20);
        d.extend(r.bytes(n));
    }
    if r.one_in(12) {
        d = r.mutate(d);
    }
    if r.one_in(10) && d.len() > 10 {
        // as long as a datagram may be
        let n = 400 + r.below(113);
        d.resize(n, r.u8());
        if r.flip() {
            d[4..6].copy_from_slice(&(n as u16).to_be_bytes());
        }
    }
    d.truncate(512);
    d
}
fn terminal(r: &mut Rng, g: &Gw) -> Vec<u8> {
    match r.below(5) {
        0 => R::chan_hpai(0x0209, if r.flip() { g.ch } else { r.u8() }, &g.ep),
        1 => R::chan_status(0x020a, g.ch, if r.flip() { 0 } else { r.u8() }),
        2 => R::chan_status(0x0208, g.ch, 1 + r.below(255) as u8),
        3 => {
            let n = 1 + r.below(12);
            r.bytes(n)
        }
        _ => {
            let d = R::treq(g.ch, 0, &ind(1, &mut Rng::new(1)));
            r.mutate(d)
        }
    }
}
/// the next messages of the monitor, None: nothing more to report for now
async fn take(m: &UdpMonitor) -> Option<Result<R::RInd, String>> {
    let mut f: Fut<Result<R::RInd, String>> = Box::pin(async { m.next_msg().await.map(|i| ind_view(&i)).map_err(|e| e.to_string()) });
    drive(&mut f).await
}
fn net_recv(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, m) = monitor(r).await?;
        // number of the last request on this connection
        let mut last = None;
        for _ in 0..1 + r.below(2) {
            let mut sent = vec![];
            let mut acks = vec![];
            let mut want = VecDeque::new();
            let mut after = After::GoOn;
            let n = r.below(12);
            for i in 0..=n {
                let d = if i == n && r.flip() { terminal(r, &g) } else { rdatagram(r, &mut g) };
                let (a, mut c, x) = model(&d);
                if let Some(a) = a.iter().find(|a| a[2..4] == [4, 0x21]) {
                    if last == Some(a[8]) {
                        c = None;
                    }
                    last = Some(a[8]);
                }
                g.send(&d);
                sent.push(d);
                acks.extend(a);
                if let Some(c) = c {
                    if c.code == 0x29 || c.code == 0x2b {
                        want.push_back(R::lind(&c.body));
                    }
                }
                if r.flip() {
                    settle().await;
                }
                after = x;
                if x != After::GoOn {
                    break;
                }
            }
            settle().await;
            if after == After::Restart {
                acks.push(R::conn_req(2));
            }
            g.expect(&format!("gateway sent {sent:02x?}"), &acks)?;
            while let Some(w) = want.pop_front() {
                let got = take(&m).await;
                let ok = match (&got, &w) {
                    (Some(Ok(a)), Some(b)) => a == b,
                    (Some(Err(_)), None) => true,
                    _ => false,
                };
                ensure!(ok, "gateway sent {sent:02x?}: next message {got:02x?}, expected {w:02x?}");
            }
            let got = take(&m).await;
            match after {
                After::HangUp => {
                    ensure!(matches!(got, Some(Err(_))), "hung up after {sent:02x?}: {got:02x?}");
                    let connected = drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await;
                    ensure!(connected == Some(false), "is_connected after hanging up: {connected:?}");
                    wait(130.0).await;
                    let beats = g.beats;
                    g.expect("after hanging up", &[])?;
                    ensure!(beats == g.beats, "connection state requests after hanging up");
                    return Ok(());
                }
                After::Restart => {
                    ensure!(got.is_none(), "after {sent:02x?}: unexpected message {got:02x?}");
                    g.assign(r);
                    g.accept(r);
                    settle().await;
                    last = None;
                    g.expect("reconnected", &[R::fset(g.ch, 0, 8, 1)])?;
                }
                After::GoOn => ensure!(got.is_none(), "after {sent:02x?}: unexpected message {got:02x?}"),
            }
        }
        Ok(())
    })
}
/// more telegrams than the queue holds, time passing while nobody listens
fn net_recv_slow(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, m) = monitor(r).await?;
        let n = 90 + r.below(40);
        let mut want = VecDeque::new();
        for k in 0..n {
            let c = R::ldata_ind(0x29, 0xbc, 0x1101, k as u16, 0x80, &[k as u8]);
            let (q, _) = g.next_treq(&c);
            want.push_back(R::lind(&R::cemi(&c).unwrap().body));
            g.send(&q);
            if r.one_in(4) {
                settle().await;
            }
        }
        for _ in 0..r.below(4) {
            wait(31.0).await;
        }
        for (i, w) in want.into_iter().enumerate() {
            let got = take(&m).await;
            ensure!(got.as_ref().and_then(|x| x.as_ref().ok()) == w.as_ref(), "telegram {i} of {n}, read late: {got:02x?}, expected {w:02x?}");
        }
        let got = take(&m).await;
        ensure!(got.is_none(), "unexpected message {got:02x?}");
        let acks = g.heard();
        ensure!(acks.len() == n, "{n} telegrams, {} acknowledgements", acks.len());
        g.beats_ok()
    })
}

// ------------------------------------------------------------------ C17
fn net_rw(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, c) = client(r).await?;
        let mut nr = 0u8;
        for _ in 0..1 + r.below(4) {
            let op = loop {
                let op = rop(r);
                if op.telegram().is_some() {
                    break op;
                }
            };
            // received earlier, so no answer to what is asked later
            let mut old = vec![];
            if r.flip() {
                for _ in 0..1 + if r.one_in(4) { r.below(60) } else { r.below(4) } {
                    let t = match r.below(4) {
                        0 => con(op.dest(), r.flip(), r),
                        1 => rcemi(r),
                        _ => ind(op.dest(), r),
                    };
                    let (q, ack) = g.next_treq(&t);
                    old.push(t);
                    g.send(&q);
                    settle().await;
                    g.expect("acknowledgement", &[ack])?;
                }
            }
            let mut f = op.start(&c);
            let x = drive(&mut f).await;
            ensure!(x.is_none(), "{op:02x?}, received earlier {old:02x?}: done before any answer: {x:?}");
            g.expect(&format!("{op:02x?}"), &[R::treq(g.ch, nr, &op.telegram().unwrap())])?;
            nr = nr.wrapping_add(1);
            let mut log = vec![];
            let mut left = 9;
            // seconds since the request
            let mut since = 0.0;
            let steps = r.below(8);
            // None: still waiting; Some(None): error; Some(Some(v)): this value
            let mut end: Option<Option<Vec<u8>>> = None;
            for _ in 0..steps {
                let near = if r.flip() { op.dest() } else { op.dest() ^ (1 << r.below(16)) };
                let t = match r.below(6) {
                    0 => {
                        let p = r.flip();
                        con(near, p, r)
                    }
                    1 => R::ldata_ind(0x29, 0xbc, r.u16(), near, 0, &[]),
                    2 => rcemi(r),
                    _ => ind(near, r),
                };
                if let Some(k) = R::cemi(&t) {
                    match (&op, k.code) {
                        (Op::Read(_), 0x29) => match R::lind(&k.body) {
                            None => continue, // malformed: error or ignored, not asked here
                            Some(i) if i.dest == op.dest() && i.apci != 0 => end = Some(Some(i.value)),
                            _ => {}
                        },
                        (Op::Read(_), _) => {}
                        (Op::Write(..), 0x2e) => match R::lcon(&k.body) {
                            Some((_, _, _, true)) => end = Some(Some(vec![])),
                            _ => end = Some(None),
                        },
                        (Op::Write(..), 0x29) => {}
                        (Op::Write(..), _) => continue, // not asked here
                    }
                }
                let (q, ack) = g.next_treq(&t);
                log.push(t);
                g.send(&q);
                if r.one_in(5) {
                    let t = r.below(left + 1);
                    left -= t;
                    since += t as f64;
                    tokio::time::advance(Duration::from_secs(t as u64)).await;
                }
                let x = drive(&mut f).await;
                g.expect("acknowledgement", &[ack])?;
                match (&end, &x) {
                    (None, None) => {}
                    (Some(None), Some(Err(_))) => {}
                    (Some(Some(v)), Some(Ok(w))) if v == w => {}
                    _ => return Err(format!("{op:02x?}, received earlier {old:02x?}, gateway sent {log:02x?}: {x:02x?}, expected {end:02x?}")),
                }
                if end.is_some() {
                    break;
                }
            }
            if end.is_none() {
                if r.one_in(3) {
                    g.send(&R::chan_hpai(0x0209, g.ch, &g.ep));
                    let x = drive(&mut f).await;
                    ensure!(matches!(x, Some(Err(_))), "{op:02x?}, connection closed by the gateway: {x:?}");
                    return Ok(());
                }
                // traffic that is no answer goes on meanwhile
                if r.flip() {
                    while since < 9.0 {
                        let step = if r.flip() { 0.5 } else { 1.0 };
                        since += step;
                        tokio::time::advance(Duration::from_secs_f64(step)).await;
                        let t = ind(op.dest() ^ 1, r);
                        let (q, ack) = g.next_treq(&t);
                        log.push(t);
                        g.send(&q);
                        let x = drive(&mut f).await;
                        ensure!(x.is_none(), "{op:02x?}, gateway sent {log:02x?}: {x:?}");
                        g.expect("acknowledgement", &[ack])?;
                    }
                }
                gives_up(&format!("{op:02x?}, gateway sent {log:02x?} and no more"), &mut f, 10.0 - since).await?;
                g.expect("after a timeout", &[])?;
            }
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C18
fn net_connect(r: &mut Rng) -> Res {
    in_rt(async {
        let mut g = Gw::new()?;
        let mon = r.flip();
        let (c, m);
        if mon {
            m = Some(UdpMonitor::connect(&g.addr.to_string()).await.map_err(|e| e.to_string())?);
            c = None;
        } else {
            c = Some(UdpClient::connect(g.addr).await.map_err(|e| e.to_string())?);
            m = None;
        }
        settle().await;
        g.expect("connecting", &[R::conn_req(2)])?;
        let mut log = vec![];
        for _ in 0..r.below(4) {
            g.assign(r);
            let mut d = R::conn_resp(g.ch, 0, &g.ep, r.u16());
            match r.below(6) {
                0 => d.clear(),
                1 => d[7] = 1 + r.below(255) as u8,
                2 => d[2..4].copy_from_slice(&[2, r.pick(&[5u8, 7, 8, 10])]),
                3 => d[r.pick(&[0usize, 1, 8, 16, 17])] ^= 1 << r.below(8),
                4 => d = r.mutate(d),
                _ => {
                    let k = r.below(d.len());
                    d.truncate(k)
                }
            }
            let good = |d: &[u8]| R::conn_resp_ok(d) && d[7] == 0;
            if good(&d) || d.len() > 100 {
                continue;
            }
            // silence counts as a refusal after 30 seconds, the next attempt is 10 seconds later
            let due = if d.is_empty() { 40.0 } else { 10.0 };
            if !d.is_empty() {
                g.send(&d);
            }
            log.push(d);
            settle().await;
            // not connected: requests are refused and nothing is sent but further attempts
            let op = rop(r);
            let x = match (&c, &m) {
                (Some(c), _) => drive(&mut op.start(c)).await.map(|x| x.map(|_| ())),
                (_, Some(m)) => drive(&mut op.start_m(m)).await,
                _ => None,
            };
            ensure!(matches!(x, Some(Err(_))), "gateway answered {log:02x?}: {op:02x?} gave {x:?}");
            if let Some(m) = &m {
                let y = drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await;
                ensure!(y == Some(false), "gateway answered {log:02x?}: is_connected {y:?}");
            }
            pass(due - 1.0).await;
            let early = g.heard();
            ensure!(early.is_empty(), "gateway answered {log:02x?}: sent {early:02x?} within {} s", due - 1.0);
            let mut again = vec![];
            for _ in 0..3 {
                wait(0.5).await;
                again.extend(g.heard());
                if !again.is_empty() {
                    break;
                }
            }
            ensure!(again == [R::conn_req(2)], "gateway answered {log:02x?}: sent {again:02x?} within {} s, expected another connect request", due + 0.5);
            ensure!(g.beats == 0, "connection state request without a connection");
        }
        g.assign(r);
        g.accept(r);
        settle().await;
        g.expect("accepted", &if mon { vec![R::fset(g.ch, 0, 8, 1)] } else { vec![] })?;
        let op = loop {
            let op = rop(r);
            if op.telegram().is_some() {
                break op;
            }
        };
        let t = op.telegram().unwrap();
        match (&c, &m) {
            (Some(c), _) => {
                let mut f = op.start(c);
                let x = drive(&mut f).await;
                ensure!(x.is_none(), "{op:02x?}: {x:?}");
                g.expect(&format!("{op:02x?}"), &[R::treq(g.ch, 0, &t)])?;
            }
            (_, Some(m)) => {
                let x = drive(&mut op.start_m(m)).await;
                ensure!(matches!(x, Some(Ok(_))), "{op:02x?}: {x:?}");
                g.expect(&format!("{op:02x?}"), &[R::treq(g.ch, 1, &t)])?;
                let y = drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await;
                ensure!(y == Some(true), "accepted: is_connected {y:?}");
            }
            _ => {}
        }
        Ok(())
    })
}

// ------------------------------------------------------------------ C19 / C20
fn net_monitor(r: &mut Rng) -> Res {
    in_rt(async {
        let mut g = Gw::new()?;
        let m = UdpMonitor::connect(&g.addr.to_string()).await.map_err(|e| e.to_string())?;
        let mut ls: Vec<(mpsc::Receiver<()>, usize)> = vec![];
        let mut conns = 0;
        let total = 1 + r.below(4);
        loop {
            for _ in 0..r.below(3) {
                let (tx, rx) = mpsc::channel(8);
                let x = drive(&mut (Box::pin(m.add_on_connect(tx)) as Fut<()>)).await;
                ensure!(x.is_some(), "add_on_connect does not return");
                ls.push((rx, 0));
            }
            if !ls.is_empty() && r.one_in(4) {
                let k = r.below(ls.len());
                ls.remove(k);
            }
            if conns == total {
                break;
            }
            settle().await;
            if conns > 0 {
                let d = loop {
                    let d = terminal(r, &g);
                    if model(&d).2 == After::Restart {
                        break d;
                    }
                };
                g.send(&d);
                settle().await;
            }
            let y = drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await;
            ensure!(y == Some(false), "is_connected while connecting: {y:?}");
            g.expect("connecting", &[R::conn_req(2)])?;
            for _ in 0..r.below(2) {
                // registered while there is no connection
                let (tx, rx) = mpsc::channel(8);
                let x = drive(&mut (Box::pin(m.add_on_connect(tx)) as Fut<()>)).await;
                ensure!(x.is_some(), "add_on_connect does not return");
                ls.push((rx, 0));
            }
            g.assign(r);
            g.accept(r);
            settle().await;
            g.expect("accepted", &[R::fset(g.ch, 0, 8, 1)])?;
            conns += 1;
            for l in ls.iter_mut() {
                l.1 += 1;
            }
            for (i, l) in ls.iter_mut().enumerate() {
                let mut k = 0;
                while l.0.try_recv().is_ok() {
                    k += 1;
                }
                ensure!(k == 1, "listener {i} was told {k} times of connection {conns}");
            }
            let y = drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await;
            ensure!(y == Some(true), "is_connected after connecting: {y:?}");
            for _ in 0..r.below(3) {
                let t = ind(r.u16(), r);
                let (q, ack) = g.next_treq(&t);
                g.send(&q);
                let got = take(&m).await;
                let want = R::lind(&R::cemi(&t).unwrap().body);
                ensure!(got.as_ref().and_then(|x| x.as_ref().ok()) == want.as_ref(), "gateway sent {t:02x?}: {got:02x?}");
                g.expect("acknowledgement", &[ack])?;
            }
        }
        for (i, l) in ls.iter_mut().enumerate() {
            ensure!(l.0.try_recv().is_err(), "listener {i} was told without a new connection");
        }
        Ok(())
    })
}
/// connection state requests every 60 seconds, while and only while connected
fn net_beat(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, c, m);
        if r.flip() {
            let (a, b) = client(r).await?;
            g = a;
            c = Some(b);
            m = None;
        } else {
            let (a, b) = monitor(r).await?;
            g = a;
            c = None;
            m = Some(b);
        }
        for _ in 0..1 + r.below(3) {
            g.heard();
            g.beats = 0;
            let n = 1 + r.below(5);
            for _ in 0..n * 6 {
                wait(10.0).await;
                if r.one_in(3) {
                    g.send(&R::chan_status(0x0208, g.ch, 0));
                }
                if r.one_in(8) {
                    let t = ind(r.u16(), r);
                    let (q, _) = g.next_treq(&t);
                    g.send(&q);
                }
                settle().await;
                g.heard().retain(|d| d[2..4] != [4, 0x21]);
            }
            g.beats_ok()?;
            ensure!(g.beats == n, "{} connection state requests in {n} minutes of connection", g.beats);
            if r.one_in(3) {
                break;
            }
            // break the connection: quiet until it is restored
            g.send(&R::chan_status(0x0208, g.ch, 0x27));
            settle().await;
            g.expect("connection state error", &[R::conn_req(2)])?;
            g.beats = 0;
            if r.one_in(3) {
                // a long outage: attempts are refused for minutes
                for _ in 0..12 + r.below(30) {
                    g.send(&R::conn_resp(g.ch, 1 + r.below(200) as u8, &g.ep, 0));
                    pass(10.5).await;
                    g.expect("attempt refused", &[R::conn_req(2)])?;
                }
            } else {
                wait(r.below(25) as f64).await;
                g.expect("while connecting", &[])?;
            }
            ensure!(g.beats == 0, "connection state request without a connection");
            g.assign(r);
            g.accept(r);
            settle().await;
            g.expect("reconnected", &if m.is_some() { vec![R::fset(g.ch, 0, 8, 1)] } else { vec![] })?;
            // the phase of the first request after a reconnection is free; wait for it
            for _ in 0..61 {
                g.heard();
                if g.beats > 0 {
                    break;
                }
                wait(1.0).await;
            }
            ensure!(g.beats > 0, "no connection state request within a minute of reconnecting");
            wait(10.0).await;
            g.heard();
            ensure!(g.beats <= 2, "{} connection state requests within 10 seconds of reconnecting", g.beats);
            g.beats_ok()?;
        }
        g.send(&if r.flip() { R::chan_hpai(0x0209, g.ch, &g.ep) } else { R::chan_status(0x020a, g.ch, 0) });
        settle().await;
        g.heard();
        g.beats = 0;
        wait(200.0).await;
        g.expect("after hanging up", &[])?;
        ensure!(g.beats == 0, "connection state request after hanging up");
        drop((c, m));
        Ok(())
    })
}

fn net_disc(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, a) = if r.flip() {
            let (g, c) = client(r).await?;
            (g, Any::C(c))
        } else {
            let (g, m) = monitor(r).await?;
            (g, Any::M(m))
        };
        // somebody may be waiting for the next message
        let mut waiting: Option<Fut<Result<R::RInd, String>>> = match &a {
            Any::M(m) if r.flip() => Some(Box::pin(async { m.next_msg().await.map(|i| ind_view(&i)).map_err(|e| e.to_string()) })),
            _ => None,
        };
        if let Some(w) = &mut waiting {
            let x = drive(w).await;
            ensure!(x.is_none(), "next message without any: {x:?}");
        }
        let mut f: Fut<Result<Option<u8>, String>> = match &a {
            Any::C(c) => Box::pin(async { c.disconnect().await.map(|_| None).map_err(|e| e.to_string()) }),
            Any::M(m) => Box::pin(async { m.disconnect().await.map(Some).map_err(|e| e.to_string()) }),
        };
        let x = drive(&mut f).await;
        ensure!(x.is_none(), "disconnect without an answer: {x:?}");
        g.expect("disconnect", &[R::chan_hpai(0x0209, g.ch, &g.ep)])?;
        let silent = r.one_in(3);
        let mut t = 0.0;
        // other traffic goes on meanwhile
        if r.flip() {
            for _ in 0..if silent { 4 } else { r.below(4) } {
                tokio::time::advance(Duration::from_secs(2)).await;
                t += 2.0;
                let c = ind(r.u16(), r);
                let (q, ack) = g.next_treq(&c);
                g.send(&q);
                let x = drive(&mut f).await;
                ensure!(x.is_none(), "disconnect without an answer: {x:?}");
                g.expect("acknowledgement", &[ack])?;
                if r.flip() {
                    // whoever waits takes it and waits for another
                    if let Some(w) = &mut waiting {
                        if drive(w).await.is_some() {
                            waiting = None;
                        }
                    }
                }
            }
        }
        if silent {
            return gives_up("disconnect without an answer", &mut f, 10.0 - t).await;
        }
        let st = if r.flip() { 0 } else { r.u8() };
        g.send(&R::chan_status(0x020a, g.ch, st));
        settle().await;
        if let Some(w) = &mut waiting {
            // each message that came is taken, then there are no more
            if let Some(Ok(_)) = drive(w).await {
                waiting = None;
            }
        }
        let x = drive(&mut f).await;
        let want = if let Any::M(_) = a { Some(st) } else { None };
        ensure!(x == Some(Ok(want)), "disconnect answered with {st}: {x:?}");
        drop(f);
        drop(waiting);
        match &a {
            Any::C(c) => {
                let op = op_that_fits(r);
                let x = drive(&mut op.start(c)).await;
                ensure!(matches!(x, Some(Err(_))), "{op:02x?} after disconnection: {x:?}");
            }
            Any::M(m) => {
                let y = drive(&mut (Box::pin(m.is_connected()) as Fut<bool>)).await;
                ensure!(y == Some(false), "is_connected after disconnection: {y:?}");
                let got = take(m).await;
                ensure!(matches!(got, Some(Err(_))), "next message after disconnection: {got:02x?}");
            }
        }
        g.expect("after disconnection", &[])
    })
}
fn net_state(r: &mut Rng) -> Res {
    in_rt(async {
        let (mut g, c) = client(r).await?;
        g.heard();
        g.beats = 0;
        let mut f: Fut<Result<(u8, u8), String>> =
            Box::pin(async { c.get_connection_status().await.map(|s| (s.communication_channel_id, s.status)).map_err(|e| e.to_string()) });
        let x = drive(&mut f).await;
        ensure!(x.is_none(), "connection status without an answer: {x:?}");
        g.expect("connection status", &[])?;
        ensure!(g.beats == 1, "{} connection state requests", g.beats);
        if r.one_in(4) {
            return gives_up("connection status without an answer", &mut f, 10.0).await;
        }
        let st = if r.flip() { 0 } else { r.u8() };
        g.send(&R::chan_status(0x0208, g.ch, st));
        let x = drive(&mut f).await;
        ensure!(x == Some(Ok((g.ch, st))), "connection status answered with {st}: {x:?}");
        Ok(())
    })
}

// ---------------------------------------------------------------- discovery
// sendto is taken over in this program: what goes to an address that is not on the loopback network is
// recorded and delivered to the responder of this thread instead, so no multicast leaves the sandbox.
thread_local! { static TARGETS: std::cell::RefCell<Vec<([u8; 4], u16)>> = const { std::cell::RefCell::new(vec![]) }; }
thread_local! { static RESPONDER: std::cell::Cell<u16> = const { std::cell::Cell::new(0) }; }
#[repr(C)]
struct SockAddrIn {
    family: u16,
    port: [u8; 2],
    ip: [u8; 4],
    zero: [u8; 8],
}
extern "C" {
    fn syscall(n: std::ffi::c_long, ...) -> std::ffi::c_long;
}
/// # Safety
/// same contract as sendto(2)
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: i32, buf: *const u8, len: usize, flags: i32, addr: *const SockAddrIn, alen: u32) -> isize {
    const SYS_SENDTO: std::ffi::c_long = if cfg!(target_arch = "x86_64") { 44 } else { 206 };
    if !addr.is_null() && alen as usize >= 8 && (*addr).family == 2 && (*addr).ip[0] != 127 {
        let (ip, port) = ((*addr).ip, u16::from_be_bytes((*addr).port));
        TARGETS.with(|t| t.borrow_mut().push((ip, port)));
        let to = SockAddrIn { family: 2, port: RESPONDER.with(|p| p.get()).to_be_bytes(), ip: [127, 0, 0, 1], zero: [0; 8] };
        return syscall(SYS_SENDTO, fd, buf, len, flags, &to as *const SockAddrIn, 16u32) as isize;
    }
    syscall(SYS_SENDTO, fd, buf, len, flags, addr, alen) as isize
}
/// one search request to the system multicast address; one entry per search response, in order, until none came for the given time
fn net_search(r: &mut Rng) -> Res {
    in_rt(async {
        let mut g = Gw::new()?;
        RESPONDER.with(|p| p.set(g.addr.port()));
        TARGETS.with(|t| t.borrow_mut().clear());
        let d = Duration::from_millis(20 + r.below(20000) as u64);
        let mut f: Fut<Result<Vec<SearchResponse>, String>> = Box::pin(async move { UdpClient::search(d).await.map_err(|e| e.to_string()) });
        let x = drive(&mut f).await;
        ensure!(x.is_none(), "search of {d:?} ended at once: {x:?}");
        let got = g.heard();
        let port = g.peer.map(|p| p.port()).unwrap_or(0);
        let want = R::frame(0x0201, &R::hpai(1, [0; 4], port));
        ensure!(got == [want.clone()], "search sent {got:02x?}, expected {want:02x?} from port {port}");
        let to = TARGETS.with(|t| t.borrow().clone());
        ensure!(to == [([224, 0, 23, 12], 3671)], "search request sent to {to:?}");
        let mut told: Vec<Vec<u8>> = vec![];
        for _ in 0..r.below(5) {
            wait(d.as_secs_f64() * 0.9).await;
            let x = drive(&mut f).await;
            ensure!(x.is_none(), "search of {d:?} ended early after {} responses: {x:?}", told.len());
            for _ in 0..1 + r.below(4) {
                let mut m = match told.last() {
                    Some(m) if r.one_in(5) => m.clone(),
                    _ => rsearch(r),
                };
                if r.one_in(12) {
                    m = r.mutate(m);
                    m.truncate(512);
                }
                g.send(&m);
                let bad = !R::search_resp_ok(&m);
                told.push(m);
                if bad {
                    break;
                }
            }
            let x = drive(&mut f).await;
            if told.iter().any(|m| !R::search_resp_ok(m)) {
                let x = if x.is_none() { drive(&mut f).await } else { x };
                ensure!(matches!(x, Some(Err(_))), "search answered with {:02x?}: {x:?}", told.last());
                return Ok(());
            }
            ensure!(x.is_none(), "search of {d:?} ended on {:02x?}: {x:?}", told.last());
        }
        wait(d.as_secs_f64() * 0.95).await;
        let x = drive(&mut f).await;
        ensure!(x.is_none(), "search of {d:?} ended early after {} responses: {x:?}", told.len());
        wait(d.as_secs_f64() * 0.1).await;
        let x = drive(&mut f).await;
        let Some(Ok(v)) = x else { return Err(format!("search of {d:?} after {} responses: {x:?}", told.len())) };
        ensure!(v.len() == told.len(), "search returned {} entries for {} responses", v.len(), told.len());
        for (x, m) in v.iter().zip(&told) {
            search_view(x, m)?;
        }
        g.expect("after the search", &[])?;
        ensure!(TARGETS.with(|t| t.borrow().len()) == 1, "more than one search request");
        Ok(())
    })
}

pub fn families() -> Vec<Fam> {
    let f = |props, name, g| Fam { props, name, kind: Kind::Net(g) };
    vec![
        f("C15 C08", "net_seq", net_seq as fn(&mut Rng) -> Res),
        f("C15 C08", "net_seq_monitor", net_seq_monitor),
        f("C15", "net_race", net_race),
        f("C15 C17 C19", "net_conc", net_conc),
        f("C16 C10", "net_recv", net_recv),
        f("C16", "net_recv_slow", net_recv_slow),
        f("C17", "net_rw", net_rw),
        f("C18", "net_connect", net_connect),
        f("C19 C20", "net_monitor", net_monitor),
        f("C19", "net_recv", net_recv),
        f("C20", "net_beat", net_beat),
        f("C19 C20", "net_listen", net_listen),
        f("C20", "net_disc", net_disc),
        f("C20", "net_state", net_state),
        f("C21", "net_search", net_search),
    ]
}
