=== items transport::udp
impl MyUdpSocket { pub fn vlate(&mut self, d: crate::vprelude::Duration) -> (r: bool) ensures r ==> late1(old(self).inner, final(self).inner, d.ms@), !r ==> *final(self) == *old(self) { self.inner.vlate(d) } }
impl MyUdpSocket { pub fn vrest(&mut self, d: crate::vprelude::Duration) ensures rest1(old(self).inner, final(self).inner, d.ms@) { self.inner.vrest(d) } }
impl MyUdpSocket { pub fn clone(&mut self) -> (r: &mut Self) ensures *r == *old(self), *final(self) == *final(r) { self } }
impl Conn for ConnectionData {
    open spec fn chan(self) -> u8 { self.communication_channel_id }
    open spec fn ep(self) -> HPAI { self.control_endpoint }
    open spec fn nr(self) -> u8 { self.sequence_nr }
}
impl Shared for Option<ConnectionData> { open spec fn rely(self, other: Self) -> bool { conn_rely(self, other) } }
/// at most one number was taken from the connection; `sent`: the datagram that carries it, or the socket refused it
pub open spec fn numbered1(t0: UdpTransport, t1: UdpTransport, ok: bool, b: spec_fn(u8, u8) -> Seq<u8>) -> bool {
    t1.rx == t0.rx && t1.state_rx == t0.state_rx && one_or_none(t0.connection_data.hist@, t1.connection_data.hist@)
    && (untaken(t0, t1) ==> !ok && t1.socket == t0.socket && no_conn(t0.connection_data.hist@, t1.connection_data.hist@))
    && (!untaken(t0, t1) ==> { let c = taken(t1.connection_data.hist@).last();
        (ok ==> sent1(t0.socket.inner, t1.socket.inner, b(c.chan(), c.nr()))) && (!ok ==> failed1(t0.socket.inner, t1.socket.inner)) })
}
pub open spec fn same_but_conn(t0: UdpTransport, t1: UdpTransport) -> bool { t1 == (UdpTransport { connection_data: t1.connection_data, ..t0 }) }
pub open spec fn untaken(t0: UdpTransport, t1: UdpTransport) -> bool { taken(t1.connection_data.hist@) == taken(t0.connection_data.hist@) }
/// a transport that was just opened: no tunnel yet, nothing sent, received or handed over
pub open spec fn fresh(t: UdpTransport) -> bool { t.connection_data.last@ is None && t.connection_data.hist@.len() == 0 && fresh_sock(t.socket.inner) && fresh_rx(t.rx) && fresh_rx(t.state_rx) }
pub open spec fn asked(t0: UdpTransport, t1: UdpTransport, svc: u16, ok: bool) -> bool {
    let h0 = t0.connection_data.hist@; let h1 = t1.connection_data.hist@;
    idle_all(h0, h1) && (unasked(t0, t1, ok) || exists|i: int| h0.len() <= i < h1.len() && (#[trigger] h1[i]).0 is Some && ({ let c = h1[i].0->0;
        sent1(t0.socket.inner, t1.socket.inner, chan_hpai_bytes(svc, c.chan(), c.ep())) || (failed1(t0.socket.inner, t1.socket.inner) && !ok && t1.rx == t0.rx) }))
}
/// not connected: nothing happened
pub open spec fn unasked(t0: UdpTransport, t1: UdpTransport, ok: bool) -> bool {
    !ok && t1.socket == t0.socket && t1.rx == t0.rx && t1.state_rx == t0.state_rx && no_conn(t0.connection_data.hist@, t1.connection_data.hist@)
}
/// the queue was emptied before the request; then the rest was received
pub open spec fn queued(t0: UdpTransport, t1: UdpTransport) -> int { t1.rx.empty@[t0.rx.empty@.len() as int] }
pub open spec fn emptied(t0: UdpTransport, t1: UdpTransport) -> crate::vprelude::Receiver<CEMI> {
    crate::vprelude::Receiver { got: Ghost(t1.rx.got@.take(queued(t0, t1))), late: t0.rx.late, empty: t1.rx.empty }
}
pub open spec fn cleared(t0: UdpTransport, t1: UdpTransport) -> bool {
    t1.rx.empty@.len() > t0.rx.empty@.len() && t1.rx.empty@.take(t0.rx.empty@.len() as int) =~= t0.rx.empty@
    && t0.rx.got@.len() <= queued(t0, t1) <= t1.rx.got@.len() && some_more(t0.rx.got@, emptied(t0, t1).got@)
}
/// get_connectionstate: one request; the next state handed over by the receive task, or an error when it ended or 10 s passed
pub open spec fn state_post(t0: UdpTransport, t1: UdpTransport, r: TransportResult<crate::packets::core::ConnectionstateResponse>) -> bool {
    asked(t0, t1, 0x0207, r is Ok) && t1.rx == t0.rx
    && (r is Ok ==> t1.state_rx.got@.len() > t0.state_rx.got@.len() && t1.state_rx.got@.last() == Some(r->Ok_0) && t1.state_rx.late == t0.state_rx.late)
    && (r is Err ==> unasked(t0, t1, false) || failed1(t0.socket.inner, t1.socket.inner)
        || (t1.state_rx.got@.len() > 0 && t1.state_rx.got@.last() is None) || t1.state_rx.late@ =~= t0.state_rx.late@.push((10000, t1.state_rx.got@.len() as int)))
}
/// disconnect: one request; then the end of the receive task, or an error when 10 s passed
pub open spec fn disc_post(t0: UdpTransport, t1: UdpTransport, r: Result<(), Whatever>) -> bool {
    asked(t0, t1, 0x0209, r is Ok) && t1.state_rx == t0.state_rx
    && (r is Ok ==> closed_rx(t0.rx, t1.rx))
    && (r is Err ==> unasked(t0, t1, false) || failed1(t0.socket.inner, t1.socket.inner) || late_rx(t0.rx, t1.rx, 10000))
}
=== items transport::udp_monitor
impl Conn for ConnectionData {
    open spec fn chan(self) -> u8 { self.communication_channel_id }
    open spec fn ep(self) -> HPAI { self.control_endpoint }
    open spec fn nr(self) -> u8 { self.sequence_nr }
}
impl Shared for Option<ConnectionData> { open spec fn rely(self, other: Self) -> bool { conn_rely(self, other) } }
pub open spec fn fresh(t: UdpMonitorTransport) -> bool { t.connection_data.last@ is None && t.connection_data.hist@.len() == 0 && fresh_sock(t.socket.inner) && fresh_rx(t.rx) && t.disconnect_status.last@ is None && t.disconnect_status.hist@.len() == 0 && t.on_connection.last@@.len() == 0 && t.on_connection.hist@.len() == 0 }
pub open spec fn disc_post(t0: UdpMonitorTransport, t1: UdpMonitorTransport, r: Result<u8, Whatever>) -> bool {
    let h0 = t0.connection_data.hist@; let h1 = t1.connection_data.hist@; let d0 = t0.disconnect_status.hist@; let d1 = t1.disconnect_status.hist@;
    idle_all(h0, h1) && t1.on_connection == t0.on_connection && idle_all(d0, d1)
    && (unasked(t0, t1, r is Ok) || exists|i: int| h0.len() <= i < h1.len() && (#[trigger] h1[i]).0 is Some && ({ let c = h1[i].0->0;
        sent1(t0.socket.inner, t1.socket.inner, chan_hpai_bytes(0x0209, c.chan(), c.ep())) || (failed1(t0.socket.inner, t1.socket.inner) && r is Err && t1.rx == t0.rx) }))
    && (r is Ok ==> d1.len() > d0.len() && d1.last().0 == Some(r->Ok_0) && closed_rx(t0.rx, t1.rx))
    && (r is Err ==> unasked(t0, t1, false) || failed1(t0.socket.inner, t1.socket.inner) || late_rx(t0.rx, t1.rx, 10000) || (closed_rx(t0.rx, t1.rx) && d1.len() > d0.len() && d1.last().0 is None))
}
pub open spec fn unasked(t0: UdpMonitorTransport, t1: UdpMonitorTransport, ok: bool) -> bool {
    !ok && t1.socket == t0.socket && t1.rx == t0.rx && no_conn(t0.connection_data.hist@, t1.connection_data.hist@)
}
pub open spec fn numbered1(t0: UdpMonitorTransport, t1: UdpMonitorTransport, ok: bool, b: spec_fn(u8, u8) -> Seq<u8>) -> bool {
    t1.rx == t0.rx && t1.on_connection == t0.on_connection && t1.disconnect_status == t0.disconnect_status && one_or_none(t0.connection_data.hist@, t1.connection_data.hist@)
    && (untaken(t0, t1) ==> !ok && t1.socket == t0.socket && no_conn(t0.connection_data.hist@, t1.connection_data.hist@))
    && (!untaken(t0, t1) ==> { let c = taken(t1.connection_data.hist@).last();
        (ok ==> sent1(t0.socket.inner, t1.socket.inner, b(c.chan(), c.nr()))) && (!ok ==> failed1(t0.socket.inner, t1.socket.inner)) })
}
pub open spec fn untaken(t0: UdpMonitorTransport, t1: UdpMonitorTransport) -> bool { taken(t1.connection_data.hist@) == taken(t0.connection_data.hist@) }
pub open spec fn same_but_conn(t0: UdpMonitorTransport, t1: UdpMonitorTransport) -> bool { t1 == (UdpMonitorTransport { connection_data: t1.connection_data, ..t0 }) }
=== fn transport::udp::ConnectionData::from_connection_response | C15
ensures r.sequence_nr == 0, r.communication_channel_id == $1.communication_channel_id, r.control_endpoint == $1.data_endpoint
=== fn transport::udp_monitor::ConnectionData::from_connection_response | C15
ensures r.sequence_nr == 1, r.communication_channel_id == $1.communication_channel_id, r.control_endpoint == $1.data_endpoint
=== fn transport::udp::MyUdpSocket::send | C15 C16
ensures r is Ok ==> sent1(old(self).inner, final(self).inner, $1@), r is Err ==> failed1(old(self).inner, final(self).inner)
=== fn transport::udp::MyUdpSocket::recv | C16 C18
ensures final($1)@.len() == old($1)@.len(),
    r is Ok ==> rcvd1(old(self).inner, final(self).inner, old($1)@, final($1)@, r->Ok_0 as int),
    r is Err ==> failed1(old(self).inner, final(self).inner) && final($1)@ == old($1)@,
=== fn transport::udp::UdpTransport::get_next_sequence_nr | C15
ensures same_but_conn(*old(self), *final(self)), next_post(old(self).connection_data.hist@, final(self).connection_data.hist@, r is Ok, r->Ok_0),
=== fn transport::udp::UdpTransport::get_communication_channel_id | C15
ensures same_but_conn(*old(self), *final(self)), look_post(old(self).connection_data.hist@, final(self).connection_data.hist@),
    match final(self).connection_data.hist@.last().0 { None => r is Err, Some(c) => r is Ok && r->Ok_0 == c.chan() }
=== fn transport::udp::UdpTransport::get_control_endpoint | C15 C16
ensures same_but_conn(*old(self), *final(self)), look_post(old(self).connection_data.hist@, final(self).connection_data.hist@),
    match final(self).connection_data.hist@.last().0 { None => r is Err, Some(c) => r is Ok && r->Ok_0.0 == c.chan() && r->Ok_0.1 == c.ep() }
=== fn transport::udp::UdpTransport::discard_received | C17
ensures cleared(*old(self), *final(self)), queued(*old(self), *final(self)) == final(self).rx.got@.len(), final(self).rx.empty@.len() == old(self).rx.empty@.len() + 1, final(self).rx.late == old(self).rx.late,
    *final(self) == (UdpTransport { rx: final(self).rx, ..*old(self) })
--- loop 0
invariant rx.late == vlk0.late, rx.empty == vlk0.empty, some_more(vlk0.got@, rx.got@)
ensures rx.empty@ =~= vlk0.empty@.push(rx.got@.len() as int), rx.late == vlk0.late, some_more(vlk0.got@, rx.got@)
=== fn transport::udp::UdpTransport::tunnel_req | C15 C08
requires $1@.len() <= 65525, old(self).rx.empty@.len() > 0 && old(self).rx.empty@.last() == old(self).rx.got@.len()
ensures numbered1(*old(self), *final(self), r is Ok, |ch: u8, nr: u8| treq_raw(ch, nr, $1@)),
=== fn transport::udp::UdpTransport::set_feature | C15
ensures numbered1(*old(self), *final(self), r is Ok, |ch: u8, nr: u8| fset_raw(ch, nr, feature_code($1), $2)),
=== fn transport::udp_monitor::UdpMonitorTransport::get_next_sequence_nr | C15
ensures same_but_conn(*old(self), *final(self)), next_post(old(self).connection_data.hist@, final(self).connection_data.hist@, r is Ok, r->Ok_0),
=== fn transport::udp_monitor::UdpMonitorTransport::control_endpoint | C15 C16
ensures same_but_conn(*old(self), *final(self)), look_post(old(self).connection_data.hist@, final(self).connection_data.hist@),
    match final(self).connection_data.hist@.last().0 { None => r is Err, Some(c) => r is Ok && r->Ok_0.0 == c.chan() && r->Ok_0.1 == c.ep() }
=== fn transport::udp_monitor::UdpMonitorTransport::tunnel_req | C15 C08
requires $1@.len() <= 65525
ensures numbered1(*old(self), *final(self), r is Ok, |ch: u8, nr: u8| treq_raw(ch, nr, $1@)),
=== fn transport::udp_monitor::UdpMonitorTransport::set_feature | C15
ensures numbered1(*old(self), *final(self), r is Ok, |ch: u8, nr: u8| fset_raw(ch, nr, feature_code($1), $2)),
=== fn transport::udp::UdpTransport::get_connectionstate | C15 C20
ensures state_post(*old(self), *final(self), r)
=== fn transport::udp::UdpTransport::disconnect | C20
ensures disc_post(*old(self), *final(self), r)
--- loop 0
invariant rx.late == old(self).rx.late, some_more(old(self).rx.got@, rx.got@)
=== fn transport::udp_monitor::UdpMonitorTransport::disconnect | C20
ensures disc_post(*old(self), *final(self), r)
--- loop 0
invariant_except_break rx.late == old(self).rx.late, some_more(old(self).rx.got@, rx.got@)
ensures closed_rx(old(self).rx, *rx)
=== fn transport::udp_monitor::UdpMonitorTransport::is_connected | C19
ensures same_but_conn(*old(self), *final(self)), look_post(old(self).connection_data.hist@, final(self).connection_data.hist@), r == final(self).connection_data.hist@.last().0 is Some
=== fn transport::udp_monitor::UdpMonitorTransport::add_on_connect | C19
ensures added(old(self).on_connection.hist@, final(self).on_connection.hist@, $1), *final(self) == (UdpMonitorTransport { on_connection: final(self).on_connection, ..*old(self) })
=== fn transport::udp_monitor::enable_busmonitor | C15
ensures r is Ok ==> sent1(old($1).inner, final($1).inner, fset_raw($2, 0, 8, 1)), r is Err ==> failed1(old($1).inner, final($1).inner)
=== fn transport::udp::parse_response | C10 C03
ensures r is Ok <==> pr_ok($1@), r is Ok ==> pr_at(r->Ok_0, $1@)
=== fn transport::udp::connect | C18 C20
ensures old($1).inner.fail_at@ <= old($1).inner.rx@.len() ==> final($1).inner.fail_at@ < final($1).inner.rx@.len(),
    final($1).inner.rx@.len() > old($1).inner.rx@.len(), r.status == 0, ({ let d = final($1).inner.rx@.last(); conn_resp_ok(d, 0) && conn_resp_at(r, d, 0) }),
    only_conn(old($1).inner, final($1).inner), rested(old($1).inner, final($1).inner),
    final($1).inner.tx@.len() - old($1).inner.tx@.len() <= final($1).inner.rests@.len() - old($1).inner.rests@.len() + 1,
    forall|i: int| old($1).inner.rx@.len() <= i < final($1).inner.rx@.len() - 1 ==> !good_conn(#[trigger] final($1).inner.rx@[i]),
--- loop 0
invariant only_conn(old($1).inner, $1.inner), rested(old($1).inner, $1.inner),
    $1.inner.tx@.len() - old($1).inner.tx@.len() <= $1.inner.rests@.len() - old($1).inner.rests@.len(),
    forall|i: int| old($1).inner.rx@.len() <= i < $1.inner.rx@.len() ==> !good_conn(#[trigger] $1.inner.rx@[i]),
=== fn transport::udp::try_connection | C18 C04
ensures final($1).inner.rests == old($1).inner.rests, final($1).inner.fails@ >= old($1).inner.fails@, grown(old($1).inner, final($1).inner),
    r is Ok ==> final($1).inner.rx@.len() == old($1).inner.rx@.len() + 1 && r->Ok_0.status == 0
        && ({ let d = final($1).inner.rx@.last(); conn_resp_ok(d, 0) && conn_resp_at(r->Ok_0, d, 0) }),
    final($1).inner.rx@.len() == old($1).inner.rx@.len() || (final($1).inner.rx@.len() == old($1).inner.rx@.len() + 1 && (r is Err ==> !good_conn(final($1).inner.rx@.last()))),
    r is Ok ==> final($1).inner.late == old($1).inner.late && final($1).inner.fail_at == old($1).inner.fail_at,
    final($1).inner.late@ =~= old($1).inner.late@ || (final($1).inner.rx == old($1).inner.rx && final($1).inner.late@ =~= old($1).inner.late@.push(30000)),
    r is Err ==> final($1).inner.fails@ > old($1).inner.fails@ || final($1).inner.late@.len() > old($1).inner.late@.len() || final($1).inner.rx@.len() > old($1).inner.rx@.len(),
    failed1(old($1).inner, final($1).inner) || final($1).inner.tx@ =~= old($1).inner.tx@.push((old($1).inner.rx@.len() as int, conn_req_const(2))),
=== fn transport::udp::handle_recv_from_knx_device | C16
ensures final($1).inner.fails@ >= old($1).inner.fails@, final($2).fails@ >= old($2).fails@,
    only_replies(old($1).inner, final($1).inner),
    r is Ok && all_short(final($1).inner.rx@) ==> { let ds = new_rx(old($1).inner, final($1).inner);
        ds.len() > 0 && hangs_up(ds.last()) && all_go_on(ds.drop_last()) && r->Ok_0 == hang_status(ds.last())
        && (final($1).inner.fails@ == old($1).inner.fails@ ==> handled(old($1).inner, old($2).sent@, final($1).inner, final($2).sent@, ds)) },
    r is Err && all_short(final($1).inner.rx@) && final($1).inner.fails@ == old($1).inner.fails@ && final($2).fails@ == old($2).fails@ ==> { let ds = new_rx(old($1).inner, final($1).inner);
        ds.len() > 0 && !goes_on(ds.last()) && !hangs_up(ds.last()) && all_go_on(ds.drop_last())
        && handled(old($1).inner, old($2).sent@, final($1).inner, final($2).sent@, ds.drop_last()) },
    all_short(final($1).inner.rx@) ==> svs(final($3).tried@) =~= svs(old($3).tried@) + states(new_rx(old($1).inner, final($1).inner)),
--- loop 0
invariant $1.inner.fails@ == old($1).inner.fails@, $2.fails@ == old($2).fails@,
    only_replies(old($1).inner, $1.inner),
    all_short($1.inner.rx@) ==> all_go_on(new_rx(old($1).inner, $1.inner)) && handled(old($1).inner, old($2).sent@, $1.inner, $2.sent@, new_rx(old($1).inner, $1.inner)),
    all_short($1.inner.rx@) ==> svs($3.tried@) =~= svs(old($3).tried@) + states(new_rx(old($1).inner, $1.inner)),
    all_short($1.inner.rx@) ==> last_sequence_nr == last_nr(new_rx(old($1).inner, $1.inner)),
=== fn transport::udp::UdpClient::read_group_address_value | C17 C08
ensures one_section(old(self).transport.hist@, final(self).transport.hist@),
    ({ let t0 = final(self).transport.hist@.last().0; let t1 = final(self).transport.hist@.last().1; one_or_none(t0.connection_data.hist@, t1.connection_data.hist@)
        && (untaken(t0, t1) ==> r is Err && t1.socket == t0.socket && t1.state_rx == t0.state_rx && no_conn(t0.connection_data.hist@, t1.connection_data.hist@)) }),
    !untaken(final(self).transport.hist@.last().0, final(self).transport.hist@.last().1) ==> { let t0 = final(self).transport.hist@.last().0; let t1 = final(self).transport.hist@.last().1; let c = taken(t1.connection_data.hist@).last();
        let m = emptied(t0, t1);
        cleared(t0, t1) && (sent1(t0.socket.inner, t1.socket.inner, treq_raw(c.chan(), c.nr(), read_telegram($1))) || (failed1(t0.socket.inner, t1.socket.inner) && r is Err))
        && match r {
            Ok(v) => t1.rx.late == t0.rx.late && t1.rx.got@.len() > m.got@.len() && t1.rx.got@.last() is Some && value_ind(t1.rx.got@.last()->0, $1) && v@ =~= lind_value(t1.rx.got@.last()->0.service_info@)
                && forall|i: int| m.got@.len() <= i < t1.rx.got@.len() - 1 ==> (#[trigger] t1.rx.got@[i]) is Some && !value_ind(t1.rx.got@[i]->0, $1),
            Err(_) => (forall|i: int| m.got@.len() <= i < t1.rx.got@.len() && (#[trigger] t1.rx.got@[i]) is Some ==> !value_ind(t1.rx.got@[i]->0, $1))
                && (failed1(t0.socket.inner, t1.socket.inner) || late_rx(m, t1.rx, old(self).timeout.ms@) || closed_rx(m, t1.rx)
                    || (t1.rx.got@.len() > m.got@.len() && t1.rx.got@.last() is Some && t1.rx.got@.last()->0.msg_code == 0x29 && !lind_ok(t1.rx.got@.last()->0.service_info@))),
        }
    },
--- loop 0
invariant rx.got@.len() >= vlk1.got@.len(), rx.got@.take(vlk1.got@.len() as int) =~= vlk1.got@,
    expected_addr == knx_u16($1), rx.late == vlk1.late, rx.empty == vlk1.empty,
    forall|i: int| vlk1.got@.len() <= i < rx.got@.len() ==> (#[trigger] rx.got@[i]) is Some && !value_ind(rx.got@[i]->0, $1),
=== fn transport::udp::UdpClient::write_group_address_value | C17 C08
ensures !$3 && $2@.len() > 253 ==> r is Err && *final(self) == *old(self),
    ($3 || $2@.len() <= 253) ==> one_section(old(self).transport.hist@, final(self).transport.hist@) && ({ let t0 = final(self).transport.hist@.last().0; let t1 = final(self).transport.hist@.last().1; one_or_none(t0.connection_data.hist@, t1.connection_data.hist@)
        && (untaken(t0, t1) ==> r is Err && t1.socket == t0.socket && t1.state_rx == t0.state_rx && no_conn(t0.connection_data.hist@, t1.connection_data.hist@)) }),
    ($3 || $2@.len() <= 253) && !untaken(final(self).transport.hist@.last().0, final(self).transport.hist@.last().1) ==> { let t0 = final(self).transport.hist@.last().0; let t1 = final(self).transport.hist@.last().1; let c = taken(t1.connection_data.hist@).last();
        let m = emptied(t0, t1);
        cleared(t0, t1) && (sent1(t0.socket.inner, t1.socket.inner, treq_raw(c.chan(), c.nr(), write_telegram($1, $2@, $3))) || (failed1(t0.socket.inner, t1.socket.inner) && r is Err))
        && (r is Ok ==> t1.rx.got@.len() > m.got@.len() && t1.rx.got@.last() is Some && positive_con(t1.rx.got@.last()->0)
                && forall|i: int| m.got@.len() <= i < t1.rx.got@.len() - 1 ==> (#[trigger] t1.rx.got@[i]) is Some && t1.rx.got@[i]->0.msg_code == 0x29)
        && (r is Ok ==> t1.rx.late == t0.rx.late)
        && (r is Err ==> (forall|i: int| m.got@.len() <= i < t1.rx.got@.len() && (#[trigger] t1.rx.got@[i]) is Some ==> !positive_con(t1.rx.got@[i]->0))
            && (failed1(t0.socket.inner, t1.socket.inner) || late_rx(m, t1.rx, old(self).timeout.ms@) || closed_rx(m, t1.rx)
                || (t1.rx.got@.len() > m.got@.len() && t1.rx.got@.last() is Some && t1.rx.got@.last()->0.msg_code != 0x29)))
    },
--- loop 0
invariant rx.got@.len() >= vlk1.got@.len(), rx.got@.take(vlk1.got@.len() as int) =~= vlk1.got@,
    forall|i: int| vlk1.got@.len() <= i < rx.got@.len() ==> (#[trigger] rx.got@[i]) is Some && rx.got@[i]->0.msg_code == 0x29,
    rx.late == vlk1.late, rx.empty == vlk1.empty,
=== fn transport::udp::UdpClient::get_read_timeout | C17
ensures r == self.timeout
=== fn transport::udp::UdpClient::get_write_timeout | C17
ensures r == self.timeout
=== fn transport::udp::UdpClient::get_connection_status | C20
ensures one_section(old(self).transport.hist@, final(self).transport.hist@), state_post(final(self).transport.hist@.last().0, final(self).transport.hist@.last().1, r), final(self).timeout == old(self).timeout
=== fn transport::udp::UdpClient::disconnect | C20
ensures one_section(old(self).transport.hist@, final(self).transport.hist@), disc_post(final(self).transport.hist@.last().0, final(self).transport.hist@.last().1, r), final(self).timeout == old(self).timeout
=== fn transport::udp::UdpClient::flush | C20
ensures r is Ok, *final(self) == *old(self)
=== fn transport::udp::UdpTransport::connect | C18 C20
ensures r is Ok ==> fresh(r->Ok_0)
=== fn transport::udp::UdpClient::connect | C18 C17
ensures r is Ok ==> fresh(r->Ok_0.transport.last@) && r->Ok_0.transport.hist@.len() == 0 && r->Ok_0.timeout.ms@ == 10000
=== fn transport::udp_monitor::UdpMonitorTransport::connect | C18 C20
ensures r is Ok ==> fresh(r->Ok_0)
=== fn transport::udp_monitor::UdpMonitor::create_transport | C18
ensures r is Ok ==> fresh(r->Ok_0)
=== fn transport::udp_monitor::UdpMonitor::connect | C18
ensures r is Ok ==> fresh(r->Ok_0.transport.last@) && r->Ok_0.transport.hist@.len() == 0
=== fn transport::udp_monitor::UdpMonitor::disconnect | C20
ensures one_section(old(self).transport.hist@, final(self).transport.hist@), disc_post(final(self).transport.hist@.last().0, final(self).transport.hist@.last().1, r)
=== fn transport::udp_monitor::UdpMonitor::add_on_connect | C19
ensures one_section(old(self).transport.hist@, final(self).transport.hist@), ({ let t0 = final(self).transport.hist@.last().0; let t1 = final(self).transport.hist@.last().1; added(t0.on_connection.hist@, t1.on_connection.hist@, $1) && t1 == (UdpMonitorTransport { on_connection: t1.on_connection, ..t0 }) })
=== fn transport::udp_monitor::UdpMonitor::is_connected | C19
ensures one_section(old(self).transport.hist@, final(self).transport.hist@), ({ let t0 = final(self).transport.hist@.last().0; let t1 = final(self).transport.hist@.last().1; same_but_conn(t0, t1) && look_post(t0.connection_data.hist@, t1.connection_data.hist@) && r == t1.connection_data.hist@.last().0 is Some })
=== fn transport::udp_monitor::UdpMonitor::next_msg | C19
ensures one_section(old(self).transport.hist@, final(self).transport.hist@),
    ({ let t0 = final(self).transport.hist@.last().0; let t1 = final(self).transport.hist@.last().1; let g = t1.rx.got@;
        t1.connection_data == t0.connection_data && t1.socket == t0.socket
        && g.len() > t0.rx.got@.len() && g.take(t0.rx.got@.len() as int) =~= t0.rx.got@
        && (forall|i: int| t0.rx.got@.len() <= i < g.len() - 1 ==> (#[trigger] g[i]) is Some && g[i]->0.msg_code != 0x29 && g[i]->0.msg_code != 0x2b)
        && match r {
            Ok(x) => g.last() is Some && (g.last()->0.msg_code == 0x29 || g.last()->0.msg_code == 0x2b) && lind_ok(g.last()->0.service_info@) && lind_at(x, g.last()->0),
            Err(_) => g.last() is None || ((g.last()->0.msg_code == 0x29 || g.last()->0.msg_code == 0x2b) && !lind_ok(g.last()->0.service_info@)),
        } }),
--- loop 0
invariant rx.got@.len() >= vlk0.got@.len(), rx.got@.take(vlk0.got@.len() as int) =~= vlk0.got@,
    forall|i: int| vlk0.got@.len() <= i < rx.got@.len() ==> (#[trigger] rx.got@[i]) is Some && rx.got@[i]->0.msg_code != 0x29 && rx.got@[i]->0.msg_code != 0x2b,
=== fn transport::udp_monitor::UdpMonitor::solecitate_group_read | C19 C08
ensures one_section(old(self).transport.hist@, final(self).transport.hist@), numbered1(final(self).transport.hist@.last().0, final(self).transport.hist@.last().1, r is Ok, |ch: u8, nr: u8| treq_raw(ch, nr, read_telegram($1))),
=== fn transport::udp_monitor::UdpMonitor::write_group_address_value | C19 C08
ensures !$3 && $2@.len() > 253 ==> r is Err && *final(self) == *old(self),
    ($3 || $2@.len() <= 253) ==> one_section(old(self).transport.hist@, final(self).transport.hist@) && numbered1(final(self).transport.hist@.last().0, final(self).transport.hist@.last().1, r is Ok, |ch: u8, nr: u8| treq_raw(ch, nr, write_telegram($1, $2@, $3))),
=== task transport::udp::UdpTransport::connect | C20 C15 C18
requires old(connection_data).last@ is None, old(connection_data).hist@.len() == 0, old(socket).inner.fail_at@ <= old(socket).inner.rx@.len()
ensures final(connection_data).last@ is None, own_all(final(connection_data).hist@, 0),
    task_sent(old(socket).inner, final(socket).inner, false),
    final(socket).inner.rx@.len() > old(socket).inner.rx@.len(), all_short(final(socket).inner.rx@) ==> hangs_up(final(socket).inner.rx@.last()),
--- params
socket: &mut crate::transport::udp::MyUdpSocket, connection_data: &mut Owned<Option<ConnectionData>>, from_knx_tx: &mut crate::vprelude::mpsc::Sender<crate::packets::emi::CEMI>, state_tx: &mut crate::vprelude::mpsc::Sender<crate::packets::core::ConnectionstateResponse>
--- loop 0
invariant_except_break connection_data.last@ is None
invariant task_sent(old(socket).inner, socket.inner, false), own_all(connection_data.hist@, 0)
ensures socket.inner.rx@.len() > old(socket).inner.rx@.len(), all_short(socket.inner.rx@) ==> hangs_up(socket.inner.rx@.last())
--- loop 1
invariant_except_break socket.inner.fail_at@ < socket.inner.rx@.len(), socket.inner.rx@.len() > old(socket).inner.rx@.len(), good_conn(socket.inner.rx@.last()), connection_data.last@ is Some,
    of_conn(socket.inner.rx@.last(), connection_data.last@->0.chan(), connection_data.last@->0.ep())
invariant task_sent(old(socket).inner, socket.inner, false), own_all(connection_data.hist@, 0)
=== task transport::udp_monitor::UdpMonitorTransport::connect | C20 C15 C18
requires old(connection_data).last@ is None, old(connection_data).hist@.len() == 0, old(socket).inner.fail_at@ <= old(socket).inner.rx@.len()
ensures final(connection_data).last@ is None, own_all(final(connection_data).hist@, 1),
    task_sent(old(socket).inner, final(socket).inner, true),
    final(socket).inner.rx@.len() > old(socket).inner.rx@.len(), all_short(final(socket).inner.rx@) ==> hangs_up(final(socket).inner.rx@.last()), final(disconnect_status).last@ is Some,
--- params
socket: &mut crate::transport::udp::MyUdpSocket, connection_data: &mut Owned<Option<ConnectionData>>, disconnect_status: &mut Owned<Option<u8>>, from_knx_tx: &mut crate::vprelude::mpsc::Sender<crate::packets::emi::CEMI>, state_tx: &mut crate::vprelude::mpsc::Sender<crate::packets::core::ConnectionstateResponse>, on_connection: &mut Owned<Vec<crate::vprelude::mpsc::Sender<()>>>
--- loop 0
invariant_except_break connection_data.last@ is None
invariant task_sent(old(socket).inner, socket.inner, true), own_all(connection_data.hist@, 1)
ensures socket.inner.rx@.len() > old(socket).inner.rx@.len(), all_short(socket.inner.rx@) ==> hangs_up(socket.inner.rx@.last()), disconnect_status.last@ is Some
--- loop 2
invariant_except_break socket.inner.fail_at@ < socket.inner.rx@.len(), socket.inner.rx@.len() > old(socket).inner.rx@.len(), good_conn(socket.inner.rx@.last()), connection_data.last@ is Some,
    of_conn(socket.inner.rx@.last(), connection_data.last@->0.chan(), connection_data.last@->0.ep())
invariant task_sent(old(socket).inner, socket.inner, true), own_all(connection_data.hist@, 1)
=== fn transport::udp::UdpTransport::search | C21
ensures search_post(r, $1.ms@)
--- loop 0
invariant live(socket), search_sent(socket), socket.late@.len() == 0, buffer@.len() >= 322, all_small(socket.rx@) ==> found_at(responses@, socket.rx@)
ensures live(socket), search_sent(socket), socket.late@ =~= seq![$1.ms@], all_small(socket.rx@) ==> found_at(responses@, socket.rx@)
=== fn transport::udp::UdpClient::search | C21
ensures search_post(r, $1.ms@)
