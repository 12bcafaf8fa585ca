=== fn packets::tunneling::TunnelingRequest::new | C06
ensures r.communication_channel_id == $1, r.sequence_nr == $2, r.cemi == $3
=== fn packets::tunneling::TunnelingRequest::get_cemi | C06
ensures *r == self.cemi
=== fn packets::tunneling::TunnelingRequest::packet | C06 C11
requires self.cemi@.len() <= 65525
ensures r@ =~= treq_bytes(*self)
=== fn packets::tunneling::TunnelingRequest::from_packet | C06 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> treq_ok(old($1).data(), old($1).at()),
    r is Ok ==> treq_at(r->Ok_0, old($1).data(), old($1).at()) && final($1).at() == old($1).at() + at2(old($1).data(), old($1).at() + 4),
=== fn packets::tunneling::TunnelingAck::new | C06
ensures r.communication_channel_id == $1, r.sequence_nr == $2, r.status == $3
=== fn packets::tunneling::TunnelingAck::packet | C06 C11
ensures r@ =~= tack_bytes(*self)
=== fn packets::tunneling::TunnelingAck::from_packet | C06 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> tack_ok(old($1).data(), old($1).at()),
    r is Ok ==> tack_at(r->Ok_0, old($1).data(), old($1).at()) && final($1).at() == old($1).at() + 10,
=== fn packets::tunneling::FeatureSet::new | C06
ensures r.communication_channel_id == $1, r.sequence_nr == $2, r.feature == $3, r.value == $4
=== fn packets::tunneling::FeatureSet::packet | C06
ensures r@ =~= fset_bytes(*self)
=== fn packets::tunneling::FeatureResp::packet | C06 C11
ensures r@ =~= fresp_bytes(*self)
=== fn packets::tunneling::FeatureResp::from_packet | C06 C03 C11
ensures final($1).inner == old($1).inner,
    r is Ok <==> fresp_ok(old($1).data(), old($1).at()),
    r is Ok ==> fresp_at(r->Ok_0, old($1).data(), old($1).at()) && final($1).at() == old($1).at() + 13,
=== fn packets::tunneling::verify_header | C06 C03
ensures final($1).inner == old($1).inner,
    r is Ok <==> (old($1).left() >= 2 && old($1).data()[old($1).at()] == 6 && old($1).data()[old($1).at() + 1] == 0x10),
    r is Ok ==> final($1).at() == old($1).at() + 2,
=== fn packets::tunneling::KnxIpFeature::try_from | C06 C03
=== items packets::tunneling
impl TryFromSpecImpl<u8> for KnxIpFeature {
    open spec fn obeys_try_from_spec() -> bool { true }
    open spec fn try_from_spec(v: u8) -> Result<Self, Whatever> { if feature_ok(v) { Ok(feature_of(v)) } else { Err(Whatever) } }
}
