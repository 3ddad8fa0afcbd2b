//@ # P17: responses.
//@ include message_types.inc
pub mod upgrade {
    use vstd::prelude::*;
    use super::async_channel;
    verus! {
    #[verifier::external_body]
    pub struct Connection { x: u8 }
    //@ item src/upgrade/sender.rs struct Sender
    //@ item src/upgrade/receiver.rs struct Receiver
    //@ fn src/upgrade/sender.rs Sender::new
    //@ ret r
    ensures r.sender == sender,
    //@ end
    //@ fn src/upgrade/receiver.rs Receiver::new
    //@ ret r
    ensures r.receiver == receiver,
    //@ end
    }
}
//@ item src/response.rs struct Response
//@ include message.inc FILE=response T=Response
//@ include headers_iter.inc
//@ include message_iters.inc FILE=response T=Response
//@ fn src/response.rs Response::new
//@ ret r
requires
    call_requires(S::try_into, (status,)),
    forall|o: std::result::Result<StatusCode, S::Error>| call_ensures(S::try_into, (status,), o) ==> o is Ok,
ensures
    call_ensures(S::try_into, (status,), Ok(r.status)),
    fresh(r),
//@ end
// a response as it is made: no headers, no body, no version, no addresses, both channels unused
pub open spec fn fresh(r: Response) -> bool {
    &&& htexts(&r.headers) == Map::<Seq<char>, Seq<Seq<char>>>::empty()
    &&& r.body.blank() && r.ext.none() && r.version is None && r.peer_addr is None && r.local_addr is None
    &&& !r.has_trailers && !r.has_upgrade
    &&& r.trailers_sender is Some && r.trailers_receiver is Some && (r.trailers_sender->0).id == (r.trailers_receiver->0).id && (r.trailers_sender->0).capacity() == 1
    &&& r.upgrade_sender is Some && r.upgrade_receiver is Some && (r.upgrade_sender->0).id == (r.upgrade_receiver->0).id && (r.upgrade_sender->0).capacity() == 1
}
//@ fn src/response.rs Response::status
//@ ret r
ensures r == self.status,
//@ end
//@ fn src/response.rs Response::set_status
ensures *final(self) == (Response { status: status, ..*old(self) }),
//@ end
//@ fn src/response.rs Response::send_upgrade
//@ ret r
requires old(self).upgrade_sender is Some,
ensures
    r.sender == old(self).upgrade_sender->0,
    *final(self) == (Response { has_upgrade: true, upgrade_sender: None, ..*old(self) }),
//@ end
//@ fn src/response.rs Response::recv_upgrade
//@ ret r
requires old(self).upgrade_receiver is Some,
ensures
    r.receiver == old(self).upgrade_receiver->0,
    *final(self) == (Response { has_upgrade: true, upgrade_receiver: None, ..*old(self) }),
//@ rewrite "async fn" => "fn"
//@ end
//@ fn src/response.rs Response::has_upgrade
//@ ret r
ensures r == self.has_upgrade,
//@ end
impl Response {
//@ fn src/response.rs <Response as Clone>::clone
//@ bare
//@ ret r
ensures
    r.status == self.status, r.version == self.version, htexts(&r.headers) == htexts(&self.headers),
    opt_text(r.peer_addr) == opt_text(self.peer_addr), opt_text(r.local_addr) == opt_text(self.local_addr),
    r.body.blank(), r.ext.none(), !r.has_trailers, !r.has_upgrade,
//@ rewrite "self.peer_addr.clone()" => "clone_opt(&self.peer_addr)"
//@ rewrite "self.local_addr.clone()" => "clone_opt(&self.local_addr)"
//@ end
//@ fn src/response.rs <Response as From<()>>::from
//@ bare
//@ rename from_unit
//@ ret r
ensures r.status == StatusCode::NoContent, fresh(r),
//@ rewrite "_: ()" => "vx_unit: ()"
//@ end
//@ fn src/response.rs <Response as From<StatusCode>>::from
//@ bare
//@ rename from_status
//@ ret r
ensures r.status == s, fresh(r),
//@ end
//@ fn src/response.rs <Response as From<T>>::from
//@ bare
//@ rename from_body
//@ ret r
ensures
    r.status == StatusCode::Ok, r.body == value,
    htexts(&r.headers) == synced(Map::<Seq<char>, Seq<Seq<char>>>::empty(), value),
//@ rewrite "value: T" => "value: Body"
//@ rewrite "value.into()" => "value"
//@ end
}

}
fn main() {}
