//@ # P16: the origins of Timing-Allow-Origin, iterated; the names of the security headers.
use vstd::prelude::*;
verus! {
//@ include seq_iters.inc
//@ include header_consts.inc
// the entries are only passed on
pub struct Url(u8);
//@ include list_iters.inc MOD=tao FILE=src/security/timing_allow_origin.rs T=TimingAllowOrigin F=origins E=Url
//@ include header_name.inc MOD=tao FILE=src/security/timing_allow_origin.rs T=TimingAllowOrigin CONST=TIMING_ALLOW_ORIGIN TEXT=timing-allow-origin
//@ include header_name.inc MOD=hsts FILE=src/security/strict_transport_security.rs T=StrictTransportSecurity CONST=STRICT_TRANSPORT_SECURITY TEXT=strict-transport-security
}
fn main() {}
