//@ # P08: the name of the Forwarded header.
use vstd::prelude::*;
verus! {
//@ include header_consts.inc
//@ include header_name.inc MOD=f FILE=src/proxies/forwarded.rs T=Forwarded CONST=FORWARDED TEXT=forwarded
}
fn main() {}
