//@ # P15: the metrics of Server-Timing, iterated; its name.
use vstd::prelude::*;
verus! {
//@ include seq_iters.inc
//@ include header_consts.inc
// the entries are only passed on
pub struct Metric(u8);
//@ include list_iters.inc MOD=st FILE=src/trace/server_timing/mod.rs T=ServerTiming F=timings E=Metric
//@ include header_name.inc MOD=st FILE=src/trace/server_timing/mod.rs T=ServerTiming CONST=SERVER_TIMING TEXT=server-timing
}
fn main() {}
