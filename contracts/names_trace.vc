//@ # P14: the name of the trace header.
use vstd::prelude::*;
verus! {
//@ include header_consts.inc
//@ include header_name.inc MOD=t FILE=src/trace/trace_context.rs T=TraceContext CONST=TRACEPARENT TEXT=traceparent
}
fn main() {}
