//@ # P10: the tags of If-Match and If-None-Match, iterated; the names of the entity tag headers.
use vstd::prelude::*;
verus! {
//@ include seq_iters.inc
//@ include header_consts.inc
// the entries are only passed on
pub struct ETag(u8);
//@ include list_iters.inc MOD=im FILE=src/conditional/if_match.rs T=IfMatch F=entries E=ETag
//@ include list_iters.inc MOD=inm FILE=src/conditional/if_none_match.rs T=IfNoneMatch F=entries E=ETag
//@ include header_name.inc MOD=im FILE=src/conditional/if_match.rs T=IfMatch CONST=IF_MATCH TEXT=if-match
//@ include header_name.inc MOD=inm FILE=src/conditional/if_none_match.rs T=IfNoneMatch CONST=IF_NONE_MATCH TEXT=if-none-match
//@ include header_name.inc MOD=etag FILE=src/conditional/etag.rs T=ETag CONST=ETAG TEXT=etag
}
fn main() {}
