//@ # P19: the names of Vary and the methods of Allow, iterated; the names of those headers and of the links.
use vstd::prelude::*;
verus! {
//@ include seq_iters.inc
//@ include header_consts.inc
// the entries are only passed on
pub struct Method(u8);
pub mod vary_list {
use super::{VecIntoIter, SliceIter, SliceIterMut};
use vstd::prelude::*;
pub struct HeaderName(u8);
//@ include list_iters.inc MOD=v FILE=src/conditional/vary.rs T=Vary F=entries E=HeaderName
}
//@ include allow_iters.inc
//@ include header_name.inc MOD=v FILE=src/conditional/vary.rs T=Vary CONST=VARY TEXT=vary
//@ include header_name.inc MOD=a FILE=src/server/allow.rs T=Allow CONST=ALLOW TEXT=allow
//@ include header_name.inc MOD=x FILE=src/other/expect.rs T=Expect CONST=EXPECT TEXT=expect
//@ include header_name.inc MOD=r FILE=src/other/referer.rs T=Referer CONST=REFERER TEXT=referer
//@ include header_name.inc MOD=s FILE=src/other/source_map.rs T=SourceMap CONST=SOURCE_MAP TEXT=sourcemap
//@ include header_name.inc MOD=l FILE=src/content/content_location.rs T=ContentLocation CONST=CONTENT_LOCATION TEXT=content-location
//@ include header_name.inc MOD=t FILE=src/content/content_type.rs T=ContentType CONST=CONTENT_TYPE TEXT=content-type
}
fn main() {}
