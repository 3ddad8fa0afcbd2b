//@ # P06: the names of the date headers.
use vstd::prelude::*;
verus! {
//@ include header_consts.inc
//@ include header_name.inc MOD=date FILE=src/other/date.rs T=Date CONST=DATE TEXT=date
//@ include header_name.inc MOD=ra FILE=src/other/retry_after.rs T=RetryAfter CONST=RETRY_AFTER TEXT=retry-after
//@ include header_name.inc MOD=exp FILE=src/cache/expires.rs T=Expires CONST=EXPIRES TEXT=expires
//@ include header_name.inc MOD=ims FILE=src/conditional/if_modified_since.rs T=IfModifiedSince CONST=IF_MODIFIED_SINCE TEXT=if-modified-since
//@ include header_name.inc MOD=ius FILE=src/conditional/if_unmodified_since.rs T=IfUnmodifiedSince CONST=IF_UNMODIFIED_SINCE TEXT=if-unmodified-since
//@ include header_name.inc MOD=lm FILE=src/conditional/last_modified.rs T=LastModified CONST=LAST_MODIFIED TEXT=last-modified
}
fn main() {}
