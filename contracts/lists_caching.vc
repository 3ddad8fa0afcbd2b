//@ # P11: the entries of Cache-Control and Clear-Site-Data, iterated; the names of the caching headers.
use vstd::prelude::*;
verus! {
//@ include seq_iters.inc
//@ include header_consts.inc
// the entries are only passed on
pub struct CacheDirective(u8);
pub struct ClearDirective(u8);
//@ include list_iters.inc MOD=cc FILE=src/cache/cache_control/cache_control.rs T=CacheControl F=entries E=CacheDirective
//@ include list_iters.inc MOD=csd FILE=src/cache/clear_site_data/mod.rs T=ClearSiteData F=entries E=ClearDirective
//@ include header_name.inc MOD=cc FILE=src/cache/cache_control/cache_control.rs T=CacheControl CONST=CACHE_CONTROL TEXT=cache-control
//@ include header_name.inc MOD=csd FILE=src/cache/clear_site_data/mod.rs T=ClearSiteData CONST=CLEAR_SITE_DATA TEXT=clear-site-data
//@ include header_name.inc MOD=age FILE=src/cache/age.rs T=Age CONST=AGE TEXT=age
//@ include header_name.inc MOD=cl FILE=src/content/content_length.rs T=ContentLength CONST=CONTENT_LENGTH TEXT=content-length
}
fn main() {}
