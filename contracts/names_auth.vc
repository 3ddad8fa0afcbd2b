//@ # P13: the names of the authentication headers.
use vstd::prelude::*;
verus! {
//@ include header_consts.inc
//@ include header_name.inc MOD=a FILE=src/auth/authorization.rs T=Authorization CONST=AUTHORIZATION TEXT=authorization
//@ include header_name.inc MOD=b FILE=src/auth/basic_auth.rs T=BasicAuth CONST=AUTHORIZATION TEXT=authorization
//@ include header_name.inc MOD=w FILE=src/auth/www_authenticate.rs T=WwwAuthenticate CONST=WWW_AUTHENTICATE TEXT=www-authenticate
}
fn main() {}
