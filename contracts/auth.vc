//@ # P13: Authorization, Basic credentials and WWW-Authenticate.
//@ include hdr.inc
//@ include ulower.inc
//@ include quoted.inc
//@ item src/auth/authentication_scheme.rs enum AuthenticationScheme #[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub open spec fn scheme_text(s: AuthenticationScheme) -> Seq<char> {
    match s {
        AuthenticationScheme::Basic => "Basic"@,
        AuthenticationScheme::Bearer => "Bearer"@,
        AuthenticationScheme::Digest => "Digest"@,
        AuthenticationScheme::Hoba => "HOBA"@,
        AuthenticationScheme::Mutual => "Mutual"@,
        AuthenticationScheme::Negotiate => "Negotiate"@,
        AuthenticationScheme::OAuth => "OAuth"@,
        AuthenticationScheme::ScramSha1 => "SCRAM-SHA-1"@,
        AuthenticationScheme::ScramSha256 => "SCRAM-SHA-256"@,
        AuthenticationScheme::Vapid => "vapid"@,
    }
}
// the scheme a text names, in any case
pub open spec fn scheme_of(t: Seq<char>) -> Option<AuthenticationScheme> {
    let n = ulower(t);
    if n == "basic"@ { Some(AuthenticationScheme::Basic) }
    else if n == "bearer"@ { Some(AuthenticationScheme::Bearer) }
    else if n == "digest"@ { Some(AuthenticationScheme::Digest) }
    else if n == "hoba"@ { Some(AuthenticationScheme::Hoba) }
    else if n == "mutual"@ { Some(AuthenticationScheme::Mutual) }
    else if n == "negotiate"@ { Some(AuthenticationScheme::Negotiate) }
    else if n == "oauth"@ { Some(AuthenticationScheme::OAuth) }
    else if n == "scram-sha-1"@ { Some(AuthenticationScheme::ScramSha1) }
    else if n == "scram-sha-256"@ { Some(AuthenticationScheme::ScramSha256) }
    else if n == "vapid"@ { Some(AuthenticationScheme::Vapid) }
    else { None }
}
pub proof fn lemma_schemes(s: AuthenticationScheme)
    ensures
        scheme_of(scheme_text(s)) == Some(s), ascii_chars(scheme_text(s)), first(scheme_text(s), is_char(' ')) == scheme_text(s).len(),
        scheme_of(lower(scheme_text(s))) == Some(s),
{
    broadcast use axiom_ulower;
    reveal_strlit("Basic"); reveal_strlit("Bearer"); reveal_strlit("Digest"); reveal_strlit("HOBA"); reveal_strlit("Mutual"); reveal_strlit("Negotiate"); reveal_strlit("OAuth"); reveal_strlit("SCRAM-SHA-1"); reveal_strlit("SCRAM-SHA-256");
    reveal_strlit("basic"); reveal_strlit("bearer"); reveal_strlit("digest"); reveal_strlit("hoba"); reveal_strlit("mutual"); reveal_strlit("negotiate"); reveal_strlit("oauth"); reveal_strlit("scram-sha-1"); reveal_strlit("scram-sha-256"); reveal_strlit("vapid");
    assert("basic"@.len() == 5 && "bearer"@.len() == 6 && "digest"@.len() == 6 && "hoba"@.len() == 4 && "mutual"@.len() == 6 && "negotiate"@.len() == 9 && "oauth"@.len() == 5 && "scram-sha-1"@.len() == 11 && "scram-sha-256"@.len() == 13 && "vapid"@.len() == 5);
    assert("basic"@[0] != "oauth"@[0] && "basic"@[0] != "vapid"@[0] && "oauth"@[0] != "vapid"@[0]);
    assert("bearer"@[0] != "digest"@[0] && "bearer"@[0] != "mutual"@[0] && "digest"@[0] != "mutual"@[0]);
    let t = scheme_text(s);
    let l = lower(t);
    match s {
        AuthenticationScheme::Basic => { assert(l =~= "basic"@); }
        AuthenticationScheme::Bearer => { assert(l =~= "bearer"@); }
        AuthenticationScheme::Digest => { assert(l =~= "digest"@); }
        AuthenticationScheme::Hoba => { assert(l =~= "hoba"@); }
        AuthenticationScheme::Mutual => { assert(l =~= "mutual"@); }
        AuthenticationScheme::Negotiate => { assert(l =~= "negotiate"@); }
        AuthenticationScheme::OAuth => { assert(l =~= "oauth"@); }
        AuthenticationScheme::ScramSha1 => { assert(l =~= "scram-sha-1"@); }
        AuthenticationScheme::ScramSha256 => { assert(l =~= "scram-sha-256"@); }
        AuthenticationScheme::Vapid => { assert(l =~= "vapid"@); }
    }
    assert(ascii_chars(t));
    assert(ascii_chars(l));
    assert(lower(l) =~= l);
    assert forall|j: int| 0 <= j < t.len() implies !is_char(' ')(#[trigger] t[j]) by {}
    lemma_first_is(t, is_char(' '), t.len() as int);
}
impl Show for AuthenticationScheme { open spec fn shown(&self) -> Seq<char> { scheme_text(*self) } }
impl AuthenticationScheme {
//@ fn src/auth/authentication_scheme.rs <AuthenticationScheme as Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + self.shown(),
//@ fmt
//@ end
//@ fn src/auth/authentication_scheme.rs <AuthenticationScheme as FromStr>::from_str
//@ bare
//@ ret r
ensures match scheme_of(s@) { Some(x) => r == Ok::<AuthenticationScheme, Error>(x), None => r is Err && (r->Err_0).status == StatusCode::BadRequest },
//@ rewrite "Result<Self, Self::Err>" => "CrateResult<Self>"
//@ rewrite "s.to_lowercase()" => "str_to_lowercase(s)"
//@ rewrite "bail!(" => "bail_status!("
//@ at start
broadcast use axiom_str_ext;
//@ end
}
// the scheme and what follows it
pub open spec fn credentials(s: Seq<char>) -> Option<(AuthenticationScheme, Seq<char>)> {
    let h = halves(s, ' ');
    if h.len() == 2 { match scheme_of(h[0]) { Some(x) => Some((x, h[1])), None => None } } else { None }
}
pub open spec fn cred_text(s: AuthenticationScheme, t: Seq<char>) -> Seq<char> { scheme_text(s) + seq![' '] + t }
pub proof fn lemma_credentials(s: AuthenticationScheme, t: Seq<char>)
    ensures credentials(cred_text(s, t)) == Some((s, t)),
{
    lemma_schemes(s);
    let a = scheme_text(s);
    let x = cred_text(s, t);
    lemma_first(a, is_char(' '));
    assert forall|j: int| 0 <= j < a.len() implies !is_char(' ')(#[trigger] x[j]) by { assert(x[j] == a[j]); }
    lemma_first_is(x, is_char(' '), a.len() as int);
    assert(x.subrange(0, a.len() as int) =~= a);
    assert(x.subrange(a.len() as int + 1, x.len() as int) =~= t);
}
//@ item src/auth/authorization.rs struct Authorization
//@ fn src/auth/authorization.rs Authorization::new
//@ ret r
ensures r.scheme == scheme, r.credentials == credentials,
//@ end
//@ fn src/auth/authorization.rs Authorization::scheme
//@ ret r
ensures r == self.scheme,
//@ end
//@ fn src/auth/authorization.rs Authorization::set_scheme
ensures final(self).scheme == scheme, final(self).credentials == old(self).credentials,
//@ end
//@ fn src/auth/authorization.rs Authorization::credentials
//@ ret r
ensures r@ == self.credentials@,
//@ end
//@ fn src/auth/authorization.rs Authorization::set_credentials
ensures final(self).credentials == credentials, final(self).scheme == old(self).scheme,
//@ end
pub open spec fn authorization(h: &Headers) -> Option<Option<(AuthenticationScheme, Seq<char>)>> {
    match header_values(h, "authorization"@) { None => None, Some(vs) => Some(credentials(vs.last().inner@)) }
}
//@ fn src/auth/authorization.rs Authorization::from_headers
//@ ret r
ensures
    match authorization(headers) {
        None => r == Ok::<Option<Authorization>, Error>(None),
        Some(None) => r is Err && (r->Err_0).status == StatusCode::BadRequest,
        Some(Some(x)) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).scheme == x.0 && (r->Ok_0->0).credentials@ == x.1,
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(AUTHORIZATION)" => "header_get(headers, \"authorization\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "value.as_str().splitn(2, ' ')" => "Parts::halves(value.as_str(), ' ')"
//@ rewrite "bail!(" => "bail_status!("
//@ rewrite "scheme.parse()?" => "AuthenticationScheme::from_str(scheme)?"
//@ end
impl Authorization {
//@ fn src/auth/authorization.rs <Authorization as Header>::header_value
//@ bare
//@ ret r
requires ascii_chars(self.credentials@),
ensures r.inner@ == cred_text(self.scheme, self.credentials@), credentials(r.inner@) == Some((self.scheme, self.credentials@)),
//@ fmt
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof { reveal_strlit(" "); lemma_schemes(self.scheme); lemma_credentials(self.scheme, self.credentials@); assert(" "@ =~= seq![' ']); }
//@ at before-call HeaderValue::from_bytes_unchecked
proof { assert(output@ =~= cred_text(self.scheme, self.credentials@)); }
//@ end
}
// TRUSTED: base64 decodes what it encodes, and encodes as ASCII text; from_utf8 reads the UTF-8 of a text as that text.
pub uninterp spec fn b64(b: Seq<u8>) -> Seq<char>;
pub uninterp spec fn b64_dec(s: Seq<char>) -> Option<Seq<u8>>;
pub uninterp spec fn utf8_text(b: Seq<u8>) -> Option<Seq<char>>;
pub broadcast axiom fn axiom_b64(b: Seq<u8>)
    ensures #![trigger b64(b)] b64_dec(b64(b)) == Some(b), ascii_chars(b64(b));
pub broadcast axiom fn axiom_utf8_text(s: Seq<char>)
    ensures #![trigger utf8(s)] utf8_text(utf8(s)) == Some(s);
pub struct DecodeError;
pub mod base64 {
    use super::*;
    #[verifier::external_body]
    pub fn decode(s: &str) -> (r: Result<Vec<u8>, DecodeError>)
        ensures match b64_dec(s@) { Some(b) => r is Ok && (r->Ok_0)@ == b, None => r is Err } { unimplemented!() }
    #[verifier::external_body]
    pub fn encode(s: String) -> (r: String) ensures r@ == b64(utf8(s@)) { unimplemented!() }
}
#[verifier::external_body]
pub fn string_from_utf8(b: Vec<u8>) -> (r: Result<String, DecodeError>)
    ensures match utf8_text(b@) { Some(s) => r is Ok && (r->Ok_0)@ == s, None => r is Err } { unimplemented!() }
pub open spec fn user_pass(s: Seq<char>) -> Option<(Seq<char>, Seq<char>)> {
    match b64_dec(s) {
        None => None,
        Some(b) => match utf8_text(b) {
            None => None,
            Some(t) => { let h = halves(t, ':'); if h.len() == 2 { Some((h[0], h[1])) } else { None } },
        },
    }
}
pub open spec fn user_text(u: Seq<char>, p: Seq<char>) -> Seq<char> { b64(utf8(u + seq![':'] + p)) }
// RFC 7617 2: a user name without a colon comes back
pub proof fn lemma_user_pass(u: Seq<char>, p: Seq<char>)
    requires !u.contains(':'),
    ensures user_pass(user_text(u, p)) == Some((u, p)),
{
    broadcast use axiom_b64, axiom_utf8_text;
    let t = u + seq![':'] + p;
    assert forall|j: int| 0 <= j < u.len() implies !is_char(':')(#[trigger] t[j]) by { assert(t[j] == u[j]); assert(u.contains(u[j])); }
    lemma_first_is(t, is_char(':'), u.len() as int);
    assert(t.subrange(0, u.len() as int) =~= u);
    assert(t.subrange(u.len() as int + 1, t.len() as int) =~= p);
}
//@ item src/auth/basic_auth.rs struct BasicAuth
//@ fn src/auth/basic_auth.rs BasicAuth::new
//@ ret r
ensures r.username@ == username@, r.password@ == password@,
//@ rewrite "new<U, P>(username: U, password: P)" => "new(username: &str, password: &str)"
//@ rewrite "where" => ""
//@ rewrite "U: AsRef<str>," => ""
//@ rewrite "P: AsRef<str>," => ""
//@ rewrite "username.as_ref()" => "username"
//@ rewrite "password.as_ref()" => "password"
//@ end
//@ fn src/auth/basic_auth.rs BasicAuth::username
//@ ret r
ensures r@ == self.username@,
//@ end
//@ fn src/auth/basic_auth.rs BasicAuth::password
//@ ret r
ensures r@ == self.password@,
//@ end
//@ fn src/auth/basic_auth.rs BasicAuth::from_credentials
//@ ret r
ensures match user_pass(credentials@) { Some(x) => r is Ok && (r->Ok_0).username@ == x.0 && (r->Ok_0).password@ == x.1, None => r is Err && (r->Err_0).status == StatusCode::BadRequest },
//@ rewrite "credentials: impl AsRef<[u8]>" => "credentials: &str"
//@ rewrite "String::from_utf8(" => "string_from_utf8("
//@ rewrite "credentials.splitn(2, ':')" => "Parts::halves(credentials.as_str(), ':')"
//@ rewrite "username.to_string(), password.to_string()" => "username.to_owned(), password.to_owned()"
//@ rewrite "bail!(" => "bail_status!("
//@ end
//@ fn src/auth/basic_auth.rs BasicAuth::from_headers
//@ ret r
ensures
    match authorization(headers) {
        None => r == Ok::<Option<BasicAuth>, Error>(None),
        Some(Some((AuthenticationScheme::Basic, c))) => match user_pass(c) {
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).username@ == x.0 && (r->Ok_0->0).password@ == x.1,
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
        },
        _ => r is Err && (r->Err_0).status == StatusCode::BadRequest,
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "ensure!(" => "ensure_status_text!("
//@ rewrite ".map(Some)" => ".map(|b: BasicAuth| -> (y: Option<BasicAuth>) ensures y == Some(b) { Some(b) })"
//@ end
impl BasicAuth {
//@ fn src/auth/basic_auth.rs <BasicAuth as Header>::header_value
//@ bare
//@ ret r
ensures
    r.inner@ == cred_text(AuthenticationScheme::Basic, user_text(self.username@, self.password@)),
    credentials(r.inner@) == Some((AuthenticationScheme::Basic, user_text(self.username@, self.password@))),
    !self.username@.contains(':') ==> user_pass(user_text(self.username@, self.password@)) == Some((self.username@, self.password@)),
//@ fmt
//@ at start
broadcast use axiom_b64, axiom_utf8_text;
proof { reveal_strlit(":"); assert(":"@ =~= seq![':']); if !self.username@.contains(':') { lemma_user_pass(self.username@, self.password@); } }
//@ end
}
// --- WWW-Authenticate
//@ include quoting.inc
#[verifier::external_body]
pub fn str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures match r {
        Some(t) => s@.len() >= p@.len() && s@.subrange(0, p@.len() as int) == p@ && t@ == s@.subrange(p@.len() as int, s@.len() as int),
        None => s@.len() < p@.len() || s@.subrange(0, p@.len() as int) != p@,
    },
{ s.strip_prefix(p) }
pub open spec fn challenge(s: Seq<char>) -> Option<(AuthenticationScheme, Seq<char>)> {
    match credentials(s) {
        None => None,
        Some(x) => {
            let t = trimmed_start(x.1, is_white());
            let p = "realm="@;
            if t.len() >= p.len() && t.subrange(0, p.len() as int) == p {
                match quoted(t.subrange(p.len() as int, t.len() as int)) { Some(y) => Some((x.0, y.0)), None => None }
            } else { None }
        },
    }
}
pub open spec fn challenge_text(s: AuthenticationScheme, realm: Seq<char>) -> Seq<char> {
    cred_text(s, "realm="@ + (seq!['"'] + esc(realm) + seq!['"']) + ", charset=\"UTF-8\""@)
}
// a printable realm comes back, whatever quotes and backslashes it has
pub proof fn lemma_challenge(s: AuthenticationScheme, realm: Seq<char>)
    requires printable(realm),
    ensures challenge(challenge_text(s, realm)) == Some((s, realm)),
{
    broadcast use axiom_white;
    reveal_strlit("realm=");
    let p = "realm="@;
    let tail = ", charset=\"UTF-8\""@;
    let q = seq!['"'] + esc(realm) + seq!['"'];
    let t = p + q + tail;
    lemma_credentials(s, t);
    assert(t[0] == 'r');
    assert(trimmed_start(t, is_white()) == t);
    assert(t.subrange(0, p.len() as int) =~= p);
    let u = t.subrange(p.len() as int, t.len() as int);
    assert(u =~= q + tail);
    lemma_esc_scan(realm, tail);
    assert(suf(u, 1) =~= esc(realm) + seq!['"'] + tail);
    let n = esc(realm).len() as int + 1;
    assert(u.subrange(1, n) =~= esc(realm));
}
//@ item src/auth/www_authenticate.rs struct WwwAuthenticate
//@ fn src/auth/www_authenticate.rs WwwAuthenticate::new
//@ ret r
ensures r.scheme == scheme, r.realm == realm,
//@ end
//@ fn src/auth/www_authenticate.rs WwwAuthenticate::scheme
//@ ret r
ensures r == self.scheme,
//@ end
//@ fn src/auth/www_authenticate.rs WwwAuthenticate::set_scheme
ensures final(self).scheme == scheme, final(self).realm == old(self).realm,
//@ end
//@ fn src/auth/www_authenticate.rs WwwAuthenticate::realm
//@ ret r
ensures r@ == self.realm@,
//@ end
//@ fn src/auth/www_authenticate.rs WwwAuthenticate::set_realm
ensures final(self).realm == realm, final(self).scheme == old(self).scheme,
//@ end
//@ fn src/auth/www_authenticate.rs WwwAuthenticate::from_headers
//@ ret r
ensures
    match header_values(headers, "www-authenticate"@) {
        None => r == Ok::<Option<WwwAuthenticate>, Error>(None),
        Some(vs) => match challenge(vs.last().inner@) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).scheme == x.0 && (r->Ok_0->0).realm@ == x.1,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref().get(WWW_AUTHENTICATE)" => "header_get(headers, \"www-authenticate\")"
//@ rewrite "headers.iter().last()" => "vec_last(headers)"
//@ rewrite "value.as_str().splitn(2, ' ')" => "Parts::halves(value.as_str(), ' ')"
//@ rewrite "bail!(" => "bail_status!("
//@ rewrite "scheme.parse()?" => "AuthenticationScheme::from_str(scheme)?"
//@ rewrite "realm.trim_start()" => "str_trim_start(realm.as_str())"
//@ rewrite "realm.strip_prefix(\"realm=\")" => "str_strip_prefix(realm, \"realm=\")"
//@ rewrite "realm.into_owned()" => "cow_into_owned(realm)"
//@ end
impl WwwAuthenticate {
//@ fn src/auth/www_authenticate.rs <WwwAuthenticate as Header>::header_value
//@ bare
//@ ret r
requires ascii_chars(self.realm@),
ensures r.inner@ == challenge_text(self.scheme, self.realm@), printable(self.realm@) ==> challenge(r.inner@) == Some((self.scheme, self.realm@)),
//@ fmt
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof {
    reveal_strlit(" realm="); reveal_strlit("realm="); reveal_strlit(", charset=\"UTF-8\"");
    lemma_schemes(self.scheme); lemma_esc_ascii(self.realm@);
    if printable(self.realm@) { lemma_challenge(self.scheme, self.realm@); }
}
//@ at before-call HeaderValue::from_bytes_unchecked
proof { assert(output@ =~= challenge_text(self.scheme, self.realm@)); }
//@ end
}
}
fn main() {}
