//@ # P05: collecting a body whole, bodies made of text, JSON, forms and files.
//@ include body_types.inc
// TRUSTED: what collecting a reader does is fixed by polling it (futures_lite's read_to_end and
// read_to_string over the contract of poll_read proved in unit body): all of `rest`, or an error.
impl Body {
    // some poll of this body on the way to its end reports an error
    pub uninterp spec fn fails(&self) -> bool;
    #[verifier::external_body]
    pub fn read_to_end(&mut self, buf: &mut Vec<u8>) -> (r: io::Result<usize>)
        requires old(self).wf(),
        ensures
            r is Err <==> old(self).fails(),
            r is Ok ==> final(buf)@ == old(buf)@ + old(self).rest(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, buf: &mut String) -> (r: io::Result<usize>)
        requires old(self).wf(),
        ensures
            r is Err <==> old(self).fails() || text_of(old(self).rest()) is None,
            r is Ok ==> final(buf)@ == old(buf)@ + text_of(old(self).rest())->0,
    { unimplemented!() }
}
// the text these bytes encode, if they are UTF-8
pub uninterp spec fn text_of(b: Seq<u8>) -> Option<Seq<char>>;
pub open spec fn collected(b: Body) -> Option<Seq<u8>> { if b.fails() { None } else { Some(b.rest()) } }
pub open spec fn collected_text(b: Body) -> Option<Seq<char>> { if b.fails() { None } else { text_of(b.rest()) } }

pub assume_specification [String::with_capacity] (n: usize) -> (r: String) ensures r@ == Seq::<char>::empty();
pub assume_specification<T, F: FnOnce() -> Option<T>> [Option::<T>::or_else] (o: Option<T>, f: F) -> (r: Option<T>)
    requires o is None ==> f.requires(()),
    ensures o is Some ==> r == o, o is None ==> f.ensures((), r);
// `.status(code)`: the value, or an error of that status (discharged in unit errors).
pub trait Status<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn status(self, n: StatusCode) -> (r: Result<T, Error>)
        ensures match self.good() { Some(v) => r == Ok::<T, Error>(v), None => r is Err && (r->Err_0).status == n };
}
impl<T, E> Status<T> for Result<T, E> {
    open spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn status(self, n: StatusCode) -> (r: Result<T, Error>) { unimplemented!() }
}
// `?` on another error makes one of status 500 of it (discharged in unit errors).
impl FromSpecImpl<io::Error> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: io::Error) -> Self;
}
impl From<io::Error> for Error {
    #[verifier::external_body]
    fn from(e: io::Error) -> (r: Error) ensures r.status == StatusCode::InternalServerError { unimplemented!() }
}
impl FromSpecImpl<serde_json::Error> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: serde_json::Error) -> Self;
}
impl From<serde_json::Error> for Error {
    #[verifier::external_body]
    fn from(e: serde_json::Error) -> (r: Error) ensures r.status == StatusCode::InternalServerError { unimplemented!() }
}
impl FromSpecImpl<serde_urlencoded::Error> for Error {
    open spec fn obeys_from_spec() -> bool { false }
    uninterp spec fn from_spec(v: serde_urlencoded::Error) -> Self;
}
impl From<serde_urlencoded::Error> for Error {
    #[verifier::external_body]
    fn from(e: serde_urlencoded::Error) -> (r: Error) ensures r.status == StatusCode::InternalServerError { unimplemented!() }
}
// TRUSTED stand-ins for serde_json and serde_urlencoded.
pub uninterp spec fn json_of<T: ?Sized>(x: &T) -> Option<Seq<u8>>;
pub uninterp spec fn json_value<T>(b: Seq<u8>) -> Option<T>;
pub uninterp spec fn form_of<T: ?Sized>(x: &T) -> Option<Seq<char>>;
pub uninterp spec fn form_value<T>(b: Seq<char>) -> Option<T>;
pub mod serde_json {
    use vstd::prelude::*;
    use super::{json_of, json_value};
    verus! {
    pub struct Error { pub x: u8 }
    pub struct Value { pub x: u8 }
    #[verifier::external_body]
    pub fn to_vec<T: ?Sized>(x: &T) -> (r: Result<Vec<u8>, Error>) ensures match r { Ok(b) => json_of(x) == Some(b@), Err(_) => json_of(x) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_slice<T>(b: &[u8]) -> (r: Result<T, Error>) ensures match r { Ok(x) => json_value::<T>(b@) == Some(x), Err(_) => json_value::<T>(b@) is None } { unimplemented!() }
    }
}
pub mod serde_urlencoded {
    use vstd::prelude::*;
    use super::{form_of, form_value};
    verus! {
    pub struct Error { pub x: u8 }
    #[verifier::external_body]
    pub fn to_string<T: ?Sized>(x: &T) -> (r: Result<String, Error>) ensures match r { Ok(b) => form_of(x) == Some(b@), Err(_) => form_of(x) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn from_str<T>(b: &str) -> (r: Result<T, Error>) ensures match r { Ok(x) => form_value::<T>(b@) == Some(x), Err(_) => form_value::<T>(b@) is None } { unimplemented!() }
    }
}

//@ fn src/body.rs Body::len
//@ ret r
ensures r == self.length,
//@ end
//@ fn src/body.rs Body::from_string
//@ ret r
//@ rewrite "Box::new(io::Cursor::new(s.into_bytes()))" => "cursor_reader(s.into_bytes())"
//@ rewrite "mime::PLAIN" => "mime::plain()"
ensures holds(r, utf8(s@), PLAIN()),
//@ end
//@ fn src/body.rs Body::from_bytes
//@ ret r
//@ rewrite "Box::new(io::Cursor::new(bytes))" => "cursor_reader(bytes)"
//@ rewrite "mime::BYTE_STREAM" => "mime::byte_stream()"
ensures holds(r, bytes@, BYTE_STREAM()),
//@ end
// a body of exactly these bytes, of which it says how many they are and what
pub open spec fn holds(b: Body, bytes: Seq<u8>, m: Mime) -> bool {
    b.wf() && b.rest() =~= bytes && b.bytes_read == 0 && b.length is Some && b.length->0 == bytes.len() && b.mime == Some(m)
}
//@ fn src/body.rs Body::into_bytes
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "(mut self)" => "(self)"
//@ rewrite "self." => "this."
//@ ret r
requires self.wf(),
ensures match collected(self) {
    Some(b) => r matches Ok(v) && v@ == b,
    None => r is Err && (r->Err_0).status == StatusCode::UnprocessableEntity,
},
//@ at start
let mut this = self;
//@ at tail
proof { assert(buf@ =~= self.rest()); }
//@ end
//@ fn src/body.rs Body::into_string
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "(mut self)" => "(self)"
//@ rewrite "self." => "this."
//@ ret r
requires self.wf(),
ensures match collected_text(self) {
    Some(t) => (r matches Ok(v) && v@ == t) || (self.length is Some && self.length->0 > usize::MAX && r is Err && (r->Err_0).status == StatusCode::PayloadTooLarge),
    None => r is Err && ((r->Err_0).status == StatusCode::UnprocessableEntity || (r->Err_0).status == StatusCode::PayloadTooLarge && self.length is Some && self.length->0 > usize::MAX),
},
//@ at start
let mut this = self;
//@ at tail
proof { assert(result@ =~= collected_text(self)->0); }
//@ end
//@ fn src/body.rs Body::into_json
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "T: DeserializeOwned" => "T"
//@ rewrite "(mut self)" => "(self)"
//@ rewrite "self." => "this."
//@ ret r
requires self.wf(),
ensures match collected(self) {
    Some(b) => match json_value::<T>(b) {
        Some(x) => r == Ok::<T, Error>(x),
        None => r is Err && (r->Err_0).status == StatusCode::UnprocessableEntity,
    },
    None => r is Err,
},
//@ at start
let mut this = self;
//@ at tail
proof { assert(buf@ =~= self.rest()); }
//@ end
//@ fn src/body.rs Body::into_form
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "T: DeserializeOwned" => "T"
//@ ret r
requires self.wf(), !(self.length is Some && self.length->0 > usize::MAX),
ensures match collected_text(self) {
    Some(t) => match form_value::<T>(t) {
        Some(x) => r == Ok::<T, Error>(x),
        None => r is Err && (r->Err_0).status == StatusCode::UnprocessableEntity,
    },
    None => r is Err && (r->Err_0).status == StatusCode::UnprocessableEntity,
},
//@ end
//@ fn src/body.rs Body::from_json
//@ rewrite "json: &impl Serialize" => "json: &impl Sized"
//@ rewrite "Box::new(io::Cursor::new(bytes))" => "cursor_reader(bytes)"
//@ rewrite "mime::JSON" => "mime::json()"
//@ rewrite "serde_json::to_vec(&json)" => "serde_json::to_vec(json)"
//@ ret r
ensures match json_of(json) {
    Some(b) => r matches Ok(x) && holds(x, b, JSON()),
    None => r is Err,
},
//@ end
//@ fn src/body.rs Body::from_form
//@ rewrite "form: &impl Serialize" => "form: &impl Sized"
//@ rewrite "Box::new(io::Cursor::new(bytes))" => "cursor_reader(bytes)"
//@ rewrite "mime::FORM" => "mime::form()"
//@ ret r
ensures match form_of(form) {
    Some(t) => r matches Ok(x) && holds(x, utf8(t), FORM()),
    None => r is Err,
},
//@ end
impl Body {
//@ fn src/body.rs <Body as From<String>>::from
//@ bare
//@ rename from_owned
//@ ret r
ensures holds(r, utf8(s@), PLAIN()),
//@ end
//@ fn src/body.rs <Body as From<&'a str>>::from
//@ bare
//@ rename from_text
//@ ret r
//@ rewrite "&'a str" => "&str"
ensures holds(r, utf8(s@), PLAIN()),
//@ end
//@ fn src/body.rs <Body as From<Vec<u8>>>::from
//@ bare
//@ rename from_vec
//@ ret r
ensures holds(r, b@, BYTE_STREAM()),
//@ end
//@ fn src/body.rs <Body as From<&'a [u8]>>::from
//@ bare
//@ rename from_slice
//@ ret r
//@ rewrite "&'a [u8]" => "&[u8]"
ensures holds(r, b@, BYTE_STREAM()),
//@ end
//@ fn src/body.rs <Body as From<serde_json::Value>>::from
//@ bare
//@ rename from_value
//@ ret r
//@ rewrite ".unwrap()" => ".ok().unwrap()"
requires json_of(&json_value) is Some,
ensures holds(r, json_of(&json_value)->0, JSON()),
//@ end
}

// ---- Files ----
// TRUSTED stand-ins: a file gives its content from where it stands, or errors.
pub struct Path { pub x: u8 }
pub struct OsText { pub x: u8 }
// the text after the last dot of the path's last part, if there is one
pub uninterp spec fn extension_of(p: Path) -> Option<OsText>;
pub uninterp spec fn os_text(p: OsText) -> Option<Seq<char>>;
impl Path {
    #[verifier::external_body]
    pub fn extension(&self) -> (r: Option<&OsText>) ensures match r { Some(e) => extension_of(*self) == Some(*e), None => extension_of(*self) is None } { unimplemented!() }
}
impl OsText {
    #[verifier::external_body]
    pub fn to_str(&self) -> (r: Option<&str>) ensures match r { Some(e) => os_text(*self) == Some(e@), None => os_text(*self) is None } { unimplemented!() }
}
#[verifier::external_body]
pub fn no_path() -> (r: Path) ensures extension_of(r) is None { unimplemented!() }
pub struct Metadata { pub n: u64 }
impl Metadata { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
pub enum SeekFrom { Start(u64), End(i64), Current(i64) }
#[verifier::external_body]
pub struct File { x: u8 }
pub uninterp spec fn file_at(p: Path) -> Seq<u8>;
// n bytes of c from p on were put at the start of the buffer
pub open spec fn took(c: Seq<u8>, p: int, b: Seq<u8>, d: Seq<u8>, n: int) -> bool {
    0 <= n <= b.len() && p + n <= c.len() && d == c.subrange(p, p + n) + b.skip(n)
}
impl File {
    pub uninterp spec fn content(&self) -> Seq<u8>;
    pub uninterp spec fn pos(&self) -> int;
    #[verifier::external_body]
    pub fn open(p: &Path) -> (r: io::Result<File>) ensures r matches Ok(f) ==> f.content() == file_at(*p) && f.pos() == 0 { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r matches Ok(m) ==> m.n == self.content().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
        requires 0 <= old(self).pos() <= old(self).content().len(),
        ensures
            final(self).content() == old(self).content(), final(buf)@.len() == old(buf)@.len(),
            r matches Ok(n) ==> {
                &&& final(self).pos() == old(self).pos() + n
                &&& took(old(self).content(), old(self).pos(), old(buf)@, final(buf)@, n as int)
            },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn seek(&mut self, to: SeekFrom) -> (r: io::Result<u64>)
        ensures
            final(self).content() == old(self).content(),
            r is Ok && (to matches SeekFrom::Start(n)) ==> final(self).pos() == to->Start_0,
    { unimplemented!() }
}
#[verifier::external_body]
pub fn file_reader(f: File) -> (r: DynReader)
    requires 0 <= f.pos() <= f.content().len(),
    ensures r.rest() == f.content().skip(f.pos())
{ unimplemented!() }
// what the first bytes say it is
pub uninterp spec fn sniffed(b: Seq<u8>) -> Option<&'static str>;
pub uninterp spec fn mime_of(t: Seq<char>) -> Option<Mime>;
pub struct Infer { pub x: u8 }
pub struct Kind { pub x: u8 }
// TRUSTED: the infer crate.
impl Infer {
    #[verifier::external_body]
    pub fn new() -> Infer { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, b: &[u8]) -> (r: Option<Kind>) ensures match r { Some(k) => sniffed(b@) == Some(k.name()), None => sniffed(b@) is None } { unimplemented!() }
}
impl Kind {
    pub uninterp spec fn name(&self) -> &'static str;
    #[verifier::external_body]
    pub fn mime_type(&self) -> (r: &'static str) ensures r == self.name() { unimplemented!() }
}
impl Mime {
    // parsing, discharged in unit mime
    #[verifier::external_body]
    pub fn from_str(s: &str) -> (r: CrateResult<Mime>) ensures match r { Ok(m) => mime_of(s@) == Some(m), Err(_) => mime_of(s@) is None } { unimplemented!() }
}
pub open spec fn sniff_spec(b: Seq<u8>) -> Option<Mime> { match sniffed(b) { Some(t) => mime_of(t@), None => None } }
//@ fn src/mime/mod.rs Mime::sniff
//@ ret r
ensures match sniff_spec(bytes@) { Some(m) => r == Ok::<Mime, Error>(m), None => r is Err },
//@ end
// TRUSTED stand-ins: the predefined media types (their texts are executed in P07).
#[verifier::external_body]
pub fn known(e: Ghost<Mime>) -> (r: Mime) ensures r == e@ { unimplemented!() }
pub uninterp spec fn ATOM() -> Mime;
pub uninterp spec fn AVI() -> Mime;
pub uninterp spec fn BMP() -> Mime;
pub uninterp spec fn CSS() -> Mime;
pub uninterp spec fn HTML() -> Mime;
pub uninterp spec fn ICO() -> Mime;
pub uninterp spec fn JAVASCRIPT() -> Mime;
pub uninterp spec fn M4A() -> Mime;
pub uninterp spec fn MIDI() -> Mime;
pub uninterp spec fn MP3() -> Mime;
pub uninterp spec fn MP4() -> Mime;
pub uninterp spec fn MPEG() -> Mime;
pub uninterp spec fn OGG() -> Mime;
pub uninterp spec fn OTF() -> Mime;
pub uninterp spec fn RSS() -> Mime;
pub uninterp spec fn SEVENZIP() -> Mime;
pub uninterp spec fn SVG() -> Mime;
pub uninterp spec fn TTF() -> Mime;
pub uninterp spec fn WASM() -> Mime;
pub uninterp spec fn WEBM() -> Mime;
pub uninterp spec fn WEBP() -> Mime;
pub uninterp spec fn WOFF() -> Mime;
pub uninterp spec fn WOFF2() -> Mime;
pub uninterp spec fn XML() -> Mime;
pub uninterp spec fn ZIP() -> Mime;
// the media type of files with this extension
pub open spec fn extension_mime(e: Seq<char>) -> Option<Mime> {
    if e == "7z"@ { Some(SEVENZIP()) } else if e == "atom"@ { Some(ATOM()) } else if e == "avi"@ { Some(AVI()) } else if e == "bin"@ { Some(BYTE_STREAM()) } else if e == "exe"@ { Some(BYTE_STREAM()) } else if e == "dll"@ { Some(BYTE_STREAM()) } else if e == "iso"@ { Some(BYTE_STREAM()) } else if e == "img"@ { Some(BYTE_STREAM()) } else if e == "bmp"@ { Some(BMP()) } else if e == "css"@ { Some(CSS()) } else if e == "html"@ { Some(HTML()) } else if e == "ico"@ { Some(ICO()) } else if e == "js"@ { Some(JAVASCRIPT()) } else if e == "mjs"@ { Some(JAVASCRIPT()) } else if e == "jsonp"@ { Some(JAVASCRIPT()) } else if e == "json"@ { Some(JSON()) } else if e == "m4a"@ { Some(M4A()) } else if e == "mid"@ { Some(MIDI()) } else if e == "midi"@ { Some(MIDI()) } else if e == "kar"@ { Some(MIDI()) } else if e == "mp3"@ { Some(MP3()) } else if e == "mp4"@ { Some(MP4()) } else if e == "mpeg"@ { Some(MPEG()) } else if e == "mpg"@ { Some(MPEG()) } else if e == "ogg"@ { Some(OGG()) } else if e == "otf"@ { Some(OTF()) } else if e == "rss"@ { Some(RSS()) } else if e == "svg"@ { Some(SVG()) } else if e == "svgz"@ { Some(SVG()) } else if e == "ttf"@ { Some(TTF()) } else if e == "txt"@ { Some(PLAIN()) } else if e == "wasm"@ { Some(WASM()) } else if e == "webm"@ { Some(WEBM()) } else if e == "webp"@ { Some(WEBP()) } else if e == "woff"@ { Some(WOFF()) } else if e == "woff2"@ { Some(WOFF2()) } else if e == "xml"@ { Some(XML()) } else if e == "zip"@ { Some(ZIP()) } else { None }
}
//@ fn src/mime/mod.rs Mime::from_extension
//@ ret r
//@ rewrite "impl AsRef<str>" => "&str"
//@ rewrite "extension.as_ref()" => "extension"
//@ rewrite "Some(ATOM)" => "Some(known(Ghost(ATOM())))"
//@ rewrite "Some(AVI)" => "Some(known(Ghost(AVI())))"
//@ rewrite "Some(BMP)" => "Some(known(Ghost(BMP())))"
//@ rewrite "Some(BYTE_STREAM)" => "Some(known(Ghost(BYTE_STREAM())))"
//@ rewrite "Some(CSS)" => "Some(known(Ghost(CSS())))"
//@ rewrite "Some(HTML)" => "Some(known(Ghost(HTML())))"
//@ rewrite "Some(ICO)" => "Some(known(Ghost(ICO())))"
//@ rewrite "Some(JAVASCRIPT)" => "Some(known(Ghost(JAVASCRIPT())))"
//@ rewrite "Some(JSON)" => "Some(known(Ghost(JSON())))"
//@ rewrite "Some(M4A)" => "Some(known(Ghost(M4A())))"
//@ rewrite "Some(MIDI)" => "Some(known(Ghost(MIDI())))"
//@ rewrite "Some(MP3)" => "Some(known(Ghost(MP3())))"
//@ rewrite "Some(MP4)" => "Some(known(Ghost(MP4())))"
//@ rewrite "Some(MPEG)" => "Some(known(Ghost(MPEG())))"
//@ rewrite "Some(OGG)" => "Some(known(Ghost(OGG())))"
//@ rewrite "Some(OTF)" => "Some(known(Ghost(OTF())))"
//@ rewrite "Some(PLAIN)" => "Some(known(Ghost(PLAIN())))"
//@ rewrite "Some(RSS)" => "Some(known(Ghost(RSS())))"
//@ rewrite "Some(SEVENZIP)" => "Some(known(Ghost(SEVENZIP())))"
//@ rewrite "Some(SVG)" => "Some(known(Ghost(SVG())))"
//@ rewrite "Some(TTF)" => "Some(known(Ghost(TTF())))"
//@ rewrite "Some(WASM)" => "Some(known(Ghost(WASM())))"
//@ rewrite "Some(WEBM)" => "Some(known(Ghost(WEBM())))"
//@ rewrite "Some(WEBP)" => "Some(known(Ghost(WEBP())))"
//@ rewrite "Some(WOFF)" => "Some(known(Ghost(WOFF())))"
//@ rewrite "Some(WOFF2)" => "Some(known(Ghost(WOFF2())))"
//@ rewrite "Some(XML)" => "Some(known(Ghost(XML())))"
//@ rewrite "Some(ZIP)" => "Some(known(Ghost(ZIP())))"
ensures r == extension_mime(extension@),
//@ at start
proof { broadcast use axiom_str_ext;
reveal_strlit("7z"); reveal_strlit("atom"); reveal_strlit("avi"); reveal_strlit("bin"); reveal_strlit("exe"); reveal_strlit("dll"); reveal_strlit("iso"); reveal_strlit("img"); reveal_strlit("bmp"); reveal_strlit("css"); reveal_strlit("html"); reveal_strlit("ico"); reveal_strlit("js"); reveal_strlit("mjs"); reveal_strlit("jsonp"); reveal_strlit("json"); reveal_strlit("m4a"); reveal_strlit("mid"); reveal_strlit("midi"); reveal_strlit("kar"); reveal_strlit("mp3"); reveal_strlit("mp4"); reveal_strlit("mpeg"); reveal_strlit("mpg"); reveal_strlit("ogg"); reveal_strlit("otf"); reveal_strlit("rss"); reveal_strlit("svg"); reveal_strlit("svgz"); reveal_strlit("ttf"); reveal_strlit("txt"); reveal_strlit("wasm"); reveal_strlit("webm"); reveal_strlit("webp"); reveal_strlit("woff"); reveal_strlit("woff2"); reveal_strlit("xml"); reveal_strlit("zip"); 
assert("7z"@[0] != "js"@[0]); assert("atom"@[0] != "html"@[0]); assert("atom"@[0] != "json"@[0]); assert("atom"@[0] != "midi"@[0]); assert("atom"@[0] != "mpeg"@[0]); assert("atom"@[0] != "svgz"@[0]); assert("atom"@[0] != "wasm"@[0]); assert("atom"@[0] != "webm"@[0]); assert("atom"@[0] != "webp"@[0]); assert("atom"@[0] != "woff"@[0]); assert("avi"@[0] != "bin"@[0]); assert("avi"@[0] != "exe"@[0]); assert("avi"@[0] != "dll"@[0]); assert("avi"@[0] != "iso"@[0]); assert("avi"@[0] != "img"@[0]); assert("avi"@[0] != "bmp"@[0]); assert("avi"@[0] != "css"@[0]); assert("avi"@[0] != "ico"@[0]); assert("avi"@[0] != "mjs"@[0]); assert("avi"@[0] != "m4a"@[0]); assert("avi"@[0] != "mid"@[0]); assert("avi"@[0] != "kar"@[0]); assert("avi"@[0] != "mp3"@[0]); assert("avi"@[0] != "mp4"@[0]); assert("avi"@[0] != "mpg"@[0]); assert("avi"@[0] != "ogg"@[0]); assert("avi"@[0] != "otf"@[0]); assert("avi"@[0] != "rss"@[0]); assert("avi"@[0] != "svg"@[0]); assert("avi"@[0] != "ttf"@[0]); assert("avi"@[0] != "txt"@[0]); assert("avi"@[0] != "xml"@[0]); assert("avi"@[0] != "zip"@[0]); assert("bin"@[0] != "exe"@[0]); assert("bin"@[0] != "dll"@[0]); assert("bin"@[0] != "iso"@[0]); assert("bin"@[0] != "img"@[0]); assert("bin"@[1] != "bmp"@[1]); assert("bin"@[0] != "css"@[0]); assert("bin"@[0] != "ico"@[0]); assert("bin"@[0] != "mjs"@[0]); assert("bin"@[0] != "m4a"@[0]); assert("bin"@[0] != "mid"@[0]); assert("bin"@[0] != "kar"@[0]); assert("bin"@[0] != "mp3"@[0]); assert("bin"@[0] != "mp4"@[0]); assert("bin"@[0] != "mpg"@[0]); assert("bin"@[0] != "ogg"@[0]); assert("bin"@[0] != "otf"@[0]); assert("bin"@[0] != "rss"@[0]); assert("bin"@[0] != "svg"@[0]); assert("bin"@[0] != "ttf"@[0]); assert("bin"@[0] != "txt"@[0]); assert("bin"@[0] != "xml"@[0]); assert("bin"@[0] != "zip"@[0]); assert("exe"@[0] != "dll"@[0]); assert("exe"@[0] != "iso"@[0]); assert("exe"@[0] != "img"@[0]); assert("exe"@[0] != "bmp"@[0]); assert("exe"@[0] != "css"@[0]); assert("exe"@[0] != "ico"@[0]); assert("exe"@[0] != "mjs"@[0]); assert("exe"@[0] != "m4a"@[0]); assert("exe"@[0] != "mid"@[0]); assert("exe"@[0] != "kar"@[0]); assert("exe"@[0] != "mp3"@[0]); assert("exe"@[0] != "mp4"@[0]); assert("exe"@[0] != "mpg"@[0]); assert("exe"@[0] != "ogg"@[0]); assert("exe"@[0] != "otf"@[0]); assert("exe"@[0] != "rss"@[0]); assert("exe"@[0] != "svg"@[0]); assert("exe"@[0] != "ttf"@[0]); assert("exe"@[0] != "txt"@[0]); assert("exe"@[0] != "xml"@[0]); assert("exe"@[0] != "zip"@[0]); assert("dll"@[0] != "iso"@[0]); assert("dll"@[0] != "img"@[0]); assert("dll"@[0] != "bmp"@[0]); assert("dll"@[0] != "css"@[0]); assert("dll"@[0] != "ico"@[0]); assert("dll"@[0] != "mjs"@[0]); assert("dll"@[0] != "m4a"@[0]); assert("dll"@[0] != "mid"@[0]); assert("dll"@[0] != "kar"@[0]); assert("dll"@[0] != "mp3"@[0]); assert("dll"@[0] != "mp4"@[0]); assert("dll"@[0] != "mpg"@[0]); assert("dll"@[0] != "ogg"@[0]); assert("dll"@[0] != "otf"@[0]); assert("dll"@[0] != "rss"@[0]); assert("dll"@[0] != "svg"@[0]); assert("dll"@[0] != "ttf"@[0]); assert("dll"@[0] != "txt"@[0]); assert("dll"@[0] != "xml"@[0]); assert("dll"@[0] != "zip"@[0]); assert("iso"@[1] != "img"@[1]); assert("iso"@[0] != "bmp"@[0]); assert("iso"@[0] != "css"@[0]); assert("iso"@[1] != "ico"@[1]); assert("iso"@[0] != "mjs"@[0]); assert("iso"@[0] != "m4a"@[0]); assert("iso"@[0] != "mid"@[0]); assert("iso"@[0] != "kar"@[0]); assert("iso"@[0] != "mp3"@[0]); assert("iso"@[0] != "mp4"@[0]); assert("iso"@[0] != "mpg"@[0]); assert("iso"@[0] != "ogg"@[0]); assert("iso"@[0] != "otf"@[0]); assert("iso"@[0] != "rss"@[0]); assert("iso"@[0] != "svg"@[0]); assert("iso"@[0] != "ttf"@[0]); assert("iso"@[0] != "txt"@[0]); assert("iso"@[0] != "xml"@[0]); assert("iso"@[0] != "zip"@[0]); assert("img"@[0] != "bmp"@[0]); assert("img"@[0] != "css"@[0]); assert("img"@[1] != "ico"@[1]); assert("img"@[0] != "mjs"@[0]); assert("img"@[0] != "m4a"@[0]); assert("img"@[0] != "mid"@[0]); assert("img"@[0] != "kar"@[0]); assert("img"@[0] != "mp3"@[0]); assert("img"@[0] != "mp4"@[0]); assert("img"@[0] != "mpg"@[0]); assert("img"@[0] != "ogg"@[0]); assert("img"@[0] != "otf"@[0]); assert("img"@[0] != "rss"@[0]); assert("img"@[0] != "svg"@[0]); assert("img"@[0] != "ttf"@[0]); assert("img"@[0] != "txt"@[0]); assert("img"@[0] != "xml"@[0]); assert("img"@[0] != "zip"@[0]); assert("bmp"@[0] != "css"@[0]); assert("bmp"@[0] != "ico"@[0]); assert("bmp"@[0] != "mjs"@[0]); assert("bmp"@[0] != "m4a"@[0]); assert("bmp"@[0] != "mid"@[0]); assert("bmp"@[0] != "kar"@[0]); assert("bmp"@[0] != "mp3"@[0]); assert("bmp"@[0] != "mp4"@[0]); assert("bmp"@[0] != "mpg"@[0]); assert("bmp"@[0] != "ogg"@[0]); assert("bmp"@[0] != "otf"@[0]); assert("bmp"@[0] != "rss"@[0]); assert("bmp"@[0] != "svg"@[0]); assert("bmp"@[0] != "ttf"@[0]); assert("bmp"@[0] != "txt"@[0]); assert("bmp"@[0] != "xml"@[0]); assert("bmp"@[0] != "zip"@[0]); assert("css"@[0] != "ico"@[0]); assert("css"@[0] != "mjs"@[0]); assert("css"@[0] != "m4a"@[0]); assert("css"@[0] != "mid"@[0]); assert("css"@[0] != "kar"@[0]); assert("css"@[0] != "mp3"@[0]); assert("css"@[0] != "mp4"@[0]); assert("css"@[0] != "mpg"@[0]); assert("css"@[0] != "ogg"@[0]); assert("css"@[0] != "otf"@[0]); assert("css"@[0] != "rss"@[0]); assert("css"@[0] != "svg"@[0]); assert("css"@[0] != "ttf"@[0]); assert("css"@[0] != "txt"@[0]); assert("css"@[0] != "xml"@[0]); assert("css"@[0] != "zip"@[0]); assert("html"@[0] != "json"@[0]); assert("html"@[0] != "midi"@[0]); assert("html"@[0] != "mpeg"@[0]); assert("html"@[0] != "svgz"@[0]); assert("html"@[0] != "wasm"@[0]); assert("html"@[0] != "webm"@[0]); assert("html"@[0] != "webp"@[0]); assert("html"@[0] != "woff"@[0]); assert("ico"@[0] != "mjs"@[0]); assert("ico"@[0] != "m4a"@[0]); assert("ico"@[0] != "mid"@[0]); assert("ico"@[0] != "kar"@[0]); assert("ico"@[0] != "mp3"@[0]); assert("ico"@[0] != "mp4"@[0]); assert("ico"@[0] != "mpg"@[0]); assert("ico"@[0] != "ogg"@[0]); assert("ico"@[0] != "otf"@[0]); assert("ico"@[0] != "rss"@[0]); assert("ico"@[0] != "svg"@[0]); assert("ico"@[0] != "ttf"@[0]); assert("ico"@[0] != "txt"@[0]); assert("ico"@[0] != "xml"@[0]); assert("ico"@[0] != "zip"@[0]); assert("mjs"@[1] != "m4a"@[1]); assert("mjs"@[1] != "mid"@[1]); assert("mjs"@[0] != "kar"@[0]); assert("mjs"@[1] != "mp3"@[1]); assert("mjs"@[1] != "mp4"@[1]); assert("mjs"@[1] != "mpg"@[1]); assert("mjs"@[0] != "ogg"@[0]); assert("mjs"@[0] != "otf"@[0]); assert("mjs"@[0] != "rss"@[0]); assert("mjs"@[0] != "svg"@[0]); assert("mjs"@[0] != "ttf"@[0]); assert("mjs"@[0] != "txt"@[0]); assert("mjs"@[0] != "xml"@[0]); assert("mjs"@[0] != "zip"@[0]); assert("jsonp"@[0] != "woff2"@[0]); assert("json"@[0] != "midi"@[0]); assert("json"@[0] != "mpeg"@[0]); assert("json"@[0] != "svgz"@[0]); assert("json"@[0] != "wasm"@[0]); assert("json"@[0] != "webm"@[0]); assert("json"@[0] != "webp"@[0]); assert("json"@[0] != "woff"@[0]); assert("m4a"@[1] != "mid"@[1]); assert("m4a"@[0] != "kar"@[0]); assert("m4a"@[1] != "mp3"@[1]); assert("m4a"@[1] != "mp4"@[1]); assert("m4a"@[1] != "mpg"@[1]); assert("m4a"@[0] != "ogg"@[0]); assert("m4a"@[0] != "otf"@[0]); assert("m4a"@[0] != "rss"@[0]); assert("m4a"@[0] != "svg"@[0]); assert("m4a"@[0] != "ttf"@[0]); assert("m4a"@[0] != "txt"@[0]); assert("m4a"@[0] != "xml"@[0]); assert("m4a"@[0] != "zip"@[0]); assert("mid"@[0] != "kar"@[0]); assert("mid"@[1] != "mp3"@[1]); assert("mid"@[1] != "mp4"@[1]); assert("mid"@[1] != "mpg"@[1]); assert("mid"@[0] != "ogg"@[0]); assert("mid"@[0] != "otf"@[0]); assert("mid"@[0] != "rss"@[0]); assert("mid"@[0] != "svg"@[0]); assert("mid"@[0] != "ttf"@[0]); assert("mid"@[0] != "txt"@[0]); assert("mid"@[0] != "xml"@[0]); assert("mid"@[0] != "zip"@[0]); assert("midi"@[1] != "mpeg"@[1]); assert("midi"@[0] != "svgz"@[0]); assert("midi"@[0] != "wasm"@[0]); assert("midi"@[0] != "webm"@[0]); assert("midi"@[0] != "webp"@[0]); assert("midi"@[0] != "woff"@[0]); assert("kar"@[0] != "mp3"@[0]); assert("kar"@[0] != "mp4"@[0]); assert("kar"@[0] != "mpg"@[0]); assert("kar"@[0] != "ogg"@[0]); assert("kar"@[0] != "otf"@[0]); assert("kar"@[0] != "rss"@[0]); assert("kar"@[0] != "svg"@[0]); assert("kar"@[0] != "ttf"@[0]); assert("kar"@[0] != "txt"@[0]); assert("kar"@[0] != "xml"@[0]); assert("kar"@[0] != "zip"@[0]); assert("mp3"@[2] != "mp4"@[2]); assert("mp3"@[2] != "mpg"@[2]); assert("mp3"@[0] != "ogg"@[0]); assert("mp3"@[0] != "otf"@[0]); assert("mp3"@[0] != "rss"@[0]); assert("mp3"@[0] != "svg"@[0]); assert("mp3"@[0] != "ttf"@[0]); assert("mp3"@[0] != "txt"@[0]); assert("mp3"@[0] != "xml"@[0]); assert("mp3"@[0] != "zip"@[0]); assert("mp4"@[2] != "mpg"@[2]); assert("mp4"@[0] != "ogg"@[0]); assert("mp4"@[0] != "otf"@[0]); assert("mp4"@[0] != "rss"@[0]); assert("mp4"@[0] != "svg"@[0]); assert("mp4"@[0] != "ttf"@[0]); assert("mp4"@[0] != "txt"@[0]); assert("mp4"@[0] != "xml"@[0]); assert("mp4"@[0] != "zip"@[0]); assert("mpeg"@[0] != "svgz"@[0]); assert("mpeg"@[0] != "wasm"@[0]); assert("mpeg"@[0] != "webm"@[0]); assert("mpeg"@[0] != "webp"@[0]); assert("mpeg"@[0] != "woff"@[0]); assert("mpg"@[0] != "ogg"@[0]); assert("mpg"@[0] != "otf"@[0]); assert("mpg"@[0] != "rss"@[0]); assert("mpg"@[0] != "svg"@[0]); assert("mpg"@[0] != "ttf"@[0]); assert("mpg"@[0] != "txt"@[0]); assert("mpg"@[0] != "xml"@[0]); assert("mpg"@[0] != "zip"@[0]); assert("ogg"@[1] != "otf"@[1]); assert("ogg"@[0] != "rss"@[0]); assert("ogg"@[0] != "svg"@[0]); assert("ogg"@[0] != "ttf"@[0]); assert("ogg"@[0] != "txt"@[0]); assert("ogg"@[0] != "xml"@[0]); assert("ogg"@[0] != "zip"@[0]); assert("otf"@[0] != "rss"@[0]); assert("otf"@[0] != "svg"@[0]); assert("otf"@[0] != "ttf"@[0]); assert("otf"@[0] != "txt"@[0]); assert("otf"@[0] != "xml"@[0]); assert("otf"@[0] != "zip"@[0]); assert("rss"@[0] != "svg"@[0]); assert("rss"@[0] != "ttf"@[0]); assert("rss"@[0] != "txt"@[0]); assert("rss"@[0] != "xml"@[0]); assert("rss"@[0] != "zip"@[0]); assert("svg"@[0] != "ttf"@[0]); assert("svg"@[0] != "txt"@[0]); assert("svg"@[0] != "xml"@[0]); assert("svg"@[0] != "zip"@[0]); assert("svgz"@[0] != "wasm"@[0]); assert("svgz"@[0] != "webm"@[0]); assert("svgz"@[0] != "webp"@[0]); assert("svgz"@[0] != "woff"@[0]); assert("ttf"@[1] != "txt"@[1]); assert("ttf"@[0] != "xml"@[0]); assert("ttf"@[0] != "zip"@[0]); assert("txt"@[0] != "xml"@[0]); assert("txt"@[0] != "zip"@[0]); assert("wasm"@[1] != "webm"@[1]); assert("wasm"@[1] != "webp"@[1]); assert("wasm"@[1] != "woff"@[1]); assert("webm"@[3] != "webp"@[3]); assert("webm"@[1] != "woff"@[1]); assert("webp"@[1] != "woff"@[1]); assert("xml"@[0] != "zip"@[0]); 
}
//@ end

//@ fn src/body.rs guess_ext
//@ ret r
//@ rewrite "std::path::Path" => "Path"
//@ closure 0 types="&OsText" ret="y: Option<&str>"
ensures match y { Some(e) => os_text(*p) == Some(e@), None => os_text(*p) is None },
//@ spec
ensures r == guessed(*path),
//@ end
pub open spec fn guessed(p: Path) -> Option<Mime> {
    match extension_of(p) { Some(x) => match os_text(x) { Some(e) => extension_mime(e), None => None }, None => None }
}
// the bytes the media type is guessed from: an initial part of the file, zeros up to 300
pub open spec fn seen(c: Seq<u8>, n: int) -> Seq<u8> { c.subrange(0, n) + Seq::new((300 - n) as nat, |i: int| 0u8) }
//@ fn src/body.rs peek_mime
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "async_std::fs::File" => "File"
//@ rewrite "io::SeekFrom" => "SeekFrom"
//@ ret r
requires old(file).pos() == 0,
ensures
    r is Ok ==> final(file).pos() == 0 && final(file).content() == old(file).content(),
    r matches Ok(m) ==> exists|n: int| 0 <= n <= 300 && n <= old(file).content().len() && m == sniff_spec(#[trigger] seen(old(file).content(), n)),
//@ at stmt 1
let ghost b0 = buf@;
let ghost f0 = *file;
//@ at stmt 2
proof {
    let n = choose|n: int| took(f0.content(), 0, b0, buf@, n);
    assert(took(f0.content(), 0, b0, buf@, n));
    assert(buf@ =~= seen(f0.content(), n));
}
//@ end
//@ fn src/body.rs Body::from_file_with_path
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "async_std::fs::File" => "File"
//@ rewrite "std::path::Path" => "Path"
//@ rewrite "Box::new(io::BufReader::new(file))" => "file_reader(file)"
//@ rewrite "mime::BYTE_STREAM" => "mime::byte_stream()"
//@ closure 0 ret="y: Option<Mime>"
ensures y == guessed(*path),
//@ spec
//@ ret r
requires file.pos() == 0,
ensures r matches Ok(b) ==> of_file(b, file.content(), *path),
//@ end
pub open spec fn of_file(b: Body, c: Seq<u8>, p: Path) -> bool {
    exists|n: int| 0 <= n <= 300 && n <= c.len() && holds(b, c, match sniff_spec(#[trigger] seen(c, n)) { Some(m) => m, None => match guessed(p) { Some(m) => m, None => BYTE_STREAM() } })
}
//@ fn src/body.rs Body::from_file
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "async_std::fs::File" => "File"
//@ rewrite "std::path::Path::new(\"\")" => "&no_path()"
//@ ret r
requires file.pos() == 0,
ensures r matches Ok(b) ==> exists|p: Path| extension_of(p) is None && #[trigger] of_file(b, file.content(), p),
//@ end
//@ fn src/body.rs Body::from_path
//@ rewrite "async fn" => "fn"
//@ rewrite ".await" => ""
//@ rewrite "async_std::fs::File" => "File"
//@ rewrite "path: P" => "path: &Path"
//@ rewrite "<P>" => ""
//@ rewrite "P: AsRef<std::path::Path>," => ""
//@ rewrite "where" => ""
//@ rewrite "path.as_ref()" => "path"
//@ ret r
ensures r matches Ok(b) ==> of_file(b, file_at(*path), *path),
//@ end
}
fn main() {}
