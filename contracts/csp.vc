//@ # P16: Content-Security-Policy.
//@ include hdr.inc
//@ include hmap.inc
//@ item src/security/csp.rs enum Source
pub open spec fn source_text(s: Source) -> Seq<char> {
    match s {
        Source::SameOrigin => "'self'"@,
        Source::Src => "'src'"@,
        Source::None => "'none'"@,
        Source::UnsafeInline => "'unsafe-inline'"@,
        Source::Data => "data:"@,
        Source::Mediastream => "mediastream:"@,
        Source::Https => "https:"@,
        Source::Blob => "blob:"@,
        Source::Filesystem => "filesystem:"@,
        Source::StrictDynamic => "'strict-dynamic'"@,
        Source::UnsafeEval => "'unsafe-eval'"@,
        Source::Wildcard => "*"@,
    }
}
impl Show for Source { open spec fn shown(&self) -> Seq<char> { source_text(*self) } }
impl Source {
//@ fn src/security/csp.rs <Source as fmt::Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() == old(f).text() + self.shown(),
//@ fmt
//@ end
//@ fn src/security/csp.rs <Source as AsRef<str>>::as_ref
//@ bare
//@ rename source_str
//@ ret r
ensures r@ == source_text(*self),
//@ end
}
// AsRef<str>, by what it yields
pub trait Textual { spec fn text_of(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.text_of(); }
impl Textual for Source {
    open spec fn text_of(&self) -> Seq<char> { source_text(*self) }
    fn as_ref(&self) -> (r: &str) { self.source_str() }
}
impl<'a> Textual for &'a str {
    open spec fn text_of(&self) -> Seq<char> { self@ }
    fn as_ref(&self) -> (r: &str) { *self }
}
//@ item src/security/csp.rs struct ContentSecurityPolicy
pub open spec fn strs(v: Seq<String>) -> Seq<Seq<char>> { v.map_values(|s: String| s@) }
// TRUSTED: HashMap<String, Vec<String>> as a map from names to source lists.
pub uninterp spec fn dirs(m: HashMap<String, Vec<String>>) -> Map<Seq<char>, Seq<Seq<char>>>;
#[verifier::external_body]
pub fn new_dirs() -> (r: HashMap<String, Vec<String>>) ensures dirs(r) == Map::<Seq<char>, Seq<Seq<char>>>::empty() { HashMap::new() }
// entry(k).or_insert_with(Vec::new)
#[verifier::external_body]
pub fn entry_or_new<'a>(m: &'a mut HashMap<String, Vec<String>>, k: String) -> (r: &'a mut Vec<String>)
    ensures
        strs(r@) == hvals(dirs(*old(m)), k@),
        dirs(*final(m)) == dirs(*old(m)).insert(k@, strs(final(r)@)),
{ m.entry(k).or_insert_with(Vec::new) }
pub type Ds = Seq<(Seq<char>, Seq<Seq<char>>)>;
pub open spec fn ds_of(v: Seq<(&String, &Vec<String>)>) -> Ds { v.map_values(|p: (&String, &Vec<String>)| (p.0@, strs(p.1@))) }
// the entries of a map in some order
pub open spec fn lists(ds: Ds, m: Map<Seq<char>, Seq<Seq<char>>>) -> bool {
    (forall|i: int, j: int| 0 <= i < j < ds.len() ==> (#[trigger] ds[i]).0 != (#[trigger] ds[j]).0)
    && (forall|i: int| 0 <= i < ds.len() ==> m.dom().contains((#[trigger] ds[i]).0) && m[ds[i].0] == ds[i].1)
    && (forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < ds.len() && (#[trigger] ds[i]).0 == k)
}
#[verifier::external_body]
pub fn entries<'a>(m: &'a HashMap<String, Vec<String>>) -> (r: Vec<(&'a String, &'a Vec<String>)>) ensures lists(ds_of(r@), dirs(*m)) { m.iter().collect() }
// [String]::join
pub open spec fn join(xs: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases xs.len() {
    if xs.len() == 0 { seq![] } else if xs.len() == 1 { xs[0] } else { join(xs.drop_last(), sep) + sep + xs.last() }
}
#[verifier::external_body]
pub fn strs_join(v: &Vec<String>, sep: &str) -> (r: String) ensures r@ == join(strs(v@), sep@) { v.join(sep) }
// the order of texts
pub uninterp spec fn text_le(a: Seq<char>, b: Seq<char>) -> bool;
pub open spec fn sorted(v: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> text_le(#[trigger] v[i], #[trigger] v[j]) }
#[verifier::external_body]
pub fn strs_sort(v: &mut Vec<String>) ensures sorted(strs(final(v)@)), strs(final(v)@).to_multiset() == strs(old(v)@).to_multiset() { v.sort() }
#[verifier::external_body]
pub fn strs_clone(v: &Vec<String>) -> (r: Vec<String>) ensures strs(r@) == strs(v@) { v.clone() }
pub type Pv = (Seq<Seq<char>>, bool, Map<Seq<char>, Seq<Seq<char>>>);
pub open spec fn pv(p: ContentSecurityPolicy) -> Pv { (strs(p.policy@), p.report_only_flag, dirs(p.directives)) }
pub open spec fn with_source(p: Pv, d: Seq<char>, s: Seq<char>) -> Pv { (p.0, p.1, p.2.insert(d, hvals(p.2, d).push(s))) }
pub proof fn lemma_strs_push(v: Seq<String>, s: String) ensures strs(v.push(s)) == strs(v).push(s@) { assert(strs(v.push(s)) =~= strs(v).push(s@)); }
impl ContentSecurityPolicy {
//@ fn src/security/csp.rs <ContentSecurityPolicy as Default>::default
//@ bare
//@ ret r
ensures pv(r) == (seq!["script-src 'self'; object-src 'self'"@], false, Map::<Seq<char>, Seq<Seq<char>>>::empty()),
//@ rewrite "String::from(" => "str::to_owned("
//@ rewrite "HashMap::new()" => "new_dirs()"
//@ at tail
proof { let e: Seq<String> = seq![policy]; assert(strs(e) =~= seq!["script-src 'self'; object-src 'self'"@]); }
//@ end
}
//@ fn src/security/csp.rs ContentSecurityPolicy::new
//@ ret r
ensures pv(r) == (Seq::<Seq<char>>::empty(), false, Map::<Seq<char>, Seq<Seq<char>>>::empty()),
//@ rewrite "HashMap::new()" => "new_dirs()"
//@ at start
proof { assert(strs(seq![]) =~= seq![]); }
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::insert_directive
ensures pv(*final(self)) == with_source(pv(*old(self)), directive@, source.text_of()),
//@ rewrite "AsRef<str>" => "Textual"
//@ rewrite "String::from(directive)" => "str::to_owned(directive)"
//@ rewrite "self.directives.entry(directive).or_insert_with(Vec::new)" => "entry_or_new(&mut self.directives, directive)"
//@ rewrite "source.as_ref().to_string()" => "str::to_owned(source.as_ref())"
//@ at before-call push#0
proof { lemma_strs_push(directives@, source); }
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::base_uri
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "base-uri"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::connect_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "connect-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::default_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "default-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::font_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "font-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::form_action
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "form-action"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::frame_ancestors
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "frame-ancestors"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::frame_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "frame-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::img_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "img-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::media_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "media-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::object_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "object-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::plugin_types
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "plugin-types"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::require_sri_for
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "require-sri-for"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::report_uri
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "report-uri"@, uri.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::sandbox
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "sandbox"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::script_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "script-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::style_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "style-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::worker_src
//@ ret r
ensures pv(*r) == with_source(pv(*old(self)), "worker-src"@, source.text_of()), *final(self) == *final(r),
//@ rewrite "AsRef<str>" => "Textual"
//@ end
//@ item src/security/csp.rs struct ReportToEndpoint
//@ item src/security/csp.rs struct ReportTo
// TRUSTED: serde_json's text of an endpoint group.
pub uninterp spec fn json_of(r: ReportTo) -> Option<Seq<char>>;
#[verifier::external_body]
pub fn json_text(r: &ReportTo) -> (x: Result<String, Error>) ensures match json_of(*r) { Some(t) => x is Ok && x->Ok_0@ == t, None => x is Err } { unimplemented!() }
// one policy for each group that has a text, in order
pub open spec fn groups_added(ps: Seq<Seq<char>>, es: Seq<ReportTo>) -> Seq<Seq<char>> decreases es.len() {
    if es.len() == 0 { ps } else {
        let q = groups_added(ps, es.drop_last());
        match json_of(es.last()) { Some(t) => q.push("report-to "@ + t), None => q }
    }
}
//@ fn src/security/csp.rs ContentSecurityPolicy::report_to
//@ ret r
//@ fmt
ensures pv(*r) == (groups_added(pv(*old(self)).0, endpoints@), pv(*old(self)).1, pv(*old(self)).2), *final(self) == *final(r),
//@ rewrite "serde_json::to_string(&endpoint)" => "json_text(endpoint)"
//@ rewrite "println!(\"{:?}\", error);" => ""
//@ at start
let ghost ps0 = strs(self.policy@);
//@ loop 0 it=it
invariant
    it.seq() == endpoints@.map_values(|e: ReportTo| &e),
    pv(*self) == (groups_added(ps0, endpoints@.take(it.index@)), pv(*old(self)).1, pv(*old(self)).2),
//@ at loop 0 start
proof {
    let n = it.index@;
    assert(endpoints@.take(n + 1).drop_last() =~= endpoints@.take(n));
    reveal_strlit("report-to ");
}
//@ at before-call push#0
proof { lemma_strs_push(self.policy@, policy); assert(Seq::<char>::empty() + "report-to "@ =~= "report-to "@); }
//@ at tail
proof { assert(endpoints@.take(endpoints@.len() as int) =~= endpoints@); }
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::block_all_mixed_content
//@ ret r
ensures pv(*r) == (pv(*old(self)).0.push("block-all-mixed-content"@), pv(*old(self)).1, pv(*old(self)).2), *final(self) == *final(r),
//@ rewrite "String::from(" => "str::to_owned("
//@ at before-call push#0
proof { lemma_strs_push(self.policy@, policy); }
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::upgrade_insecure_requests
//@ ret r
ensures pv(*r) == (pv(*old(self)).0.push("upgrade-insecure-requests"@), pv(*old(self)).1, pv(*old(self)).2), *final(self) == *final(r),
//@ rewrite "String::from(" => "str::to_owned("
//@ at before-call push#0
proof { lemma_strs_push(self.policy@, policy); }
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::report_only
//@ ret r
ensures pv(*r) == (pv(*old(self)).0, true, pv(*old(self)).2), *final(self) == *final(r),
//@ end
pub open spec fn dir_text(d: (Seq<char>, Seq<Seq<char>>)) -> Seq<char> { d.0 + " "@ + join(d.1, " "@) }
pub open spec fn dir_texts(ds: Ds) -> Seq<Seq<char>> { ds.map_values(|d: (Seq<char>, Seq<Seq<char>>)| dir_text(d)) }
// the policies and every directive with its sources in order, once each, sorted when there is a directive
pub open spec fn arranged(p: Pv, ds: Ds, ps: Seq<Seq<char>>) -> bool {
    lists(ds, p.2) && ps.to_multiset() == (p.0 + dir_texts(ds)).to_multiset() && (ds.len() > 0 ==> sorted(ps)) && (ds.len() == 0 ==> ps == p.0)
}
pub open spec fn policy_value(p: Pv, v: Seq<char>) -> bool { exists|ds: Ds, ps: Seq<Seq<char>>| #[trigger] arranged(p, ds, ps) && v == join(ps, "; "@) }
//@ fn src/security/csp.rs ContentSecurityPolicy::value
//@ ret r
ensures policy_value(pv(*old(self)), r@), *final(self) == *old(self),
//@ fmt
//@ attr #[verifier::loop_isolation(false)]
//@ rewrite "self.policy.clone()" => "strs_clone(&self.policy)"
//@ rewrite "&self.directives" => "vx_entries"
//@ rewrite "sources.join(\" \")" => "strs_join(sources, \" \")"
//@ rewrite "policies.sort()" => "strs_sort(&mut policies)"
//@ rewrite "policies.join(\"; \")" => "strs_join(&policies, \"; \")"
//@ at start
let ghost p = pv(*self);
let vx_entries = entries(&self.directives);
let ghost g = ds_of(vx_entries@);
proof { reveal_strlit(" "); reveal_strlit("; "); }
//@ loop 0 it=it
invariant
    lists(ds_of(it.seq()), p.2),
    strs(policies@).to_multiset() == (p.0 + dir_texts(ds_of(it.seq()).subrange(0, it.index@))).to_multiset(),
    it.index@ > 0 ==> sorted(strs(policies@)),
    it.index@ == 0 ==> strs(policies@) == p.0,
    ds_of(it.seq()) == g,
//@ at loop 0 before
proof { let e: Ds = seq![]; assert(p.0 + dir_texts(e) =~= p.0); assert forall|x: Ds| x.len() == 0 implies #[trigger] dir_texts(x) == dir_texts(e) by { assert(x =~= e); } }
//@ at loop 0 start
let ghost k = it.index@;
let ghost all = g;
let ghost before = strs(policies@);
proof {
    let d = all[k];
    assert(all.subrange(0, k + 1) =~= all.subrange(0, k).push(d));
    assert(dir_texts(all.subrange(0, k + 1)) =~= dir_texts(all.subrange(0, k)).push(dir_text(d)));
    let a = p.0 + dir_texts(all.subrange(0, k));
    assert(p.0 + dir_texts(all.subrange(0, k + 1)) =~= a.push(dir_text(d)));
    a.to_multiset_ensures();
    before.to_multiset_ensures();
}
//@ at before-call sort#0
proof {
    assert(strs(policies@) =~= before.push(policy@));
    assert(policy@ =~= dir_text(all[k]));
}
//@ at loop 0 after
proof { assert(g.subrange(0, g.len() as int) =~= g); }
//@ at tail
proof { assert(arranged(p, g, strs(policies@))); }
//@ end
//@ fn src/security/csp.rs ContentSecurityPolicy::apply
requires forall|v: Seq<char>| #[trigger] policy_value(pv(*old(self)), v) ==> ascii_chars(v),
ensures
    exists|v: Seq<char>| #[trigger] policy_value(pv(*old(self)), v) && htexts(final(headers)) == htexts(old(headers)).insert(if pv(*old(self)).1 { "content-security-policy-report-only"@ } else { "content-security-policy"@ }, seq![v]),
    *final(self) == *old(self),
//@ rewrite "mut headers: impl AsMut<Headers>" => "headers: &mut Headers"
//@ rewrite ".as_mut()" => ""
//@ at start
proof {
    reveal_strlit("Content-Security-Policy-Report-Only"); reveal_strlit("Content-Security-Policy"); reveal_strlit("content-security-policy-report-only"); reveal_strlit("content-security-policy");
    assert(lower("Content-Security-Policy-Report-Only"@) =~= "content-security-policy-report-only"@);
    assert(lower("Content-Security-Policy"@) =~= "content-security-policy"@);
}
//@ end
}
fn main() {}
