//@ # P14: trace contexts (traceparent).
//@ include hdr.inc
//@ include nums.inc
//@ include hex.inc
pub mod fastrand {
    // TRUSTED: any number at all.
    #[verifier::external_body]
    pub fn u64(r: std::ops::RangeFull) -> u64 { unimplemented!() }
    #[verifier::external_body]
    pub fn u128(r: std::ops::RangeFull) -> u128 { unimplemented!() }
}
//@ item src/trace/trace_context.rs struct TraceContext
pub struct Trace { pub version: u8, pub trace_id: u128, pub parent_id: u64, pub flags: u8 }
// the four hexadecimal fields of a traceparent, separated by dashes
pub open spec fn trace(s: Seq<char>) -> Option<Trace> {
    let p = splits(s, '-');
    if p.len() < 4 { None } else {
        match (hex_num(p[0], u8::MAX as int), hex_num(p[1], u128::MAX as int), hex_num(p[2], u64::MAX as int), hex_num(p[3], u8::MAX as int)) {
            (Some(v), Some(t), Some(i), Some(f)) => Some(Trace { version: v as u8, trace_id: t as u128, parent_id: i as u64, flags: f as u8 }),
            _ => None,
        }
    }
}
pub open spec fn trace_text(version: u8, trace_id: u128, id: u64, flags: u8) -> Seq<char> {
    hex_text(version as int, 2) + seq!['-'] + (hex_text(trace_id as int, 32) + seq!['-'] + (hex_text(id as int, 16) + seq!['-'] + hex_text(flags as int, 2)))
}
pub proof fn lemma_no_dash(s: Seq<char>)
    requires hexes(s),
    ensures first(s, is_char('-')) == s.len(), splits(s, '-') == seq![s], ascii_chars(s),
{
    assert forall|i: int| 0 <= i < s.len() implies !is_char('-')(#[trigger] s[i]) by { assert(is_hex(s[i])); }
    lemma_first_is(s, is_char('-'), s.len() as int);
    assert(splits(s, '-') =~= seq![s]);
    assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i] as u32) < 0x80 by { assert(is_hex(s[i])); }
}
// what is written is read as the same context, whose parent is the one that was written
pub proof fn lemma_trace_reads(version: u8, trace_id: u128, id: u64, flags: u8)
    ensures
        trace(trace_text(version, trace_id, id, flags)) == Some(Trace { version: version, trace_id: trace_id, parent_id: id, flags: flags }),
        ascii_chars(trace_text(version, trace_id, id, flags)),
        trace_text(version, trace_id, id, flags).len() == 55,
{
    lemma_pow16();
    let (v, t, i, f) = (hex_text(version as int, 2), hex_text(trace_id as int, 32), hex_text(id as int, 16), hex_text(flags as int, 2));
    lemma_hex_text(version as int, 2); lemma_hex_text(trace_id as int, 32); lemma_hex_text(id as int, 16); lemma_hex_text(flags as int, 2);
    lemma_no_dash(v); lemma_no_dash(t); lemma_no_dash(i); lemma_no_dash(f);
    let c = i + seq!['-'] + f;
    let b = t + seq!['-'] + c;
    lemma_splits_append(i, f, '-');
    lemma_splits_append(t, c, '-');
    lemma_splits_append(v, b, '-');
    let p = splits(trace_text(version, trace_id, id, flags), '-');
    assert(p =~= seq![v, t, i, f]);
    assert(hex_num(v, u8::MAX as int) == Some(version as int));
    assert(hex_num(t, u128::MAX as int) == Some(trace_id as int));
    assert(hex_num(i, u64::MAX as int) == Some(id as int));
    assert(hex_num(f, u8::MAX as int) == Some(flags as int));
}
//@ fn src/trace/trace_context.rs TraceContext::new
//@ ret r
ensures r.version == 0, r.parent_id == None::<u64>, r.flags == 1,
//@ end
//@ fn src/trace/trace_context.rs TraceContext::from_headers
//@ ret r
ensures
    match header_values(headers, "traceparent"@) {
        None => r == Ok::<Option<TraceContext>, Error>(None),
        Some(vs) => match trace(vs[0].inner@) {
            None => r is Err && (r->Err_0).status == StatusCode::BadRequest,
            Some(x) => r is Ok && r->Ok_0 is Some && (r->Ok_0->0).version == x.version && (r->Ok_0->0).trace_id == x.trace_id
                && (r->Ok_0->0).parent_id == Some(x.parent_id) && (r->Ok_0->0).flags == x.flags,
        },
    },
//@ rewrite "headers: impl AsRef<Headers>" => "headers: &Headers"
//@ rewrite "headers.as_ref()" => "headers"
//@ rewrite "headers.get(TRACEPARENT)" => "header_get(headers, \"traceparent\")"
//@ rewrite "traceparent.as_str().split('-')" => "Parts::new(traceparent[0].as_str(), '-')"
//@ rewrite "u8::from_str_radix(" => "u8_from_radix("
//@ rewrite "u64::from_str_radix(" => "u64_from_radix("
//@ rewrite "u128::from_str_radix(" => "u128_from_radix("
//@ end
//@ fn src/trace/trace_context.rs TraceContext::child
//@ ret r
ensures r.version == self.version, r.trace_id == self.trace_id, r.parent_id == Some(self.id), r.flags == self.flags,
//@ end
//@ fn src/trace/trace_context.rs TraceContext::id
//@ ret r
ensures r == self.id,
//@ end
//@ fn src/trace/trace_context.rs TraceContext::version
//@ ret r
ensures r == self.version,
//@ end
//@ fn src/trace/trace_context.rs TraceContext::trace_id
//@ ret r
ensures r == self.trace_id,
//@ end
//@ fn src/trace/trace_context.rs TraceContext::parent_id
//@ ret r
ensures r == self.parent_id,
//@ end
pub open spec fn sampled_flag(f: u8) -> bool { f % 2 == 1 }
//@ fn src/trace/trace_context.rs TraceContext::sampled
//@ ret r
ensures r == sampled_flag(self.flags),
//@ at start
proof { let f = self.flags; assert((f & 0b00000001) == 1 <==> f % 2 == 1) by (bit_vector); }
//@ end
//@ fn src/trace/trace_context.rs TraceContext::set_sampled
ensures
    sampled_flag(final(self).flags) == sampled,
    final(self).flags / 2 == old(self).flags / 2,
    final(self).id == old(self).id, final(self).version == old(self).version, final(self).trace_id == old(self).trace_id, final(self).parent_id == old(self).parent_id,
//@ at start
proof {
    let f = self.flags;
    assert forall|x: u8| x == 0 || x == 1 implies (#[trigger] (f ^ ((x ^ f) & (1u8 << 0))) % 2) == x && (f ^ ((x ^ f) & (1u8 << 0))) / 2 == f / 2 by {
        assert((x == 0 || x == 1) ==> ((f ^ ((x ^ f) & (1u8 << 0))) % 2) == x && (f ^ ((x ^ f) & (1u8 << 0))) / 2 == f / 2) by (bit_vector);
    }
}
//@ end
impl Show for TraceContext { open spec fn shown(&self) -> Seq<char> { trace_text(self.version, self.trace_id, self.id, self.flags) } }
impl TraceContext {
//@ fn src/trace/trace_context.rs <TraceContext as fmt::Display>::fmt
//@ bare
//@ ret r
ensures r is Ok, final(f).text() =~= old(f).text() + self.shown(),
//@ fmt
//@ rewrite "&mut fmt::Formatter" => "&mut Formatter<'_>"
//@ at start
proof { reveal_strlit("-"); assert("-"@ =~= seq!['-']); }
//@ end
//@ fn src/trace/trace_context.rs <TraceContext as Header>::header_value
//@ bare
//@ ret r
ensures
    r.inner@ == trace_text(self.version, self.trace_id, self.id, self.flags),
    trace(r.inner@) == Some(Trace { version: self.version, trace_id: self.trace_id, parent_id: self.id, flags: self.flags }),
//@ fmt
//@ rewrite "output.into()" => "output.into_bytes()"
//@ at start
broadcast use axiom_utf8_ascii;
proof { lemma_trace_reads(self.version, self.trace_id, self.id, self.flags); }
//@ at before-call HeaderValue::from_bytes_unchecked
proof { assert(output@ =~= self.shown()); }
//@ end
}
}
fn main() {}
