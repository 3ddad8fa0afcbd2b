"""What each check consists of, and the text of each property.
properties.jsonl and MANIFEST.json are generated from this file by gen_manifest.py."""

# per-unit options of the deductive runs
UNITS = {"date": {"rlimit": 60}}


def P(title, statement, over, text, why, files, mech, observe=None, state=None, **k):
    d = {"title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if observe:
        d["anchors"]["observe_at"] = observe
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    d.update(k)
    return d


PROPS = {
    "P01": P(
        "Status codes map one-to-one to registered numbers, classes and reasons",
        "An integer converts to a status code exactly when it is a registered HTTP status number, and the code converts back to the same number, whichever integer type or serialised form it travels through. Equality with a number, the five class predicates (1xx to 5xx), the canonical reason phrase and the textual form all agree with that number.",
        ["inputs"], "every 16-bit number, every registered code, every serialised integer",
        "Tests convert a handful of codes and count the variants; the mapping is a 56-row table written out four times (enum, parser, reason phrase, predicates) and one wrong row anywhere is invisible to them.",
        ["src/status_code.rs", "src/error.rs"],
        [("TryFrom<u16>", "src/status_code.rs"), ("canonical_reason, is_* predicates", "src/status_code.rs"), ("serde visitor", "src/status_code.rs")],
        ["http_types::StatusCode"],
        verus=["status_code"], level="proof",
        technique="Verus contracts on the extracted status-code functions",
        level_note="The parser, number, class and reason functions are proved against a table written independently of the code; Display/Debug/PartialEq<u16>/serde are executed over the whole u16 domain on the compiled crate.",
        assumptions=[]),
}
PROPS["P02"] = P(
    "Methods and protocol versions: text and value are inverse, safety as registered",
    "A text parses as a request method exactly when it is one of the registered method names, compared without regard to ASCII case; a method prints and serialises as its registered upper-case name, and is reported safe exactly when the registry calls it safe. Protocol versions likewise print, serialise and parse one-to-one and are ordered by age, and a message carries exactly the method and version it was given.",
    ["inputs"], "every text, all 39 methods, all 5 versions and pairs of them",
    "Tests parse each canonical name once; they do not sample other spellings, near misses, the safety of most methods, or owned-string deserialisation.",
    ["src/method.rs", "src/version.rs", "src/request.rs", "src/response.rs"],
    [("from_str, as_ref, is_safe", "src/method.rs"), ("as_ref, serde visitor, derived order", "src/version.rs")],
    ["http_types::Method", "http_types::Version"],
    verus=["method"], level="proof",
    technique="Verus contracts on the extracted parse, name and safety functions and the serde visitors",
    level_note="Parsing (both directions: soundness and completeness), naming, is_safe and the two serde visitors are proved for every text; the derived order, Display and message accessors are executed on the compiled crate (all values). Trusted: ASCII case mapping and extensional equality of &str.",
)
PROPS["P03"] = P(
    "Header names and values accept exactly ASCII; names fold case, text is kept",
    "A header name or value can be made from text or bytes exactly when they are ASCII; a value keeps its text unchanged and a name keeps its text in lower case, and everything else is refused with an error rather than altered. Two names are equal (and hash alike) exactly when they differ only in ASCII case, also when compared with plain text, while values compare by exact text; every predefined name is its registered name.",
    ["inputs"], "every text and byte string, all constructors and comparisons, all predefined names",
    "Tests build a few names and values; they do not reach non-ASCII look-alikes, the unchecked constructors' preconditions, or most comparison overloads.",
    ["src/headers/header_name.rs", "src/headers/header_value.rs", "src/headers/header_values.rs", "src/headers/to_header_values.rs", "src/headers/header.rs", "src/headers/constants.rs"],
    [("from_bytes, from_str, from_string", "src/headers/header_name.rs"), ("from_bytes, from_str", "src/headers/header_value.rs"), ("predefined names", "src/headers/constants.rs")],
    ["http_types::headers::HeaderName", "http_types::headers::HeaderValue"],
    state=[("HeaderName", "lower-case ASCII text", "src/headers/header_name.rs"), ("HeaderValue", "ASCII text", "src/headers/header_value.rs")],
    verus=["headers", "header_eq"], level="proof",
    technique="Verus contracts on the extracted constructors and comparisons, with the ASCII invariant and the safety obligation of the unsafe conversion",
    level_note="Constructors are proved for every text and byte string, including that the unsafe UTF-8 conversion is only reached with ASCII bytes. So are the comparisons of names, values and lists with text, Display, and the conversions between values and lists. Hashing, Debug and predefined names are executed on the compiled crate. Trusted: std's comparisons of text and sequences, its ASCII functions, Cow, UTF-8 of ASCII text. Known findings: typed headers whose infallible conversions do not check their text.",
)
PROPS["P04"] = P(
    "Header maps are case-insensitive multimaps, on every message type",
    "After any history of inserts, appends, removals and in-place edits, looking a name up (in any letter case) gives exactly the values stored for it, in order; insert replaces and returns the previous values, append adds at the end, removal returns what was there, other names are untouched, and an operation refused because of an invalid value changes nothing. Iteration, name and value listings, indexing, cloning and consuming iteration all show that same content, on headers, trailers, requests and responses alike.",
    ["histories", "inputs"], "every sequence of operations, names and values",
    "Tests perform two or three operations each; interactions (append after remove, failed insert, edits through iter_mut, listing with several values per name) are not sampled.",
    ["src/headers/headers.rs", "src/headers/header_values.rs", "src/headers/values.rs", "src/headers/iter.rs", "src/headers/iter_mut.rs", "src/headers/into_iter.rs", "src/headers/names.rs", "src/trailers.rs", "src/request.rs", "src/response.rs"],
    [("insert, append, get, get_mut, remove", "src/headers/headers.rs"), ("Values::next", "src/headers/values.rs")],
    ["http_types::headers::Headers"],
    state=[("Headers", "map from lower-case name to list of values", "src/headers/headers.rs")],
    verus=["headers_map", "header_iters", "header_args"], level="proof",
    technique="Verus contracts with the abstract view Map<name, list> on the extracted map operations, iterators and argument conversions",
    level_note="insert, append, get, get_mut, remove (monomorphised at HeaderName; any value argument) are proved against the whole-map view, including the frame and failure atomicity; so are the iterators over entries, names and values (each header once, every value of it in order, size hints that hold), every kind of value argument (ToHeaderValues), and apply_header. The wrappers on Request, Response, Trailers and iter_mut are executed against the same view over random histories. Trusted: HashMap's key model for HeaderName, HashMap::get_mut, std's map iterators visiting each entry once, collecting an iterator. Known finding: an empty value list stores a name without a value.",
)
PROPS["P05"] = P(
    "A body yields exactly its content up to its declared length, however it is read",
    "Reading a body to its end, by any mix of plain and buffered reads of any size and with any pauses or errors of the source in between, gives the leading bytes of its source in order, each once, and never more than the declared length; the declared length of a body made from bytes, text, JSON, a form or a file is its exact size. Chaining two bodies gives the content of the first followed by that of the second and declares the sum of what is left of both (nothing when either is unknown or the sum overflows); setting, replacing, swapping or taking a message's body moves whole bodies.",
    ["inputs", "schedules", "histories"], "every content, declared length, buffer size, source schedule and chaining",
    "Tests read short in-memory bodies with fixed buffer sizes; they never mix the two reading interfaces, chain partly read bodies of the other kind, or use lengths near the integer limits.",
    ["src/body.rs", "src/request.rs", "src/response.rs"],
    [("poll_read, poll_fill_buf, consume", "src/body.rs"), ("chain and the constructors", "src/body.rs"), ("take/replace/swap_body", "src/request.rs")],
    ["http_types::Body"],
    state=[("Body.length / bytes_read", "declared length and how much of it has been given out", "src/body.rs")],
    verus=["body", "body_more"], level="proof",
    technique="Verus contracts on the extracted polling functions, constructors and chain, over an abstract reader",
    level_note="Every function of Body but Debug is proved for every reader that honours the AsyncRead contract: polling, chaining, the constructors and conversions, collecting into bytes, text, JSON and forms, and files with their guessed media type. The extraction drops Pin (all fields are Unpin); async functions are taken as their own steps with awaited calls as calls. Trusted: futures_lite's Cursor, Empty, Chain, read_to_end and read_to_string, serde_json and serde_urlencoded, the infer crate, async_std's File. Message wrappers are discharged in P17.",
)
PROPS["P06"] = P(
    "HTTP dates: text and instant correspond one-to-one, invalid dates are refused",
    "Any instant from 1970 to 9999 is written in a date header as the IMF-fixdate text of its second in the proleptic Gregorian calendar (right weekday, day, month, year, time), and reading that text gives back exactly that second. The RFC 850 and asctime forms of a date denote the same instant, a text that is none of the three forms or names no real day or time is refused with a 400 error, dates compare as their instants do, and every header that carries a date or delay uses these rules.",
    ["inputs"], "every instant of 8030 years, every text",
    "Tests format and parse a handful of dates; calendar arithmetic errors at leap days, century years or month ends, and malformed look-alikes, are not sampled.",
    ["src/utils/date.rs", "src/other/date.rs", "src/other/retry_after.rs", "src/cache/expires.rs", "src/conditional/if_modified_since.rs", "src/conditional/if_unmodified_since.rs", "src/conditional/last_modified.rs"],
    [("From<SystemTime>, From<HttpDate>, is_valid", "src/utils/date.rs"), ("parse_imf_fixdate, parse_rfc850_date, parse_asctime", "src/utils/date.rs"), ("Display", "src/utils/date.rs")],
    ["http_types::other::Date and the other date headers"],
    verus=["date", "date_text", "date_headers", "names_dates"], level="proof",
    technique="Verus contracts on the extracted calendar arithmetic, the three parsers and the formatter",
    level_note="Both conversions are proved against a calendar defined by counting days, each parser against a grammar written independently (accepts exactly the grammar, with the value it denotes), and the formatter against IMF-fixdate. The six headers that carry a date are proved to read and write through them. Ordering is executed. Trusted: decimal parsing of digits, SystemTime as seconds and nanoseconds.",
)
PROPS["P07"] = P(
    "Media types parse as the WHATWG algorithm says, and serialising is its inverse",
    "A text is accepted as a media type exactly when the WHATWG parsing algorithm accepts it, and yields that algorithm's lower-cased type and subtype and its parameters (first occurrence of each name, quoted values unescaped). Serialising a media type and parsing the result gives an equal media type; parameter lookup, removal, the subset relation and equality follow from type, subtype and parameters alone; predefined types and file extensions denote their registered types; a media type set on a message or body is the one read back.",
    ["inputs"], "every text, every parameter name, every pair of types",
    "Tests parse about thirty texts; they miss duplicate and unterminated parameters, escapes, characters outside ASCII and most pairs of types.",
    ["src/mime/parse.rs", "src/mime/mod.rs", "src/mime/constants.rs"],
    [("parse, collect_http_quoted_string, format", "src/mime/parse.rs"), ("param, remove_param, subset_eq", "src/mime/mod.rs")],
    ["http_types::mime::Mime"],
    verus=["mime", "mime_text"], level="proof",
    technique="Verus contracts on the extracted parser, parameter lookup and subset relation, against the WHATWG algorithm as a specification, and of the serialiser with the round-trip lemma",
    level_note="parse (all texts, including absence of slicing panics and termination), its helpers, param, remove_param, subset_eq, parameter names and comparisons of values, and the serialiser (format, Display and the escaping iterator) are proved, and a lemma over those contracts shows that the written text of any media type is read back as the same media type. Equality of whole media types, the tables and media types on messages are executed. Trusted: std's string searching, trimming and slicing as stated in str_shims.inc, chars().all and collecting an iterator of characters.",
)
PROPS["P08"] = P(
    "Forwarded values: exactly the grammar is read, and what is written reads back",
    "Reading a Forwarded header yields the client addresses in order and the by, host and proto values it names, with quoted strings unescaped, and refuses without panicking any text outside the grammar or with a repeated field. Whatever fields of printable text are set, the value written reads back as the same fields, also when a value needs quoting or is empty. Without a Forwarded header the X-Forwarded-* headers give the fields instead.",
    ["inputs"], "every text, every combination of printable field values",
    "Tests read about fifteen values; escapes inside quoted strings, multi-byte characters, separators in odd places and values that need quoting when written are combinations they do not reach.",
    ["src/proxies/forwarded.rs", "src/parse_utils.rs"],
    [("parse, parse_for, parse_forwarded_pair", "src/proxies/forwarded.rs"), ("parse_token, parse_quoted_string", "src/parse_utils.rs"), ("format_value, header_value", "src/proxies/forwarded.rs")],
    ["http_types::proxies::Forwarded"],
    verus=["forwarded", "forwarded_headers", "names_forwarded"], level="proof",
    technique="Verus contracts on the extracted tokeniser, quoted-string reader, Forwarded parser, writer and header readers against a recursive grammar",
    level_note="parse_token, parse_quoted_string (including its backslash bookkeeping), parse_value, format_value, starts_with/match_ignore_case, parse_forwarded_pair, parse_for and parse are proved for every text to accept exactly the grammar and yield its values, without slicing panics; header_value, the setters and getters, into_owned, from_headers, from_forwarded_header, from_x_headers and TryFrom<&str> are proved too, with a lemma that the value written for any printable fields reads back as the same fields. The extraction desugars char_indices().skip(1) and filter_map+collect into loops. Trusted: str slicing and char_indices as stated, Vec::reverse, Vec::join, Cow conversions, Option::as_deref, String::pop, IpAddr parsing and printing, header lookup (discharged in P04).",
)
PROPS["P09"] = P(
    "Content negotiation picks the most preferred acceptable option, or answers 406",
    "From Accept, Accept-Encoding and TE every entry is read with its weight (malformed weights are refused with 400, unknown codings skipped), and negotiating yields an available option named by the entry of the highest weight, the later one among equals and unweighted ones last, never one whose weight is zero; with a wildcard and no match it yields the first available option no entry refuses, and otherwise an error of status 406. Weights outside 0.0 to 1.0 cannot be put in. Content-Encoding and Transfer-Encoding denote the last known coding, else 400; lists written are read back the same.",
    ["inputs"], "every list of entries and weights, every list of available options, every header text",
    "Tests negotiate over fewer than ten lists of two or three entries; ties, zero weights, ranges that cover several options, wildcard with refusals, longer lists and odd weight texts are combinations they do not reach.",
    ["src/content/accept.rs", "src/content/accept_encoding.rs", "src/transfer/te.rs", "src/utils/mod.rs", "src/content/encoding_proposal.rs", "src/content/media_type_proposal.rs", "src/transfer/encoding_proposal.rs", "src/content/encoding.rs", "src/content/content_encoding.rs", "src/transfer/encoding.rs", "src/transfer/transfer_encoding.rs"],
    [("sort_by_weight, parse_weight", "src/utils/mod.rs"), ("Accept::negotiate", "src/content/accept.rs"), ("AcceptEncoding::negotiate", "src/content/accept_encoding.rs"), ("TE::negotiate", "src/transfer/te.rs")],
    ["http_types::content::Accept", "http_types::content::AcceptEncoding", "http_types::transfer::TE"],
    verus=["negotiate", "negotiate_te", "negotiate_mt", "negotiate_out", "negotiate_te_out", "negotiate_mt_out", "lists_negotiate"], level="proof",
    technique="Verus contracts on the extracted header readers, weight parser, weight ordering and negotiation loops, against a relational specification of the preferred option",
    level_note="from_headers, from_str and new of the proposals, partial_cmp, sort_by_weight, sort and negotiate of all three headers, and ContentEncoding/TransferEncoding::from_headers are proved for all inputs; so are the writers (Display, From for HeaderValue, header_value), with lemmas that the text of a list of codings is read back as the same entries, weights rounded, and wildcard. The text `{:.3}` gives a weight is trusted. Trusted: slice::sort_unstable_by for a total comparator, str::split, f32 comparison and parsing, Mime's own contracts (discharged in P07), .status(n) (discharged in P12).",
)
PROPS["P10"] = P(
    "Entity tags: exactly the grammar is read, and tag lists read back as written",
    "A text is read as an entity tag exactly when it is an optional W/ and a quoted run of tag characters, and gives that strength and that text; anything else is refused with a 400 error. If-Match and If-None-Match give the tags of all their lines in order and whether a wildcard was there, commas inside a quoted tag not separating. Any tag or list of tags with tag-character text, with or without wildcard, is read back equal from the message it was written to.",
    ["inputs"], "every header text, every list of tags",
    "Tests read back one or two plain tags; tags containing commas, wildcard look-alikes, empty elements, several header lines and malformed quoting are not sampled.",
    ["src/conditional/etag.rs", "src/conditional/if_match.rs", "src/conditional/if_none_match.rs"],
    [("from_str, header_value", "src/conditional/etag.rs"), ("from_headers, header_value", "src/conditional/if_match.rs"), ("from_headers, header_value", "src/conditional/if_none_match.rs")],
    ["http_types::conditional::{ETag, IfMatch, IfNoneMatch}"],
    verus=["etag", "lists_etag"], level="proof",
    technique="Verus contracts on the extracted tag parser and writer and on the list readers and writers, with a round-trip lemma",
    level_note="ETag::from_str, split_list, from_headers, Display and header_value, and new, push, from_headers and header_value of both lists are proved for all inputs; a lemma over those contracts proves that every written list reads back. Writing requires ASCII tag text (the non-ASCII case is a known finding of P03). The extraction writes str::split with split_list's closure out as its defining loop. Trusted: str::trim, slicing and char_indices as stated, write!/to_string calling Display::fmt.",
)
PROPS["P11"] = P(
    "Caching headers: directives are read exactly and every written header reads back",
    "Cache-Control gives exactly the directives it knows in all its lines, in order, each with the number of seconds written after it, ignores directives it does not know and refuses a missing or malformed number with a 400 error; each directive is valid in requests and responses as the HTTP registry says. Clear-Site-Data gives its directives and whether the wildcard was there, refusing anything else with a 400 error; Age and Content-Length give the number on their last line or a 400 error. Whatever any of them writes is read back equal (durations to the second).",
    ["inputs"], "every header text, every list of directives, every duration and length",
    "Tests read back two or three fixed directives; the names of the other directives, duplicated or malformed arguments, numbers at the limits of u64 and several header lines are not sampled.",
    ["src/cache/cache_control/cache_directive.rs", "src/cache/cache_control/cache_control.rs", "src/cache/clear_site_data/mod.rs", "src/cache/clear_site_data/directive.rs", "src/cache/age.rs", "src/content/content_length.rs"],
    [("from_str, valid_in_req, valid_in_res, From", "src/cache/cache_control/cache_directive.rs"), ("from_headers, header_value", "src/cache/cache_control/cache_control.rs"), ("from_headers, header_value", "src/cache/clear_site_data/mod.rs"), ("from_headers, header_value", "src/cache/age.rs"), ("from_headers, header_value", "src/content/content_length.rs")],
    ["http_types::cache::{CacheControl, CacheDirective, ClearSiteData, ClearDirective, Age}", "http_types::content::ContentLength"],
    verus=["caching", "caching_more", "lists_caching"], level="proof",
    technique="Verus contracts on the extracted directive parsers and header readers and writers, with round-trip lemmas",
    level_note="CacheDirective::from_str (with its argument-reading closure), its writer and validity tables, and the readers and writers of Cache-Control, Clear-Site-Data, Age and Content-Length are proved for all inputs; lemmas over those contracts prove that written headers read back. Trusted: str::to_lowercase on ASCII, u64 parsing and printing, std's Duration as whole seconds and nanoseconds, the derived Clone of CacheDirective.",
)
PROPS["P12"] = P(
    "Errors carry exactly the status they were given and the error they wrap",
    "An error made with a status code has that code, one made by conversion or by a macro has 500, and changing the code changes nothing else; the error it wraps comes back, by value, by reference or mutably, to whoever asks for its type and to nobody else. `status` and `with_status` hand a success through untouched without looking at the code, and give a failure the code asked for while keeping the error that was there. A code given as a number is the registered code of that number.",
    ["inputs"], "every status code, every error type and value, every result and option",
    "Tests look at one error with one code; generic code over all error types, the untouched success path and the kept wrapped error under a change of code are not settled by them.",
    ["src/error.rs", "src/status.rs", "src/macros.rs", "src/lib.rs"],
    [("new, from_str, set_status, downcast, downcast_ref, downcast_mut, from_display, from_debug, From", "src/error.rs"), ("status, with_status (three impls)", "src/status.rs")],
    ["http_types::{Error, Status, bail!, ensure!, ensure_eq!, format_err!}"],
    verus=["errors"], level="proof",
    technique="Verus contracts on the extracted Error methods and on all three impls of the Status trait, generic in the error type",
    level_note="Proved for every error type and every way of giving a status; this discharges what the other units assume of `.status(n)` (status_trait.inc), with lemma_numbers for numeric codes. Trusted: anyhow::Error stores the error it is made from and gives it back by type, std's blanket TryInto/Into, type_name. The macros, Display, Debug and the boxed conversions are executed.",
)
PROPS["P13"] = P(
    "Authentication headers are read exactly, and what is written reads back",
    "Authorization gives the scheme named (in any case) by the text up to the first space of its last line and everything after that space as the credentials; Basic credentials give everything before the first colon of the decoded text as the user and everything after it as the password; WWW-Authenticate gives the scheme and the unescaped quoted realm. Anything else in those headers is a 400 error and never a panic. What is written is read back equal: any ASCII credentials, any password, any user name without a colon, and any printable realm, quotes and backslashes included.",
    ["inputs"], "every header text, every scheme, every user name, password, credentials and realm",
    "Tests read back one user, one realm and one credential; colons in passwords, quotes in realms, scheme names in other case and malformed encodings are not sampled.",
    ["src/auth/authentication_scheme.rs", "src/auth/authorization.rs", "src/auth/basic_auth.rs", "src/auth/www_authenticate.rs", "src/parse_utils.rs"],
    [("from_str, Display", "src/auth/authentication_scheme.rs"), ("from_headers, header_value", "src/auth/authorization.rs"), ("from_headers, from_credentials, header_value", "src/auth/basic_auth.rs"), ("from_headers, header_value", "src/auth/www_authenticate.rs"), ("parse_quoted_string, quoted_string", "src/parse_utils.rs")],
    ["http_types::auth::{AuthenticationScheme, Authorization, BasicAuth, WwwAuthenticate}"],
    verus=["auth", "forwarded", "names_auth"], level="proof",
    technique="Verus contracts on the extracted readers and writers of the three headers, with round-trip lemmas over them",
    level_note="Every function of the four files is under contract and proved for all inputs, and so are the quoted-string reader (unit forwarded) and writer. Trusted: base64 decodes what it encodes into ASCII text, String::from_utf8, str::splitn(2, c), str::to_lowercase on ASCII. Writers of credentials or realms require ASCII text: the non-ASCII case is the known finding of P03.",
)
PROPS["P14"] = P(
    "Trace contexts are read exactly, and carried on unchanged",
    "A traceparent gives exactly its four hexadecimal numbers as version, trace id, parent id and flags, or a 400 error when one is missing, malformed or too large; it never panics. What a context writes is read by the receiver as a context of the same trace, version and flags whose parent is the writer, and a child has the same trace, version and flags and its maker as parent. Setting the sampled flag changes that flag and nothing else.",
    ["inputs"], "every header text, every context, every chain of children and receivers",
    "Tests read two fixed headers; short headers, numbers at the limits of their types, other flag bits and a write/read chain are not sampled.",
    ["src/trace/trace_context.rs"],
    [("from_headers, Display, header_value, child, set_sampled, sampled", "src/trace/trace_context.rs")],
    ["http_types::trace::TraceContext"],
    verus=["trace", "names_trace"], level="proof",
    technique="Verus contracts on every function of TraceContext, with a round-trip lemma for the hexadecimal form",
    level_note="All of TraceContext is proved for all inputs (bit operations by the bit-vector theory). Trusted: from_str_radix with radix 16, the {:02x}/{:016x}/{:032x} formats, str::split, and that fastrand gives some number.",
)
PROPS["P15"] = P(
    "Server-Timing metrics survive the wire exactly",
    "Every Server-Timing line is read as the metrics it lists, in order: name, duration in milliseconds and description, where commas, semicolons and escaped quotes inside a quoted description belong to the description, empty list elements are skipped, parameters of other names are ignored and malformed ones are a 400 error. What is written reads back as the same metrics in the same order, for names without separators, printable descriptions and durations a decimal number can carry. Metric::new refuses text that is not ASCII.",
    ["inputs"], "every header text over any number of lines, every list of metrics",
    "Tests read short fixed headers; a comma, semicolon or quote inside a description, escapes, empty elements, and several metrics on several lines are not sampled.",
    ["src/trace/server_timing/mod.rs", "src/trace/server_timing/parse.rs", "src/trace/server_timing/metric.rs", "src/parse_utils.rs"],
    [("from_headers, header_value", "src/trace/server_timing/mod.rs"), ("parse_header, parse_entry", "src/trace/server_timing/parse.rs"), ("new, From<Metric>", "src/trace/server_timing/metric.rs"), ("split_unquoted, quoted_string, parse_quoted_string", "src/parse_utils.rs")],
    ["http_types::trace::{ServerTiming, Metric}"],
    verus=["server_timing", "forwarded", "lists_timing"], level="proof",
    technique="Verus contracts on reader, splitter and writer of Server-Timing, with a round-trip lemma over quoted strings",
    level_note="Reader, writer, split_unquoted and both quoted-string functions are proved for all inputs; lemma_server_timing_reads composes them. Trusted: f64 parsing and printing (only that printing yields digits, signs and letters), Duration::try_from_secs_f64 and division, char_indices, str slicing and trimming. The iterators are executed.",
)
PROPS["P16"] = P(
    "Security headers say what was configured, and read back",
    "A Content-Security-Policy carries every directive once with all of its sources in the order given, however often and in whatever order it is built and applied, under the report-only name when asked. Strict-Transport-Security and Timing-Allow-Origin are read as exactly what they list, in any case and with unknown directives or empty elements skipped, are a 400 error when malformed, and read back as written; the fixed protections each set their header to its documented value and change no other header.",
    ["inputs", "history"], "every header text, every sequence of calls on a policy, every prior set of headers",
    "Tests build one policy and read a few fixed headers; repeated application, mixed case, several origins with white space, and the effect on other headers are not sampled.",
    ["src/security/mod.rs", "src/security/csp.rs", "src/security/strict_transport_security.rs", "src/security/timing_allow_origin.rs"],
    [("default, frameguard, powered_by, referrer_policy, ..", "src/security/mod.rs"), ("insert_directive, directive methods, value, apply", "src/security/csp.rs"), ("from_headers, header_value", "src/security/strict_transport_security.rs"), ("from_headers, header_value", "src/security/timing_allow_origin.rs")],
    ["http_types::security"],
    verus=["security", "csp", "lists_security"], level="proof",
    technique="Verus contracts on every function of the security module, with round-trip lemmas and frames over the header map",
    level_note="Every function is proved for all inputs. ContentSecurityPolicy::apply is specified for policies whose text is ASCII (it panics otherwise). Trusted: HashMap entry/iteration, slice sort and join, serde_json text of an endpoint group, Url parsing and printing, and the insert/append/remove contracts discharged in unit headers_map.",
)
PROPS["P17"] = P(
    "Requests and responses keep body, headers and origin in step",
    "Giving a message a body hands back the old one, sets Content-Type to the new body's media type exactly when there is no Content-Type yet, and changes nothing else; every other setter changes only its own field, and reading a message reads its body. A request's host is the first host parameter of Forwarded, else the first X-Forwarded-Host entry, else Host, else the URL's host; its remote address is found the same way from for parameters, X-Forwarded-For and the peer address. A clone has the same method, URL, status, version, headers and addresses, an empty body and no extensions, and a query that cannot be read is a 400 error.",
    ["inputs", "history"], "every sequence of calls on a request or response, every body, every header text",
    "Tests set one body on a fresh message and read short Forwarded headers; second bodies, bodies without a media type, swapped bodies, quoted separators in Forwarded, and the effect on other fields are not sampled.",
    ["src/request.rs", "src/response.rs", "src/body.rs", "src/parse_utils.rs"],
    [("replace_body, swap_body, copy_content_type_from_body, clone", "src/request.rs"), ("host, remote, forwarded_header_part", "src/request.rs"), ("replace_body, swap_body, copy_content_type_from_body, clone", "src/response.rs"), ("split_unquoted", "src/parse_utils.rs")],
    ["http_types::{Request, Response}"],
    verus=["requests", "responses"], level="proof",
    technique="Verus contracts with whole-struct frames on every function of Request and Response",
    level_note="Every function of Request and Response but From<T> glue is proved for all inputs, each with the frame that it changes only what it names. Async functions are taken as their own steps with awaited calls as calls. Trusted: contracts of Body and Headers (discharged in units body and headers_map), Url, serde_qs, Mime text and parsing, async_channel, Option::or_else, mem::replace.",
)
PROPS["P18"] = P(
    "Trailers and upgrades reach the other side once, unchanged",
    "A message hands out its trailers sender and its trailers receiver at most once each; what is sent through the one is what the other yields, exactly and once, whether the receiver is polled before, during or after, and a sender dropped unused yields nothing. Trailers behave as a header collection, has_trailers and has_upgrade say whether an end was handed out, and an upgraded connection passes every read, write, flush and close to its transport with the transport's own result, pending and errors included.",
    ["inputs", "schedules"], "every order of taking, sending, dropping and polling the ends, every behaviour of the transport",
    "Tests send one trailer from a task that runs at once; early polls, dropped senders, ends taken twice, short or failing transports are not sampled.",
    ["src/trailers.rs", "src/upgrade/connection.rs", "src/upgrade/sender.rs", "src/upgrade/receiver.rs", "src/request.rs", "src/response.rs"],
    [("Sender::send, Receiver::poll, Trailers", "src/trailers.rs"), ("poll_read, poll_write, poll_flush, poll_close", "src/upgrade/connection.rs"), ("send_trailers, recv_trailers", "src/request.rs"), ("send_trailers, recv_trailers, send_upgrade, recv_upgrade", "src/response.rs")],
    ["http_types::{trailers, upgrade}", "http_types::{Request, Response}"],
    verus=["channels", "requests", "responses"], level="proof",
    technique="Verus contracts on both ends and on the connection, over async_channel's calls recorded as facts",
    level_note="Proved for all inputs: which end each function hands out (frames included), that send passes exactly the given message to the channel, that poll and the connection's functions pass every call through with its result. Trusted: that async_channel's bounded channel delivers each message once and wakes the receiver; it is executed over random schedules and on two threads.",
)
PROPS["P19"] = P(
    "Allow, Vary, Expect, links and Content-Type say what was set, and read back",
    "Allow is read as exactly the set of methods its lines list and Vary as exactly the header names in order plus the wildcard, over any number of lines with empty elements ignored; both are written as a list that reads back as the same value. Referer and SourceMap are the absolute URL they hold, else the reference resolved against the base, Content-Location the reference resolved against the base, Content-Type the media type, and Expect only 100-continue, each taken from the last line; a malformed one is an error (400 for Expect, Content-Type and Content-Location), and each is written as the text of its value.",
    ["inputs"], "every list of header lines, every base URL, every value set",
    "Tests read one well-formed line per header; several lines, empty elements, mixed case, relative references against other bases, and malformed texts are not sampled.",
    ["src/server/allow.rs", "src/conditional/vary.rs", "src/other/expect.rs", "src/other/referer.rs", "src/other/source_map.rs", "src/content/content_location.rs", "src/content/content_type.rs"],
    [("from_headers, header_value, insert, contains", "src/server/allow.rs"), ("from_headers, header_value, push", "src/conditional/vary.rs"), ("from_headers", "src/other/expect.rs"), ("from_headers, set_location", "src/other/referer.rs"), ("from_headers, set_location", "src/other/source_map.rs"), ("from_headers, set_location", "src/content/content_location.rs"), ("from_headers, header_value", "src/content/content_type.rs")],
    ["http_types::server::Allow", "http_types::conditional::Vary", "http_types::other", "http_types::content"],
    verus=["allow_vary", "links", "lists_vary"], level="proof",
    technique="Verus contracts on the readers and writers of these headers, with read-back lemmas for the lists",
    level_note="Every reader, writer and setter of the seven headers is proved for all inputs; their iterators are executed. The read-back of Vary is proved for names that hold no comma, are not `*` and have no white space at their ends. Trusted: Url parsing, joining and printing, media type parsing and printing (unit mime), iteration of a HashSet<Method>, and the contracts of Method and HeaderName discharged in units method and headers.",
)
PROPS["P20"] = P(
    "Messages converted to the http crate and back are unchanged",
    "A request or response converted to the http crate's types has the same method or status, URL, version, header values in order under every name, and body; converted from them it has the same again, with the body's media type where there is no Content-Type. Methods, registered status codes, versions, header names and values and header maps convert one-to-one in both directions. A header name or value, method, URI or status code without an equal on the other side is an error of the fallible conversions, never another value.",
    ["inputs"], "every request, response and header map of either crate, every header name and value",
    "Tests convert one request and one response with a few headers; several values under one name, other versions, lower-case methods, unregistered codes, values outside ASCII and a body's media type are not sampled.",
    ["src/hyperium_http.rs"],
    [("hyperium_headers_to_headers, headers_to_hyperium_headers", "src/hyperium_http.rs"), ("TryFrom<http::Request<Body>>, From<Request>", "src/hyperium_http.rs"), ("TryFrom<http::Response<Body>>, From<Response>", "src/hyperium_http.rs")],
    ["http_types::{Request, Response, Method, StatusCode, Version}", "http_types::headers"],
    verus=["hyperium"], level="proof",
    technique="Verus contracts on every conversion, over stand-ins that state the http crate's documented behaviour",
    level_note="Every conversion is proved for all inputs; TryFrom<Headers> for http::HeaderMap with its map(..).collect::<Result<..>>() chains written out as the loops they stand for, refusing exactly what http cannot hold. The infallible conversions are specified for values with an equal on the other side (they panic otherwise). Trusted: the http crate (its HeaderMap, Uri, builders and validity checks), and the contracts of Request, Response, HeaderName, HeaderValue, Method and StatusCode discharged in other units.",
)
PROPS["P21"] = P(
    "Extensions hold one value per type, each under its own type only",
    "Inserting a value into a message's extensions makes exactly it the value of its type and hands back the one it replaces; get, get_mut, contains and remove see exactly the last value put there for the type asked for, and remove and clear leave none. No operation on one type, however similar, touches the value of another or another message's extensions, and every value is dropped once, when it leaves.",
    ["inputs", "history"], "every sequence of operations, every set of types",
    "Tests insert two values of different types once; replacing, removing and inserting again, values changed through get_mut, generic instances of one definition and clearing are not sampled.",
    ["src/extensions.rs", "src/request.rs", "src/response.rs"],
    [("insert, contains, get, get_mut, remove, clear", "src/extensions.rs"), ("ext, ext_mut", "src/request.rs"), ("ext, ext_mut", "src/response.rs")],
    ["http_types::Extensions", "http_types::{Request, Response}::{ext, ext_mut}"],
    verus=["extensions"], level="proof",
    technique="Verus contracts on every function of Extensions, over stand-ins for std::any and the HashMap",
    level_note="Every function of Extensions and of its hasher is proved for all inputs and types, with the frame that values of other types stay. Trusted: std::any (TypeId, downcasts) and HashMap as a map from type ids to boxed values, for which the casts and the get_or_insert_with and as_mut chains are replaced by stand-ins.",
)
