// The registered method names, written independently of the code's tables.
pub open spec fn method_name(m: Method) -> Seq<char> {
    match m {
        Method::Acl => "ACL"@,
        Method::BaselineControl => "BASELINE-CONTROL"@,
        Method::Bind => "BIND"@,
        Method::Checkin => "CHECKIN"@,
        Method::Checkout => "CHECKOUT"@,
        Method::Connect => "CONNECT"@,
        Method::Copy => "COPY"@,
        Method::Delete => "DELETE"@,
        Method::Get => "GET"@,
        Method::Head => "HEAD"@,
        Method::Label => "LABEL"@,
        Method::Link => "LINK"@,
        Method::Lock => "LOCK"@,
        Method::Merge => "MERGE"@,
        Method::MkActivity => "MKACTIVITY"@,
        Method::MkCalendar => "MKCALENDAR"@,
        Method::MkCol => "MKCOL"@,
        Method::MkRedirectRef => "MKREDIRECTREF"@,
        Method::MkWorkspace => "MKWORKSPACE"@,
        Method::Move => "MOVE"@,
        Method::Options => "OPTIONS"@,
        Method::OrderPatch => "ORDERPATCH"@,
        Method::Patch => "PATCH"@,
        Method::Post => "POST"@,
        Method::Pri => "PRI"@,
        Method::PropFind => "PROPFIND"@,
        Method::PropPatch => "PROPPATCH"@,
        Method::Put => "PUT"@,
        Method::Rebind => "REBIND"@,
        Method::Report => "REPORT"@,
        Method::Search => "SEARCH"@,
        Method::Trace => "TRACE"@,
        Method::Unbind => "UNBIND"@,
        Method::Uncheckout => "UNCHECKOUT"@,
        Method::Unlink => "UNLINK"@,
        Method::Unlock => "UNLOCK"@,
        Method::Update => "UPDATE"@,
        Method::UpdateRedirectRef => "UPDATEREDIRECTREF"@,
        Method::VersionControl => "VERSION-CONTROL"@,
    }
}
pub proof fn lemma_method_names_distinct(a: Method, b: Method)
    requires method_name(a) == method_name(b),
    ensures a == b,
{
    reveal_strlit("ACL");
    reveal_strlit("BASELINE-CONTROL");
    reveal_strlit("BIND");
    reveal_strlit("CHECKIN");
    reveal_strlit("CHECKOUT");
    reveal_strlit("CONNECT");
    reveal_strlit("COPY");
    reveal_strlit("DELETE");
    reveal_strlit("GET");
    reveal_strlit("HEAD");
    reveal_strlit("LABEL");
    reveal_strlit("LINK");
    reveal_strlit("LOCK");
    reveal_strlit("MERGE");
    reveal_strlit("MKACTIVITY");
    reveal_strlit("MKCALENDAR");
    reveal_strlit("MKCOL");
    reveal_strlit("MKREDIRECTREF");
    reveal_strlit("MKWORKSPACE");
    reveal_strlit("MOVE");
    reveal_strlit("OPTIONS");
    reveal_strlit("ORDERPATCH");
    reveal_strlit("PATCH");
    reveal_strlit("POST");
    reveal_strlit("PRI");
    reveal_strlit("PROPFIND");
    reveal_strlit("PROPPATCH");
    reveal_strlit("PUT");
    reveal_strlit("REBIND");
    reveal_strlit("REPORT");
    reveal_strlit("SEARCH");
    reveal_strlit("TRACE");
    reveal_strlit("UNBIND");
    reveal_strlit("UNCHECKOUT");
    reveal_strlit("UNLINK");
    reveal_strlit("UNLOCK");
    reveal_strlit("UPDATE");
    reveal_strlit("UPDATEREDIRECTREF");
    reveal_strlit("VERSION-CONTROL");
    let (x, y) = (method_name(a), method_name(b));
    assert(x.len() == y.len());
    assert(x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && x[3] == y[3] && x[4] == y[4] && x[5] == y[5] && x[6] == y[6]);
}
