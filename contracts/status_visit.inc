//@ fn src/status_code.rs <StatusCodeU16Visitor as Visitor<'de>>::{{F}}
//@ bare
//@ ret r
ensures code_of(v as int, okv(r)),
//@ rewrite "Self::Value" => "StatusCode"
//@ end
