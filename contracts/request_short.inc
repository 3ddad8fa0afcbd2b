//@ fn src/request.rs Request::{{F}}
//@ ret r
requires
    call_requires(U::try_into, (url,)),
    forall|o: std::result::Result<Url, U::Error>| call_ensures(U::try_into, (url,), o) ==> o is Ok,
ensures
    call_ensures(U::try_into, (url,), Ok(r.url)),
    made(r, Method::{{M}}),
//@ end
