//@ fn src/lib.rs new_adhoc
//@ ret r
ensures r.status == StatusCode::InternalServerError,
//@ end
//@ fn src/error.rs Error::new_adhoc
//@ ret r
ensures r.status == StatusCode::InternalServerError,
//@ end
//@ fn src/error.rs Error::from_str
//@ ret r
requires
    call_requires(S::try_into, (status,)),
    forall|o: std::result::Result<StatusCode, S::Error>| call_ensures(S::try_into, (status,), o) ==> o is Ok,
ensures
    call_ensures(S::try_into, (status,), Ok(r.status)),
//@ end
