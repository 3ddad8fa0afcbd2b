pub mod anyhow {
    use vstd::prelude::*;
    verus! {
    // TRUSTED: anyhow::Error is opaque; only http_types::Error's own `status` field is modelled.
    #[verifier::external_body]
    pub struct Error(u8);
    impl Error {
        #[verifier::external_body]
        pub fn msg<M>(m: M) -> Error { unimplemented!() }
    }
    }
}
