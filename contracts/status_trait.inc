// The `.status(n)` adaptors, by contract; their bodies are discharged against it in unit errors.
pub open spec fn reported(e: Error, n: u16) -> bool {
    (n == 400 ==> e.status == StatusCode::BadRequest) && (n == 406 ==> e.status == StatusCode::NotAcceptable)
    && (n == 422 ==> e.status == StatusCode::UnprocessableEntity) && (n == 500 ==> e.status == StatusCode::InternalServerError)
}
pub trait Status<T>: Sized {
    spec fn good(self) -> Option<T>;
    fn status(self, n: u16) -> (r: Result<T, Error>)
        requires n == 400 || n == 406 || n == 422 || n == 500,
        ensures match self.good() { Some(v) => r == Ok::<T, Error>(v), None => r is Err && reported(r->Err_0, n) };
}
impl<T, E> Status<T> for Result<T, E> {
    open spec fn good(self) -> Option<T> { match self { Ok(v) => Some(v), Err(_) => None } }
    #[verifier::external_body]
    fn status(self, n: u16) -> (r: Result<T, Error>) { unimplemented!() }
}
impl<T> Status<T> for Option<T> {
    open spec fn good(self) -> Option<T> { self }
    #[verifier::external_body]
    fn status(self, n: u16) -> (r: Result<T, Error>) { unimplemented!() }
}
#[verifier::external_body]
pub fn set_status_code(e: &mut Error, s: StatusCode) ensures final(e).status == s { unimplemented!() }
// Error::set_status with a number, as the *_status macros call it (contract discharged in unit errors).
impl Error {
    #[verifier::external_body]
    pub fn set_status(&mut self, n: u16)
        requires n == 400 || n == 406 || n == 422 || n == 500,
        ensures reported(*final(self), n),
    { unimplemented!() }
}
