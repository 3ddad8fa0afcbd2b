// RFC 9110 / IANA table, written down independently of the code's own tables.
pub open spec fn code_num(s: StatusCode) -> u16 {
    match s { StatusCode::Continue => 100, StatusCode::SwitchingProtocols => 101, StatusCode::EarlyHints => 103, StatusCode::Ok => 200, StatusCode::Created => 201, StatusCode::Accepted => 202, StatusCode::NonAuthoritativeInformation => 203, StatusCode::NoContent => 204, StatusCode::ResetContent => 205, StatusCode::PartialContent => 206, StatusCode::MultiStatus => 207, StatusCode::ImUsed => 226, StatusCode::MultipleChoice => 300, StatusCode::MovedPermanently => 301, StatusCode::Found => 302, StatusCode::SeeOther => 303, StatusCode::NotModified => 304, StatusCode::TemporaryRedirect => 307, StatusCode::PermanentRedirect => 308, StatusCode::BadRequest => 400, StatusCode::Unauthorized => 401, StatusCode::PaymentRequired => 402, StatusCode::Forbidden => 403, StatusCode::NotFound => 404, StatusCode::MethodNotAllowed => 405, StatusCode::NotAcceptable => 406, StatusCode::ProxyAuthenticationRequired => 407, StatusCode::RequestTimeout => 408, StatusCode::Conflict => 409, StatusCode::Gone => 410, StatusCode::LengthRequired => 411, StatusCode::PreconditionFailed => 412, StatusCode::PayloadTooLarge => 413, StatusCode::UriTooLong => 414, StatusCode::UnsupportedMediaType => 415, StatusCode::RequestedRangeNotSatisfiable => 416, StatusCode::ExpectationFailed => 417, StatusCode::ImATeapot => 418, StatusCode::MisdirectedRequest => 421, StatusCode::UnprocessableEntity => 422, StatusCode::Locked => 423, StatusCode::FailedDependency => 424, StatusCode::TooEarly => 425, StatusCode::UpgradeRequired => 426, StatusCode::PreconditionRequired => 428, StatusCode::TooManyRequests => 429, StatusCode::RequestHeaderFieldsTooLarge => 431, StatusCode::UnavailableForLegalReasons => 451, StatusCode::InternalServerError => 500, StatusCode::NotImplemented => 501, StatusCode::BadGateway => 502, StatusCode::ServiceUnavailable => 503, StatusCode::GatewayTimeout => 504, StatusCode::HttpVersionNotSupported => 505, StatusCode::VariantAlsoNegotiates => 506, StatusCode::InsufficientStorage => 507, StatusCode::LoopDetected => 508, StatusCode::NotExtended => 510, StatusCode::NetworkAuthenticationRequired => 511, }
}
pub open spec fn registered(n: u16) -> bool { n == 100 || n == 101 || n == 103 || n == 200 || n == 201 || n == 202 || n == 203 || n == 204 || n == 205 || n == 206 || n == 207 || n == 226 || n == 300 || n == 301 || n == 302 || n == 303 || n == 304 || n == 307 || n == 308 || n == 400 || n == 401 || n == 402 || n == 403 || n == 404 || n == 405 || n == 406 || n == 407 || n == 408 || n == 409 || n == 410 || n == 411 || n == 412 || n == 413 || n == 414 || n == 415 || n == 416 || n == 417 || n == 418 || n == 421 || n == 422 || n == 423 || n == 424 || n == 425 || n == 426 || n == 428 || n == 429 || n == 431 || n == 451 || n == 500 || n == 501 || n == 502 || n == 503 || n == 504 || n == 505 || n == 506 || n == 507 || n == 508 || n == 510 || n == 511 }
pub proof fn lemma_registered()
    ensures
        forall|n: u16| #[trigger] registered(n) <==> exists|s: StatusCode| code_num(s) == n,
{
    assert(code_num(StatusCode::Continue) == 100);
    assert(code_num(StatusCode::SwitchingProtocols) == 101);
    assert(code_num(StatusCode::EarlyHints) == 103);
    assert(code_num(StatusCode::Ok) == 200);
    assert(code_num(StatusCode::Created) == 201);
    assert(code_num(StatusCode::Accepted) == 202);
    assert(code_num(StatusCode::NonAuthoritativeInformation) == 203);
    assert(code_num(StatusCode::NoContent) == 204);
    assert(code_num(StatusCode::ResetContent) == 205);
    assert(code_num(StatusCode::PartialContent) == 206);
    assert(code_num(StatusCode::MultiStatus) == 207);
    assert(code_num(StatusCode::ImUsed) == 226);
    assert(code_num(StatusCode::MultipleChoice) == 300);
    assert(code_num(StatusCode::MovedPermanently) == 301);
    assert(code_num(StatusCode::Found) == 302);
    assert(code_num(StatusCode::SeeOther) == 303);
    assert(code_num(StatusCode::NotModified) == 304);
    assert(code_num(StatusCode::TemporaryRedirect) == 307);
    assert(code_num(StatusCode::PermanentRedirect) == 308);
    assert(code_num(StatusCode::BadRequest) == 400);
    assert(code_num(StatusCode::Unauthorized) == 401);
    assert(code_num(StatusCode::PaymentRequired) == 402);
    assert(code_num(StatusCode::Forbidden) == 403);
    assert(code_num(StatusCode::NotFound) == 404);
    assert(code_num(StatusCode::MethodNotAllowed) == 405);
    assert(code_num(StatusCode::NotAcceptable) == 406);
    assert(code_num(StatusCode::ProxyAuthenticationRequired) == 407);
    assert(code_num(StatusCode::RequestTimeout) == 408);
    assert(code_num(StatusCode::Conflict) == 409);
    assert(code_num(StatusCode::Gone) == 410);
    assert(code_num(StatusCode::LengthRequired) == 411);
    assert(code_num(StatusCode::PreconditionFailed) == 412);
    assert(code_num(StatusCode::PayloadTooLarge) == 413);
    assert(code_num(StatusCode::UriTooLong) == 414);
    assert(code_num(StatusCode::UnsupportedMediaType) == 415);
    assert(code_num(StatusCode::RequestedRangeNotSatisfiable) == 416);
    assert(code_num(StatusCode::ExpectationFailed) == 417);
    assert(code_num(StatusCode::ImATeapot) == 418);
    assert(code_num(StatusCode::MisdirectedRequest) == 421);
    assert(code_num(StatusCode::UnprocessableEntity) == 422);
    assert(code_num(StatusCode::Locked) == 423);
    assert(code_num(StatusCode::FailedDependency) == 424);
    assert(code_num(StatusCode::TooEarly) == 425);
    assert(code_num(StatusCode::UpgradeRequired) == 426);
    assert(code_num(StatusCode::PreconditionRequired) == 428);
    assert(code_num(StatusCode::TooManyRequests) == 429);
    assert(code_num(StatusCode::RequestHeaderFieldsTooLarge) == 431);
    assert(code_num(StatusCode::UnavailableForLegalReasons) == 451);
    assert(code_num(StatusCode::InternalServerError) == 500);
    assert(code_num(StatusCode::NotImplemented) == 501);
    assert(code_num(StatusCode::BadGateway) == 502);
    assert(code_num(StatusCode::ServiceUnavailable) == 503);
    assert(code_num(StatusCode::GatewayTimeout) == 504);
    assert(code_num(StatusCode::HttpVersionNotSupported) == 505);
    assert(code_num(StatusCode::VariantAlsoNegotiates) == 506);
    assert(code_num(StatusCode::InsufficientStorage) == 507);
    assert(code_num(StatusCode::LoopDetected) == 508);
    assert(code_num(StatusCode::NotExtended) == 510);
    assert(code_num(StatusCode::NetworkAuthenticationRequired) == 511);
}
pub proof fn lemma_code_num_injective(a: StatusCode, b: StatusCode)
    requires code_num(a) == code_num(b),
    ensures a == b,
{ }
