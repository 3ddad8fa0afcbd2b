pub open spec fn code_reason(s: StatusCode) -> Seq<char> {
    match s { StatusCode::Continue => "Continue"@, StatusCode::SwitchingProtocols => "Switching Protocols"@, StatusCode::EarlyHints => "Early Hints"@, StatusCode::Ok => "OK"@, StatusCode::Created => "Created"@, StatusCode::Accepted => "Accepted"@, StatusCode::NonAuthoritativeInformation => "Non Authoritative Information"@, StatusCode::NoContent => "No Content"@, StatusCode::ResetContent => "Reset Content"@, StatusCode::PartialContent => "Partial Content"@, StatusCode::MultiStatus => "Multi-Status"@, StatusCode::ImUsed => "Im Used"@, StatusCode::MultipleChoice => "Multiple Choice"@, StatusCode::MovedPermanently => "Moved Permanently"@, StatusCode::Found => "Found"@, StatusCode::SeeOther => "See Other"@, StatusCode::NotModified => "Not Modified"@, StatusCode::TemporaryRedirect => "Temporary Redirect"@, StatusCode::PermanentRedirect => "Permanent Redirect"@, StatusCode::BadRequest => "Bad Request"@, StatusCode::Unauthorized => "Unauthorized"@, StatusCode::PaymentRequired => "Payment Required"@, StatusCode::Forbidden => "Forbidden"@, StatusCode::NotFound => "Not Found"@, StatusCode::MethodNotAllowed => "Method Not Allowed"@, StatusCode::NotAcceptable => "Not Acceptable"@, StatusCode::ProxyAuthenticationRequired => "Proxy Authentication Required"@, StatusCode::RequestTimeout => "Request Timeout"@, StatusCode::Conflict => "Conflict"@, StatusCode::Gone => "Gone"@, StatusCode::LengthRequired => "Length Required"@, StatusCode::PreconditionFailed => "Precondition Failed"@, StatusCode::PayloadTooLarge => "Payload Too Large"@, StatusCode::UriTooLong => "URI Too Long"@, StatusCode::UnsupportedMediaType => "Unsupported Media Type"@, StatusCode::RequestedRangeNotSatisfiable => "Requested Range Not Satisfiable"@, StatusCode::ExpectationFailed => "Expectation Failed"@, StatusCode::ImATeapot => "I'm a teapot"@, StatusCode::MisdirectedRequest => "Misdirected Request"@, StatusCode::UnprocessableEntity => "Unprocessable Entity"@, StatusCode::Locked => "Locked"@, StatusCode::FailedDependency => "Failed Dependency"@, StatusCode::TooEarly => "Too Early"@, StatusCode::UpgradeRequired => "Upgrade Required"@, StatusCode::PreconditionRequired => "Precondition Required"@, StatusCode::TooManyRequests => "Too Many Requests"@, StatusCode::RequestHeaderFieldsTooLarge => "Request Header Fields Too Large"@, StatusCode::UnavailableForLegalReasons => "Unavailable For Legal Reasons"@, StatusCode::InternalServerError => "Internal Server Error"@, StatusCode::NotImplemented => "Not Implemented"@, StatusCode::BadGateway => "Bad Gateway"@, StatusCode::ServiceUnavailable => "Service Unavailable"@, StatusCode::GatewayTimeout => "Gateway Timeout"@, StatusCode::HttpVersionNotSupported => "HTTP Version Not Supported"@, StatusCode::VariantAlsoNegotiates => "Variant Also Negotiates"@, StatusCode::InsufficientStorage => "Insufficient Storage"@, StatusCode::LoopDetected => "Loop Detected"@, StatusCode::NotExtended => "Not Extended"@, StatusCode::NetworkAuthenticationRequired => "Network Authentication Required"@, }
}
