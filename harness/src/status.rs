//! The status codes of the public enumeration, with their IANA numbers and reasons (written down
//! here independently of the code under test).
use octane::StatusCode::{self, *};
pub fn all() -> &'static [(StatusCode, i32, &'static str)] {
    &[
        (Continue, 100, "Continue"),
        (SwitchingProtocol, 101, "Switching Protocol"),
        (Processing, 102, "Processing"),
        (EarlyHints, 103, "Early Hints"),
        (Ok, 200, "OK"),
        (Created, 201, "Created"),
        (Accepted, 202, "Accepted"),
        (NonauthoritativeInformation, 203, "Non-Authoritative Information"),
        (NoContent, 204, "No Content"),
        (ResetContent, 205, "Reset Content"),
        (PartialContent, 206, "Partial Content"),
        (Multistatus, 207, "Multi-Status"),
        (AlreadyReported, 208, "Already Reported"),
        (ImUsed, 226, "IM Used"),
        (MultipleChoice, 300, "Multiple Choice"),
        (MovedPermanently, 301, "Moved Permanently"),
        (Found, 302, "Found"),
        (SeeOther, 303, "See Other"),
        (NotModified, 304, "Not Modified"),
        (TemporaryRedirect, 307, "Temporary Redirect"),
        (PermanentRedirect, 308, "Permanent Redirect"),
        (BadRequest, 400, "Bad Request"),
        (Unauthorized, 401, "Unauthorized"),
        (PaymentRequired, 402, "Payment Required"),
        (Forbidden, 403, "Forbidden"),
        (NotFound, 404, "Not Found"),
        (MethodNotAllowed, 405, "Method Not Allowed"),
        (NotAcceptable, 406, "Not Acceptable"),
        (ProxyAuthenticationRequired, 407, "Proxy Authentication Required"),
        (RequestTimeout, 408, "Request Timeout"),
        (Conflict, 409, "Conflict"),
        (Gone, 410, "Gone"),
        (LengthRequired, 411, "Length Required"),
        (PreconditionFailed, 412, "Precondition Failed"),
        (PayloadTooLarge, 413, "Payload Too Large"),
        (UriTooLong, 414, "URI Too Long"),
        (UnsupportedMediaType, 415, "Unsupported Media Type"),
        (RangeNotSatisfiable, 416, "Range Not Satisfiable"),
        (ExpectationFailed, 417, "Expectation Failed"),
        (ImATeapot, 418, "I'm a teapot"),
        (MisdirectedRequest, 421, "Misdirected Request"),
        (UnprocessableEntity, 422, "Unprocessable Entity"),
        (Locked, 423, "Locked"),
        (FailedDependency, 424, "Failed Dependency"),
        (TooEarly, 425, "Too Early"),
        (UpgradeRequired, 426, "Upgrade Required"),
        (PreconditionRequired, 428, "Precondition Required"),
        (TooManyRequests, 429, "Too Many Requests"),
        (RequestHeaderFieldsTooLarge, 431, "Request Header Fields Too Large"),
        (UnavailableForLegalReasons, 451, "Unavailable For Legal Reasons"),
        (InternalServerError, 500, "Internal Server Error"),
        (NotImplemented, 501, "Not Implemented"),
        (BadGateway, 502, "Bad Gateway"),
        (ServiceUnavailable, 503, "Service Unavailable"),
        (GatewayTimeout, 504, "Gateway Timeout"),
        (HttpVersionNotSupported, 505, "HTTP Version Not Supported"),
        (VariantAlsoNegotiates, 506, "Variant Also Negotiates"),
        (InsufficientStorage, 507, "Insufficient Storage"),
        (LoopDetected, 508, "Loop Detected"),
        (NotExtended, 510, "Not Extended"),
        (NetworkAuthenticationRequired, 511, "Network Authentication Required"),
    ]
}
