//! The generic functions of the server, instantiated here so that they are compiled with the same
//! instrumentation as the server itself.
use octane::prelude::*;
use octane::responder::Response;
use std::future::Future;
use std::pin::Pin;

type Listening = Pin<Box<dyn Future<Output = Result<(), Box<dyn std::error::Error>>>>>;

pub fn listen(app: Octane, port: u16, started: fn()) -> Listening {
    Box::pin(app.listen(port, started))
}
pub fn send(res: &mut Response, b: &[u8]) {
    res.send(b)
}
