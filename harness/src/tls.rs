//! The client side of a TLS connection, driven by the explorer: every flight it sends is cut as the
//! plan says, and what the server sends is decrypted.
use crate::sim::In;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cut {
    Whole,
    /// pieces of this size, each after the server went idle
    Pieces(usize),
    /// the same, without pauses
    Short(usize),
    /// this flight in two, at this byte
    At(usize, usize),
    /// flight, byte: the client sends no more than that and goes away (errno; 0: end of stream)
    Stop(usize, usize, i32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Open,
    Notify,
    NotifyEof,
    Eof,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Plan {
    pub data: Vec<u8>,
    /// sizes of the records the request is sent in (the last one repeats; empty: one record)
    pub records: Vec<usize>,
    pub cut: Cut,
    pub v13: bool,
    pub end: End,
}

/// What the client saw.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Seen {
    pub plain: Vec<u8>,
    pub error: Option<String>,
    pub done: bool,
    pub notified: bool,
    /// bytes of every flight sent
    pub flights: Vec<usize>,
}

pub trait Peer {
    fn start(&mut self) -> Vec<In>;
    fn feed(&mut self, bytes: &[u8]) -> Vec<In>;
    fn seen(&mut self) -> Seen;
}

#[cfg(not(feature = "tls"))]
pub fn peer(_: &Plan) -> Box<dyn Peer> {
    panic!("built without TLS")
}

#[cfg(feature = "tls")]
pub use engine::peer;

#[cfg(feature = "tls")]
mod engine {
    use super::*;
    use rustls::{ClientConfig, ClientSession, Session};
    use std::io::{Read, Write};
    use std::sync::Arc;

    struct Any;
    impl rustls::ServerCertVerifier for Any {
        fn verify_server_cert(
            &self,
            _: &rustls::RootCertStore,
            shown: &[rustls::Certificate],
            _: webpki::DNSNameRef,
            _: &[u8],
        ) -> Result<rustls::ServerCertVerified, rustls::TLSError> {
            // what the application configured, all of it and in its order, leaf first
            let file = include_bytes!("../tls/cert.pem");
            let all = rustls::internal::pemfile::certs(&mut &file[..]).unwrap();
            if shown != &all[..] {
                return Err(rustls::TLSError::General(format!("{} certificates shown, {} configured, or others", shown.len(), all.len())));
            }
            Ok(rustls::ServerCertVerified::assertion())
        }
    }
    thread_local! {
        static CONF: [Arc<ClientConfig>; 2] = [conf(false), conf(true)];
    }
    fn conf(v13: bool) -> Arc<ClientConfig> {
        let mut c = ClientConfig::new();
        c.versions = vec![if v13 { rustls::ProtocolVersion::TLSv1_3 } else { rustls::ProtocolVersion::TLSv1_2 }];
        c.set_persistence(Arc::new(rustls::NoClientSessionStorage {}));
        c.dangerous().set_certificate_verifier(Arc::new(Any));
        Arc::new(c)
    }
    struct Engine {
        s: ClientSession,
        plan: Plan,
        sent: bool,
        stopped: bool,
        seen: Seen,
    }
    pub fn peer(p: &Plan) -> Box<dyn Peer> {
        let conf = CONF.with(|c| c[p.v13 as usize].clone());
        let name = webpki::DNSNameRef::try_from_ascii_str("localhost").unwrap();
        Box::new(Engine { s: ClientSession::new(&conf, name), plan: p.clone(), sent: false, stopped: false, seen: Seen::default() })
    }
    impl Engine {
        /// what the session wants to send now, as steps of the client
        fn flush(&mut self) -> Vec<In> {
            if !self.s.is_handshaking() && !self.sent {
                self.sent = true;
                self.seen.done = true;
                let d = self.plan.data.clone();
                let mut pos = 0;
                let mut k = 0;
                let mut bytes = vec![];
                while pos < d.len() {
                    let n = match self.plan.records.get(k).or(self.plan.records.last()) {
                        Some(n) => (*n).min(d.len() - pos),
                        None => d.len() - pos,
                    };
                    self.s.write_all(&d[pos..pos + n]).unwrap();
                    // one record each
                    while self.s.wants_write() {
                        self.s.write_tls(&mut bytes).unwrap();
                    }
                    pos += n;
                    k += 1;
                }
                if matches!(self.plan.end, End::Notify | End::NotifyEof) {
                    self.s.send_close_notify();
                    while self.s.wants_write() {
                        self.s.write_tls(&mut bytes).unwrap();
                    }
                }
                let mut v = self.steps(bytes);
                if matches!(self.plan.end, End::Eof | End::NotifyEof) && !self.stopped {
                    v.push(In::Eof)
                }
                return v;
            }
            let mut bytes = vec![];
            while self.s.wants_write() {
                self.s.write_tls(&mut bytes).unwrap();
            }
            let mut v = self.steps(bytes);
            if !self.s.is_handshaking() && !self.sent {
                v.extend(self.flush());
            }
            v
        }
        fn steps(&mut self, b: Vec<u8>) -> Vec<In> {
            if b.is_empty() || self.stopped {
                return vec![];
            }
            let f = self.seen.flights.len();
            self.seen.flights.push(b.len());
            match self.plan.cut {
                Cut::Pieces(k) => b.chunks(k).map(|c| In::Data(c.to_vec())).collect(),
                Cut::Short(k) => b.chunks(k).map(|c| In::More(c.to_vec())).collect(),
                Cut::At(n, p) if n == f && p > 0 && p < b.len() => vec![In::Data(b[..p].to_vec()), In::Data(b[p..].to_vec())],
                Cut::Stop(n, p, e) if n == f && p < b.len() => {
                    self.stopped = true;
                    let mut v = vec![];
                    if p > 0 {
                        v.push(In::Data(b[..p].to_vec()));
                    }
                    v.push(if e == 0 { In::Eof } else { In::Reset(e) });
                    v
                }
                _ => vec![In::Data(b)],
            }
        }
    }
    impl Peer for Engine {
        fn start(&mut self) -> Vec<In> {
            self.flush()
        }
        fn feed(&mut self, mut bytes: &[u8]) -> Vec<In> {
            while !bytes.is_empty() {
                match self.s.read_tls(&mut bytes) {
                    Ok(0) | Err(_) => break,
                    Ok(_) => {}
                }
                match self.s.process_new_packets() {
                    Ok(()) => {}
                    Err(e) => {
                        if self.seen.error.is_none() {
                            self.seen.error = Some(e.to_string())
                        }
                        break;
                    }
                }
                let mut v = vec![];
                if let Err(e) = self.s.read_to_end(&mut v) {
                    if e.kind() == std::io::ErrorKind::ConnectionAborted {
                        self.seen.notified = true
                    }
                }
                self.seen.plain.extend(v);
            }
            self.flush()
        }
        fn seen(&mut self) -> Seen {
            std::mem::take(&mut self.seen)
        }
    }
}
