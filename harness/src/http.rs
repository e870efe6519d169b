//! A strict HTTP/1.x response parser, independent of the code under test.

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Resp {
    pub version: String,
    pub code: u32,
    pub reason: String,
    /// in order of appearance
    pub headers: Vec<(String, String)>,
    pub body: Vec<u8>,
}

impl Resp {
    pub fn all(&self, name: &str) -> Vec<&str> {
        self.headers.iter().filter(|h| h.0.eq_ignore_ascii_case(name)).map(|h| h.1.as_str()).collect()
    }
    pub fn get(&self, name: &str) -> Option<&str> {
        self.all(name).first().copied()
    }
    /// lower-cased names, sorted; order of equal names kept
    pub fn sorted(&self) -> Vec<(String, String)> {
        let mut v: Vec<(String, String)> =
            self.headers.iter().map(|(a, b)| (a.to_ascii_lowercase(), b.clone())).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    }
    pub fn sorted_without(&self, drop: &[&str]) -> Vec<(String, String)> {
        self.sorted().into_iter().filter(|h| !drop.contains(&h.0.as_str())).collect()
    }
}

pub fn is_token(c: u8) -> bool {
    c.is_ascii_alphanumeric() || b"!#$%&'*+-.^_`|~".contains(&c)
}

/// Splits off head and body; everything after the blank line is the body (the connection ends it).
pub fn split(out: &[u8]) -> Result<Resp, String> {
    let Some(i) = out.windows(4).position(|w| w == b"\r\n\r\n") else {
        return Err("no blank line after the header fields".into());
    };
    let head = std::str::from_utf8(&out[..i]).map_err(|_| "head is not UTF-8".to_string())?;
    let body = out[i + 4..].to_vec();
    let mut lines = head.split("\r\n");
    let sl = lines.next().unwrap();
    let rest = sl.strip_prefix("HTTP/").ok_or_else(|| format!("status line {:?}", sl))?;
    let mut it = rest.splitn(3, ' ');
    let version = it.next().unwrap_or("").to_string();
    let code = it.next().unwrap_or("");
    let reason = it.next().ok_or_else(|| format!("status line {:?}", sl))?.to_string();
    if version.len() != 3 || !version.bytes().enumerate().all(|(i, c)| if i == 1 { c == b'.' } else { c.is_ascii_digit() }) {
        return Err(format!("bad version in status line {:?}", sl));
    }
    if code.len() != 3 || !code.bytes().all(|c| c.is_ascii_digit()) {
        return Err(format!("bad code in status line {:?}", sl));
    }
    if reason.bytes().any(|c| c < 0x20 && c != b'\t' || c == 0x7f) {
        return Err(format!("control character in status line {:?}", sl));
    }
    let mut headers = vec![];
    for l in lines {
        let (n, v) = l.split_once(':').ok_or_else(|| format!("header line without colon {:?}", l))?;
        if n.is_empty() || !n.bytes().all(is_token) {
            return Err(format!("bad header name in {:?}", l));
        }
        let v = v.trim_matches(|c| c == ' ' || c == '\t');
        if v.bytes().any(|c| c < 0x20 && c != b'\t' || c == 0x7f) {
            return Err(format!("control character in header {:?}", l));
        }
        headers.push((n.to_string(), v.to_string()));
    }
    Ok(Resp { version, code: code.parse().unwrap(), reason, headers, body })
}

/// A complete well-formed response to a request (head = the request was HEAD).
pub fn parse(out: &[u8], head: bool) -> Result<Resp, String> {
    let r = split(out)?;
    let cl = r.all("content-length");
    if cl.len() > 1 {
        return Err(format!("{} Content-Length fields", cl.len()));
    }
    match cl.first() {
        None => return Err("no Content-Length".into()),
        Some(v) => {
            if v.is_empty() || !v.bytes().all(|c| c.is_ascii_digit()) {
                return Err(format!("Content-Length {:?}", v));
            }
            let n: usize = v.parse().map_err(|_| "Content-Length".to_string())?;
            if head {
                if !r.body.is_empty() {
                    return Err(format!("{} body bytes in answer to HEAD", r.body.len()));
                }
            } else if n != r.body.len() {
                return Err(format!("Content-Length {} but {} body bytes", n, r.body.len()));
            }
        }
    }
    Ok(r)
}
