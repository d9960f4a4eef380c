//! Reference models, written from the property statements and RFC 5321, with
//! naive code that shares nothing with the implementation: the DATA transfer
//! encoding, the grammar of commands, addresses, hosts, parameters and replies.

use std::collections::BTreeMap;

// ------------------------------------------------------------ DATA transfer
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Decoded {
    /// Unescaped bytes whose meaning is settled by the input.
    pub body: Vec<u8>,
    /// Index just after the end marker, if it is in the input.
    pub end: Option<usize>,
    /// Bytes at the end of the input that cannot be interpreted yet
    /// ("" or "." or ".\r", at the start of a line).
    pub held: Vec<u8>,
}

/// Line-oriented decoding of everything received so far.
pub fn decode(wire: &[u8]) -> Decoded {
    let mut body = vec![];
    let mut p = 0;
    loop {
        let rest = &wire[p..];
        if rest.starts_with(b".\r\n") {
            return Decoded { body, end: Some(p + 3), held: vec![] };
        }
        if rest == b"." || rest == b".\r" {
            return Decoded { body, end: None, held: rest.to_vec() };
        }
        let text_at = if rest.first() == Some(&b'.') { p + 1 } else { p };
        match find_crlf(&wire[text_at..]) {
            Some(i) => {
                body.extend_from_slice(&wire[text_at..text_at + i + 2]);
                p = text_at + i + 2;
            }
            None => {
                body.extend_from_slice(&wire[text_at..]);
                return Decoded { body, end: None, held: vec![] };
            }
        }
    }
}

pub fn find_crlf(b: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i + 1 < b.len() {
        if b[i] == 13 && b[i + 1] == 10 {
            return Some(i);
        }
        i += 1;
    }
    None
}

/// What must be on the wire for a message body.
pub fn encode(msg: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut p = 0;
    while p < msg.len() {
        let end = match find_crlf(&msg[p..]) {
            Some(i) => p + i + 2,
            None => msg.len(),
        };
        if msg[p] == b'.' {
            out.push(b'.');
        }
        out.extend_from_slice(&msg[p..end]);
        p = end;
    }
    if !(msg.is_empty() || msg.ends_with(b"\r\n")) {
        out.extend_from_slice(b"\r\n");
    }
    out.extend_from_slice(b".\r\n");
    out
}

/// What a receiver must read when this message was sent.
pub fn received(msg: &[u8]) -> Vec<u8> {
    let mut v = msg.to_vec();
    if !(v.is_empty() || v.ends_with(b"\r\n")) {
        v.extend_from_slice(b"\r\n");
    }
    v
}

// ------------------------------------------------------------ grammar
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Host {
    Name(Vec<u8>),
    V4([u8; 4]),
    V6([u8; 16]),
}
impl Host {
    pub fn wire(&self) -> Vec<u8> {
        match self {
            Host::Name(n) => n.clone(),
            Host::V4(a) => format!("[{}]", std::net::Ipv4Addr::from(*a)).into_bytes(),
            Host::V6(a) => format!("[IPv6:{}]", std::net::Ipv6Addr::from(*a)).into_bytes(),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Addr {
    pub local: Vec<u8>,
    pub host: Option<Host>,
}
impl Addr {
    pub fn wire(&self) -> Vec<u8> {
        let mut v = self.local.clone();
        if let Some(h) = &self.host {
            v.push(b'@');
            v.extend(h.wire());
        }
        v
    }
    /// The mailbox name without its quoting.
    pub fn canonical(&self) -> Vec<u8> {
        if self.local.first() != Some(&b'"') {
            return self.local.clone();
        }
        let inner = &self.local[1..self.local.len() - 1];
        let mut out = vec![];
        let mut i = 0;
        while i < inner.len() {
            if inner[i] == b'\\' {
                i += 1;
            }
            out.push(inner[i]);
            i += 1;
        }
        out
    }
}
/// Keyword -> every value written for it (normally one).
pub type Params = BTreeMap<Vec<u8>, Vec<Option<Vec<u8>>>>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Cmd {
    Data,
    Ehlo(Host),
    Expn(Vec<u8>),
    Helo(Host),
    Help(Vec<u8>),
    Mail(Option<Addr>, Params),
    Noop(Vec<u8>),
    Quit,
    Rcpt(Addr, Params),
    Rset,
    Vrfy(Vec<u8>),
}
impl Cmd {
    pub fn verb(&self) -> &'static str {
        match self {
            Cmd::Data => "DATA",
            Cmd::Ehlo(_) => "EHLO",
            Cmd::Expn(_) => "EXPN",
            Cmd::Helo(_) => "HELO",
            Cmd::Help(_) => "HELP",
            Cmd::Mail(..) => "MAIL",
            Cmd::Noop(_) => "NOOP",
            Cmd::Quit => "QUIT",
            Cmd::Rcpt(..) => "RCPT",
            Cmd::Rset => "RSET",
            Cmd::Vrfy(_) => "VRFY",
        }
    }
    /// Serialisation up to the parameters of MAIL and RCPT, without CRLF.
    pub fn wire_head(&self) -> Vec<u8> {
        let mut v = self.verb().as_bytes().to_vec();
        match self {
            Cmd::Data | Cmd::Quit | Cmd::Rset => (),
            Cmd::Ehlo(h) | Cmd::Helo(h) => {
                v.push(b' ');
                v.extend(h.wire())
            }
            Cmd::Expn(t) | Cmd::Help(t) | Cmd::Noop(t) | Cmd::Vrfy(t) => {
                v.push(b' ');
                v.extend(t)
            }
            Cmd::Mail(a, _) => {
                v.extend(b" FROM:<");
                if let Some(a) = a {
                    v.extend(a.wire());
                }
                v.push(b'>');
            }
            Cmd::Rcpt(a, _) => {
                v.extend(b" TO:<");
                v.extend(a.wire());
                v.push(b'>');
            }
        }
        v
    }
}

/// What the statements say about an input.
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Verdict<T> {
    Accept(T),
    Reject,
    /// The statements leave it open (an obsolete or tolerated spelling).
    Free,
}
impl<T> Verdict<T> {
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> Verdict<U> {
        match self {
            Verdict::Accept(t) => Verdict::Accept(f(t)),
            Verdict::Reject => Verdict::Reject,
            Verdict::Free => Verdict::Free,
        }
    }
}
use Verdict::*;

fn is_ws(b: u8) -> bool {
    b == b' ' || b == b'\t'
}
fn is_alnum(b: u8) -> bool {
    matches!(b, b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9')
}
fn is_atext(b: u8) -> bool {
    is_alnum(b) || b"!#$%&'*+-/=?^_`{|}~".contains(&b)
}

/// The whole of `b` as a host name: labels separated by single dots.
fn host_name(b: &[u8]) -> bool {
    b.split(|&c| c == b'.').all(|l| {
        !l.is_empty() && is_alnum(l[0]) && l.iter().all(|&c| is_alnum(c) || c == b'-')
    })
}
/// The whole of `b` as a host.
pub fn host(b: &[u8]) -> Verdict<Host> {
    if host_name(b) {
        return Accept(Host::Name(b.to_vec()));
    }
    if b.len() >= 2 && b[0] == b'[' && b[b.len() - 1] == b']' {
        let inner = &b[1..b.len() - 1];
        if let Some(v6) = inner.strip_prefix(b"IPv6:") {
            return match ipv6(v6) {
                Some(a) => Accept(Host::V6(a)),
                None => Reject,
            };
        }
        if inner.len() > 5 && inner[..5].eq_ignore_ascii_case(b"IPv6:") && ipv6(&inner[5..]).is_some() {
            return Free; // RFC 5321: the tag is case-insensitive
        }
        if let Some(a) = ipv4(inner) {
            return Accept(Host::V4(a));
        }
    }
    Reject
}
/// Four decimal numbers 0..=255 without superfluous leading zeros.
pub fn ipv4(b: &[u8]) -> Option<[u8; 4]> {
    let mut out = [0u8; 4];
    let mut n = 0;
    for part in b.split(|&c| c == b'.') {
        if n == 4 || part.is_empty() || part.len() > 3 || !part.iter().all(|c| c.is_ascii_digit()) {
            return None;
        }
        if part.len() > 1 && part[0] == b'0' {
            return None;
        }
        let v: u32 = part.iter().fold(0, |a, &c| a * 10 + (c - b'0') as u32);
        if v > 255 {
            return None;
        }
        out[n] = v as u8;
        n += 1;
    }
    if n == 4 {
        Some(out)
    } else {
        None
    }
}
/// RFC 4291 text form: groups of 1-4 hex digits, one "::", optional IPv4 tail.
pub fn ipv6(b: &[u8]) -> Option<[u8; 16]> {
    fn groups(b: &[u8], v4_ok: bool) -> Option<Vec<u16>> {
        let mut out = vec![];
        if b.is_empty() {
            return Some(out);
        }
        let parts: Vec<&[u8]> = b.split(|&c| c == b':').collect();
        for (i, p) in parts.iter().enumerate() {
            if v4_ok && i + 1 == parts.len() && p.contains(&b'.') {
                let a = ipv4(p)?;
                out.push(u16::from_be_bytes([a[0], a[1]]));
                out.push(u16::from_be_bytes([a[2], a[3]]));
                continue;
            }
            if p.is_empty() || p.len() > 4 {
                return None;
            }
            let mut v = 0u16;
            for &c in *p {
                v = v * 16 + (c as char).to_digit(16)? as u16;
            }
            out.push(v);
        }
        Some(out)
    }
    let pos = b.windows(2).position(|w| w == b"::");
    let g: Vec<u16> = match pos {
        None => {
            let g = groups(b, true)?;
            if g.len() != 8 {
                return None;
            }
            g
        }
        Some(i) => {
            let head = groups(&b[..i], false)?;
            let tail = groups(&b[i + 2..], true)?;
            if head.len() + tail.len() > 7 {
                return None;
            }
            let mut g = head.clone();
            g.extend(vec![0; 8 - head.len() - tail.len()]);
            g.extend(tail);
            g
        }
    };
    let mut out = [0u8; 16];
    for (i, v) in g.iter().enumerate() {
        out[2 * i] = (v >> 8) as u8;
        out[2 * i + 1] = *v as u8;
    }
    Some(out)
}

/// Length of the local part at the start of `b`, if there is one.
fn local_len(b: &[u8]) -> Option<usize> {
    if b.first() == Some(&b'"') {
        let mut i = 1;
        loop {
            match *b.get(i)? {
                b'"' => return Some(i + 1),
                b'\\' => {
                    let c = *b.get(i + 1)?;
                    if !(32..=126).contains(&c) {
                        return None;
                    }
                    i += 2;
                }
                c if (32..=126).contains(&c) => i += 1,
                _ => return None,
            }
        }
    }
    let n = b.iter().take_while(|&&c| is_atext(c) || c == b'.').count();
    if n > 0 && b[..n].split(|&c| c == b'.').all(|a| !a.is_empty()) {
        Some(n)
    } else {
        None
    }
}
/// The whole of `b` as an address.
pub fn addr(b: &[u8]) -> Verdict<Addr> {
    let n = match local_len(b) {
        Some(n) => n,
        None => return Reject,
    };
    let local = b[..n].to_vec();
    if n == b.len() {
        return Accept(Addr { local, host: None });
    }
    if b[n] != b'@' {
        return Reject;
    }
    host(&b[n + 1..]).map(|h| Addr { local, host: Some(h) })
}
/// The whole of `b` as a path without brackets: optional source route, address.
fn path_inner(b: &[u8]) -> Verdict<Addr> {
    if b.first() == Some(&b':') {
        // an empty source route
        return match addr(&b[1..]) {
            Reject => Reject,
            _ => Free,
        };
    }
    if b.first() != Some(&b'@') {
        return addr(b);
    }
    // hosts contain ':' only inside brackets
    let mut depth = 0;
    let mut end = None;
    for (i, &c) in b.iter().enumerate() {
        match c {
            b'[' => depth += 1,
            b']' => depth -= 1,
            b':' if depth == 0 => {
                end = Some(i);
                break;
            }
            _ => (),
        }
    }
    let end = match end {
        Some(e) => e,
        None => return Reject,
    };
    let mut free = false;
    for hop in b[..end].split(|&c| c == b',') {
        if hop.first() != Some(&b'@') {
            return Reject;
        }
        match host(&hop[1..]) {
            Accept(_) => (),
            Free => free = true,
            Reject => return Reject,
        }
    }
    match addr(&b[end + 1..]) {
        Accept(a) if !free => Accept(a),
        Reject => Reject,
        _ => Free,
    }
}
/// The whole of `b` as a path, with or without brackets.
pub fn path(b: &[u8]) -> Verdict<Addr> {
    if b.first() == Some(&b'<') {
        if b.len() < 2 || b[b.len() - 1] != b'>' {
            return Reject;
        }
        return path_inner(&b[1..b.len() - 1]);
    }
    path_inner(b)
}
/// The whole of `b` as parameters, each preceded by whitespace; trailing whitespace ignored.
pub fn params(b: &[u8]) -> Verdict<Params> {
    let mut out = Params::new();
    if let Some(&c) = b.first() {
        if !is_ws(c) {
            return Reject;
        }
    }
    for word in b.split(|&c| is_ws(c)) {
        if word.is_empty() {
            continue;
        }
        let (k, v) = match word.iter().position(|&c| c == b'=') {
            None => (word, None),
            Some(i) => (&word[..i], Some(&word[i + 1..])),
        };
        if k.is_empty() || !is_alnum(k[0]) || !k.iter().all(|&c| is_alnum(c) || c == b'-') {
            return Reject;
        }
        if let Some(v) = v {
            if v.is_empty() || !v.iter().all(|&c| (33..=126).contains(&c) && c != b'=') {
                return Reject;
            }
        }
        out.entry(k.to_vec()).or_default().push(v.map(|v| v.to_vec()));
    }
    Accept(out)
}

/// The arguments of MAIL / RCPT after the colon.
fn path_and_params(b: &[u8], null_ok: bool) -> Verdict<(Option<Addr>, Params)> {
    let skip = b.iter().take_while(|&&c| is_ws(c)).count();
    let b = &b[skip..];
    // The path ends at the first whitespace outside quotes.
    let mut quoted = false;
    let mut esc = false;
    let mut end = b.len();
    for (i, &c) in b.iter().enumerate() {
        if quoted {
            if esc {
                esc = false;
            } else if c == b'\\' {
                esc = true;
            } else if c == b'"' {
                quoted = false;
            }
        } else if c == b'"' {
            quoted = true;
        } else if is_ws(c) {
            end = i;
            break;
        }
    }
    let pr = match params(&b[end..]) {
        Accept(p) => p,
        Reject => return Reject,
        Free => return Free,
    };
    if null_ok && &b[..end] == b"<>" {
        return Accept((None, pr));
    }
    path(&b[..end]).map(|a| (Some(a), pr))
}

/// The whole input as one command line.
pub fn command(b: &[u8]) -> Verdict<Cmd> {
    let line = match find_crlf(b) {
        Some(i) if i + 2 == b.len() => &b[..i],
        _ => return Reject,
    };
    let has = |v: &str| line.len() >= v.len() && line[..v.len()].eq_ignore_ascii_case(v.as_bytes());
    for (verb, mk) in [("DATA", Cmd::Data), ("QUIT", Cmd::Quit), ("RSET", Cmd::Rset)] {
        if has(verb) {
            return if line[4..].iter().all(|&c| is_ws(c)) { Accept(mk) } else { Reject };
        }
    }
    for (verb, mk) in [("EHLO", Cmd::Ehlo as fn(Host) -> Cmd), ("HELO", Cmd::Helo)] {
        if has(verb) {
            let mut rest = &line[4..];
            if rest.is_empty() || !is_ws(rest[0]) {
                return Reject;
            }
            while !rest.is_empty() && is_ws(rest[0]) {
                rest = &rest[1..];
            }
            while !rest.is_empty() && is_ws(rest[rest.len() - 1]) {
                rest = &rest[..rest.len() - 1];
            }
            return host(rest).map(mk);
        }
    }
    for (verb, optional, mk) in [
        ("EXPN", false, Cmd::Expn as fn(Vec<u8>) -> Cmd),
        ("HELP", true, Cmd::Help),
        ("NOOP", true, Cmd::Noop),
        ("VRFY", false, Cmd::Vrfy),
    ] {
        if has(verb) {
            let rest = &line[4..];
            return match rest.first() {
                None if optional => Accept(mk(vec![])),
                Some(&c) if is_ws(c) => Accept(mk(rest[1..].to_vec())),
                _ => Reject,
            };
        }
    }
    if has("MAIL FROM:") {
        return path_and_params(&line[10..], true).map(|(a, p)| Cmd::Mail(a, p));
    }
    if has("RCPT TO:") {
        return path_and_params(&line[8..], false).map(|(a, p)| Cmd::Rcpt(a.unwrap(), p));
    }
    Reject
}

/// Code, is-last, text of the whole input as one reply line.
pub fn reply(b: &[u8]) -> Option<(u16, bool, Vec<u8>)> {
    let line = match find_crlf(b) {
        Some(i) if i + 2 == b.len() => &b[..i],
        _ => return None,
    };
    if line.len() < 4 || !line[..3].iter().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let code = line[..3].iter().fold(0u16, |a, &c| a * 10 + (c - b'0') as u16);
    match line[3] {
        b' ' => Some((code, true, line[4..].to_vec())),
        b'-' => Some((code, false, line[4..].to_vec())),
        _ => None,
    }
}
/// Texts a reply line may carry when built.
pub fn reply_text_ok(t: &[u8]) -> bool {
    t.len() <= 506 && t.iter().all(|&c| c == 9 || (32..=126).contains(&c))
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn ipv6_like_std() {
        for s in ["::", "::1", "1::", "1:2:3:4:5:6:7:8", "::ffff:1.2.3.4", "1:2:3:4:5:6:1.2.3.4", "1::8",
                  "1:2:3:4:5:6:7::", "::2:3:4:5:6:7:8", "1:2:3:4:5:6:7", ":::", "1:::2", "12345::", "g::", "1::2::3",
                  "", ":", "1:2:3:4:5:6:7:8:9", "1.2.3.4", "::1.2.3", "::01.2.3.4", "1:2:3:4::5:6:7:8", "::%1", "1:", ":1",
                  "::1.2.3.4:5", "abcd:EF01::"] {
            let std = s.parse::<std::net::Ipv6Addr>().ok().map(|a| a.octets());
            assert_eq!(ipv6(s.as_bytes()), std, "{s}");
        }
        for s in ["1.2.3.4", "0.0.0.0", "255.255.255.255", "256.1.1.1", "01.2.3.4", "1.2.3", "1.2.3.4.5", "1..2.3", "00.0.0.0", " 1.2.3.4", "+1.2.3.4"] {
            let std = s.parse::<std::net::Ipv4Addr>().ok().map(|a| a.octets());
            assert_eq!(ipv4(s.as_bytes()), std, "{s}");
        }
    }
    #[test]
    fn codec() {
        for m in [&b""[..], b".", b"..", b"a\r\n.", b"a\r\n.\r\nb", b"\r", b"\n", b"\r\n", b"x\r\n.\r", b"a\n.\nb"] {
            let w = encode(m);
            let d = decode(&w);
            assert_eq!(d.end, Some(w.len()));
            assert_eq!(d.body, received(m));
        }
    }
}
