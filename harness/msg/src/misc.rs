//! M15, M16, M18, M19, M20: replies, serialisation to slow writers, strings, slices.
use crate::data::late;
use bytes::Bytes;
use mcore::model;
use mcore::util::*;
use mcore::*;
use smtp_message::*;
use std::io;

// ------------------------------------------------------------ M15
fn last(b: bool) -> IsLastLine {
    if b { IsLastLine::Yes } else { IsLastLine::No }
}
fn line(code: u16, is_last: bool, text: &[u8]) -> Vec<u8> {
    let mut v = format!("{:03}", code).into_bytes();
    v.push(if is_last { b' ' } else { b'-' });
    v.extend_from_slice(text);
    v.extend_from_slice(b"\r\n");
    v
}
/// The error must tell the length, or the first offending byte.
fn check_build(code: u16, is_last: bool, text: &[u8]) -> Res {
    step();
    let r = ReplyLine::build(ReplyCode::custom(code), last(is_last), SmtpString::from(text));
    let ok = model::reply_text_ok(text);
    note(|| format!("build {code} last={is_last} {} -> {:?}", show(text), r));
    state(&(code, text.len(), is_last));
    match r {
        Ok(l) => {
            case(&(code, is_last, text));
            ensure!(ok, "a reply line with text {} was built", show(text));
            let mut w = vec![];
            l.send_to(&mut w).map_err(|e| format!("writing to memory fails: {e}"))?;
            let want = line(code, is_last, text);
            ensure!(w == want, "reply line {code} {} is written as {}, should be {}", show(text), show(&w), show(&want));
            ensure!(w.len() <= 512, "a reply line of {} bytes was written", w.len());
            ensure!(l.byte_len() == w.len(), "announced length {}, {} bytes written", l.byte_len(), w.len());
            let l2 = l.clone();
            let mut w2 = vec![];
            l2.send_to(&mut w2).map_err(|e| e.to_string())?;
            ensure!(w2 == w, "a copy is written as {}", show(&w2));
        }
        Err(e) => {
            ensure!(!ok, "a reply line with {} bytes of allowed text was refused: {}", text.len(), e);
            // naming the length or the first offending byte
            let d = format!("{:?}", e);
            let nums: Vec<usize> = numbers(&d);
            let bad = text.iter().position(|&c| !(c == 9 || (32..=126).contains(&c)));
            let names_len = text.len() > 506 && nums.contains(&text.len());
            let names_byte = bad.map_or(false, |p| nums.contains(&p) && nums.contains(&(text[p] as usize)));
            ensure!(names_len || names_byte, "the error {:?} for text {} names neither its length nor its first offending byte", e, show(text));
            let shown = format!("{}", e);
            ensure!(!shown.is_empty(), "the error has no description");
        }
    }
    Ok(())
}
fn numbers(s: &str) -> Vec<usize> {
    s.split(|c: char| !c.is_ascii_digit()).filter(|x| !x.is_empty()).filter_map(|x| x.parse().ok()).collect()
}
pub fn m15(t: Tier) -> Check {
    let maxlen = t.pick(3000, 9000);
    let large = large_lengths();
    Check {
        level: Level::Exploration,
        rule: "Build a line, and if built, write it; all outcomes follow from the code, marker and text. Non-trivial: the line was built.",
        spaces: vec![
            space("codes", "every code 0..=999, both markers, 3 texts", || {
                let c = choose(1000) as u16;
                check_build(c, flip(), [&b""[..], b"ok", b"a\tb"][choose(3)])
            }),
            space("code-numbers", "every number 0..=65535 as a reply code: exactly those below 1000 are accepted and kept", || {
                let c = choose(65536) as u16;
                step();
                let got = std::panic::catch_unwind(|| ReplyCode::custom(c));
                note(|| format!("code {c} -> {:?}", got.as_ref().map(|c| c.code()).ok()));
                match got {
                    Ok(r) => {
                        ensure!(c < 1000, "{c} was accepted as a reply code (and says {})", r.code());
                        case(&c);
                        ensure!(r.code() == c, "reply code {c} says {}", r.code());
                    }
                    Err(_) => ensure!(c >= 1000, "{c} was refused as a reply code"),
                }
                Ok(())
            }),
            space("lengths", format!("every text length 0..={maxlen} with 3 kinds of bytes, both markers"), move || {
                let n = choose(maxlen + 1);
                check_build(250, flip(), &vec![pick(b"x \t~"); n])
            }),
            space("bytes-at-positions", "every byte value at every position of texts of 0..=3 bytes, and at 5 positions of texts of 505..=508 bytes", || {
                let b = choose(256) as u8;
                let mut v = if flip() {
                    let n = choose(4);
                    vec![b'x'; n]
                } else {
                    vec![b'x'; 505 + choose(4)]
                };
                let p = [0, 1, 2, v.len() / 2, v.len()][choose(5)].min(v.len());
                if p < v.len() && flip() { v[p] = b } else { v.insert(p, b) }
                check_build(550, flip(), &v)
            }),
            space("bytes-in-full-lines", "every byte value at every position of a text of 506 bytes", || {
                let b = choose(256) as u8;
                let mut v = vec![b'x'; 506];
                v[choose(506)] = b;
                check_build(250, true, &v)
            }),
            space("words", format!("{} reply texts of real mail systems, one or two of them, 7 codes, both markers", words::TEXTS.len()), || {
                let mut v = words::TEXTS[choose(words::TEXTS.len())].to_vec();
                if flip() { v.extend_from_slice(words::TEXTS[choose(words::TEXTS.len())]) }
                check_build([220u16, 250, 354, 421, 451, 550, 0][choose(7)], flip(), &v)
            }),
            space("large", "texts of 25 lengths around 4096, 8192, 16384, 32768, 65536, with or without a forbidden byte", move || {
                let mut v = vec![pick(b"x \t~"); large[choose(large.len())]];
                let n = v.len();
                match choose(4) { 0 => (), 1 => v[n - 1] = 0, 2 => v[506] = 13, _ => v[0] = 255 }
                check_build(250, flip(), &v)
            }),
            space("byte-pairs", "every pair of byte values, short and at the length limit", move || {
                let a = choose(256) as u8;
                let b = choose(256) as u8;
                let mut v = vec![a, b];
                match choose(3) { 0 => (), 1 => v.extend(vec![b'y'; 504]), _ => { let mut w = vec![b'y'; 505]; w.append(&mut v); v = w } }
                check_build(250, true, &v)
            }),
            space("constants", "every named reply code writes as its RFC 5321 number", || {
                let all: &[(ReplyCode, u16)] = &[
                    (ReplyCode::SYSTEM_STATUS, 211), (ReplyCode::HELP_MESSAGE, 214), (ReplyCode::SERVICE_READY, 220), (ReplyCode::CLOSING_CHANNEL, 221),
                    (ReplyCode::OKAY, 250), (ReplyCode::USER_NOT_LOCAL_WILL_FORWARD, 251), (ReplyCode::CANNOT_VRFY_BUT_PLEASE_TRY, 252), (ReplyCode::START_MAIL_INPUT, 354),
                    (ReplyCode::SERVICE_NOT_AVAILABLE, 421), (ReplyCode::MAILBOX_TEMPORARILY_UNAVAILABLE, 450), (ReplyCode::LOCAL_ERROR, 451), (ReplyCode::INSUFFICIENT_STORAGE, 452),
                    (ReplyCode::UNABLE_TO_ACCEPT_PARAMETERS, 455), (ReplyCode::COMMAND_UNRECOGNIZED, 500), (ReplyCode::SYNTAX_ERROR, 501), (ReplyCode::COMMAND_UNIMPLEMENTED, 502),
                    (ReplyCode::BAD_SEQUENCE, 503), (ReplyCode::PARAMETER_UNIMPLEMENTED, 504), (ReplyCode::MAILBOX_UNAVAILABLE, 550), (ReplyCode::POLICY_REASON, 550),
                    (ReplyCode::USER_NOT_LOCAL, 551), (ReplyCode::EXCEEDED_STORAGE, 552), (ReplyCode::MAILBOX_NAME_INCORRECT, 553), (ReplyCode::TRANSACTION_FAILED, 554),
                    (ReplyCode::MAIL_OR_RCPT_PARAMETER_UNIMPLEMENTED, 555),
                ];
                let (c, n) = all[choose(all.len())];
                let il = flip();
                let l = ReplyLine::build(c, last(il), SmtpString::from(&b"t"[..])).map_err(|e| format!("refused: {e}"))?;
                let mut w = vec![];
                l.send_to(&mut w).map_err(|e| e.to_string())?;
                nontrivial();
                ensure!(w == line(n, il, b"t"), "the constant for {n} is written as {}", show(&w));
                ensure!(c.code() == n, "the constant for {n} says {}", c.code());
                Ok(())
            }),
        ],
        assumptions: vec![],
    }
}

// ------------------------------------------------------------ M16
fn check_reply(b: &[u8]) -> Res {
    step();
    let want = model::reply(b);
    let got = ReplyLine::parse(Bytes::from(b));
    note(|| format!("{} -> {:?} / {:?}", show(b), want, got));
    match (want, got) {
        (None, Err(_)) => Ok(()),
        (None, Ok(r)) => Err(format!("{} is not a reply line, but was parsed as {:?}", show(b), r)),
        (Some(_), Err(e)) => Err(format!("{} was refused: {:?}", show(b), e)),
        (Some((code, il, text)), Ok(r)) => {
            case(b);
            state(&(code, il, &text));
            let mut w = vec![];
            r.send_to(&mut w).map_err(|e| format!("writing to memory fails: {e}"))?;
            ensure!(w == b, "{} is written back as {}", show(b), show(&w));
            ensure!(r.byte_len() == w.len(), "{}: announced length {}", show(b), r.byte_len());
            // what is inside: the written form determines it, and so must the value
            if model::reply_text_ok(&text) {
                let built = ReplyLine::build(ReplyCode::custom(code), last(il), SmtpString::from(&text[..])).map_err(|e| format!("refused: {e}"))?;
                ensure!(format!("{:?}", built) == format!("{:?}", r), "{} is parsed as {:?}, not {:?}", show(b), r, built);
            }
            Ok(())
        }
    }
}
pub fn m16(t: Tier) -> Check {
    let all: Vec<u8> = (0..=255).collect();
    let l = t.pick(8, 9);
    let lens = long_lengths(t.pick(2100, 140000));
    Check {
        level: Level::Exploration,
        rule: "Every input is parsed as a reply line by the real parser and an independent reader; if accepted, it is written back and compared, and rebuilt from its parts. Non-trivial: it is a reply line.",
        spaces: vec![
            space("codes", "every code 000..=999 with both markers and 3 texts; and every 4-digit and 2-digit number up to 1100", || {
                let c = choose(1101);
                let s = match choose(3) { 0 => format!("{c:03}"), 1 => format!("{c}"), _ => format!("{c:04}") };
                check_reply(format!("{s}{}{}\r\n", ["-", " "][choose(2)], ["", "ok", " - "][choose(3)]).as_bytes())
            }),
            space("code-bytes", "every byte value at each of the four first positions, in pairs with critical bytes", move || {
                let mut v = b"250 ok\r\n".to_vec();
                let i = choose(4);
                v[i] = choose(256) as u8;
                let j = choose(5);
                if j < 4 && j != i { v[j] = pick(b"+- 0919a.\r\n\xd9\x80") }
                check_reply(&v)
            }),
            space("words", format!("{} reply texts of real mail systems, one or two of them, 7 codes, 4 markers", words::TEXTS.len()), || {
                let mut v = [[&b"220"[..], b"250", b"354", b"421", b"451", b"550", b"000"][choose(7)], [&b" "[..], b"-", b"", b"\t"][choose(4)], words::TEXTS[choose(words::TEXTS.len())]].concat();
                if flip() { v.extend_from_slice(words::TEXTS[choose(words::TEXTS.len())]) }
                v.extend_from_slice(b"\r\n");
                check_reply(&v)
            }),
            space("endings", format!("'250' followed by every string over {{space,-,CR,LF,x}} of length 0..={l}"), move || {
                check_reply(&[b"250", &string(b" -\r\nx", 0, l)[..]].concat())
            }),
            space("strings", format!("every string over {{2,+,space,-,CR,LF}} of length 0..={}", l + 1), move || check_reply(&string(b"2+ -\r\n", 0, l + 1))),
            space("edits", "each byte value substituted or inserted, deletions, truncations at every position of 4 reply lines; then two edits", move || {
                const R: &[&[u8]] = &[b"250 ok done\r\n", b"354-a\r\n", b"000 \r\n", b"999-\xffx\ry\n\r\n"];
                let mut v = R[choose(R.len())].to_vec();
                let n = 1 + choose(2);
                for k in 0..n {
                    let bs: &[u8] = if n == 1 || k == 0 { &all } else { b"\r\n -+5" };
                    let i = choose(v.len() + 1);
                    match choose(if i < v.len() { 4 } else { 1 }) { 0 => v.insert(i, pick(bs)), 1 => v[i] = pick(bs), 2 => { v.remove(i); } _ => v.truncate(i) }
                }
                check_reply(&v)
            }),
            space("lengths", format!("texts of {} lengths up to {} of 4 kinds, with and without CRLF", lens.len(), lens[lens.len() - 1]), move || {
                let n = lens[choose(lens.len())];
                let x: Vec<u8> = [&b"x"[..], b"\r", b"\n", b" -"][choose(4)].iter().cycle().take(n).cloned().collect();
                check_reply(&[[&b"250 "[..], b"199-"][choose(2)], &x, [&b"\r\n"[..], b"", b"\r\n\r\n"][choose(3)]].concat())
            }),
            space("built-lines", "every built line parses back: 30 codes x markers x 400 texts", || {
                let code = (choose(30) * 34 + 13) as u16 % 1000;
                let il = flip();
                let n = choose(100) * 5 + choose(4);
                let text = vec![pick(b"x -\t"); n];
                let r = ReplyLine::build(ReplyCode::custom(code), last(il), SmtpString::from(&text[..])).map_err(|e| format!("refused: {e}"))?;
                let mut w = vec![];
                r.send_to(&mut w).map_err(|e| e.to_string())?;
                check_reply(&w)?;
                let p = ReplyLine::parse(Bytes::from(w)).map_err(|e| format!("refused: {e}"))?;
                ensure!(format!("{:?}", p) == format!("{:?}", r), "built {:?}, parsed back {:?}", r, p);
                Ok(())
            }),
        ],
        assumptions: vec!["the parsed value is observed through its serialisation and its Debug form"],
    }
}

// ------------------------------------------------------------ M18
/// A writer whose every call is a fault point.
struct Slow {
    got: Vec<u8>,
    failed: Option<io::ErrorKind>,
    calls: usize,
    after: usize,
}
impl io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.calls += 1;
        if self.failed.is_some() {
            self.after += 1;
            return Err(io::Error::new(io::ErrorKind::Other, "after the failure"));
        }
        if b.is_empty() {
            return Ok(0);
        }
        match dev(6) {
            0 => {
                self.got.extend_from_slice(b);
                Ok(b.len())
            }
            1 => {
                self.got.push(b[0]);
                Ok(1)
            }
            2 => {
                let n = (b.len() + 1) / 2;
                self.got.extend_from_slice(&b[..n]);
                Ok(n)
            }
            3 => {
                late();
                Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"))
            }
            4 => {
                self.failed = Some(io::ErrorKind::BrokenPipe);
                Err(io::Error::new(io::ErrorKind::BrokenPipe, "gone"))
            }
            _ => {
                self.failed = Some(io::ErrorKind::WriteZero);
                Ok(0)
            }
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
fn check_write(what: &str, f: &dyn Fn(&mut dyn io::Write) -> io::Result<()>) -> Res {
    let mut want = vec![];
    f(&mut want).map_err(|e| format!("writing {what} to memory fails: {e}"))?;
    let mut w = Slow { got: vec![], failed: None, calls: 0, after: 0 };
    let r = f(&mut w);
    step();
    state(&(&w.got, w.failed.is_some()));
    note(|| format!("{what}: {} calls, wrote {} of {}, result {:?}, failed {:?}", w.calls, show(&w.got), show(&want), r, w.failed));
    match w.failed {
        None => {
            ensure!(r.is_ok(), "{what}: the writer never failed, but the result is {:?}", r);
            ensure!(w.got == want, "{what}: short writes and interruptions left {} instead of {}", show(&w.got), show(&want));
            if w.calls > 1 { nontrivial() }
        }
        Some(k) => {
            nontrivial();
            match r {
                Ok(()) => return Err(format!("{what}: the writer failed after {} but success was reported", show(&w.got))),
                Err(e) => ensure!(e.kind() == k, "{what}: the writer failed with {:?} but {:?} was reported", k, e),
            }
            ensure!(want.starts_with(&w.got), "{what}: before the failure {} was written, not a prefix of {}", show(&w.got), show(&want));
        }
    }
    Ok(())
}
/// A writer that takes `per` bytes per call, each call preceded by `storm` interruptions, and optionally fails once at byte `fail.0`.
struct Paced {
    got: Vec<u8>,
    per: usize,
    storm: usize,
    left: usize,
    fail: Option<(usize, io::ErrorKind)>,
}
impl io::Write for Paced {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if b.is_empty() {
            return Ok(0);
        }
        if self.left > 0 {
            self.left -= 1;
            late();
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        let mut n = b.len().min(self.per);
        if let Some((at, k)) = self.fail {
            if self.got.len() >= at {
                // once only: whoever tries again is served
                self.fail = None;
                return Err(io::Error::new(k, "gone"));
            }
            n = n.min(at - self.got.len());
        }
        self.got.extend_from_slice(&b[..n]);
        self.left = self.storm;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
type Writes<'a> = &'a dyn Fn(&mut dyn io::Write) -> io::Result<()>;
fn paced(what: &str, f: Writes, per: usize, storm: usize) -> Res {
    let mut want = vec![];
    f(&mut want).map_err(|e| format!("writing {what} to memory fails: {e}"))?;
    let mut w = Paced { got: vec![], per, storm, left: storm, fail: None };
    let r = f(&mut w);
    step();
    nontrivial();
    ensure!(r.is_ok(), "{what}: the writer takes {per} bytes per call after {storm} interruptions, and the result is {:?} after {} bytes", r, w.got.len());
    ensure!(w.got == want, "{what}: {per} bytes per call after {storm} interruptions left {} of {} bytes, or other ones", w.got.len(), want.len());
    Ok(())
}
/// Chooses one of a family of short values and hands its serialisation to `go`.
fn with_value(go: &dyn Fn(&str, Writes) -> Res) -> Res {
    const L: &[&[u8]] = &[b"DATA\r\n", b"EHLO a.b\r\n", b"EHLO [IPv6:1::2]\r\n", b"HELO [9.8.7.6]\r\n", b"EXPN l\r\n", b"HELP\r\n", b"HELP x y\r\n", b"NOOP z\r\n", b"QUIT\r\n", b"RSET\r\n", b"VRFY u\r\n",
        b"MAIL FROM:<>\r\n", b"MAIL FROM:<a@b> K=v L\r\n", b"MAIL FROM:<\"q\"@[1.2.3.4]>\r\n", b"RCPT TO:<a@[IPv6:::1]>\r\n", b"RCPT TO:<u> A\r\n"];
    let i = choose(L.len() + 4);
    if i < L.len() {
        let c = Command::parse(Bytes::from(L[i])).map_err(|e| format!("{} refused: {e}", show(L[i])))?;
        return go(&format!("command {}", show(L[i])), &|w| c.send_to(w));
    }
    match i - L.len() {
        0 => {
            let x = Email::parse_slice(b"\"q q\"@[1.2.3.4]").map_err(|e| format!("refused: {e}"))?;
            go("address", &|w| x.send_to(w))
        }
        1 => {
            let x = Some(Email::parse_slice(b"a@b.c").map_err(|e| format!("refused: {e}"))?);
            go("optional address", &|w| x.send_to(w))
        }
        2 => {
            let x = SmtpString::from(&b"hello\r\nworld"[..]);
            go("string", &|w| x.send_to(w))
        }
        _ => {
            let r = ReplyLine::build(ReplyCode::custom(250), last(flip()), SmtpString::from(&b"a reply text"[..])).map_err(|e| format!("refused: {e}"))?;
            go("reply", &|w| r.send_to(w))
        }
    }
}
pub fn m18(t: Tier) -> Check {
    let b = t.pick(5, 6);
    Check {
        level: Level::Fault,
        rule: "Every call to the writer is a fault point with six answers: all, one byte, half, interrupted, error, zero. Up to the budget of calls deviate from 'all'. Non-trivial: a failure, or more than one call.",
        spaces: vec![
            space("commands", format!("20 command lines, up to {b} odd answers"), move || {
                const L: &[&[u8]] = &[b"DATA\r\n", b"EHLO a.b\r\n", b"EHLO [1.2.3.4]\r\n", b"EHLO [IPv6:1::2]\r\n", b"HELO x\r\n", b"HELO [IPv6:::1]\r\n", b"HELO [9.8.7.6]\r\n", b"EXPN l\r\n", b"HELP\r\n", b"HELP x y\r\n", b"NOOP\r\n", b"NOOP z\r\n", b"QUIT\r\n", b"RSET\r\n", b"VRFY u\r\n",
                    b"MAIL FROM:<>\r\n", b"MAIL FROM:<a@b> K=v\r\n", b"MAIL FROM:<\"q\"@[1.2.3.4]>\r\n", b"RCPT TO:<a@[IPv6:::1]>\r\n", b"RCPT TO:<u> A\r\n"];
                let l = L[choose(L.len())];
                let c = Command::parse(Bytes::from(l)).map_err(|e| format!("{} refused: {e}", show(l)))?;
                check_write(&format!("command {}", show(l)), &|w| c.send_to(w))?;
                Ok(())
            }).budget(b),
            space("trait-objects", format!("addresses, optional addresses, strings, hosts, parameters, MAIL and RCPT through Sendable, up to {b} odd answers"), move || {
                let e = || Email::parse_slice([&b"a@b.c"[..], b"\"q q\"@[1.2.3.4]", b"u@[IPv6:1::]", b"solo"][choose(4)]).map_err(|e| format!("refused: {e}"));
                match choose(7) {
                    0 => { let x = e()?; check_write("address", &|w| x.send_to(w)) }
                    1 => { let x = Some(e()?); check_write("optional address", &|w| x.send_to(w)) }
                    2 => { let x: Option<Email> = None; check_write("no address", &|w| x.send_to(w)) }
                    3 => { let x = SmtpString::from([&b""[..], b"x", b"hello\r\nworld"][choose(3)]); check_write("string", &|w| x.send_to(w)) }
                    4 => { let x = e()?; match x.hostname() { Some(h) => check_write("host", &|w| h.send_to(w)), None => Ok(()) } }
                    5 => {
                        let l: &[u8] = [&b"MAIL FROM:<a@b> K=v\r\n"[..], b"RCPT TO:<a@b> J\r\n", b"MAIL FROM:<> X=yz\r\n"][choose(3)];
                        match Command::parse(Bytes::from(l)).map_err(|e| format!("refused: {e}"))? {
                            Command::Mail(m) => if flip() { check_write("MAIL", &|w| m.send_to(w)) } else { check_write("parameters", &|w| m.params.send_to(w)) },
                            Command::Rcpt(m) => if flip() { check_write("RCPT", &|w| m.send_to(w)) } else { check_write("parameters", &|w| m.params.send_to(w)) },
                            _ => Err("parsed as something else".into()),
                        }
                    }
                    _ => {
                        // several parameters: their order may differ between values, not between writes of one
                        // (same-length parameters: the order, which is random, does not change the choices to make)
                        let l = b"MAIL FROM:<a@b> K=v L=w M=x\r\n";
                        match Command::parse(Bytes::from(&l[..])).map_err(|e| format!("refused: {e}"))? {
                            Command::Mail(m) => check_write("three parameters", &|w| m.params.send_to(w)),
                            _ => Err("parsed as something else".into()),
                        }
                    }
                }
            }).budget(b),
            space("replies", format!("reply lines with texts of 0, 1, 40 and 506 bytes, both markers, up to {b} odd answers"), move || {
                let n = [0usize, 1, 40, 506][choose(4)];
                let r = ReplyLine::build(ReplyCode::custom([250, 7][choose(2)]), last(flip()), SmtpString::from(vec![b'x'; n])).map_err(|e| format!("refused: {e}"))?;
                check_write("reply", &|w| r.send_to(w))
            }).budget(b),
            space("every-single-byte-write", "a writer that takes one byte per call throughout, every command", || {
                struct One(Vec<u8>);
                impl io::Write for One {
                    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
                        if b.is_empty() { return Ok(0) }
                        self.0.push(b[0]);
                        Ok(1)
                    }
                    fn flush(&mut self) -> io::Result<()> { Ok(()) }
                }
                const L: &[&[u8]] = &[b"EHLO [IPv6:1::2]\r\n", b"MAIL FROM:<a@b> K=v\r\n", b"RCPT TO:<\"x\"@[1.2.3.4]>\r\n", b"HELP aa\r\n", b"DATA\r\n", b"VRFY u\r\n"];
                let l = L[choose(L.len())];
                let c = Command::parse(Bytes::from(l)).map_err(|e| format!("refused: {e}"))?;
                let mut a = vec![];
                c.send_to(&mut a).map_err(|e| e.to_string())?;
                let mut o = One(vec![]);
                c.send_to(&mut o).map_err(|e| format!("one byte per call: {e}"))?;
                nontrivial();
                ensure!(o.0 == a, "one byte per call leaves {} instead of {}", show(&o.0), show(&a));
                Ok(())
            }),
            space("kinds", "19 kinds of error, once, at every byte offset of a command, address, reply or string, after writes of everything, one byte or seven bytes per call", || {
                use io::ErrorKind as K;
                const KINDS: &[io::ErrorKind] = &[K::NotFound, K::PermissionDenied, K::ConnectionRefused, K::ConnectionReset, K::ConnectionAborted, K::NotConnected, K::AddrInUse, K::AddrNotAvailable, K::BrokenPipe,
                    K::AlreadyExists, K::WouldBlock, K::InvalidInput, K::InvalidData, K::TimedOut, K::WriteZero, K::UnexpectedEof, K::Unsupported, K::OutOfMemory, K::Other];
                let kind = KINDS[choose(KINDS.len())];
                let per = [usize::MAX, 1, 7][choose(3)];
                with_value(&|what, f| {
                    let mut want = vec![];
                    f(&mut want).map_err(|e| format!("writing {what} to memory fails: {e}"))?;
                    for at in 0..want.len() {
                        let mut w = Paced { got: vec![], per, storm: 0, left: 0, fail: Some((at, kind)) };
                        let r = f(&mut w);
                        step();
                        match r {
                            Ok(()) => return Err(format!("{what}: the writer failed with {kind:?} after {} but success was reported", show(&w.got))),
                            Err(e) => ensure!(e.kind() == kind, "{what}: the writer failed with {kind:?} but {:?} was reported", e),
                        }
                        ensure!(w.got[..] == want[..at], "{what}: before the failure at byte {at} {} was written instead of {}", show(&w.got), show(&want[..at]));
                    }
                    nontrivial();
                    Ok(())
                })
            }),
            space("paced", "a writer that takes 1..=16, 31..=33, 63..=65, 127..=129, 255..=257, 511..=513, 1023..=1025, 4095..=4097 bytes or everything per call, each call preceded by 0..=11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255..=257, 1000 or 5000 interruptions; short values", || {
                let mut pers: Vec<usize> = (1..=16).collect();
                for k in [32, 64, 128, 256, 512, 1024, 4096] { pers.extend([k - 1, k, k + 1]) }
                pers.push(usize::MAX);
                const STORMS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 255, 256, 257, 1000, 5000];
                let per = pers[choose(pers.len())];
                let storm = STORMS[choose(STORMS.len())];
                with_value(&|what, f| paced(what, f, per, storm))
            }),
            space("paced-long", "the same, for arguments, parameters, strings of 500..=66000 bytes and replies of 500 bytes, with 0, 1, 3, 10 and 100 interruptions before a call", || {
                let mut pers: Vec<usize> = vec![1, 2, 3, 7, 9];
                for k in [32, 64, 128, 256, 512, 1024, 4096, 8192, 16384, 32768, 65536] { pers.extend([k - 1, k, k + 1]) }
                pers.push(usize::MAX);
                let per = pers[choose(pers.len())];
                let n = [506usize, 1000, 1024, 4096, 8192, 16384, 65535, 65536, 66000][choose(9)];
                let storm = [0usize, 1, 3, 10, 100][choose(if per < 32 { 3 } else { 5 })];
                let big = vec![b'x'; n];
                match choose(5) {
                    0 => { let x = SmtpString::from(&big[..]); paced("long string", &|w| x.send_to(w), per, storm) }
                    1 | 2 | 3 if n > 1000 && per < 7 => Ok(()),
                    1 => {
                        let c = Command::parse(Bytes::from([b"VRFY ", &big[..], b"\r\n"].concat())).map_err(|e| format!("refused: {e}"))?;
                        paced("long VRFY", &|w| c.send_to(w), per, storm)
                    }
                    2 => {
                        let c = Command::parse(Bytes::from([b"MAIL FROM:<a@b> K=", &big[..], b" L=v\r\n"].concat())).map_err(|e| format!("refused: {e}"))?;
                        paced("long parameter", &|w| c.send_to(w), per, storm)
                    }
                    3 => {
                        let x = Email::parse_slice(&[&big[..], b"@b"].concat()).map_err(|e| format!("refused: {e}"))?;
                        paced("long address", &|w| x.send_to(w), per, storm)
                    }
                    _ => {
                        if n != 506 { return Ok(()) }
                        let r = ReplyLine::build(ReplyCode::custom(250), last(flip()), SmtpString::from(&big[..])).map_err(|e| format!("refused: {e}"))?;
                        paced("long reply", &|w| r.send_to(w), per, storm)
                    }
                }
            }),
            space("from-sendable", "every sequence of 0..=4 strings built from what writes itself: 0..=3 parts, failing before any of them or not: each is its own serialisation, and a failing serialisation is an error", || {
                struct Parts(usize, usize, u8);
                impl Sendable for Parts {
                    fn send_to(&self, w: &mut dyn io::Write) -> io::Result<()> {
                        for i in 0..self.0 {
                            if i == self.1 {
                                return Err(io::Error::new(io::ErrorKind::Other, "no"));
                            }
                            w.write_all(&[self.2, b'0' + i as u8])?;
                        }
                        Ok(())
                    }
                }
                let n = choose(5);
                let mut kept = vec![];
                for k in 0..n {
                    let m = choose(4);
                    let p = Parts(m, choose(m + 1), b'a' + k as u8);
                    let want: Vec<u8> = (0..m).flat_map(|i| [p.2, b'0' + i as u8].to_vec()).collect();
                    nontrivial();
                    step();
                    match SmtpString::from_sendable(&p) {
                        Ok(s) => {
                            ensure!(p.1 == m && s.bytes()[..] == want[..], "from_sendable gave {} for {}", show(s.bytes()), show(&want));
                            kept.push((s, want));
                        }
                        Err(_) => ensure!(p.1 < m, "from_sendable failed"),
                    }
                    for (s, want) in &kept { ensure!(s.bytes()[..] == want[..], "a string turned from {} into {}", show(want), show(s.bytes())) }
                }
                Ok(())
            }),
        ],
        assumptions: vec!["one serialisation of a value has a fixed order of parameters"],
    }
}

// ------------------------------------------------------------ M19
fn mk(content: &[u8], how: usize) -> SmtpString {
    match how {
        0 => SmtpString::from(content),
        1 => SmtpString::from(content.to_vec()),
        2 => SmtpString::from(Bytes::from(content)),
        3 => {
            // a window of a larger shared buffer
            let big = Bytes::from([b"<<<", content, b">>>--------------------------------------------"].concat());
            SmtpString::from(big.slice(3, 3 + content.len()))
        }
        4 => SmtpString::from_static(Box::leak(content.to_vec().into_boxed_slice())),
        _ => {
            let mut b = bytes::BytesMut::with_capacity(content.len() + 64);
            b.extend_from_slice(content);
            SmtpString::from(b.freeze())
        }
    }
}
const STATIC: &[&[u8]] = &[b"", b"a", b"bc", b"0123456789abcdef0123456789abcde", b"0123456789abcdef0123456789abcdef"];
fn check_chunks(s: &SmtpString, content: &[u8], n: usize) -> Res {
    let ch: Vec<SmtpString> = s.byte_chunks(n).collect();
    state(&(content.len(), n));
    let cat: Vec<u8> = ch.iter().flat_map(|c| c.bytes().to_vec()).collect();
    ensure!(cat == content, "chunks of {} bytes of {} concatenate to {}", n, show(content), show(&cat));
    for (i, c) in ch.iter().enumerate() {
        ensure!(c.byte_len() <= n, "a chunk of {} bytes, at most {n} allowed", c.byte_len());
        ensure!(content.is_empty() || c.byte_len() > 0, "an empty chunk of a non-empty string");
        ensure!(i + 1 == ch.len() || c.byte_len() == n, "chunk {i} of {} has {} bytes instead of {n}", ch.len(), c.byte_len());
    }
    if ch.len() > 1 { nontrivial() }
    ensure!(s.bytes()[..] == content[..], "cutting changed the string to {}", show(s.bytes()));
    Ok(())
}
fn check_view(s: &SmtpString, content: &[u8]) -> Res {
    ensure!(s.byte_len() == content.len() && s.bytes()[..] == content[..], "string holds {} instead of {}", show(s.bytes()), show(content));
    ensure!(s.iter_bytes().cloned().eq(content.iter().cloned()), "iteration differs from {}", show(content));
    for i in 0..content.len() {
        ensure!(s.byte(i) == content[i], "byte {i} is {}", s.byte(i));
    }
    Ok(())
}
pub fn m19(t: Tier) -> Check {
    let maxn = t.pick(131, 131);
    let lens = long_lengths(t.pick(2100, 9000));
    let depth = t.pick(3, 4);
    Check {
        level: Level::Model,
        rule: "Model: plain byte vectors. Every origin of the strings (copied, owned, shared window, static, over-allocated) and every history of concatenations, copies and cuts up to the depth. Non-trivial: more than one chunk, or a concatenation.",
        spaces: vec![
            space("chunks", format!("every string length 0..=130 x every chunk size 1..={maxn} x 6 origins"), move || {
                let len = choose(131);
                let c: Vec<u8> = (0..len).map(|i| (i * 7 % 251) as u8).collect();
                let n = 1 + choose(maxn);
                check_chunks(&mk(&c, choose(6)), &c, n)
            }),
            space("chunks-large", format!("{} lengths x chunk sizes around 506, 512 and the length itself", lens.len()), move || {
                let len = lens[choose(lens.len())];
                let c: Vec<u8> = (0..len).map(|i| (i * 13 % 251) as u8).collect();
                let n = match choose(12) { 0 => 1, 1 => 505, 2 => 506, 3 => 507, 4 => 511, 5 => 512, 6 => len.max(1), 7 => len + 1, 8 => len.max(2) - 1, 9 => 64, 10 => len / 2 + 1, _ => len / 3 + 1 };
                check_chunks(&mk(&c, choose(6)), &c, n)
            }),
            space("chunks-huge-sizes", "16 lengths x 24 chunk sizes around 2^15, 2^16, 2^31, 2^32, 2^63 and the largest integer x 6 origins", move || {
                let len = pick(&[0usize, 1, 2, 3, 4, 7, 8, 15, 31, 32, 33, 64, 506, 512, 1000, 65536]);
                let c: Vec<u8> = (0..len).map(|i| (i * 13 % 251) as u8).collect();
                let base = pick(&[1usize << 15, 1 << 16, 1 << 31, 1 << 32, 1 << 63, usize::MAX - 1]);
                let n = base + choose(2) - choose(2) * len.max(1).min(base - 1);
                check_chunks(&mk(&c, choose(6)), &c, n)
            }),
            space("concatenation", "every pair of lengths around 0..=70 and block sizes x 6 x 6 origins, with copies kept alive or not", move || {
                let ls: Vec<usize> = vec![0, 1, 2, 15, 16, 30, 31, 32, 33, 63, 64, 65, 506, 1000];
                let (la, lb) = (pick(&ls), pick(&ls));
                let a: Vec<u8> = (0..la).map(|i| b'a' + (i % 26) as u8).collect();
                let b: Vec<u8> = (0..lb).map(|i| b'A' + (i % 26) as u8).collect();
                let (sa, sb) = (mk(&a, choose(6)), mk(&b, choose(6)));
                let keep = if flip() { Some((sa.clone(), sb.clone())) } else { None };
                let s = sa + sb;
                nontrivial();
                check_view(&s, &[&a[..], &b].concat())?;
                if let Some((ka, kb)) = keep {
                    check_view(&ka, &a)?;
                    check_view(&kb, &b)?;
                    ensure!(ka == mk(&a, 0) && kb == mk(&b, 1), "copies no longer equal their content");
                }
                state(&(la, lb));
                Ok(())
            }),
            space("concatenation-large", "31 lengths from 127 to a million around powers of two, before or behind one of 10 lengths from 0 to 1000 or itself, of the same or (6) other origins", || {
                const L: [usize; 31] = [127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 8191, 8192, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131_072, 1_000_000];
                const S: [usize; 10] = [0, 1, 2, 7, 8, 31, 32, 33, 100, 1000];
                let l = pick(&L);
                let m = choose(S.len() + 1);
                let m = if m < S.len() { S[m] } else { l };
                let (la, lb) = if flip() { (l, m) } else { (m, l) };
                let a: Vec<u8> = (0..la).map(|i| (i % 251) as u8).collect();
                let b: Vec<u8> = (0..lb).map(|i| (i % 241 + 7) as u8).collect();
                let o = choose(6);
                let s = mk(&a, o) + mk(&b, if flip() { o } else { (o + 1 + choose(5)) % 6 });
                nontrivial();
                state(&(la, lb));
                check_view(&s, &[&a[..], &b].concat())
            }),
            space("histories", format!("every history of {depth} operations (create, copy, concatenate two, take a chunk) on up to {} live strings; all of them checked after every step", depth + 2), move || {
                let mut live: Vec<(SmtpString, Vec<u8>)> = vec![];
                for c in [STATIC[choose(STATIC.len())], b"xyz"] {
                    let h = choose(4);
                    live.push((mk(c, h), c.to_vec()));
                }
                for _ in 0..depth {
                    let i = choose(live.len());
                    match choose(4) {
                        0 => { let x = live[i].clone(); live.push(x) }
                        1 => {
                            let j = choose(live.len());
                            let b = live[j].clone();
                            let a = live.remove(i);
                            let m = [&a.1[..], &b.1].concat();
                            live.push((a.0 + b.0, m));
                            nontrivial();
                        }
                        2 => {
                            let j = choose(live.len());
                            let m = [&live[i].1[..], &live[j].1].concat();
                            live.push((live[i].0.clone() + live[j].0.clone(), m));
                            nontrivial();
                        }
                        _ => {
                            let n = 1 + choose(2) * 30;
                            let parts: Vec<SmtpString> = live[i].0.byte_chunks(n).collect();
                            let models: Vec<Vec<u8>> = live[i].1.chunks(n).map(|c| c.to_vec()).collect();
                            let parts: Vec<SmtpString> = parts.into_iter().filter(|p| p.byte_len() > 0).collect();
                            ensure!(parts.len() == models.len(), "{} chunks instead of {}", parts.len(), models.len());
                            if let (Some(p), Some(m)) = (parts.last(), models.last()) { live.push((p.clone(), m.clone())) }
                            if let (Some(p), Some(m)) = (parts.first(), models.first()) { live.push((p.clone(), m.clone())) }
                        }
                    }
                    for (s, m) in &live {
                        check_view(s, m)?;
                    }
                    let mut ms: Vec<&Vec<u8>> = live.iter().map(|x| &x.1).collect();
                    ms.sort();
                    state(&ms);
                }
                outcome(&live.iter().map(|x| x.1.len()).collect::<Vec<_>>());
                Ok(())
            }),
            space("chunks-many", "strings of 4096, 70000, 300000 and 1000000 bytes in chunks of 1..=9, 15..=17, 63..=65, 505..=507, 511..=513, 4095..=4097, 65535..=65537 bytes", || {
                let len = pick(&[4096usize, 70_000, 300_000, 1_000_000]);
                let c: Vec<u8> = (0..len).map(|i| (i % 249) as u8).collect();
                let mut ns: Vec<usize> = (1..=9).collect();
                for k in [16, 64, 506, 512, 4096, 65536] { ns.extend([k - 1, k, k + 1]) }
                check_chunks(&mk(&c, choose(4)), &c, pick(&ns))
            }),
            space("chunks-interleaved", "two chunk iterations of one string of 0..=12 bytes with chunk sizes 1..=5, taken in every order, one dropped early or not, the string itself dropped, extended or kept meanwhile", || {
                let len = choose(13);
                let c: Vec<u8> = (0..len).map(|i| b'a' + i as u8).collect();
                let (n, m) = (1 + choose(5), 1 + choose(5));
                let s = mk(&c, choose(4));
                let (mut i, mut j) = (s.byte_chunks(n), Some(s.byte_chunks(m)));
                let keep = match choose(3) { 0 => { drop(s); None } 1 => Some((s.clone() + mk(b"!", 0), [&c[..], b"!"].concat())), _ => Some((s, c.clone())) };
                let (mut gi, mut gj) = (vec![], vec![]);
                let early = flip();
                for _ in 0..3 {
                    if flip() { gi.extend(i.next()) } else if let Some(j) = &mut j { gj.extend(j.next()) }
                }
                if early { j = None }
                gi.extend(i);
                if let Some(j) = j { gj.extend(j) }
                let want = |k: usize| c.chunks(k).map(|x| x.to_vec()).collect::<Vec<_>>();
                let bytes = |g: Vec<SmtpString>| g.iter().filter(|x| x.byte_len() > 0).map(|x| x.bytes().to_vec()).collect::<Vec<_>>();
                nontrivial();
                let (gi, gj) = (bytes(gi), bytes(gj));
                ensure!(gi == want(n), "chunks of {n} bytes of {} are {}", show(&c), show_pieces(&gi));
                ensure!(if early { want(m).starts_with(&gj) } else { gj == want(m) }, "chunks of {m} bytes of {} are {}", show(&c), show_pieces(&gj));
                if let Some((s, w)) = keep { check_view(&s, &w)? }
                Ok(())
            }),
            space("grown", "a string grown by 10, 100, 1000, 5000 concatenations of pieces of 0..=3, 31, 32, 33, 506 bytes of 6 origins, from either side, with copies of the intermediate results kept or not", || {
                let n = pick(&[10usize, 100, 1000, 5000]);
                let k = pick(&[0usize, 1, 2, 3, 31, 32, 33, 506]);
                if n * k > 600_000 { return Ok(()) }
                let how = choose(6);
                let (front, keep) = (flip() && n <= 1000, flip());
                let mut s = mk(b"", how);
                let mut m: Vec<u8> = vec![];
                let mut kept = vec![];
                for i in 0..n {
                    let p: Vec<u8> = (0..k).map(|j| ((i * 31 + j) % 251) as u8).collect();
                    let q = mk(&p, how);
                    if keep && i % (n / 10) == 3 % (n / 10) { kept.push((s.clone(), m.clone())) }
                    if front {
                        s = q + s;
                        m.splice(0..0, p);
                    } else {
                        s = s + q;
                        m.extend(p);
                    }
                }
                nontrivial();
                check_view(&s, &m)?;
                for (s, m) in &kept { check_view(s, m)? }
                Ok(())
            }),
            space("equality-bytes", "every pair of byte values at any place of 4 contexts, and strings of 1..=70, 127..=129, 255..=257, 4095..=4097, 65535..=65537 bytes against themselves with one byte changed at the start, middle or end, cut by one, and extended by one", || {
                use std::collections::hash_map::DefaultHasher;
                use std::hash::{Hash, Hasher};
                let h = |s: &SmtpString| { let mut h = DefaultHasher::new(); s.hash(&mut h); h.finish() };
                let (a, b): (Vec<u8>, Vec<u8>) = if flip() {
                    let (x, y) = (choose(256) as u8, choose(256) as u8);
                    match choose(4) { 0 => (vec![x], vec![y]), 1 => (vec![x, b'a'], vec![y, b'a']), 2 => (vec![b'a', x], vec![b'a', y]), _ => (vec![x, y], vec![y, x]) }
                } else {
                    let mut ls: Vec<usize> = (1..=70).collect();
                    for k in [128, 256, 4096, 65536] { ls.extend([k - 1, k, k + 1]) }
                    let l = pick(&ls);
                    let a: Vec<u8> = (0..l).map(|i| (i % 251) as u8).collect();
                    let mut b = a.clone();
                    match choose(6) { 0 => b[0] ^= 0x20, 1 => b[l / 2] ^= 1, 2 => b[l - 1] ^= 0x80, 3 => { b.pop(); } 4 => b.push(0), _ => () }
                    (a, b)
                };
                let (sa, sb) = (mk(&a, choose(2) * 3), mk(&b, choose(2)));
                nontrivial();
                ensure!((sa == sb) == (a == b) && (sb == sa) == (a == b) && (sa != sb) == (a != b), "{} and {} compare {}", show(&a), show(&b), sa == sb);
                if a == b { ensure!(h(&sa) == h(&sb), "equal strings hash differently") }
                Ok(())
            }),
            space("equality-shared", "every pair of windows of one buffer of 4 (thorough: 7) bytes, or of 6 long ones, static or shared, or chunks of one string: equal exactly when the bytes are equal, wherever they are, and then hash alike", move || {
                use std::collections::hash_map::DefaultHasher;
                use std::hash::{Hash, Hasher};
                let h = |s: &SmtpString| { let mut h = DefaultHasher::new(); s.hash(&mut h); h.finish() };
                static LONG: [u8; 4096] = [b'a'; 4096];
                let (sa, sb) = match choose(3) {
                    0 => {
                        let v = string(b"ab", 0, t.pick(4, 7));
                        let n = v.len();
                        // long enough in front not to be stored inline
                        let all = Bytes::from([&[b'-'; 40][..], &v].concat()).slice_from(40);
                        let w = || { let i = choose(n + 1); (i, i + choose(n + 1 - i)) };
                        let ((i, j), (k, l)) = (w(), w());
                        (all.slice(i, j), all.slice(k, l))
                    }
                    1 => {
                        let all = if flip() { Bytes::from_static(&LONG) } else { Bytes::from(&LONG[..]) };
                        const P: [usize; 6] = [0, 1, 32, 100, 4095, 4096];
                        let w = || { let (i, j) = (choose(6), choose(6)); (P[i.min(j)], P[i.max(j)]) };
                        let ((i, j), (k, l)) = (w(), w());
                        (all.slice(i, j), all.slice(k, l))
                    }
                    _ => {
                        let n = 1 + choose(4);
                        let s = SmtpString::from(&[b"abababababababababababababababababababab".to_vec(), string(b"ab", 0, 4)].concat()[..]);
                        let mut c: Vec<SmtpString> = s.byte_chunks([1, 2, 7, 39][n - 1]).collect();
                        c.push(s);
                        let (i, j) = (choose(c.len()), choose(c.len()));
                        (c[i].bytes().clone(), c[j].bytes().clone())
                    }
                };
                nontrivial();
                step();
                state(&(sa.len(), sb.len()));
                let eq = sa[..] == sb[..];
                let (a, b) = (SmtpString::from(sa), SmtpString::from(sb));
                ensure!((a == b) == eq && (b == a) == eq && (a != b) != eq, "{} and {}, of one buffer, compare {}", show(a.bytes()), show(b.bytes()), a == b);
                if eq { ensure!(h(&a) == h(&b), "equal strings hash differently") }
                Ok(())
            }),
            space("equality", "every pair of strings over {a,b} of length 0..=4 x origins: equal exactly when the bytes are equal, and then hash alike", || {
                use std::collections::hash_map::DefaultHasher;
                use std::hash::{Hash, Hasher};
                let (a, b) = (string(b"ab", 0, 4), string(b"ab", 0, 4));
                let (sa, sb) = (mk(&a, choose(4)), mk(&b, choose(4)));
                ensure!((sa == sb) == (a == b), "{} and {} compare {}", show(&a), show(&b), sa == sb);
                if a == b {
                    let h = |s: &SmtpString| { let mut h = DefaultHasher::new(); s.hash(&mut h); h.finish() };
                    ensure!(h(&sa) == h(&sb), "equal strings hash differently");
                }
                Ok(())
            }),
        ],
        assumptions: vec!["chunk sizes are at least 1"],
    }
}

// ------------------------------------------------------------ M20
fn slices_agree(s: &ByteSlice, m: &[u8], path: &str) -> Res {
    use nom::{Compare, CompareResult, FindSubstring, InputIter, InputLength};
    step();
    ensure!(s.len() == m.len() && s.input_len() == m.len(), "{path}: length {} instead of {}", s.len(), m.len());
    ensure!(&s[..] == m, "{path}: holds {} instead of {}", show(s), show(m));
    ensure!(s.promote()[..] == m[..], "{path}: converts to {} instead of {}", show(&s.promote()), show(m));
    ensure!(s.demote() == m, "{path}: demoted to {} instead of {}", show(s.demote()), show(m));
    ensure!(s.iter_elements().eq(m.iter().cloned()), "{path}: iterates over something else than {}", show(m));
    ensure!(s.iter_indices().eq(m.iter().cloned().enumerate()), "{path}: indexed iteration differs");
    ensure!(s.into_utf8().ok() == std::str::from_utf8(m).ok(), "{path}: text conversion differs");
    for c in [b'a', b'b', b'\r', 0xff] {
        ensure!(s.position(|x| x == c) == m.iter().position(|x| *x == c), "{path}: position of {c} is {:?}", s.position(|x| x == c));
    }
    for k in 0..m.len() + 3 {
        let want = if k <= m.len() { Some(k) } else { None };
        ensure!(s.slice_index(k) == want, "{path}: slice_index({k}) is {:?}", s.slice_index(k));
    }
    for pat in ["a", "ab", "\r\n", "b\r", "abc", "aB"] {
        let p = pat.as_bytes();
        let n = p.len().min(m.len());
        let want = if m[..n] != p[..n] { CompareResult::Error } else if n < p.len() { CompareResult::Incomplete } else { CompareResult::Ok };
        ensure!(s.compare(pat) == want && s.compare(p) == want, "{path}: comparison with {} is {:?}, should be {:?}", show(p), s.compare(pat), want);
        let want = if !m[..n].eq_ignore_ascii_case(&p[..n]) { CompareResult::Error } else if n < p.len() { CompareResult::Incomplete } else { CompareResult::Ok };
        ensure!(s.compare_no_case(pat) == want, "{path}: caseless comparison with {} is {:?}, should be {:?}", show(p), s.compare_no_case(pat), want);
        if p.len() > m.len() { continue } // nom's own search wants the pattern to fit
        let find = m.windows(p.len()).position(|w| w == p);
        ensure!(s.find_substring(pat) == find && s.find_substring(p) == find, "{path}: search for {} gives {:?}, should be {:?}", show(p), s.find_substring(pat), find);
    }
    Ok(())
}
fn quiet<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}
pub fn m20(t: Tier) -> Check {
    let depth = t.pick(4, 4);
    let maxlen = t.pick(5, 7);
    let large = large_lengths();
    let nest = move || -> Res {
        use nom::Slice;
        let len = choose(maxlen + 1);
        let content: Vec<u8> = b"a\r\nab\xc3\xa9".iter().cycle().take(len).cloned().collect();
        let buf = if flip() { Bytes::from(&content[..]) } else { Bytes::from([b"zz", &content[..], b"yyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyyy"].concat()).slice(2, 2 + len) };
        let mut s = ByteSlice::from(&buf);
        let mut m: &[u8] = &content;
        let mut path = String::from("whole");
        slices_agree(&s, m, &path)?;
        for _ in 0..depth {
            let lim = len + 2;
            let kind = choose(4);
            let (a, b) = match kind {
                0 => (choose(lim), choose(lim)),
                1 => (0, choose(lim)),
                2 => (choose(lim), m.len()),
                _ => (0, m.len()),
            };
            let fits = a <= b && b <= m.len();
            let r = quiet(|| match kind {
                0 => s.slice(a..b),
                1 => s.slice(..b),
                2 => s.slice(a..),
                _ => s.slice(..),
            });
            let name = match kind { 0 => format!("{a}..{b}"), 1 => format!("..{b}"), 2 => format!("{a}.."), _ => "..".into() };
            note(|| format!("{path}: {name} of {} bytes -> {}", m.len(), r.as_ref().map_or("refused".into(), |x| format!("{} bytes", x.len()))));
            match r {
                None => {
                    ensure!(!fits, "{path}: the range {name} fits a slice of {} bytes but was refused", m.len());
                    nontrivial();
                    // the slice it was applied to is unaffected
                    slices_agree(&s, m, &path)?;
                    break;
                }
                Some(x) => {
                    ensure!(fits, "{path}: the range {name} does not fit a slice of {} bytes, but was answered with {} bytes", m.len(), x.len());
                    nontrivial();
                    let parent = s;
                    let pm = m;
                    s = x;
                    m = &m[a..b];
                    path = format!("{path}[{name}]");
                    slices_agree(&s, m, &path)?;
                    ensure!(&parent[..] == pm, "{path}: the outer slice changed");
                    let off = m.as_ptr() as usize - content.as_ptr() as usize;
                    state(&(len, off, m.len()));
                }
            }
        }
        outcome(&(len, m.len()));
        Ok(())
    };
    Check {
        level: Level::Model,
        rule: "Model: plain slices. Every chain of range operations (four kinds of ranges, fitting or not) up to the depth; after each, every way of looking at the slice is compared. Non-trivial: at least one range was applied.",
        spaces: vec![
            space("range-chains", format!("buffers of 0..={maxlen} bytes (own or a window of a shared one), every chain of {depth} ranges with bounds up to 2 beyond the buffer"), nest),
            space("large", "buffers of 25 lengths around 4096 .. 65536, two nested ranges with bounds out of 12 (0, 1, 255, 256, 32767 .., 65536, the length and next to it)", move || {
                use nom::Slice;
                let n = large[choose(large.len())];
                let content: Vec<u8> = (0..n).map(|i| (i * 7 % 251) as u8).collect();
                let x = Bytes::from(&content[..]);
                let at = |m: usize| { let c = [0, 1, 255, 256, 32767, 32768, 65535, 65536, m / 2, m.wrapping_sub(1), m, m + 1]; c[choose(12)] };
                let (mut s, mut m) = (ByteSlice::from(&x), &content[..]);
                for _ in 0..2 {
                    let (a, b) = match choose(3) { 0 => (at(m.len()), m.len()), 1 => (0, at(m.len())), _ => (at(m.len()), at(m.len())) };
                    let fits = a <= b && b <= m.len();
                    let r = quiet(|| s.slice(a..b));
                    nontrivial();
                    match r {
                        None => { ensure!(!fits, "the range {a}..{b} fits a slice of {} bytes but was refused", m.len()); return Ok(()) }
                        Some(t) => {
                            ensure!(fits, "the range {a}..{b} does not fit a slice of {} bytes, but was answered with {} bytes", m.len(), t.len());
                            ensure!(t[..] == m[a..b] && t.promote() == m[a..b] && t.demote() == &m[a..b], "{a}..{b} of {} bytes holds other bytes", m.len());
                            ensure!(t.slice(..) [..] == m[a..b] && t.slice(b - a..).len() == 0 && t.slice(..b - a)[..] == m[a..b], "{a}..{b} of {} bytes: open ranges differ", m.len());
                            s = t;
                            m = &m[a..b];
                        }
                    }
                }
                use nom::InputIter;
                ensure!(s.iter_elements().eq(m.iter().cloned()), "iteration differs");
                state(&(n, m.len()));
                Ok(())
            }),
            space("huge-bounds", "windows of 0..=3 bytes starting 0..=2 bytes into the buffer x ranges of 4 kinds with bounds 0..=4 or within 5 of the largest integer or of its half", move || {
                use nom::Slice;
                let x = Bytes::from(&b"aXbYcZd"[..]);
                let (o, n) = (choose(3), choose(4));
                let s = ByteSlice::from(&x).slice(o..o + n);
                let m = &x[o..o + n];
                let big = || match choose(3) { 0 => choose(5), 1 => usize::MAX - choose(6), _ => (usize::MAX >> 1) + choose(6) - 2 };
                let kind = choose(3);
                let (a, b) = match kind { 0 => (big(), big()), 1 => (0, big()), _ => (big(), m.len()) };
                let fits = a <= b && b <= m.len();
                let r = quiet(|| match kind { 0 => s.slice(a..b), 1 => s.slice(..b), _ => s.slice(a..) });
                nontrivial();
                match r {
                    None => ensure!(!fits, "the range {a}..{b} fits a slice of {n} bytes but was refused"),
                    Some(t) => {
                        ensure!(fits, "the range {a}..{b} does not fit a slice of {n} bytes, but was answered with {} bytes", t.len());
                        slices_agree(&t, &m[a..b], &format!("{a}..{b}"))?;
                    }
                }
                slices_agree(&s, m, "after")
            }),
            space("equality", "two slices of one buffer are equal exactly when they are the same window; slices of different buffers are not", move || {
                use nom::Slice;
                let n = 5usize;
                let x = Bytes::from(&b"aaaaa"[..]);
                let s = ByteSlice::from(&x);
                let (a, b) = (choose(n + 1), choose(n + 1));
                let (c, d) = (choose(n + 1), choose(n + 1));
                if a > b || c > d { return Ok(()) }
                let (p, q) = (s.slice(a..b), s.slice(c..d));
                nontrivial();
                if (a, b) == (c, d) {
                    ensure!(p == q, "the same window compares unequal");
                }
                if b - a != d - c {
                    ensure!(p != q, "windows of different lengths compare equal");
                }
                Ok(())
            }),
        ],
        assumptions: vec!["refused means: the call panics", "searches are made for patterns no longer than the slice (nom 3.2.1's search requires it, for plain slices as well)"],
    }
}
