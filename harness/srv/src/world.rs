//! The reference model of a session, and the environment (connection, outgoing
//! sink, configuration) in which the real `interact` is run against it.
use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
use mcore::model::{self, Cmd, Verdict};
use mcore::util::*;
use mcore::vclock;
use mcore::*;
use smtp_message::{DataStream, Email, ReplyCode, SmtpString};
use smtp_server::{Config, ConnectionMetadata, Decision, MailMetadata, Refusal};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::time::Duration;
use std::task::{Context, Poll};

pub type B = Vec<u8>;

// ------------------------------------------------------------------ model
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Dec {
    pub accept: bool,
    pub code: u16,
    pub text: B,
    /// replace the address being filtered
    pub addr: Option<Option<B>>,
    /// replace the sender / the recipients of the transaction
    pub from: Option<Option<B>>,
    pub to: Option<Vec<B>>,
}
impl Dec {
    pub fn yes() -> Dec {
        Dec { accept: true, code: 0, text: vec![], addr: None, from: None, to: None }
    }
    pub fn no(code: u16, text: &[u8]) -> Dec {
        Dec { accept: false, code, text: text.to_vec(), ..Dec::yes() }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Reply { code: u16, text: B },
    NewMail,
    From { from: Option<B>, user: u64, dec: Dec },
    /// `tos` holds all recipients so far, or, if `count` says how many there are, the last one
    To { to: B, from: Option<B>, tos: Vec<B>, count: Option<usize>, user: u64, dec: Dec },
    Data { from: Option<B>, tos: Vec<B>, user: u64, dec: Dec },
    Handle { from: Option<B>, tos: Vec<B>, user: u64 },
    Body { body: B, held: B, complete: bool, dec: Dec },
}
impl Ev {
    pub fn name(&self) -> String {
        match self {
            Ev::Reply { code, text } => format!("reply {code} {}", show(text)),
            Ev::NewMail => "new-mail hook".into(),
            Ev::From { from, .. } => format!("sender filter for {}", opt(from)),
            Ev::To { to, .. } => format!("recipient filter for {}", show(to)),
            Ev::Data { .. } => "data filter".into(),
            Ev::Handle { from, tos, .. } => format!("mail handler for a mail from {} to {} recipients", opt(from), tos.len()),
            Ev::Body { body, complete, .. } => format!("the handler's reading of a {} body {}", if *complete { "complete" } else { "cut short" }, show(body)),
        }
    }
}
fn opt(x: &Option<B>) -> String {
    x.as_ref().map_or("<>".into(), |x| show(x))
}
/// Which configuration is in use.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    /// every method provided, every reply different
    Own,
    /// nothing provided but what must be: all replies and two hooks are the library's
    Default,
    /// the library's replies, derived from own `okay`, `bad_sequence`, `banner`
    Half,
    /// the library's, but for those of 7 building blocks whose bit is set
    Roots(u8),
    /// the library's, but for this one
    Leaf(usize),
    /// all building blocks, with texts of these lengths: host name, banner, the others
    Lens(u16, u16, u16),
}
/// The texts of kind Own.
pub const R_BANNER: usize = 0;
pub const R_MAIL_OK: usize = 1;
pub const R_RCPT_OK: usize = 2;
pub const R_DATA_OK: usize = 3;
pub const R_ACCEPTED: usize = 4;
pub const R_ALREADY: usize = 5;
pub const R_RCPT_EARLY: usize = 6;
pub const R_DATA_NO_RCPT: usize = 7;
pub const R_DATA_NO_MAIL: usize = 8;
pub const R_UNIMPL: usize = 9;
pub const R_UNREC: usize = 10;
pub const N_REPLIES: usize = 11;
pub type Texts = Vec<(u16, B)>;
pub fn texts(k: Kind) -> Texts {
    match k {
        Kind::Roots(m) => return roots_texts(m, root),
        Kind::Lens(h, b, o) => return roots_texts(127, |i| long_root(i, h, b, o)),
        Kind::Leaf(i) => {
            let mut t = texts(Kind::Default);
            t[i] = texts(Kind::Own)[i].clone();
            return t;
        }
        _ => (),
    }
    let t: [(u16, &[u8]); N_REPLIES] = match k {
        Kind::Own => [
            (220, b"hello there"), (251, b"sender fine"), (252, b"recipient fine"), (354, b"go on"), (250, b"taken"), (501, b"one at a time"),
            (504, b"who from?"), (505, b"who to?"), (506, b"what mail?"), (502, b"not here"), (500, b"what?"),
        ],
        Kind::Default => [
            (220, b"mx.example.org Service ready"), (250, b"Okay"), (250, b"Okay"), (354, b"Start mail input; end with <CRLF>.<CRLF>"), (250, b"Okay"),
            (503, b"Bad sequence of commands"), (503, b"Bad sequence of commands"), (503, b"Bad sequence of commands"), (503, b"Bad sequence of commands"),
            (502, b"Command not implemented"), (500, b"Command not recognized"),
        ],
        Kind::Half => [
            (220, b"mx.example.org at your service"), (259, b"yes"), (259, b"yes"), (354, b"Start mail input; end with <CRLF>.<CRLF>"), (259, b"yes"),
            (509, b"no"), (509, b"no"), (509, b"no"), (509, b"no"), (502, b"Command not implemented"), (500, b"Command not recognized"),
        ],
        _ => unreachable!(),
    };
    t.iter().map(|(c, x)| (*c, x.to_vec())).collect()
}
/// The building blocks a configuration may provide: hostname, banner, okay, bad sequence,
/// go-ahead, unimplemented, unrecognised.
pub const N_ROOTS: usize = 7;
pub const ROOT_NAMES: [&str; N_ROOTS] = ["hostname", "banner", "okay", "bad_sequence", "data_okay", "command_unimplemented", "command_unrecognized"];
pub fn root(i: usize) -> (u16, B) {
    let (c, x) = [(0, &b"other.host"[..]), (0, b"nice to meet you"), (259, b"yes"), (509, b"not now"), (399, b"shoot"), (592, b"no such thing"), (590, b"pardon?")][i];
    (c, x.to_vec())
}
fn long_root(i: usize, host: u16, banner: u16, other: u16) -> (u16, B) {
    let n = match i { 0 => host, 1 => banner, _ => other };
    (root(i).0, (0..n as usize).map(|k| b"abcdefghij"[(i + k) % 10]).collect())
}
fn roots_texts(mask: u8, root: impl Fn(usize) -> (u16, B)) -> Texts {
    let mut t = texts(Kind::Default);
    let on = |i: usize| mask >> i & 1 == 1;
    let own = |i: usize| root(i);
    let host = if on(0) { root(0).1 } else { b"mx.example.org".to_vec() };
    let banner = if on(1) { root(1).1 } else { b"Service ready".to_vec() };
    t[R_BANNER] = (220, [host, b" ".to_vec(), banner].concat());
    if on(2) { for r in [R_MAIL_OK, R_RCPT_OK, R_ACCEPTED] { t[r] = own(2) } }
    if on(3) { for r in [R_ALREADY, R_RCPT_EARLY, R_DATA_NO_RCPT, R_DATA_NO_MAIL] { t[r] = own(3) } }
    if on(4) { t[R_DATA_OK] = own(4) }
    if on(5) { t[R_UNIMPL] = own(5) }
    if on(6) { t[R_UNREC] = own(6) }
    t
}

/// Where the decisions of the configuration come from.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Policy {
    Accept,
    /// accept or reject, chosen at every decision
    Either,
    /// sender, recipient and data filters free, the handler accepts
    Filters,
    /// accept, reject, or accept with one of several rewrites
    Rewrites,
    /// accept, reject, or accept with any combination of many rewrites
    Wild,
    /// reject when the running number of the decision has one of these remainders
    Every(u32, u32),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Asked {
    From,
    To,
    Data,
    Mail,
}
pub struct Sess {
    pub kind: Kind,
    pub policy: Policy,
    pub texts: Texts,
    pub exp: Vec<(usize, Ev)>,
    pub input: B,
    pub txn: Option<(Option<B>, Vec<B>)>,
    pub user: u64,
    asked: u32,
    /// the sub-automaton: a body is being received
    pub in_data: bool,
    pub fixed: VecDeque<Dec>,
    /// the configuration's own replies end with the number of hooks that have returned
    pub changing: bool,
    /// recipient filters are shown how many recipients there are, and the last one (the whole list is
    /// compared at DATA only)
    pub lean: bool,
}
fn numbered(text: &[u8], n: usize) -> B {
    [text, format!(" {n}").as_bytes()].concat()
}
pub fn bump(user: u64, k: u64) -> u64 {
    user.wrapping_mul(5).wrapping_add(k)
}
impl Sess {
    pub fn new(kind: Kind, policy: Policy) -> Sess {
        Sess::with(kind, policy, texts(kind))
    }
    pub fn with(kind: Kind, policy: Policy, texts: Texts) -> Sess {
        let mut s = Sess { kind, policy, texts, exp: vec![], input: vec![], txn: None, user: 7, asked: 0, in_data: false, fixed: VecDeque::new(), changing: false, lean: false };
        s.reply(R_BANNER);
        s
    }
    fn push(&mut self, ev: Ev) {
        let due = self.input.len();
        self.exp.push((due, ev))
    }
    fn reply(&mut self, r: usize) {
        let (code, mut text) = self.texts[r].clone();
        let own = match self.kind {
            Kind::Half => ![R_DATA_OK, R_UNIMPL, R_UNREC].contains(&r),
            Kind::Leaf(i) => i == r,
            _ => true,
        };
        if self.changing && own {
            let n = self.exp.iter().filter(|(_, e)| !matches!(e, Ev::Reply { .. } | Ev::Handle { .. })).count();
            text = numbered(&text, n);
        }
        self.push(Ev::Reply { code, text })
    }
    /// A configuration whose replies change all the time.
    pub fn changing(kind: Kind) -> Sess {
        let mut s = Sess::new(kind, Policy::Either);
        s.changing = true;
        s.exp.clear();
        s.reply(R_BANNER);
        s
    }
    fn refuse(&mut self, d: &Dec) {
        self.push(Ev::Reply { code: d.code, text: d.text.clone() })
    }
    fn decide(&mut self, a: Asked) -> Dec {
        if let Some(d) = self.fixed.pop_front() {
            return d;
        }
        self.asked += 1;
        let n = self.asked;
        let no = || Dec::no(550 + (n % 40) as u16, format!("no to number {n}").as_bytes());
        match self.policy {
            Policy::Accept => Dec::yes(),
            Policy::Filters if a == Asked::Mail => Dec::yes(),
            Policy::Either | Policy::Filters => if flip() { no() } else { Dec::yes() },
            Policy::Wild => {
                let mut d = Dec::yes();
                let (from, tos) = self.txn.clone().unwrap_or((None, vec![]));
                let odd = |i: usize| [&b"\"q q\"@[1.2.3.4]"[..], b"u@[IPv6:1::2]", b"solo"][i].to_vec();
                let lists = |k: usize| {
                    let mut rev = tos.clone();
                    rev.reverse();
                    let twice = [&tos[..], &tos[..]].concat();
                    let sorted = tos.iter().skip(1).cloned().chain(vec![b"more@to.x".to_vec(), b"more@to.x".to_vec()]).collect();
                    [None, Some(rev), Some(twice), Some(sorted), Some(vec![])][k].clone()
                };
                match a {
                    Asked::From => match choose(6) {
                        0 => (),
                        1 => d = no(),
                        2 => d.addr = Some(None),
                        k => d.addr = Some(Some(odd(k - 3))),
                    },
                    Asked::To => {
                        d.addr = match choose(7) {
                            0 => None,
                            1 => return no(),
                            2 => Some(Some(tos.last().cloned().unwrap_or(b"first@to.x".to_vec()))),
                            3 => Some(Some(from.clone().unwrap_or(b"null@to.x".to_vec()))),
                            k => Some(Some(odd(k - 4))),
                        };
                        d.from = [None, Some(None), Some(Some(b"\"late sender\"@from.x".to_vec()))][choose(3)].clone();
                        d.to = lists(choose(5));
                    }
                    Asked::Data => {
                        d.from = match choose(5) {
                            0 => None,
                            1 => return no(),
                            2 => Some(None),
                            3 => Some(tos.first().cloned()),
                            _ => Some(Some(odd(2))),
                        };
                        d.to = lists(choose(4));
                    }
                    Asked::Mail => if flip() { return no() },
                }
                d
            }
            Policy::Every(m, r) => if n % m == r { no() } else { Dec::yes() },
            Policy::Rewrites => {
                let mut d = Dec::yes();
                match (a, choose(match a { Asked::From => 4, Asked::To => 5, Asked::Data => 4, Asked::Mail => 2 })) {
                    (_, 0) => (),
                    (_, 1) => d = no(),
                    (Asked::From, 2) => d.addr = Some(Some(format!("new{n}@from.x").into_bytes())),
                    (Asked::From, _) => d.addr = Some(None),
                    (Asked::To, 2) => d.addr = Some(Some(format!("new{n}@to.x").into_bytes())),
                    (Asked::To, 3) => d.from = Some(Some(format!("late{n}@from.x").into_bytes())),
                    (Asked::To, _) => d.to = Some(vec![format!("only{n}@to.x").into_bytes()]),
                    (Asked::Data, 2) => d.from = Some(if n % 2 == 0 { None } else { Some(b"final@from.x".to_vec()) }),
                    (Asked::Data, _) => d.to = Some(vec![b"final1@to.x".to_vec(), b"final2@to.x".to_vec()]),
                    _ => unreachable!(),
                }
                d
            }
        }
    }
    /// One complete command line (with its CRLF) is received.
    pub fn line(&mut self, line: &[u8]) {
        assert!(!self.in_data);
        self.input.extend_from_slice(line);
        match model::command(line) {
            Verdict::Free => panic!("the statements leave {} open: not to be used here", show(line)),
            Verdict::Reject => self.reply(R_UNREC),
            Verdict::Accept(Cmd::Mail(from, _)) => {
                if self.txn.is_some() {
                    return self.reply(R_ALREADY);
                }
                if self.kind == Kind::Own {
                    self.push(Ev::NewMail);
                }
                let from = from.map(|a| a.wire());
                let dec = self.decide(Asked::From);
                self.push(Ev::From { from: from.clone(), user: self.user, dec: dec.clone() });
                self.user = bump(self.user, 1);
                if dec.accept {
                    self.txn = Some((dec.addr.unwrap_or(from), vec![]));
                    self.reply(R_MAIL_OK);
                } else {
                    self.refuse(&dec);
                }
            }
            Verdict::Accept(Cmd::Rcpt(to, _)) => {
                if self.txn.is_none() {
                    return self.reply(R_RCPT_EARLY);
                }
                let to = to.wire();
                let dec = self.decide(Asked::To);
                let (from, tos) = self.txn.take().unwrap();
                let (shown, count) = if self.lean { (tos.last().cloned().into_iter().collect(), Some(tos.len())) } else { (tos.clone(), None) };
                self.push(Ev::To { to: to.clone(), from: from.clone(), tos: shown, count, user: self.user, dec: dec.clone() });
                self.user = bump(self.user, 2);
                if dec.accept {
                    let mut t = (dec.from.unwrap_or(from), dec.to.unwrap_or(tos));
                    t.1.push(dec.addr.map_or(to, |a| a.unwrap()));
                    self.txn = Some(t);
                    self.reply(R_RCPT_OK);
                } else {
                    self.txn = Some((from, tos));
                    self.refuse(&dec);
                }
            }
            Verdict::Accept(Cmd::Data) => {
                let (from, tos) = match &self.txn {
                    None => return self.reply(R_DATA_NO_MAIL),
                    Some(t) if t.1.is_empty() => return self.reply(R_DATA_NO_RCPT),
                    Some(t) => t.clone(),
                };
                let mut t = (from, tos);
                if self.kind == Kind::Own {
                    let dec = self.decide(Asked::Data);
                    self.push(Ev::Data { from: t.0.clone(), tos: t.1.clone(), user: self.user, dec: dec.clone() });
                    self.user = bump(self.user, 3);
                    if !dec.accept {
                        return self.refuse(&dec);
                    }
                    t = (dec.from.unwrap_or(t.0), dec.to.unwrap_or(t.1));
                }
                self.txn = None;
                self.in_data = true;
                self.reply(R_DATA_OK);
                self.push(Ev::Handle { from: t.0, tos: t.1, user: self.user });
            }
            Verdict::Accept(_) => self.reply(R_UNIMPL),
        }
    }
    /// A whole body with its end marker is received.
    pub fn body(&mut self, wire: &[u8]) {
        assert!(self.in_data);
        let d = model::decode(wire);
        assert!(d.end == Some(wire.len()));
        self.input.extend_from_slice(wire);
        self.finish_body(d.body, vec![], true);
    }
    fn finish_body(&mut self, body: B, held: B, complete: bool) {
        let dec = self.decide(Asked::Mail);
        self.push(Ev::Body { body, held, complete, dec: dec.clone() });
        self.user = bump(self.user, 4);
        self.in_data = false;
        if dec.accept { self.reply(R_ACCEPTED) } else { self.refuse(&dec) }
    }
    /// Anything is received, and then the connection ends.
    pub fn all(&mut self, input: &[u8]) {
        let mut rest = input;
        loop {
            if self.in_data {
                let d = model::decode(rest);
                match d.end {
                    Some(n) => {
                        self.body(&rest[..n]);
                        rest = &rest[n..];
                    }
                    None => {
                        self.input.extend_from_slice(rest);
                        let k = self.exp.len();
                        self.finish_body(d.body, d.held, false);
                        for e in &mut self.exp[k..] {
                            e.0 = usize::MAX;
                        }
                        return;
                    }
                }
            } else {
                match model::find_crlf(rest) {
                    Some(i) => {
                        self.line(&rest[..i + 2]);
                        rest = &rest[i + 2..];
                    }
                    None => {
                        self.input.extend_from_slice(rest);
                        return;
                    }
                }
            }
        }
    }
    /// Ends the input; a body still open was cut short.
    pub fn close(&mut self) {
        if self.in_data {
            self.all(b"");
        }
    }
    /// A protocol state, for counting.
    pub fn seen(&self) {
        state(&(&self.txn, self.in_data, self.user));
    }
}

// ------------------------------------------------------------------ environment
pub struct World {
    exp: Vec<(usize, Ev)>,
    at: usize,
    /// text of the current reply so far
    acc: B,
    acc_lines: usize,
    linebuf: B,
    in_hook: Option<&'static str>,
    in_handler: bool,
    ready: bool,
    closed: bool,
    unflushed: bool,
    pub pended: bool,
    failed: Option<&'static str>,
    got: usize,
    eof: bool,
    pub err: Option<String>,
    pub opts: Opts,
    texts: Texts,
    /// the number of hooks that have returned, and whether the configuration's texts contain it
    hooks: usize,
    changing: bool,
    /// operations that were or are to be answered, not-ready answers to the next one, and
    /// operations of the sink
    ops: usize,
    stalls: usize,
    sink_ops: usize,
    polls: u64,
    /// hash of what was observed so far
    seen: u64,
    /// messages handed to the handler so far
    handled: usize,
    /// the handler has broken its contract: nothing may follow
    pub breach: bool,
}
/// A handler that does not do what it has to, for one of the messages.
#[derive(Clone, Copy, Debug)]
pub struct Rude {
    pub message: usize,
    /// how many times the body stream is asked for more (less, if it ends)
    pub reads: usize,
    pub complete: bool,
}
#[derive(Clone, Copy, Default, Debug)]
pub struct Opts {
    /// not-ready answers of the connection, the sink, the hooks are choices
    pub pend_reader: bool,
    pub pend_sink: bool,
    pub pend_hooks: bool,
    /// failures of the sink are choices
    pub fail: bool,
    /// every operation is not ready exactly once before it is
    pub yield_all: bool,
    /// the connection is not ready exactly once before each packet
    pub yield_reader: bool,
    /// read on after `complete`
    pub read_on: bool,
    pub rude: Option<Rude>,
    /// the operation of this number answers not-ready so many times in a row
    pub stall: Option<(usize, usize)>,
    /// the sink's operation of this number fails
    pub fail_at: Option<usize>,
    /// so many milliseconds pass at every operation of the connection, the sink and the hooks
    pub pace: u64,
    /// pauses (of `PAUSES`) at any of these operations are choices
    pub pauses: bool,
}
/// Milliseconds.
pub const PAUSES: [u64; 7] = [1, 1_100, 31_000, 301_000, 601_000, 3_700_000, 90_000_000];
impl Opts {
    pub fn delays() -> Opts {
        Opts { pend_reader: true, pend_sink: true, pend_hooks: true, ..Opts::default() }
    }
}
#[derive(Clone)]
pub struct Sh(Rc<RefCell<World>>);
// Everything stays on one thread; the bounds of the public interface ask for Send.
unsafe impl Send for Sh {}
unsafe impl Sync for Sh {}

impl World {
    fn pos(&self) -> usize {
        if self.eof { usize::MAX } else { self.got }
    }
    fn bad(&mut self, m: String) {
        note(|| format!("!! {m}"));
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    /// One observed event.
    fn event(&mut self, what: &str, b: &[u8]) {
        self.seen = hash64(&(self.seen, what, b));
        state(&(self.at, self.got, self.eof, self.in_hook, self.unflushed, self.linebuf.len(), self.acc_lines, what));
    }
    fn next_is(&self) -> String {
        match self.exp.get(self.at) {
            None => "nothing more was due".into(),
            Some((d, e)) if *d > self.pos() => format!("nothing is due before more input ({} then)", e.name()),
            Some((_, e)) => format!("{} is due", e.name()),
        }
    }
    fn can_act(&mut self, what: &str) -> bool {
        if self.err.is_some() {
            return false;
        }
        if let Some(f) = self.failed {
            self.bad(format!("{what} after {f} had failed"));
            return false;
        }
        if let Some(h) = self.in_hook {
            self.bad(format!("{what} before the {h} has finished"));
            return false;
        }
        true
    }
    /// The hook `what` is called; returns the event if it is the expected kind.
    fn hook(&mut self, what: &'static str) -> Option<Ev> {
        self.event(what, b"");
        if !self.can_act(&format!("{what} called")) {
            return None;
        }
        if !self.linebuf.is_empty() || self.acc_lines > 0 {
            self.bad(format!("{what} called in the middle of a reply"));
            return None;
        }
        if self.unflushed {
            // the reply before it is complete, but still in the sink: allowed, except
            // for the handler, which reads on
            if what == "mail handler" {
                self.bad("mail handler called before the go-ahead was flushed".into());
                return None;
            }
        }
        match self.exp.get(self.at) {
            Some((d, e)) if *d <= self.pos() => {
                let e = e.clone();
                self.at += 1;
                note(|| format!("{what} called"));
                Some(e)
            }
            _ => {
                let n = self.next_is();
                self.bad(format!("{what} called although {n}"));
                None
            }
        }
    }
    fn written(&mut self, b: &[u8]) {
        note(|| format!("written: {}", show(b)));
        self.linebuf.extend_from_slice(b);
        while let Some(i) = model::find_crlf(&self.linebuf) {
            let rest = self.linebuf.split_off(i + 2);
            let line = std::mem::replace(&mut self.linebuf, rest);
            self.event("reply line", &line);
            let (code, text) = match self.exp.get(self.at) {
                Some((d, Ev::Reply { code, text })) if *d <= self.pos() => (*code, text.clone()),
                _ => {
                    let n = self.next_is();
                    return self.bad(format!("{} written although {n}", show(&line)));
                }
            };
            if line.len() > 512 {
                return self.bad(format!("a reply line of {} bytes was written", line.len()));
            }
            let head = format!("{:03}", code);
            if line.len() < 6 || &line[..3] != head.as_bytes() || (line[3] != b' ' && line[3] != b'-') {
                return self.bad(format!("{} written although reply {code} {} is due", show(&line), show(&text)));
            }
            self.acc.extend_from_slice(&line[4..line.len() - 2]);
            self.acc_lines += 1;
            let last = line[3] == b' ';
            if !(if last { text == self.acc } else { text.starts_with(&self.acc) }) {
                let acc = show(&self.acc);
                return self.bad(format!("the reply text so far {acc}{} although reply {code} {} is due", if last { ", complete," } else { "" }, show(&text)));
            }
            if last {
                self.acc.clear();
                self.acc_lines = 0;
                self.at += 1;
            }
        }
    }
    /// Called when the connection is asked for input.
    fn asked_for_input(&mut self) {
        if self.err.is_some() {
            return;
        }
        self.event("read", b"");
        if self.eof {
            return self.bad("the connection was read again after it had reported its end".into());
        }
        if let Some(f) = self.failed {
            return self.bad(format!("the connection was read after {f} had failed"));
        }
        if let (Some(h), false) = (self.in_hook, self.in_handler) {
            return self.bad(format!("the connection was read before the {h} has finished"));
        }
        if !self.linebuf.is_empty() || self.acc_lines > 0 {
            return self.bad("the connection was read in the middle of a reply".into());
        }
        if self.unflushed {
            return self.bad("the connection was read before the last reply was flushed".into());
        }
        if let Some((d, e)) = self.exp.get(self.at) {
            if *d <= self.got {
                let e = e.name();
                return self.bad(format!("the connection was asked for more input while {e} was due for input already received"));
            }
        }
    }
    fn reader_turn(&mut self) -> bool {
        self.polls += 1;
        self.pended |= self.polls % 2 == 1;
        self.polls % 2 == 1
    }
    fn stalled(&mut self) -> bool {
        match self.opts.stall {
            Some((at, n)) if self.ops == at && self.stalls < n => {
                self.stalls += 1;
                self.pended = true;
                nontrivial();
                true
            }
            _ => {
                self.ops += 1;
                false
            }
        }
    }
    /// Does this operation answer "not ready" now?
    /// Something is asked of the environment: time may pass.
    fn time(&mut self) {
        let mut ms = self.opts.pace;
        if self.opts.pauses {
            let k = dev(PAUSES.len() + 1);
            if k > 0 {
                ms += PAUSES[k - 1];
                note(|| format!("{} ms pass", PAUSES[k - 1]));
            }
        }
        if ms > 0 {
            vclock::pass(Duration::from_millis(ms));
            nontrivial();
        }
    }
    fn pend(&mut self, on: bool) -> bool {
        if self.err.is_some() || self.stalled() {
            return true;
        }
        let p = if self.opts.yield_all {
            self.polls += 1;
            // each operation: once not ready, then ready
            self.polls % 2 == 1
        } else {
            on && dev(2) == 1
        };
        if p {
            self.pended = true;
            nontrivial();
        }
        p
    }
}

pub struct Reader {
    sh: Sh,
    q: VecDeque<BytesMut>,
}
impl Stream for Reader {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        let sh = self.sh.clone();
        let mut w = sh.0.borrow_mut();
        w.asked_for_input();
        w.time();
        let on = w.opts.pend_reader;
        let turn = w.opts.yield_reader && w.reader_turn();
        if turn || w.pend(on) {
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        match self.q.pop_front() {
            None => {
                note(|| "read: end".into());
                w.eof = true;
                Poll::Ready(None)
            }
            Some(b) => {
                note(|| format!("read: {}", show(&b)));
                w.got += b.len();
                Poll::Ready(Some(b))
            }
        }
    }
}
pub struct Writer {
    sh: Sh,
}
impl Writer {
    fn op(&self, cx: Option<&mut Context>, what: &'static str) -> Poll<Result<(), ()>> {
        let mut w = self.sh.0.borrow_mut();
        if w.err.is_some() {
            return Poll::Pending;
        }
        w.time();
        if w.failed.is_some() {
            // nothing can be written any more; asking again is harmless
            return Poll::Ready(Err(()));
        }
        if cx.is_some() && !w.opts.yield_all && w.stalled() {
            cx.unwrap().waker().wake_by_ref();
            return Poll::Pending;
        }
        w.sink_ops += 1;
        if w.opts.fail_at == Some(w.sink_ops - 1) {
            nontrivial();
            note(|| format!("{what} fails"));
            w.failed = Some(what);
            return Poll::Ready(Err(()));
        }
        let (p, f) = (w.opts.pend_sink && cx.is_some(), w.opts.fail);
        if w.opts.yield_all && cx.is_some() {
            if w.pend(true) {
                cx.unwrap().waker().wake_by_ref();
                return Poll::Pending;
            }
            return Poll::Ready(Ok(()));
        }
        let k = match (p, f) {
            (false, false) => 0,
            (true, false) => dev(2),
            (false, true) => 2 * dev(2),
            (true, true) => dev(3),
        };
        match k {
            0 => Poll::Ready(Ok(())),
            1 => {
                w.pended = true;
                nontrivial();
                cx.unwrap().waker().wake_by_ref();
                Poll::Pending
            }
            _ => {
                nontrivial();
                note(|| format!("{what} fails"));
                w.failed = Some(what);
                Poll::Ready(Err(()))
            }
        }
    }
}
impl Sink<Bytes> for Writer {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        let r = self.op(Some(cx), "making room for a reply");
        if let Poll::Ready(Ok(())) = r {
            self.sh.0.borrow_mut().ready = true;
        }
        r
    }
    fn start_send(self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        {
            let mut w = self.sh.0.borrow_mut();
            if let Some(f) = w.failed {
                w.bad(format!("{} written after {f} had failed", show(&b)));
            }
            if w.closed {
                w.bad(format!("{} written although the session had closed the connection", show(&b)));
            }
            if !w.ready {
                w.bad(format!("{} written without asking whether there is room", show(&b)));
            }
            w.ready = false;
            if w.err.is_some() {
                return Ok(());
            }
        }
        match self.op(None, "writing a reply") {
            Poll::Ready(Ok(())) => {
                let mut w = self.sh.0.borrow_mut();
                if !w.can_act(&format!("{} written", show(&b))) {
                    return Ok(());
                }
                w.unflushed = true;
                w.written(&b);
                Ok(())
            }
            _ => Err(()),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        let r = self.op(Some(cx), "flushing a reply");
        if let Poll::Ready(Ok(())) = r {
            self.sh.0.borrow_mut().unflushed = false;
        }
        r
    }
    fn poll_close(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        let r = self.op(Some(cx), "closing");
        if let Poll::Ready(Ok(())) = r {
            let mut w = self.sh.0.borrow_mut();
            w.unflushed = false;
            w.closed = true;
        }
        r
    }
}

// ------------------------------------------------------------------ configuration
fn wire(e: &Email) -> B {
    SmtpString::from_sendable(e).expect("an address can be written to memory").bytes().to_vec()
}
fn email(b: &[u8]) -> Email {
    Email::parse_slice(b).expect("address used for a rewrite")
}
/// May answer not-ready, then is ready.
struct Delay(Sh);
impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context) -> Poll<()> {
        let mut w = self.0 .0.borrow_mut();
        w.time();
        let on = w.opts.pend_hooks;
        if w.pend(on) {
            cx.waker().wake_by_ref();
            Poll::Pending
        } else {
            Poll::Ready(())
        }
    }
}
fn decision(d: &Dec) -> Decision {
    if d.accept {
        Decision::Accept
    } else {
        Decision::Reject(Refusal { code: ReplyCode::custom(d.code), msg: SmtpString::from(&d.text[..]) })
    }
}
pub struct Hooks {
    sh: Sh,
}
type Fut<'a, T> = Pin<Box<dyn 'a + Send + Future<Output = T>>>;
impl Hooks {
    fn begin(&self, name: &'static str, handler: bool) {
        let mut w = self.sh.0.borrow_mut();
        w.in_hook = Some(name);
        w.in_handler = handler;
    }
    fn end(&self) {
        let mut w = self.sh.0.borrow_mut();
        w.in_hook = None;
        w.in_handler = false;
        w.hooks += 1;
    }
    fn bad(&self, m: String) {
        self.sh.0.borrow_mut().bad(m)
    }
    fn mismatch(&self, what: &str, want: Option<Ev>) {
        if let Some(e) = want {
            self.bad(format!("{what} called although {} is due", e.name()));
        }
    }
    fn new_mail(&mut self) -> Fut<'_, ()> {
        let e = self.sh.0.borrow_mut().hook("new-mail hook");
        if e != Some(Ev::NewMail) {
            self.mismatch("new-mail hook", e);
        } else {
            self.begin("new-mail hook", false);
        }
        Box::pin(async move {
            Delay(self.sh.clone()).await;
            self.end();
        })
    }
    fn same<T: PartialEq>(&self, what: &str, got: T, want: T, f: impl Fn(&T) -> String) {
        if got != want {
            self.bad(format!("{what} is {}, should be {}", f(&got), f(&want)));
        }
    }
    fn tos(v: &Vec<B>) -> String {
        format!("[{}]", v.iter().map(|x| show(x)).collect::<Vec<_>>().join(", "))
    }
    fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
        let e = self.sh.0.borrow_mut().hook("sender filter");
        let d = match e {
            Some(Ev::From { from: f, user, dec }) => {
                self.begin("sender filter", false);
                self.same("the sender shown to its filter", from.as_ref().map(wire), f, |x| opt(x));
                self.same("the connection metadata shown to the sender filter", cm.user, user, |x| x.to_string());
                dec
            }
            e => {
                self.mismatch("sender filter", e);
                Dec::yes()
            }
        };
        Box::pin(async move {
            Delay(self.sh.clone()).await;
            if let Some(a) = &d.addr {
                *from = a.as_ref().map(|a| email(a));
            }
            cm.user = bump(cm.user, 1);
            self.end();
            decision(&d)
        })
    }
    fn rewrite(d: &Dec, meta: &mut MailMetadata) {
        if let Some(f) = &d.from {
            meta.from = f.as_ref().map(|a| email(a));
        }
        if let Some(t) = &d.to {
            meta.to = t.iter().map(|a| email(a)).collect();
        }
    }
    fn check_meta(&self, who: &str, meta: &MailMetadata, from: Option<B>, tos: Vec<B>) {
        self.same(&format!("the transaction's sender shown to the {who}"), meta.from.as_ref().map(wire), from, |x| opt(x));
        self.same(&format!("the recipient list shown to the {who}"), meta.to.iter().map(wire).collect(), tos, Hooks::tos);
    }
    fn filter_to<'a>(&'a mut self, to: &'a mut Email, meta: &'a mut MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
        let e = self.sh.0.borrow_mut().hook("recipient filter");
        let d = match e {
            Some(Ev::To { to: t, from, tos, count, user, dec }) => {
                self.begin("recipient filter", false);
                self.same("the recipient shown to its filter", wire(to), t, |x| show(x));
                match count {
                    None => self.check_meta("recipient filter", meta, from, tos),
                    Some(n) => {
                        self.same("the transaction's sender shown to the recipient filter", meta.from.as_ref().map(wire), from, |x| opt(x));
                        self.same("the number of recipients shown to the recipient filter", meta.to.len(), n, |x| x.to_string());
                        self.same("the last recipient shown to the recipient filter", meta.to.last().map(wire), tos.last().cloned(), |x| opt(x));
                    }
                }
                self.same("the connection metadata shown to the recipient filter", cm.user, user, |x| x.to_string());
                dec
            }
            e => {
                self.mismatch("recipient filter", e);
                Dec::yes()
            }
        };
        Box::pin(async move {
            Delay(self.sh.clone()).await;
            if let Some(Some(a)) = &d.addr {
                *to = email(a);
            }
            Hooks::rewrite(&d, meta);
            cm.user = bump(cm.user, 2);
            self.end();
            decision(&d)
        })
    }
    fn filter_data<'a>(&'a mut self, meta: &'a mut MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
        let e = self.sh.0.borrow_mut().hook("data filter");
        let d = match e {
            Some(Ev::Data { from, tos, user, dec }) => {
                self.begin("data filter", false);
                self.check_meta("data filter", meta, from, tos);
                self.same("the connection metadata shown to the data filter", cm.user, user, |x| x.to_string());
                dec
            }
            e => {
                self.mismatch("data filter", e);
                Dec::yes()
            }
        };
        Box::pin(async move {
            Delay(self.sh.clone()).await;
            Hooks::rewrite(&d, meta);
            cm.user = bump(cm.user, 3);
            self.end();
            decision(&d)
        })
    }
    fn handle_mail<'a, S>(&'a mut self, stream: &'a mut DataStream<S>, meta: MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where
        S: 'a + Unpin + Stream<Item = BytesMut>,
    {
        use futures::StreamExt;
        let e = self.sh.0.borrow_mut().hook("mail handler");
        match e {
            Some(Ev::Handle { from, tos, user }) => {
                self.begin("mail handler", true);
                self.check_meta("mail handler", &meta, from, tos);
                self.same("the connection metadata shown to the mail handler", cm.user, user, |x| x.to_string());
            }
            e => self.mismatch("mail handler", e),
        }
        Box::pin(async move {
            let mut got = vec![];
            Delay(self.sh.clone()).await;
            let rude = {
                let mut w = self.sh.0.borrow_mut();
                w.handled += 1;
                w.opts.rude.filter(|r| r.message + 1 == w.handled)
            };
            let (mut reads, complete) = rude.map_or((usize::MAX, true), |r| (r.reads, r.complete));
            let mut ended = false;
            while reads > 0 && !ended {
                reads -= 1;
                match stream.next().await {
                    None => ended = true,
                    Some(c) => got.extend_from_slice(&c),
                }
                Delay(self.sh.clone()).await;
            }
            // a handler that does less than it must: from now on, nothing may happen
            let ok = if ended && complete {
                Some(stream.complete().is_ok())
            } else {
                self.sh.0.borrow_mut().breach = true;
                note(|| format!("handler read {}, {}", show(&got), if ended { "to the end" } else { "not to the end" }));
                let ok = if complete { Some(stream.complete().is_ok()) } else { None };
                let mut w = self.sh.0.borrow_mut();
                let free = match w.exp.get(w.at) {
                    Some((_, Ev::Body { body, complete: true, .. })) if ok == Some(true) => {
                        if *body != got {
                            let m = format!("complete() succeeded although only {} of the body {} was read", show(&got), show(body));
                            w.bad(m);
                        }
                        true
                    }
                    Some((due, Ev::Body { complete: false, .. })) => ok == Some(false) && *due <= w.pos(),
                    _ => false,
                };
                if free { w.breach = false; ok } else { None }
            };
            let ok = match ok {
                Some(ok) => ok,
                None => {
                    let d = {
                        let mut w = self.sh.0.borrow_mut();
                        let d = match w.exp.get(w.at) { Some((_, Ev::Body { dec, .. })) => dec.clone(), _ => Dec::yes() };
                        let n = w.at;
                        w.exp.truncate(n);
                        d
                    };
                    nontrivial();
                    cm.user = bump(cm.user, 4);
                    self.end();
                    return decision(&d);
                }
            };
            note(|| format!("handler read {} complete: {ok}", show(&got)));
            if self.sh.0.borrow().opts.read_on {
                for _ in 0..2 {
                    if let Some(x) = stream.next().await {
                        self.bad(format!("the body stream, read again after its end, yields {}", show(&x)));
                    }
                }
            }
            let mut w = self.sh.0.borrow_mut();
            let d = match w.exp.get(w.at) {
                Some((due, Ev::Body { body, held, complete, dec })) if *due <= w.pos() => {
                    let (body, held, complete, dec) = (body.clone(), held.clone(), *complete, dec.clone());
                    w.at += 1;
                    if complete {
                        if !ok {
                            w.bad(format!("the handler got an error for the complete body {}", show(&body)));
                        }
                        if got != body {
                            w.bad(format!("the handler got the body {}, sent was {}", show(&got), show(&body)));
                        }
                    } else {
                        if ok {
                            w.bad(format!("a body cut short after {} was announced to the handler as complete", show(&body)));
                        }
                        if ![body.clone(), held].concat().starts_with(&got) {
                            w.bad(format!("the handler got {} of a body cut short after {}", show(&got), show(&body)));
                        }
                    }
                    dec
                }
                _ => {
                    let n = w.next_is();
                    w.bad(format!("the body stream ended after {} although {n}", show(&got)));
                    Dec::yes()
                }
            };
            drop(w);
            Delay(self.sh.clone()).await;
            cm.user = bump(cm.user, 4);
            self.end();
            decision(&d)
        })
    }
    fn text(&self, i: usize) -> (ReplyCode, SmtpString) {
        let w = self.sh.0.borrow();
        let (code, text) = &w.texts[i];
        let text = if w.changing { SmtpString::from(&numbered(text, w.hooks)[..]) } else { SmtpString::from(&text[..]) };
        (ReplyCode::custom(*code), text)
    }
    fn changed(&self, text: &[u8]) -> SmtpString {
        let w = self.sh.0.borrow();
        SmtpString::from(&if w.changing { numbered(text, w.hooks) } else { text.to_vec() }[..])
    }
}
macro_rules! required {
    () => {
        fn filter_from<'a>(&'a mut self, from: &'a mut Option<Email>, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
            self.0.filter_from(from, cm)
        }
        fn filter_to<'a>(&'a mut self, to: &'a mut Email, meta: &'a mut MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
            self.0.filter_to(to, meta, cm)
        }
        fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, meta: MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
        where
            S: 'a + Unpin + Stream<Item = BytesMut>,
        {
            self.0.handle_mail(s, meta, cm)
        }
    };
    (host) => {
        required!();
        fn hostname(&self) -> SmtpString {
            SmtpString::from_static(b"mx.example.org")
        }
    };
}
struct Own(Hooks);
impl Config<u64> for Own {
    required!(host);
    fn new_mail<'a>(&'a mut self) -> Fut<'a, ()> {
        self.0.new_mail()
    }
    fn filter_data<'a>(&'a mut self, meta: &'a mut MailMetadata, cm: &'a mut ConnectionMetadata<u64>) -> Fut<'a, Decision> {
        self.0.filter_data(meta, cm)
    }
    fn welcome_banner(&self) -> (ReplyCode, SmtpString) { self.0.text(R_BANNER) }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) { self.0.text(R_MAIL_OK) }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) { self.0.text(R_RCPT_OK) }
    fn data_okay(&self) -> (ReplyCode, SmtpString) { self.0.text(R_DATA_OK) }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) { self.0.text(R_ACCEPTED) }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) { self.0.text(R_ALREADY) }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) { self.0.text(R_RCPT_EARLY) }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) { self.0.text(R_DATA_NO_RCPT) }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) { self.0.text(R_DATA_NO_MAIL) }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) { self.0.text(R_UNIMPL) }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) { self.0.text(R_UNREC) }
}
struct Dflt(Hooks);
impl Config<u64> for Dflt {
    required!(host);
}
struct Half(Hooks);
impl Config<u64> for Half {
    required!(host);
    fn banner(&self) -> SmtpString { self.0.changed(b"at your service") }
    fn okay(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(259), self.0.changed(b"yes")) }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(509), self.0.changed(b"no")) }
}

/// The library's reply where there is none.
struct Roots(Hooks, [Option<(u16, B)>; N_ROOTS], Dflt);
impl Roots {
    fn pick(&self, i: usize, lib: fn(&Dflt) -> (ReplyCode, SmtpString)) -> (ReplyCode, SmtpString) {
        self.1[i].as_ref().map_or_else(|| lib(&self.2), |(c, x)| (ReplyCode::custom(*c), SmtpString::from(&x[..])))
    }
}
impl Config<u64> for Roots {
    required!();
    fn hostname(&self) -> SmtpString {
        self.1[0].as_ref().map_or_else(|| self.2.hostname(), |(_, x)| SmtpString::from(&x[..]))
    }
    fn banner(&self) -> SmtpString {
        self.1[1].as_ref().map_or_else(|| self.2.banner(), |(_, x)| SmtpString::from(&x[..]))
    }
    fn okay(&self) -> (ReplyCode, SmtpString) { self.pick(2, Config::okay) }
    fn bad_sequence(&self) -> (ReplyCode, SmtpString) { self.pick(3, Config::bad_sequence) }
    fn data_okay(&self) -> (ReplyCode, SmtpString) { self.pick(4, Config::data_okay) }
    fn command_unimplemented(&self) -> (ReplyCode, SmtpString) { self.pick(5, Config::command_unimplemented) }
    fn command_unrecognized(&self) -> (ReplyCode, SmtpString) { self.pick(6, Config::command_unrecognized) }
}
macro_rules! leaves {
    ($($i:ident, $t:ident, $f:ident;)*) => {
        $(struct $t(Hooks);
        impl Config<u64> for $t {
            required!(host);
            fn $f(&self) -> (ReplyCode, SmtpString) { self.0.text($i) }
        })*
        async fn leaf(i: usize, reader: Reader, w: Pin<&mut Writer>, hooks: Hooks) -> Result<(), ()> {
            match i {
                $($i => smtp_server::interact(reader, w, 7u64, &mut $t(hooks)).await,)*
                _ => unreachable!(),
            }
        }
    };
}
leaves! {
    R_BANNER, Leaf0, welcome_banner; R_MAIL_OK, Leaf1, mail_okay; R_RCPT_OK, Leaf2, rcpt_okay; R_DATA_OK, Leaf3, data_okay; R_ACCEPTED, Leaf4, mail_accepted;
    R_ALREADY, Leaf5, already_in_mail; R_RCPT_EARLY, Leaf6, rcpt_before_mail; R_DATA_NO_RCPT, Leaf7, data_before_rcpt; R_DATA_NO_MAIL, Leaf8, data_before_mail;
    R_UNIMPL, Leaf9, command_unimplemented; R_UNREC, Leaf10, command_unrecognized;
}

// ------------------------------------------------------------------ running
/// How the packets are held in memory.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mem {
    /// every packet in a buffer of its own
    Own,
    /// consecutive parts of one buffer
    Shared,
}
pub fn packets(pieces: &[B], mem: Mem) -> VecDeque<BytesMut> {
    match mem {
        Mem::Own => pieces.iter().map(|p| BytesMut::from(&p[..])).collect(),
        Mem::Shared => {
            let mut all = BytesMut::from(pieces.concat());
            pieces.iter().map(|p| all.split_to(p.len())).collect()
        }
    }
}
pub struct Run {
    pub sh: Sh,
    fut: Pin<Box<dyn Future<Output = Result<(), ()>>>>,
    polls: usize,
}
impl Run {
    pub fn new(s: &Sess, q: VecDeque<BytesMut>, opts: Opts) -> Run {
        let sh = Sh(Rc::new(RefCell::new(World {
            exp: s.exp.clone(),
            at: 0,
            acc: vec![],
            acc_lines: 0,
            linebuf: vec![],
            in_hook: None,
            in_handler: false,
            ready: false,
            closed: false,
            unflushed: false,
            pended: false,
            failed: None,
            got: 0,
            eof: false,
            err: None,
            opts,
            texts: s.texts.clone(),
            hooks: 0,
            changing: s.changing,
            ops: 0,
            stalls: 0,
            sink_ops: 0,
            polls: 0,
            seen: 0,
            handled: 0,
            breach: false,
        })));
        let reader = Reader { sh: sh.clone(), q };
        let mut writer = Writer { sh: sh.clone() };
        let hooks = Hooks { sh: sh.clone() };
        let kind = s.kind;
        let fut: Pin<Box<dyn Future<Output = Result<(), ()>>>> = Box::pin(async move {
            let w = Pin::new(&mut writer);
            match kind {
                Kind::Own => smtp_server::interact(reader, w, 7u64, &mut Own(hooks)).await,
                Kind::Default => smtp_server::interact(reader, w, 7u64, &mut Dflt(hooks)).await,
                Kind::Half => smtp_server::interact(reader, w, 7u64, &mut Half(hooks)).await,
                Kind::Roots(_) | Kind::Lens(..) => {
                    let m = std::array::from_fn(|i| match kind {
                        Kind::Roots(m) if m >> i & 1 == 1 => Some(root(i)),
                        Kind::Lens(h, b, o) => Some(long_root(i, h, b, o)),
                        _ => None,
                    });
                    let d = Dflt(Hooks { sh: hooks.sh.clone() });
                    smtp_server::interact(reader, w, 7u64, &mut Roots(hooks, m, d)).await
                }
                Kind::Leaf(i) => leaf(i, reader, w, hooks).await,
            }
        });
        Run { sh, fut, polls: 0 }
    }
    /// One poll; true when the session is over.
    pub fn poll(&mut self) -> Result<bool, String> {
        let (count, waker) = counter();
        self.sh.0.borrow_mut().pended = false;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.fut.as_mut().poll(&mut Context::from_waker(&waker))));
        let mut w = self.sh.0.borrow_mut();
        let r = match r {
            Ok(r) => r,
            Err(p) => {
                if let (true, None, Some(m)) = (w.breach, &w.err, p.downcast_ref::<String>().map(|s| &s[..]).or(p.downcast_ref::<&str>().copied())) {
                    if !m.starts_with("horizon") {
                        note(|| "session over: panic".into());
                        nontrivial();
                        outcome(&(w.seen, "panic"));
                        return Ok(true);
                    }
                }
                std::panic::resume_unwind(p)
            }
        };
        if let Some(e) = w.err.take() {
            return Err(e);
        }
        if w.breach && r.is_ready() {
            note(|| format!("session over: {r:?}"));
            outcome(&(w.seen, "over"));
            return Ok(true);
        }
        self.polls += 1;
        match r {
            Poll::Pending => {
                ensure!(w.pended && count.get() > 0, "the session suspended although nothing had answered not-ready");
                ensure!(self.polls < 2_000_000, "the session does not come to an end");
                Ok(false)
            }
            Poll::Ready(r) => {
                note(|| format!("session over: {:?}", r));
                outcome(&(w.seen, w.failed));
                match (r, w.failed) {
                    (Err(()), Some(_)) => return Ok(true),
                    (Err(()), None) => return Err("the session ended with an error although nothing failed".into()),
                    (Ok(()), Some(f)) => return Err(format!("{f} failed, but the session ended without an error")),
                    (Ok(()), None) => (),
                }
                ensure!(w.eof, "the session ended although the connection had not");
                if w.at < w.exp.len() {
                    return Err(format!("the session ended although {}", w.next_is()));
                }
                ensure!(w.linebuf.is_empty() && w.acc_lines == 0, "the session ended in the middle of a reply");
                ensure!(!w.unflushed, "the session ended with a reply not flushed");
                if let Some(h) = w.in_hook {
                    return Err(format!("the session ended before the {h} has finished"));
                }
                Ok(true)
            }
        }
    }
}
/// Runs the real session over the pieces against the model's expectations.
pub fn run(s: &Sess, pieces: &[B], mem: Mem, opts: Opts) -> Res {
    debug_assert!(pieces.concat() == s.input);
    note(|| format!("config {:?}, input {}", s.kind, show_pieces(pieces)));
    let mut r = Run::new(s, packets(pieces, mem), opts);
    while !r.poll()? {}
    Ok(())
}
/// The input cut into its lines.
pub fn lines(b: &[u8]) -> Vec<B> {
    let mut out = vec![];
    let mut rest = b;
    while let Some(i) = model::find_crlf(rest) {
        out.push(rest[..i + 2].to_vec());
        rest = &rest[i + 2..];
    }
    if !rest.is_empty() {
        out.push(rest.to_vec());
    }
    out
}
