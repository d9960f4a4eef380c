#![allow(dead_code, unused_imports)]
use bytes::{Bytes, BytesMut};
use futures::{executor::block_on, future, prelude::*, stream, task::{Context, Poll}};
use smtp_message::*;
use smtp_server::*;
use std::collections::VecDeque;
use std::pin::Pin;
use std::sync::{Arc, Mutex};

pub type Log = Arc<Mutex<Vec<String>>>;
pub fn say(l: &Log, s: impl Into<String>) { l.lock().unwrap().push(s.into()) }
pub fn mail(e: &Email) -> String { String::from_utf8(SmtpString::from_sendable(e).unwrap().bytes().to_vec()).unwrap() }
pub fn from(e: &Option<Email>) -> String { e.as_ref().map_or("<>".into(), mail) }
pub fn no(code: u16, s: &'static str) -> Decision { Decision::Reject(Refusal { code: ReplyCode::custom(code), msg: s.into() }) }
/// Refuses addresses containing `bad` and bodies containing `REJ`; rewrites recipients
/// containing `alias`; refuses DATA with the codes in `data`. With the banner `count` two replies are counted.
pub struct Cfg { pub log: Log, pub data: VecDeque<u16>, pub banner: String, pub slow: bool }
impl Cfg {
    fn seen(&self, s: &str) -> usize { self.log.lock().unwrap().iter().filter(|l| l.starts_with(s)).count() }
}
impl Config<()> for Cfg {
    fn new_mail<'a>(&'a mut self) -> Pin<Box<dyn 'a + Send + Future<Output = ()>>> {
        say(&self.log, "new_mail");
        let (l, mut n) = (self.log.clone(), if self.slow { 1 } else { 0 });
        Box::pin(future::poll_fn(move |cx| if n > 0 { n -= 1; cx.waker().wake_by_ref(); Poll::Pending } else { say(&l, "new_mail done"); Poll::Ready(()) }))
    }
    fn filter_from<'a>(&'a mut self, f: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        say(&self.log, format!("from {}", from(f)));
        Box::pin(future::ready(if from(f).contains("bad") { no(551, "bad sender") } else { Decision::Accept }))
    }
    fn filter_to<'a>(&'a mut self, t: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        say(&self.log, format!("to {}", mail(t)));
        let d = if mail(t).contains("bad") { no(552, "bad recipient") } else { Decision::Accept };
        if mail(t).contains("alias") { *t = Email::parse_slice(b"real@to.x").unwrap(); }
        Box::pin(future::ready(d))
    }
    fn filter_data<'a>(&'a mut self, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        say(&self.log, "data");
        Box::pin(future::ready(match self.data.pop_front() { Some(c) if c > 0 => no(c, "no data"), _ => Decision::Accept }))
    }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, m: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> {
        say(&self.log, "handler");
        let l = self.log.clone();
        Box::pin(async move {
            let mut b = vec![];
            while let Some(p) = futures::StreamExt::next(s).await { b.extend_from_slice(&p); }
            let ok = s.complete().is_ok();
            let b = String::from_utf8_lossy(&b).to_string();
            say(&l, format!("mail {} to {} {} {:?}", from(&m.from), m.to.iter().map(mail).collect::<Vec<_>>().join(","), if ok { "complete" } else { "cut" }, b));
            if ok && !b.contains("REJ") { Decision::Accept } else { no(553, "bad body") }
        })
    }
    fn hostname(&self) -> SmtpString { (&self.banner[..]).into() }
    fn mail_okay(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(251), "mail okay".into()) }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(252), "rcpt okay".into()) }
    fn data_okay(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(354), if self.banner == "count" { (&format!("data okay {}", self.seen("data"))[..]).into() } else { "data okay".into() }) }
    fn mail_accepted(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(250), if self.banner == "count" { (&format!("accepted {}", self.seen("mail "))[..]).into() } else { "accepted".into() }) }
    fn already_in_mail(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(501), "already in mail".into()) }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(503), "rcpt before mail".into()) }
    fn data_before_rcpt(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(504), "data before rcpt".into()) }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) { (ReplyCode::custom(505), "data before mail".into()) }
}
/// A connection: packets (None: not ready once), its end; every read is logged.
pub struct In { pub log: Log, pub packets: VecDeque<Option<Vec<u8>>>, pub ends: bool }
impl Stream for In {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        say(&self.log, "read");
        match self.packets.pop_front() {
            Some(Some(p)) => Poll::Ready(Some(BytesMut::from(p))),
            Some(None) => { cx.waker().wake_by_ref(); Poll::Pending }
            None if self.ends => { say(&self.log, "end"); Poll::Ready(None) }
            None => Poll::Pending,
        }
    }
}
/// The other direction: logs what is written; the n-th write may fail; flushing may be slow.
pub struct Out { pub log: Log, pub bytes: Arc<Mutex<Vec<u8>>>, pub writes: usize, pub fail_at: usize, pub slow: usize, pub unflushed: bool }
impl Sink<Bytes> for Out {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> {
        self.writes += 1;
        if self.writes == self.fail_at { say(&self.log, "write failed"); return Err(()); }
        say(&self.log, format!("reply {}", String::from_utf8_lossy(&b).trim_end()));
        self.bytes.lock().unwrap().extend_from_slice(&b);
        self.unflushed = true;
        Ok(())
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if self.unflushed && self.slow > 0 { self.slow -= 1; cx.waker().wake_by_ref(); return Poll::Pending; }
        if self.unflushed { self.unflushed = false; say(&self.log, "flushed"); }
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
}
pub struct Run { pub log: Vec<String>, pub out: String, pub result: Option<Result<(), ()>> }
impl Run {
    pub fn has(&self, s: &str) -> bool { self.log.iter().any(|l| l == s) }
    pub fn pos(&self, s: &str) -> usize { self.log.iter().position(|l| l == s).unwrap_or_else(|| panic!("no {s} in {:?}", self.log)) }
    pub fn replies(&self) -> Vec<&str> { self.out.split("\r\n").filter(|l| !l.is_empty()).collect() }
    pub fn codes(&self) -> Vec<&str> { self.replies().iter().map(|l| &l[..3]).collect() }
}
pub struct Setup { pub packets: Vec<Option<Vec<u8>>>, pub ends: bool, pub data: Vec<u16>, pub banner: String, pub fail_at: usize, pub slow: usize, pub slow_hooks: bool }
pub fn setup(packets: &[&[u8]]) -> Setup {
    Setup { packets: packets.iter().map(|p| Some(p.to_vec())).collect(), ends: true, data: vec![], banner: "demo".into(), fail_at: 0, slow: 0, slow_hooks: false }
}
/// Runs a session for as long as it makes progress.
pub fn go(s: Setup) -> Run {
    let log: Log = Default::default();
    let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
    let mut cfg = Cfg { log: log.clone(), data: s.data.into(), banner: s.banner, slow: s.slow_hooks };
    let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: s.fail_at, slow: s.slow, unflushed: false });
    let inp = In { log: log.clone(), packets: s.packets.into(), ends: s.ends };
    let mut result = None;
    {
        let mut f = Box::pin(interact(inp, out.as_mut(), (), &mut cfg));
        let w = futures::task::noop_waker();
        let mut cx = Context::from_waker(&w);
        for _ in 0..1000 { if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { result = Some(r); break; } }
    }
    let log = log.lock().unwrap().clone();
    let out = String::from_utf8(bytes.lock().unwrap().clone()).unwrap();
    println!("log {log:#?}\nresult {result:?}");
    Run { log, out, result }
}
