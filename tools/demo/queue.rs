#![allow(dead_code, unused_imports)]
use bytes::BytesMut;
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::*;
use std::collections::{HashMap, VecDeque};
use std::sync::{atomic::{AtomicU64, Ordering}, Arc, Mutex};
use std::time::{Duration, Instant};
use tokio::prelude::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum A { Ok, Fail(u16), Hang, Later, Slow(u32) }
/// What every operation is to answer (`A::Ok` once its list is used up), and what was called.
#[derive(Default)]
pub struct World { pub answers: HashMap<(&'static str, u32), VecDeque<A>>, pub log: Vec<String>, pub queued: Vec<u32>, pub found: Vec<u32>, pub done: Vec<u32>, pub list: Listing, pub find: Listing, pub main: Option<bool>, pub text: Option<String>, pub recipients: usize, pub parts: usize }
/// After how many items the listing fails or hangs, or pauses until when.
#[derive(Clone, Copy, Default)]
pub struct Listing { pub fails_at: Option<usize>, pub hangs_at: Option<usize>, pub not_before: Option<(usize, u64)> }
impl Listing {
    fn stream<T: 'static>(self, v: Vec<u32>, f: fn(u32) -> T) -> Box<dyn Stream<Item = T, Error = ()>> {
        let (mut n, mut failed) = (0, false);
        Box::new(stream::poll_fn(move || {
            if let Some((i, t)) = self.not_before { if n >= i && FROM.load(Ordering::SeqCst) < t { task::current().notify(); return Ok(Async::NotReady); } }
            if self.hangs_at == Some(n) { return Ok(Async::NotReady); }
            if failed { return Ok(Async::Ready(None)); }
            if self.fails_at == Some(n) { failed = true; return Err(()); }
            n += 1;
            Ok(Async::Ready(v.get(n - 1).map(|i| f(*i))))
        }))
    }
}
#[derive(Clone, Default)]
pub struct W(pub Arc<Mutex<World>>);
impl W {
    pub fn plan(&self, op: &'static str, mail: u32, a: &[A]) { self.0.lock().unwrap().answers.insert((op, mail), a.iter().cloned().collect()); }
    pub fn log(&self) -> Vec<String> { self.0.lock().unwrap().log.clone() }
    pub fn has(&self, s: &str) -> bool { self.log().iter().any(|l| l == s) }
    pub fn count(&self, s: &str) -> usize { self.log().iter().filter(|l| *l == s).count() }
    pub fn pos(&self, s: &str) -> usize { self.log().iter().position(|l| l == s).unwrap_or_else(|| panic!("no {s:?} in {:?}", self.log())) }
    fn op<T: Send + 'static, E: Send + 'static>(&self, op: &'static str, mail: u32, ok: T, ko: impl FnOnce(u16) -> E + Send + 'static) -> Box<dyn Future<Item = T, Error = E> + Send> {
        let w = self.clone();
        let mut st = Some((ok, ko));
        let mut ans = None;
        Box::new(future::poll_fn(move || {
            if ans.is_none() {
                let mut x = w.0.lock().unwrap();
                x.log.push(format!("{op} {mail}"));
                ans = Some(x.answers.get_mut(&(op, mail)).and_then(|q| q.pop_front()).unwrap_or(A::Ok));
            }
            match ans {
                Some(A::Hang) => Ok(Async::NotReady),
                Some(A::Slow(n)) => { ans = Some(if n > 1 { A::Slow(n - 1) } else { A::Ok }); task::current().notify(); Ok(Async::NotReady) }
                Some(A::Later) => { ans = Some(A::Ok); task::current().notify(); Ok(Async::NotReady) }
                Some(A::Ok) => { let mut x = w.0.lock().unwrap(); x.log.push(format!("{op} {mail} ok")); if op == "done" { x.done.push(mail) } Ok(Async::Ready(st.take().unwrap().0)) }
                Some(A::Fail(c)) => { w.0.lock().unwrap().log.push(format!("{op} {mail} failed")); Err(st.take().unwrap().1(c)) }
                None => unreachable!(),
            }
        }))
    }
}
pub struct QM(u32); pub struct IM(W, u32); pub struct FIM(u32);
impl QueuedMail<u32> for QM {}
impl FoundInflightMail<u32> for FIM {}
type Bx<T> = Box<dyn Future<Item = T, Error = ()> + Send>;
type Body = Box<dyn Stream<Item = BytesMut, Error = ()>>;
impl InflightMail<u32> for IM {
    fn get_mail(&self) -> Bx<Mail<Body, u32>> {
        let i = self.1;
        let (r, p) = { let w = self.0.0.lock().unwrap(); (w.recipients, w.parts.max(1)) };
        Box::new(self.0.op("get", i, (), |_| ()).map(move |()| Mail { from: None, to: (0..r).map(|n| Email::parse_slice(format!("u{n}@x.y").as_bytes()).unwrap()).collect(), data: Box::new(stream::iter_ok((0..p).map(move |_| BytesMut::from(format!("mail {i}"))))) as Body, metadata: i }))
    }
}
impl Storage<u32, QM, IM, FIM> for W {
    fn list_queue(&self) -> Box<dyn Stream<Item = QM, Error = ()>> { let w = self.0.lock().unwrap(); w.list.stream(w.queued.clone(), QM) }
    fn find_inflight(&self) -> Box<dyn Stream<Item = FIM, Error = ()>> { let w = self.0.lock().unwrap(); w.find.stream(w.found.clone(), FIM) }
    fn cancel_found_inflight(&self, m: FIM) -> Bx<QM> { self.op("requeue", m.0, QM(m.0), |_| ()) }
    fn enqueue<S>(&self, _: Mail<S, u32>) -> Box<dyn Future<Item = QM, Error = ()>> where S: Stream<Item = BytesMut, Error = ()> { panic!() }
    fn send_start(&self, m: QM) -> Bx<IM> { self.op("start", m.0, IM(self.clone(), m.0), |_| ()) }
    fn send_done(&self, m: IM) -> Bx<()> { self.op("done", m.1, (), |_| ()) }
    fn send_cancel(&self, m: IM) -> Bx<QM> { self.op("cancel", m.1, QM(m.1), |_| ()) }
}
impl Transport<u32> for W {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, m: Mail<S, u32>) -> Box<dyn Future<Item = (), Error = (ReplyCode, SmtpString)> + Send> {
        let (r, p) = { let w = self.0.lock().unwrap(); (w.recipients, w.parts) };
        if r + p > 0 {
            let (to, i) = (m.to.len(), m.metadata);
            let n = m.data.wait().count();
            self.0.lock().unwrap().log.push(format!("given {to} recipients, {n} parts"));
            return self.op("send", i, (), |c| (ReplyCode::custom(c), "no".into()));
        }
        let t = self.0.lock().unwrap().text.clone().unwrap_or("no".into());
        self.op("send", m.metadata, (), move |c| (ReplyCode::custom(c), (&t[..]).into()))
    }
}
static OFFSET: AtomicU64 = AtomicU64::new(0);
/// When a listing that pauses goes on.
pub static FROM: AtomicU64 = AtomicU64::new(0);
struct Clock;
impl tokio_timer::clock::Now for Clock { fn now(&self) -> Instant { Instant::now() + Duration::from_secs(OFFSET.load(Ordering::SeqCst)) } }
pub struct Rt(tokio::runtime::current_thread::Runtime);
pub fn start(w: &W) -> Rt {
    let mut rt = tokio::runtime::current_thread::Builder::new().clock(tokio_timer::clock::Clock::new_with_now(Clock)).build().unwrap();
    let x = w.clone();
    rt.spawn(Nosend(Box::new(run(Arc::new(w.clone()), Arc::new(w.clone())).then(move |r| { x.0.lock().unwrap().main = Some(r.is_ok()); Ok(()) }))));
    let mut r = Rt(rt);
    r.turns();
    r
}
struct Nosend(Box<dyn Future<Item = (), Error = ()>>);
impl Future for Nosend { type Item = (); type Error = (); fn poll(&mut self) -> Poll<(), ()> { self.0.poll() } }
impl Rt {
    /// Lets everything that can run, run.
    pub fn turns(&mut self) {
        let mut n = 200;
        self.0.block_on(future::poll_fn(move || -> Poll<(), ()> { if n == 0 { return Ok(Async::Ready(())); } n -= 1; task::current().notify(); Ok(Async::NotReady) })).unwrap();
    }
    pub fn at(&mut self, secs: u64) { OFFSET.store(secs, Ordering::SeqCst); self.turns(); }
}
