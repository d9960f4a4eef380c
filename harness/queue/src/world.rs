//! Environment of the queue runner: persistent storage, transport, executor, timer,
//! clock; all of them under the control of the explorer. The storage is also the
//! monitor: it knows for every mail which operation may come next.
use bytes::BytesMut;
use futures::executor::{spawn, Notify, Spawn};
use futures::{Async, Future, Poll, Stream};
use mcore::vclock;
use mcore::*;
use smtp_message::{Email, ReplyCode, SmtpString};
use smtp_queue::{FoundInflightMail, InflightMail, Mail, QueuedMail, Storage, Transport};
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tokio_executor::park::{Park, Unpark};

// ------------------------------------------------------------------ state
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    Queued,
    Inflight,
    Done,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    List,
    Find,
    Start,
    Get,
    Send,
    Done,
    Cancel,
    CancelFound,
}
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Kind::List => "list_queue",
            Kind::Find => "find_inflight",
            Kind::Start => "send_start",
            Kind::Get => "get_mail",
            Kind::Send => "transport",
            Kind::Done => "send_done",
            Kind::Cancel => "send_cancel",
            Kind::CancelFound => "cancel_found_inflight",
        }
    }
}
/// Where the present process is with a mail.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum At {
    Idle,
    Starting,
    Started,
    Getting,
    Got,
    GetFailed,
    Sending,
    Accepted,
    Refused,
    Finishing,
    Finished,
    Returning,
    Requeueing,
    /// a storage operation failed: nothing more is due
    Stuck,
}
#[derive(Clone, Debug)]
pub struct M {
    pub st: St,
    /// current name of the mail in the storage; changes with every move
    pub token: u64,
    pub at: At,
    /// the transport still refuses this many times
    pub refusals: u32,
    pub delivered: u32,
    pub excused: u32,
    pub requeued: u32,
    pub attempts: u32,
    /// the transport has accepted it, and the done mark is not yet durable
    pub limbo: bool,
    /// found in flight at this start-up
    pub found: bool,
    /// trouble was injected for this mail
    pub hurt: bool,
    pub from_found: bool,
    /// handed to the runner by a listing of this start-up
    pub listed: bool,
}
pub struct OpRec {
    kind: Kind,
    mail: usize,
    token: u64,
    task: futures::task::Task,
    state: OpState,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum OpState {
    Waiting,
    Done(bool),
    Taken,
}
#[derive(Clone, Debug)]
pub struct Opts {
    /// operations are outstanding until the explorer completes them
    pub later: bool,
    /// ... or immediately, as a choice
    pub mixed: bool,
    /// every completion order (otherwise: deviations from first-come-first-served)
    pub all_orders: bool,
    /// operations on mails may fail / hang, as deviations
    pub errors: bool,
    pub hangs: bool,
    pub crash: bool,
    /// find_inflight also lists what this process itself has in flight
    pub list_own: bool,
    /// the clock may advance by 30 minutes in between, as deviations
    pub drift: bool,
    /// only this mail gets errors and hangs
    pub victim: Option<usize>,
    /// a listing may fail / hang at any item or at its end, as deviations
    pub list_errors: bool,
    pub list_hangs: bool,
    /// deviations are not spent on other orders
    pub in_order: bool,
    /// kind of bodies and of envelopes
    pub body: usize,
    pub envelope: usize,
    /// the answer of the transport to a refused mail: code and kind of text (None: changing)
    pub refusal: Option<(u16, usize)>,
    /// this operation fails or hangs (true) for the mails from..to
    pub broken: Option<(usize, usize, Kind, bool)>,
    /// the runner and the tasks may be polled although nothing has happened to them, as deviations
    pub spurious: bool,
    /// ... and this many times, all of them, before every completion
    pub storm: usize,
}
impl Default for Opts {
    fn default() -> Opts {
        Opts { later: true, mixed: false, all_orders: false, errors: false, hangs: false, crash: false, list_own: true, drift: false, victim: None, list_errors: false, list_hangs: false, in_order: false, body: 0, envelope: 0, refusal: None, broken: None, spurious: false, storm: 0 }
    }
}
pub struct World {
    pub mails: Vec<M>,
    next_token: u64,
    pub ops: Vec<OpRec>,
    /// those of them that may be completed
    pub waiting: VecDeque<usize>,
    pub opts: Opts,
    pub err: Option<String>,
    pub offset: Duration,
    pub startup_offset: Duration,
    pub main_done: Option<bool>,
    /// what became of the two listings: None: not over; Some(true): ended; Some(false): failed or hanging
    pub lists: [Option<bool>; 2],
    pub list_hung: bool,
    pub log: Vec<u16>,
    pub spawned: Vec<Spawn<Box<dyn Future<Item = (), Error = ()> + Send>>>,
}
#[derive(Clone)]
pub struct Sh(pub Arc<Mutex<World>>);

pub struct QM(pub usize, pub u64);
pub struct IM(Sh, usize, u64);
pub struct FIM(usize, u64);
/// The metadata of a mail: which, and under which in-flight name it was fetched.
pub struct Tag(usize, u64);
impl QueuedMail<Tag> for QM {}
impl FoundInflightMail<Tag> for FIM {}

pub const BODIES: usize = 8;
/// ... and large ones
pub const LARGE_BODIES: usize = 9;
const PARTS: [usize; 6] = [1001, 4097, 10_001, 70_001, 100_001, 300_001];
pub fn content(i: usize, kind: usize) -> Vec<Vec<u8>> {
    let c = format!("content of mail {i}\r\n").into_bytes();
    let k = c.len() / 2;
    match kind {
        0 => vec![c[..k].to_vec(), c[k..].to_vec()],
        1 => vec![],
        2 => vec![vec![]],
        3 => vec![vec![], c, vec![], vec![]],
        4 => (0..1000).map(|k| format!("{i}-{k}-").repeat(20).into_bytes()).collect(),
        5 => vec![c.repeat(40_000)],
        6 => vec![(0..=255).collect(), b"\r\n.\r\n..\r\n.".to_vec()],
        7 => c.iter().map(|b| vec![*b]).collect(),
        k if k < 14 => (0..PARTS[k - 8]).map(|n| if n % 999 == 0 { vec![] } else { vec![n as u8, i as u8] }).collect(),
        14 => vec![c.repeat(1_000_000), vec![], b".".to_vec()],
        15 => (0..300).map(|_| c.repeat(3500)).collect(),
        _ => (0..1000).map(|_| c.repeat(3500)).collect(),
    }
}
pub const ENVELOPES: usize = 8;
/// ... and large ones
pub const LARGE_ENVELOPES: usize = 6;
const RCPTS: [usize; LARGE_ENVELOPES] = [1001, 4097, 10_001, 65_537, 70_001, 100_001];
fn sender(i: usize, kind: usize) -> Option<Email> {
    match kind {
        0 if i % 3 == 2 => None,
        1 | 3 => None,
        5 => Some(Email::parse_slice(b"\"a \\\" b\"@[IPv6:::1]").unwrap()),
        6 => Some(Email::parse_slice(b"Postmaster").unwrap()),
        _ => Some(Email::parse_slice(format!("from{i}@a.b").as_bytes()).unwrap()),
    }
}
fn rcpts(i: usize, kind: usize) -> Vec<Email> {
    let to = |k: usize| Email::parse_slice(format!("to{i}-{k}@c.d").as_bytes()).unwrap();
    match kind {
        0 => (0..=i % 3).map(to).collect(),
        1 | 2 => vec![],
        3 => vec![to(0)],
        4 => (0..1000).map(to).collect(),
        5 => vec![to(0), to(1), to(0), to(0)],
        6 => [&b"Postmaster"[..], b"\"\"@c.d", b"TO@C.D", b"to@c.d", b"\"to\"@c.d", b"to@[1.2.3.4]"].iter().map(|a| Email::parse_slice(a).unwrap()).collect(),
        7 => (0..300).map(|k| to(300 - k)).collect(),
        _ => (0..RCPTS[kind - 8]).map(to).collect(),
    }
}
pub const TEXTS: usize = 7;
fn refusal_text(kind: usize) -> SmtpString {
    match kind {
        0 => SmtpString::from_static(b"try again later"),
        1 => SmtpString::from_static(b""),
        2 => SmtpString::from_static(b"250 OK"),
        3 => vec![b'x'; 506].into(),
        4 => vec![b'x'; 513].into(),
        5 => vec![b' '; 70_000].into(),
        _ => (&b"\r\n.\r\n250 2.0.0 OK\xff\0"[..]).into(),
    }
}
fn wire(e: &Email) -> Vec<u8> {
    SmtpString::from_sendable(e).unwrap().bytes().to_vec()
}

impl World {
    pub fn new(queued: usize, found: usize, opts: Opts) -> World {
        let mut w = World {
            mails: vec![],
            next_token: 100,
            ops: vec![],
            waiting: VecDeque::new(),
            opts,
            err: None,
            offset: Duration::from_secs(0),
            startup_offset: Duration::from_secs(0),
            main_done: None,
            lists: [None; 2],
            list_hung: false,
            log: vec![],
            spawned: vec![],
        };
        for i in 0..queued + found {
            let t = w.token();
            w.mails.push(M {
                st: if i < queued { St::Queued } else { St::Inflight },
                token: t,
                at: At::Idle,
                refusals: 0,
                delivered: 0,
                excused: 0,
                requeued: 0,
                attempts: 0,
                limbo: false,
                found: false,
                hurt: false,
                from_found: false,
                listed: false,
            });
        }
        w
    }
    fn token(&mut self) -> u64 {
        self.next_token += 1;
        self.next_token
    }
    pub fn bad(&mut self, m: String) {
        note(|| format!("!! {m}"));
        if self.err.is_none() {
            self.err = Some(m);
        }
    }
    /// An operation begins: is it due?
    fn begin(&mut self, k: Kind, i: usize, token: u64) {
        step();
        note(|| format!("mail {i}: {} begins ({:?}, {:?})", k.name(), self.mails[i].st, self.mails[i].at));
        self.log.push((i * 8 + k as usize) as u16);
        let m = self.mails[i].clone();
        let stale = token != m.token;
        let (ok, next) = match k {
            Kind::Start => (m.st == St::Queued && matches!(m.at, At::Idle | At::Finished), At::Starting),
            Kind::Get => (m.st == St::Inflight && m.at == At::Started, At::Getting),
            Kind::Send => (m.st == St::Inflight && m.at == At::Got, At::Sending),
            Kind::Done => (m.st == St::Inflight && m.at == At::Accepted, At::Finishing),
            Kind::Cancel => (m.st == St::Inflight && matches!(m.at, At::Refused | At::GetFailed), At::Returning),
            Kind::CancelFound => {
                if self.offset < self.startup_offset + Duration::from_secs(3600) {
                    return self.bad(format!("mail {i}, found in flight, is returned to the queue {} s after start-up", (self.offset - self.startup_offset).as_secs()));
                }
                // an attempt that came to a halt on a storage failure may be taken up again
                if !stale && !matches!(m.at, At::Idle | At::Stuck | At::GetFailed) {
                    return self.bad(format!("mail {i} is returned to the queue as found in flight twice, or while an attempt is under way ({:?})", m.at));
                }
                if stale {
                    // it moved on since it was found; the storage will say so
                    return;
                }
                if m.limbo {
                    self.mails[i].excused += 1;
                    self.mails[i].limbo = false;
                }
                (m.st == St::Inflight, At::Requeueing)
            }
            _ => unreachable!(),
        };
        if stale {
            return self.bad(format!("{} for mail {i} uses a handle that is no longer valid", k.name()));
        }
        if !ok {
            return self.bad(format!("{} for mail {i}, which is {:?} and at {:?}", k.name(), m.st, m.at));
        }
        if k == Kind::Start {
            self.mails[i].attempts += 1;
        }
        self.mails[i].at = next;
        if self.mails.len() <= 100 {
            state(&self.key());
        } else {
            let m = &self.mails[i];
            state(&(i, (self.offset - self.startup_offset).as_secs(), m.st, m.at, m.refusals, m.delivered, m.requeued, m.limbo, m.hurt));
        }
    }
    pub fn key(&self) -> Vec<(u64, St, At, u32, u32, u32, bool, bool)> {
        let t = (self.offset - self.startup_offset).as_secs();
        self.mails.iter().map(|m| (t, m.st, m.at, m.refusals, m.delivered, m.requeued, m.limbo, m.hurt)).collect()
    }
    /// The effect of an operation on the storage; what was answered.
    fn effect(&mut self, k: Kind, i: usize, token: u64, ok: bool) -> bool {
        if i == usize::MAX {
            return ok;
        }
        if k == Kind::CancelFound && token != self.mails[i].token {
            return false;
        }
        let t = self.token();
        let m = &mut self.mails[i];
        if !ok && k != Kind::Send {
            m.at = if k == Kind::Get { At::GetFailed } else { At::Stuck };
            return false;
        }
        match k {
            Kind::Start => {
                m.st = St::Inflight;
                m.token = t;
                m.at = At::Started;
            }
            Kind::Get => m.at = At::Got,
            Kind::Send => {
                if ok {
                    m.delivered += 1;
                    m.limbo = true;
                    m.at = At::Accepted;
                } else {
                    m.at = At::Refused;
                }
            }
            Kind::Done => {
                m.st = St::Done;
                m.token = t;
                m.limbo = false;
                m.at = At::Finished;
            }
            Kind::Cancel | Kind::CancelFound => {
                m.st = St::Queued;
                m.token = t;
                m.at = At::Idle;
                m.requeued += 1;
            }
            _ => (),
        }
        ok
    }
    /// Draws the answer of an operation.
    fn answer(&mut self, k: Kind, i: usize) -> bool {
        if i == usize::MAX {
            if self.opts.list_errors && dev(2) == 1 {
                note(|| format!("{} fails", k.name()));
                nontrivial();
                self.lists[(k == Kind::Find) as usize] = Some(false);
                return false;
            }
            return true;
        }
        if matches!(self.opts.broken, Some((a, z, b, false)) if b == k && (a..z).contains(&i)) {
            note(|| format!("mail {i}: {} fails", k.name()));
            self.mails[i].hurt = true;
            nontrivial();
            return false;
        }
        if k == Kind::Send {
            // the number of refusals is fixed in advance
            let m = &mut self.mails[i];
            if m.refusals > 0 {
                m.refusals -= 1;
                return false;
            }
            return true;
        }
        if self.opts.errors && self.opts.victim.map_or(true, |v| v == i) && dev(2) == 1 {
            note(|| format!("mail {i}: {} fails", k.name()));
            self.mails[i].hurt = true;
            nontrivial();
            return false;
        }
        true
    }
    fn may_hang(&mut self, k: Kind, i: usize) -> bool {
        if i == usize::MAX && self.opts.list_hangs && dev(2) == 1 {
            note(|| format!("{} hangs", k.name()));
            self.lists[(k == Kind::Find) as usize] = Some(false);
            self.list_hung = true;
            nontrivial();
            return true;
        }
        if matches!(self.opts.broken, Some((a, z, b, true)) if b == k && (a..z).contains(&i)) {
            note(|| format!("mail {i}: hangs"));
            self.mails[i].hurt = true;
            nontrivial();
            return true;
        }
        if i != usize::MAX && self.opts.hangs && self.opts.victim.map_or(true, |v| v == i) && dev(2) == 1 {
            note(|| format!("mail {i}: hangs"));
            self.mails[i].hurt = true;
            nontrivial();
            return true;
        }
        false
    }
}

// ------------------------------------------------------------------ operations
struct Op<T, F: FnOnce(&mut World) -> T, E, G: FnOnce() -> E> {
    sh: Sh,
    kind: Kind,
    mail: usize,
    token: u64,
    id: Option<usize>,
    ok: Option<F>,
    ko: Option<G>,
}
impl<T, F: FnOnce(&mut World) -> T, E, G: FnOnce() -> E> Future for Op<T, F, E, G> {
    type Item = T;
    type Error = E;
    fn poll(&mut self) -> Poll<T, E> {
        let sh = self.sh.clone();
        let mut w = sh.0.lock().unwrap();
        if w.err.is_some() {
            return Ok(Async::NotReady);
        }
        let answer = match self.id {
            None => {
                if self.mail != usize::MAX {
                    w.begin(self.kind, self.mail, self.token);
                    if w.err.is_some() {
                        return Ok(Async::NotReady);
                    }
                }
                let hung = w.may_hang(self.kind, self.mail);
                let later = hung || if w.opts.mixed { (dev(2) == 1) != w.opts.later } else { w.opts.later };
                if later {
                    self.id = Some(w.ops.len());
                    let task = futures::task::current();
                    if !hung {
                        self.id.map(|id| w.waiting.push_back(id));
                    }
                    w.ops.push(OpRec { kind: self.kind, mail: self.mail, token: self.token, task, state: OpState::Waiting });
                    return Ok(Async::NotReady);
                }
                let a = w.answer(self.kind, self.mail);
                w.effect(self.kind, self.mail, self.token, a)
            }
            Some(id) => {
                w.ops[id].task = futures::task::current();
                match w.ops[id].state {
                    OpState::Waiting => return Ok(Async::NotReady),
                    OpState::Taken => panic!("a finished operation is polled again"),
                    OpState::Done(ok) => {
                        w.ops[id].state = OpState::Taken;
                        // the effect took place when it was completed; stale requests fail
                        ok
                    }
                }
            }
        };
        note(|| if self.mail == usize::MAX { String::new() } else { format!("mail {}: {} answers {}", self.mail, self.kind.name(), answer) });
        if answer {
            Ok(Async::Ready((self.ok.take().unwrap())(&mut w)))
        } else {
            Err((self.ko.take().unwrap())())
        }
    }
}
impl World {
    /// Completes one outstanding operation; returns the task to wake.
    pub fn complete(&mut self, id: usize) -> futures::task::Task {
        let (k, i) = (self.ops[id].kind, self.ops[id].mail);
        let a = self.answer(k, i);
        let token = self.ops[id].token;
        let a = self.effect(k, i, token, a);
        self.ops[id].state = OpState::Done(a);
        if let Some(k) = self.waiting.iter().position(|w| *w == id) { self.waiting.remove(k); }
        self.ops[id].task.clone()
    }
}
type Bx<T, E> = Box<dyn Future<Item = T, Error = E> + Send>;
pub struct Store(pub Sh);
impl Store {
    fn op<T: 'static>(&self, kind: Kind, mail: usize, token: u64, f: impl FnOnce(&mut World) -> T + Send + 'static) -> Bx<T, ()> {
        Box::new(Op { sh: self.0.clone(), kind, mail, token, id: None, ok: Some(f), ko: Some(|| ()) })
    }
}
type Body = Box<dyn Stream<Item = BytesMut, Error = ()>>;
impl InflightMail<Tag> for IM {
    fn get_mail(&self) -> Bx<Mail<Body, Tag>, ()> {
        let (i, token) = (self.1, self.2);
        Store(self.0.clone()).op(Kind::Get, i, token, move |w| {
            let parts: Vec<BytesMut> = content(i, w.opts.body).into_iter().map(BytesMut::from).collect();
            let e = w.opts.envelope;
            Mail { from: sender(i, e), to: rcpts(i, e), data: Box::new(futures::stream::iter_ok(parts)) as Body, metadata: Tag(i, token) }
        })
    }
}
struct Listing<T> {
    sh: Sh,
    kind: Kind,
    items: Option<VecDeque<T>>,
    make: Box<dyn FnMut(&mut World) -> Vec<T>>,
    which: fn(&T) -> usize,
    op: Option<Bx<(), ()>>,
}
impl<T> Stream for Listing<T> {
    type Item = T;
    type Error = ();
    fn poll(&mut self) -> Poll<Option<T>, ()> {
        if self.items.is_none() {
            let mut w = self.sh.0.lock().unwrap();
            self.items = Some((self.make)(&mut w).into());
        }
        if self.op.is_none() {
            self.op = Some(Store(self.sh.clone()).op(self.kind, usize::MAX, 0, |_| ()));
        }
        match self.op.as_mut().unwrap().poll() {
            Ok(Async::NotReady) => return Ok(Async::NotReady),
            Ok(Async::Ready(())) => self.op = None,
            Err(()) => {
                // a failed listing is over
                self.op = None;
                self.items = Some(VecDeque::new());
                return Err(());
            }
        }
        let next = self.items.as_mut().unwrap().pop_front();
        let mut w = self.sh.0.lock().unwrap();
        match &next {
            Some(x) => w.mails[(self.which)(x)].listed = true,
            None => {
                let l = &mut w.lists[(self.kind == Kind::Find) as usize];
                if l.is_none() {
                    *l = Some(true)
                }
            }
        }
        Ok(Async::Ready(next))
    }
}
impl Storage<Tag, QM, IM, FIM> for Store {
    fn list_queue(&self) -> Box<dyn Stream<Item = QM, Error = ()>> {
        Box::new(Listing {
            sh: self.0.clone(),
            kind: Kind::List,
            which: |q: &QM| q.0,
            items: None,
            op: None,
            make: Box::new(|w: &mut World| {
                let v: Vec<QM> = w.mails.iter().enumerate().filter(|(_, m)| m.st == St::Queued).map(|(i, m)| QM(i, m.token)).collect();
                note(|| format!("the queue holds {:?}", v.iter().map(|q| q.0).collect::<Vec<_>>()));
                v
            }),
        })
    }
    fn find_inflight(&self) -> Box<dyn Stream<Item = FIM, Error = ()>> {
        Box::new(Listing {
            sh: self.0.clone(),
            kind: Kind::Find,
            which: |q: &FIM| q.0,
            items: None,
            op: None,
            make: Box::new(|w: &mut World| {
                let own = w.opts.list_own;
                let mut v = vec![];
                for (i, m) in w.mails.iter_mut().enumerate() {
                    let mine = m.at != At::Idle;
                    if m.st == St::Inflight && (own || !mine) {
                        m.found |= !mine;
                        v.push(FIM(i, m.token));
                    }
                }
                note(|| format!("found in flight: {:?}", v.iter().map(|q| q.0).collect::<Vec<_>>()));
                v
            }),
        })
    }
    fn cancel_found_inflight(&self, f: FIM) -> Bx<QM, ()> {
        self.op(Kind::CancelFound, f.0, f.1, move |w| {
            w.mails[f.0].from_found = true;
            QM(f.0, w.mails[f.0].token)
        })
    }
    fn enqueue<S>(&self, _: Mail<S, Tag>) -> Box<dyn Future<Item = QM, Error = ()>>
    where
        S: Stream<Item = BytesMut, Error = ()>,
    {
        self.0 .0.lock().unwrap().bad("a mail is added to the queue".into());
        Box::new(futures::future::err(()))
    }
    fn send_start(&self, q: QM) -> Bx<IM, ()> {
        let sh = self.0.clone();
        self.op(Kind::Start, q.0, q.1, move |w| IM(sh, q.0, w.mails[q.0].token))
    }
    fn send_done(&self, m: IM) -> Bx<(), ()> {
        let (i, t) = (m.1, m.2);
        self.op(Kind::Done, i, t, |_| ())
    }
    fn send_cancel(&self, m: IM) -> Bx<QM, ()> {
        let (i, t) = (m.1, m.2);
        self.op(Kind::Cancel, i, t, move |w| QM(i, w.mails[i].token))
    }
}
pub struct Trans(pub Sh);
impl Transport<Tag> for Trans {
    fn send<S: Stream<Item = BytesMut, Error = ()>>(&self, mail: Mail<S, Tag>) -> Bx<(), (ReplyCode, SmtpString)> {
        let Tag(i, token) = mail.metadata;
        let (nth, b, e, refusal) = {
            let w = self.0 .0.lock().unwrap();
            (w.mails[i].attempts as usize, w.opts.body, w.opts.envelope, w.opts.refusal)
        };
        let mut got = vec![];
        let mut s = spawn(mail.data);
        let n: Arc<Ignore> = Arc::new(Ignore);
        loop {
            match s.poll_stream_notify(&n, 0) {
                Ok(Async::Ready(Some(b))) => got.extend_from_slice(&b),
                Ok(Async::Ready(None)) => break,
                _ => {
                    self.0 .0.lock().unwrap().bad(format!("the body of mail {i} given to the transport is not the stored one"));
                    break;
                }
            }
        }
        let same = got == content(i, b).concat() && mail.from.as_ref().map(wire) == sender(i, e).as_ref().map(wire) && mail.to.iter().map(wire).collect::<Vec<_>>() == rcpts(i, e).iter().map(wire).collect::<Vec<_>>();
        if !same {
            self.0 .0.lock().unwrap().bad(format!("the transport is given other contents for mail {i}: {}", show(&got)));
        }
        Box::new(Op {
            sh: self.0.clone(),
            kind: Kind::Send,
            mail: i,
            token,
            id: None,
            ok: Some(|_: &mut World| ()),
            // the answer differs from refusal to refusal: nothing may depend on it
            ko: Some(move || {
                const C: [u16; 8] = [451, 550, 421, 554, 452, 221, 503, 999];
                let (c, t) = refusal.unwrap_or((C[(nth + i) % 8], (nth + i) / 2 % TEXTS));
                (ReplyCode::custom(c), refusal_text(t))
            }),
        })
    }
}
struct Ignore;
impl Notify for Ignore {
    fn notify(&self, _: usize) {}
}

// ------------------------------------------------------------------ executor, timer
pub struct Ready(Mutex<VecDeque<usize>>);
impl Notify for Ready {
    fn notify(&self, id: usize) {
        let mut q = self.0.lock().unwrap();
        if !q.contains(&id) {
            q.push_back(id);
        }
    }
}
struct Exec(Sh);
impl tokio_executor::Executor for Exec {
    fn spawn(&mut self, f: Box<dyn Future<Item = (), Error = ()> + Send>) -> Result<(), tokio_executor::SpawnError> {
        self.0 .0.lock().unwrap().spawned.push(spawn(f));
        Ok(())
    }
}
struct NoPark;
struct NoUnpark;
impl Unpark for NoUnpark {
    fn unpark(&self) {}
}
impl Park for NoPark {
    type Unpark = NoUnpark;
    type Error = ();
    fn unpark(&self) -> NoUnpark {
        NoUnpark
    }
    fn park(&mut self) -> Result<(), ()> {
        Ok(())
    }
    fn park_timeout(&mut self, _: Duration) -> Result<(), ()> {
        Ok(())
    }
}

struct Std;
impl tokio_timer::clock::Now for Std {
    fn now(&self) -> Instant {
        Instant::now()
    }
}
pub enum End {
    /// nothing can happen any more at this time
    Quiet,
    Crash,
}
/// A running process: `steps` explores until nothing can happen any more.
pub struct Proc<'a> {
    pub sh: Sh,
    main: Option<Spawn<Box<dyn Future<Item = (), Error = ()>>>>,
    tasks: Vec<Option<Spawn<Box<dyn Future<Item = (), Error = ()> + Send>>>>,
    ready: Arc<Ready>,
    turn: &'a mut dyn FnMut(),
    pub failed_tasks: usize,
}
impl<'a> Proc<'a> {
    fn poll_one(&mut self, id: usize) {
        let n = self.ready.clone();
        note(|| if id == 0 { "-- runner".to_string() } else { format!("-- task {id}") });
        if id == 0 {
            if let Some(t) = self.main.as_mut() {
                match t.poll_future_notify(&n, 0) {
                    Ok(Async::NotReady) => (),
                    r => {
                        self.sh.0.lock().unwrap().main_done = Some(r.is_ok());
                        self.main = None;
                    }
                }
            }
        } else if let Some(t) = self.tasks[id - 1].as_mut() {
            match t.poll_future_notify(&n, id) {
                Ok(Async::NotReady) => (),
                r => {
                    self.failed_tasks += r.is_err() as usize;
                    self.tasks[id - 1] = None;
                }
            }
        }
        let new: Vec<_> = self.sh.0.lock().unwrap().spawned.drain(..).collect();
        for t in new {
            self.tasks.push(Some(t));
            self.ready.notify(self.tasks.len());
        }
    }
    /// Those that are alive and that nothing has woken.
    fn idle(&self) -> Vec<usize> {
        let ready = self.ready.0.lock().unwrap();
        let alive = |id: &usize| if *id == 0 { self.main.is_some() } else { self.tasks[*id - 1].is_some() };
        (0..=self.tasks.len()).filter(alive).filter(|id| !ready.contains(id)).collect()
    }
    fn err(&self) -> Res {
        match self.sh.0.lock().unwrap().err.take() {
            Some(e) => Err(e),
            None => Ok(()),
        }
    }
    pub fn steps(&mut self) -> Result<End, String> {
        let (all, crash, drift, in_order, spurious, storm) = {
            let w = self.sh.0.lock().unwrap();
            (w.opts.all_orders, w.opts.crash, w.opts.drift, w.opts.in_order, w.opts.spurious, w.opts.storm)
        };
        let mut stormed = 0;
        for _ in 0..5_000_000 {
            self.err()?;
            let runnable = self.ready.0.lock().unwrap().len();
            let out = self.sh.0.lock().unwrap().waiting.len();
            if crash {
                // now, or with one outstanding operation having taken effect
                let k = dev(2 + out);
                if k > 0 {
                    nontrivial();
                    if k > 1 {
                        let mut w = self.sh.0.lock().unwrap();
                        let id = w.waiting[k - 2];
                        w.complete(id);
                    }
                    note(|| "==== crash".into());
                    return Ok(End::Crash);
                }
            }
            if drift && dev(2) == 1 {
                let mut w = self.sh.0.lock().unwrap();
                if w.offset < w.startup_offset + Duration::from_secs(7000) {
                    w.offset += Duration::from_secs(1700);
                    vclock::pass(Duration::from_secs(1700));
                    note(|| format!("---- {} s after start-up", (w.offset - w.startup_offset).as_secs()));
                }
                drop(w);
                (self.turn)();
                continue;
            }
            if spurious {
                let k = dev(1 + self.idle().len());
                if k > 0 {
                    let id = self.idle()[k - 1];
                    self.poll_one(id);
                    continue;
                }
            }
            if runnable == 0 && out > 0 && stormed < storm {
                stormed += 1;
                for id in self.idle() {
                    self.poll_one(id);
                }
                continue;
            }
            if runnable > 0 {
                let k = if all || in_order { 0 } else { dev(runnable) };
                let id = self.ready.0.lock().unwrap().remove(k).unwrap();
                self.poll_one(id);
            } else if out > 0 {
                let k = if all { choose(out) } else if in_order { 0 } else { dev(out) };
                let t = {
                    let mut w = self.sh.0.lock().unwrap();
                    let id = w.waiting[k];
                    w.complete(id)
                };
                t.notify();
                stormed = 0;
            } else {
                (self.turn)();
                if self.ready.0.lock().unwrap().is_empty() {
                    if stormed < storm {
                        stormed += 1;
                        for id in self.idle() {
                            self.poll_one(id);
                        }
                        continue;
                    }
                    return Ok(End::Quiet);
                }
            }
        }
        Err("the runner keeps working without an end".into())
    }
    pub fn advance(&mut self, to: Duration) {
        {
            let mut w = self.sh.0.lock().unwrap();
            let t = w.startup_offset + to;
            if t > w.offset {
                vclock::pass(t - w.offset);
                w.offset = t;
            }
            note(|| format!("---- {} s after start-up", (w.offset - w.startup_offset).as_secs()));
        }
        (self.turn)();
    }
    /// Tasks still alive although nothing is outstanding for them.
    pub fn alive(&self) -> usize {
        self.tasks.iter().filter(|t| t.is_some()).count()
    }
    pub fn main_alive(&self) -> bool {
        self.main.is_some()
    }
}
/// One process life: starts the runner on the storage and lets `life` explore it.
pub fn process<R>(sh: &Sh, life: impl FnOnce(&mut Proc) -> Result<R, String>) -> Result<R, String> {
    {
        let mut w = sh.0.lock().unwrap();
        w.startup_offset = w.offset;
        w.ops.clear();
        w.waiting.clear();
        w.main_done = None;
        w.lists = [None; 2];
        w.list_hung = false;
        for m in &mut w.mails {
            // what the previous process was doing is gone
            if m.limbo {
                m.excused += 1;
                m.limbo = false;
            }
            m.at = if m.st == St::Done { At::Finished } else { At::Idle };
            m.found = false;
            m.from_found = false;
            m.listed = false;
            m.hurt = false;
        }
    }
    let clock = tokio_timer::clock::Clock::new_with_now(Std);
    let mut timer = tokio_timer::timer::Timer::new_with_now(NoPark, clock.clone());
    let handle = timer.handle();
    let mut enter = tokio_executor::enter().map_err(|_| "nested executor".to_string())?;
    let mut exec = Exec(sh.clone());
    tokio_executor::with_default(&mut exec, &mut enter, |enter| {
        tokio_timer::timer::with_default(&handle, enter, |enter| {
            tokio_timer::clock::with_default(&clock, enter, |_| {
                let f = smtp_queue::run(Arc::new(Store(sh.clone())), Arc::new(Trans(sh.clone())));
                let mut turn = || {
                    timer.turn(Some(Duration::from_secs(0))).unwrap();
                };
                let mut p = Proc {
                    sh: sh.clone(),
                    main: Some(spawn(Box::new(f) as Box<dyn Future<Item = (), Error = ()>>)),
                    tasks: vec![],
                    ready: Arc::new(Ready(Mutex::new(VecDeque::from(vec![0])))),
                    turn: &mut turn,
                    failed_tasks: 0,
                };
                let r = life(&mut p);
                drop(p);
                sh.0.lock().unwrap().ops.clear();
                r
            })
        })
    })
}
