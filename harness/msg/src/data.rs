//! M01-M08: message bodies on the wire (DataStream, DataSink, Prependable).
use bytes::{Bytes, BytesMut};
use futures::{Sink, Stream};
use mcore::model::{decode, encode, find_crlf, received};
use mcore::util::*;
use mcore::*;
use smtp_message::{DataSink, DataStream, Prependable, StreamExt};
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};

// ------------------------------------------------------------------ source
#[derive(Default)]
struct SrcSh {
    /// bytes handed out since the start of the current body
    given: Vec<u8>,
    total: usize,
    polls: usize,
    pended: bool,
    ended: bool,
    /// offer not-ready answers
    may_pend: bool,
    /// answer not-ready this many times before every packet and before the end
    storm: usize,
    stormed: usize,
    /// polls made although the end marker had been handed out
    after_marker: usize,
    in_body: bool,
    /// where in `given` the current line starts, and what of it was searched for its end
    line: usize,
    seen: usize,
    /// polled after reporting its end
    after_end: usize,
}
impl SrcSh {
    /// Does `given` contain the end marker? (As `decode`, from where the last call left off.)
    fn ended_body(&mut self) -> bool {
        loop {
            if self.given[self.line..].starts_with(b".\r\n") {
                return true;
            }
            match find_crlf(&self.given[self.seen..]) {
                Some(i) => {
                    self.line = self.seen + i + 2;
                    self.seen = self.line;
                }
                None => {
                    self.seen = self.line.max(self.given.len().saturating_sub(1));
                    return false;
                }
            }
        }
    }
}
/// Every wait, and every interruption, takes ten minutes.
pub fn late() {
    mcore::vclock::pass(std::time::Duration::from_secs(600));
}
struct Src {
    q: VecDeque<BytesMut>,
    sh: Rc<RefCell<SrcSh>>,
}
impl Stream for Src {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        let sh = self.sh.clone();
        let mut sh = sh.borrow_mut();
        sh.polls += 1;
        if sh.in_body && sh.stormed == 0 {
            let end = sh.ended_body();
            assert!(sh.given.len() > 40 || end == decode(&sh.given).end.is_some());
            if end {
                sh.after_marker += 1;
            }
        }
        if sh.ended {
            sh.after_end += 1;
            return Poll::Ready(None);
        }
        if sh.may_pend && dev(2) == 1 {
            sh.pended = true;
            late();
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if sh.stormed < sh.storm {
            sh.stormed += 1;
            sh.pended = true;
            late();
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        sh.stormed = 0;
        match self.q.pop_front() {
            None => {
                sh.ended = true;
                Poll::Ready(None)
            }
            Some(b) => {
                sh.given.extend_from_slice(&b);
                sh.total += b.len();
                Poll::Ready(Some(b))
            }
        }
    }
}
/// Packets allocated separately, or carved out of one receive buffer.
fn source(pieces: &[Vec<u8>], carved: bool) -> (Src, Rc<RefCell<SrcSh>>) {
    let sh = Rc::new(RefCell::new(SrcSh::default()));
    let mut q = VecDeque::new();
    if carved {
        let mut all = BytesMut::with_capacity(64 + pieces.iter().map(|p| p.len()).sum::<usize>());
        for p in pieces {
            all.extend_from_slice(p);
        }
        for p in pieces {
            q.push_back(all.split_to(p.len()));
        }
    } else {
        for p in pieces {
            q.push_back(BytesMut::from(&p[..]));
        }
    }
    (Src { q, sh: sh.clone() }, sh)
}

/// Which property is being decided; each one checks its own claims only.
#[derive(Clone, Copy, PartialEq, Eq)]
enum On {
    M01,
    M02,
    M03,
    M05,
    M07,
}

/// Read one body. `wire` is everything from the start of this body.
/// Returns the body and whether completion was reported.
fn read_body(on: On, src: &mut Prependable<Src>, sh: &Rc<RefCell<SrcSh>>, wire: &[u8], pre: &[u8])
    -> Result<(Vec<u8>, bool), String> {
    {
        let mut s = sh.borrow_mut();
        s.given = pre.to_vec();
        s.line = 0;
        s.seen = 0;
        s.in_body = true;
    }
    let want = decode(wire);
    let mut out: Vec<u8> = vec![];
    let mut ds = DataStream::new(src);
    let mut settled = None;
    let mut polls = 0usize;
    let limit = 1_000_000 + wire.len() * 200;
    loop {
        ensure!(polls < limit, "the body reader never finishes");
        sh.borrow_mut().pended = false;
        // another waker each time: the reader may be polled by another task than before
        let (count, waker) = counter();
        match Pin::new(&mut ds).poll_next(&mut Context::from_waker(&waker)) {
            Poll::Ready(Some(b)) => {
                step();
                out.extend_from_slice(&b);
                state(&(rest(&want.body[out.len().min(want.body.len())..]), want.end.is_some()));
                if out.len() > wire.len() + 16 {
                    return Err(format!("the body reader yields more than it received: {}", show(&out)));
                }
            }
            Poll::Ready(None) => break,
            Poll::Pending => {
                polls += 1;
                if on == On::M07 {
                    let s = sh.borrow();
                    ensure!(s.pended && count.get() > 0,
                        "the body reader waits although the connection did not just answer not-ready (wire {})", show(wire));
                    // nothing new since the last suspension: nothing to compare again
                    if settled == Some((s.given.len(), out.len())) {
                        continue;
                    }
                    settled = Some((s.given.len(), out.len()));
                    let d = decode(&s.given);
                    ensure!(d.end.is_none(), "the body reader waits although the end marker was received");
                    ensure!(out == d.body,
                        "while waiting after receiving {}, the reader delivered {} but {} is settled",
                        show(&s.given), show(&out), show(&d.body));
                }
            }
        }
    }
    let (_c, waker) = counter();
    let mut cx = Context::from_waker(&waker);
    if on == On::M02 {
        for _ in 0..(if wire.len() < 8 { 300 } else { 3 }) {
            match Pin::new(&mut ds).poll_next(&mut cx) {
                Poll::Ready(None) => (),
                _ => return Err(format!("a finished body yields more (wire {})", show(wire))),
            }
        }
    }
    let ok = if want.end.is_some() || sh.borrow().ended {
        ds.complete().is_ok()
    } else {
        return match on {
            On::M02 => Err(format!("the body ended although neither the marker nor the end of the connection was received; received {}", show(&sh.borrow().given))),
            _ => Err(format!("the body ended early; received {}", show(&sh.borrow().given))),
        };
    };
    if on == On::M02 {
        ensure!(ds.was_completed(), "completion checked but not recorded");
        match Pin::new(&mut ds).poll_next(&mut cx) {
            Poll::Ready(None) => (),
            _ => return Err(format!("a completed body yields more (wire {})", show(wire))),
        }
        let s = sh.borrow();
        ensure!(ok == want.end.is_some(), "wire {}: completion reported {} but the marker was {}", show(wire),
            if ok { "success" } else { "an error" }, if want.end.is_some() { "present" } else { "absent" });
        ensure!(s.after_marker == 0, "wire {}: the connection was asked for more after the marker arrived", show(wire));
        if want.end.is_some() {
            let d = decode(&s.given);
            ensure!(d.end.is_some(), "wire {}: the body ended before the marker arrived, after {}", show(wire), show(&s.given));
        }
    }
    sh.borrow_mut().in_body = false;
    outcome(&(&out, ok));
    Ok((out, ok))
}

fn check_body(on: On, wire: &[u8], out: &[u8]) -> Res {
    let want = decode(wire);
    if want.end.is_some() {
        ensure!(out == &want.body[..], "wire {}: body read is {}, should be {}", show(wire), show(out), show(&want.body));
    } else {
        // cut short: everything settled, at most followed by the undecided CR
        let alt: Vec<u8> = want.body.iter().chain(want.held.iter().filter(|c| **c == b'\r')).cloned().collect();
        ensure!(out == &want.body[..] || out == &alt[..],
            "wire {} (cut short): body read is {}, should be {}", show(wire), show(out), show(&want.body));
    }
    let _ = on;
    Ok(())
}

/// What remains to be delivered, as a state (its length and the next 256 bytes).
fn rest(r: &[u8]) -> (usize, &[u8]) {
    (r.len(), &r[..r.len().min(256)])
}

/// Drain what is left on the connection.
fn drain(src: &mut Prependable<Src>) -> Vec<u8> {
    let (_c, waker) = counter();
    let mut cx = Context::from_waker(&waker);
    let mut out = vec![];
    loop {
        match Pin::new(&mut *src).poll_next(&mut cx) {
            Poll::Ready(Some(b)) => out.extend_from_slice(&b),
            Poll::Ready(None) => return out,
            Poll::Pending => (),
        }
    }
}

/// One body from a wire string and its cutting.
fn body_case(on: On, wire: &[u8], pieces: &[Vec<u8>], carved: bool, may_pend: bool) -> Res {
    body_case_storm(on, wire, pieces, carved, may_pend, 0)
}
fn body_case_storm(on: On, wire: &[u8], pieces: &[Vec<u8>], carved: bool, may_pend: bool, storm: usize) -> Res {
    note(|| format!("packets {}{} -> model body {}", show_pieces(pieces), if carved { " (carved from one buffer)" } else { "" },
        show(&decode(wire).body)));
    let (src, sh) = source(pieces, carved);
    sh.borrow_mut().may_pend = may_pend;
    sh.borrow_mut().storm = storm;
    let mut p = src.prependable();
    let (out, ok) = read_body(on, &mut p, &sh, wire, b"")?;
    note(|| format!("read {} completed={}", show(&out), ok));
    let want = decode(wire);
    match on {
        On::M01 | On::M07 => check_body(on, wire, &out)?,
        On::M03 => {
            if ok && want.end.is_some() {
                sh.borrow_mut().may_pend = may_pend;
                let rest = drain(&mut p);
                let should = &wire[want.end.unwrap()..];
                ensure!(rest == should, "wire {}: after the body the connection yields {}, should be {}", show(wire), show(&rest), show(should));
            }
        }
        _ => (),
    }
    if want.end.is_some() && !want.body.is_empty() {
        nontrivial();
    }
    Ok(())
}

const A4: &[u8] = b"\r\n.x";
const A3: &[u8] = b"\r\n.";
/// Wire contexts around a wildcard byte.
const TEMPLATES: &[&[u8]] = &[
    b".\r\n",
    b"\r\n.\r\n",
    b"a\r\n..b\r\n.\r\n",
    b"a\r\n.b\r\n.\r\n",
    b"..\r\n.\r\nq",
    b"a\r\n.\r\n.\r\n",
    b"a\n.\r.\r\n.\r\n",
];
fn wildcard(t: &[u8]) -> Vec<u8> {
    let b = choose(256) as u8;
    let i = choose(t.len() + 1);
    let mut v = t.to_vec();
    if i < t.len() && flip() {
        v[i] = b;
    } else {
        v.insert(i, b);
    }
    v.extend_from_slice(b"\r\n.\r\nnext");
    v
}
/// Filler, then something that matters, then filler; cut somewhere near it.
fn long_case(on: On, lens: &[usize]) -> Res {
    const MID: &[&[u8]] = &[b"\r\n.", b"\r\n..", b"\r\n.\r\n", b"\r.\n", b"\n.\n", b"\r\n\r\n.\r\n", b"\r\n.\r"];
    let fill: &[u8] = [&b"x"[..], b".", b"\r\n", b"\r", b"x\r\n."][choose(5)];
    let n = lens[choose(lens.len())];
    let mid = MID[choose(MID.len())];
    let mut w: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
    let at = w.len();
    w.extend_from_slice(mid);
    w.extend_from_slice(b"yz\r\n.\r\nMAIL FROM:<a@b>\r\n");
    let pieces: Vec<Vec<u8>> = match choose(3) {
        0 => vec![w.clone()],
        1 => {
            let c = (at + choose(mid.len() + 1)).min(w.len());
            vec![w[..c].to_vec(), w[c..].to_vec()]
        }
        _ => {
            let k = [1usize, 2, 3, 7, 64, 512][choose(6)];
            w.chunks(k).map(|c| c.to_vec()).collect()
        }
    };
    body_case(on, &w, &pieces, flip(), false)
}
/// As `long_case`, for lengths around page and 16-bit boundaries, in few large packets.
fn large_case(on: On, lens: &[usize]) -> Res {
    const MID: &[&[u8]] = &[b"\r\n.", b"\r\n..", b"\r\n.\r\n", b"\n.\n", b"\r\n\r\n.\r\n"];
    let fill: &[u8] = [&b"x"[..], b"\r\n", b"x\r\n."][choose(3)];
    let n = lens[choose(lens.len())];
    let mid = MID[choose(MID.len())];
    let mut w: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
    let at = w.len();
    w.extend_from_slice(mid);
    w.extend_from_slice(b"yz\r\n.\r\nMAIL FROM:<a@b>\r\n");
    let pieces: Vec<Vec<u8>> = match choose(3) {
        0 => vec![w.clone()],
        1 => {
            let c = (at + choose(mid.len() + 1)).min(w.len());
            vec![w[..c].to_vec(), w[c..].to_vec()]
        }
        _ => {
            let k = [1460usize, 4096, 16384][choose(3)];
            w.chunks(k).map(|c| c.to_vec()).collect()
        }
    };
    body_case(on, &w, &pieces, flip(), false)
}
/// Filler, a line ending of interest, the same filler again: megabytes.
fn megabytes(fills: &[&[u8]], mids: &[&[u8]]) -> Vec<u8> {
    let n = [1 << 20, (4 << 20) + 1][choose(2)];
    let fill = fills[choose(fills.len())];
    let mut w: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
    w.extend_from_slice(mids[choose(mids.len())]);
    w.extend(fill.iter().cycle().take(n / 2));
    w
}
fn megabytes_case(on: On) -> Res {
    let mut w = megabytes(&[b"x", &[&b"y".repeat(998)[..], b"\r\n.."].concat(), b"\r\n.."], &[b"\r\n.", b"\r\n..\r\n", b"\r\n.\r\n"]);
    w.extend_from_slice(b"\r\n.\r\nQUIT\r\n");
    let p: Vec<Vec<u8>> = if flip() { vec![w.clone()] } else { w.chunks(65_536).map(|x| x.to_vec()).collect() };
    body_case(on, &w, &p, flip(), false)
}
/// Where limits of a mail's size would be.
const TENS: [usize; 6] = [11 << 20, 17 << 20, 26 << 20, 34 << 20, 51 << 20, 101 << 20];
fn tens() -> usize { TENS[choose(TENS.len())] }
fn filler_of(n: usize) -> Vec<u8> {
    let fill = [b"x".to_vec(), [&b"y".repeat(998)[..], b"\r\n"].concat()][choose(2)].clone();
    fill.iter().cycle().take(n).cloned().collect()
}
fn tens_of_megabytes_case(on: On) -> Res {
    let mut w = filler_of(tens());
    if flip() { w.extend_from_slice(b"\r\n..z") }
    w.extend_from_slice(b"\r\n.\r\nQUIT\r\n");
    let p: Vec<Vec<u8>> = if flip() { vec![w.clone()] } else { w.chunks(65_536).map(|x| x.to_vec()).collect() };
    body_case(on, &w, &p, true, false)
}
/// Bytes whose values matter where the contents of small buffers are taken for something else.
fn small_buffer(max: usize) -> Vec<u8> {
    let n = 1 + choose(max);
    let mut v = vec![b"x\0\x7f\x80\xc3\xff"[choose(6)]; n];
    v[choose(n)] = b"x\0\x7f\x80\xff"[choose(5)];
    v
}
/// One or two contents of `words::BODIES`.
fn words_body() -> Vec<u8> {
    let mut w = words::BODIES[choose(words::BODIES.len())].to_vec();
    if flip() { w.extend_from_slice(words::BODIES[choose(words::BODIES.len())]) }
    w
}
/// Thousands of packets for one body.
fn many_packets_case(on: On) -> Res {
    let n = [4095usize, 4096, 4097, 8200, 65_535, 65_536, 65_537, 70_001][choose(8)];
    let fill: &[u8] = [&b"x"[..], b"..\r\n"][choose(2)];
    let mut w: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
    w.extend_from_slice([&b"\r\n.\r\nq"[..], b"\r\n..\r\n.\r\n", b"\r\n."][choose(3)]);
    let pieces: Vec<Vec<u8>> = w.chunks(1).map(|c| c.to_vec()).collect();
    body_case(on, &w, &pieces, flip(), false)
}
/// Very many empty packets in one place.
fn many_empties_case(on: On, pend: bool) -> Res {
    const W: [&[u8]; 4] = [b"a\r\n..b\r\n.\r\nq", b"..\r\n.\r\n", b".\r\n", b"ab\r\n.\r"];
    let w = W[choose(4)];
    let n = [1usize, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1024, 4097, 70_001][choose(32)];
    let at = choose(w.len() + 1);
    let mut p: Vec<Vec<u8>> = if flip() { vec![w[..at].to_vec()] } else { w[..at].iter().map(|b| vec![*b]).collect() };
    p.extend(vec![vec![]; n]);
    p.push(w[at..].to_vec());
    if pend && n > 300 { return Ok(()) }
    body_case(on, w, &p, false, pend)
}
fn body_spaces(on: On, t: Tier, pend: bool) -> Vec<Space> {
    let mut v = vec![];
    let many = "4 bodies with 1..=70001 empty packets in a row (32 numbers) at any place, what is before them in one packet or byte by byte";
    if pend {
        v.push(space("many-empties", format!("{many}; up to 257 of them with one not-ready answer anywhere"), move || many_empties_case(on, flip())).budget(1));
    } else {
        v.push(space("many-empties", many, move || many_empties_case(on, false)));
    }
    let l = t.pick(7, 8);
    if !pend {
        v.push(space("strings-all-cuts",
            format!("every wire string over {{CR,LF,'.',x}} of length 0..={l}, ended by close or by CRLF.CRLF, in every cutting into packets"),
            move || {
                let mut w = string(A4, 0, l - 1);
                if flip() {
                    w.extend_from_slice(b"\r\n.\r\n");
                    let k = w.len() - 5;
                    // cut the part under study, and the tail with it or not
                    let mut p = cut(&w[..k], Cuts::All);
                    if flip() {
                        if let Some(l) = p.last_mut() { l.extend_from_slice(&w[k..]) } else { p.push(w[k..].to_vec()) }
                    } else {
                        p.extend(cut(&w[k..], Cuts::Whole));
                    }
                    body_case(on, &w, &p, false, false)
                } else {
                    let p = cut(&w, Cuts::All);
                    body_case(on, &w, &p, true, false)
                }
            }));
        let l = t.pick(9, 11);
        v.push(space("marker-alphabet-2-cuts",
            format!("every string over {{CR,LF,'.'}} of length 0..={l} followed by CRLF.CRLF and more input, with up to 2 cuts, 1 empty packet counted as a cut"),
            move || {
                let mut w = string(A3, 0, l);
                w.extend_from_slice(b"\r\n.\r\nx");
                let p = cut(&w, Cuts::Dev);
                body_case(on, &w, &p, flip(), false)
            }).budget(t.pick(1, 2)));
        let l = t.pick(5, 6);
        v.push(space("strings-empty-packets",
            format!("every string over {{CR,LF,'.',x}} of length 0..={l} in every cutting with empty packets at every cut and at both ends"),
            move || {
                let mut w = string(A4, 0, l);
                let mut p = cut(&w, Cuts::Empties);
                if flip() {
                    w.extend_from_slice(b"\r\n.\r\n");
                    p.push(b"\r\n.\r\n".to_vec());
                }
                body_case(on, &w, &p, flip(), false)
            }));
        v.push(space("every-byte-value",
            "each of the 256 byte values inserted or substituted at every position of 7 marker contexts, up to 2 cuts (quick: 1) anywhere",
            move || {
                let w = wildcard(TEMPLATES[choose(TEMPLATES.len())]);
                let p = cut(&w, Cuts::Dev);
                body_case(on, &w, &p, flip(), false)
            }).budget(t.pick(1, 2)));
        let l = t.pick(4, 5);
        v.push(space("not-ready",
            format!("every string over {{CR,LF,'.',x}} of length 0..={l}, ended by close or CRLF.CRLF, in every cutting, with up to {} not-ready answers anywhere", t.pick(1, 2)),
            move || {
                let mut w = string(A4, 0, l);
                let mut p = cut(&w, Cuts::All);
                if flip() {
                    w.extend_from_slice(b"\r\n.\r\n");
                    p.push(b"\r\n.\r\n".to_vec());
                }
                body_case(on, &w, &p, flip(), true)
            }).budget(t.pick(1, 2)));
        let lens = block_lengths(t.pick(2100, 70000));
        v.push(space("long-bodies",
            format!("{} filler lengths up to {} x 5 fillers x 7 line endings behind the filler x whole / cut at the line ending / packets of 1..512 bytes", lens.len(), lens[lens.len()-1]),
            move || long_case(on, &lens)));
        let lens = large_lengths();
        v.push(space("large-bodies",
            "25 filler lengths around 4096, 8192, 16384, 32768, 65536 x 3 fillers x 5 line endings behind the filler x whole / cut at the line ending / packets of 1460, 4096, 16384 bytes",
            move || large_case(on, &lens)));
        v.push(space("small-buffers", "bodies of 1..=70 bytes of 6 values with another of 5 values at any place, an escaped dot behind and the end marker or nothing, cut at any one place (thorough: two)", move || {
            let mut w = small_buffer(70);
            w.extend_from_slice([&b""[..], b"\r\n..", b"\r\n.\r\n"][choose(3)]);
            let p = cut(&w, Cuts::Dev);
            body_case(on, &w, &p, false, false)
        }).budget(t.pick(1, 2)));
        v.push(space("words", format!("{} message contents of real mail and mail systems, one or two of them, as they are or escaped, followed by commands, whole, byte by byte, line by line or with one cut", words::BODIES.len()), move || {
            let mut w = words_body();
            if flip() { w = encode(&w); }
            w.extend_from_slice([&b""[..], b".\r\nQUIT\r\n", b"\r\n.\r\nQUIT\r\n"][choose(3)]);
            let p = match choose(4) { 0 => cut(&w, Cuts::Whole), 1 => cut(&w, Cuts::Bytes), 2 => w.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect(), _ => { let at = choose(w.len() + 1); vec![w[..at].to_vec(), w[at..].to_vec()] } };
            body_case(on, &w, &p, false, false)
        }));
        v.push(space("megabytes", "bodies of 1 and 4 megabytes of 3 fillers around 3 line endings, whole or in packets of 65536 bytes, in buffers of their own or parts of one", move || megabytes_case(on)));
        v.push(space("tens-of-megabytes", "bodies of 11, 17, 26, 34, 51 and 101 megabytes of 2 fillers, with an escaped dot at the end or not, whole or in packets of 65536 bytes", move || tens_of_megabytes_case(on)));
        v.push(space("many-packets", "bodies of 4095..8200 and 65535..70001 one-byte packets x 2 fillers x 3 endings", move || many_packets_case(on)));
    } else {
        let l = t.pick(5, 6);
        v.push(space("strings-all-cuts-not-ready",
            format!("every string over {{CR,LF,'.',x}} of length 0..={l}, ended by close or CRLF.CRLF, in every cutting, with up to {} not-ready answers anywhere", t.pick(2,3)),
            move || {
                let mut w = string(A4, 0, l);
                let mut p = cut(&w, Cuts::All);
                if flip() {
                    w.extend_from_slice(b"\r\n.\r\n");
                    p.push(b"\r\n.\r\n".to_vec());
                }
                body_case(on, &w, &p, flip(), true)
            }).budget(t.pick(2, 3)));
        let l = t.pick(4, 5);
        v.push(space("empty-packets-not-ready",
            format!("every string over {{CR,LF,'.',x}} of length 0..={l} in every cutting with empty packets at every cut and at both ends, one not-ready answer anywhere"),
            move || {
                let mut w = string(A4, 0, l);
                let mut p = cut(&w, Cuts::Empties);
                if flip() {
                    w.extend_from_slice(b"\r\n.\r\n");
                    p.push(b"\r\n.\r\n".to_vec());
                }
                body_case(on, &w, &p, true, true)
            }).budget(1));
        let l = t.pick(10, 13);
        v.push(space("bytewise-not-ready",
            format!("every string over {{CR,LF,'.',x}} of length 0..={l} one byte per packet, and in one packet, with one not-ready answer anywhere"),
            move || {
                let w = string(A4, 0, l);
                let p = cut(&w, if flip() { Cuts::Bytes } else { Cuts::Whole });
                body_case(on, &w, &p, true, true)
            }).budget(1));
        v.push(space("every-byte-value-not-ready",
            "each byte value in 7 marker contexts, one byte per packet, one not-ready answer anywhere",
            move || {
                let w = wildcard(TEMPLATES[choose(TEMPLATES.len())]);
                let p = cut(&w, Cuts::Bytes);
                body_case(on, &w, &p, false, true)
            }).budget(1));
        v.push(space("storms",
            format!("12 wires whole, byte by byte or with one cut, every packet and the end preceded by one of {} numbers of not-ready answers up to 70001", STORMS.len()),
            move || {
                const W: &[&[u8]] = &[b"", b".\r\n", b".\r\nx", b"a", b"\r\n.", b"a\r\n.\r\n", b"a\r\n.\r\nQ", b"..\r\n.\r\n", b"\r\n..\r\n.\r\n", b"\r\r\n.\r", b"a\r\n.b\r\n.\r\n", b"\r\n\r\n.\r\n\r\n"];
                let w = W[choose(W.len())];
                let storm = STORMS[choose(STORMS.len())];
                let p = cut(w, if flip() { Cuts::Bytes } else { Cuts::Dev });
                body_case_storm(on, w, &p, flip(), false, storm)
            }).budget(1));
        v.push(space("long-storms", "bodies of 1000 and 3000 one-byte packets of 4 fillers, every packet preceded by 1, 2, 3, 10 and 100 not-ready answers",
            move || {
                let fill: &[u8] = [&b"x"[..], b".\r\n", b"\r\n..", b"line\r\n"][choose(4)];
                let mut w: Vec<u8> = fill.iter().cycle().take([1000, 3000][choose(2)]).cloned().collect();
                w.extend_from_slice(b"\r\n.\r\n");
                let p = cut(&w, Cuts::Bytes);
                body_case_storm(on, &w, &p, true, false, [1, 2, 3, 10, 100][choose(5)])
            }));
        let lens = block_lengths(t.pick(1100, 9000));
        v.push(space("long-not-ready",
            "filler lengths around block sizes, packets of 1..512 bytes, one not-ready answer anywhere in the first 40 polls",
            move || {
                let n = lens[choose(lens.len())];
                let mut w = vec![b'x'; n];
                w.extend_from_slice(b"\r\n.\r\n");
                let k = [1usize, 3, 64, 512][choose(4)];
                let first = (n.max(20) - 20).min(n);
                let mut p: Vec<Vec<u8>> = vec![w[..first].to_vec()];
                p.extend(w[first..].chunks(k).map(|c| c.to_vec()));
                body_case(on, &w, &p, flip(), true)
            }).budget(1));
    }
    v
}
const DATA_ASSUME: &[&str] = &[
    "packets are BytesMut values allocated separately or carved from one buffer",
    "single consumer; the handler reads until the end and then calls complete, as documented",
];

pub fn m01(t: Tier) -> Check {
    Check {
        level: Level::Model,
        rule: "The model is a line-oriented decoder of the whole wire; each packet the real reader returns is one transition; a state is what remains to be delivered. Non-trivial: the body is non-empty and terminated.",
        spaces: body_spaces(On::M01, t, false),
        assumptions: DATA_ASSUME.to_vec(),
    }
}
pub fn m02(t: Tier) -> Check {
    Check {
        level: Level::Model,
        rule: "As M01, with the connection counting requests made after the marker had been handed out, polling again after the end (twice), completing, and polling once more.",
        spaces: body_spaces(On::M02, t, false),
        assumptions: DATA_ASSUME.to_vec(),
    }
}
pub fn m07(t: Tier) -> Check {
    Check {
        level: Level::Model,
        rule: "Not-ready answers are injected by the connection; at every suspension of the reader the bytes delivered so far must equal the settled part of the bytes received so far.",
        spaces: body_spaces(On::M07, t, true),
        assumptions: DATA_ASSUME.to_vec(),
    }
}

/// Several bodies one after the other, then a tail, all cut together.
fn sequence_case(bodies: &[Vec<u8>], tail: &[u8], pieces: &[Vec<u8>], carved: bool, may_pend: bool) -> Res {
    note(|| format!("{} bodies + tail {} in packets {}", bodies.len(), show(tail), show_pieces(pieces)));
    let (src, sh) = source(pieces, carved);
    sh.borrow_mut().may_pend = may_pend;
    let mut p = src.prependable();
    let mut wire: Vec<u8> = bodies.concat();
    wire.extend_from_slice(tail);
    let mut at = 0;
    for (i, _) in bodies.iter().enumerate() {
        let w = wire[at..].to_vec();
        // bytes already received beyond the previous bodies
        let pre = sh.borrow().total - at;
        let pre = w[..pre].to_vec();
        let (out, ok) = read_body(On::M03, &mut p, &sh, &w, &pre)?;
        let want = decode(&w);
        ensure!(ok, "body {} of {} not completed", i + 1, bodies.len());
        ensure!(out == want.body, "body {}: read {}, should be {}", i + 1, show(&out), show(&want.body));
        at += want.end.unwrap();
    }
    sh.borrow_mut().may_pend = may_pend;
    let rest = drain(&mut p);
    ensure!(rest == wire[at..], "after {} bodies the connection yields {}, should be {}", bodies.len(), show(&rest), show(&wire[at..]));
    if bodies.len() > 1 {
        nontrivial();
    }
    outcome(&rest);
    Ok(())
}
pub fn m03(t: Tier) -> Check {
    let mut v = body_spaces(On::M03, t, false);
    let l = t.pick(7, 9);
    v.push(space("bytes-after-marker",
        format!("'a' CRLF.CRLF followed by every string over {{CR,LF,'.',x}} of length 0..={l}, up to 2 cuts anywhere"),
        move || {
            let mut w = [&b"a\r\n.\r\n"[..], b".\r\n"][choose(2)].to_vec();
            w.extend(string(A4, 0, l));
            let p = cut(&w, Cuts::Dev);
            body_case(On::M03, &w, &p, flip(), false)
        }).budget(t.pick(1, 2)));
    let n = t.pick(3, 4);
    v.push(space("back-to-back",
        format!("every sequence of 1..={n} bodies out of 8, then one of 6 tails, with up to {} cuts / empty packets / not-ready answers anywhere", t.pick(2, 2)),
        move || {
            const B: &[&[u8]] = &[b".\r\n", b"\r\n.\r\n", b"a\r\n.\r\n", b"..\r\n.\r\n", b"a\r\n..b\r\n.\r\n", b"a\r.\n.\r\n\r\n.\r\n", b".x\r\n.\r\n", b"\r\r\n.\r\n"];
            const T: &[&[u8]] = &[b"", b".", b".\r\n.\r\n", b"\r\nQUIT\r\n", b"x", b"\n.\r\n"];
            let k = 1 + choose(n);
            let bodies: Vec<Vec<u8>> = (0..k).map(|_| B[choose(B.len())].to_vec()).collect();
            let tail = T[choose(T.len())];
            let mut w = bodies.concat();
            w.extend_from_slice(tail);
            let p = cut(&w, Cuts::Dev);
            sequence_case(&bodies, tail, &p, flip(), true)
        }).budget(t.pick(2, 2)));
    v.push(space("back-to-back-bytewise",
        format!("every sequence of 1..={} bodies out of 6, one byte per packet and in packets of 2..7", n + 1),
        move || {
            const B: &[&[u8]] = &[b".\r\n", b"\r\n.\r\n", b"a\r\n.\r\n", b"..\r\n.\r\n", b"a\r\n..b\r\n.\r\n", b"a\r.\n.\r\n\r\n.\r\n"];
            let k = 1 + choose(n + 1);
            let bodies: Vec<Vec<u8>> = (0..k).map(|_| B[choose(B.len())].to_vec()).collect();
            let mut w = bodies.concat();
            w.extend_from_slice(b"tail");
            let c = 1 + choose(7);
            let p: Vec<Vec<u8>> = w.chunks(c).map(|x| x.to_vec()).collect();
            sequence_case(&bodies, b"tail", &p, flip(), false)
        }));
    let lens = large_lengths();
    v.push(space("large-rest", "25 lengths around 4096, 8192, 16384, 32768, 65536 of what follows the marker in its packet, x 3 kinds of content x 3 bodies x whole / two packets / packets of 8191, 20000 bytes",
        move || {
            let n = lens[choose(lens.len())];
            let body: &[u8] = [&b".\r\n"[..], b"a\r\n.\r\n", b"..\r\n.b\r\n.\r\n"][choose(3)];
            let fill: &[u8] = [&b"0123456789abcdefghijklmnopqrstuvwxyz-"[..], b"\r\n", b".\r\nq"][choose(3)];
            let tail: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
            let w = [body, &tail[..]].concat();
            let p: Vec<Vec<u8>> = match choose(4) {
                0 => vec![w.clone()],
                1 => { let c = body.len() + n / 2; vec![w[..c].to_vec(), w[c..].to_vec()] }
                2 => w.chunks(8191).map(|x| x.to_vec()).collect(),
                _ => w.chunks(20000).map(|x| x.to_vec()).collect(),
            };
            body_case(On::M03, &w, &p, flip(), false)
        }));
    let many = t.pick(300, 3000);
    v.push(space("many-bodies",
        format!("{many} bodies in a row over one connection in packet sizes 1..=40 and whole, 70001 bodies in packet sizes 1, 7 and whole"),
        move || {
            let c = choose(44);
            let (many, c) = if c > 40 { (70_001, [0, 1, 7][c - 41]) } else { (many, c) };
            let bodies: Vec<Vec<u8>> = (0..many).map(|i| encode(&[b"l\r\n."[i % 4]; 5][..i % 6])).collect();
            let mut w = bodies.concat();
            w.extend_from_slice(b"QUIT\r\n");
            let p: Vec<Vec<u8>> = if c == 0 { vec![w.clone()] } else { w.chunks(c).map(|x| x.to_vec()).collect() };
            // decoding the remaining wire for every body would be quadratic: check each on its own
            let (src, sh) = source(&p, c % 2 == 0);
            let mut pr = src.prependable();
            let (_cnt, waker) = counter();
            let mut cx = Context::from_waker(&waker);
            for (i, b) in bodies.iter().enumerate() {
                let want = decode(b);
                let mut ds = DataStream::new(&mut pr);
                let mut out = vec![];
                loop {
                    match Pin::new(&mut ds).poll_next(&mut cx) {
                        Poll::Ready(Some(x)) => out.extend_from_slice(&x),
                        Poll::Ready(None) => break,
                        Poll::Pending => return Err("waits for no reason".into()),
                    }
                }
                ensure!(ds.complete().is_ok(), "body {i} not completed");
                ensure!(out == want.body, "body {i} of {many}: read {}, should be {}", show(&out), show(&want.body));
                state(&i);
            }
            let rest = drain(&mut pr);
            ensure!(rest == b"QUIT\r\n", "after {many} bodies: {}", show(&rest));
            nontrivial();
            let _ = sh;
            Ok(())
        }));
    Check {
        level: Level::Model,
        rule: "Bodies and a tail on one connection; after each completion the next body (or the tail) must be read exactly. Non-trivial: at least two bodies, or a non-empty body followed by input.",
        spaces: v,
        assumptions: DATA_ASSUME.to_vec(),
    }
}

// ------------------------------------------------------------------ sink
#[derive(Debug, PartialEq, Eq, Clone, Copy)]
struct IoErr(u32);
#[derive(Default)]
struct SinkSh {
    data: Vec<u8>,
    items: usize,
    flushed: usize,
    ready: bool,
    closed: bool,
    pended: bool,
    may_pend: bool,
    may_fail: bool,
    fail_at: u32,
    /// answer not-ready this many times before every other answer that may be one
    storm: usize,
    stormed: usize,
    failed: Option<IoErr>,
    calls: u32,
    after_fail: usize,
}
#[derive(Clone)]
struct Snk(Rc<RefCell<SinkSh>>);
impl Snk {
    fn event(&self, cx: Option<&mut Context>) -> Poll<Result<(), IoErr>> {
        let mut s = self.0.borrow_mut();
        s.calls += 1;
        if s.closed {
            return Poll::Ready(Err(IoErr(888_888)));
        }
        if s.failed.is_some() {
            s.after_fail += 1;
            return Poll::Ready(Err(IoErr(999_999)));
        }
        let pend = s.may_pend && cx.is_some();
        if cx.is_some() && s.storm > 0 {
            if s.stormed < s.storm {
                s.stormed += 1;
                s.pended = true;
                s.calls -= 1;
                late();
                cx.unwrap().waker().wake_by_ref();
                return Poll::Pending;
            }
            s.stormed = 0;
        }
        let alts = 1 + pend as usize + s.may_fail as usize;
        let mut c = dev(alts);
        if s.calls == s.fail_at {
            c = usize::MAX;
        }
        if c == 0 {
            return Poll::Ready(Ok(()));
        }
        if pend && c == 1 {
            s.pended = true;
            late();
            cx.unwrap().waker().wake_by_ref();
            return Poll::Pending;
        }
        let e = IoErr(s.calls);
        s.failed = Some(e);
        Poll::Ready(Err(e))
    }
}
impl Sink<Bytes> for Snk {
    type Error = IoErr;
    fn poll_ready(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), IoErr>> {
        match self.event(Some(cx)) {
            Poll::Ready(Ok(())) => {
                self.0.borrow_mut().ready = true;
                Poll::Ready(Ok(()))
            }
            x => x,
        }
    }
    fn start_send(self: Pin<&mut Self>, item: Bytes) -> Result<(), IoErr> {
        if self.0.borrow().failed.is_none() && !self.0.borrow().ready {
            panic!("an item was pushed into the connection although it had not said it was ready");
        }
        match self.event(None) {
            Poll::Ready(Ok(())) => {
                let mut s = self.0.borrow_mut();
                s.ready = false;
                s.items += 1;
                s.data.extend_from_slice(&item);
                Ok(())
            }
            Poll::Ready(Err(e)) => Err(e),
            Poll::Pending => unreachable!(),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), IoErr>> {
        match self.event(Some(cx)) {
            Poll::Ready(Ok(())) => {
                let mut s = self.0.borrow_mut();
                s.flushed = s.data.len();
                Poll::Ready(Ok(()))
            }
            x => x,
        }
    }
    fn poll_close(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), IoErr>> {
        let r = self.as_mut().poll_flush(cx);
        if let Poll::Ready(Ok(())) = r {
            self.0.borrow_mut().closed = true;
        }
        r
    }
}
/// The wire bytes owed for what was written so far (before the end marker).
fn escaped(msg: &[u8]) -> Vec<u8> {
    let e = encode(msg);
    let n = if msg.is_empty() || msg.ends_with(b"\r\n") { 3 } else { 5 };
    e[..e.len() - n].to_vec()
}
fn drive<F: Future>(sh: &Rc<RefCell<SinkSh>>, f: F, strict: bool) -> Result<F::Output, String> {
    let mut f = Box::pin(f);
    let mut n = 0;
    let limit = 100_000 + 8 * sh.borrow().storm;
    loop {
        sh.borrow_mut().pended = false;
        // another waker each time: the sender may be polled by another task than before
        let (count, waker) = counter();
        match f.as_mut().poll(&mut Context::from_waker(&waker)) {
            Poll::Ready(x) => return Ok(x),
            Poll::Pending => {
                if strict {
                    ensure!(sh.borrow().pended && count.get() > 0, "the sender waits although the connection did not answer not-ready");
                }
                n += 1;
                ensure!(n < limit, "the sender never finishes");
            }
        }
    }
}
#[derive(Clone, Copy, PartialEq, Eq)]
enum SOn {
    M04,
    M06,
}
/// Write `pieces`, end, compare. `reads` also feeds the result to a receiver.
fn send_case(on: SOn, pieces: &[Vec<u8>], may_pend: bool, may_fail: bool) -> Result<Option<Vec<u8>>, String> {
    send_case_at(on, pieces, may_pend, may_fail, 0)
}
/// As `send_case`, with a failure at call `fail_at`, counted from 1 (0: none).
fn send_case_at(on: SOn, pieces: &[Vec<u8>], may_pend: bool, may_fail: bool, fail_at: u32) -> Result<Option<Vec<u8>>, String> {
    send_case_storm(on, pieces, may_pend, may_fail, fail_at, 0)
}
fn send_case_storm(on: SOn, pieces: &[Vec<u8>], may_pend: bool, may_fail: bool, fail_at: u32, storm: usize) -> Result<Option<Vec<u8>>, String> {
    let msg = pieces.concat();
    let want = encode(&msg);
    note(|| format!("writes {} -> model wire {}", show_pieces(pieces), show(&want)));
    let sh = Rc::new(RefCell::new(SinkSh { may_pend, may_fail, fail_at, storm, ..Default::default() }));
    let snk = Snk(sh.clone());
    let mut ds = DataSink::new(snk);
    let mut sofar: Vec<u8> = vec![];
    for p in pieces {
        step();
        sofar.extend_from_slice(p);
        let r = drive(&sh, ds.send(Bytes::from(&p[..])), on == SOn::M06)?;
        let s = sh.borrow();
        state(&(rest(&want[s.data.len().min(want.len())..]), s.failed.is_some()));
        if let Some(e) = s.failed {
            return check_failed(&s, r.map_err(|e| e), e, &want);
        }
        if on == SOn::M06 {
            ensure!(r.is_ok(), "the sender reports an error although the connection never failed");
            let owed = escaped(&sofar);
            // a trailing CR or CRLF might only be pushed with the next write; what is sent must match
            ensure!(s.data == owed, "after sending {} the wire holds {}, should be {}", show(&sofar), show(&s.data), show(&owed));
            ensure!(s.flushed == s.data.len(), "the send operation completed although {} bytes were not flushed", s.data.len() - s.flushed);
        }
    }
    let r = drive(&sh, ds.end(), on == SOn::M06)?;
    let s = sh.borrow();
    step();
    if let Some(e) = s.failed {
        return check_failed(&s, r.map(|_| ()), e, &want);
    }
    match on {
        SOn::M04 => {
            ensure!(r.is_ok(), "the sender reports an error although the connection never failed");
            ensure!(s.data == want, "message {} written as {}: the wire holds {}, should be {}", show(&msg), show_pieces(pieces), show(&s.data), show(&want));
        }
        SOn::M06 => {
            ensure!(r.is_ok(), "the sender reports an error although the connection never failed");
            ensure!(s.data == want, "message {}: the wire holds {}, should be {}", show(&msg), show(&s.data), show(&want));
            ensure!(s.flushed == s.data.len(), "ended although {} bytes were not flushed", s.data.len() - s.flushed);
        }
    }
    outcome(&s.data);
    if want.len() > msg.len() + 3 {
        nontrivial();
    }
    Ok(Some(s.data.clone()))
}
fn check_failed(s: &SinkSh, r: Result<(), IoErr>, e: IoErr, want: &[u8]) -> Result<Option<Vec<u8>>, String> {
    nontrivial();
    match r {
        Ok(()) => return Err(format!("the connection failed at call {} but the sender reported success", e.0)),
        Err(x) => ensure!(x == e, "the connection failed with {:?} but the sender reported {:?}", e, x),
    }
    ensure!(want.starts_with(&s.data), "before the failure the wire held {}, not a prefix of {}", show(&s.data), show(want));
    ensure!(s.after_fail == 0, "the sender went on using the connection after it failed");
    Ok(None)
}
fn wild_msg() -> Vec<u8> {
    const T: &[&[u8]] = &[b"", b"\r\n", b"\r\n.", b"a\r\n.b\r\n", b".", b"\r\n\r\n", b"a\n.\r.", b"\r\n..\r"];
    let t = T[choose(T.len())];
    let b = choose(256) as u8;
    let i = choose(t.len() + 1);
    let mut v = t.to_vec();
    if i < t.len() && flip() {
        v[i] = b;
    } else {
        v.insert(i, b);
    }
    v
}
fn long_msg(lens: &[usize]) -> (Vec<u8>, usize) {
    let fill: &[u8] = [&b"x"[..], b".", b"\r\n", b"\r", b"\r\n.", b"x\r\n."][choose(6)];
    let n = lens[choose(lens.len())];
    let mut m: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
    m.extend_from_slice([&b""[..], b"\r\n.", b".", b"\r\n", b"\n.", b"\r", b"\r\n.\r\n"][choose(7)]);
    (m, n)
}
pub fn m04(t: Tier) -> Check {
    let l = t.pick(7, 8);
    let le = t.pick(5, 6);
    let lens = block_lengths(t.pick(2100, 70000));
    let large = large_lengths();
    Check {
        level: Level::Model,
        rule: "The model encodes the whole message line by line; the real sender gets it in pieces. A state is what remains to be written. Non-trivial: the message needs dot escaping or a final CRLF.",
        spaces: vec![
            space("messages-all-writes", format!("every message over {{CR,LF,'.',x}} of length 0..={l} in every cutting into writes"),
                move || { let m = string(A4, 0, l); send_case(SOn::M04, &cut(&m, Cuts::All), false, false).map(|_| ()) }),
            space("messages-empty-writes", format!("every message over {{CR,LF,'.',x}} of length 0..={le} in every cutting with empty writes anywhere"),
                move || { let m = string(A4, 0, le); send_case(SOn::M04, &cut(&m, Cuts::Empties), false, false).map(|_| ()) }),
            space("every-byte-value", "each byte value inserted or substituted at every position of 8 messages, in every cutting",
                move || { let m = wild_msg(); send_case(SOn::M04, &cut(&m, Cuts::All), false, false).map(|_| ()) }),
            space("long-messages", format!("{} lengths up to {} x 6 fillers x 7 endings x whole / writes of 1..512 bytes / cut at the ending", lens.len(), lens[lens.len()-1]),
                move || {
                    let (m, n) = long_msg(&lens);
                    let p: Vec<Vec<u8>> = match choose(7) {
                        0 => vec![m.clone()],
                        1 => vec![m[..n].to_vec(), m[n..].to_vec()],
                        k => m.chunks([1, 2, 3, 64, 512][k - 2]).map(|c| c.to_vec()).collect(),
                    };
                    send_case(SOn::M04, &p, false, false).map(|_| ())
                }),
            space("large-messages", "25 lengths around 4096, 8192, 16384, 32768, 65536 x 6 fillers x 7 endings x whole / cut at the ending / writes of 1460, 4096 bytes",
                move || {
                    let (m, n) = long_msg(&large);
                    let p: Vec<Vec<u8>> = match choose(4) {
                        0 => vec![m.clone()],
                        1 => vec![m[..n].to_vec(), m[n..].to_vec()],
                        k => m.chunks([1460, 4096][k - 2]).map(|c| c.to_vec()).collect(),
                    };
                    send_case(SOn::M04, &p, false, false).map(|_| ())
                }),
            space("words", format!("{} contents of real mail and mail systems, one or two of them, written whole, byte by byte or line by line", words::BODIES.len()),
                move || {
                    let m = words_body();
                    let p = match choose(3) { 0 => cut(&m, Cuts::Whole), 1 => cut(&m, Cuts::Bytes), _ => m.split_inclusive(|c| *c == b'\n').map(|l| l.to_vec()).collect() };
                    send_case(SOn::M04, &p, false, false).map(|_| ())
                }),
            space("megabytes", "messages of 1 and 4 megabytes of 3 fillers around 3 line endings, whole or in writes of 65536 bytes",
                move || {
                    let m = megabytes(&[b"x", &[&b"y".repeat(998)[..], b"\r\n."].concat(), b"\r\n."], &[b"\r\n.", b"\r\n.\r\n", b"."]);
                    let p: Vec<Vec<u8>> = if flip() { vec![m.clone()] } else { m.chunks(65_536).map(|c| c.to_vec()).collect() };
                    send_case(SOn::M04, &p, false, false).map(|_| ())
                }),
            space("tens-of-megabytes", "messages of 11, 17, 26, 34, 51 and 101 megabytes of 2 fillers, with a dot at the start of the last line or not, whole or in writes of 65536 bytes",
                move || {
                    let mut m = filler_of(tens());
                    m.extend_from_slice([&b""[..], b"\r\n.z", b"\r\n"][choose(3)]);
                    let p: Vec<Vec<u8>> = if flip() { vec![m.clone()] } else { m.chunks(65_536).map(|c| c.to_vec()).collect() };
                    send_case(SOn::M04, &p, false, false).map(|_| ())
                }),
            space("many-writes", "messages of 4095..8200 and 65535..70001 one-byte writes x 3 fillers",
                move || {
                    let n = [4095usize, 4096, 4097, 8200, 65_535, 65_536, 65_537, 70_001][choose(8)];
                    let fill: &[u8] = [&b"x"[..], b".\r\n", b"\r\n."][choose(3)];
                    let m: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
                    let p: Vec<Vec<u8>> = m.chunks(1).map(|c| c.to_vec()).collect();
                    send_case(SOn::M04, &p, false, false).map(|_| ())
                }),
        ],
        assumptions: vec!["the outgoing connection accepts everything (M06 covers the rest)"],
    }
}
const LARGE: &[usize] = &[505, 506, 507, 999, 1000, 1001, 1024, 4095, 4096, 4097, 8191, 8192, 8193, 10_000, 16_384, 16_385, 32_768, 32_769, 65_535, 65_536, 65_537, 100_000, 131_073, 1_100_000];
const STORMS: &[usize] = &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 999, 1000, 1001, 1024, 4096, 5000, 70_001];
pub fn m06(t: Tier) -> Check {
    let l = t.pick(4, 5);
    let l2 = t.pick(3, 4);
    Check {
        level: Level::Fault,
        rule: "Every call the sender makes to the connection (poll_ready, start_send, poll_flush) is a fault point: not-ready and failure are injected at every one, up to the budget. Non-trivial: a failure was injected, or the message needs escaping.",
        spaces: vec![
            space("not-ready", format!("every message over {{CR,LF,'.',x}} of length 0..={l} in every cutting, up to {} not-ready answers at any calls", t.pick(3, 4)),
                move || { let m = string(A4, 0, l); send_case(SOn::M06, &cut(&m, Cuts::All), true, false).map(|_| ()) }).budget(t.pick(3, 4)),
            space("failures", format!("every message over {{CR,LF,'.',x}} of length 0..={} in every cutting with empty writes, a failure at any one call", t.pick(5, 6)),
                move || { let m = string(A4, 0, t.pick(5, 6)); send_case(SOn::M06, &cut(&m, Cuts::Empties), false, true).map(|_| ()) }).budget(1),
            space("not-ready-and-failures", format!("every message of length 0..={l2} in every cutting, up to 3 not-ready answers or failures at any calls"),
                move || { let m = string(A4, 0, l2); send_case(SOn::M06, &cut(&m, Cuts::Empties), true, true).map(|_| ()) }).budget(3),
            space("token-messages", format!("messages of up to {} tokens out of CRLF, CRLF., '.', text, CR, one write per token, up to 2 faults", t.pick(4, 5)),
                move || {
                    const T: &[&[u8]] = &[b"\r\n", b"\r\n.", b".", b"hello", b"\r", b"\r\n.\r\n", b"..\r\n..", b""];
                    let n = choose(t.pick(5, 6));
                    let p: Vec<Vec<u8>> = (0..n).map(|_| T[choose(T.len())].to_vec()).collect();
                    send_case(SOn::M06, &p, true, true).map(|_| ())
                }).budget(2),
            space("long-writes", "writes of 100..2000 bytes with many escaped dots, a fault at any one call",
                move || {
                    let n = [100usize, 513, 2000][choose(3)];
                    let fill: &[u8] = [&b"\r\n."[..], b"x", b"line\r\n.."][choose(3)];
                    let m: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
                    let k = [m.len(), 64, 7][choose(3)];
                    let p: Vec<Vec<u8>> = m.chunks(k).map(|c| c.to_vec()).collect();
                    send_case(SOn::M06, &p, true, true).map(|_| ())
                }).budget(1),
            space("large-writes", format!("{} sizes from 505 to 1100000 bytes of 4 kinds of text, with dots at the start, before the end or not, in 1..=3 writes, one fault at any call", LARGE.len()),
                move || {
                    let n = LARGE[choose(LARGE.len())];
                    let fill: &[u8] = [&b"x"[..], b"0123456789012345678901234567890123456789012345678901234567890123456789\r\n", b"\r", b"\n"][choose(4)];
                    let mut m: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
                    let k = choose(4);
                    if k & 1 > 0 { m[0] = b'.' }
                    if k & 2 > 0 { m[n - 7..n - 4].copy_from_slice(b"\r\n.") }
                    let p: Vec<Vec<u8>> = m.chunks(n / (1 + choose(3)) + 1).map(|c| c.to_vec()).collect();
                    send_case(SOn::M06, &p, true, true).map(|_| ())
                }).budget(1),
            space("large-writes-chunked", format!("{} sizes from 505 to 1100000 bytes of 4 kinds of text, in writes of 1460, 8192 or 65536 bytes, or one", LARGE.len()),
                move || {
                    let n = LARGE[choose(LARGE.len())];
                    let fill: &[u8] = [&b"x\r\n."[..], b"0123456789012345678901234567890123456789012345678901234567890123456789\r\n..", b".", b"\r\n"][choose(4)];
                    let m: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
                    let k = [1460usize, 8192, 65_536, 2_000_000][choose(4)];
                    if n / k > 200 { return Ok(()) }
                    let p: Vec<Vec<u8>> = m.chunks(k).map(|c| c.to_vec()).collect();
                    send_case(SOn::M06, &p, false, false).map(|_| ())
                }),
            space("storms", format!("messages of up to 3 tokens out of CRLF, CRLF., '.', text, CR, nothing, one write per token, every call preceded by one of {} numbers of not-ready answers up to 70001, and a failure at any one call or none", STORMS.len()),
                move || {
                    const T: &[&[u8]] = &[b"\r\n", b"\r\n.", b".", b"hello", b"\r", b"\r\n.\r\n", b""];
                    let storm = STORMS[choose(STORMS.len())];
                    let n = choose(if storm > 300 { 2 } else { 4 });
                    let p: Vec<Vec<u8>> = (0..n).map(|_| T[choose(T.len())].to_vec()).collect();
                    send_case_storm(SOn::M06, &p, false, storm <= 300, 0, storm).map(|_| ())
                }).budget(1),
            space("long-storms", "messages of 1000 and 3000 one-byte writes of 4 fillers, every call preceded by 1, 2, 3, 10 and 100 not-ready answers",
                move || {
                    let fill: &[u8] = [&b"x"[..], b".\r\n", b"\r\n.", b"line\r\n.."][choose(4)];
                    let m: Vec<u8> = fill.iter().cycle().take([1000, 3000][choose(2)]).cloned().collect();
                    send_case_storm(SOn::M06, &cut(&m, Cuts::Bytes), false, false, 0, [1, 2, 3, 10, 100][choose(5)]).map(|_| ())
                }),
            space("late-failures", "messages of 1500 one-byte writes of 3 fillers, a failure at each of the last 12 calls or none",
                move || {
                    let fill: &[u8] = [&b"x"[..], b".\r\n", b"\r\n."][choose(3)];
                    let m: Vec<u8> = fill.iter().cycle().take(1500).cloned().collect();
                    // three calls for every item pushed, and those of the end marker
                    let calls = 3 * 1500;
                    send_case_at(SOn::M06, &cut(&m, Cuts::Bytes), false, false, [0, calls + 4 - choose(12) as u32][choose(2)]).map(|_| ())
                }),
        ],
        assumptions: vec!["the connection follows the Sink contract: it stays failed after a failure, and wakes the task after not-ready"],
    }
}

// ------------------------------------------------------------------ round trip
fn round_trip(msgs: &[Vec<u8>], writes: &[Vec<Vec<u8>>], recut: impl Fn(&[u8]) -> Vec<Vec<u8>>, carved: bool, pend: bool) -> Res {
    let sh = Rc::new(RefCell::new(SinkSh::default()));
    let mut sink = Snk(sh.clone());
    for (i, w) in writes.iter().enumerate() {
        let mut ds = DataSink::new(sink);
        for p in w {
            ensure!(drive(&sh, ds.send(Bytes::from(&p[..])), false)?.is_ok(), "message {i}: sending failed although the connection never did");
        }
        // what `end` gives back is the connection for the next message
        sink = match drive(&sh, ds.end(), false)? {
            Ok(s) => s,
            Err(_) => return Err(format!("message {i}: ending it failed although the connection never did")),
        };
    }
    ensure!(sh.borrow().flushed == sh.borrow().data.len(), "ended although {} bytes were not flushed", sh.borrow().data.len() - sh.borrow().flushed);
    let wire = sh.borrow().data.clone();
    let pieces = recut(&wire);
    note(|| format!("messages {} written as {}, received as {}", show_pieces(msgs), writes.iter().map(|w| show_pieces(w)).collect::<Vec<_>>().join(" | "), show_pieces(&pieces)));
    let (src, sh) = source(&pieces, carved);
    sh.borrow_mut().may_pend = pend;
    let mut p = src.prependable();
    for m in msgs {
        let at = sh.borrow().given.len();
        let _ = at;
        let (_c, waker) = counter();
        let mut cx = Context::from_waker(&waker);
        let mut ds = DataStream::new(&mut p);
        let mut out: Vec<u8> = vec![];
        loop {
            match Pin::new(&mut ds).poll_next(&mut cx) {
                Poll::Ready(Some(b)) => {
                    out.extend_from_slice(&b);
                    state(&(rest(&m[out.len().min(m.len())..]), b.len()));
                }
                Poll::Ready(None) => break,
                Poll::Pending => (),
            }
        }
        ensure!(ds.complete().is_ok(), "message {}: the receiver reports a truncated message; wire {}", show(m), show(&wire));
        let want = received(m);
        ensure!(out == want, "message {}: wire {}, received {}, should be {}", show(m), show(&wire), show(&out), show(&want));
        outcome(&out);
    }
    let rest = drain(&mut p);
    ensure!(rest.is_empty(), "bytes left on the connection: {}", show(&rest));
    if msgs.iter().any(|m| encode(m).len() > m.len() + 3) {
        nontrivial();
    }
    Ok(())
}
pub fn m05(t: Tier) -> Check {
    let _ = On::M05;
    let l = t.pick(5, 6);
    let l2 = t.pick(7, 9);
    let lens = block_lengths(t.pick(2100, 70000));
    let large = large_lengths();
    Check {
        level: Level::Model,
        rule: "The real sender writes into a recording connection, the real receiver reads it back after re-cutting. The model is the identity plus a final CRLF. Non-trivial: escaping or a final CRLF was needed.",
        spaces: vec![
            space("all-writes-some-recuts", format!("every message over {{CR,LF,'.',x}} of length 0..={l} in every cutting into writes, received with up to {} cuts/empty packets/delays", t.pick(1, 2)),
                move || {
                    let m = string(A4, 0, l);
                    let w = cut(&m, Cuts::All);
                    round_trip(&[m.clone()], &[w], |b| cut(b, Cuts::Dev), flip(), true)
                }).budget(t.pick(1, 2)),
            space("all-recuts", format!("every message of length 0..={}, one write, every cutting of the wire", t.pick(4, 5)),
                move || {
                    let m = string(A4, 0, t.pick(4, 5));
                    round_trip(&[m.clone()], &[vec![m.clone()]], |b| cut(b, Cuts::All), flip(), false)
                }),
            space("bytewise", format!("every message of length 0..={l2}, written whole or bytewise, received whole or bytewise"),
                move || {
                    let m = string(A4, 0, l2);
                    let w = cut(&m, if flip() { Cuts::Whole } else { Cuts::Bytes });
                    let how = if flip() { Cuts::Whole } else { Cuts::Bytes };
                    round_trip(&[m.clone()], &[w], |b| cut(b, how), true, false)
                }),
            space("every-byte-value", "each byte value in 8 message contexts, written and received whole / bytewise / with one cut",
                move || {
                    let m = wild_msg();
                    let w = cut(&m, if flip() { Cuts::Whole } else { Cuts::Bytes });
                    round_trip(&[m.clone()], &[w], |b| cut(b, Cuts::Dev), flip(), false)
                }).budget(t.pick(1, 2)),
            space("several-messages", format!("every sequence of 2..={} messages out of 9 on one connection, up to {} cuts", t.pick(3, 4), t.pick(1, 2)),
                move || {
                    const M: &[&[u8]] = &[b"", b".", b"\r\n", b"x", b"a\r\n.", b"..\r\n", b"\r", b"a\r\n.\r\nb", b".\r\n"];
                    let n = 2 + choose(t.pick(2, 3));
                    let ms: Vec<Vec<u8>> = (0..n).map(|_| M[choose(M.len())].to_vec()).collect();
                    let ws: Vec<Vec<Vec<u8>>> = ms.iter().map(|m| vec![m.clone()]).collect();
                    round_trip(&ms, &ws, |b| cut(b, Cuts::Dev), flip(), false)
                }).budget(t.pick(2, 2)),
            space("long-messages", format!("{} lengths up to {} x 6 fillers x 7 endings, writes and packets of various sizes", lens.len(), lens[lens.len()-1]),
                move || {
                    let (m, n) = long_msg(&lens);
                    let w: Vec<Vec<u8>> = match choose(4) {
                        0 => vec![m.clone()],
                        1 => vec![m[..n].to_vec(), m[n..].to_vec()],
                        k => m.chunks([3, 512][k - 2]).map(|c| c.to_vec()).collect(),
                    };
                    let k = [usize::MAX, 1, 63, 512][choose(4)];
                    round_trip(&[m.clone()], &[w], |b| b.chunks(k).map(|c| c.to_vec()).collect(), flip(), false)
                }),
            space("large-messages", "25 lengths around 4096, 8192, 16384, 32768, 65536 x 6 fillers x 7 endings, written whole or cut at the ending, received whole or in packets of 1460, 4096 bytes",
                move || {
                    let (m, n) = long_msg(&large);
                    let w: Vec<Vec<u8>> = if flip() { vec![m.clone()] } else { vec![m[..n].to_vec(), m[n..].to_vec()] };
                    let k = [usize::MAX, 1460, 4096][choose(3)];
                    round_trip(&[m.clone()], &[w], |b| b.chunks(k).map(|c| c.to_vec()).collect(), false, false)
                }),
            space("words", format!("{} contents of real mail and mail systems, one or two of them, written whole or byte by byte, received whole or byte by byte", words::BODIES.len()),
                move || {
                    let m = words_body();
                    let w = cut(&m, if flip() { Cuts::Whole } else { Cuts::Bytes });
                    let how = if flip() { Cuts::Whole } else { Cuts::Bytes };
                    round_trip(&[m.clone()], &[w], |b| cut(b, how), flip(), false)
                }),
            space("many-writes", "messages of 4095..70001 bytes of 3 fillers, written byte by byte or whole, received byte by byte or whole",
                move || {
                    let n = [4095usize, 4097, 8200, 65_535, 65_537, 70_001][choose(6)];
                    let fill: &[u8] = [&b"x"[..], b".\r\n", b"\r\n."][choose(3)];
                    let m: Vec<u8> = fill.iter().cycle().take(n).cloned().collect();
                    let w = cut(&m, if flip() { Cuts::Whole } else { Cuts::Bytes });
                    let how = if flip() { Cuts::Whole } else { Cuts::Bytes };
                    round_trip(&[m.clone()], &[w], |b| cut(b, how), false, false)
                }),
            space("many-messages", "257..3000 messages of 1..=3 bytes on one connection, received whole or in packets of 1 or 7 bytes",
                move || {
                    let n = [257usize, 1025, 3000][choose(3)];
                    let ms: Vec<Vec<u8>> = (0..n).map(|i| b"a\r\n.\r\n..x"[i % 7..][..1 + i % 3].to_vec()).collect();
                    let ws: Vec<Vec<Vec<u8>>> = ms.iter().map(|m| vec![m.clone()]).collect();
                    let k = [usize::MAX, 1, 7][choose(3)];
                    round_trip(&ms, &ws, |b| b.chunks(k).map(|c| c.to_vec()).collect(), flip(), false)
                }),
        ],
        assumptions: vec!["the connection delivers the bytes written, in order"],
    }
}

// ------------------------------------------------------------------ push-back
struct Items {
    /// never not ready
    calm: bool,
    next: u32,
    n: u32,
    ended: bool,
    pended: bool,
    over: bool,
}
impl Stream for Items {
    type Item = u32;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<u32>> {
        if self.ended {
            self.over = true;
        }
        if !self.calm && dev(2) == 1 {
            self.pended = true;
            late();
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if self.next < self.n {
            self.next += 1;
            Poll::Ready(Some(self.next - 1))
        } else {
            self.ended = true;
            Poll::Ready(None)
        }
    }
}
pub fn m08(t: Tier) -> Check {
    let depth = t.pick(11, 14);
    Check {
        level: Level::Model,
        rule: "Model: one push-back slot in front of a queue. Every sequence of reads and push-backs, on connections of 0..=3 items, with not-ready answers. Non-trivial: a push-back was read or refused.",
        spaces: vec![
            space("operations", format!("every sequence of {depth} operations read / push back, on connections of 0..=3 items, constructor or adapter, up to {} not-ready answers", t.pick(3, 4)),
                move || {
                    let n = choose(4) as u32;
                    let items = Items { calm: false, next: 0, n, ended: false, pended: false, over: false };
                    let mut p = if flip() { Prependable::new(items) } else { items.prependable() };
                    let mut slot: Option<u32> = None;
                    let mut next = 0u32;
                    let mut fresh = 100;
                    let mut done = false;
                    for _ in 0..depth {
                        if flip() {
                            fresh += 1;
                            let r = p.prepend(fresh);
                            note(|| format!("push back {fresh}: {r:?}"));
                            if slot.is_some() {
                                nontrivial();
                                ensure!(r.is_err(), "a second push-back was not refused");
                            } else {
                                ensure!(r.is_ok(), "a push-back was refused although nothing was pushed back");
                                slot = Some(fresh);
                            }
                        } else {
                            // another waker each time, as from another task
                            let (count, waker) = counter();
                            let r = Pin::new(&mut p).poll_next(&mut Context::from_waker(&waker));
                            note(|| format!("read: {r:?}"));
                            match (r, slot) {
                                (Poll::Ready(Some(x)), Some(s)) => {
                                    nontrivial();
                                    ensure!(x == s, "read {x} instead of the pushed-back {s}");
                                    slot = None;
                                }
                                (Poll::Pending, None) => ensure!(count.get() > 0, "waits although the connection did not answer not-ready"),
                                (Poll::Ready(Some(x)), None) => {
                                    ensure!(x == next && next < n, "read {x} instead of item {next} of {n}");
                                    next += 1;
                                }
                                (Poll::Ready(None), None) => {
                                    ensure!(next == n, "reports the end after {next} of {n} items");
                                    done = true;
                                }
                                (r, Some(s)) => return Err(format!("read answers {r:?} although {s} was pushed back")),
                            }
                        }
                        state(&(slot.is_some(), n - next, done));
                        if done && slot.is_none() && flip() {
                            break;
                        }
                    }
                    outcome(&(slot.is_some(), next, n));
                    Ok(())
                }).budget(t.pick(3, 4)),
            space("nested", format!("two nested push-back layers: every sequence of {} operations read / push back outer / push back inner-before-wrapping", t.pick(12, 15)),
                move || {
                    let n = choose(3) as u32;
                    let mut inner = Prependable::new(Items { calm: false, next: 0, n, ended: false, pended: false, over: false });
                    let mut model: VecDeque<u32> = (0..n).collect();
                    if flip() {
                        ensure!(inner.prepend(50).is_ok(), "refused");
                        ensure!(inner.prepend(51).is_err(), "not refused");
                        model.push_front(50);
                    }
                    let mut p = Prependable::new(inner);
                    let mut outer = false;
                    let (_c, waker) = counter();
                    let mut cx = Context::from_waker(&waker);
                    let mut fresh = 100;
                    for _ in 0..t.pick(12, 15) {
                        if flip() {
                            fresh += 1;
                            let r = p.prepend(fresh);
                            ensure!(r.is_err() == outer, "push-back answered {r:?} with the slot {}", if outer { "full" } else { "empty" });
                            if !outer {
                                model.push_front(fresh);
                                outer = true;
                            }
                        } else {
                            match Pin::new(&mut p).poll_next(&mut cx) {
                                Poll::Pending => (),
                                Poll::Ready(x) => {
                                    ensure!(x == model.front().copied(), "read {x:?}, should be {:?}", model.front());
                                    model.pop_front();
                                    outer = false;
                                    nontrivial();
                                    if x.is_none() { break; }
                                }
                            }
                        }
                        state(&(model.len(), outer));
                    }
                    outcome(&model.len());
                    Ok(())
                }).budget(1),
            space("long", "every cycle of 1..=6 operations read / push back, repeated to 600 operations, on connections of 0, 1, 3, 64, 300, 1000 items; cycles of 1..=3, repeated to 280000 operations, on connections of 0, 1, 200000 items", || {
                let (n, k, l) = if flip() { ([0u32, 1, 3, 64, 300, 1000][choose(6)], 1 + choose(6), 600) } else { ([0u32, 1, 200_000][choose(3)], 1 + choose(3), 280_000) };
                let cycle: Vec<bool> = (0..k).map(|_| flip()).collect();
                let mut p = Items { calm: l > 600, next: 0, n, ended: false, pended: false, over: false }.prependable();
                let (_c, waker) = counter();
                let mut cx = Context::from_waker(&waker);
                let mut slot: Option<u32> = None;
                let mut next = 0u32;
                for i in 0..l {
                    if cycle[i as usize % k] {
                        let r = p.prepend(1_000_000 + i);
                        ensure!(r.is_err() == slot.is_some(), "operation {i}: push-back answered {r:?} with the slot {slot:?}");
                        slot = slot.or(Some(1_000_000 + i));
                    } else {
                        let want = if slot.is_some() { slot } else if next < n { Some(next) } else { None };
                        loop {
                            match Pin::new(&mut p).poll_next(&mut cx) {
                                Poll::Pending => ensure!(slot.is_none(), "operation {i}: waits although {slot:?} was pushed back"),
                                Poll::Ready(x) => {
                                    ensure!(x == want, "operation {i}: read {x:?}, should be {want:?}");
                                    break;
                                }
                            }
                        }
                        if slot.take().is_some() { nontrivial() } else { next += 1 }
                        if want.is_none() { break }
                    }
                    state(&(slot.is_some(), n.saturating_sub(next)));
                }
                outcome(&(next, n));
                Ok(())
            }).budget(t.pick(1, 2)),
        ],
        assumptions: vec!["the connection is read through the push-back layer only"],
    }
}
