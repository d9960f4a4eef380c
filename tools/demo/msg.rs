#![allow(dead_code, unused_imports)]
use bytes::{Bytes, BytesMut};
use futures::{executor::block_on, prelude::*, stream, task::{Context, Poll}};
use smtp_message::*;
use smtp_message::StreamExt as _;
use std::pin::Pin;

pub type B = Vec<u8>;
/// Reads one message body from the packets, completes it, and reads the rest.
pub fn decode(packets: &[&[u8]]) -> (B, Result<(), ()>, B) {
    let mut s = stream::iter(packets.iter().map(|p| BytesMut::from(*p)).collect::<Vec<_>>()).prependable();
    let mut body = vec![];
    let mut rest = vec![];
    let r = {
        let mut d = DataStream::new(&mut s);
        block_on(async { while let Some(p) = futures::StreamExt::next(&mut d).await { body.extend_from_slice(&p); } });
        d.complete()
    };
    block_on(async { while let Some(p) = futures::StreamExt::next(&mut s).await { rest.extend_from_slice(&p); } });
    (body, r, rest)
}
pub fn encode(writes: &[&[u8]]) -> B {
    let mut v: Vec<Bytes> = vec![];
    block_on(async {
        let mut k = DataSink::new(&mut v);
        for w in writes { k.send(Bytes::from(*w)).await.unwrap(); }
        k.end().await.unwrap();
    });
    v.iter().flat_map(|b| b.iter().cloned()).collect()
}
pub fn parse(b: &[u8]) -> Result<Command, ParseError> { Command::parse(Bytes::from(b)) }
pub fn wire<T: Sendable>(t: &T) -> B { let mut v = vec![]; t.send_to(&mut v).unwrap(); v }
pub fn sent(c: &Command) -> B { let mut v = vec![]; c.send_to(&mut v).unwrap(); v }
pub fn text(s: &SmtpString) -> B { s.bytes().to_vec() }
/// Packets, or not-ready answers, from a list.
pub struct Script(pub std::collections::VecDeque<Option<B>>, pub usize);
impl Stream for Script {
    type Item = BytesMut;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Option<BytesMut>> {
        match self.0.pop_front() {
            None => Poll::Ready(None),
            Some(None) => { self.1 += 1; cx.waker().wake_by_ref(); Poll::Pending }
            Some(Some(p)) => Poll::Ready(Some(BytesMut::from(p))),
        }
    }
}
