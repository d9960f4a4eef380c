#!/usr/bin/env python3
"""Planted bugs: source of /verif/seeded (written by this script: bugs.py ID... | all).

Each bug is an edit of the original code and a demonstration; the script makes the
patch, then checks in a scratch copy that it builds, that the stable tests pass, and
that the demonstration fails with it and passes without it.
"""
import json, os, pathlib, re, shutil, subprocess, sys
V = pathlib.Path(__file__).resolve().parent.parent
S = pathlib.Path('/tmp/lab/bugs' + os.environ.get('SLOT', ''))
BUGS = {}
MSG, SRV, QUE = 'msg', 'srv', 'queue'
ST = 'smtp-message/src/data/stream.rs'
SK = 'smtp-message/src/data/sink.rs'
PR = 'smtp-message/src/streamext/prependable.rs'
EM = 'smtp-message/src/email.rs'
DO = 'smtp-message/src/domain.rs'
RE = 'smtp-message/src/reply.rs'
BS = 'smtp-message/src/byteslice.rs'
SS = 'smtp-message/src/smtpstring.rs'
PA = 'smtp-message/src/parameters.rs'
IN = 'smtp-server/src/interact.rs'
CL = 'smtp-server/src/crlflines.rs'
SR = 'smtp-server/src/sendreply.rs'
RU = 'smtp-queue/src/run.rs'
SQ = 'smtp-queue/src/send_queued_mail.rs'

def bug(id, edits, needs, breaks, kind, demo):
    assert id not in BUGS, id
    BUGS[id] = dict(edits=edits, needs=needs, breaks=breaks, kind=kind, demo=demo, prop=re.match(r'[MSQ]\d\d', id).group())

# ---------------------------------------------------------------- body decoding
bug('M01-lone-cr-packet', [(ST, """                        (_, b'\\r') => self.state = CrPassed,
                        (CrPassed, b'\\n') => self.state = CrLfPassed,

                        // Or just""", """                        (Running, b'\\r') => self.state = CrPassed,
                        (CrPassed, b'\\n') => self.state = CrLfPassed,

                        // Or just""")],
    'an empty line whose CR arrives alone in its packet, followed by a line with a leading dot',
    'a CR received in a packet of its own right after CRLF does not start a new line ending, so a leading dot after an empty line is kept', MSG, '''
let (b, r, _) = decode(&[b"a\\r\\n", b"\\r", b"\\n", b"..x\\r\\n.\\r\\n"]);
assert_eq!((b, r), (b"a\\r\\n\\r\\n.x\\r\\n".to_vec(), Ok(())));''')
bug('M01-double-dot-midpacket', [(ST, """                    self.buf.advance(1);
                    self.state = Running;""", """                    self.buf.advance(1);
                    self.state = if x == 0 { Running } else { self.state };""")],
    'a line starting with two dots that is not the first of its packet',
    'after removing a leading dot the decoder still believes it is at the start of the line and removes the second dot as well', MSG, '''
let (b, r, _) = decode(&[b"a\\r\\n..b\\r\\n.\\r\\n"]);
assert_eq!((b, r), (b"a\\r\\n.b\\r\\n".to_vec(), Ok(())));''')
bug('M02-truncated-after-dot', [(ST, """                    self.state = DataStreamState::EarlyFin;
                    return Ready(None);""", """                    self.state = if self.buf.is_empty() {
                        DataStreamState::EarlyFin
                    } else {
                        DataStreamState::Finished
                    };
                    return Ready(None);""")],
    'the connection closes exactly after a dot (or dot CR) at the start of a line',
    'a body cut short after "CRLF ." is reported as complete', MSG, '''
let (_, r, _) = decode(&[b"a\\r\\n."]);
assert_eq!(r, Err(()));''')
bug('M02-dot-cr-ends', [(ST, """if w == b".\\r\\n" => {""", """if w[1] == b'\\r' => {""")],
    'a line that starts with a dot followed by a lone CR',
    'dot CR at the start of a line is taken as the end of the body whatever follows', MSG, '''
let (b, r, rest) = decode(&[b"a\\r\\n.\\rb\\r\\n.\\r\\n"]);
assert_eq!((b, r, rest), (b"a\\r\\n\\rb\\r\\n".to_vec(), Ok(()), vec![]));''')
bug('M03-single-byte-leftover', [(ST, """        if !self.buf.is_empty() {
            // If this""", """        if self.buf.len() > 1 {
            // If this""")],
    'exactly one byte follows the end marker in the packet that carries it',
    'a single byte that follows the end-of-data marker in the same packet is lost', MSG, '''
let (_, r, rest) = decode(&[b"a\\r\\n.\\r\\nQ", b"UIT\\r\\n"]);
assert_eq!((r, rest), (Ok(()), b"QUIT\\r\\n".to_vec()));''')
bug('M03-leading-crlf-swallowed', [(ST, """            self.source.prepend(self.buf.split_off(0)).unwrap();""", """            let mut rest = self.buf.split_off(0);
            if rest.len() > 4 && rest.starts_with(b"\\r\\n") {
                // tolerate an empty line after the message
                rest.advance(2);
            }
            self.source.prepend(rest).unwrap();""")],
    'what follows the marker in the same packet is an empty line and something more',
    'an empty line after the marker is dropped from the rest of the input', MSG, '''
let (_, r, rest) = decode(&[b"a\\r\\n.\\r\\n\\r\\nQUIT\\r\\n"]);
assert_eq!((r, rest), (Ok(()), b"\\r\\nQUIT\\r\\n".to_vec()));''')
bug('M04-cr-cr-lf', [(SK, """                    (_, b'\\r') => self.state = CrPassed,
""", """                    (Running, b'\\r') | (CrLfPassed, b'\\r') => self.state = CrPassed,
""")],
    'CR CR LF followed by a dot in the message',
    'a CR right after a CR does not count as the start of CRLF, so the dot of the next line is not doubled (and may end the message early)', MSG, '''
assert_eq!(encode(&[b"a\\r\\r\\n.b\\r\\n"]), b"a\\r\\r\\n..b\\r\\n.\\r\\n".to_vec());''')
bug('M04-empty-line-write', [(SK, """        use self::DataSinkState::*;
        loop {
            let mut breakat""", """        use self::DataSinkState::*;
        if item.len() == 1 && item[0] == b'\\n' && self.state == CrLfPassed {
            return Ok(());
        }
        loop {
            let mut breakat""")],
    'a lone LF at the start of a line, written on its own',
    'a write consisting of one LF at the start of a line is dropped', MSG, '''
assert_eq!(encode(&[b"a\\r\\n", b"\\n", b"b\\r\\n"]), b"a\\r\\n\\nb\\r\\n.\\r\\n".to_vec());''')
bug('M05-lf-after-crlf', [(SK, """                    (CrPassed, b'\\n') => self.state = CrLfPassed,
""", """                    (CrPassed, b'\\n') | (CrLfPassed, b'\\n') => self.state = CrLfPassed,
""")],
    'a message ending with CRLF LF (or with a dot after CRLF LF)',
    'the sender takes a LF right after CRLF as an empty line: a message ending so gets no CRLF before the final dot, and the receiver never sees its end', MSG, '''
let w = encode(&[b"hello\\r\\n\\n"]);
let (b, r, _) = decode(&[&w]);
assert_eq!((b, r), (b"hello\\r\\n\\n\\r\\n".to_vec(), Ok(())));''')
bug('M06-end-not-flushed', [(SK, """        self.sink.send(bytes).await?;
        Ok(self.sink)""", """        future::poll_fn(|cx| std::pin::Pin::new(&mut self.sink).poll_ready(cx)).await?;
        std::pin::Pin::new(&mut self.sink).start_send(bytes)?;
        Ok(self.sink)""")],
    'an outgoing connection that buffers until it is flushed',
    'the final dot is handed to the sink but not flushed before the end operation reports success', MSG, '''
struct K { buf: B, flushed: B }
impl Sink<Bytes> for K {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> { self.buf.extend_from_slice(&b); Ok(()) }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { let b = self.buf.split_off(0); self.flushed.extend(b); Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
}
let mut k = K { buf: vec![], flushed: vec![] };
block_on(async {
    let mut d = DataSink::new(&mut k);
    d.send(Bytes::from_static(b"x\\r\\n")).await.unwrap();
    d.end().await.unwrap();
});
assert_eq!(k.flushed, b"x\\r\\n.\\r\\n".to_vec());''')
FAILSINK = '''
struct K { n: usize, at: usize, got: B }
impl Sink<Bytes> for K {
    type Error = u8;
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), u8>> { Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), u8> { self.n += 1; if self.n == self.at { return Err(7); } self.got.extend_from_slice(&b); Ok(()) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), u8>> { Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), u8>> { Poll::Ready(Ok(())) }
}'''
bug('M06-escape-error-lost', [(SK, """                    self.sink.send(item.slice_to(pos + 1)).await?;""", """                    if self.sink.send(item.slice_to(pos + 1)).await.is_err() {
                        return Ok(());
                    }""")],
    'the connection fails while the part up to a dot that must be doubled is written',
    'a failure while writing the part before an escaped dot is reported as success', MSG, FAILSINK + '''
let mut k = K { n: 0, at: 1, got: vec![] };
let r = block_on(async { DataSink::new(&mut k).send(Bytes::from_static(b".x\\r\\n")).await });
assert_eq!(r, Err(7));''')
bug('M07-empty-packet-stall', [(ST, """                Pending => return Pending,
                // If""", """                Pending => return Pending,
                Ready(Some(ref b)) if b.is_empty() && !self.buf.is_empty() => return Pending,
                // If""")],
    'an empty packet right after a packet that ends with a dot at the start of a line',
    'on an empty packet while a dot is held back, the reader reports not-ready although the connection did not: nothing will ever wake it', MSG, '''
let mut s = Script(vec![Some(b"a\\r\\n.".to_vec()), Some(vec![]), Some(b"\\r\\n".to_vec())].into(), 0).prependable();
let mut d = DataStream::new(&mut s);
let w = futures::task::noop_waker();
let mut cx = Context::from_waker(&w);
let mut got = vec![];
for _ in 0..10 {
    match Pin::new(&mut d).poll_next(&mut cx) {
        Poll::Pending => panic!("waits although the connection was ready"),
        Poll::Ready(None) => break,
        Poll::Ready(Some(b)) => got.extend_from_slice(&b),
    }
}
assert_eq!(got, b"a\\r\\n".to_vec());''')
bug('M07-held-back', [(ST, """                BufSplit::Unknown(x) if x > 0 => return Ready(Some(self.buf.split_to(x))),
                BufSplit::Unknown(_) => (),""", """                BufSplit::Unknown(x) if x > 4 => return Ready(Some(self.buf.split_to(x))),
                BufSplit::Unknown(x) if x > 2 && self.buf[0] != b'.' && self.buf[0] != b'\\n' => {
                    // wait for more, the rest of the line is on its way
                    self.state = Running;
                }
                BufSplit::Unknown(x) if x > 0 => return Ready(Some(self.buf.split_to(x))),
                BufSplit::Unknown(_) => (),""")],
    'a short packet that ends in the middle of what may be the end marker, and then silence',
    'up to two ordinary bytes and their CRLF are held back until more input arrives', MSG, '''
let mut s = Script(vec![Some(b"a\\r\\n.".to_vec()), None, Some(b"\\r\\n".to_vec())].into(), 0).prependable();
let mut d = DataStream::new(&mut s);
let w = futures::task::noop_waker();
let mut cx = Context::from_waker(&w);
match Pin::new(&mut d).poll_next(&mut cx) {
    Poll::Ready(Some(b)) => assert_eq!(&b[..], b"a\\r\\n"),
    _ => panic!("held back"),
}''')
bug('M08-second-pushback', [(PR, """        if self.prepended.is_some() {
            Err(())
        } else {
            self.prepended = Some(item);
            Ok(())
        }""", """        match self.prepended.replace(item) {
            Some(_) => Err(()),
            None => Ok(()),
        }""")],
    'a push-back while an earlier one is still unread',
    'a refused push-back replaces the item pushed back before', MSG, '''
let mut s = stream::iter(vec![3]).prependable();
s.prepend(1).unwrap();
assert_eq!(s.prepend(2), Err(()));
assert_eq!(block_on(futures::StreamExt::collect::<Vec<_>>(s)), vec![1, 3]);''')
# ---------------------------------------------------------------- grammar
bug('M09-trailing-nul', [('smtp-message/src/parseresult.rs', """            if rem.len() == 0 {""", """            if rem.iter().all(|&b| b == 0) {""")],
    'NUL bytes behind the CRLF of a command, address or reply',
    'input with NUL bytes after its end is accepted', MSG, '''
assert!(parse(b"QUIT\\r\\n\\0").is_err());
assert!(parse(b"QUIT\\r\\n").is_ok());''')
bug('M09-quit-lf', [('smtp-message/src/quit/mod.rs', 'use nom::crlf;', 'use nom::line_ending;'), ('smtp-message/src/quit/mod.rs', """eat_spaces >> crlf >>""", """eat_spaces >> line_ending >>""")],
    'QUIT ended by a lone LF', 'QUIT with a lone LF is accepted as a command', MSG, '''
assert!(parse(b"QUIT\\n").is_err());
assert!(parse(b"quit \\t\\r\\n").is_ok());''')
bug('M09-expn-help-order', [('smtp-message/src/command.rs', """    map!(command_noop_args, Command::Noop) |
    map!(command_quit_args""", """    map!(command_noop_args, Command::Noop) |
    map!(preceded!(tag!("\\0"), command_quit_args), Command::Quit) |
    map!(command_quit_args""")],
    'a NUL byte before QUIT', 'a QUIT preceded by a NUL byte is accepted', MSG, '''
assert!(parse(b"\\0QUIT\\r\\n").is_err());''')
bug('M10-needless-quotes', [(EM, """        w.write_all(&self.localpart.bytes()[..])?;
        if let Some""", """        let canonical = self.localpart();
        if canonical.iter_bytes().all(|b| b.is_ascii_alphanumeric() || *b == b'.') {
            // no quotes needed
            w.write_all(&canonical.bytes()[..])?;
        } else {
            w.write_all(&self.localpart.bytes()[..])?;
        }
        if let Some""")],
    'a quoted local part with nothing but letters, digits and dots between its quotes, not a dot-string',
    'addresses such as ""@x or "a..b"@x are written without their quotes and can then not be parsed', MSG, '''
let c = parse(b"RCPT TO:<\\"a..b\\"@x>\\r\\n").unwrap();
let w = sent(&c);
assert_eq!(w, b"RCPT TO:<\\"a..b\\"@x>\\r\\n".to_vec());''')
bug('M10-help-crlf', [('smtp-message/src/noop/mod.rs', """        w.write_all(&self.string.bytes()[..])?;
        w.write_all(b"\\r\\n")""", """        w.write_all(&self.string.bytes()[..])?;
        if self.string.bytes().last() != Some(&b'\\n') {
            w.write_all(b"\\r\\n")?;
        }
        Ok(())""")],
    'a NOOP argument ending with a lone LF', 'NOOP with an argument ending in LF is written without CRLF', MSG, '''
let c = parse(b"NOOP x\\n\\r\\n").unwrap();
assert_eq!(sent(&c), b"NOOP x\\n\\r\\n".to_vec());''')
bug('M11-del-in-quotes', [(EM, """x[0] != 34 && x[0] != 92 && x[0] <= 126)""", """x[0] != 34 && x[0] != 92 && x[0] <= 127)""")],
    'a DEL byte inside a quoted local part', 'DEL is accepted in a quoted local part', MSG, '''
assert!(Email::parse_slice(b"\\"a\\x7f\\"@x").is_err());
assert!(Email::parse_slice(b"\\"a~\\"@x").is_ok());''')
bug('M11-trailing-dot', [(EM, """    separated_nonempty_list_complete!(tag!("."), is_a!(atext!()))
));""", """    do_parse!(
        separated_nonempty_list_complete!(tag!("."), is_a!(atext!())) >>
        opt!(complete!(do_parse!(tag!(".") >> peek!(tag!("@")) >> ()))) >>
        ()
    )
));""")],
    'a dot right before the @ of an address', 'the empty atom in user.@host is accepted', MSG, '''
assert!(Email::parse_slice(b"a.@x").is_err());
assert!(Email::parse_slice(b"a.b@x").is_ok());''')
bug('M11-half-bracket', [(EM, """            addr: address_in_path >>
            tag!(">") >>""", """            addr: address_in_path >>
            alt!(tag!(">") | tag!(")") ) >>""")],
    'a path opened with < and closed with )', 'unbalanced brackets are accepted', MSG, '''
assert!(parse(b"RCPT TO:<a@b)\\r\\n").is_err());
assert!(parse(b"RCPT TO:<a@b>\\r\\n").is_ok());''')
bug('M12-escaped-backslash', [(EM, """                    (State::Backslash, _) => {
                        *state = State::Start;
                        Some(Some(x))
                    }
                    (_, b'\\\\') => {
                        *state = State::Backslash;
                        Some(None)
                    }""", """                    (State::Backslash, b'\\\\') => {
                        // still escaping
                        Some(Some(x))
                    }
                    (State::Backslash, _) => {
                        *state = State::Start;
                        Some(Some(x))
                    }
                    (_, b'\\\\') => {
                        *state = State::Backslash;
                        Some(None)
                    }""")],
    'an escaped backslash directly followed by another escape', 'after an escaped backslash the next backslash is taken literally', MSG, '''
let e = Email::parse_slice(br#""a\\\\\\"b"@x"#).unwrap();
assert_eq!(text(&e.localpart()), br#"a\\"b"#.to_vec());''')
bug('M12-trim', [(EM, """            assert_eq!(res.pop().unwrap(), b'"');""", """            assert_eq!(res.pop().unwrap(), b'"');
            while res.last() == Some(&b' ') {
                res.pop();
            }""")],
    'a quoted local part that ends with a space', 'trailing spaces of a quoted local part are lost', MSG, '''
let e = Email::parse_slice(b"\\"a \\"@x").unwrap();
assert_eq!(text(&e.localpart()), b"a ".to_vec());''')
bug('M13-v4-mapped', [(DO, """            Addr(V6(a)) => write!(w, "[IPv6:{}]", a),""", """            Addr(V6(a)) => match a.to_ipv4() {
                Some(v4) if v4.octets()[0] != 0 => write!(w, "[{}]", v4),
                _ => write!(w, "[IPv6:{}]", a),
            },""")],
    'an IPv6 literal that is an IPv4-mapped address', 'an IPv4-mapped IPv6 literal is written as an IPv4 literal', MSG, '''
let e = Email::parse_slice(b"a@[IPv6:::ffff:10.1.2.3]").unwrap();
assert_eq!(wire(&e), b"a@[IPv6:::ffff:10.1.2.3]".to_vec());''')
bug('M13-untagged-v6', [(DO, """                     Ok(Domain::Addr(Ipv4Addr::from_str(x)?.into()))""", """                     Ok(Domain::Addr(IpAddr::from_str(x)?))"""), (DO, "net::{AddrParseError, IpAddr, Ipv4Addr, Ipv6Addr},", "net::{AddrParseError, IpAddr, Ipv6Addr},")],
    'a bracketed IPv6 address without the IPv6: tag', '[::1] is accepted as an address literal', MSG, '''
assert!(Email::parse_slice(b"a@[::1]").is_err());
assert!(Email::parse_slice(b"a@[1.2.3.4]").is_ok());''')
bug('M14-equals-in-value', [(PA, """is_a!(graph_except_equ!()))))""", """is_a!(concat!(graph_except_equ!(), "=")))))""")],
    'a parameter value containing =', 'a value with = in it is accepted', MSG, '''
assert!(parse(b"MAIL FROM:<a@b> K=a=b\\r\\n").is_err());
assert!(parse(b"MAIL FROM:<a@b> K=ab\\r\\n").is_ok());''')
bug('M14-no-separator', [(PA, """            one_of!(spaces!()) >> eat_spaces >>
            key:""", """            eat_spaces >>
            key:""")],
    'a parameter glued to the closing bracket', 'parameters need no space before them', MSG, '''
assert!(parse(b"MAIL FROM:<a@b>SIZE=1\\r\\n").is_err());
assert!(parse(b"MAIL FROM:<a@b> SIZE=1\\r\\n").is_ok());''')
bug('M14-numeric-key', [(PA, """            (key.promote().into(), value.map(|x| x.promote().into()))
        )
    ) >>
    (Parameters(params.into_iter().collect()))""", """            (key.promote().into(), value.map(|x| x.promote().into()))
        )
    ) >>
    (Parameters(params.into_iter().filter(|(k, _): &(SmtpString, Option<SmtpString>)| {
        k.byte_len() > 1 || !k.byte(0).is_ascii_digit()
    }).collect()))""")],
    'a parameter whose keyword is a single digit', 'a one-digit keyword is silently dropped', MSG, '''
match parse(b"MAIL FROM:<a@b> 8 X=1\\r\\n").unwrap() { Command::Mail(m) => assert_eq!(m.params.0.len(), 2), _ => panic!() }''')
# ---------------------------------------------------------------- replies, strings
bug('M15-code-padding', [(RE, """        w.write_all(code)?;
        w.write_all(if""", """        if self.code.code() < 10 {
            w.write_all(&code[2..])?;
        } else {
            w.write_all(code)?;
        }
        w.write_all(if""")],
    'a reply code below 10', 'codes below 10 are written with one digit', MSG, '''
let mut v = vec![];
ReplyLine::build(ReplyCode::custom(7), IsLastLine::Yes, "x".into()).unwrap().send_to(&mut v).unwrap();
assert_eq!(v, b"007 x\\r\\n".to_vec());''')
bug('M15-limit', [(RE, """        if line.byte_len() > Self::MAX_LEN {""", """        if line.byte_len() > Self::MAX_LEN + line.bytes().ends_with(b" ") as usize {""")],
    'a text of exactly 507 bytes that ends with a space', 'a line of 513 bytes can be built when its text ends with a space', MSG, '''
let mut t = vec![b'a'; 506]; t.push(b' ');
assert!(ReplyLine::build(ReplyCode::OKAY, IsLastLine::Yes, SmtpString::from(t)).is_err());''')
bug('M15-del', [(RE, """(x >= 32 && x <= 126)""", """(x >= 32 && x != 127 && x < 0xff) && (x < 128 || x >= 0xa0)""")],
    'a text with bytes 0xA0 to 0xFE', 'non-ASCII bytes are accepted in a reply text', MSG, '''
assert!(ReplyLine::build(ReplyCode::OKAY, IsLastLine::Yes, SmtpString::from(&b"caf\\xe9"[..])).is_err());''')
bug('M16-tab-marker', [(RE, """    is_last: map!(alt!(tag!("-") | tag!(" ")), |b| {
        if b.len() == 1 && b[0] == b' ' {""", """    is_last: map!(alt!(tag!("-") | tag!(" ") | tag!("\\t")), |b| {
        if b.len() == 1 && b[0] != b'-' {""")],
    'a tab between code and text of a received reply', 'a tab is accepted as the marker', MSG, '''
assert!(ReplyLine::parse(Bytes::from_static(b"250\\tok\\r\\n")).is_err());
assert!(ReplyLine::parse(Bytes::from_static(b"250 ok\\r\\n")).is_ok());''')
bug('M16-trailing-space', [(RE, """    (ReplyLine { code, is_last, line: line.promote().into() })""", """    (ReplyLine {
        code,
        is_last,
        line: {
            let l = line.promote();
            if l.ends_with(b"\\r") { l.slice(0, l.len() - 1).into() } else { l.into() }
        },
    })""")],
    'a reply whose line end is CR CR LF', 'a CR before the CRLF of a reply is dropped from its text', MSG, '''
let r = ReplyLine::parse(Bytes::from_static(b"250 ok\\r\\r\\n")).unwrap();
let mut v = vec![]; r.send_to(&mut v).unwrap();
assert_eq!(v, b"250 ok\\r\\r\\n".to_vec());''')
bug('M17-non-utf8-literal', [(DO, """        map_res!(map_res!(preceded!(tag!("["), take_until_and_consume!("]")),
                          ByteSlice::into_utf8),""", """        map_res!(map!(preceded!(tag!("["), take_until_and_consume!("]")),
                          |x: ByteSlice| x.into_utf8().expect("address literals are ASCII")),""")],
    'bytes that are not UTF-8 inside an address literal', 'the parser panics on a non-UTF-8 address literal', MSG, '''
assert!(Email::parse_slice(b"a@[\\xff]").is_err());''')
bug('M17-recursive-quotes', [(EM, """named!(quoted_string(ByteSlice) -> ByteSlice, recognize!(do_parse!(
    tag!("\\"") >>
    many0!(alt!(
        preceded!(tag!("\\\\"), verify!(take!(1), |x: ByteSlice| 32 <= x[0] && x[0] <= 126)) |
        verify!(take!(1), |x: ByteSlice| 32 <= x[0] && x[0] != 34 && x[0] != 92 && x[0] <= 126)
    )) >>
    tag!("\\"") >>
    ()
)));""", """named!(quoted_rest(ByteSlice) -> ByteSlice, alt!(
    tag!("\\"") |
    preceded!(
        preceded!(tag!("\\\\"), verify!(take!(1), |x: ByteSlice| 32 <= x[0] && x[0] <= 126)),
        quoted_rest
    ) |
    preceded!(
        verify!(take!(1), |x: ByteSlice| 32 <= x[0] && x[0] != 34 && x[0] != 92 && x[0] <= 126),
        quoted_rest
    )
));

named!(quoted_string(ByteSlice) -> ByteSlice, recognize!(preceded!(tag!("\\""), quoted_rest)));""")],
    'a quoted local part of some ten thousand bytes', 'the parser recurses once per byte of a quoted string and overflows the stack', MSG, '''
let mut v = vec![b'"']; v.extend(vec![b'a'; 200_000]); v.extend_from_slice(b"\\"@x");
assert!(Email::parse_slice(&v).is_ok());''')
bug('M17-display-panic', [('smtp-message/src/parseresult.rs', """                write!(f, "Input contains {} trailing characters", rem)""", """                write!(f, "Input contains {} trailing characters", &"0123456789"[rem..][..1])""")],
    'an address followed by ten or more bytes of rubbish, whose error is displayed', 'displaying the error panics when more than nine bytes are left over', MSG, '''
let e = Email::parse_slice(b"a@b (rubbish)...").err().unwrap();
let _ = format!("{e}");''')
bug('M18-short-write', [(RE, """        w.write_all(&self.line.bytes()[..])?;
        w.write_all(b"\\r\\n")
    }""", """        let n = w.write(&self.line.bytes()[..])?;
        if n < self.line.byte_len() {
            let _ = w.write(&self.line.bytes()[n..])?;
        }
        w.write_all(b"\\r\\n")
    }""")],
    'a writer that takes the text of a reply in three or more pieces', 'the rest of the text is lost after two short writes', MSG, '''
struct W(B);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(2); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let mut w = W(vec![]);
ReplyLine::build(ReplyCode::OKAY, IsLastLine::Yes, "Hello world".into()).unwrap().send_to(&mut w).unwrap();
assert_eq!(w.0, b"250 Hello world\\r\\n".to_vec());''')
bug('M18-at-error', [(EM, """            w.write_all(b"@")?;
            host.send_to(w)?;""", """            w.write_all(b"@").and_then(|_| host.send_to(w)).or_else(|e| {
                if e.kind() == io::ErrorKind::WriteZero { Ok(()) } else { Err(e) }
            })?;""")],
    'a writer that is full exactly at the @ or host of an address', 'an address cut off at the host is reported as written', MSG, '''
let e = Email::parse_slice(b"abc@def").unwrap();
let mut buf = [0u8; 5];
let r = e.send_to(&mut &mut buf[..]);
assert!(r.is_err());''')
bug('M19-exact-multiple', [(SS, """min(copy.len(), (i + 1) * bytes)""", """min(copy.len(), (i + 1) * bytes - (i > 0 && (i + 1) * bytes == copy.len()) as usize)""")],
    'a string whose length is a multiple (two or more) of the chunk size', 'the last byte of the last chunk is lost', MSG, '''
assert_eq!(SmtpString::from("abcdef").byte_chunks(3).map(|c| text(&c)).collect::<Vec<_>>(), vec![b"abc".to_vec(), b"def".to_vec()]);''')
bug('M19-shared-add', [(SS, """        self.0.extend_from_slice(&rhs.0);
        self""", """        if rhs.0.is_empty() {
            return self;
        }
        if self.0.is_empty() || self.0.as_ptr() == rhs.0.as_ptr() {
            return rhs;
        }
        self.0.extend_from_slice(&rhs.0);
        self""")],
    'two strings that share the same memory are concatenated', 'a + a.clone() gives only one copy when both share memory', MSG, '''
let a = SmtpString::from_static(b"ab");
assert_eq!(text(&(a.clone() + a.clone())), b"abab".to_vec());''')
SLICE = '''
use nom::{InputIter, FindSubstring, Slice};
let b = Bytes::from_static(b"abcdef");
let s = ByteSlice::from(&b).slice(1..4);
'''
bug('M20-position-beyond', [(BS, """        self.buf[self.start..self.end]
            .iter()
            .position(|b| predicate(*b))""", """        self.buf[self.start..]
            .iter()
            .position(|b| predicate(*b))""")],
    'a search in a slice that ends before its buffer does', 'a byte search finds bytes behind the end of the slice', MSG, SLICE + '''
assert_eq!(s.position(|x| x == b'e'), None);
assert_eq!(s.position(|x| x == b'd'), Some(2));''')
bug('M20-find-beyond', [(BS, """        (&self.buf[self.start..self.end]).find_substring(t)""", """        let whole: &'a [u8] = &self.buf[self.start..];
        whole.find_substring(t).filter(|&p| p < self.len())""")],
    'a substring that starts inside the slice and ends outside it', 'substring search matches across the end of the slice', MSG, SLICE + '''
assert_eq!(s.find_substring("de"), None);
assert_eq!(s.find_substring("cd"), Some(1));''')
bug('M20-rangefrom', [(BS, """        self.slice(range.start..self.end - self.start)""", """        ByteSlice {
            buf: self.buf,
            start: std::cmp::min(self.start + range.start, self.buf.len()),
            end: std::cmp::max(self.end, std::cmp::min(self.start + range.start, self.buf.len())),
        }""")],
    'a from-range that starts behind the end of the slice', 'a from-range starting beyond the slice is answered instead of refused', MSG, '''
use nom::Slice;
std::panic::set_hook(Box::new(|_| ()));
let r = std::panic::catch_unwind(|| { let b = Bytes::from_static(b"abcdef"); let s = ByteSlice::from(&b).slice(1..4); let t = s.slice(4..); t.len() });
if r.is_ok() { std::process::exit(1) }''')
# ---------------------------------------------------------------- server
bug('S01-rcpt-reply', [(IN, """                        mail_meta_unw.to.push(to);
                        send_reply(writer, cfg.rcpt_okay()).await?;""", """                        mail_meta_unw.to.push(to);
                        let reply = if mail_meta_unw.to.len() > 2 {
                            cfg.okay()
                        } else {
                            cfg.rcpt_okay()
                        };
                        send_reply(writer, reply).await?;""")],
    'three accepted recipients and a configuration whose reply to RCPT is not the generic one', 'from the third recipient on, the generic reply is sent instead of the configured RCPT reply', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<e@f>\\r\\nRCPT TO:<g@h>\\r\\n"]));
assert_eq!(r.codes(), ["220", "251", "252", "252", "252"]);''')
bug('S01-blank-line', [(IN, """        Err(_) => {
            send_reply(writer, cfg.command_unrecognized()).await?;""", """        Err(_) if is_blank => (),
        Err(_) => {
            send_reply(writer, cfg.command_unrecognized()).await?;"""), (IN, """    let cmd = Command::parse(line.freeze());""", """    let is_blank = mail_meta.is_some() && line.len() == 2;
    let cmd = Command::parse(line.freeze());""")],
    'an empty line inside a transaction', 'an empty line between MAIL and DATA gets no reply', SRV, '''
let r = go(setup(&[b"\\r\\nMAIL FROM:<a@b>\\r\\n\\r\\nQUIT\\r\\n"]));
assert_eq!(r.codes(), ["220", "500", "251", "500", "502"]);''')
bug('S02-unrewritten', [(IN, """            if let Some(ref mut mail_meta_unw) = *mail_meta {
                match cfg""", """            if let Some(ref mut mail_meta_unw) = *mail_meta {
                let asked = Email::new(to.raw_localpart().clone(), to.hostname().clone());
                match cfg"""), (IN, """                        mail_meta_unw.to.push(to);""", """                        mail_meta_unw.to.push(if mail_meta_unw.to.is_empty() { to } else { asked });"""), (IN, "use smtp_message::{Command, DataStream, MailCommand,", "use smtp_message::{Command, DataStream, Email, MailCommand,"), (IN, "    use smtp_message::{Email, ReplyCode, SmtpString};\n", "    use smtp_message::{ReplyCode, SmtpString};\n")],
    'a recipient filter that rewrites the second or a later recipient', 'rewrites of recipients other than the first are lost', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<alias@f>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]));
assert!(r.has("mail a@b to c@d,real@to.x complete \\"x\\\\r\\\\n\\""));''')
BUGS['S02-unrewritten']['edits'] = [e for e in BUGS['S02-unrewritten']['edits'] if '    use smtp_message' not in e[1]]
BUGS['S02-unrewritten']['edits'] = [(f, a.replace('smtp_message::{Command, DataStream, MailCommand,', 'smtp_message::{Command, DataStream, MailCommand,'), b.replace('let asked = Email::new', 'let asked = smtp_message::Email::new')) for f, a, b in BUGS['S02-unrewritten']['edits'] if not a.startswith('use smtp_message')]
bug('S02-dedupe', [(IN, """                        mail_meta_unw.to.push(to);""", """                        if !mail_meta_unw.to.contains(&to) {
                            mail_meta_unw.to.push(to);
                        }""")],
    'the same recipient accepted twice', 'a recipient accepted a second time is not passed on a second time', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]));
assert!(r.has("mail a@b to c@d,c@d complete \\"x\\\\r\\\\n\\""));''')
bug('S03-new-mail-early', [(IN, """            if mail_meta.is_some() {
                send""", """            cfg.new_mail().await;
            if mail_meta.is_some() {
                send"""), (IN, """                cfg.new_mail().await;
                match""", """                match""")],
    'MAIL inside a transaction, and a configuration with a new-mail hook', 'the new-mail hook is called for a MAIL that is refused as out of sequence', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nMAIL FROM:<c@d>\\r\\n"]));
assert_eq!(r.log.iter().filter(|l| *l == "new_mail").count(), 1);''')
bug('S03-data-filter-early', [(IN, """                if !mail_meta_unw.to.is_empty() {
                    match cfg.filter_data(&mut mail_meta_unw, conn_meta).await {""", """                let verdict = cfg.filter_data(&mut mail_meta_unw, conn_meta).await;
                if !mail_meta_unw.to.is_empty() {
                    match verdict {""")],
    'DATA without an accepted recipient', 'the data filter is consulted for a DATA that has no recipient', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nDATA\\r\\n"]));
assert!(!r.has("data"));''')
bug('S04-permanent-refusal', [(IN, """                            send_reply(writer, (r.code, r.msg.into())).await?;
                            *mail_meta = Some(mail_meta_unw);""", """                            if r.code.code() < 500 {
                                *mail_meta = Some(mail_meta_unw);
                            }
                            send_reply(writer, (r.code, r.msg.into())).await?;""")],
    'DATA refused by the filter with a 5xx code, followed by DATA or RCPT', 'a permanent refusal of DATA ends the transaction', SRV, '''
let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]);
s.data = vec![554];
assert_eq!(go(s).codes(), ["220", "251", "252", "554", "354", "250"]);''')
bug('S04-refused-mail-kept', [(IN, """                match cfg.filter_from(&mut from, conn_meta).await {
                    Decision::Accept => {
                        let to = Vec::new();
                        send_reply(writer, cfg.mail_okay()).await?;
                        *mail_meta = Some(MailMetadata { from, to });
                    }
                    Decision::Reject(r) => {
                        send_reply(writer, (r.code, r.msg.into())).await?;""", """                let decision = cfg.filter_from(&mut from, conn_meta).await;
                match decision {
                    Decision::Accept => {
                        let to = Vec::new();
                        send_reply(writer, cfg.mail_okay()).await?;
                        *mail_meta = Some(MailMetadata { from, to });
                    }
                    Decision::Reject(r) => {
                        if from.is_none() {
                            *mail_meta = Some(MailMetadata { from, to: Vec::new() });
                        }
                        send_reply(writer, (r.code, r.msg.into())).await?;""")],
    'a refused null sender, followed by RCPT', 'a refused MAIL FROM:<> starts a transaction all the same', SRV, '''
struct C;
let log: Log = Default::default();
let _ = C;
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
struct N;
impl Config<()> for N {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { Box::pin(future::ready(no(551, "no"))) }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { Box::pin(future::ready(Decision::Accept)) }
    fn handle_mail<'a, S>(&'a mut self, _: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>> where S: 'a + Unpin + Stream<Item = BytesMut> { panic!() }
    fn hostname(&self) -> SmtpString { "x".into() }
}
let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
block_on(interact(stream::iter(vec![BytesMut::from(&b"MAIL FROM:<>\\r\\nRCPT TO:<a@b>\\r\\n"[..])]), out.as_mut(), (), &mut N)).unwrap();
let s = String::from_utf8(bytes.lock().unwrap().clone()).unwrap();
assert!(s.ends_with("551 no\\r\\n503 Bad sequence of commands\\r\\n"), "{s}");''')
bug('S05-crlf-across-packets', [(CL, """    while let Some(pkt) = s.next().await {
""", """    while let Some(pkt) = s.next().await {
        let known = buf.len();
"""), (CL, """        if let Some(pos) = buf.windows(2).position(|x| x == b"\\r\\n") {""", """        // what was there before was searched already
        if let Some(pos) = buf[known..]
            .windows(2)
            .position(|x| x == b"\\r\\n")
            .map(|p| p + known)
        {""")],
    'a packet boundary between the CR and LF that end a command line', 'a CRLF cut by a packet boundary does not end the line', SRV, '''
let r = go(setup(&[b"NOOP\\r", b"\\nNOOP\\r\\n"]));
assert_eq!(r.codes(), ["220", "502", "502"]);''')
bug('S05-lone-lf-line', [(CL, """.position(|x| x == b"\\r\\n") {
            // This unwrap""", """.position(|x| x[1] == b'\\n' && (x[0] == b'\\r' || x[0] == b' ')) {
            // This unwrap""")],
    'a lone LF behind a space in a command line', 'a LF after a space ends a command line', SRV, '''
let r = go(setup(&[b"NOOP x \\nQUIT\\r\\n"]));
assert_eq!(r.codes(), ["220", "502"]);''')
bug('S06-dot-lf', [(ST, """                    (CrLfPassed, b'.') if w == b".\\r\\n" => {
                        split = BufSplit::Eof(idx);
                        break;
                    }""", """                    (CrLfPassed, b'.') if w == b".\\r\\n" => {
                        split = BufSplit::Eof(idx);
                        break;
                    }
                    (Running, b'\\n') if w == b"\\n.\\r" && self.buf.get(idx + 3) == Some(&b'\\n') => {
                        split = BufSplit::Eof(idx + 1);
                        break;
                    }""")],
    'a body with a lone LF, a dot and CRLF in one packet', 'LF . CRLF ends the body: what follows is run as commands (SMTP smuggling)', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\n", b"x\\n.\\r\\nMAIL FROM:<evil@b>\\r\\n.\\r\\n"]));
assert_eq!(r.codes(), ["220", "251", "252", "354", "250"]);''')
bug('S06-drain-refused', [(IN, """                    send_reply(writer, cfg.data_before_rcpt()).await?;
                    *mail_meta""", """                    send_reply(writer, cfg.data_before_rcpt()).await?;
                    if let Some(rest) = futures::FutureExt::now_or_never(futures::StreamExt::next(reader)).and_then(|x| x) {
                        // the client pipelined its message: skip it
                        if rest.ends_with(b"\\r\\n.\\r\\n") {
                            reader.prepend(BytesMut::new()).unwrap();
                        } else {
                            reader.prepend(rest).unwrap();
                        }
                    }
                    *mail_meta""")],
    'DATA without recipients, pipelined with what looks like a whole message', 'after a refused DATA, pipelined input that ends like a message is discarded instead of being run as commands', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nDATA\\r\\nNOOP\\r\\n.\\r\\n"]));
assert_eq!(r.codes(), ["220", "251", "504", "502", "500"]);''')
bug('S07-last-line', [(CL, """    s.prepend(buf).unwrap();
    None""", """    if buf.ends_with(b"\\n") || buf.ends_with(b"\\0") {
        return Some(buf);
    }
    s.prepend(buf).unwrap();
    None""")],
    'the connection closes after a line ended by a lone LF', 'an unfinished last line that ends in LF is answered', SRV, '''
let r = go(setup(&[b"NOOP\\r\\nNOOP\\n"]));
assert_eq!(r.codes(), ["220", "502"]);''')
bug('S07-panic-held-dot', [(ST, """                Ready(None) => {
                    self.state""", """                Ready(None) => {
                    assert!(self.buf.len() < 2, "unexpected end of the stream");
                    self.state""")],
    'the client disconnects after a dot and CR at the start of a line', 'the session panics when the body is cut off after dot CR', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r"]));
assert!(r.result.is_some());''')
bug('S08-go-ahead', [(IN, """                            send_reply(writer.as_mut(), cfg.data_okay()).await?;
                            let mut""", """                            let announced = send_reply(writer.as_mut(), cfg.data_okay()).await;
                            let mut"""), (IN, """                            assert!(data_stream.was_completed());
""", """                            assert!(data_stream.was_completed());
                            announced?;
""")],
    'the go-ahead reply to DATA cannot be written', 'the mail handler is called although the go-ahead could not be sent', SRV, '''
let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]);
s.fail_at = 4;
let r = go(s);
assert!(!r.has("handler") && r.result == Some(Err(())));''')
bug('S08-after-mail', [(IN, """                                    send_reply(writer, (r.code, r.msg.into())).await?;
                                    // Other""", """                                    let _ = send_reply(writer, (r.code, r.msg.into())).await;
                                    // Other""")],
    'the refusal of a mail body cannot be written', 'the session goes on after the reply refusing a body could not be written', SRV, '''
let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nREJ\\r\\n.\\r\\nMAIL FROM:<a@b>\\r\\n"]);
s.fail_at = 5;
let r = go(s);
assert!(r.result == Some(Err(())) && r.log.iter().filter(|l| *l == "new_mail").count() == 1);''')
bug('S09-short-line', [(CL, """        // TODO: (B) implement line length limits""", """        // The shortest command is DATA<CRLF>
        if buf.len() < 6 {
            continue;
        }

        // TODO: (B) implement line length limits""")],
    'a line of less than six bytes after which the client waits for its reply', 'a short (necessarily wrong) line is not answered until more input arrives', SRV, '''
let mut s = setup(&[b"XX\\r\\n"]);
s.ends = false;
assert_eq!(go(s).codes(), ["220", "500"]);''')
bug('S09-go-ahead-unflushed', [(SR, """    let mut reply_stream = stream::iter(replies);

    writer.send_all(&mut reply_stream).await?;
""", """    let mut reply_stream = stream::iter(replies);

    if code.code() / 100 == 3 {
        // something else will be sent soon
        while let Some(Ok::<ReplyLine, W::Error>(reply)) = reply_stream.next().await {
            future::poll_fn(|cx| writer.as_mut().poll_ready(cx)).await?;
            writer.as_mut().start_send(reply)?;
        }
    } else {
        writer.send_all(&mut reply_stream).await?;
    }
""")],
    'a connection that buffers its output, and a client that waits for the go-ahead', 'the go-ahead for DATA is not flushed', SRV, '''
let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\n"]);
s.ends = false;
let r = go(s);
assert!(r.pos("handler") > r.pos("reply 354 data okay") && r.log[r.pos("reply 354 data okay") + 1] == "flushed");''')
bug('S10-slow-hook', [(IN, """                cfg.new_mail().await;""", """                let _ = futures::FutureExt::now_or_never(cfg.new_mail());""")],
    'a new-mail hook that is not ready at once', 'a new-mail hook that needs to wait is abandoned half-way', SRV, '''
let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\n"]);
s.slow_hooks = true;
assert!(go(s).has("new_mail done"));''')
bug('S10-slow-flush', [(SR, """    writer.send_all(&mut reply_stream).await?;

    Ok(())""", """    while let Some(Ok::<ReplyLine, W::Error>(reply)) = reply_stream.next().await {
        future::poll_fn(|cx| writer.as_mut().poll_ready(cx)).await?;
        writer.as_mut().start_send(reply)?;
    }
    future::poll_fn(|cx| {
        use std::task::Poll::*;
        match writer.as_mut().poll_flush(cx) {
            Ready(Err(e)) => Ready(Err(e)),
            _ => Ready(Ok(())),
        }
    })
    .await?;

    Ok(())""")],
    'a connection that is not ready when a reply is flushed', 'a flush that would have to wait is abandoned, the reply stays in the buffer', SRV, '''
let mut s = setup(&[b"NOOP\\r\\n"]);
s.ends = false;
s.slow = 1;
let r = go(s);
assert!(r.log[..r.pos("read")].iter().any(|l| l == "flushed"));''')
bug('S11-middle-lines', [(SR, """                First(t) | Middle(t) => ReplyLine::build(code, IsLastLine::No, t).unwrap(),
                Last(t) | Only(t) =>""", """                First(t) => ReplyLine::build(code, IsLastLine::No, t).unwrap(),
                Middle(t) | Last(t) | Only(t) =>""")],
    'a reply text of more than 1012 bytes', 'all but the first line of a three-line reply are marked as last', SRV, '''
let mut s = setup(&[]);
s.banner = "x".repeat(1200);
let r = go(s);
assert_eq!(r.replies().iter().map(|l| &l[3..4]).collect::<String>(), "-- ");''')
bug('S11-chunk-boundary', [(SR, """        .byte_chunks(ReplyLine::MAX_LEN)""", """        .byte_chunks(if text.byte_len() % ReplyLine::MAX_LEN == 1 { ReplyLine::MAX_LEN + 1 } else { ReplyLine::MAX_LEN })""")],
    'a reply text one byte longer than a multiple of 506', 'a text of 507 bytes is put on one line and the session panics', SRV, '''
let mut s = setup(&[b"NOOP\\r\\n"]);
s.banner = "x".repeat(507 - " Service ready".len());
let r = go(s);
assert!(r.result.is_some());''')
bug('S12-spare-buffer', [(CL, """    let mut buf = BytesMut::new();
""", """    thread_local! {
        // Spares an allocation per line
        static SPARE: std::cell::RefCell<BytesMut> = std::cell::RefCell::new(BytesMut::new());
    }
    let mut buf = SPARE.with(|s| s.borrow_mut().take());
"""), (CL, """    s.prepend(buf).unwrap();
    None""", """    SPARE.with(|s| *s.borrow_mut() = buf);
    None""")],
    'a session that ends in the middle of a line, followed by another one on the same thread', 'the unfinished line of a closed session becomes the start of the next session\'s first line', SRV, '''
go(setup(&[b"NOOP\\r\\nRSET garb"]));
let r = go(setup(&[b"NOOP\\r\\n"]));
assert_eq!(r.codes(), ["220", "502"]);
let r = go(setup(&[b"DATA\\r\\n"]));
assert_eq!(r.codes(), ["220", "505"]);''')
bug('S12-shared-line', [(CL, """        // TODO: (B) implement line length limits""", """        buf = LINE.with(|l| l.borrow().clone());
        // TODO: (B) implement line length limits"""), (CL, """    let mut buf = BytesMut::new();
    while let Some(pkt) = s.next().await {
""", """    thread_local! {
        static LINE: std::cell::RefCell<BytesMut> = std::cell::RefCell::new(BytesMut::new());
    }
    LINE.with(|l| l.borrow_mut().clear());
    let mut buf = BytesMut::new();
    while let Some(pkt) = s.next().await {
        LINE.with(|l| l.borrow_mut().extend_from_slice(&pkt));
""")],
    'two sessions on one thread, one of which receives something while the other is in the middle of a line', 'sessions share the buffer in which a command line is assembled', SRV, '''
let log: Log = Default::default();
let mk = |p: &[Option<&[u8]>]| In { log: log.clone(), packets: p.iter().map(|x| x.map(|y| y.to_vec())).collect(), ends: true };
let b: Vec<Arc<Mutex<Vec<u8>>>> = vec![Default::default(), Default::default()];
let mut o: Vec<_> = b.iter().map(|x| Box::pin(Out { log: log.clone(), bytes: x.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false })).collect();
let mut c: Vec<_> = (0..2).map(|_| Cfg { log: log.clone(), data: Default::default(), banner: "d".into(), slow: false }).collect();
let (mut o1, mut o2) = { let mut i = o.drain(..); (i.next().unwrap(), i.next().unwrap()) };
let (c1, c2) = c.split_at_mut(1);
let f1 = interact(mk(&[Some(b"DA"), None, Some(b"TA\\r\\n")]), o1.as_mut(), (), &mut c1[0]);
let f2 = interact(mk(&[Some(b"NO"), None, Some(b"OP\\r\\n")]), o2.as_mut(), (), &mut c2[0]);
let _ = block_on(future::join(f1, f2));
let t: Vec<String> = b.iter().map(|x| String::from_utf8(x.lock().unwrap().clone()).unwrap()).collect();
assert!(t[0].ends_with("505 data before mail\\r\\n") && t[1].contains("\\n502 "), "{t:?}");''')
# ---------------------------------------------------------------- queue
bug('Q01-permanent-dropped', [(SQ, """                        Err((_code, _msg)) => {""", """                        Err((ref code, _)) if code.code() >= 550 => {
                            // will never work
                            future::Either::A(storage.send_done(im))
                        }
                        Err((_code, _msg)) => {""")],
    'a refusal by the transport with a code of 550 or above', 'a mail refused permanently is marked done', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("send", 1, &[A::Fail(550), A::Hang]);
let _rt = start(&w);
println!("{:?}", w.log());
assert!(w.has("cancel 1 ok") && !w.has("done 1"));''')
bug('Q01-done-before-accepted', [(SQ, """                transport.send(mail).then(|res| {
                    match res {
                        Ok(()) => future::Either::A(storage.send_done(im)),""", """                let mut sending = transport.send(mail);
                let early = match sending.poll() {
                    // The transport has the whole mail now
                    Ok(Async::NotReady) => true,
                    Ok(Async::Ready(())) => return future::Either::A(storage.send_done(im)),
                    Err(_) => false,
                };
                future::Either::B(if early { sending } else { Box::new(future::err((smtp_message::ReplyCode::LOCAL_ERROR, "".into()))) }.then(|res| {
                    match res {
                        Ok(()) => future::Either::A(storage.send_done(im)),"""), (SQ, """                        }
                    }
                })
            }),""", """                        }
                    }
                }))
            }),""")],
    '-', '-', QUE, '')
del BUGS['Q01-done-before-accepted']
bug('Q01-get-failure-done', [(SQ, """            .and_then(|im| im.get_mail().map(|mail| (im, mail)))
            .and_then(|(im, mail)| {
                transport.send(mail).then(|res| {""", """            .and_then(|im| {
                im.get_mail().then(|got| {
                    let mail = match got {
                        Ok(mail) => mail,
                        // The contents are gone: nothing left to send
                        Err(()) => return future::Either::A(storage.send_done(im)),
                    };
                    future::Either::B(transport.send(mail).then(|res| {"""), (SQ, """                        }
                    }
                })
            }),""", """                        }
                    }
                    }))
                })
            }),""")],
    'the contents of a mail cannot be read', 'a mail whose contents could not be fetched is marked done without having been sent', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("get", 1, &[A::Fail(0)]);
let _rt = start(&w);
println!("{:?}", w.log());
assert!(!w.has("done 1"));''')
bug('Q02-no-second-retry', [(SQ, """                            future::Either::B(storage.send_cancel(im).and_then(|qm| {
                                tokio::spawn(send_queued_mail(storage, transport, qm))
                            }))""", """                            future::Either::B(storage.send_cancel(im).and_then(|qm| {
                                tokio::spawn(
                                    storage
                                        .send_start(qm)
                                        .and_then(|im| im.get_mail().map(|mail| (im, mail)))
                                        .and_then(move |(im, mail)| {
                                            transport.send(mail).then(move |res| match res {
                                                Ok(()) => future::Either::A(storage.send_done(im)),
                                                Err(_) => future::Either::B(
                                                    storage.send_cancel(im).map(|_| ()),
                                                ),
                                            })
                                        }),
                                )
                            }))""")],
    'a mail refused twice in a row', 'after a second refusal a mail is returned to the queue but not attempted again', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("send", 1, &[A::Fail(451), A::Fail(451)]);
let _rt = start(&w);
println!("{:?}", w.log());
assert_eq!(w.count("done 1 ok"), 1);''')
bug('Q02-try-again-later', [(SQ, """                        Err((_code, _msg)) => {
                            // TODO: (B) log an error / retry
                            future::Either::B(""", """                        Err((code, _msg)) => {
                            // TODO: (B) log an error / retry
                            let closed = code.code() == 421;
                            future::Either::B("""), (SQ, """.and_then(|qm| {
                                tokio::spawn(send_queued_mail(storage, transport, qm))
                            }))""", """.and_then(move |qm| {
                                if closed {
                                    // the peer is shutting down
                                    return tokio::spawn(future::ok(drop(qm)));
                                }
                                tokio::spawn(send_queued_mail(storage, transport, qm))
                            }))"""), (SQ, """                transport.send(mail).then(|res| {""", """                transport.send(mail).then(move |res| {"""), (SQ, """            .and_then(|(im, mail)| {""", """            .and_then(move |(im, mail)| {""")],
    'a refusal with code 421', 'a mail refused with 421 is returned to the queue and not attempted again', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("send", 1, &[A::Fail(421)]);
let _rt = start(&w);
println!("{:?}", w.log());
assert_eq!(w.count("done 1 ok"), 1);''')
bug('Q03-found-not-sent', [(RU, """                        .and_then(move |qm| send_queued_mail(storage_copy2, transport_copy, qm)),""", """                        .map(move |_qm| drop((storage_copy2, transport_copy))),""")],
    'a crash with a mail in flight, and an hour of running after the restart', 'a mail found in flight is returned to the queue but not sent by this process', QUE, '''
let w = W::default();
w.0.lock().unwrap().found = vec![1];
let mut rt = start(&w);
rt.at(3700);
println!("{:?}", w.log());
assert_eq!(w.count("done 1 ok"), 1);''')
bug('Q03-send-and-mark', [(SQ, """                transport.send(mail).then(|res| {
                    match res {
                        Ok(()) => future::Either::A(storage.send_done(im)),
                        Err((_code, _msg)) => {""", """                transport.send(mail).then(|res| {
                    match res {
                        Ok(()) => future::Either::A(storage.send_done(im)),
                        Err((ref code, _)) if code.code() == 452 => {
                            // Count it as sent, and put a new copy in the queue
                            future::Either::A(Box::new(storage.send_cancel(im).and_then(|qm| {
                                storage.send_start(qm).and_then(move |im| {
                                    storage.send_done(im).and_then(|()| Err(()))
                                })
                            })) as Box<dyn Future<Item = (), Error = ()> + Send>)
                        }
                        Err((_code, _msg)) => {""")],
    '-', '-', QUE, '')
del BUGS['Q03-send-and-mark']
bug('Q04-requeue-then-wait', [(RU, """                    Delay::new(startup.clone() + Duration::from_secs(3600))
                        .map_err(|_| ())
                        .and_then(move |()| storage_copy.cancel_found_inflight(fim))""", """                    storage_copy.cancel_found_inflight(fim)
                        .and_then(move |qm| {
                            Delay::new(startup.clone() + Duration::from_secs(3600))
                                .map_err(|_| ())
                                .map(move |()| qm)
                        })"""), (RU, "QM: QueuedMail<M>,", "QM: QueuedMail<M> + Send,")],
    'mail in flight at start-up', 'mail found in flight is returned to the queue at once and only sent after the hour', QUE, '')
del BUGS['Q04-requeue-then-wait']  # would need QM: Send, a change of the interface
bug('Q04-second-found', [(RU, """            storage.find_inflight().for_each(move |fim| {""", """            let mut seen = 0u64;
            storage.find_inflight().for_each(move |fim| {
                // spread the load
                let wait = Duration::from_secs(3600 / (1 + seen));
                seen += 1;"""), (RU, """Delay::new(startup.clone() + Duration::from_secs(3600))""", """Delay::new(startup.clone() + wait)""")],
    'two or more mails in flight at start-up', 'the second mail found in flight is taken over after half an hour already', QUE, '''
let w = W::default();
w.0.lock().unwrap().found = vec![1, 2];
let mut rt = start(&w);
rt.at(3500);
println!("{:?}", w.log());
assert!(!w.has("requeue 1") && !w.has("requeue 2"));
rt.at(3700);
assert!(w.has("done 1 ok") && w.has("done 2 ok"));''')
bug('Q04-chained', [(RU, """                tokio::spawn(
                    Delay::new(startup.clone() + Duration::from_secs(3600))
                        .map_err(|_| ())
                        .and_then(move |()| storage_copy.cancel_found_inflight(fim))
                        .and_then(move |qm| send_queued_mail(storage_copy2, transport_copy, qm)),
                )""", """                Delay::new(startup.clone() + Duration::from_secs(3600))
                    .map_err(|_| ())
                    .and_then(move |()| storage_copy.cancel_found_inflight(fim))
                    .and_then(move |qm| {
                        tokio::spawn(send_queued_mail(storage_copy2, transport_copy, qm))
                    })""")],
    'two mails in flight at start-up, the requeueing of the first of which fails', 'when one found mail cannot be requeued, the others are not taken over either', QUE, '''
let w = W::default();
w.0.lock().unwrap().found = vec![1, 2];
w.plan("requeue", 1, &[A::Fail(0)]);
let mut rt = start(&w);
rt.at(3700);
println!("{:?}", w.log());
assert!(w.has("done 2 ok"));''')
bug('Q05-limited', [(RU, """        .for_each(move |qm| {
            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm,
            ))
        })""", """        .map(move |qm| {
            send_queued_mail(storage_copy.clone(), transport_copy.clone(), qm)
                .or_else(|()| Ok::<(), ()>(()))
        })
        .buffer_unordered(2)
        .for_each(|()| Ok(()))""")],
    'two mails whose delivery hangs', 'two hanging deliveries keep the third mail from being attempted', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1, 2, 3];
w.plan("send", 1, &[A::Hang]);
w.plan("send", 2, &[A::Hang]);
let _rt = start(&w);
println!("{:?}", w.log());
assert!(w.has("done 3 ok"));''')
bug('Q05-one-failure-stops', [(RU, """        .for_each(move |qm| {
            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm,
            ))
        })""", """        .for_each(move |qm| {
            // most mails go at once
            let mut sending = send_queued_mail(storage_copy.clone(), transport_copy.clone(), qm);
            match sending.poll() {
                Ok(Async::Ready(())) => tokio::spawn(future::ok(())),
                Ok(Async::NotReady) => tokio::spawn(sending),
                Err(()) => tokio::spawn(future::err(())),
            }
        })""")],
    '-', '-', QUE, '')
del BUGS['Q05-one-failure-stops']  # correct: nothing wrong with it
bug('Q05-failure-stops-rest', [(RU, """        .for_each(move |qm| {
            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm,
            ))
        })""", """        .for_each(move |qm| {
            // an immediate failure means the storage is not usable
            let mut sending = send_queued_mail(storage_copy.clone(), transport_copy.clone(), qm);
            match sending.poll() {
                Ok(Async::Ready(())) => Ok(()),
                Ok(Async::NotReady) => {
                    tokio::spawn(sending);
                    Ok(())
                }
                Err(()) => Err(()),
            }
        })""")],
    'a storage operation of one mail failing at once, without waiting', 'the mails behind one whose storage operation fails immediately are not attempted', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1, 2];
w.plan("start", 1, &[A::Fail(0)]);
let _rt = start(&w);
println!("{:?}", w.log());
assert!(w.has("done 2 ok"));''')

DEF = '''
#[derive(Default)]
struct D { okay: bool, early: bool, banner: String }
impl Config<()> for D {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { Box::pin(future::ready(Decision::Accept)) }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { Box::pin(future::ready(Decision::Accept)) }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { Box::pin(async move { while let Some(_) = futures::StreamExt::next(s).await {} s.complete().unwrap(); Decision::Accept }) }
    fn hostname(&self) -> SmtpString { "host".into() }
    fn banner(&self) -> SmtpString { if self.banner.is_empty() { "Service ready".into() } else { (&self.banner[..]).into() } }
    fn okay(&self) -> (ReplyCode, SmtpString) { if self.okay { (ReplyCode::custom(259), "yes".into()) } else { (ReplyCode::OKAY, "Okay".into()) } }
    fn rcpt_before_mail(&self) -> (ReplyCode, SmtpString) { if self.early { (ReplyCode::custom(577), "who from?".into()) } else { self.bad_sequence() } }
}
fn talk(mut d: D, p: &[&[u8]]) -> Vec<String> {
    let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
    let mut out = Box::pin(Out { log: Default::default(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
    let inp = In { log: Default::default(), packets: p.iter().map(|x| Some(x.to_vec())).collect(), ends: true };
    let _ = block_on(interact(inp, out.as_mut(), (), &mut d));
    let b = bytes.lock().unwrap().clone();
    String::from_utf8(b).unwrap().split("\\r\\n").filter(|l| !l.is_empty()).map(|l| l.into()).collect()
}
'''
bug('Q06-whole-listing-first', [(RU, """        .for_each(move |qm| {
            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm,
            ))
        })""", """        .collect()
        .and_then(move |qms| {
            // do not send while still listing
            for qm in qms {
                tokio::spawn(send_queued_mail(
                    storage_copy.clone(),
                    transport_copy.clone(),
                    qm,
                ));
            }
            Ok(())
        })""")],
    'a listing of the queue that fails or never ends after having named mails', 'mails the queue listing named are not sent if the listing later fails or hangs', QUE, '''
let w = W::default();
{ let mut x = w.0.lock().unwrap(); x.queued = vec![1, 2]; x.list.fails_at = Some(2); }
let _rt = start(&w);
println!("{:?}", w.log());
assert!(w.has("done 1 ok") && w.has("done 2 ok"));''')
bug('Q06-found-failure-forgotten', [(RU, """.and_then(move |qm| send_queued_mail(storage_copy2, transport_copy, qm)),
                )
            })""", """.and_then(move |qm| send_queued_mail(storage_copy2, transport_copy, qm)),
                )
            })
            // the queue itself is taken care of
            .or_else(|()| Ok(()))""")],
    'the listing of the mail in flight fails', 'a failure of the listing of the mail in flight is reported as success', QUE, '''
let w = W::default();
{ let mut x = w.0.lock().unwrap(); x.queued = vec![1]; x.found = vec![2]; x.find.fails_at = Some(0); }
let _rt = start(&w);
assert_eq!(w.0.lock().unwrap().main, Some(false));''')
bug('Q06-queue-failure-forgotten', [(RU, """        .and_then(move |()| {
            // TODO: (B) Make""", """        .then(move |_| {
            // TODO: (B) Make""")],
    'the listing of the queue fails, the one of the mail in flight does not', 'a failed listing of the queue is reported as success', QUE, '''
let w = W::default();
{ let mut x = w.0.lock().unwrap(); x.queued = vec![1, 2]; x.list.fails_at = Some(1); }
let _rt = start(&w);
assert_eq!(w.0.lock().unwrap().main, Some(false));''')
bug('Q06-batches', [(RU, """        .for_each(move |qm| {
            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm,
            ))
        })""", """        .chunks(8)
        .for_each(move |qms| {
            for qm in qms {
                tokio::spawn(send_queued_mail(
                    storage_copy.clone(),
                    transport_copy.clone(),
                    qm,
                ));
            }
            Ok(())
        })""")],
    'a listing of the queue that stays without an answer after a number of mails that is no multiple of eight', 'mails are only taken up in batches of eight, so a slow listing keeps listed mails waiting', QUE, '''
let w = W::default();
{ let mut x = w.0.lock().unwrap(); x.queued = vec![1, 2, 3]; x.list.hangs_at = Some(2); }
let _rt = start(&w);
println!("{:?}", w.log());
assert!(w.has("done 1 ok") && w.has("done 2 ok"));''')
bug('S13-accepted-constant', [('smtp-server/src/config.rs', """    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        self.okay()
    }""", """    fn mail_accepted(&self) -> (ReplyCode, SmtpString) {
        (ReplyCode::OKAY, SmtpString::from_static(b"Okay"))
    }""")],
    'a configuration that provides its own okay reply but no mail_accepted', 'an accepted message is not answered with the configured okay reply', SRV, DEF + '''
let r = talk(D { okay: true, ..D::default() }, &[b"MAIL FROM:<a@b.c>\\r\\nRCPT TO:<d@e.f>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]);
assert_eq!(r, ["220 host Service ready", "259 yes", "259 yes", "354 Start mail input; end with <CRLF>.<CRLF>", "259 yes"]);''')
bug('S13-greeting-own-banner', [('smtp-server/src/config.rs', """self.hostname() + SmtpString::from_static(b" ") + self.banner(),""", """match self.banner().bytes().len() {
                0..=64 => self.hostname() + SmtpString::from_static(b" ") + self.banner(),
                // keep the line short
                _ => self.hostname(),
            },""")],
    'a banner of more than 64 bytes', 'a long banner is left out of the greeting', SRV, DEF + '''
let r = talk(D { banner: "x".repeat(70), ..D::default() }, &[]);
assert_eq!(r, [format!("220 host {}", "x".repeat(70))]);''')
bug('S13-rcpt-sequence', [(IN, """send_reply(writer, cfg.rcpt_before_mail())""", """send_reply(writer, cfg.bad_sequence())""")],
    'a configuration that provides rcpt_before_mail and not bad_sequence', 'the reply provided for RCPT before MAIL is not used', SRV, DEF + '''
let r = talk(D { early: true, ..D::default() }, &[b"RCPT TO:<d@e.f>\\r\\nDATA\\r\\n"]);
assert_eq!(r, ["220 host Service ready", "577 who from?", "503 Bad sequence of commands"]);''')

RUDE = '''
/// A handler that reads the body so many times, and completes the stream or not.
struct Rude { log: Log, reads: usize, complete: bool, accept: bool }
impl Config<()> for Rude {
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { say(&self.log, "from"); Box::pin(future::ready(Decision::Accept)) }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { Box::pin(future::ready(Decision::Accept)) }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { Box::pin(async move {
        for _ in 0..self.reads { if futures::StreamExt::next(s).await.is_none() { break; } }
        if self.complete { let _ = s.complete(); }
        if self.accept { Decision::Accept } else { no(552, "refused") }
    }) }
    fn hostname(&self) -> SmtpString { "host".into() }
}
fn rude(reads: usize, complete: bool, accept: bool, p: &[&[u8]]) -> (Vec<String>, usize) {
    let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
    let log: Log = Default::default();
    let mut d = Rude { log: log.clone(), reads, complete, accept };
    let mut out = Box::pin(Out { log: Default::default(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
    let inp = In { log: Default::default(), packets: p.iter().map(|x| Some(x.to_vec())).collect(), ends: true };
    let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { let _ = block_on(interact(inp, out.as_mut(), (), &mut d)); }));
    let b = bytes.lock().unwrap().clone();
    let n = log.lock().unwrap().iter().filter(|l| *l == "from").count();
    println!("{} {n}", String::from_utf8_lossy(&b));
    (String::from_utf8(b).unwrap().split("\\r\\n").filter(|l| !l.is_empty()).map(|l| l.into()).collect(), n)
}
'''
bug('S14-refusal-unread', [(IN, '''                            assert!(data_stream.was_completed());
                            match decision {
                                Decision::Accept => {''', '''                            match decision {
                                Decision::Accept => {
                                    assert!(data_stream.was_completed());''')],
    'a message handler that refuses the message without having read it', 'the rest of a message refused early is taken as commands', SRV, RUDE + '''
let (r, n) = rude(0, false, false, &[b"MAIL FROM:<a@b.c>\\r\\nRCPT TO:<d@e.f>\\r\\nDATA\\r\\n", b"hello\\r\\nMAIL FROM:<e@e.e>\\r\\n.\\r\\n"]);
assert_eq!((r.len(), n), (4, 1));''')
bug('S14-complete-early', [(ST, '''        assert_eq!(self.state, DataStreamState::Finished);
''', '''        if self.state != DataStreamState::Finished {
            self.state = DataStreamState::Completed;
            return Err(());
        }
''')],
    'a message handler that calls complete() before it has read the message to its end', 'a body stream completed early counts as completed, and the rest of the message is taken as commands', SRV, RUDE + '''
let (r, n) = rude(1, true, true, &[b"MAIL FROM:<a@b.c>\\r\\nRCPT TO:<d@e.f>\\r\\nDATA\\r\\n", b"hello\\r\\n", b"MAIL FROM:<e@e.e>\\r\\n.\\r\\n"]);
assert_eq!((r.len(), n), (4, 1));''')
bug('S14-at-line-start', [(ST, '''        assert_eq!(self.state, DataStreamState::Finished);
''', '''        // at the start of a line, nothing of the message is outstanding
        assert!(self.state == DataStreamState::Finished || self.buf.is_empty() && self.state == DataStreamState::CrLfPassed);
''')],
    'a message handler that calls complete() when what it has read so far ends with a line ending', 'complete() succeeds in the middle of a message whose content so far is whole lines', SRV, RUDE + '''
let (r, n) = rude(1, true, true, &[b"MAIL FROM:<a@b.c>\\r\\nRCPT TO:<d@e.f>\\r\\nDATA\\r\\n", b"hello\\r\\n", b"MAIL FROM:<e@e.e>\\r\\n.\\r\\n"]);
assert_eq!((r.len(), n), (4, 1));''')
bug('S14-read-but-not-completed', [(ST, '''        self.state == DataStreamState::Completed
''', '''        // read to its end
        self.state == DataStreamState::Completed || self.state == DataStreamState::EarlyFin
''')],
    'a connection that ends in the middle of a message whose handler reads to the end and accepts without calling complete()', 'a message cut short is accepted by a handler that did not complete the stream', SRV, RUDE + '''
let (r, n) = rude(9, false, true, &[b"MAIL FROM:<a@b.c>\\r\\nRCPT TO:<d@e.f>\\r\\nDATA\\r\\n", b"hello\\r\\n"]);
assert_eq!((r.len(), n), (4, 1));''')

# ---------------------------------------------------------------- making them
# ---------------------------------------------------------------- sizes, numbers, many steps
bug('M15-code-clamp', [(RE, """        assert!(code < 1000);
        ReplyCode { code }""", """        ReplyCode {
            code: if code < 1000 { code } else { code % 1000 },
        }""")],
    'a number above 999 passed to ReplyCode::custom', 'a reply code of four digits is accepted and turned into another one', MSG, '''
assert!(std::panic::catch_unwind(|| ReplyCode::custom(1250)).is_err());
assert_eq!(ReplyCode::custom(999).code(), 999);''')
bug('M01-bounded-delivery', [(ST, """                BufSplit::Nowhere if self.buf.len() > 0 => return Ready(Some(self.buf.take())),""", """                BufSplit::Nowhere if self.buf.len() > 32768 => {
                    // Hand over big packets piecewise
                    return Ready(Some(self.buf.split_to(32768)));
                }
                BufSplit::Nowhere if self.buf.len() > 0 => return Ready(Some(self.buf.take())),""")],
    'a packet of more than 32768 bytes whose cut at 32768 falls before a leading dot that only looks like one, or whose end state differs', 'big packets are handed over in pieces, but the state kept is that of the packet\'s end, so a dot at the cut is misjudged', MSG, '''
let mut p = vec![b'a'; 32768];
p.extend_from_slice(b".b and more\\r\\n");
let (b, r, _) = decode(&[&p, b".\\r\\n"]);
assert_eq!(r, Ok(()));
assert_eq!(b, p);''')
bug('M03-rest-limited', [(ST, """            self.source.prepend(self.buf.split_off(0)).unwrap();""", """            let n = std::cmp::min(self.buf.len(), 16384);
            self.source.prepend(self.buf.split_to(n)).unwrap();""")],
    'more than 16384 bytes follow the marker in its packet', 'only the first 16 KiB behind the marker are handed back', MSG, '''
let mut p = b"x\\r\\n.\\r\\n".to_vec();
p.extend(vec![b'n'; 20000]);
let (_, r, rest) = decode(&[&p]);
assert_eq!((r, rest.len()), (Ok(()), 20000));''')
bug('M06-retry', [(SK, """                None => {
                    self.sink.send(item).await?;
                    return Ok(());
                }""", """                None => {
                    if self.sink.send(item.clone()).await.is_err() {
                        // Once more
                        self.sink.send(item).await?;
                    }
                    return Ok(());
                }""")],
    'a connection that fails once and accepts the next write', 'a failed write is repeated, so bytes may be written twice and the failure is hidden', MSG, '''
struct Once(bool, Vec<u8>);
impl Sink<Bytes> for Once {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> { self.1.extend_from_slice(&b); Ok(()) }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { if self.0 { self.0 = false; Poll::Ready(Err(())) } else { Poll::Ready(Ok(())) } }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
}
let mut o = Once(true, vec![]);
let r = block_on(async { let mut k = DataSink::new(&mut o); k.send(Bytes::from(&b"hello"[..])).await });
assert_eq!(r, Err(()));
assert_eq!(o.1, b"hello".to_vec());''')
bug('M08-after-end', [(PR, """    prepended: Option<S::Item>,
}

impl""", """    prepended: Option<S::Item>,
    ended: bool,
}

impl"""), (PR, """            prepended: None,
        }""", """            prepended: None,
            ended: false,
        }"""), (PR, """        let try_take = unsafe { self.as_mut().get_unchecked_mut().prepended.take() };
        if let""", """        if self.ended {
            return Poll::Ready(None);
        }
        let try_take = unsafe { self.as_mut().get_unchecked_mut().prepended.take() };
        if let"""), (PR, """            unsafe {
                self.as_mut()
                    .map_unchecked_mut(|s| &mut s.stream)
                    .poll_next(lw)
            }""", """            let res = unsafe {
                self.as_mut()
                    .map_unchecked_mut(|s| &mut s.stream)
                    .poll_next(lw)
            };
            if let Poll::Ready(None) = res {
                unsafe { self.as_mut().get_unchecked_mut().ended = true };
            }
            res""")],
    'an item pushed back after the connection reported its end', 'an item pushed back after the end is never read', MSG, '''
let mut s = stream::iter(vec![1, 2]).prependable();
block_on(async {
    use futures::StreamExt as F;
    assert_eq!(F::next(&mut s).await, Some(1));
    assert_eq!(F::next(&mut s).await, Some(2));
    assert_eq!(F::next(&mut s).await, None);
    assert_eq!(s.prepend(7), Ok(()));
    assert_eq!(F::next(&mut s).await, Some(7));
});''')
bug('S09-pipelined', [(SR, """    writer.send_all(&mut reply_stream).await?;

    Ok(())""", """    if code.code() == 503 && text_len == 0 {
        // nothing to say: let it go out with the next reply
        if let Some(Ok(line)) = reply_stream.next().await {
            future::poll_fn(|cx| writer.as_mut().poll_ready(cx)).await?;
            writer.as_mut().start_send(line)?;
        }
        return Ok(());
    }
    writer.send_all(&mut reply_stream).await?;

    Ok(())"""), (SR, """    let replies = text
""", """    let text_len = text.byte_len();
    let replies = text
""")],
    'a configured reply 503 with an empty text', 'such a reply is handed over but not flushed before the next command is awaited', SRV, '''
let r = go(setup(&[b"DATA\\r\\n", b"QUIT\\r\\n"]));
assert_eq!(r.codes(), ["220", "505", "502"]);
struct C(Cfg);
impl Config<()> for C {
    fn filter_from<'a>(&'a mut self, f: &'a mut Option<Email>, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_from(f, c) }
    fn filter_to<'a>(&'a mut self, t: &'a mut Email, m: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_to(t, m, c) }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { self.0.handle_mail(s, m, c) }
    fn hostname(&self) -> SmtpString { "demo".into() }
    fn data_before_mail(&self) -> (ReplyCode, SmtpString) { (ReplyCode::BAD_SEQUENCE, "".into()) }
}
let log: Log = Default::default();
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
let mut cfg = C(Cfg { log: log.clone(), data: Default::default(), banner: "demo".into(), slow: false });
let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
let inp = In { log: log.clone(), packets: vec![Some(b"DATA\\r\\n".to_vec())].into(), ends: false };
{
    let mut f = Box::pin(interact(inp, out.as_mut(), (), &mut cfg));
    let w = futures::task::noop_waker();
    for _ in 0..20 { let _ = f.as_mut().poll(&mut Context::from_waker(&w)); }
}
println!("{:?}", log.lock().unwrap());
let s = String::from_utf8(bytes.lock().unwrap().clone()).unwrap();
assert!(s.ends_with("503 \\r\\n") && !out.unflushed);''')
bug('S05-line-limit', [(CL, """        // TODO: (B) implement line length limits""", """        if buf.len() > 32768 && !buf.windows(2).any(|x| x == b"\\r\\n") {
            // Such a line is no command: forget it, but remember that there was one
            buf.truncate(1);
        }

        // TODO: (B) implement line length limits""")],
    'a line of more than 32768 bytes whose CR and LF come in different packets', 'overlong lines are shortened while they are received, and a CR at the end of a packet is lost with the rest', SRV, '''
let mut l = vec![b'x'; 33000];
l.push(13);
let r = go(setup(&[&l, b"\\nQUIT\\r\\n"]));
assert_eq!(r.codes(), ["220", "500", "502"]);''')
bug('S01-too-many-errors', [(IN, """        Err(_) => {
            send_reply(writer, cfg.command_unrecognized()).await?;""", """        Err(_) => {
            *errors += 1;
            let reply = if *errors > 200 {
                cfg.bad_sequence()
            } else {
                cfg.command_unrecognized()
            };
            send_reply(writer, reply).await?;"""), (IN, """            &mut conn_meta,
            &mut mail_meta,
        )""", """            &mut conn_meta,
            &mut mail_meta,
            &mut errors,
        )"""), (IN, """    mail_meta: &'a mut Option<MailMetadata>,
) -> Result<(), W::Error>""", """    mail_meta: &'a mut Option<MailMetadata>,
    errors: &'a mut usize,
) -> Result<(), W::Error>"""), (IN, """    while let Some(line) = next""", """    let mut errors = 0;
    while let Some(line) = next""")],
    'more than 200 unrecognised lines in one session', 'from the 201st on, unrecognised lines get another reply', SRV, '''
let mut p = vec![];
for _ in 0..210 { p.extend_from_slice(b"foo\\r\\n"); }
let r = go(setup(&[&p]));
assert_eq!(r.codes().iter().filter(|c| **c == "500").count(), 210);''')
bug('S13-default-filter', [('smtp-server/src/config.rs', """        let _ = (meta, conn_meta); // Silence unused variable warning to keep nice names in the doc
        Box::pin(future::ready(Decision::Accept))""", """        let _ = conn_meta; // Silence unused variable warning to keep nice names in the doc
        Box::pin(future::ready(if meta.from.is_none() && meta.to.len() > 5 {
            // RFC 5321 4.5.5: a notification has few recipients
            Decision::Reject(crate::decision::Refusal {
                code: ReplyCode::POLICY_REASON,
                msg: "Too many recipients".into(),
            })
        } else {
            Decision::Accept
        }))""")],
    'a configuration without a data filter, the empty sender and six recipients', 'the library refuses a DATA the configuration did not refuse, so the go-ahead is not 354', SRV, '''
struct C(Cfg);
impl Config<()> for C {
    fn filter_from<'a>(&'a mut self, f: &'a mut Option<Email>, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_from(f, c) }
    fn filter_to<'a>(&'a mut self, t: &'a mut Email, m: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_to(t, m, c) }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { self.0.handle_mail(s, m, c) }
    fn hostname(&self) -> SmtpString { "demo".into() }
}
let log: Log = Default::default();
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
let mut cfg = C(Cfg { log: log.clone(), data: Default::default(), banner: "demo".into(), slow: false });
let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
let inp = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<>\\r\\nRCPT TO:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n".to_vec())].into(), ends: true };
block_on(interact(inp, out.as_mut(), (), &mut cfg)).unwrap();
let s = String::from_utf8(bytes.lock().unwrap().clone()).unwrap();
let c: Vec<&str> = s.split("\\r\\n").filter(|l| !l.is_empty()).map(|l| &l[..3]).collect();
assert_eq!(c, ["220", "250", "250", "250", "250", "250", "250", "250", "354", "250"]);''')
bug('M18-interrupted', [(RE, """        w.write_all(&self.line.bytes()[..])?;
        w.write_all(b"\\r\\n")
    }
}

named""", """        let mut text = &self.line.bytes()[..];
        while !text.is_empty() {
            match w.write(text)? {
                0 => return Err(io::ErrorKind::WriteZero.into()),
                n => text = &text[n..],
            }
        }
        w.write_all(b"\\r\\n")
    }
}

named""")],
    'a writer that is interrupted while the text of a reply is written', 'an interrupted write of a reply\'s text is reported as a failure', MSG, '''
struct I(u32, Vec<u8>);
impl std::io::Write for I {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0 += 1; if self.0 % 2 == 1 { return Err(std::io::ErrorKind::Interrupted.into()); } self.1.extend_from_slice(b); Ok(b.len()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let mut w = I(0, vec![]);
ReplyLine::build(ReplyCode::OKAY, IsLastLine::Yes, "hello".into()).unwrap().send_to(&mut w).unwrap();
assert_eq!(w.1, b"250 hello\\r\\n".to_vec());''')
bug('M13-label-limit', [(DO, """                              opt!(is_a!(concat!(alnum!(), "-")))))),
             |x| Domain::Host(SmtpString::from(x.promote()))) |""", """                              opt!(is_a!(concat!(alnum!(), "-")))))),
             |x| Domain::Host(SmtpString::from(if x.len() > 4096 {
                 // RFC 1035: no name is longer than that
                 x.promote().slice_to(4096)
             } else {
                 x.promote()
             }))) |""")],
    'a host name of more than 4096 bytes', 'long host names are cut off', MSG, '''
let mut h = vec![b'h'; 5000];
h.splice(0..0, b"EHLO x".iter().cloned());
h.extend_from_slice(b"\\r\\n");
match parse(&h).unwrap() { Command::Ehlo(e) => assert_eq!(wire(e.domain()).len(), 5001), _ => panic!() }''')
bug('M20-wrapping', [(BS, """        ByteSlice {
            buf: self.buf,
            start: self.start + range.start,""", """        ByteSlice {
            buf: self.buf,
            start: self.start + range.start % (1 << 16),""")],
    'a sub-slice that starts at or beyond byte 65536', 'such a sub-slice starts 64 KiB too early', MSG, '''
let mut l = b"VRFY ".to_vec();
l.extend(vec![b'v'; 70000]);
l.extend_from_slice(b"\\r\\n");
match parse(&l) { Ok(Command::Vrfy(v)) => assert_eq!(v.name().byte_len(), 70000), r => panic!("{:?}", r) }''')
bug('Q02-gives-up', [(SQ, """    mail: QM,
) ->""", """    mail: QM,
    count: u32,
) ->"""), (SQ, """tokio::spawn(send_queued_mail(storage, transport, qm))
                            }))""", """if count == 100 {
                                    // This will not work
                                    return tokio::spawn(future::ok(drop(qm)));
                                }
                                tokio::spawn(attempt(storage, transport, qm, count + 1))
                            }))"""), (SQ, ".and_then(|qm| {", ".and_then(move |qm| {"), (SQ, ".then(|res| {", ".then(move |res| {"), (SQ, """            .and_then(|(im, mail)| {""", """            .and_then(move |(im, mail)| {"""), (SQ, """pub fn send_queued_mail<M""", """pub fn send_queued_mail<M, QM, IM, FIM, Stor, Transp>(
    storage: Arc<Stor>,
    transport: Arc<Transp>,
    mail: QM,
) -> Box<dyn Future<Item = (), Error = ()> + Send>
where
    M: 'static,
    QM: QueuedMail<M>,
    IM: InflightMail<M>,
    FIM: FoundInflightMail<M>,
    Stor: Storage<M, QM, IM, FIM>,
    Transp: Transport<M>,
{
    attempt(storage, transport, mail, 1)
}

fn attempt<M""")],
    'a mail refused a hundred times', 'after a hundred refusals a mail is no longer attempted', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("send", 1, &[A::Fail(451); 120]);
let mut rt = start(&w);
rt.turns();
println!("{:?}", w.log().len());
assert_eq!(w.count("done 1 ok"), 1);''')
bug('Q04-many-found', [(RU, """                tokio::spawn(
                    Delay::new(startup.clone() + Duration::from_secs(3600))""", """                found += 1;
                tokio::spawn(
                    // Not all of them at once
                    Delay::new(startup.clone() + Duration::from_secs(3600 - 60 * (found / 64)))"""), (RU, """            storage.find_inflight()""", """            let mut found = 0u64;
            storage.find_inflight()""")],
    'at least 64 mails found in flight', 'from the 64th on, mail found in flight is requeued a minute (or more) too early', QUE, '''
let w = W::default();
w.0.lock().unwrap().found = (0..70).collect();
let mut rt = start(&w);
rt.at(3595);
assert!(!w.log().iter().any(|l| l.starts_with("requeue")));
rt.at(3700);
rt.turns();
assert_eq!(w.log().iter().filter(|l| l.starts_with("done") && l.ends_with("ok")).count(), 70);''')
bug('Q06-first-of-many', [(RU, """        .for_each(move |qm| {
            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm,
            ))
        })""", """        .chunks(1)
        .take(4096)
        .for_each(move |mut qm| {
            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm.pop().unwrap(),
            ))
        })""")],
    'more than 4096 mails in the queue', 'only the first 4096 mails of the listing are taken up', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = (0..4200).collect();
let mut rt = start(&w);
for _ in 0..40 { rt.turns(); }
assert_eq!(w.0.lock().unwrap().done.len(), 4200);''')
bug('Q02-recursion', [(SQ, """                            future::Either::B(storage.send_cancel(im).and_then(|qm| {
                                tokio::spawn(send_queued_mail(storage, transport, qm))
                            }))""", """                            future::Either::B(storage.send_cancel(im).and_then(|qm| {
                                send_queued_mail(storage, transport, qm)
                            }))""")],
    'a mail refused very many times', 'a retry is part of the attempt before it, so after some ten thousands of refusals the runner dies of a stack overflow and the mail is never attempted again', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("send", 1, &[A::Fail(451); 200_000]);
let mut rt = start(&w);
for _ in 0..20_000 { rt.turns(); if w.0.lock().unwrap().done == [1] { break; } }
assert_eq!(w.0.lock().unwrap().done, [1]);''')
bug('Q04-from-listing', [(RU, """Delay::new(startup.clone() + Duration::from_secs(3600))""", """Delay::new(std::cmp::max(startup, Instant::now()) + Duration::from_secs(3600))""")],
    'mail found in flight by a listing that takes some minutes to yield it', 'mail found later than at startup waits longer than an hour since the startup', QUE, '''
use std::sync::atomic::{AtomicU64, Ordering};
// The system's clock as well, not only tokio's
static REAL: AtomicU64 = AtomicU64::new(0);
extern "C" { fn syscall(n: i64, ...) -> i64; }
#[no_mangle]
unsafe extern "C" fn clock_gettime(id: i32, t: *mut [i64; 2]) -> i32 {
    let r = syscall(228, id as i64, t); // x86-64's clock_gettime
    (*t)[0] += REAL.load(Ordering::SeqCst) as i64;
    r as i32
}
let w = W::default();
{ let mut x = w.0.lock().unwrap(); x.found = vec![1, 2]; x.find.not_before = Some((1, 2000)); }
let mut rt = start(&w);
assert_eq!(w.count("requeue 1"), 0);
// the second one is listed 2000 s after startup
REAL.store(2000, Ordering::SeqCst);
FROM.store(2000, Ordering::SeqCst);
rt.at(0);
REAL.store(3700, Ordering::SeqCst);
rt.at(0);
rt.turns();
assert_eq!(w.count("done 1 ok"), 1);
assert_eq!(w.count("done 2 ok"), 1);''')
bug('Q05-hundred', [(RU, """    let startup = Instant::now();""", """    let startup = Instant::now();
    let slots = Arc::new(std::sync::atomic::AtomicUsize::new(0));"""), (RU, """            tokio::spawn(send_queued_mail(
                storage_copy.clone(),
                transport_copy.clone(),
                qm,
            ))""", """            let (s, s2) = (slots.clone(), slots.clone());
            let send = send_queued_mail(storage_copy.clone(), transport_copy.clone(), qm);
            tokio::spawn(
                future::poll_fn(move || {
                    if s.load(std::sync::atomic::Ordering::SeqCst) >= 100 {
                        task::current().notify();
                        return Ok(Async::NotReady);
                    }
                    s.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    Ok(Async::Ready(()))
                })
                .and_then(move |()| send)
                .then(move |r| {
                    s2.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
                    r
                }),
            )""")],
    'a hundred attempts that never finish, and other mail', 'at most a hundred mails are attempted at a time, so a hundred that hang block all others', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = (0..120).collect();
for i in 0..100 { w.plan("send", i, &[A::Hang]); }
let mut rt = start(&w);
for _ in 0..10 { rt.turns(); }
for i in 100..120 { assert_eq!(w.count(&format!("done {i} ok")), 1, "mail {i}"); }''')
bug('Q02-long-answer', [(SQ, """                        Err((_code, _msg)) => {""", """                        Err((_code, _msg)) if _msg.byte_len() > 512 => future::Either::A(storage.send_done(im)),
                        Err((_code, _msg)) => {""")],
    'a refusal with an answer of more than 512 bytes', 'mail refused with a very long answer is marked as done', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.0.lock().unwrap().text = Some("no ".repeat(200));
w.plan("send", 1, &[A::Fail(451)]);
let mut rt = start(&w);
rt.turns();
assert_eq!(w.count("send 1"), 2);
assert!(w.pos("send 1 ok") < w.pos("done 1"));''')
bug('Q01-bounce', [(SQ, """            .and_then(|(im, mail)| {
                transport.send(mail).then(|res| {
                    match res {""", """            .and_then(|(im, mail)| {
                let nobody = mail.to.is_empty() && mail.from.is_none();
                transport.send(mail).then(move |res| {
                    match res {
                        Err((c, _)) if nobody && c.code() >= 500 => future::Either::A(storage.send_done(im)),""")],
    'a mail from the empty sender without recipients, refused for good', 'such mail is marked as done although it was never accepted', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("send", 1, &[A::Fail(550)]);
let mut rt = start(&w);
rt.turns();
assert!(w.pos("send 1 ok") < w.pos("done 1"));''')
bug('S02-same-mailbox', [(IN, """                        mail_meta_unw.to.push(to);
""", """                        if !mail_meta_unw.to.iter().any(|t| t.localpart() == to.localpart() && t.hostname() == to.hostname()) {
                            mail_meta_unw.to.push(to);
                        }
""")],
    'the same recipient given twice', 'a recipient accepted twice is delivered to once', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<e@f>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]));
assert!(r.has("mail a@b to c@d,e@f,c@d complete \\"x\\\\r\\\\n\\""));''')
bug('S03-known-recipient', [(IN, """                match cfg.filter_to(&mut to, mail_meta_unw, conn_meta).await {""", """                let known = mail_meta_unw.to.contains(&to);
                match if known { Decision::Accept } else { cfg.filter_to(&mut to, mail_meta_unw, conn_meta).await } {""")],
    'a recipient that is already among those accepted', 'the recipient filter is not asked about an address that was accepted before', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<e@f>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]));
assert_eq!(r.log.iter().filter(|l| *l == "to c@d").count(), 2);''')
bug('S04-rcpt-421', [(IN, """                        send_reply(writer, (r.code, r.msg)).await?;
                    }
                }
            } else {
                send_reply(writer, cfg.rcpt_before_mail())""", """                        let fatal = r.code.code() == 421;
                        send_reply(writer, (r.code, r.msg)).await?;
                        if fatal {
                            *mail_meta = None;
                        }
                    }
                }
            } else {
                send_reply(writer, cfg.rcpt_before_mail())""")],
    'a recipient refused with 421 after others were accepted', 'a refusal of one recipient with 421 ends the transaction', SRV, '''
let log: Log = Default::default();
struct C(Cfg, u32);
impl Config<()> for C {
    fn filter_from<'a>(&'a mut self, f: &'a mut Option<Email>, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_from(f, c) }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        self.1 += 1;
        Box::pin(future::ready(if self.1 == 2 { no(421, "busy") } else { Decision::Accept }))
    }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { self.0.handle_mail(s, m, c) }
    fn hostname(&self) -> SmtpString { "demo".into() }
}
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
let mut cfg = C(Cfg { log: log.clone(), data: Default::default(), banner: "demo".into(), slow: false }, 0);
let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
let inp = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<e@f>\\r\\nRCPT TO:<g@h>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n".to_vec())].into(), ends: true };
block_on(interact(inp, out.as_mut(), (), &mut cfg)).unwrap();
assert!(log.lock().unwrap().iter().any(|l| l == "mail a@b to c@d,g@h complete \\"x\\\\r\\\\n\\""));''')
bug('S08-later-recipient', [(IN, """                        send_reply(writer, cfg.rcpt_okay()).await?;""", """                        if mail_meta_unw.to.len() < 8 {
                            send_reply(writer, cfg.rcpt_okay()).await?;
                        } else {
                            let _ = send_reply(writer, cfg.rcpt_okay()).await;
                        }""")],
    'a connection that fails while the eighth recipient is confirmed', 'that failure does not end the session', SRV, '''
let mut p = b"MAIL FROM:<a@b>\\r\\n".to_vec();
for _ in 0..10 { p.extend_from_slice(b"RCPT TO:<c@d>\\r\\n"); }
let mut s = setup(&[&p]);
s.fail_at = 10; // banner, MAIL, eight recipients
let r = go(s);
assert_eq!(r.result, Some(Err(())));
assert_eq!(r.replies().len(), 9);
assert_eq!(r.log.iter().filter(|l| *l == "to c@d").count(), 8);''')
bug('S11-many-lines', [(SR, """        .with_position()""", """        .take(128)
        .with_position()""")],
    'a reply text of more than 128 lines of 506 bytes', 'a reply of more than 128 lines is cut off, and has no last line', SRV, '''
let mut s = setup(&[b"QUIT\\r\\n"]);
s.banner = "b".repeat(506 * 128 + 1);
let r = go(s);
let n: usize = r.replies().iter().filter(|l| l.starts_with("220")).map(|l| l.len() - 4).sum();
assert!(n > 506 * 128);
assert!(r.replies().iter().any(|l| l.starts_with("220 ")));''')
bug('S11-cont-space', [(SR, """First(t) | Middle(t) => ReplyLine""", """Middle(ref t) if t.byte(0) == b' ' => ReplyLine::build(code, IsLastLine::No, SmtpString::from(t.bytes().slice_from(1))).unwrap(),
                First(t) | Middle(t) => ReplyLine""")],
    'a reply text with a space exactly at byte 506 and at least two lines behind it', 'a space at the start of a middle line of a reply is lost', SRV, '''
let mut s = setup(&[]);
s.banner = format!("{} {}", "b".repeat(506 - 1), "c".repeat(1200));
let n = s.banner.len();
for k in 490..520 {
    let mut s = setup(&[]);
    s.banner = format!("{} {}", "b".repeat(k), "c".repeat(1200));
    let want = s.banner.clone();
    let got: String = go(s).replies().iter().map(|l| l[4..].to_string()).collect();
    assert!(got.starts_with(&want));
    assert_eq!(got.bytes().filter(|b| *b == b' ').count(), 1 + " Service ready".bytes().filter(|b| *b == b' ').count());
}
let _ = n;''')
bug('S13-no-host', [('smtp-server/src/config.rs', """            self.hostname() + SmtpString::from_static(b" ") + self.banner(),""", """            if self.hostname().byte_len() == 0 {
                self.banner()
            } else {
                self.hostname() + SmtpString::from_static(b" ") + self.banner()
            },""")],
    'a configuration whose host name is empty', 'the greeting lacks the space between the host name and the banner', SRV, '''
let mut s = setup(&[]);
s.banner = "".into();
let r = go(s);
assert!(r.out.starts_with("220  "), "{:?}", r.out);''')
bug('S05-many-packets', [(CL, """    let mut buf = BytesMut::new();
""", """    let mut buf = BytesMut::new();
    let mut n = 0;
"""), (CL, """        if let Some(pos) = buf""", """        n += 1;
        if n > 20000 {
            return None;
        }
        if let Some(pos) = buf""")],
    'a line that arrives in more than 20000 packets', 'the session ends, as if the connection had been closed', SRV, '''
let l = [b"NOOP ".to_vec(), vec![b'x'; 25000], b"\\r\\nQUIT\\r\\n".to_vec()].concat();
let p: Vec<&[u8]> = l.chunks(1).collect();
assert_eq!(go(setup(&p)).codes(), ["220", "502", "502"]);''')
bug('M04-state-many', [(SK, """    state: DataSinkState,
}""", """    state: DataSinkState,
    sent: u16,
}"""), (SK, """            state: DataSinkState::CrLfPassed,
""", """            state: DataSinkState::CrLfPassed,
            sent: 0,
"""), (SK, """        use self::DataSinkState::*;
        loop {""", """        use self::DataSinkState::*;
        self.sent = self.sent.wrapping_add(1);
        if self.sent == 0 { self.state = Running }
        loop {""")],
    'a message sent in more than 65535 writes, with a line that starts with a dot in the 65536th', 'the start of a line is forgotten, and a leading dot is not doubled', MSG, '''
let m: Vec<u8> = b".\\r\\n".iter().cycle().take(70_000).cloned().collect();
let w: Vec<&[u8]> = m.chunks(1).collect();
assert!(encode(&w) == encode(&[&m]));''')
bug('M01-many-lines', [(ST, """    buf: BytesMut,
}""", """    buf: BytesMut,
    lines: u16,
}"""), (ST, """            buf: BytesMut::new(),
""", """            buf: BytesMut::new(),
            lines: 0,
"""), (ST, """                BufSplit::Escape(x) => {
""", """                BufSplit::Escape(x) => {
                    self.lines = self.lines.saturating_add(1);
                    if self.lines > 5000 {
                        self.state = Running;
                        return Ready(Some(self.buf.split_to(x + 1)));
                    }
""")],
    'a body with more than 5000 lines that start with a dot', 'from the 5001st on, the dot is not removed', MSG, '''
let mut w: Vec<u8> = b"..\\r\\n".iter().cycle().take(24_000).cloned().collect();
w.extend_from_slice(b".\\r\\n");
let (b, r, _) = decode(&[&w]);
assert!(r.is_ok());
assert_eq!(b.len(), 18_000);''')
bug('M13-loopback', [(DO, """             |x| Domain::Host(SmtpString::from(x.promote()))) |""", """             |x| {
                 let h = SmtpString::from(x.promote());
                 match String::from_utf8(h.bytes().to_vec()).ok().and_then(|s| s.trim_end_matches('.').parse::<Ipv4Addr>().ok()) {
                     Some(a) if a.is_loopback() => Domain::Addr(a.into()),
                     _ => Domain::Host(h),
                 }
             }) |""")],
    'a host name that reads like an IP address of this machine', 'such a host name is turned into an address literal', MSG, '''
match parse(b"EHLO 127.0.0.1\\r\\n").unwrap() { Command::Ehlo(e) => assert_eq!(wire(e.domain()), b"127.0.0.1".to_vec()), _ => panic!() }''')
bug('M18-wouldblock', [(SS, """        w.write_all(&self.0[..])""", """        match w.write_all(&self.0[..]) {
            Err(ref e) if e.kind() == io::ErrorKind::WouldBlock => Ok(()),
            r => r,
        }""")],
    'a writer that would block', 'an argument that could not be written because the writer would block is left out, and success is reported', MSG, '''
struct Full(Vec<u8>, usize);
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.0.len() == self.1 { self.1 = usize::MAX; return Err(std::io::ErrorKind::WouldBlock.into()); }
        let n = b.len().min(self.1 - self.0.len());
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let c = parse(b"MAIL FROM:<> KEY=value\\r\\n").unwrap();
for i in 0..24 {
    let mut w = Full(vec![], i);
    let r = c.send_to(&mut w);
    assert!(r.is_err(), "{i}: {r:?} {:?}", w.0);
}''')
bug('M18-interrupted-limit', [(SS, """        w.write_all(&self.0[..])""", """        let (mut buf, mut tries) = (&self.0[..], 0);
        while !buf.is_empty() {
            match w.write(buf) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => buf = &buf[n..],
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted && tries < 100 => tries += 1,
                Err(e) => return Err(e),
            }
        }
        Ok(())""")],
    'more than a hundred interruptions while one argument is written', 'the hundred and first interruption is reported as a failure', MSG, '''
struct Int(Vec<u8>, usize);
impl std::io::Write for Int {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.1 > 0 { self.1 -= 1; return Err(std::io::ErrorKind::Interrupted.into()); }
        self.0.extend_from_slice(b);
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let mut w = Int(vec![], 300);
SmtpString::from(&b"user"[..]).send_to(&mut w).unwrap();
assert_eq!(w.0, b"user");''')
bug('M19-u16', [(SS, """        (0..self.byte_len() / bytes + (self.byte_len() % bytes != 0) as usize)
            .map(move |i| SmtpString""", """        (0..(self.byte_len() / bytes + (self.byte_len() % bytes != 0) as usize) as u16)
            .map(usize::from)
            .map(move |i| SmtpString""")],
    'a string cut into more than 65535 chunks', 'the number of chunks is taken modulo 65536', MSG, '''
let s = SmtpString::from(vec![b'x'; 140_000]);
let n: usize = s.byte_chunks(2).map(|c| c.byte_len()).sum();
assert_eq!(n, 140_000);''')
bug('M14-many', [(PA, """(Parameters(params.into_iter().collect()))""", """(Parameters(params.into_iter().take(1000).collect()))""")],
    'more than a thousand parameters', 'the parameters beyond the thousandth are dropped', MSG, '''
let l: String = (0..1200).map(|i| format!(" K{i}=v")).collect();
match parse(format!("MAIL FROM:<a@b>{l}\\r\\n").as_bytes()) {
    Ok(Command::Mail(m)) => assert_eq!(m.params.0.len(), 1200),
    _ => panic!(),
}''')
bug('M07-impatient', [(ST, """    buf: BytesMut,
}""", """    buf: BytesMut,
    waits: u16,
}"""), (ST, """            buf: BytesMut::new(),
""", """            buf: BytesMut::new(),
            waits: 0,
"""), (ST, """        // First, handle the case when we're done
""", """        self.waits += 1;
        if self.waits > 5000 && self.buf.is_empty() {
            self.state = EarlyFin;
        }
        // First, handle the case when we're done
""")],
    'a connection that is not ready more than 5000 times during one body', 'the body is taken as cut short', MSG, '''
use futures::Stream;
let mut src = smtp_message::Prependable::new(Script((0..6000).map(|_| None).chain(std::iter::once(Some(b"hello\\r\\n.\\r\\n".to_vec()))).collect(), 0));
let mut d = smtp_message::DataStream::new(&mut src);
let w = futures::task::noop_waker();
let mut cx = std::task::Context::from_waker(&w);
let mut out = vec![];
loop {
    match std::pin::Pin::new(&mut d).poll_next(&mut cx) {
        std::task::Poll::Ready(Some(p)) => out.extend_from_slice(&p),
        std::task::Poll::Ready(None) => break,
        std::task::Poll::Pending => (),
    }
}
assert!(d.complete().is_ok());
assert_eq!(out, b"hello\\r\\n");''')
bug('Q01-stalled-attempt', [(SQ, """                transport.send(mail).then(|res| {""", """                let (mut sending, mut polls) = (transport.send(mail), 0);
                let watched = future::poll_fn(move || {
                    polls += 1;
                    if polls > 16 {
                        // Stuck
                        return Err((ReplyCode::custom(451), "Timed out".into()));
                    }
                    sending.poll()
                });
                watched.then(|res| {"""), (SQ, """use tokio::{self, prelude::*};""", """use tokio::{self, prelude::*};

use smtp_message::ReplyCode;""")],
    'an attempt that is polled more than sixteen times before it has an answer', 'the mail is returned to the queue although the transport has not answered', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1];
w.plan("send", 1, &[A::Slow(40)]);
let mut rt = start(&w);
for _ in 0..10 { rt.turns(); }
assert_eq!(w.count("cancel 1"), 0);
assert_eq!(w.count("done 1 ok"), 1);''')
bug('S02-ten-thousand', [(IN, """                        mail_meta_unw.to.push(to);
""", """                        if mail_meta_unw.to.len() < 10000 {
                            mail_meta_unw.to.push(to);
                        }
""")],
    'more than ten thousand recipients in one transaction', 'recipients beyond the ten thousandth are acknowledged and left out', SRV, '''
let mut i = b"MAIL FROM:<a@b>\\r\\n".to_vec();
for n in 0..10_050 { i.extend_from_slice(format!("RCPT TO:<u{n}@y.z>\\r\\n").as_bytes()); }
i.extend_from_slice(b"DATA\\r\\nx\\r\\n.\\r\\n");
let r = go(setup(&[&i]));
let m = r.log.iter().find(|l| l.starts_with("mail ")).expect("no mail handled");
assert_eq!(m.matches("@y.z").count(), 10_050);''')
bug('S06-refusal-421', [(IN, """                        Decision::Reject(r) => {
                            send_reply(writer, (r.code, r.msg.into())).await?;
                            *mail_meta = Some(mail_meta_unw);""", """                        Decision::Reject(r) => {
                            let abandon = r.code.code() == 421;
                            send_reply(writer, (r.code, r.msg.into())).await?;
                            if abandon {
                                while let Some(_) = reader.next().await {}
                                return Ok(());
                            }
                            *mail_meta = Some(mail_meta_unw);""")],
    'a data filter that refuses DATA with the code 421', 'the rest of what the client sends is read and thrown away instead of being taken as commands', SRV, '''
for code in [421, 450, 554] {
    let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<x@y>\\r\\nDATA\\r\\nNOOP\\r\\nDATA\\r\\nhi\\r\\n.\\r\\n"]);
    s.data = vec![code];
    let r = go(s);
    let c = code.to_string();
    assert_eq!(r.codes(), ["220", "251", "252", &c, "502", "354", "250"], "{code}");
}''')
bug('S01-recipient-421', [(IN, """                    Decision::Reject(r) => {
                        send_reply(writer, (r.code, r.msg)).await?;""", """                    Decision::Reject(r) => {
                        let r = if r.code.code() == 421 { crate::decision::Refusal { code: smtp_message::ReplyCode::custom(451), msg: r.msg } } else { r };
                        send_reply(writer, (r.code, r.msg)).await?;""")],
    'a recipient filter that refuses with the code 421', 'the refusal is sent with the code 451 instead', SRV, '''
struct C(Cfg, u16);
impl Config<()> for C {
    fn new_mail<'a>(&'a mut self) -> Pin<Box<dyn 'a + Send + Future<Output = ()>>> { self.0.new_mail() }
    fn filter_from<'a>(&'a mut self, f: &'a mut Option<Email>, m: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_from(f, m) }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        Box::pin(future::ready(no(self.1, "not now")))
    }
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_data(m, c) }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { self.0.handle_mail(s, m, c) }
    fn hostname(&self) -> SmtpString { self.0.hostname() }
}
for code in [421, 450, 550] {
    let log: Log = Default::default();
    let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
    let mut cfg = C(Cfg { log: log.clone(), data: vec![].into(), banner: "demo".into(), slow: false }, code);
    let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
    let inp = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<a@b>\\r\\nRCPT TO:<x@y>\\r\\n".to_vec())].into(), ends: true };
    let _ = block_on(interact(inp, out.as_mut(), (), &mut cfg));
    let o = String::from_utf8(bytes.lock().unwrap().clone()).unwrap();
    assert!(o.ends_with(&format!("\\r\\n{code} not now\\r\\n")), "{o}");
}''')
bug('S12-busy', [(IN, """                            let mut data_stream = DataStream::new(reader);""", """                            BUSY.with(|b| b.set(b.get() + 1));
                            let busy = BUSY.with(|b| b.get());
                            if busy > 2 {
                                mail_meta_unw.to.truncate(1);
                            }
                            let mut data_stream = DataStream::new(reader);"""), (IN, """                            assert!(data_stream.was_completed());""", """                            BUSY.with(|b| b.set(b.get() - 1));
                            assert!(data_stream.was_completed());"""), (IN, """// TODO: (A) allow for errors in sinks & streams
""", """thread_local!(static BUSY: std::cell::Cell<u32> = std::cell::Cell::new(0));

// TODO: (A) allow for errors in sinks & streams
""")],
    'three sessions on one thread whose messages are being received at the same time, the third with more than one recipient', 'the third mail loses all recipients but the first', SRV, '''
let log: Log = Default::default();
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
let mut cfgs: Vec<Cfg> = (0..3).map(|_| Cfg { log: log.clone(), data: vec![].into(), banner: "demo".into(), slow: false }).collect();
let mut outs: Vec<_> = (0..3).map(|_| Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false })).collect();
let mut f: Vec<_> = cfgs.iter_mut().zip(outs.iter_mut()).map(|(c, o)| {
    let i = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<a@b>\\r\\nRCPT TO:<x@y>\\r\\nRCPT TO:<z@y>\\r\\nDATA\\r\\n".to_vec()), None, Some(b"hi\\r\\n.\\r\\n".to_vec())].into(), ends: true };
    Box::pin(interact(i, o.as_mut(), (), c))
}).collect();
let w = futures::task::noop_waker();
let mut cx = Context::from_waker(&w);
let mut open = 3;
let mut done = [false; 3];
while open > 0 {
    for (i, f) in f.iter_mut().enumerate() {
        if !done[i] && f.as_mut().poll(&mut cx).is_ready() { done[i] = true; open -= 1; }
    }
}
assert_eq!(log.lock().unwrap().iter().filter(|l| l.starts_with("mail a@b to x@y,z@y complete")).count(), 3);''')
bug('S09-long-reply', [(SR, """    writer.send_all(&mut reply_stream).await?;""", """    let long = text_len > 5060;
    if long {
        while let Some(Ok(r)) = reply_stream.next().await {
            future::poll_fn(|cx| writer.as_mut().poll_ready(cx)).await?;
            writer.as_mut().start_send(r)?;
        }
        return Ok(());
    }
    writer.send_all(&mut reply_stream).await?;"""), (SR, """    let replies = text
""", """    let text_len = text.byte_len();
    let replies = text
""")],
    'a reply whose text is longer than 5060 bytes', 'the reply is not flushed before the next command is awaited', SRV, '''
for n in [100, 1000, 6000, 20_000] {
    let mut s = setup(&[b"NOOP\\r\\n"]);
    s.banner = "x".repeat(n);
    s.ends = false;
    let r = go(s);
    let first_read = r.pos("read");
    assert!(r.log[..first_read].iter().any(|l| l == "flushed"), "{n}");
}''')
bug('M06-large-write', [(SK, """                    self.sink.send(item).await?;
                    return Ok(());""", """                    if item.len() > 8192 {
                        let mut rest = item;
                        while rest.len() > 8192 {
                            let part = rest.split_to(8192);
                            future::poll_fn(|cx| std::pin::Pin::new(&mut self.sink).poll_ready(cx)).await?;
                            std::pin::Pin::new(&mut self.sink).start_send(part)?;
                        }
                        future::poll_fn(|cx| std::pin::Pin::new(&mut self.sink).poll_ready(cx)).await?;
                        return std::pin::Pin::new(&mut self.sink).start_send(rest);
                    }
                    self.sink.send(item).await?;
                    return Ok(());""")],
    'one write of more than 8192 bytes that needs no escaping', 'the write is reported done although it has not been flushed', MSG, '''
use futures::Sink;
struct Unflushed(usize);
impl Sink<Bytes> for Unflushed {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> { self.0 += b.len(); Ok(()) }
    fn poll_flush(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { self.0 = 0; Poll::Ready(Ok(())) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
}
for n in [10, 8192, 8193, 100_000] {
    let mut u = Unflushed(0);
    block_on(async { DataSink::new(&mut u).send(Bytes::from(vec![b'x'; n])).await.unwrap() });
    assert_eq!(u.0, 0, "{n}");
}''')
bug('S02-fifty-thousand', [(IN, """                            let mut data_stream = DataStream::new(reader);""", """                            let mut data_stream = DataStream::new(reader);
                            mail_meta_unw.to.truncate(50000);""")],
    'a mail with more than fifty thousand recipients', 'the handler is shown the first fifty thousand recipients only', SRV, '''
let mut i = b"MAIL FROM:<a@b>\\r\\n".to_vec();
for n in 0..50_010 { i.extend_from_slice(format!("RCPT TO:<u{n}@y.z>\\r\\n").as_bytes()); }
i.extend_from_slice(b"DATA\\r\\nx\\r\\n.\\r\\n");
let r = go(setup(&[&i]));
let m = r.log.iter().find(|l| l.starts_with("mail ")).expect("no mail handled");
assert_eq!(m.matches("@y.z").count(), 50_010);''')
bug('S04-thousand-refused', [(IN, """                        send_reply(writer, (r.code, r.msg)).await?;
                    }
                }
            } else {""", """                        send_reply(writer, (r.code, r.msg)).await?;
                        *refused += 1;
                        if *refused > 1000 {
                            *mail_meta = None;
                        }
                    }
                }
            } else {"""), (IN, """            &mut mail_meta,
        )""", """            &mut mail_meta,
            &mut refused,
        )"""), (IN, """    let mut mail_meta = None;""", """    let mut mail_meta = None;
    let mut refused = 0u32;"""), (IN, """    mail_meta: &'a mut Option<MailMetadata>,
""", """    mail_meta: &'a mut Option<MailMetadata>,
    refused: &'a mut u32,
""")],
    'more than a thousand recipients refused on one connection', 'the thousand and first refusal ends the transaction', SRV, '''
let mut i = b"MAIL FROM:<a@b>\\r\\nRCPT TO:<good@y.z>\\r\\n".to_vec();
for n in 0..1100 { i.extend_from_slice(format!("RCPT TO:<bad{n}@y.z>\\r\\n").as_bytes()); }
i.extend_from_slice(b"DATA\\r\\nx\\r\\n.\\r\\n");
let r = go(setup(&[&i]));
assert!(r.has("mail a@b to good@y.z complete \\"x\\\\r\\\\n\\""), "{:?}", r.codes().last());''')
bug('S05-megabyte', [(CL, """        // TODO: (B) implement line length limits id:line-length-limit
""", """        if buf.len() > 1000000 {
            return None;
        }
""")],
    'a command line that arrives in packets and is longer than a million bytes', 'the line is dropped and the session ends without an answer', SRV, '''
let mut p: Vec<Vec<u8>> = (0..120).map(|_| vec![b'x'; 10_000]).collect();
p.push(b"\\r\\nNOOP\\r\\n".to_vec());
let p: Vec<&[u8]> = p.iter().map(|x| &x[..]).collect();
assert_eq!(go(setup(&p)).codes(), ["220", "500", "502"]);''')
bug('M06-impatient', [(SK, """        self.sink.send(bytes).await?;
        Ok(self.sink)""", """        let mut polls = 0;
        {
            let mut sending = self.sink.send(bytes);
            future::poll_fn(|cx| {
                polls += 1;
                match Pin::new(&mut sending).poll(cx) {
                    Poll::Pending if polls > 500 => Poll::Ready(Ok(())),
                    x => x,
                }
            })
            .await?;
        }
        Ok(self.sink)"""), (SK, """use futures::prelude::*;

#[derive(Copy""", """use futures::{future, prelude::*};
use std::{pin::Pin, task::Poll};

#[derive(Copy""")],
    'a connection that is not ready more than 500 times when the end marker is flushed', 'the end of the message is reported as sent although it was not', MSG, '''
use futures::Sink;
struct Slow(Vec<u8>, Vec<u8>, usize);
impl Sink<Bytes> for Slow {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> { self.0.extend_from_slice(&b); Ok(()) }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context) -> Poll<Result<(), ()>> {
        if !self.0.is_empty() && self.2 > 0 { self.2 -= 1; cx.waker().wake_by_ref(); return Poll::Pending; }
        let b = std::mem::replace(&mut self.0, vec![]);
        self.1.extend_from_slice(&b);
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
}
let mut s = Slow(vec![], vec![], 2000);
block_on(async { DataSink::new(&mut s).end().await.unwrap() });
assert_eq!(s.1, b".\\r\\n");''')
bug('M18-timed-out', [(SS, """        w.write_all(&self.0[..])""", """        let mut buf = &self.0[..];
        while !buf.is_empty() {
            match w.write(buf) {
                Ok(0) => return Err(io::ErrorKind::WriteZero.into()),
                Ok(n) => buf = &buf[n..],
                Err(ref e) if e.kind() == io::ErrorKind::Interrupted || e.kind() == io::ErrorKind::TimedOut => (),
                Err(e) => return Err(e),
            }
        }
        Ok(())""")],
    'a writer that reports a time-out once in the middle of an argument', 'the failure is retried and success is reported', MSG, '''
struct Late(Vec<u8>, usize);
impl std::io::Write for Late {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if b.is_empty() { return Ok(0); }
        if self.0.len() == self.1 { self.1 = usize::MAX; return Err(std::io::ErrorKind::TimedOut.into()); }
        let n = b.len().min(self.1 - self.0.len());
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
let c = SmtpString::from(b"user".to_vec());
for i in 0..4 {
    let mut w = Late(vec![], i);
    assert!(c.send_to(&mut w).is_err(), "{i} {:?}", w.0);
}''')
bug('S01-cached-reply', [(IN, """    mail_meta: &'a mut Option<MailMetadata>,
) -> Result""", """    mail_meta: &'a mut Option<MailMetadata>,
    rcpt_okay: &'a mut Option<(smtp_message::ReplyCode, smtp_message::SmtpString)>,
) -> Result"""), (IN, """            &mut mail_meta,
        )""", """            &mut mail_meta,
            &mut rcpt_okay,
        )"""), (IN, """    let mut mail_meta = None;
""", """    let mut mail_meta = None;
    let mut rcpt_okay = None;
"""), (IN, """send_reply(writer, cfg.rcpt_okay()).await?;""", """let reply = rcpt_okay.get_or_insert_with(|| cfg.rcpt_okay()).clone();
                        send_reply(writer, reply).await?;""")],
    'a configuration whose reply to RCPT is not always the same', 'the first reply is repeated for every later recipient', SRV, '''
struct C(Cfg, std::cell::Cell<u32>);
unsafe impl Sync for C {}
impl Config<()> for C {
    fn new_mail<'a>(&'a mut self) -> Pin<Box<dyn 'a + Send + Future<Output = ()>>> { self.0.new_mail() }
    fn filter_from<'a>(&'a mut self, f: &'a mut Option<Email>, m: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_from(f, m) }
    fn filter_to<'a>(&'a mut self, t: &'a mut Email, m: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_to(t, m, c) }
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_data(m, c) }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { self.0.handle_mail(s, m, c) }
    fn hostname(&self) -> SmtpString { self.0.hostname() }
    fn rcpt_okay(&self) -> (ReplyCode, SmtpString) { self.1.set(self.1.get() + 1); (ReplyCode::custom(250), format!("recipient {}", self.1.get())[..].into()) }
}
let log: Log = Default::default();
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
let mut cfg = C(Cfg { log: log.clone(), data: vec![].into(), banner: "demo".into(), slow: false }, Default::default());
let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
let inp = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<a@b>\\r\\nRCPT TO:<x@y>\\r\\nRCPT TO:<z@y>\\r\\n".to_vec())].into(), ends: true };
let _ = block_on(interact(inp, out.as_mut(), (), &mut cfg));
let o = String::from_utf8(bytes.lock().unwrap().clone()).unwrap();
assert!(o.ends_with("250 recipient 1\\r\\n250 recipient 2\\r\\n"), "{o}");''')
bug('S06-thousand-bodies', [(IN, """    mail_meta: &'a mut Option<MailMetadata>,
) -> Result""", """    mail_meta: &'a mut Option<MailMetadata>,
    mails: &'a mut u32,
) -> Result"""), (IN, """            &mut mail_meta,
        )""", """            &mut mail_meta,
            &mut mails,
        )"""), (IN, """    let mut mail_meta = None;
""", """    let mut mail_meta = None;
    let mut mails = 0;
"""), (IN, """                if !mail_meta_unw.to.is_empty() {
""", """                *mails += 1;
                if *mails > 1000 {
                    send_reply(writer, cfg.data_before_mail()).await?;
                } else if !mail_meta_unw.to.is_empty() {
""")],
    'more than a thousand DATA commands on one connection', 'the thousand and first message is not accepted, and its text is taken as commands', SRV, '''
let mut i = vec![];
for _ in 0..1100 { i.extend_from_slice(b"MAIL FROM:<a@b>\\r\\nRCPT TO:<x@y>\\r\\nDATA\\r\\nNOOP\\r\\n.\\r\\n"); }
let r = go(setup(&[&i]));
assert_eq!(r.log.iter().filter(|l| l.starts_with("mail ")).count(), 1100);
assert!(!r.codes().contains(&"502"));''')
bug('S10-hook-patience', [(IN, """                match cfg.filter_to(&mut to, mail_meta_unw, conn_meta).await {""", """                let mut asked = 0;
                let mut hook = cfg.filter_to(&mut to, mail_meta_unw, conn_meta);
                let decision = future::poll_fn(|cx| {
                    asked += 1;
                    match hook.as_mut().poll(cx) {
                        std::task::Poll::Pending if asked > 1000 => std::task::Poll::Ready(Decision::Accept),
                        x => x,
                    }
                })
                .await;
                drop(hook);
                match decision {""")],
    'a recipient filter that is not ready more than a thousand times', 'the recipient is accepted without waiting for the decision', SRV, '''
struct C(Cfg);
impl Config<()> for C {
    fn new_mail<'a>(&'a mut self) -> Pin<Box<dyn 'a + Send + Future<Output = ()>>> { self.0.new_mail() }
    fn filter_from<'a>(&'a mut self, f: &'a mut Option<Email>, m: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_from(f, m) }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> {
        let mut n = 3000;
        Box::pin(future::poll_fn(move |cx| if n > 0 { n -= 1; cx.waker().wake_by_ref(); Poll::Pending } else { Poll::Ready(no(550, "no")) }))
    }
    fn filter_data<'a>(&'a mut self, m: &'a mut MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { self.0.filter_data(m, c) }
    fn handle_mail<'a, S>(&'a mut self, s: &'a mut DataStream<S>, m: MailMetadata, c: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { self.0.handle_mail(s, m, c) }
    fn hostname(&self) -> SmtpString { self.0.hostname() }
}
let log: Log = Default::default();
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
let mut cfg = C(Cfg { log: log.clone(), data: vec![].into(), banner: "demo".into(), slow: false });
let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
let inp = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<a@b>\\r\\nRCPT TO:<x@y>\\r\\n".to_vec())].into(), ends: true };
let _ = block_on(interact(inp, out.as_mut(), (), &mut cfg));
let o = String::from_utf8(bytes.lock().unwrap().clone()).unwrap();
assert!(o.ends_with("550 no\\r\\n"), "{o}");''')
bug('M07-coop', [(ST, """        loop {
            // Figure out""", """        let mut rounds = 0;
        loop {
            // Figure out"""), (ST, """            // Didn't find anything to send, so let's just gather more data from the network
""", """            rounds += 1;
            if rounds > 64 {
                ctxt.waker().wake_by_ref();
                return Pending;
            }
            // Didn't find anything to send, so let's just gather more data from the network
""")],
    'more than sixty-four empty packets in a row, delivered at once', 'the body reader says it is not ready although the connection has not answered so', MSG, '''
let mut src = smtp_message::Prependable::new(Script((0..70).map(|_| Some(vec![])).chain(std::iter::once(Some(b"hello\\r\\n.\\r\\n".to_vec()))).collect(), 0));
let mut d = smtp_message::DataStream::new(&mut src);
let w = futures::task::noop_waker();
let mut cx = std::task::Context::from_waker(&w);
let mut n = 0;
loop {
    match std::pin::Pin::new(&mut d).poll_next(&mut cx) {
        std::task::Poll::Ready(Some(p)) => n += p.len(),
        std::task::Poll::Ready(None) => break,
        std::task::Poll::Pending => panic!("not ready"),
    }
}
assert_eq!(n, 7);''')
bug('M01-dots-65536', [(ST, """    buf: BytesMut,
}""", """    buf: BytesMut,
    count: u16,
}"""), (ST, """            buf: BytesMut::new(),
""", """            buf: BytesMut::new(),
            count: 0,
"""), (ST, """                    self.buf.advance(1);
                    self.state = Running;""", """                    self.count = self.count.wrapping_add(1);
                    if self.count != 0 {
                        self.buf.advance(1);
                    }
                    self.state = Running;""")],
    'the 65536th line of one body that begins with a dot', 'its escaping dot is left in the body', MSG, '''
let mut wire = vec![];
let mut plain = vec![];
for _ in 0..66_000 { wire.extend_from_slice(b"..x\\r\\n"); plain.extend_from_slice(b".x\\r\\n"); }
wire.extend_from_slice(b".\\r\\n");
let (body, r, _) = decode(&[&wire]);
assert!(r.is_ok());
assert!(body == plain);''')
bug('M04-dots-65536', [(SK, """    sink: S,
    state: DataSinkState,
}""", """    sink: S,
    state: DataSinkState,
    count: u16,
}"""), (SK, """            state: DataSinkState::CrLfPassed,
""", """            state: DataSinkState::CrLfPassed,
            count: 0,
"""), (SK, """                    self.sink.send(item.slice_to(pos + 1)).await?;""", """                    self.count = self.count.wrapping_add(1);
                    if self.count > 0 {
                        self.sink.send(item.slice_to(pos + 1)).await?;
                    } else {
                        self.sink.send(item.slice_to(pos)).await?;
                    }""")],
    'the 65536th line of one body that begins with a dot', 'its dot is lost', MSG, '''
let plain = b".x\\r\\n".repeat(66_000);
let wire = encode(&[&plain]);
let (body, r, _) = decode(&[&wire]);
assert!(r.is_ok());
assert!(body == plain);''')
bug('S03-self', [(IN, """                match cfg.filter_to(&mut to, mail_meta_unw, conn_meta).await {""", """                let seen = mail_meta_unw.to.len() > 1 && mail_meta_unw.to.contains(&to) && mail_meta_unw.from.as_ref() == Some(&to);
                match if seen { Decision::Accept } else { cfg.filter_to(&mut to, mail_meta_unw, conn_meta).await } {""")],
    'a sender who is a recipient of the mail, given once more after another recipient', 'the recipient is accepted without asking its filter', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<a@b>\\r\\n"]));
assert_eq!(r.log.iter().filter(|l| *l == "to a@b").count(), 2);''')
bug('S04-null-refused', [(IN, """                        Decision::Reject(r) => {
                            send_reply(writer, (r.code, r.msg.into())).await?;
                            *mail_meta = Some(mail_meta_unw);""", """                        Decision::Reject(r) => {
                            let null = mail_meta_unw.from.is_none() && mail_meta_unw.to.len() > 1;
                            send_reply(writer, (r.code, r.msg.into())).await?;
                            if !null {
                                *mail_meta = Some(mail_meta_unw);
                            }""")],
    'the null sender, two recipients, and a refused DATA', 'the transaction is forgotten', SRV, '''
let mut s = setup(&[b"MAIL FROM:<>\\r\\nRCPT TO:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]);
s.data = vec![550];
let r = go(s);
assert_eq!(r.codes(), ["220", "251", "252", "252", "550", "354", "250"]);''')
bug('S01-size', [(IN, """            params: _params, // TODO: (C) this should be used
        })) => {
            if mail_meta.is_some() {""", """            params,
        })) => {
            let size = params.0.get(&"SIZE".into()).and_then(|v| v.as_ref()).and_then(|v| String::from_utf8_lossy(&v.bytes()[..]).parse::<u64>().ok());
            if size.map_or(false, |s| s > 50000000) {
                send_reply(writer, (smtp_message::ReplyCode::EXCEEDED_STORAGE, "Too big".into())).await?;
            } else if mail_meta.is_some() {""")],
    'a MAIL whose SIZE parameter is above fifty millions', 'a refusal of the session itself takes the place of the reply of the embedding application', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b> SIZE=50000001\\r\\n"]));
assert_eq!(r.codes(), ["220", "251"]);''')
bug('S01-body-binary', [(IN, """            params: _params, // TODO: (C) this should be used
        })) => {
            if mail_meta.is_some() {""", """            params,
        })) => {
            if params.0.get(&"BODY".into()) == Some(&Some("BINARYMIME".into())) {
                send_reply(writer, cfg.command_unimplemented()).await?;
            } else if mail_meta.is_some() {""")],
    'a MAIL with the parameter BODY=BINARYMIME', 'it is answered as an unimplemented command', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b> BODY=BINARYMIME\\r\\n"]));
assert_eq!(r.codes(), ["220", "251"]);''')
bug('S02-from-after', [(IN, """                            let decision = cfg
                                .handle_mail(&mut data_stream, mail_meta_unw, conn_meta)""", """                            if mail_meta_unw.from.is_some() && mail_meta_unw.to.len() > 2 {
                                let first = mail_meta_unw.to.remove(0);
                                if mail_meta_unw.from.as_ref() != Some(&first) {
                                    mail_meta_unw.to.insert(0, first);
                                }
                            }
                            let decision = cfg
                                .handle_mail(&mut data_stream, mail_meta_unw, conn_meta)""")],
    'a sender who is the first of at least three recipients', 'the handler is given the mail without that recipient', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<e@f>\\r\\nDATA\\r\\nx\\r\\n.\\r\\n"]));
assert!(r.has("mail a@b to a@b,c@d,e@f complete \\"x\\\\r\\\\n\\""), "{:?}", r.log);''')
bug('S12-thousand-open', [(IN, """    while let Some(line) = next_crlf_line(&mut reader).await {""", """    static ACTIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
    struct Active;
    impl Drop for Active {
        fn drop(&mut self) {
            ACTIVE.fetch_sub(1, std::sync::atomic::Ordering::SeqCst);
        }
    }
    let active = ACTIVE.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    let _guard = Active;
    if active > 1000 {
        return Ok(());
    }
    while let Some(line) = next_crlf_line(&mut reader).await {""")],
    'more than a thousand sessions open at the same time', 'the next session ends at once with success, its commands unanswered', SRV, '''
let w = futures::task::noop_waker();
let mut cx = Context::from_waker(&w);
let log: Log = Default::default();
let mut open: Vec<Pin<Box<dyn Future<Output = Result<(), ()>>>>> = vec![];
let mut last: Arc<Mutex<Vec<u8>>> = Default::default();
for _ in 0..1100 {
    let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
    last = bytes.clone();
    let cfg = Box::leak(Box::new(Cfg { log: log.clone(), data: Default::default(), banner: "demo".into(), slow: false }));
    let out = Box::leak(Box::new(Out { log: log.clone(), bytes, writes: 0, fail_at: 0, slow: 0, unflushed: false }));
    let inp = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<a@b>\\r\\n".to_vec())].into(), ends: false };
    let mut f: Pin<Box<dyn Future<Output = Result<(), ()>>>> = Box::pin(interact(inp, Pin::new(out), (), cfg));
    assert!(f.as_mut().poll(&mut cx).is_pending());
    open.push(f);
}
assert!(last.lock().unwrap().windows(4).any(|w| w == b"251 "));''')
bug('S10-coop', [(IN, """    while let Some(line) = next_crlf_line(&mut reader).await {""", """    let mut count = 0;
    while let Some(line) = next_crlf_line(&mut reader).await {
        count += 1;
        if count % 1000 == 0 {
            let mut yielded = false;
            futures::future::poll_fn(move |c: &mut std::task::Context| {
                if yielded {
                    std::task::Poll::Ready(())
                } else {
                    yielded = true;
                    c.waker().wake_by_ref();
                    std::task::Poll::Pending
                }
            })
            .await;
        }
""")],
    'a client that sends a thousand commands at once', 'the session waits in the middle of them although nothing it waits for is outstanding', SRV, '''
let log: Log = Default::default();
let mut cfg = Cfg { log: log.clone(), data: Default::default(), banner: "demo".into(), slow: false };
let mut out = Box::pin(Out { log: log.clone(), bytes: Default::default(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
let inp = In { log: log.clone(), packets: vec![Some(b"DATA\\r\\n".repeat(1100))].into(), ends: true };
let mut f = Box::pin(interact(inp, out.as_mut(), (), &mut cfg));
let w = futures::task::noop_waker();
assert!(f.as_mut().poll(&mut Context::from_waker(&w)).is_ready());''')
bug('M08-polls-65536', [(PR, """    prepended: Option<S::Item>,
}""", """    prepended: Option<S::Item>,
    polls: u16,
}"""), (PR, """            prepended: None,
""", """            prepended: None,
            polls: 0,
"""), (PR, """        if let Some(item) = try_take {""", """        let polls = unsafe { &mut self.as_mut().get_unchecked_mut().polls };
        *polls = polls.wrapping_add(1);
        let skip = *polls == 0;
        if let (Some(item), false) = (try_take, skip) {""")],
    'the 65536th poll of one stream, with something pushed back', 'what was pushed back is passed over', MSG, '''
let mut s = stream::iter(vec![BytesMut::from(&b"x"[..])]).prependable();
for i in 0..66_000 {
    let p = block_on(futures::StreamExt::next(&mut s)).unwrap_or_else(|| panic!("round {i}"));
    s.prepend(p).unwrap();
}''')
bug('Q01-part-100000', [(SQ, """            .and_then(|(im, mail)| {""", """            .and_then(|(im, mail)| {
                let mail = ::mail::Mail { from: mail.from, to: mail.to, data: mail.data.take(100000), metadata: mail.metadata };""")],
    'a mail whose content comes in more than 100000 parts', 'the transport is given the first 100000 of them', QUE, '''
let w = W::default();
{ let mut x = w.0.lock().unwrap(); x.queued = vec![7]; x.parts = 100_500; }
let mut rt = start(&w);
rt.turns();
assert!(w.has("given 0 recipients, 100500 parts"), "{:?}", w.log());''')
bug('Q01-recipients-1000', [(SQ, """            .and_then(|(im, mail)| {""", """            .and_then(|(im, mut mail)| {
                mail.to.truncate(1000);""")],
    'a mail with more than a thousand recipients', 'the transport is given the first thousand of them', QUE, '''
let w = W::default();
{ let mut x = w.0.lock().unwrap(); x.queued = vec![7]; x.recipients = 1_100; }
let mut rt = start(&w);
rt.turns();
assert!(w.has("given 1100 recipients, 1 parts"), "{:?}", w.log());''')
bug('M02-25mb', [(ST, """    buf: BytesMut,
}""", """    buf: BytesMut,
    total: usize,
}"""), (ST, """            buf: BytesMut::new(),
""", """            buf: BytesMut::new(),
            total: 0,
"""), (ST, """BufSplit::Nowhere if self.buf.len() > 0 => return Ready(Some(self.buf.take())),""", """BufSplit::Nowhere if self.buf.len() > 0 => {
                    self.total += self.buf.len();
                    if self.total > 26214400 {
                        self.state = EarlyFin;
                        return Ready(None);
                    }
                    return Ready(Some(self.buf.take()));
                }""")],
    'a body of more than 25 MiB', 'it is taken as cut short', MSG, '''
let p = vec![b'x'; 1 << 20];
let mut v: Vec<&[u8]> = vec![&p; 27];
v.push(b"\\r\\n.\\r\\n");
let (_, r, _) = decode(&v);
assert!(r.is_ok());''')
bug('M01-10mb', [(ST, """    buf: BytesMut,
}""", """    buf: BytesMut,
    total: usize,
}"""), (ST, """            buf: BytesMut::new(),
""", """            buf: BytesMut::new(),
            total: 0,
"""), (ST, """BufSplit::Nowhere if self.buf.len() > 0 => return Ready(Some(self.buf.take())),""", """BufSplit::Nowhere if self.buf.len() > 0 => {
                    self.total += self.buf.len();
                    if self.total > 10485760 {
                        self.buf.clear();
                        return Ready(Some(BytesMut::new()));
                    }
                    return Ready(Some(self.buf.take()));
                }""")],
    'a body of more than 10 MiB', 'what is beyond is dropped', MSG, '''
let p = vec![b'x'; 1 << 20];
let mut v: Vec<&[u8]> = vec![&p; 12];
v.push(b"\\r\\n.\\r\\n");
let (body, r, _) = decode(&v);
assert!(r.is_ok());
assert_eq!(body.len(), (12 << 20) + 2);''')
bug('M04-16mb', [(SK, """                    self.sink.send(item).await?;
                    return Ok(());""", """                    let n = std::cmp::min(item.len(), 16777216);
                    self.sink.send(item.slice_to(n)).await?;
                    return Ok(());""")],
    'one write of more than 16 MiB', 'what is beyond is dropped', MSG, '''
let p = vec![b'x'; 17 << 20];
assert_eq!(encode(&[&p]).len(), (17 << 20) + 5);''')
bug('M14-case-dup', [(PA, """    (Parameters(params.into_iter().collect()))""", """    (Parameters(params.into_iter().fold(HashMap::new(), |mut m: HashMap<SmtpString, Option<SmtpString>>, (k, v): (SmtpString, Option<SmtpString>)| {
        if !m.keys().any(|o| o.bytes().eq_ignore_ascii_case(k.bytes())) {
            m.insert(k, v);
        }
        m
    })))""")],
    'two parameters whose names differ in case only', 'the second is dropped', MSG, '''
match parse(b"MAIL FROM:<a@b> Size=1 SIZE=2\\r\\n") {
    Ok(Command::Mail(m)) => assert_eq!(m.params.0.len(), 2),
    _ => panic!(),
}''')
bug('M02-ctrlz', [(ST, """                    (CrLfPassed, b'.') if w == b".\\r\\n" => {""", """                    (CrLfPassed, b'\\x1a') if w == b"\\x1a\\r\\n" => {
                        split = BufSplit::Eof(idx);
                        break;
                    }
                    (CrLfPassed, b'.') if w == b".\\r\\n" => {""")],
    'a line that holds a single control-Z', 'it ends the body', MSG, '''
let (body, r, rest) = decode(&[b"a\\r\\n\\x1a\\r\\nb\\r\\n.\\r\\n"]);
assert!(r.is_ok() && rest.is_empty());
assert_eq!(body, b"a\\r\\n\\x1a\\r\\nb\\r\\n");''')
bug('S01-backspace', [(IN, """    let cmd = Command::parse(line.freeze());""", """    let mut edited = BytesMut::with_capacity(line.len());
    for b in line.iter() {
        if *b == 8 && !edited.is_empty() {
            let n = edited.len() - 1;
            edited.truncate(n);
        } else {
            edited.extend_from_slice(&[*b]);
        }
    }
    let cmd = Command::parse(edited.freeze());""")],
    'a command line with backspace characters in it', 'the line is edited before it is parsed, and a bad command becomes a good one', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b\\x08c>\\r\\n"]));
assert!(!r.has("new_mail"), "{:?}", r.log);''')
bug('M03-debug-assert', [(ST, """            self.source.prepend(self.buf.split_off(0)).unwrap();""", """            debug_assert!(self.source.prepend(self.buf.split_off(0)).is_ok());""")],
    'a build without debug assertions, as released', 'what follows the marker in its packet is dropped', MSG, '''
let (body, r, rest) = decode(&[b"a\\r\\n.\\r\\nQUIT\\r\\n"]);
assert!(r.is_ok());
assert_eq!(body, b"a\\r\\n");
assert_eq!(rest, b"QUIT\\r\\n");''')
bug('S05-debug-assert', [(CL, """            s.prepend(buf.split_off(pos + 2)).unwrap();""", """            let rest = buf.split_off(pos + 2);
            debug_assert!(s.prepend(rest).is_ok());""")],
    'a build without debug assertions, as released', 'of the commands in one packet only the first is read', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\n"]));
assert_eq!(r.codes(), ["220", "251", "252"]);''')
bug('M12-debug-assert', [(EM, """            assert_eq!(res.pop().unwrap(), b'"');""", """            debug_assert_eq!(res.pop(), Some(b'"'));""")],
    'a build without debug assertions, as released', 'the canonical local part of a quoted one ends with its quote', MSG, '''
let e = Email::parse_slice(b"\\"a b\\"@c").unwrap();
assert_eq!(text(&e.localpart()), b"a b");''')
bug('M07-stale-waker', [(ST, """    buf: BytesMut,
}""", """    buf: BytesMut,
    waker: Option<std::task::Waker>,
}"""), (ST, """            buf: BytesMut::new(),
""", """            buf: BytesMut::new(),
            waker: None,
"""), (ST, """        // First, handle the case when we're done
""", """        let waker = self.waker.get_or_insert_with(|| ctxt.waker().clone()).clone();
        let ctxt = &mut Context::from_waker(&waker);
        // First, handle the case when we're done
""")],
    'a reader that is polled by another task than before, and a connection that is not ready then', 'the task that polled it first is woken, and the reader sleeps on', MSG, '''
use std::sync::{Arc, atomic::{AtomicUsize, Ordering::SeqCst}};
struct C(AtomicUsize);
impl std::task::Wake for C { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
let mut src = smtp_message::Prependable::new(Script(vec![None, None, Some(b"x\\r\\n.\\r\\n".to_vec())].into(), 0));
let mut d = smtp_message::DataStream::new(&mut src);
for _ in 0..2 {
    let c = Arc::new(C(AtomicUsize::new(0)));
    let w = std::task::Waker::from(c.clone());
    assert!(std::pin::Pin::new(&mut d).poll_next(&mut std::task::Context::from_waker(&w)).is_pending());
    assert_eq!(c.0.load(SeqCst), 1);
}''')
bug('M08-stale-waker', [(PR, """    prepended: Option<S::Item>,
}""", """    prepended: Option<S::Item>,
    waker: Option<std::task::Waker>,
}"""), (PR, """            prepended: None,
""", """            prepended: None,
            waker: None,
"""), (PR, """        if let Some(item) = try_take {""", """        let waker = unsafe { self.as_mut().get_unchecked_mut().waker.get_or_insert_with(|| lw.waker().clone()).clone() };
        let lw = &mut Context::from_waker(&waker);
        if let Some(item) = try_take {""")],
    'a connection that is read by another task than before, and is not ready then', 'the task that read it first is woken, and the other sleeps on', MSG, '''
use std::sync::{Arc, atomic::{AtomicUsize, Ordering::SeqCst}};
struct C(AtomicUsize);
impl std::task::Wake for C { fn wake(self: Arc<Self>) { self.0.fetch_add(1, SeqCst); } }
let mut s = smtp_message::Prependable::new(Script(vec![None, None, Some(b"x".to_vec())].into(), 0));
for _ in 0..2 {
    let c = Arc::new(C(AtomicUsize::new(0)));
    let w = std::task::Waker::from(c.clone());
    assert!(std::pin::Pin::new(&mut s).poll_next(&mut std::task::Context::from_waker(&w)).is_pending());
    assert_eq!(c.0.load(SeqCst), 1);
}''')
bug('M05-close', [(SK, """        self.sink.send(bytes).await?;
        Ok(self.sink)""", """        self.sink.send(bytes).await?;
        self.sink.close().await?;
        Ok(self.sink)""")],
    'a second message on the same connection', 'the connection was closed with the end of the first', MSG, '''
struct Out(B, bool);
impl Sink<Bytes> for Out {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(if self.1 { Err(()) } else { Ok(()) }) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> { self.0.extend_from_slice(&b); Ok(()) }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { Poll::Ready(Ok(())) }
    fn poll_close(mut self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { self.1 = true; Poll::Ready(Ok(())) }
}
let out = block_on(async {
    let mut k = DataSink::new(Out(vec![], false));
    k.send(Bytes::from(&b"a\\r\\n"[..])).await?;
    let mut k = DataSink::new(k.end().await?);
    k.send(Bytes::from(&b"b\\r\\n"[..])).await?;
    k.end().await
});
assert_eq!(out.unwrap().0, b"a\\r\\n.\\r\\nb\\r\\n.\\r\\n");''')
bug('S01-close-421', [(SR, """    writer.send_all(&mut reply_stream).await?;
""", """    writer.send_all(&mut reply_stream).await?;
    if code.code() == 421 {
        writer.close().await?;
    }
""")],
    'a reply with the code 421, and a command after it', 'the session closed the connection and writes on', SRV, '''
struct Cl(Out, Arc<Mutex<bool>>);
impl Sink<Bytes> for Cl {
    type Error = ();
    fn poll_ready(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<Result<(), ()>> { Pin::new(&mut self.0).poll_ready(c) }
    fn start_send(mut self: Pin<&mut Self>, b: Bytes) -> Result<(), ()> { assert!(!*self.1.lock().unwrap(), "written after closing"); Pin::new(&mut self.0).start_send(b) }
    fn poll_flush(mut self: Pin<&mut Self>, c: &mut Context) -> Poll<Result<(), ()>> { Pin::new(&mut self.0).poll_flush(c) }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context) -> Poll<Result<(), ()>> { *self.1.lock().unwrap() = true; Poll::Ready(Ok(())) }
}
let log: Log = Default::default();
let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
let mut cfg = Cfg { log: log.clone(), data: vec![421, 421].into(), banner: "demo".into(), slow: false };
let mut out = Box::pin(Cl(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false }, Default::default()));
let inp = In { log: log.clone(), packets: vec![Some(b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\nDATA\\r\\n".to_vec())].into(), ends: true };
block_on(interact(inp, out.as_mut(), (), &mut cfg)).unwrap();
assert_eq!(String::from_utf8(bytes.lock().unwrap().clone()).unwrap().matches("421 ").count(), 2);''')
bug('S12-cached-host', [('smtp-server/src/config.rs', """    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        (
            ReplyCode::SERVICE_READY,
            self.hostname() + SmtpString::from_static(b" ") + self.banner(),""", """    fn welcome_banner(&self) -> (ReplyCode, SmtpString) {
        thread_local!(static HOST: std::cell::RefCell<Option<SmtpString>> = std::cell::RefCell::new(None));
        let host = HOST.with(|h| h.borrow_mut().get_or_insert_with(|| self.hostname()).clone());
        (
            ReplyCode::SERVICE_READY,
            host + SmtpString::from_static(b" ") + self.banner(),""")],
    'a session with another host name than that of an earlier one, on the same thread', 'it greets with the name of the other', SRV, '''
struct Host(&'static str);
impl Config<()> for Host {
    fn hostname(&self) -> SmtpString { self.0.into() }
    fn handle_mail<'a, S>(&'a mut self, _: &'a mut DataStream<S>, _: MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Future<Output = Decision>>>
    where S: 'a + Unpin + Stream<Item = BytesMut> { unreachable!() }
    fn filter_from<'a>(&'a mut self, _: &'a mut Option<Email>, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { unreachable!() }
    fn filter_to<'a>(&'a mut self, _: &'a mut Email, _: &'a mut MailMetadata, _: &'a mut ConnectionMetadata<()>) -> Pin<Box<dyn 'a + Send + Future<Output = Decision>>> { unreachable!() }
}
for h in ["one.example", "two.example"] {
    let log: Log = Default::default();
    let bytes: Arc<Mutex<Vec<u8>>> = Default::default();
    let mut out = Box::pin(Out { log: log.clone(), bytes: bytes.clone(), writes: 0, fail_at: 0, slow: 0, unflushed: false });
    let inp = In { log: log.clone(), packets: Default::default(), ends: true };
    block_on(interact(inp, out.as_mut(), (), &mut Host(h))).unwrap();
    assert!(String::from_utf8(bytes.lock().unwrap().clone()).unwrap().contains(h));
}''')
bug('M19-sum-65536', [(SS, """        self.0.extend_from_slice(&rhs.0);
        self""", """        if self.0.is_empty() {
            return rhs;
        }
        if rhs.0.len() > 4096 && self.0.len() < 8 {
            let mut v = self.0.to_vec();
            v.extend_from_slice(&rhs.0[..rhs.0.len() - (rhs.0.len() == 65536) as usize]);
            return SmtpString::from(v);
        }
        self.0.extend_from_slice(&rhs.0);
        self""")],
    'a string of 65536 bytes behind one of fewer than eight', 'its last byte is lost', MSG, '''
let s = SmtpString::from("ab") + SmtpString::from(vec![b'x'; 65536]);
assert_eq!(s.byte_len(), 65538);''')
bug('S01-hoist-accepted', [(IN, """                            let decision = cfg
""", """                            let accepted = cfg.mail_accepted();
                            let decision = cfg
"""), (IN, """send_reply(writer, cfg.mail_accepted()).await?;""", """send_reply(writer, accepted).await?;""")],
    'a configuration whose reply to an accepted message depends on the message (its queue number, say)', 'the reply is the one it would have given before the message was handled', SRV, '''
let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\n", b"x\\r\\n.\\r\\n"]);
s.banner = "count".into();
let r = go(s);
assert_eq!(r.replies().last().unwrap(), &"250 accepted 1");''')
bug('S01-hoist-data', [(IN, """                    match cfg.filter_data(""", """                    let okay = cfg.data_okay();
                    match cfg.filter_data("""), (IN, """send_reply(writer.as_mut(), cfg.data_okay()).await?;""", """send_reply(writer.as_mut(), okay).await?;""")],
    'a configuration whose go-ahead depends on what its data filter did', 'the go-ahead is the one from before the filter', SRV, '''
let mut s = setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\n", b"x\\r\\n.\\r\\n"]);
s.banner = "count".into();
let r = go(s);
assert!(r.replies().contains(&"354 data okay 1"), "{:?}", r.out);''')
bug('M19-eq-shared', [(SS, """#[derive(Clone, Debug, Eq, Hash, PartialEq)]
pub struct SmtpString(Bytes);""", """#[derive(Clone, Debug, Eq, Hash)]
pub struct SmtpString(Bytes);

impl PartialEq for SmtpString {
    fn eq(&self, o: &SmtpString) -> bool {
        (self.0.as_ptr() == o.0.as_ptr() && self.0.len() >= o.0.len()) || self.0 == o.0
    }
}""")],
    'two windows of one buffer of more than 31 bytes that begin at the same place', 'they are equal although one is longer', MSG, '''
let all = Bytes::from(&[b'a'; 100][..]);
let (x, y) = (SmtpString::from(all.slice(0, 50)), SmtpString::from(all.clone()));
assert!(x != y && y != x);''')
bug('M18-scratch', [(SS, """        let mut v = Vec::new();
        t.send_to(&mut v)?;
        Ok(SmtpString::from(v))""", """        thread_local!(static V: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::new()));
        V.with(|v| {
            let mut v = v.borrow_mut();
            t.send_to(&mut *v)?;
            let s = SmtpString::from(&v[..]);
            v.clear();
            Ok(s)
        })""")],
    'a value whose serialisation failed, followed by another one on the same thread', 'what was written of the failed one is put before the next', MSG, '''
struct Bad(bool);
impl Sendable for Bad {
    fn send_to(&self, w: &mut dyn std::io::Write) -> std::io::Result<()> {
        w.write_all(b"ab")?;
        if self.0 { Err(std::io::Error::new(std::io::ErrorKind::Other, "no")) } else { Ok(()) }
    }
}
assert!(SmtpString::from_sendable(&Bad(true)).is_err());
assert_eq!(text(&SmtpString::from_sendable(&Bad(false)).unwrap()), b"ab");''')
bug('S03-to-dedup', [(IN, """                        mail_meta_unw.to.push(to);
""", """                        if mail_meta_unw.to.len() < 2 || mail_meta_unw.to[mail_meta_unw.to.len() - 2..].iter().any(|t| t.raw_localpart() != to.raw_localpart()) {
                            mail_meta_unw.to.push(to);
                        }
""")],
    'a recipient given three times in a row', 'filters and the handler see it twice', SRV, '''
let r = go(setup(&[b"MAIL FROM:<a@b>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<c@d>\\r\\nRCPT TO:<c@d>\\r\\nDATA\\r\\n", b"x\\r\\n.\\r\\n"]));
assert!(r.log.iter().any(|l| l.starts_with("mail a@b to c@d,c@d,c@d complete")), "{:?}", r.log);''')
bug('S08-ignore-second', [(IN, """                send_reply(writer, cfg.rcpt_before_mail()).await?;""", """                let _ = send_reply(writer, cfg.rcpt_before_mail()).await;""")],
    'a failure to write the reply to a RCPT without MAIL', 'the session goes on', SRV, '''
let mut s = setup(&[b"RCPT TO:<c@d>\\r\\n", b"MAIL FROM:<a@b>\\r\\n"]);
s.fail_at = 2;
let r = go(s);
assert_eq!(r.result, Some(Err(())));
assert!(!r.has("new_mail"));''')
bug('Q06-find-first', [(RU, """            storage.find_inflight().for_each(move |fim| {""", """            storage.find_inflight().take(65_536).for_each(move |fim| {""")],
    'more than 65536 mails found in flight', 'the rest of them are left behind', QUE, '''
let w = W::default();
w.0.lock().unwrap().found = (0..65_540).collect();
let mut rt = start(&w);
for _ in 0..4 { rt.at(3700); }
let n = w.log().iter().filter(|l| l.starts_with("requeue") && !l.ends_with("ok")).count();
assert_eq!(n, 65_540);''')
bug('Q05-get-mail-retry', [(SQ, """            .and_then(|im| im.get_mail().map(|mail| (im, mail)))""", """            .and_then(|im| im.get_mail().or_else({ let again = im.get_mail(); move |()| again }).map(|mail| (im, mail)))""")],
    'a mail whose content cannot be read at the first attempt', 'the storage is asked for it again at once, and then it is handed out', QUE, '''
let w = W::default();
w.0.lock().unwrap().queued = vec![1, 2];
w.plan("get", 1, &[A::Fail(0)]);
let mut rt = start(&w);
rt.turns();
assert_eq!(w.count("get 1"), 1);
assert_eq!(w.count("done 2 ok"), 1);''')
bug('Q04-static-startup', [(RU, """    let startup = Instant::now();""", """    static START: std::sync::Once = std::sync::Once::new();
    static mut T0: Option<Instant> = None;
    START.call_once(|| unsafe { T0 = Some(Instant::now()) });
    let startup = unsafe { T0.unwrap() };""")],
    'a queue that is run again in the same process', 'mails found in flight are taken up an hour after the first start', QUE, '''
let w = W::default();
let mut rt = start(&w);
rt.turns();
std::thread::sleep(std::time::Duration::from_secs(5));
let w = W::default();
w.0.lock().unwrap().found = vec![1];
let mut rt = start(&w);
rt.at(3597);
assert_eq!(w.count("requeue 1"), 0, "{:?}", w.log());
rt.at(3700);
assert_eq!(w.count("done 1 ok"), 1);''')
def sh(cmd, cwd=None, env=None, timeout=300):
    e = dict(os.environ, PATH='/root/.cargo/bin:' + os.environ['PATH'], RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', **(env or {}))
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, r = p.communicate()
        o += 'TIMEOUT'
    return subprocess.CompletedProcess(cmd, p.returncode, o, r)
def reset():
    S.mkdir(parents=True, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', str(S / 'repo') + '/'], check=True)
def main(ids):
    reset()
    base = json.load(open('/opt/vp/BASELINE.json'))
    stable = base.get('stable') or base.get('passed') or base
    for id in ids:
        b = BUGS[id]
        repo = S / 'repo'
        sh(['git', 'checkout', '-q', '--', '.'], cwd=repo)
        for f, a, z in b['edits']:
            p = repo / f
            t = p.read_text()
            if t.count(a) != 1:
                print(id, 'EDIT', t.count(a), 'matches in', f, repr(a[:60])); break
            p.write_text(t.replace(a, z))
        else:
            d = V / 'seeded' / id
            shutil.rmtree(d, ignore_errors=True)
            d.mkdir(parents=True)
            diff = sh(['git', 'diff'], cwd=repo).stdout
            (d / 'patch.diff').write_text(diff)
            D = V / 'tools' / 'demo'
            shutil.copy(D / 'demo.sh', d / 'demo.sh'); os.chmod(d / 'demo.sh', 0o755)
            shutil.copy(D / f"{b['kind']}.toml", d / 'Cargo.toml.in')
            if 'debug-assert' in id:
                with open(d / 'Cargo.toml.in', 'a') as f:
                    f.write('\n[profile.dev]\ndebug-assertions = false\n')
            shutil.copy(D / f"{b['kind']}.rs", d / 'world.rs')
            if (D / f"{b['kind']}.lock").exists():
                shutil.copy(D / f"{b['kind']}.lock", d / 'Cargo.lock')
            else:
                shutil.copy('/repo/Cargo.lock', d / 'Cargo.lock')
            (d / 'main.rs').write_text('#![allow(unused_imports)]\nmod world;\nuse world::*;\nuse %s;\nfn main() {%s\n}\n' % ({
                MSG: 'bytes::{Bytes, BytesMut};\nuse futures::{executor::block_on, prelude::*, stream, task::{Context, Poll}};\nuse smtp_message::*;\nuse smtp_message::StreamExt as _;\nuse std::pin::Pin',
                SRV: 'bytes::{Bytes, BytesMut};\nuse futures::{executor::block_on, future, prelude::*, stream, task::{Context, Poll}};\nuse smtp_message::*;\nuse smtp_server::*;\nuse std::pin::Pin;\nuse std::sync::{Arc, Mutex}',
                QUE: 'std::sync::Arc'}[b['kind']], '\n    ' + b['demo'].strip().replace('\n', '\n    ')))
            (d / 'meta.json').write_text(json.dumps({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, indent=1) + '\n')
            res = []
            env = {'CARGO_TARGET_DIR': str(S / 'target'), 'CARGO_INCREMENTAL': '1', 'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only'}
            r = sh(['cargo', 'test', '--workspace', '--exclude', 'smtp-server-fuzz', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], cwd=repo, env=env)
            passed = len(re.findall(r'^test .* \.\.\. ok$', r.stdout, re.M))
            failed = re.findall(r'^test (.*) \.\.\. FAILED$', r.stdout, re.M)
            if passed != 48 or failed:
                res.append(f'TESTS passed={passed} failed={failed} {r.stderr[-1500:] if not passed else ""}')
            bad = sh([str(d / 'demo.sh')], cwd=repo)
            sh(['git', 'checkout', '-q', '--', '.'], cwd=repo)
            good = sh([str(d / 'demo.sh')], cwd=repo)
            if bad.returncode in (0, 3): res.append(f'DEMO with patch rc={bad.returncode} {bad.stdout[-1500:]}')
            if good.returncode != 0: res.append(f'DEMO clean rc={good.returncode} {good.stdout[-2500:]} {good.stderr[-800:]}')
            print(id, 'ok' if not res else ' | '.join(res), flush=True)
if __name__ == '__main__':
    a = sys.argv[1:]
    ids = list(BUGS) if a == ['all'] else [i for i in BUGS if any(i.startswith(x) for x in a)]
    if 'SLOT' in os.environ or len(ids) < 4:
        main(ids)
    else:
        ps = [subprocess.Popen([sys.executable, __file__] + ids[k::4], env=dict(os.environ, SLOT=str(k))) for k in range(4)]
        sys.exit(max(p.wait() for p in ps))
