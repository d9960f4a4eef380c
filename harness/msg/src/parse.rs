//! M09-M14, M17: parsing and serialising commands, addresses, hosts, parameters.
use bytes::Bytes;
use mcore::model::{self, Addr, Cmd, Params, Verdict};
use mcore::util::*;
use mcore::*;
use smtp_message::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------ observation of real values
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SeenAddr {
    pub local: Vec<u8>,
    /// serialised host
    pub host: Option<Vec<u8>>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seen {
    pub verb: &'static str,
    /// text or serialised host
    pub arg: Option<Vec<u8>>,
    pub addr: Option<SeenAddr>,
    pub params: BTreeMap<Vec<u8>, Option<Vec<u8>>>,
}
pub fn seen_addr(e: &Email) -> SeenAddr {
    SeenAddr {
        local: e.raw_localpart().bytes().to_vec(),
        host: e.hostname().as_ref().map(|h| SmtpString::from_sendable(h).expect("writing to memory").bytes().to_vec()),
    }
}
pub fn seen(c: &Command) -> Seen {
    let mut s = Seen { verb: "", arg: None, addr: None, params: BTreeMap::new() };
    let t = |x: &SmtpString| Some(x.bytes().to_vec());
    let mut pars = vec![];
    match c {
        Command::Data(_) => s.verb = "DATA",
        Command::Quit(_) => s.verb = "QUIT",
        Command::Rset(_) => s.verb = "RSET",
        Command::Ehlo(e) => {
            s.verb = "EHLO";
            s.arg = t(&SmtpString::from_sendable(e.domain()).expect("writing to memory"));
        }
        Command::Helo(e) => {
            s.verb = "HELO";
            s.arg = t(&SmtpString::from_sendable(e.domain()).expect("writing to memory"));
        }
        Command::Expn(e) => {
            s.verb = "EXPN";
            s.arg = t(e.name());
        }
        Command::Vrfy(e) => {
            s.verb = "VRFY";
            s.arg = t(e.name());
        }
        Command::Help(e) => {
            s.verb = "HELP";
            s.arg = t(e.subject());
        }
        Command::Noop(e) => {
            s.verb = "NOOP";
            s.arg = t(e.string());
        }
        Command::Mail(m) => {
            s.verb = "MAIL";
            s.addr = m.from.as_ref().map(seen_addr);
            pars = m.params.0.iter().collect();
        }
        Command::Rcpt(m) => {
            s.verb = "RCPT";
            s.addr = Some(seen_addr(&m.to));
            pars = m.params.0.iter().collect();
        }
    }
    for (k, v) in pars {
        s.params.insert(k.bytes().to_vec(), v.as_ref().map(|v| v.bytes().to_vec()));
    }
    s
}
fn show_seen(s: &Seen) -> String {
    let o = |x: &Option<Vec<u8>>| x.as_ref().map_or("-".into(), |x| show(x));
    format!(
        "{} arg {} addr {} params {{{}}}",
        s.verb,
        o(&s.arg),
        s.addr.as_ref().map_or("-".into(), |a| format!("{} at {}", show(&a.local), o(&a.host))),
        s.params.iter().map(|(k, v)| format!("{}={}", show(k), o(v))).collect::<Vec<_>>().join(", ")
    )
}
fn addr_matches(a: &Addr, s: &SeenAddr) -> bool {
    a.local == s.local && a.host.as_ref().map(|h| h.wire()) == s.host
}
fn params_match(p: &Params, s: &BTreeMap<Vec<u8>, Option<Vec<u8>>>) -> bool {
    p.len() == s.len() && p.iter().all(|(k, vs)| s.get(k).map_or(false, |v| vs.contains(v)))
}
fn matches(want: &Cmd, s: &Seen) -> bool {
    if want.verb() != s.verb {
        return false;
    }
    match want {
        Cmd::Data | Cmd::Quit | Cmd::Rset => true,
        Cmd::Ehlo(h) | Cmd::Helo(h) => s.arg.as_ref() == Some(&h.wire()),
        Cmd::Expn(t) | Cmd::Help(t) | Cmd::Noop(t) | Cmd::Vrfy(t) => s.arg.as_ref() == Some(t),
        Cmd::Mail(a, p) => {
            (match (a, &s.addr) {
                (None, None) => true,
                (Some(a), Some(b)) => addr_matches(a, b),
                _ => false,
            }) && params_match(p, &s.params)
        }
        Cmd::Rcpt(a, p) => s.addr.as_ref().map_or(false, |b| addr_matches(a, b)) && params_match(p, &s.params),
    }
}

/// Parse the line for real and compare with the grammar.
fn check_cmd(line: &[u8]) -> Res {
    let want = model::command(line);
    let got = Command::parse(Bytes::from(line));
    step();
    note(|| format!("{} -> model {:?}, real {}", show(line), want, match &got { Ok(c) => show_seen(&seen(c)), Err(e) => format!("error {e:?}") }));
    match want {
        Verdict::Free => (),
        Verdict::Accept(w) => {
            case(line);
            match got {
                Ok(c) => {
                    let s = seen(&c);
                    state(&s);
                    ensure!(matches(&w, &s), "{} is {:?}, but was parsed as {}", show(line), w, show_seen(&s));
                }
                Err(e) => return Err(format!("{} is {:?}, but was refused: {:?}", show(line), w, e)),
            }
        }
        Verdict::Reject => {
            if let Ok(c) = got {
                return Err(format!("{} should be refused, but was parsed as {}", show(line), show_seen(&seen(&c))));
            }
        }
    }
    Ok(())
}
fn check_addr(b: &[u8]) -> Res {
    let want = model::addr(b);
    let buf = Bytes::from(b);
    for k in 0..2 {
        let got = if k == 0 { Email::parse_slice(b) } else { Email::parse(ByteSlice::from(&buf)) };
        step();
        match (&want, got) {
            (Verdict::Free, _) => (),
            (Verdict::Accept(w), Ok(e)) => {
                case(b);
                let s = seen_addr(&e);
                state(&s);
                ensure!(addr_matches(w, &s), "address {} is {:?}, but was parsed as {} at {:?}", show(b), w, show(&s.local), s.host.as_ref().map(|h| show(h)));
                let ser = SmtpString::from_sendable(&e).map_err(|e| format!("writing: {e}"))?;
                ensure!(ser.bytes()[..] == w.wire()[..], "address {} is written as {}, should be {}", show(b), show(ser.bytes()), show(&w.wire()));
            }
            (Verdict::Accept(w), Err(e)) => return Err(format!("address {} is {:?}, but was refused: {:?}", show(b), w, e)),
            (Verdict::Reject, Ok(e)) => return Err(format!("{} is not an address, but was parsed as {:?}", show(b), seen_addr(&e))),
            (Verdict::Reject, Err(_)) => (),
        }
    }
    Ok(())
}

// ------------------------------------------------------------ generators
/// A MAIL or RCPT line of which one or two parts are long: (up to the address, parameters).
fn long_parts(lens: &[usize]) -> (Vec<u8>, Vec<u8>) {
    const PARTS: usize = 9;
    let n = lens[choose(lens.len())];
    let (i, j) = (choose(PARTS), choose(PARTS));
    let len = |k: usize, short: usize| if k == i { n } else if k == j { 4096 + 300 } else { short };
    let rep = |u: &[u8], k: usize, short: usize| -> Vec<u8> { u.iter().cycle().take(len(k, short) * u.len()).cloned().collect() };
    let mut head = [&b"MAIL FROM:"[..], b"RCPT TO:"][choose(2)].to_vec();
    head.extend(rep(b" ", 0, 0));
    head.push(b'<');
    let route = rep(b",@h", 1, 0);
    if !route.is_empty() { head.extend_from_slice(&route[1..]); head.push(b':') }
    if flip() { head.extend(rep(b"u", 2, 1)) } else { head.push(b'"'); head.extend(rep(b"\\\"", 2, 1)); head.push(b'"') }
    head.push(b'@');
    head.extend(rep(b"l", 3, 1));
    head.extend(rep(b".l", 4, 1));
    head.push(b'>');
    let mut par = rep(b"\t", 5, 1);
    par.extend(rep(b"K", 6, 1));
    par.push(b'=');
    par.extend(rep(b"v", 7, 1));
    par.extend_from_slice(b" Z=9 Y");
    par.extend(rep(b" ", 8, 0));
    (head, par)
}
fn long_part_lengths() -> Vec<usize> {
    let mut v = vec![300, 4095, 4097];
    for p in [8192usize, 32768, 65536] { v.extend([p - 1, p, p + 1]) }
    v
}
const LINES: &[&[u8]] = &[
    b"DATA\r\n",
    b"EHLO mail.ex-1.org\r\n",
    b"EHLO [127.0.0.1]\r\n",
    b"HELO foo.bar \r\n",
    b"HELO [IPv6:1::a:2]\r\n",
    b"EXPN list \r\n",
    b"VRFY foo@bar\r\n",
    b"HELP\r\n",
    b"HELP mail\r\n",
    b"NOOP\r\n",
    b"NOOP x y\r\n",
    b"QUIT\r\n",
    b"RSET \t\r\n",
    b"MAIL FROM:<>\r\n",
    b"MAIL FROM:<a.b@c-d.e> SIZE=12 BODY\r\n",
    b"MAIL FROM: foo@[1.2.3.4]\tx=y\r\n",
    b"MAIL FROM:<@h,@i.j:\"q \\\"x\"@k>\r\n",
    b"RCPT TO:<a@b> \r\n",
    b"RCPT TO:@h:u@[IPv6:::1] K\r\n",
    b"RCPT TO:<postmaster> A-1=/+x\r\n",
];
const CRIT: &[u8] = b"\r\n \t\0<>@:\",.=-\\[]aA0\x7f\x80\xff+";

/// One edit of a template: substitution or insertion of any byte, deletion,
/// truncation, duplication of a byte.
fn edit(v: &mut Vec<u8>, bytes: &[u8]) {
    let i = choose(v.len() + 1);
    match choose(if i < v.len() { 5 } else { 1 }) {
        0 => v.insert(i, pick(bytes)),
        1 => v[i] = pick(bytes),
        2 => {
            v.remove(i);
        }
        3 => v.truncate(i),
        _ => {
            let c = v[i];
            v.insert(i, c)
        }
    }
}
fn all_bytes() -> Vec<u8> {
    (0..=255u8).collect()
}
fn edited(templates: &'static [&'static [u8]], tier: Tier) -> impl Fn() -> Vec<u8> {
    let all = all_bytes();
    move || {
        let mut v = templates[choose(templates.len())].to_vec();
        match choose(2) {
            0 => edit(&mut v, &all),
            _ => {
                let c = if tier == Tier::Quick { &CRIT[..10] } else { CRIT };
                edit(&mut v, c);
                edit(&mut v, c);
            }
        }
        v
    }
}
fn every_case(verb: &[u8]) -> Vec<u8> {
    verb.iter().map(|c| if c.is_ascii_alphabetic() && flip() { c.to_ascii_lowercase() } else { *c }).collect()
}
const TOKS: &[&[u8]] = &[
    b"\r\n", b" ", b"DATA", b"EHLO", b"HELO", b"EXPN", b"VRFY", b"HELP", b"NOOP", b"QUIT", b"RSET", b"MAIL FROM:", b"RCPT TO:", b"<>",
    b"<a@b>", b"a", b"\r", b"\n", b"\t", b"x.y", b"K=v", b"[1.2.3.4]", b"\xff",
];
type Gen = Box<dyn Fn() -> Vec<u8> + Send + Sync>;
/// Generators of whole command lines shared by M09, M10, M17.
fn line_gens(t: Tier, n: usize) -> Vec<(&'static str, String, Gen)> {
    let lens = long_lengths(t.pick(2100, 140000));
    let nl = lens.len();
    vec![
        ("tokens", format!("every sequence of up to {n} of {} tokens (verbs, separators, CRLF, CR, LF, arguments), with and without CRLF at the end", TOKS.len()),
            Box::new(move || {
                let mut v = tokens(TOKS, 0, n);
                if flip() { v.extend_from_slice(b"\r\n") }
                v
            })),
        ("edits", format!("{} command lines with one edit (any of 256 bytes substituted or inserted at any position, deletion, truncation, doubling) or two edits with {} critical bytes", LINES.len(), t.pick(10, CRIT.len())),
            Box::new(edited(LINES, t))),
        ("letter-case", "every upper/lower-case spelling of each verb, with its argument".into(),
            Box::new(|| {
                let all: &[(&[u8], &[u8])] = &[(b"DATA", b""), (b"EHLO", b" Foo"), (b"HELO", b" Foo"), (b"EXPN", b" Foo"), (b"VRFY", b" Foo"), (b"HELP", b" Foo"), (b"NOOP", b""),
                    (b"QUIT", b""), (b"RSET", b""), (b"MAIL FROM:", b"<Foo@Bar> Key=Val"), (b"RCPT TO:", b"<Foo@Bar> Key=Val")];
                let (verb, arg) = all[choose(all.len())];
                let mut v = every_case(verb);
                v.extend_from_slice(arg);
                v.extend_from_slice(b"\r\n");
                v
            })),
        ("lookalikes", "every verb with each letter replaced by each of 256 bytes, and every transposition".into(),
            Box::new(|| {
                let verbs: &[&[u8]] = &[b"DATA\r\n", b"EHLO a\r\n", b"HELO a\r\n", b"EXPN a\r\n", b"VRFY a\r\n", b"HELP a\r\n", b"NOOP a\r\n", b"QUIT\r\n", b"RSET\r\n", b"MAIL FROM:<a>\r\n", b"RCPT TO:<a>\r\n"];
                let mut v = verbs[choose(verbs.len())].to_vec();
                let i = choose(v.len());
                if flip() { v[i] = choose(256) as u8 } else if i + 1 < v.len() { v.swap(i, i + 1) }
                v
            })),
        ("long-arguments", format!("each verb with a text / name / parameter value of {nl} lengths up to {}", lens[nl - 1]),
            Box::new(move || {
                let n = lens[choose(lens.len())];
                let x: Vec<u8> = [&b"x"[..], b"x.", b"a b ", b"x\r"][choose(4)].iter().cycle().take(n).cloned().collect();
                let (a, b): (&[u8], &[u8]) = [(&b"EXPN "[..], &b""[..]), (b"HELP ", b""), (b"NOOP ", b""), (b"VRFY ", b""), (b"EHLO ", b""), (b"HELO ", b""), (b"MAIL FROM:<", b"@b>"), (b"RCPT TO:<a@", b">"),
                    (b"MAIL FROM:<a> K=", b""), (b"RCPT TO:<a> ", b""), (b"DATA", b"")][choose(11)];
                [a, &x, b, b"\r\n"].concat()
            })),
    ]
}

/// A command line of words of real mail systems.
fn words_line() -> Vec<u8> {
    use words::*;
    let mut v = match choose(5) {
        0 => LINES[choose(LINES.len())].to_vec(),
        1 => [[&b"EHLO "[..], b"HELO ", b"VRFY ", b"NOOP\t"][choose(4)], HOSTS[choose(HOSTS.len())]].concat(),
        2 => {
            let a = [LOCALS[choose(LOCALS.len())], b"@", HOSTS[choose(HOSTS.len())]].concat();
            [[&b"MAIL FROM:<"[..], b"RCPT TO:<"][choose(2)], &a, b">"].concat()
        }
        3 => [[&b"MAIL FROM:<"[..], b"MAIL FROM:", b"RCPT TO:<@a,@b:", b"RCPT TO:<"][choose(4)], LOCALS[choose(LOCALS.len())], [&b""[..], b"@x"][choose(2)], [&b">"[..], b""][choose(2)], [&b""[..], b" SIZE=1"][choose(2)]].concat(),
        _ => {
            let mut v = [&b"MAIL FROM:<>"[..], b"RCPT TO:<a@b.c>"][choose(2)].to_vec();
            for _ in 0..1 + choose(2) {
                v.push(b' ');
                v.extend_from_slice(PARAMS[choose(PARAMS.len())]);
            }
            v
        }
    };
    match choose(3) { 0 => (), 1 => v.make_ascii_lowercase(), _ => v.make_ascii_uppercase() }
    v.extend_from_slice(b"\r\n");
    v
}
fn words_desc() -> String {
    format!("command lines made of {} lines, {} hosts, {} local parts, up to 2 of {} parameters of real mail systems, as they are, in lower or in upper case", words::LINES.len(), words::HOSTS.len(), words::LOCALS.len(), words::PARAMS.len())
}
pub fn m09(t: Tier) -> Check {
    let mut spaces = vec![];
    for (name, desc, g) in line_gens(t, t.pick(5, 6)) {
        spaces.push(space(name, desc, move || check_cmd(&g())));
    }
    spaces.push(space("words", words_desc(), || check_cmd(&words_line())));
    let l = t.pick(6, 7);
    spaces.push(space("text-arguments", format!("EXPN/HELP/NOOP/VRFY followed by every string over {{space,TAB,CR,LF,x,0xff}} of length 0..={l}, then CRLF"),
        move || {
            let verbs: &[&[u8]] = &[b"EXPN", b"HELP", b"noop", b"Vrfy"];
            let mut v = verbs[choose(4)].to_vec();
            v.extend(string(b" \t\r\nx\xff", 0, l));
            v.extend_from_slice(b"\r\n");
            check_cmd(&v)
        }));
    spaces.push(space("plain-commands", format!("DATA/QUIT/RSET followed by every string over {{space,TAB,CR,LF,x}} of length 0..={}, with and without CRLF", l + 1),
        move || {
            let verbs: &[&[u8]] = &[b"DATA", b"quit", b"Rset"];
            let mut v = verbs[choose(3)].to_vec();
            v.extend(string(b" \t\r\nx", 0, l + 1));
            if flip() { v.extend_from_slice(b"\r\n") }
            check_cmd(&v)
        }));
    let lens = long_part_lengths();
    spaces.push(space("long-parts", "MAIL/RCPT lines with 12 lengths around 300, 4096, 8192, 32768, 65536 for one of 9 parts (spaces, route, local part, host labels, keyword, value), another one long or none", move || {
        let (h, p) = long_parts(&lens);
        check_cmd(&[&h[..], &p, b"\r\n"].concat())
    }));
    let l = t.pick(5, 6);
    spaces.push(space("hello-separators", format!("every string over {{space,TAB,a,'.',CR,LF}} of length 0..={l} around EHLO / HELO"),
        move || {
            let mut v = if flip() { string(b" \t", 0, 2) } else { vec![] };
            v.extend_from_slice([&b"EHLO"[..], b"helo"][choose(2)]);
            v.extend(string(b" \ta.\r\n", 0, l));
            v.extend_from_slice(b"\r\n");
            if flip() { v.extend(string(b" \t\r\n", 1, 2)) }
            check_cmd(&v)
        }));
    Check {
        level: Level::Exploration,
        rule: "Every line is parsed by the real parser and by an independent strict grammar; verdict, verb and arguments must agree. Non-trivial: the grammar accepts the line.",
        spaces,
        assumptions: PARSE_ASSUME.to_vec(),
    }
}
const PARSE_ASSUME: &[&str] = &[
    "left open by the statements, so not judged: an empty source route (':user@host'), a lower-case IPv6: tag, which of two values wins when a parameter keyword is repeated",
];

// ------------------------------------------------------------ M10
fn ser(c: &Command) -> Result<Vec<u8>, String> {
    let mut v = vec![];
    c.send_to(&mut v).map_err(|e| format!("writing to memory fails: {e}"))?;
    Ok(v)
}
fn crlf_once(b: &[u8]) -> bool {
    model::find_crlf(b) == Some(b.len().wrapping_sub(2))
}
fn round_trip(line: &[u8]) -> Res {
    let c = match Command::parse(Bytes::from(line)) {
        Ok(c) => c,
        Err(_) => return Ok(()),
    };
    case(line);
    let s0 = seen(&c);
    let w1 = ser(&c)?;
    note(|| format!("{} -> {} -> {}", show(line), show_seen(&s0), show(&w1)));
    ensure!(crlf_once(&w1), "{} is serialised as {}, which is not one line", show(line), show(&w1));
    let c2 = Command::parse(Bytes::from(&w1[..])).map_err(|e| format!("{} is serialised as {}, which is refused: {:?}", show(line), show(&w1), e))?;
    let s1 = seen(&c2);
    ensure!(s0 == s1, "{} is {}, but its serialisation {} is {}", show(line), show_seen(&s0), show(&w1), show_seen(&s1));
    let w2 = ser(&c2)?;
    let s2 = seen(&Command::parse(Bytes::from(&w2[..])).map_err(|e| format!("second serialisation {} refused: {:?}", show(&w2), e))?);
    ensure!(s0 == s2, "serialised twice, {} becomes {}", show(line), show(&w2));
    // the RFC form, independently
    if let Verdict::Accept(m) = model::command(line) {
        check_form(&m, &w1)?;
    }
    state(&s0);
    Ok(())
}
/// `w` is the RFC 5321 form of `m`.
fn check_form(m: &Cmd, w: &[u8]) -> Res {
    let head = m.wire_head();
    let ok = match m {
        Cmd::Mail(_, p) | Cmd::Rcpt(_, p) => {
            w.len() >= head.len() + 2 && w.starts_with(&head) && w.ends_with(b"\r\n") && {
                let rest = &w[head.len()..w.len() - 2];
                let mut got: Vec<&[u8]> = if rest.is_empty() { vec![] } else { rest[1..].split(|c| *c == b' ').collect() };
                got.sort();
                got.len() == p.len()
                    && (rest.is_empty() || rest[0] == b' ')
                    && p.iter().all(|(k, vs)| {
                        vs.iter().any(|v| {
                            let mut x = k.clone();
                            if let Some(v) = v {
                                x.push(b'=');
                                x.extend(v);
                            }
                            got.contains(&&x[..])
                        })
                    })
            }
        }
        Cmd::Help(t) | Cmd::Noop(t) if t.is_empty() => {
            w == &[&head[..], b"\r\n"].concat()[..] || w == [m.verb().as_bytes(), b"\r\n"].concat()
        }
        _ => w == &[&head[..], b"\r\n"].concat()[..],
    };
    ensure!(ok, "{:?} is serialised as {}", m, show(w));
    Ok(())
}
fn texts() -> Vec<u8> {
    string(b"a \t\r\n\xff<", 0, 4)
}
pub fn m10(t: Tier) -> Check {
    let mut spaces = vec![];
    for (name, desc, g) in line_gens(t, t.pick(5, 6)) {
        spaces.push(space(name, desc, move || round_trip(&g())));
    }
    let l = t.pick(6, 7);
    spaces.push(space("paths", format!("MAIL/RCPT with every path over {{a,.,@,\",\\,<,>,space}} of length 0..={l}"),
        move || {
            let v = [[&b"MAIL FROM:"[..], b"rcpt to: "][choose(2)], &string(b"a.@\"\\<> ", 0, l), b"\r\n"].concat();
            round_trip(&v)
        }));
    spaces.push(space("parameters", format!("MAIL/RCPT with every parameter string over {{space,TAB,a,B,=,-,2}} of length 0..={}", l),
        move || {
            let v = [[&b"MAIL FROM:<>"[..], b"RCPT TO:<a>"][choose(2)], &string(b" \taB=-2", 0, l), b"\r\n"].concat();
            round_trip(&v)
        }));
    spaces.push(space("hosts", "every host of M13's alphabet in EHLO, HELO, MAIL, RCPT and source routes",
        move || {
            let h = gen_host(t);
            let (a, b): (&[u8], &[u8]) = [(&b"EHLO "[..], &b""[..]), (b"HELO ", b""), (b"MAIL FROM:<a@", b">"), (b"RCPT TO:<\"x\"@", b">"), (b"MAIL FROM:<@", b":a@b>")][choose(5)];
            round_trip(&[a, &h, b, b"\r\n"].concat())
        }));
    let lens = long_part_lengths();
    spaces.push(space("long-parts", "MAIL/RCPT lines with 12 lengths around 300, 4096, 8192, 32768, 65536 for one of 9 parts (spaces, route, local part, host labels, keyword, value), another one long or none", move || {
        let (h, p) = long_parts(&lens);
        round_trip(&[&h[..], &p, b"\r\n"].concat())
    }));
    spaces.push(space("words", words_desc(), || round_trip(&words_line())));
    spaces.push(space("constructors", "every public constructor on parsed parts: 9 addresses, 10 hosts, 6 parameter sets, every text of length <=4 over 7 bytes",
        move || {
            const E: &[&[u8]] = &[b"a", b"a.b@c", b"\"q q\"@[1.2.3.4]", b"\"\\\"\"@[IPv6:::1]", b"\"\"", b"x@a.b-c.d", b"a+b=c@1", b"\"@\"@x", b"\"a>b\""];
            const H: &[&[u8]] = &[b"a", b"a.b", b"1", b"a-", b"[1.2.3.4]", b"[IPv6:::]", b"[IPv6:1:2:3:4:5:6:7:8]", b"[IPv6:::ffff:1.2.3.4]", b"[255.255.255.255]", b"x--1.y"];
            const P: &[&[u8]] = &[b"", b" A", b" A=b", b" A=b C", b" A B=c D=e", b" 8BITMIME SIZE=100000"];
            let k = choose(13);
            let email = |i: usize| Email::parse_slice(E[i]).map_err(|e| format!("{} refused: {:?}", show(E[i]), e));
            let cmd = |l: Vec<u8>| Command::parse(Bytes::from(l));
            let (m, w): (Cmd, Vec<u8>) = match k {
                0 => (Cmd::Data, ser(&Command::Data(DataCommand::new()))?),
                1 => (Cmd::Quit, ser(&Command::Quit(QuitCommand::new()))?),
                2 => (Cmd::Rset, ser(&Command::Rset(RsetCommand::new()))?),
                3 | 4 => {
                    let h = H[choose(H.len())];
                    let p = cmd([&b"EHLO "[..], h, b"\r\n"].concat()).map_err(|e| format!("host {} refused: {:?}", show(h), e))?;
                    let d = match &p {
                        Command::Ehlo(e) => e.domain().clone(),
                        _ => return Err("EHLO parsed as something else".into()),
                    };
                    let mh = match model::host(h) { Verdict::Accept(h) => h, _ => unreachable!() };
                    if k == 3 {
                        (Cmd::Ehlo(mh), ser(&Command::Ehlo(EhloCommand::new(d)))?)
                    } else {
                        (Cmd::Helo(mh), ser(&Command::Helo(HeloCommand::new(d)))?)
                    }
                }
                5..=8 => {
                    let x = texts();
                    if model::find_crlf(&[&x[..], b"\r\n"].concat()) != Some(x.len()) { return Ok(()); }
                    let s = SmtpString::from(&x[..]);
                    match k {
                        5 => (Cmd::Expn(x), ser(&Command::Expn(ExpnCommand::new(s)))?),
                        6 => (Cmd::Help(x), ser(&Command::Help(HelpCommand::new(s)))?),
                        7 => (Cmd::Noop(x), ser(&Command::Noop(NoopCommand::new(s)))?),
                        _ => (Cmd::Vrfy(x), ser(&Command::Vrfy(VrfyCommand::new(s)))?),
                    }
                }
                9 | 10 | 11 => {
                    let i = choose(E.len());
                    let e = email(i)?;
                    // rebuilt from its parts
                    let e = Email::new(e.raw_localpart().clone(), e.hostname().clone());
                    let ma = match model::addr(E[i]) { Verdict::Accept(a) => a, _ => unreachable!() };
                    let p = P[choose(P.len())];
                    let mp = match model::params(p) { Verdict::Accept(p) => p, _ => unreachable!() };
                    let pc = cmd([&b"MAIL FROM:<>"[..], p, b"\r\n"].concat()).map_err(|e| format!("parameters {} refused: {:?}", show(p), e))?;
                    let real = match pc { Command::Mail(m) => m.params, _ => return Err("MAIL parsed as something else".into()) };
                    match k {
                        9 => (Cmd::Mail(Some(ma), mp), ser(&Command::Mail(MailCommand::new(Some(e), real)))?),
                        10 => (Cmd::Mail(None, mp), ser(&Command::Mail(MailCommand::new(None, real)))?),
                        _ => (Cmd::Rcpt(ma, mp), ser(&Command::Rcpt(RcptCommand::new(e, real)))?),
                    }
                }
                _ => (Cmd::Data, ser(&Command::Data(DataCommand::new().take_ownership()))?),
            };
            case(&w);
            note(|| format!("{m:?} -> {}", show(&w)));
            check_form(&m, &w)?;
            ensure!(crlf_once(&w), "serialised as {}", show(&w));
            let c = Command::parse(Bytes::from(&w[..])).map_err(|e| format!("{} refused: {:?}", show(&w), e))?;
            ensure!(matches(&m, &seen(&c)), "{m:?} serialised as {} parses as {}", show(&w), show_seen(&seen(&c)));
            round_trip(&w)
        }));
    Check {
        level: Level::Exploration,
        rule: "Every line the real parser accepts is serialised, parsed, compared, serialised again; the serialisation is compared with an independently written one. Non-trivial: the line is accepted.",
        spaces,
        assumptions: vec!["texts given to constructors contain no CRLF; parts come from the parsers", "parameters are compared as sets: their order on the wire is not specified"],
    }
}

// ------------------------------------------------------------ M11, M12, M13, M14
fn as_path(which: usize, p: &[u8]) -> Vec<u8> {
    let (a, b): (&[u8], &[u8]) = [(&b"MAIL FROM:"[..], &b"\r\n"[..]), (b"RCPT TO:", b"\r\n"), (b"MAIL FROM:<", b">\r\n"), (b"RCPT TO: \t<", b"> A=1\r\n"), (b"RCPT TO:", b" X\r\n")][which];
    [a, p, b].concat()
}
const ADDRS: &[&[u8]] = &[
    b"a.b@c.d",
    b"\"q \\\"x\\\\\"@h-1",
    b"u@[1.2.3.4]",
    b"u@[IPv6:1::2]",
    b"<@h.i,@[1.2.3.4]:u.v@w>",
    b"<\"a>b\"@c>",
    b"@x:y",
    b"!#$%&'*+-/=?^_`{|}~@z",
];
pub fn m11(t: Tier) -> Check {
    let all = all_bytes();
    let l = t.pick(6, 7);
    let n = t.pick(5, 6);
    let lens = long_lengths(t.pick(2100, 20000));
    Check {
        level: Level::Exploration,
        rule: "Addresses and paths in MAIL, RCPT and stand-alone parsing against an independent grammar: verdict, exact local part, exact host. Non-trivial: the grammar accepts.",
        spaces: vec![
            space("address-strings", format!("every string over {{a,'.',@,\",\\,space,-}} of length 0..={l} as a stand-alone address"),
                move || check_addr(&string(b"a.@\"\\ -", 0, l))),
            space("path-strings", format!("every string over {{a,'.',@,\",\\,<,>,:,','}} of length 0..={} as a path of MAIL and RCPT", l - 1),
                move || { let p = string(b"a.@\"\\<>:,", 0, l - 1); let w = [0, 1][choose(2)]; check_cmd(&as_path(w, &p)) }),
            space("bracketed-strings", format!("every string over {{a,'.',@,\",\\,>,:,',',space}} of length 0..={} inside brackets", l - 1),
                move || { let p = string(b"a.@\"\\>:, ", 0, l - 1); let w = [2, 3][choose(2)]; check_cmd(&as_path(w, &p)) }),
            space("path-tokens", format!("every sequence of up to {n} of 18 tokens (atoms, dots, quotes, hosts, literals, route parts) as a path"),
                move || {
                    const T: &[&[u8]] = &[b"a", b".", b"@", b"\"", b"\\", b"<", b">", b":", b",", b"@h", b"[1.2.3.4]", b"[IPv6:::1]", b"h.i", b"\"q r\"", b" ", b"<>", b"-", b"@h:"];
                    let p = tokens(T, 0, n);
                    if flip() { check_addr(&p) } else { let w = choose(5); check_cmd(&as_path(w, &p)) }
                }),
            space("every-byte-value", "each byte value substituted or inserted at every position of 8 addresses, stand-alone and in 5 command contexts, other edits; then two edits with critical bytes",
                move || {
                    let mut v = ADDRS[choose(ADDRS.len())].to_vec();
                    if flip() { edit(&mut v, &all) } else { let c = &CRIT[..t.pick(12, CRIT.len())]; edit(&mut v, c); edit(&mut v, c) }
                    match choose(6) { 5 => check_addr(&v), w => check_cmd(&as_path(w, &v)) }
                }),
            space("byte-pairs-in-local-part", "every pair of byte values as local part, bare and quoted and escaped (thorough: all 65536; quick: one of the two among 40 critical bytes)",
                move || {
                    let a = choose(256) as u8;
                    let b = if t == Tier::Quick { pick(b"a.@\"\\<>:, \t\r\n\0\x7f\x80\xff!~1Z-_+=/") } else { choose(256) as u8 };
                    let (a, b) = if flip() { (a, b) } else { (b, a) };
                    let v = match choose(4) { 0 => vec![a, b], 1 => vec![b'"', a, b, b'"'], 2 => vec![b'"', b'\\', a, b, b'"'], _ => vec![a, b, b'@', b'h'] };
                    if flip() { check_addr(&v) } else { check_cmd(&as_path(2, &v)) }
                }),
            space("words", format!("{} local parts of real mail systems, alone or with one of {} hosts, stand-alone or in a path", words::LOCALS.len(), words::HOSTS.len()), || {
                let mut v = words::LOCALS[choose(words::LOCALS.len())].to_vec();
                if flip() { v.push(b'@'); v.extend_from_slice(words::HOSTS[choose(words::HOSTS.len())]) }
                match choose(3) { 0 => (), 1 => v.make_ascii_lowercase(), _ => v.make_ascii_uppercase() }
                match choose(3) { 0 => check_addr(&v), w => check_cmd(&as_path(w, &v)) }
            }),
            space("source-routes", "source routes of 0..=3 (thorough: 4) hops out of 7 (valid and invalid) x separators x 4 addresses x brackets",
                move || {
                    const HOPS: &[&[u8]] = &[b"@a", b"@a.b", b"@[1.2.3.4]", b"@[IPv6:1:2:3:4:5:6:7:8]", b"a", b"@", b"@-a"];
                    let n = choose(t.pick(4, 5));
                    let mut v = vec![];
                    for i in 0..n {
                        if i > 0 { v.extend_from_slice([&b","[..], b"", b", ", b",,"][choose(4)]) }
                        v.extend_from_slice(HOPS[choose(HOPS.len())]);
                    }
                    if n > 0 { v.extend_from_slice([&b":"[..], b"", b"::"][choose(3)]) }
                    v.extend_from_slice([&b"u@h"[..], b"u", b"\"q:,@ \"@h", b""][choose(4)]);
                    let w = choose(5);
                    check_cmd(&as_path(w, &v))
                }),
            space("long-addresses", format!("{} lengths up to {}: one atom, many atoms, quoted, escaped, many labels, many route hops", lens.len(), lens[lens.len() - 1]),
                move || {
                    let n = lens[choose(lens.len())];
                    let rep = |s: &[u8]| -> Vec<u8> { s.iter().cycle().take(n * s.len()).cloned().collect() };
                    let v = match choose(6) {
                        0 => [&rep(b"x")[..], b"@h"].concat(),
                        1 => [&rep(b"x.")[..], b"x@h"].concat(),
                        2 => [b"\"", &rep(b" ")[..], b"\"@h"].concat(),
                        3 => [b"\"", &rep(b"\\\"")[..], b"\""].concat(),
                        4 => [b"a@", &rep(b"l-.")[..], b"z"].concat(),
                        _ => [b"@h", &rep(b",@h")[..], b":u@x"].concat(),
                    };
                    match choose(3) { 0 => check_addr(&v), w => check_cmd(&as_path(w, &v)) }
                }),
        ],
        assumptions: PARSE_ASSUME.to_vec(),
    }
}

fn check_canonical(b: &[u8]) -> Res {
    let e = match Email::parse_slice(b) {
        Ok(e) => e,
        Err(_) => return Ok(()),
    };
    let a = match model::addr(b) {
        Verdict::Accept(a) => a,
        _ => return Ok(()),
    };
    step();
    let want = a.canonical();
    let got = e.localpart();
    note(|| format!("{} -> canonical {}", show(b), show(got.bytes())));
    if want != a.local {
        case(b);
    }
    state(&want);
    ensure!(got.bytes()[..] == want[..], "address {}: canonical local part {}, should be {}", show(b), show(got.bytes()), show(&want));
    ensure!(e.raw_localpart().bytes()[..] == a.local[..], "address {}: raw local part {}", show(b), show(e.raw_localpart().bytes()));
    // computing it again, and for the other spelling of the same mailbox
    ensure!(e.localpart() == got, "address {}: a second computation differs", show(b));
    let quoted: Vec<u8> = std::iter::once(b'"')
        .chain(want.iter().flat_map(|c| vec![b'\\', *c]))
        .chain(std::iter::once(b'"'))
        .collect();
    let other = Email::parse_slice(&quoted).map_err(|e| format!("{} refused: {:?}", show(&quoted), e))?;
    ensure!(other.localpart() == got, "{} and {} name the same mailbox but have canonical local parts {} and {}",
        show(b), show(&quoted), show(got.bytes()), show(other.localpart().bytes()));
    Ok(())
}
pub fn m12(t: Tier) -> Check {
    let l = t.pick(10, 11);
    let lens = long_lengths(t.pick(2100, 140000));
    Check {
        level: Level::Exploration,
        rule: "The canonical local part of every parsed address is compared with an independent unquoting, and with that of the fully escaped spelling of the same mailbox. Non-trivial: canonical and raw form differ.",
        spaces: vec![
            space("quoted-strings", format!("every quoted string over {{a,\\,\",space}} of length 0..={l}, with and without host"),
                move || { let s = string(b"a\\\" ", 0, l); check_canonical(&[b"\"", &s[..], b"\"", [&b""[..], b"@h"][choose(2)]].concat()) }),
            space("plain-strings", format!("every unquoted string over {{a,'.',-,+,'}} of length 1..={}", l - 2),
                move || { let s = string(b"a.-+'", 1, l - 2); check_canonical(&[&s[..], [&b""[..], b"@h"][choose(2)]].concat()) }),
            space("words", format!("{} local parts of real mail systems, bare or quoted, alone or with one of {} hosts, as they are, in lower or in upper case", words::LOCALS.len(), words::HOSTS.len()), || {
                let l = words::LOCALS[choose(words::LOCALS.len())];
                let mut v = if flip() { l.to_vec() } else { [b"\"", &l[..], b"\""].concat() };
                if flip() { v.push(b'@'); v.extend_from_slice(words::HOSTS[choose(words::HOSTS.len())]) }
                match choose(3) { 0 => (), 1 => v.make_ascii_lowercase(), _ => v.make_ascii_uppercase() }
                check_canonical(&v)
            }),
            space("every-byte-pair", "every pair of byte values inside quotes, each plain or escaped",
                move || {
                    let (a, b) = (32 + choose(95) as u8, 32 + choose(95) as u8);
                    let mut s = vec![b'"'];
                    for c in [a, b] { if flip() { s.push(b'\\') } s.push(c) }
                    s.push(b'"');
                    check_canonical(&s)
                }),
            space("escape-runs", format!("runs of escaped and plain characters of {} lengths up to {}", lens.len(), lens[lens.len() - 1]),
                move || {
                    let n = lens[choose(lens.len())];
                    let u: &[u8] = [&b"\\\\"[..], b"\\\"", b"a", b"\\a", b"a\\\\"][choose(5)];
                    let mut s = vec![b'"'];
                    for _ in 0..n { s.extend_from_slice(u) }
                    s.extend_from_slice([&b""[..], b"x", b"\\\\", b"\\\""][choose(4)]);
                    s.push(b'"');
                    check_canonical(&s)
                }),
            space("in-commands", format!("the address of every MAIL/RCPT with a quoted string over {{a,\\,\",space,@,>}} of length 0..={}", l - 3),
                move || {
                    let s = string(b"a\\\" @>", 0, l - 3);
                    let line = as_path(2 + choose(2), &[b"\"", &s[..], b"\"@h"].concat());
                    if let (Ok(c), Verdict::Accept(m)) = (Command::parse(Bytes::from(&line[..])), model::command(&line)) {
                        let (e, a) = match (&c, &m) {
                            (Command::Mail(MailCommand { from: Some(e), .. }), Cmd::Mail(Some(a), _)) => (e, a),
                            (Command::Rcpt(RcptCommand { to, .. }), Cmd::Rcpt(a, _)) => (to, a),
                            _ => return Ok(()),
                        };
                        case(&line);
                        ensure!(e.localpart().bytes()[..] == a.canonical()[..], "{}: canonical local part {}, should be {}", show(&line), show(e.localpart().bytes()), show(&a.canonical()));
                    }
                    Ok(())
                }),
        ],
        assumptions: vec!["addresses come from the parser (the constructor takes any string)"],
    }
}

fn gen_host(t: Tier) -> Vec<u8> {
    match choose(5) {
        0 => string(b"a1-._", 0, t.pick(5, 6)),
        1 => {
            const T: &[&[u8]] = &[b"0", b"1", b"25", b"255", b"256", b"01", b".", b"a", b" "];
            [b"[", &tokens(T, 0, t.pick(4, 5))[..], b"]"].concat()
        }
        2 => {
            const T: &[&[u8]] = &[b"0", b"ffff", b":", b"::", b"1.2.3.4", b"g", b"12345", b"A"];
            [b"[IPv6:", &tokens(T, 0, t.pick(5, 6))[..], b"]"].concat()
        }
        3 => {
            // well-formed or nearly
            let n = 3 + choose(3);
            let mut s = vec![b'['];
            for i in 0..n {
                if i > 0 { s.push(b'.') }
                s.extend_from_slice([&b"0"[..], b"7", b"10", b"255", b"256", b"03"][choose(6)]);
            }
            s.push(b']');
            s
        }
        _ => {
            // well-formed addresses: every position of the zero run
            let groups = choose(10);
            let gap = choose(11);
            let mut s = String::new();
            for i in 0..groups {
                if i == gap {
                    s.push_str(if i == 0 { "::" } else { ":" })
                }
                s.push_str(["0", "1", "00ff"][i % 3]);
                if i + 1 < groups || i + 1 == gap {
                    s.push(':')
                }
            }
            if flip() {
                s.push_str(":1.2.3.255")
            }
            format!("[IPv6:{s}]").into_bytes()
        }
    }
}
fn check_host(h: &[u8]) -> Res {
    let want = model::host(h);
    for (a, b) in [(&b"EHLO "[..], &b"\r\n"[..]), (b"HELO ", b"\r\n"), (b"RCPT TO:<a@", b">\r\n")] {
        let line = [a, h, b].concat();
        let got = Command::parse(Bytes::from(&line[..]));
        step();
        // whitespace around the host of EHLO/HELO is a separator, not part of it
        let want_cmd = model::command(&line);
        match (want_cmd, &got) {
            (Verdict::Free, _) => (),
            (Verdict::Accept(m), Ok(c)) => {
                case(&line);
                let s = seen(c);
                ensure!(matches(&m, &s), "{} is {:?}, but was parsed as {}", show(&line), m, show_seen(&s));
                let w = ser(c)?;
                ensure!(Command::parse(Bytes::from(&w[..])).map(|c| seen(&c) == s).unwrap_or(false), "{} is written as {}, which is not the same host", show(&line), show(&w));
            }
            (Verdict::Accept(m), Err(e)) => return Err(format!("{} is {:?}, but was refused: {:?}", show(&line), m, e)),
            (Verdict::Reject, Ok(c)) => return Err(format!("{} should be refused, but was parsed as {}", show(&line), show_seen(&seen(c)))),
            (Verdict::Reject, Err(_)) => (),
        }
    }
    let a = [b"x@", h].concat();
    check_addr(&a)?;
    note(|| format!("host {} -> {:?}", show(h), want));
    if let Verdict::Accept(h) = &want {
        state(h);
    }
    Ok(())
}
pub fn m13(t: Tier) -> Check {
    let l = t.pick(7, 8);
    let all = all_bytes();
    let lens = long_lengths(t.pick(2100, 20000));
    Check {
        level: Level::Exploration,
        rule: "Every host is parsed in EHLO, HELO, RCPT and a stand-alone address, against an independent grammar with its own IPv4/IPv6 reader (cross-checked with the standard library); the value is compared through its serialisation, which tells names, IPv4 and IPv6 apart. Non-trivial: accepted.",
        spaces: vec![
            space("names", format!("every string over {{a,Z,1,-,'.'}} of length 0..={l}"), move || check_host(&string(b"aZ1-.", 0, l))),
            space("words", format!("{} hosts of real mail systems, as they are, in lower or in upper case, or two of them with one of 4 bytes between", words::HOSTS.len()), || {
                let mut v = words::HOSTS[choose(words::HOSTS.len())].to_vec();
                match choose(4) { 0 => (), 1 => v.make_ascii_lowercase(), 2 => v.make_ascii_uppercase(), _ => { v.push(b".-a "[choose(4)]); v.extend_from_slice(words::HOSTS[choose(words::HOSTS.len())]) } }
                check_host(&v)
            }),
            space("near-names", format!("every string over {{a,-,'.',_,space,[,]}} of length 0..={}", l - 1), move || check_host(&string(b"a-._ []", 0, l - 1))),
            space("ipv4-literals", format!("every sequence of up to {} tokens out of 0,1,25,255,256,01,'.',a,+,space in brackets", t.pick(6, 6)),
                move || {
                    const T: &[&[u8]] = &[b"0", b"1", b"25", b"255", b"256", b"01", b".", b"a", b"+", b" "];
                    check_host(&[b"[", &tokens(T, 0, t.pick(6, 6))[..], b"]"].concat())
                }),
            space("ipv4-grammar", format!("every sequence of up to {} tokens out of 0, 25, 256, 01, '.' in brackets", t.pick(8, 9)),
                move || {
                    const T: &[&[u8]] = &[b"0", b"25", b"256", b"01", b"."];
                    check_host(&[b"[", &tokens(T, 0, t.pick(8, 9))[..], b"]"].concat())
                }),
            space("ipv4-octets", "[a.b.c.d] with each octet 0..=299 and the other three among 5, and 3-5 groups",
                move || {
                    let k = choose(4);
                    let v = choose(300);
                    let o = [0usize, 1, 99, 255, 256][choose(5)];
                    let n = [4, 3, 5][choose(3)];
                    let s: Vec<String> = (0..n).map(|i| if i == k { v.to_string() } else { o.to_string() }).collect();
                    check_host(format!("[{}]", s.join(".")).as_bytes())
                }),
            space("ipv6-literals", format!("every sequence of up to {} tokens out of 0, ffff, ':', '::', 1.2.3.4, g, 12345, A after [IPv6:", t.pick(6, 6)),
                move || {
                    const T: &[&[u8]] = &[b"0", b"ffff", b":", b"::", b"1.2.3.4", b"g", b"12345", b"A"];
                    check_host(&[b"[IPv6:", &tokens(T, 0, t.pick(6, 6))[..], b"]"].concat())
                }),
            space("ipv6-shapes", "0..=9 groups, '::' at every position or nowhere, optional IPv4 tail",
                move || {
                    let g = choose(10);
                    let gap = choose(11);
                    let mut parts: Vec<String> = (0..g).map(|i| ["0", "1", "00ff"][choose(3).max(i % 2)].to_string()).collect();
                    if flip() { parts.push("1.2.3.255".into()) }
                    let s = if gap <= parts.len() { format!("{}::{}", parts[..gap].join(":"), parts[gap..].join(":")) } else { parts.join(":") };
                    check_host(format!("[IPv6:{s}]").as_bytes())
                }),
            space("edits", "each byte value substituted or inserted, deletions, truncations at every position of 7 hosts; two edits with critical bytes",
                move || {
                    const H: &[&[u8]] = &[b"a.b-c.d1", b"[127.0.0.1]", b"[IPv6:1:2::7:8]", b"[IPv6:::ffff:1.2.3.4]", b"1", b"xn--a.b", b"[IPv6:::]"];
                    let mut v = H[choose(H.len())].to_vec();
                    if flip() { edit(&mut v, &all) } else { let c = b"[].:-a1 \r\nG"; edit(&mut v, c); edit(&mut v, c) }
                    check_host(&v)
                }),
            space("long-names", format!("labels and names of {} lengths up to {}", lens.len(), lens[lens.len() - 1]),
                move || {
                    let n = lens[choose(lens.len())];
                    let u: &[u8] = [&b"x"[..], b"x.", b"1-", b"ab.c-."][choose(4)];
                    let v: Vec<u8> = u.iter().cycle().take(n).cloned().chain([b"a".to_vec(), b"".to_vec(), b"-".to_vec(), b".".to_vec()][choose(4)].clone()).collect();
                    check_host(&v)
                }),
        ],
        assumptions: PARSE_ASSUME.to_vec(),
    }
}

const PCTX: &[&[u8]] = &[b"MAIL FROM:<>", b"RCPT TO:<a@b>", b"MAIL FROM:a@b", b"RCPT TO:\"q\""];
fn check_params(ctx: &[u8], p: &[u8]) -> Res {
    let line = [ctx, p, b"\r\n"].concat();
    check_cmd(&line)?;
    // writing and parsing back gives the same set
    if let Ok(c) = Command::parse(Bytes::from(&line[..])) {
        let w = ser(&c)?;
        let back = Command::parse(Bytes::from(&w[..])).map_err(|e| format!("{} is written as {}, which is refused: {:?}", show(&line), show(&w), e))?;
        ensure!(seen(&back).params == seen(&c).params, "{} is written as {}, whose parameters differ", show(&line), show(&w));
        let mut out = vec![];
        match &c {
            Command::Mail(m) => m.params.send_to(&mut out).map_err(|e| e.to_string())?,
            Command::Rcpt(m) => m.params.send_to(&mut out).map_err(|e| e.to_string())?,
            _ => (),
        }
        match model::params(&out) {
            Verdict::Accept(m) => ensure!(params_match(&m, &seen(&c).params) && m.values().all(|v| v.len() == 1),
                "{}: parameters written as {}", show(&line), show(&out)),
            _ => return Err(format!("{}: parameters written as {}", show(&line), show(&out))),
        }
    }
    Ok(())
}
pub fn m14(t: Tier) -> Check {
    let l = t.pick(7, 8);
    let all = all_bytes();
    let lens = long_lengths(t.pick(2100, 20000));
    Check {
        level: Level::Exploration,
        rule: "Parameter strings in 4 MAIL/RCPT contexts against an independent splitter; then written and parsed back. Non-trivial: accepted.",
        spaces: vec![
            space("words", format!("up to 2 of {} parameters of real mail systems in 4 contexts, as they are, in lower or in upper case, 3 separators", words::PARAMS.len()), || {
                let sep = [&b" "[..], b"\t", b"  "][choose(3)];
                let mut v = vec![];
                for _ in 0..1 + choose(2) {
                    v.extend_from_slice(sep);
                    v.extend_from_slice(words::PARAMS[choose(words::PARAMS.len())]);
                }
                match choose(3) { 0 => (), 1 => v.make_ascii_lowercase(), _ => v.make_ascii_uppercase() }
                check_params(PCTX[choose(4)], &v)
            }),
            space("strings", format!("every string over {{space,TAB,a,=,-,2}} of length 0..={l} in 4 contexts"),
                move || { let p = string(b" \ta=-2", 0, l); check_params(PCTX[choose(4)], &p) }),
            space("tokens", format!("every sequence of up to {} tokens out of 14 (keywords, values, separators, odd bytes)", t.pick(5, 6)),
                move || {
                    const T: &[&[u8]] = &[b" ", b"\t", b"KEY", b"k", b"=", b"v", b"=v", b" A=b", b"-", b"1", b"\"", b"+", b"  ", b"\r"];
                    let p = tokens(T, 0, t.pick(5, 6));
                    check_params(PCTX[choose(2)], &p)
                }),
            space("every-byte-value", "each byte value substituted or inserted, deletions, truncations at every position of 6 parameter lists; two edits with critical bytes",
                move || {
                    const P: &[&[u8]] = &[b" SIZE=100 BODY=8BITMIME", b" A B", b"\tKey=va/l;u:e<>\"\\", b" A=b  C-2 ", b" X=!~", b" "];
                    let mut v = P[choose(P.len())].to_vec();
                    if flip() { edit(&mut v, &all) } else { let c = &CRIT[..t.pick(12, CRIT.len())]; edit(&mut v, c); edit(&mut v, c) }
                    check_params(PCTX[choose(4)], &v)
                }),
            space("every-byte-pair", "every pair of byte values in keyword and value position (quick: one of the two among 24 critical bytes)",
                move || {
                    let a = choose(256) as u8;
                    let b = if t == Tier::Quick { pick(b" \t=-a1Z\r\n\0\x7f\x80\xff!~<>\"\\+_.,;") } else { choose(256) as u8 };
                    let (a, b) = if flip() { (a, b) } else { (b, a) };
                    let p = match choose(3) { 0 => vec![b' ', a, b], 1 => vec![b' ', b'k', b'=', a, b], _ => vec![b' ', b'k', a, b, b'v'] };
                    check_params(PCTX[choose(2)], &p)
                }),
            space("long-parts", "MAIL/RCPT lines with 12 lengths around 300, 4096, 8192, 32768, 65536 for one of 9 parts (spaces, route, local part, host labels, keyword, value), another one long or none", || {
                let (h, p) = long_parts(&long_part_lengths());
                check_params(&h, &p)
            }),
            space("many-and-long", format!("1..=300, 511..=513, 1000, 1023..=1025, 4095..=4097 and 10000 distinct parameters, with and without value; keywords and values of {} lengths up to {}", lens.len(), lens[lens.len() - 1]),
                move || {
                    let p: Vec<u8> = if flip() {
                        const MORE: &[usize] = &[511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10_000];
                        let n = match choose(300 + MORE.len()) { i if i < 300 => 1 + i, i => MORE[i - 300] };
                        let m = choose(3);
                        (0..n).flat_map(|i| match (m, i % 2) { (0, _) | (2, 0) => format!(" K{i}"), _ => format!("\tK{i}=v{i}") }.into_bytes()).collect()
                    } else {
                        let n = lens[choose(lens.len())].max(1);
                        match choose(3) { 0 => [b" ", &vec![b'k'; n][..]].concat(), 1 => [b" k=", &vec![b'v'; n][..]].concat(), _ => [&vec![b' '; n][..], b"k=v", &vec![b'\t'; n][..]].concat() }
                    };
                    check_params(PCTX[choose(2)], &p)
                }),
        ],
        assumptions: PARSE_ASSUME.to_vec(),
    }
}

// ------------------------------------------------------------ M17
/// Everything a caller can do with a parse result, twice.
fn exercise(b: &[u8]) -> Res {
    step();
    if !b.is_empty() {
        case(b);
    }
    let input = Bytes::from(b);
    let keep = input.clone();
    let once = || -> Vec<String> {
        let mut out = vec![];
        match Command::parse(input.clone()) {
            Ok(c) => {
                let s = seen(&c);
                let mut w = vec![];
                c.send_to(&mut w).expect("writing to memory");
                if let Command::Mail(m) = &c {
                    if let Some(e) = &m.from {
                        out.push(show(e.localpart().bytes()));
                    }
                }
                if let Command::Rcpt(m) = &c {
                    out.push(show(m.to.localpart().bytes()));
                }
                let _ = format!("{:?}", c);
                out.push(show_seen(&s));
                // parameters are a set
                w.sort();
                out.push(show(&w));
            }
            Err(e) => {
                out.push(format!("{}", e));
                out.push(format!("{:?}", e));
            }
        }
        for e in [Email::parse_slice(&input), Email::parse(ByteSlice::from(&input))] {
            match e {
                Ok(e) => {
                    out.push(format!("{:?} {:?}", seen_addr(&e), e));
                    out.push(show(e.localpart().bytes()));
                    out.push(show(SmtpString::from_sendable(&Some(e)).expect("writing to memory").bytes()));
                }
                Err(e) => out.push(format!("{} {:?}", e, e)),
            }
        }
        match ReplyLine::parse(input.clone()) {
            Ok(r) => {
                let mut w = vec![];
                r.send_to(&mut w).expect("writing to memory");
                out.push(format!("{:?} {} {}", r, r.byte_len(), show(&w)));
            }
            Err(e) => out.push(format!("{} {:?}", e, e)),
        }
        out
    };
    let a = once();
    if b.len() <= 64 {
        let b2 = once();
        ensure!(a == b2, "parsing {} twice gives different results: {:?} / {:?}", show(b), a, b2);
    }
    ensure!(keep == input && input[..] == b[..], "parsing {} modified its input", show(b));
    note(|| format!("{} -> {}", show(b), a.join(" / ")));
    outcome(&a[0].len());
    Ok(())
}
pub fn m17(t: Tier) -> Check {
    let mut spaces = vec![];
    let n = t.pick(2, 3);
    spaces.push(space("all-short-inputs", format!("every byte string of length 0..={n}"), move || {
        let k = choose(n + 1);
        let v: Vec<u8> = (0..k).map(|_| choose(256) as u8).collect();
        exercise(&v)
    }));
    for (name, desc, g) in line_gens(t, t.pick(4, 5)) {
        spaces.push(space(name, desc, move || {
            exercise(&g())
        }));
    }
    let l = t.pick(5, 6);
    spaces.push(space("grammar-strings", format!("every string over 11 grammar bytes of length 0..={l}, bare and after MAIL FROM: and 250-"), move || {
        let s = string(b"a.@\"\\<>[]: ", 0, l);
        exercise(&[[&b""[..], b"MAIL FROM:", b"250-"][choose(3)], &s, [&b""[..], b"\r\n"][choose(2)]].concat())
    }));
    let all = all_bytes();
    spaces.push(space("words", words_desc(), || exercise(&words_line())));
    spaces.push(space("addresses-and-replies", "8 addresses and 4 replies with one edit by any byte value or two by critical ones", move || {
        const R: &[&[u8]] = &[b"250 ok\r\n", b"250-a\r\n", b"999 \r\n", b"000-\t\x7f\r\n"];
        let k = choose(ADDRS.len() + R.len());
        let mut v = if k < ADDRS.len() { ADDRS[k].to_vec() } else { R[k - ADDRS.len()].to_vec() };
        if flip() { edit(&mut v, &all) } else { let c = &CRIT[..t.pick(10, CRIT.len())]; edit(&mut v, c); edit(&mut v, c) }
        exercise(&v)
    }));
    let big = t.pick(vec![1_000usize, 30_000, 300_000, 1_100_000], vec![1_000, 30_000, 300_000, 1_100_000, 5_000_000]);
    spaces.push(space("huge-inputs", format!("24 repeated units in 9 contexts, repeated to {:?} bytes (stack depth, runaway time)", big), move || {
        const U: &[&[u8]] = &[b"a", b".", b"a.", b"\"", b"\\", b"\\\\", b"\\\"", b"@", b"@a,", b"@a:", b"<", b">", b"[", b"]", b" ", b"\t", b"k=v ", b" k", b"=", b"\r", b"\n", b"\r\n", b"\0", b"\xff"];
        const C: &[(&[u8], &[u8])] = &[(b"", b""), (b"MAIL FROM:", b"\r\n"), (b"MAIL FROM:<", b":a@b>\r\n"), (b"RCPT TO:\"", b"\"\r\n"), (b"RCPT TO:<a@", b">\r\n"), (b"MAIL FROM:<a> ", b"\r\n"), (b"EHLO ", b"\r\n"), (b"EHLO [IPv6:", b"]\r\n"), (b"250 ", b"\r\n")];
        let n = big[choose(big.len())];
        let u = U[choose(U.len())];
        let (a, b) = C[choose(C.len())];
        let mid: Vec<u8> = u.iter().cycle().take(n).cloned().collect();
        exercise(&[a, &mid, b].concat())
    }));
    Check {
        level: Level::Exploration,
        rule: "Every input goes through all parsers, every accessor, serialiser and error display, twice; a panic, abort, stack overflow (2 MiB stack), endless loop (watchdog), difference or modification is a violation. Overflow checks are on. Non-trivial: the input is not empty.",
        spaces,
        assumptions: vec!["promptly: an execution that does not end within 40 s, and within 60 s when repeated alone, counts as a hang"],
    }
}
