//! Checks S01-S12: the SMTP server session.
use crate::world::*;
use mcore::model;
use mcore::util::*;
use mcore::*;
use std::collections::VecDeque;

/// Commands a conversation is made of. `DATA` goes on with a body if it is accepted.
const CMDS: &[&[u8]] = &[
    b"MAIL FROM:<a@b.c>\r\n",
    b"RCPT TO:<x@y.z>\r\n",
    b"DATA\r\n",
    b"MAIL FROM:<>\r\n",
    b"RCPT TO:<\"p q\"@[1.2.3.4]>\r\n",
    b"WHAT\r\n",
    b"RSET\r\n",
    b"NOOP\r\n",
    b"EHLO h.i\r\n",
    b"QUIT\r\n",
    b"MAIL FROM:<a@b.c\r\n",
    b"\r\n",
    b"HELO h.i\r\n",
    b"VRFY x\r\n",
    b"EXPN x\r\n",
    b"HELP\r\n",
    b"RCPT TO:<>\r\n",
    b"data\r\n",
];
const BODIES: &[&[u8]] = &[b"hello\r\n.\r\n", b".\r\n", b"..\r\n...x\r\nMAIL FROM:<e@e.e>\r\n.\r\n", b"a\rb\n.\n.\r.\r\n\r\n.\r\n"];

/// One command, with its body if the model accepts DATA.
fn one(s: &mut Sess, cmd: &[u8], body: impl FnOnce() -> B) {
    s.line(cmd);
    if s.in_data {
        let b = body();
        s.body(&b);
    }
    s.seen();
    nontrivial();
}
fn packed(s: &Sess, how: usize) -> Vec<B> {
    match how {
        0 => vec![s.input.clone()],
        1 => lines(&s.input),
        _ => cut(&s.input, Cuts::Bytes),
    }
}
const KINDS: [Kind; 3] = [Kind::Own, Kind::Default, Kind::Half];
fn seq(depth: usize, kinds: &'static [Kind], policy: Policy, cmds: usize, hows: usize) -> impl Fn() -> Res + Send + Sync {
    move || {
        let mut s = Sess::new(pick(kinds), policy);
        let n = choose(depth + 1);
        for _ in 0..n {
            one(&mut s, CMDS[choose(cmds)], || BODIES[0].to_vec());
        }
        let p = packed(&s, choose(hows));
        run(&s, &p, Mem::Own, Opts::default())
    }
}
/// Long histories: a cycle of `cmds` commands, repeated.
fn long(total: usize, cyc: usize, cmds: usize) -> impl Fn() -> Res + Send + Sync {
    move || {
        let n = 1 + choose(cyc);
        let c: Vec<&[u8]> = (0..n).map(|_| CMDS[choose(cmds)]).collect();
        let kind = pick(&KINDS);
        let m = [0, 2, 3, 7][choose(4)];
        let policy = if m == 0 { Policy::Accept } else { Policy::Every(m, 1) };
        let mut s = Sess::new(kind, policy);
        for i in 0..total {
            one(&mut s, c[i % n], || BODIES[i / n % BODIES.len()].to_vec());
        }
        let p = packed(&s, choose(2));
        run(&s, &p, Mem::Own, Opts::default())
    }
}
/// As `long`, for counts beyond 4096, with fewer patterns.
fn very_long(total: usize) -> impl Fn() -> Res + Send + Sync {
    move || {
        let c: Vec<&[u8]> = if flip() {
            vec![CMDS[0], CMDS[1], CMDS[2]]
        } else {
            let n = 1 + choose(2);
            (0..n).map(|_| CMDS[choose(6)]).collect()
        };
        let kind = [Kind::Own, Kind::Default][choose(2)];
        let policy = if flip() { Policy::Accept } else { Policy::Every(5, 3) };
        let mut s = Sess::new(kind, policy);
        s.lean = true;
        for i in 0..total {
            one(&mut s, c[i % c.len()], || BODIES[0].to_vec());
        }
        run(&s, &[s.input.clone()], Mem::Own, Opts::default())
    }
}
/// One command, or a delivery, 70 000 commands long.
fn huge() -> Res {
    const ONE: [&[u8]; 5] = [CMDS[0], b"NOOP\r\n", b"RSET\r\n", b"DATA\r\n", b"x\r\n"];
    let k = choose(6);
    let c: &[&[u8]] = if k == 5 { &CMDS[0..3] } else { &ONE[k..k + 1] };
    let mut s = Sess::new(Kind::Own, if flip() { Policy::Accept } else { Policy::Every(5, 3) });
    for i in 0..if k == 5 { 3 * 70_001 } else { 140_000 } {
        one(&mut s, c[i % c.len()], || BODIES[0].to_vec());
    }
    run(&s, &[s.input.clone()], Mem::Own, Opts::default())
}
/// In each of five states, something refused or out of place again and again, then a probe.
fn repeated() -> Res {
    const N: [usize; 6] = [1, 101, 1001, 4200, 10_001, 70_000];
    const OPS: [&[u8]; 13] = [
        b"MAIL FROM:<no@w>\r\n", b"RCPT TO:<no@w>\r\n", b"DATA\r\n", b"NOOP\r\n", b"x\r\n", b"\r\n", b"RSET\r\n", b"QUIT\r\n", b"VRFY u\r\n", b"MAIL FROM:<a@b.c\r\n",
        b"MAIL FROM:<a@b.c>\r\nRCPT TO:<x@y.z>\r\nDATA\r\n", b"MAIL FROM:<a@b.c>\r\nDATA\r\n", b"RCPT TO:<no@w>\r\nMAIL FROM:<no@w>\r\n",
    ];
    let mut s = Sess::new([Kind::Own, Kind::Default][choose(2)], Policy::Accept);
    let pre = choose(5);
    for c in [&[][..], &[0][..], &[0, 1][..], &[0, 1, 1][..], &[0, 1, 2][..]][pre] {
        one(&mut s, CMDS[*c], || BODIES[0].to_vec());
    }
    let op = choose(13);
    let n = N[choose(6)];
    if op != 11 { s.policy = Policy::Every(1, 0) }
    for i in 0..n {
        if op == 10 {
            // a mail whose handler refuses it
            s.fixed = [vec![], vec![Dec::yes(), Dec::yes(), Dec::yes(), Dec::no(554, b"no")]][(s.txn.is_none()) as usize].clone().into();
            if s.txn.is_some() { s.fixed = vec![Dec::yes(), Dec::yes(), Dec::no(554, b"no")].into() }
        }
        let l: Vec<&[u8]> = OPS[op].split_inclusive(|b| *b == b'\n').collect();
        for c in l { one(&mut s, c, || if i % 2 == 0 { BODIES[1].to_vec() } else { BODIES[0].to_vec() }) }
    }
    s.policy = Policy::Accept;
    s.fixed.clear();
    for c in [1, 2, 0, 1, 2] { one(&mut s, CMDS[c], || BODIES[0].to_vec()) }
    let p = if n <= 1001 && flip() { lines(&s.input) } else { vec![s.input.clone()] };
    run(&s, &p, Mem::Own, Opts::default())
}
const REPEATED: &str = "in 5 states, a refused sender, recipient, DATA or message, a command out of place, unknown or malformed (13 kinds), 1, 101, 1001, 4200, 10001 or 70000 times in a row, 2 configurations, then a probe of the state";
/// A line or a body of some size, a plain conversation behind it, in packets of some size.
fn large_packets() -> Res {
    let size = SIZES[choose(SIZES.len())];
    let k = choose(6 + FILLERS);
    let mut s = Sess::new(Kind::Own, Policy::Accept);
    s.line(b"MAIL FROM:<a@b>\r\n");
    s.line(b"RCPT TO:<x@y>\r\n");
    if k < 6 {
        let a = [&b"NOOP "[..], b"x", b"RCPT TO:<", b"DATA ", b"RSET\n", b"EHLO a"][k];
        s.line(&[a, &filler(0, size), if k == 2 { b">" } else { b"" }, b"\r\n"].concat());
    } else {
        s.line(b"DATA\r\n");
        s.all(&[&filler(k - 6, size)[..], b"\r\n.\r\n"].concat());
        if s.in_data { s.all(b"\r\n.\r\n") }
        s.line(b"MAIL FROM:<a@b>\r\n");
        s.line(b"RCPT TO:<x@y>\r\n");
    }
    s.line(b"DATA\r\n");
    s.body(b"..hi\r\n.\r\n");
    s.line(b"NOOP\r\n");
    nontrivial();
    let p = match choose(4) {
        0 => vec![s.input.clone()],
        1 => vec![s.input[..s.input.len() / 2].to_vec(), s.input[s.input.len() / 2..].to_vec()],
        k => sized(&s.input, [1460, 65_536][k - 2]),
    };
    run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
}
/// Every code in every place a reply can come from; what follows a refused or an accepted DATA shows the state.
fn by_code() -> Res {
    let which = choose(N_REPLIES + 4);
    let (code, x) = (choose(1000) as u16, [&b"no"[..], b""][choose(2)].to_vec());
    let mut tx = texts(Kind::Own);
    if which < N_REPLIES { tx[which] = (code, x.clone()) }
    let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
    if which >= N_REPLIES {
        let d = Dec::no(code, &x);
        s.fixed = (0..4).map(|i| if i == which - N_REPLIES { d.clone() } else { Dec::yes() }).collect();
    } else {
        s.all(b"WHAT\r\nRSET\r\nRCPT TO:<x>\r\nDATA\r\nMAIL FROM:<>\r\nMAIL FROM:<>\r\nDATA\r\n");
    }
    s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\nRSET\r\nRCPT TO:<m@n>\r\n..\r\nMAIL FROM:<c@d>\r\n.\r\nRCPT TO:<x@z>\r\nDATA\r\nNOOP\r\n.\r\nMAIL FROM:<e@f>\r\nRCPT TO:<x@w>\r\nDATA\r\nlast\r\n.\r\n");
    nontrivial();
    let p = packed(&s, choose(2));
    run(&s, &p, Mem::Own, Opts::default())
}
const BY_CODE: &str = "each of the 11 replies and of the 4 refusals with every code 0..=999 and 2 texts; messages and commands pipelined behind it, in one packet or line by line";
/// Replies of very many lines.
const TEXT_SIZES: [usize; 20] = [505, 506, 507, 1011, 1012, 1013, 1518, 1519, 2024, 2025, 4048, 4096, 5059, 5060, 5061, 8192, 10_120, 65_536, 129_536, 300_000];
fn large_replies(opts: Opts) -> impl Fn() -> Res + Send + Sync {
    move || {
        let which = choose(N_REPLIES + 4);
        let n = TEXT_SIZES[choose(TEXT_SIZES.len())];
        if (opts.fail || opts.pend_sink) && n > 20_000 { return Ok(()) }
        let x = text(n, 1);
        let mut tx = texts(Kind::Own);
        if which < N_REPLIES { tx[which].1 = x.clone() }
        let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
        if which >= N_REPLIES {
            let d = Dec::no(550, &x);
            s.fixed = (0..4).map(|i| if i == which - N_REPLIES { d.clone() } else { Dec::yes() }).collect();
        } else {
            s.all(b"WHAT\r\nRSET\r\nRCPT TO:<x>\r\nDATA\r\nMAIL FROM:<>\r\nMAIL FROM:<>\r\nDATA\r\n");
        }
        s.all(b"RCPT TO:<x@y>\r\nDATA\r\nhi\r\n.\r\n");
        nontrivial();
        let p = packed(&s, choose(2));
        run(&s, &p, Mem::Own, opts)
    }
}
/// Time passes at every operation, or once at any of them.
fn slow_clock() -> Res {
    let s = conversation(choose(N_CONV));
    let p = packed(&s, choose(3));
    run(&s, &p, Mem::Own, Opts { pace: PAUSES[choose(PAUSES.len())], ..Opts::default() })
}
fn slow_cycle() -> Res {
    let n = 1 + choose(2);
    let c: Vec<&[u8]> = if flip() { CMDS[0..3].to_vec() } else { (0..n).map(|_| CMDS[choose(6)]).collect() };
    let mut s = Sess::new([Kind::Own, Kind::Default][choose(2)], if flip() { Policy::Accept } else { Policy::Every(5, 3) });
    for i in 0..300 {
        one(&mut s, c[i % c.len()], || BODIES[0].to_vec());
    }
    let p = packed(&s, choose(2));
    run(&s, &p, Mem::Own, Opts { pace: PAUSES[choose(PAUSES.len())], ..Opts::default() })
}
const SLOW_CLOCK: &str = "all conversations, whole, line by line or byte by byte, with 1 ms to 25 h (7 durations) passing at every operation of the connection, the sink and the hooks (the clock is the explorer's)";
const SLOW_CYCLE: &str = "cycles of 1..=2 out of 6 commands, and the 3 of a delivery, 300 commands long, with 1 ms to 25 h passing at every operation";
/// Sizes where limits would be.
const SIZES: [usize; 26] = [999, 1000, 1001, 4095, 4096, 4097, 8191, 8192, 8193, 10_000, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000, 99_999, 100_000, 131_071, 131_072, 131_073, 1_100_000];
/// Numbers of repetitions where limits would be.
fn times(max: usize) -> usize {
    const T: [usize; 30] = [20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 254, 255, 256, 257, 258, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 4097, 5000];
    let n = T.iter().filter(|x| **x <= max).count();
    let k = choose(n + 12);
    if k < 12 { k } else { T[k - 12] }
}
/// About n bytes of one of several kinds: text, look-alikes of commands, dots and line ends.
fn filler(kind: usize, n: usize) -> B {
    const F: [&[u8]; 7] = [b"x", b"MAIL FROM:<e@e>\r\n", b"..\r\n", b"\n.\n", b"RSET\r\n..\r\n", b"\r", b"0123456789012345678901234567890123456789\r\n"];
    F[kind].iter().copied().cycle().take(n).collect()
}
const FILLERS: usize = 7;
fn sized(b: &[u8], n: usize) -> Vec<B> {
    b.chunks(n).map(|x| x.to_vec()).collect()
}
/// In each of four states, one or two lines of real clients, real content after DATA, and a probe.
fn words_session(lines: usize, kinds: &[Kind]) -> Res {
    use words::*;
    let kind = kinds[choose(kinds.len())];
    let mut s = Sess::new(kind, Policy::Accept);
    let pre = choose(4);
    if pre == 3 {
        s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes(), Dec::no(554, b"no")]);
    }
    let mut x = [&b""[..], b"MAIL FROM:<a@b>\r\n", b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\n", b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n"][pre].to_vec();
    let (mut data, mut free) = (false, false);
    for _ in 0..lines {
        let mut l = LINES[choose(LINES.len())].to_vec();
        if flip() { l.make_ascii_lowercase() }
        data |= l.eq_ignore_ascii_case(b"DATA");
        l.extend_from_slice(b"\r\n");
        free |= model::command(&l) == model::Verdict::Free;
        x.extend_from_slice(&l);
    }
    if data {
        x.extend_from_slice(BODIES[choose(if lines == 1 { BODIES.len() } else { 6 })]);
        x.extend_from_slice(b"\r\n.\r\n");
    }
    x.extend_from_slice(b"RCPT TO:<c@d>\r\nDATA\r\n\r\n.\r\nMAIL FROM:<>\r\n");
    if free {
        return Ok(()); // left open by the statements
    }
    s.all(&x);
    s.seen();
    nontrivial();
    let p = packed(&s, choose(2));
    run(&s, &p, Mem::Own, Opts::default())
}
/// Addresses of real mail as sender, recipient or both; a second transaction with the null sender and Postmaster.
fn words_addresses(kinds: &[Kind]) -> Res {
    use words::*;
    let kind = kinds[choose(kinds.len())];
    let mut s = Sess::new(kind, Policy::Accept);
    let a = [LOCALS[choose(LOCALS.len())], &b"@"[..], HOSTS[choose(HOSTS.len())]].concat();
    let p = [&b""[..], b" SIZE=100 BODY=8BITMIME", b" X=Y"][choose(3)];
    let at = choose(3);
    let plain = &b"a.b@c.example"[..];
    let f = [&b"MAIL FROM:<"[..], if at != 1 { &a } else { plain }, b">", p, b"\r\n"].concat();
    let r = [&b"RCPT TO:<"[..], if at != 0 { &a } else { plain }, b">", p, b"\r\n"].concat();
    if [&f, &r].iter().any(|l| model::command(l) == model::Verdict::Free) {
        return Ok(()); // left open by the statements
    }
    for l in [&f, &r, &r] { s.line(l) }
    one(&mut s, CMDS[2], || b"x\r\n.\r\n".to_vec());
    one(&mut s, CMDS[2], || b"x\r\n.\r\n".to_vec());
    for l in [&b"MAIL FROM:<>\r\n"[..], &r[..]] { s.line(l) }
    one(&mut s, CMDS[2], || b"x\r\n.\r\n".to_vec());
    s.seen();
    nontrivial();
    run(&s, &[s.input.clone()], Mem::Own, Opts::default())
}
fn addresses_about() -> String {
    format!("{} local parts x {} hosts of real mail systems as sender, as recipients or both, 3 sets of parameters; two transactions", words::LOCALS.len(), words::HOSTS.len())
}
/// SIZE parameters with numbers where limits would be, then those of real mail systems.
fn parameter() -> B {
    let k = choose(words::PARAMS.len() + 3 * 64 + 3 * 20);
    if k < words::PARAMS.len() { return words::PARAMS[k].to_vec() }
    let k = k - words::PARAMS.len();
    let n: u128 = if k < 192 { (1u128 << (k / 3 + 1)) + (k % 3) as u128 - 1 } else { 10u128.pow((k - 192) as u32 / 3) * [1, 2, 5][(k - 192) % 3] };
    format!("SIZE={n}").into_bytes()
}
/// One parameter or two of MAIL or RCPT, decided either way, then a delivery and a probe.
fn parameters(many: usize) -> Res {
    let kind = [Kind::Own, Kind::Default][choose(2)];
    let mut p: B = vec![];
    for _ in 0..1 + choose(many) {
        p.push(b' ');
        p.extend(if p.len() > 1 { words::PARAMS[choose(words::PARAMS.len())].to_vec() } else { parameter() });
    }
    let at = choose(3);
    let no = Dec::no(552, b"no");
    let mut s = Sess::new(kind, Policy::Accept);
    if flip() { s.fixed = if at == 1 { VecDeque::from(vec![Dec::yes(), no]) } else { VecDeque::from(vec![no]) } }
    let f = [&b"MAIL FROM:<a@b>"[..], if at != 1 { &p } else { b"" }, b"\r\n"].concat();
    let r = [&b"RCPT TO:<c@d>"[..], if at != 0 { &p } else { b"" }, b"\r\n"].concat();
    if [&f, &r].iter().any(|l| model::command(l) == model::Verdict::Free) {
        return Ok(()); // left open by the statements
    }
    for l in [&f, &r, &f, &r] { s.line(l) }
    one(&mut s, CMDS[2], || b"x\r\n.\r\n".to_vec());
    s.all(b"DATA\r\nMAIL FROM:<>\r\n");
    s.line(&r);
    one(&mut s, CMDS[2], || b"\xff\x80y\0\r\n.\r\n".to_vec());
    s.seen();
    nontrivial();
    run(&s, &[s.input.clone()], Mem::Own, Opts::default())
}
fn parameters_about() -> String {
    format!("MAIL, RCPT or both with one of {} parameters (those of real mail systems; SIZE with the numbers next to 2^1..2^64, and up to 5 * 10^19), the first accepted or refused, 2 configurations; 8-bit data", words::PARAMS.len() + 252)
}
fn parameter_pairs_about() -> String {
    format!("MAIL, RCPT or both with one or two of {} parameters (those of real mail systems; SIZE with numbers), the first accepted or refused, 2 configurations; 8-bit data", words::PARAMS.len() + 252)
}
/// Addresses with long parts as sender, as recipients or both.
fn long_addresses() -> Res {
    const L: [usize; 34] = [1, 2, 15, 16, 17, 31, 32, 33, 62, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 191, 192, 253, 254, 255, 256, 257, 320, 511, 512, 513, 1000, 4096, 65_536, 70_000];
    let n = L[choose(L.len())];
    let x = |n: usize| b"abcdefghi".iter().copied().cycle().take(n).collect::<B>();
    let labels = |n: usize| { let mut h: B = b"abcdefghi.".iter().copied().cycle().take(n).collect(); if h.ends_with(b".") { *h.last_mut().unwrap() = b'a' } h };
    let a: B = match choose(9) {
        0 => [x(n), b"@example.org".to_vec()].concat(),
        1 => [&b"user@"[..], &x(n)].concat(),
        2 => [&b"user@"[..], &labels(n)].concat(),
        3 => [&b"\""[..], &x(n), b"\"@example.org"].concat(),
        4 => [&b"\""[..], &b"\\\"".repeat(n), b"\"@[1.2.3.4]"].concat(),
        5 => [x(n), b"@".to_vec(), x(n)].concat(),
        6 => [&b"@r."[..], &labels(n), b":user@host"].concat(),
        7 => [x(64), b"@".to_vec(), labels(n)].concat(),
        _ => [labels(n), b"@[IPv6:::1]".to_vec()].concat(),
    };
    let kind = [Kind::Own, Kind::Default][choose(2)];
    let mut s = Sess::new(kind, Policy::Accept);
    if choose(2) == 1 { s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes(), Dec::no(554, b"no")]) }
    let at = choose(3);
    let f = [&b"MAIL FROM:<"[..], if at != 1 { &a } else { b"a.b@c.example" }, b">\r\n"].concat();
    let r = [&b"RCPT TO:<"[..], if at != 0 { &a } else { b"a.b@c.example" }, b">\r\n"].concat();
    if [&f, &r].iter().any(|l| model::command(l) == model::Verdict::Free) {
        return Ok(());
    }
    for l in [&f, &r, &r] { s.line(l) }
    one(&mut s, CMDS[2], || b"x\r\n.\r\n".to_vec());
    one(&mut s, CMDS[2], || b"x\r\n.\r\n".to_vec());
    s.seen();
    nontrivial();
    let p = if flip() { vec![s.input.clone()] } else { sized(&s.input, 1460) };
    run(&s, &p, Mem::Own, Opts::default())
}
/// Bodies where limits of a mail's size would be, a second mail and a probe behind them.
fn tens_of_megabytes() -> Res {
    let n = [11usize << 20, 17 << 20, 26 << 20, 34 << 20, 51 << 20, 101 << 20][choose(6)];
    let mut s = Sess::new(Kind::Own, Policy::Accept);
    if flip() { s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes(), Dec::yes(), Dec::no(552, b"no")]) }
    s.all(b"MAIL FROM:<a@b> SIZE=1\r\nRCPT TO:<x@y>\r\n");
    let mut b = filler([0, 6][choose(2)], n);
    b.extend_from_slice(b"\r\n..z\r\n.\r\n");
    one(&mut s, CMDS[2], || b);
    s.all(b"DATA\r\nMAIL FROM:<a@b>\r\nRCPT TO:<x@z>\r\n");
    one(&mut s, CMDS[2], || BODIES[0].to_vec());
    s.seen();
    nontrivial();
    run(&s, &sized(&s.input, 65_536), Mem::Own, Opts::default())
}
const TENS: &str = "a mail of 11, 17, 26, 34, 51 or 101 megabytes of 2 fillers with an escaped dot at the end, accepted or refused, then another; packets of 65536 bytes";
const LONG_ADDRESSES: &str = "9 kinds of addresses with parts of 34 lengths from 1 to 70000 bytes as sender, as recipients or both, DATA accepted or refused first, 2 configurations, in one packet or in packets of 1460 bytes";
/// Bytes a server with features of other protocols would not count as part of a line.
const JUNK: [&[u8]; 24] = [
    b"\xff\xfb\x01", b"\xff\xfd\x03", b"\xff\xfe\x01", b"\xff\xf4", b"\xff\xf1", b"\xff\xff", b"\xef\xbb\xbf", b"\xfe\xff", b"\x1b[A", b"\x1b", b"\0", b"\0\0\0\0", b"\x08", b"x\x08", b"\x7f", b"\x15", b"\x04", b"\x1a", b"\x16\x03\x01\0", b"\x0b", b"\x0c", b"\xc2\xa0", b"  ", b"\t",
];
/// In each of four states, such bytes before, in or behind a command, cut off from it or not; then a probe.
fn junk() -> Res {
    let mut s = Sess::new(Kind::Own, Policy::Accept);
    let pre = choose(4);
    for c in &[0, 1][..pre.min(2)] { one(&mut s, CMDS[*c], || BODIES[0].to_vec()) }
    let c = if pre == 3 { b"DATA\r\n".to_vec() } else { CMDS[choose(6)].to_vec() };
    let j = JUNK[choose(JUNK.len())];
    let j = j.repeat(1 + choose(2));
    let c = if pre == 3 { [&b".\r\n"[..], b"..\r\n", b"x\r\n.\r\n", b"x\r\n..\r\n"][choose(4)].to_vec() } else { c };
    let at = [0, c.len() - 2, c.len(), c.len() / 2][choose(4)];
    let l = [&c[..at], &j[..], &c[at..]].concat();
    if pre < 3 && l.split_inclusive(|b| *b == b'\n').any(|l| model::command(l) == model::Verdict::Free) {
        return Ok(()); // left open by the statements
    }
    let x = [&l[..], b"RCPT TO:<c@d>\r\nDATA\r\n\r\n.\r\nMAIL FROM:<>\r\nRCPT TO:<e@f>\r\n.\r\n"].concat();
    if pre == 3 {
        s.all(&[&b"RCPT TO:<x@y>\r\nDATA\r\n"[..], &x].concat());
    } else {
        s.all(&x);
    }
    let from = s.input.len() - x.len();
    s.seen();
    nontrivial();
    let p = match choose(4) {
        0 => vec![s.input.clone()],
        1 => lines(&s.input),
        2 => vec![s.input[..from + at].to_vec(), s.input[from + at..].to_vec()],
        _ => vec![s.input[..from + at].to_vec(), j.clone(), s.input[from + at + j.len()..].to_vec()],
    };
    run(&s, &p, Mem::Own, Opts::default())
}
const JUNKS: &str = "in 3 states of a session and in a body, 24 byte sequences of terminals and other protocols, once or twice, before, in or behind a command or line, in one packet, line by line, cut before them or in a packet of their own; then a probe of the state";
/// Senders and recipients that are equal, or equal but for the case, with every decision.
fn equal_addresses() -> Res {
    const A: [&str; 4] = ["a@b", "A@b", "c@d", ""];
    let mut s = Sess::new(Kind::Own, Policy::Either);
    let f = choose(4);
    s.line(format!("MAIL FROM:<{}>\r\n", A[f]).as_bytes());
    if s.txn.is_none() { return Ok(()) }
    for _ in 0..choose(5) {
        s.line(format!("RCPT TO:<{}>\r\n", A[choose(3)]).as_bytes());
    }
    for _ in 0..2 { one(&mut s, CMDS[2], || BODIES[0].to_vec()) }
    s.policy = Policy::Accept;
    s.all(format!("MAIL FROM:<{}>\r\nRCPT TO:<{}>\r\n", A[f], A[f % 3]).as_bytes());
    one(&mut s, CMDS[2], || BODIES[0].to_vec());
    s.seen();
    nontrivial();
    run(&s, &[s.input.clone()], Mem::Own, Opts::default())
}
const EQUALS: &str = "4 senders (null sender too), 0..=4 recipients out of 3, equal to each other and the sender or but for the case, DATA twice, every decision; then a plain transaction of the same addresses";
fn words_spaces(pairs: bool) -> Vec<Space> {
    let one = space("words", format!("in 4 states, one of {} lines of real clients, in lower case or not, and after DATA {} contents, 2 configurations, then a probe of the state", words::LINES.len(), words::BODIES.len()), || words_session(1, &[Kind::Own, Kind::Default]));
    let two = space("word-pairs", format!("in 4 states, two of {} lines of real clients, in lower case or not, and after DATA 6 contents, 2 configurations, then a probe of the state", words::LINES.len()), || words_session(2, &[Kind::Own, Kind::Default]));
    if pairs { vec![one, two] } else { vec![one] }
}
const RULE: &str = "The reference model of a session makes the input, draws every decision of the configuration and computes what is due when: the replies, hook calls (with what they must see) and deliveries. The real session is run on that input; every reply line, hook call, delivery, read and flush is checked against the model when it happens, and the end as well. Non-trivial: at least one command line or not-ready answer or failure.";

pub fn s01(t: Tier) -> Check {
    let d = t.pick(5, 6);
    let l = t.pick(200, 1000);
    Check {
        level: Level::Model,
        rule: RULE,
        spaces: [vec![
            space("parameters", parameter_pairs_about(), || parameters(2)),
            space("long-addresses", LONG_ADDRESSES, long_addresses),
            space("slow-cycle", SLOW_CYCLE, slow_cycle),
            space("junk", JUNKS, junk),
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("large-replies", "each of the 11 replies and of the 4 refusals with a text of 20 lengths from 505 to 300000 bytes, in one packet or line by line", large_replies(Opts::default())),
            space("by-code", BY_CODE, by_code),
            space("sequences", format!("every sequence of 0..={d} commands out of 12 with every accept/reject decision, configuration with its own replies; all in one packet"), seq(d, &[Kind::Own], Policy::Either, 12, 1)),
            space("library-replies", format!("every sequence of 0..={d} commands out of 9, every decision, configurations that keep the library's replies; in one packet or line by line"), seq(d, &KINDS[1..], Policy::Either, 9, 2)),
            space("all-verbs", "every sequence of 0..=3 (thorough: 4) commands out of 18, every decision, all configurations, in one packet, line by line, byte by byte", seq(t.pick(3, 4), &KINDS, Policy::Either, 18, 3)),
            space("long", format!("every cycle of 1..=3 out of 6 commands, repeated to {l} commands, 4 patterns of refusals, all configurations"), long(l, 3, 6)),
            space("very-long", format!("every cycle of 1..=2 out of 6 commands, and the 3 of a delivery, repeated to {} commands, 2 patterns of refusals, 2 configurations, in one packet", t.pick(10_001, 70_000)), very_long(t.pick(10_001, 70_000))),
            space("huge", "70001 deliveries, or one out of 5 commands 140000 times, 2 patterns of refusals", huge),
            space("refused-again-and-again", REPEATED, repeated),
            space("transactions", format!("every sequence of up to {} commands out of MAIL, RCPT, DATA with every decision", d + 3), seq(d + 3, &[Kind::Own], Policy::Either, 3, 1)),
            space("lines", "every string over {CR, LF, NOOP, x} of up to 6 (thorough: 9) pieces as input: one reply per CRLF-terminated line", move || {
                let b = tokens(&[b"\r", b"\n", b"NOOP", b"x"], 0, t.pick(6, 9));
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&b);
                nontrivial();
                let p = packed(&s, [0, 2][choose(2)]);
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("any-bytes", "each byte value substituted or inserted at any place of 3 conversations (except where the statements leave the grammar open, as in <:a@b>): still one reply per line", || {
                let mut v = conversation([0, 1, 2][choose(3)]).input;
                let i = choose(v.len());
                let b = choose(256) as u8;
                if flip() { v[i] = b } else { v.insert(i, b) }
                if lines(&v).iter().any(|l| model::command(l) == model::Verdict::Free) {
                    return Ok(()); // left open by the statements
                }
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&v);
                nontrivial();
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("reply-texts", "each of the 11 replies of the configuration with a text of 0, 1, 506, 507, 2000 bytes in turn, conversations", || {
                let mut tx = texts(Kind::Own);
                let which = choose(N_REPLIES);
                tx[which].1 = text([0usize, 1, 506, 507, 2000][choose(5)], choose(2));
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                s.all(&conversation(choose(N_CONV)).input);
                nontrivial();
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("changing-replies", format!("every sequence of 0..={} commands out of 12, every decision, a configuration whose own replies (all, or those the library makes several of) are different after each hook", t.pick(4, 5)), move || {
                let mut s = Sess::changing(if flip() { Kind::Half } else { Kind::Own });
                let n = choose(t.pick(5, 6));
                for _ in 0..n { one(&mut s, CMDS[choose(12)], || BODIES[0].to_vec()) }
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("long-lines", "unknown and known commands with arguments of up to 100000 bytes, cut in packets of 1..=4096 bytes", move || {
                let n = [0usize, 1, 100, 500, 511, 512, 513, 1000, 4096, 65536, 100_000][choose(11)];
                let head: &[u8] = [&b"NOOP "[..], b"JUNK", b"MAIL FROM:<", b"\n\n"][choose(4)];
                let line = [head, &vec![b'z'; n], b"\r\n"].concat();
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.line(b"MAIL FROM:<a@b.c>\r\n");
                s.line(&line);
                s.line(b"RCPT TO:<a@b.c>\r\n");
                nontrivial();
                let k = [64usize, 512, 4096][choose(3)];
                let p: Vec<B> = s.input.chunks(k).map(|x| x.to_vec()).collect();
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
        ], words_spaces(true)].into_iter().flatten().collect(),
        assumptions: vec!["configurations as the interface demands: reply codes below 1000, texts of tab and printable ASCII, handlers that consume the body and call complete()"],
    }
}

fn tx(s: &mut Sess, max_rcpt: usize, bodies: usize) {
    // one transaction attempt: anything from nothing to a complete mail
    s.line([&b"MAIL FROM:<a@b.c>\r\n"[..], b"MAIL FROM:<>\r\n"][choose(2)]);
    let n = choose(max_rcpt + 1);
    for i in 0..n {
        s.line(format!("RCPT TO:<u{i}@y.z>\r\n").as_bytes());
    }
    one(s, b"DATA\r\n", || BODIES[choose(bodies)].to_vec());
}
pub fn s02(t: Tier) -> Check {
    let bl = t.pick(8, 10);
    let many = t.pick(270, 2100);
    let r = t.pick(3, 4);
    Check {
        level: Level::Model,
        rule: RULE,
        spaces: [vec![
            space("parameters", parameters_about(), || parameters(1)),
            space("tens-of-megabytes", TENS, tens_of_megabytes),
            space("long-addresses", LONG_ADDRESSES, long_addresses),
            space("slow-cycle", SLOW_CYCLE, slow_cycle),
            space("junk", JUNKS, junk),
            space("equal-addresses", EQUALS, equal_addresses),
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("transaction", format!("one transaction: 2 senders, 0..={} recipients, 4 bodies, every decision incl. every rewrite", r + 1), move || {
                let mut s = Sess::new(Kind::Own, Policy::Rewrites);
                tx(&mut s, r + 1, 4);
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("two-transactions", "two transactions with 0..=2 recipients each, every accept/reject decision, then a third, plain one", move || {
                let mut s = Sess::new(Kind::Own, Policy::Either);
                tx(&mut s, 2, 2);
                tx(&mut s, 2, 2);
                s.policy = Policy::Accept;
                tx(&mut s, 1, 1);
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("rewrites-carry-over", "two transactions with one recipient each and every rewrite decision in both", || {
                let mut s = Sess::new(Kind::Own, Policy::Rewrites);
                for i in 0..2 {
                    s.line(b"MAIL FROM:<a@b.c>\r\n");
                    s.line(format!("RCPT TO:<u{i}@y.z>\r\n").as_bytes());
                    one(&mut s, b"DATA\r\n", || BODIES[0].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("all-rewrites", "a transaction with 1..=2 recipients, equal or not; each filter refuses, or rewrites the address in hand (to an earlier recipient, the sender, three odd spellings), the sender (null, other) and the list of recipients (reversed, doubled, shifted and extended, emptied) in every combination; then a plain transaction", || {
                let mut s = Sess::new(Kind::Own, Policy::Wild);
                s.line(b"MAIL FROM:<a@b.c>\r\n");
                let (n, same) = [(1, false), (2, true), (2, false)][choose(3)];
                for i in 0..n {
                    s.line(format!("RCPT TO:<u{}@y.z>\r\n", if same { 0 } else { i }).as_bytes());
                }
                one(&mut s, b"DATA\r\n", || BODIES[0].to_vec());
                s.policy = Policy::Accept;
                s.line(b"MAIL FROM:<>\r\n");
                s.line(b"RCPT TO:<later@y.z>\r\n");
                one(&mut s, b"DATA\r\n", || BODIES[1].to_vec());
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("three-deliveries", "three transactions in a row, every filter decision, with a refused DATA retried", move || {
                let mut s = Sess::new([Kind::Own, Kind::Default][choose(2)], Policy::Filters);
                for i in 0..3 {
                    s.line(format!("MAIL FROM:<s{i}@b.c>\r\n").as_bytes());
                    s.line(format!("RCPT TO:<r{i}@b.c>\r\n").as_bytes());
                    one(&mut s, b"DATA\r\n", || BODIES[i].to_vec());
                    one(&mut s, b"DATA\r\n", || BODIES[i + 1].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("bodies", format!("every body over {{., CR, LF, a}} of length 0..={bl} in transfer encoding, whole or byte by byte, and a second mail after it"), move || {
                let b = string(b".\r\na", 0, bl);
                let mut s = Sess::new(Kind::Default, Policy::Accept);
                for m in [&b[..], b"second\r\n"] {
                    s.line(b"MAIL FROM:<a@b.c>\r\n");
                    s.line(b"RCPT TO:<x@y.z>\r\n");
                    let e = model::encode(m);
                    one(&mut s, b"DATA\r\n", || e);
                }
                let p = packed(&s, [0, 2][choose(2)]);
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("large-bodies", "bodies of up to 70000 bytes of 4 kinds, in packets of 1..=8192 bytes", || {
                let lens = block_lengths(70_000);
                let n = lens[choose(lens.len())];
                let x: B = [&b"a"[..], b".\r\n", b"\r\n", b"line of text\r\n"][choose(4)].iter().cycle().take(n).cloned().collect();
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.line(b"MAIL FROM:<a@b.c>\r\n");
                s.line(b"RCPT TO:<x@y.z>\r\n");
                one(&mut s, b"DATA\r\n", || model::encode(&x));
                one(&mut s, b"RSET\r\n", || vec![]);
                let k = [17usize, 1024, 8192][choose(3)];
                let p: Vec<B> = s.input.chunks(k).map(|x| x.to_vec()).collect();
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("many-recipients", format!("0..={many}, 499..=514, 998..=1026 recipients, all accepted or each 2nd, 3rd, 7th refused, delivered after one refused DATA or none"), move || {
                let mut ns: Vec<usize> = (0..=many).chain(499..=514).chain(998..=1026).collect();
                ns.sort();
                ns.dedup();
                let n = ns[choose(ns.len())];
                let m = [0, 2, 3, 7][choose(4)];
                let mut s = Sess::new(Kind::Own, if m == 0 { Policy::Accept } else { Policy::Every(m, 1 % m) });
                s.line(b"MAIL FROM:<a@b.c>\r\n");
                if s.txn.is_none() { s.line(b"MAIL FROM:<a@b.c>\r\n") }
                for i in 0..n {
                    s.line(format!("RCPT TO:<u{i}@y.z>\r\n").as_bytes());
                }
                for _ in 0..2 {
                    one(&mut s, b"DATA\r\n", || BODIES[2].to_vec());
                }
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("thousands-of-recipients", "2049, 4097, 10001, 50001, 65537 or 70001 recipients, all accepted or each 1000th refused, the same address again and again or not, delivered twice (each filter is shown how many there are, and the last)", || {
                let n = [2049usize, 4097, 10_001, 50_001, 65_537, 70_001][choose(6)];
                let mut s = Sess::new(Kind::Own, if flip() { Policy::Accept } else { Policy::Every(1000, 7) });
                s.lean = true;
                s.line(b"MAIL FROM:<a@b.c>\r\n");
                let same = flip();
                for i in 0..n {
                    s.line(format!("RCPT TO:<u{}@y.z>\r\n", if same { 0 } else { i }).as_bytes());
                }
                one(&mut s, b"DATA\r\n", || BODIES[2].to_vec());
                one(&mut s, b"DATA\r\n", || BODIES[0].to_vec());
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("very-long", "every cycle of 1..=2 out of 6 commands, and the 3 of a delivery, repeated to 10001 commands, 2 patterns of refusals, 2 configurations, in one packet", very_long(10_001)),
            space("huge", "70001 deliveries, or one out of 5 commands 140000 times, 2 patterns of refusals", huge),
            space("refused-again-and-again", REPEATED, repeated),
            space("addresses", "30 spellings of sender and recipient addresses reach the filters and the handler as they are", || {
                const A: &[&str] = &["a@b", "a.b.c@d-e.f", "\"a b\"@c", "\"a\\\"b\"@c", "\"\"@c", "x@[1.2.3.4]", "x@[IPv6:::1]", "x@[IPv6:1:2:3:4:5:6:7:8]", "@r.s:x@y", "@r.s,@t.u:x@y", "Postmaster", "postmaster@z", "x!#$%&'*+-/=?^_`{|}~@y", "X@Y.Z", "\"@\"@y", "1@2.3"];
                let (f, r) = (A[choose(A.len())], A[choose(A.len())]);
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.line(format!("MAIL FROM:<{f}>\r\n").as_bytes());
                s.line(format!("RCPT TO:<{r}>{}\r\n", ["", " K=V"][choose(2)]).as_bytes());
                one(&mut s, b"DATA\r\n", || BODIES[0].to_vec());
                ensure!(s.exp.len() == 11, "the model does not accept {f} and {r}");
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
        ], vec![space("real-addresses", addresses_about(), || words_addresses(&[Kind::Own]))], words_spaces(false)].into_iter().flatten().collect(),
        assumptions: vec!["a filter that refuses does not also rewrite; a data filter does not leave an empty recipient list"],
    }
}

pub fn s03(t: Tier) -> Check {
    let d = t.pick(5, 6);
    let l = t.pick(200, 1000);
    Check {
        level: Level::Model,
        rule: RULE,
        spaces: [vec![
            space("parameters", parameters_about(), || parameters(1)),
            space("long-addresses", LONG_ADDRESSES, long_addresses),
            space("slow-cycle", SLOW_CYCLE, slow_cycle),
            space("junk", JUNKS, junk),
            space("equal-addresses", EQUALS, equal_addresses),
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("by-code", BY_CODE, by_code),
            space("sequences", format!("every sequence of 0..={d} commands out of 6 with every decision incl. rewrites"), seq(d, &[Kind::Own], Policy::Rewrites, 6, 1)),
            space("few-hooks", format!("every sequence of 0..={} commands out of 6, every decision, configurations without new-mail and data hooks", d + 1), seq(d + 1, &KINDS[1..2], Policy::Either, 6, 1)),
            space("delayed-hooks", format!("every sequence of 0..={d} commands out of 3, every decision, up to 2 delays anywhere"), move || {
                let mut s = Sess::new(Kind::Own, Policy::Either);
                let n = choose(d + 1);
                for _ in 0..n {
                    one(&mut s, CMDS[choose(3)], || BODIES[0].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts::delays())
            }).budget(2),
            space("other-commands", "every sequence of up to 3 (thorough: 4) commands out of 18, every decision: no hook for anything but MAIL, RCPT, DATA", seq(t.pick(3, 4), &KINDS[..1], Policy::Rewrites, 18, 1)),
            space("long", format!("every cycle of 1..=3 out of 6 commands, repeated to {l} commands, 4 patterns of refusals: the connection's own data persists"), long(l, 3, 6)),
            space("very-long", format!("every cycle of 1..=2 out of 6 commands, and the 3 of a delivery, repeated to {} commands, 2 patterns of refusals, 2 configurations, in one packet", t.pick(10_001, 70_000)), very_long(t.pick(10_001, 70_000))),
            space("huge", "70001 deliveries, or one out of 5 commands 140000 times, 2 patterns of refusals: the connection's own data persists", huge),
            space("refused-again-and-again", REPEATED, repeated),
            space("all-rewrites", "a transaction with 1..=2 recipients, equal or not; each filter refuses, or rewrites the address in hand (to an earlier recipient, the sender, three odd spellings), the sender (null, other) and the list of recipients (reversed, doubled, shifted and extended, emptied) in every combination; then a plain transaction", || {
                let mut s = Sess::new(Kind::Own, Policy::Wild);
                s.line(b"MAIL FROM:<a@b.c>\r\n");
                let (n, same) = [(1, false), (2, true), (2, false)][choose(3)];
                for i in 0..n {
                    s.line(format!("RCPT TO:<u{}@y.z>\r\n", if same { 0 } else { i }).as_bytes());
                }
                one(&mut s, b"DATA\r\n", || BODIES[0].to_vec());
                s.policy = Policy::Accept;
                s.line(b"MAIL FROM:<>\r\n");
                s.line(b"RCPT TO:<later@y.z>\r\n");
                one(&mut s, b"DATA\r\n", || BODIES[1].to_vec());
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("rewrite-chains", "a transaction with 0..=4 recipients and DATA twice, every rewrite at every step", || {
                let mut s = Sess::new(Kind::Own, Policy::Rewrites);
                s.line(b"MAIL FROM:<a@b.c>\r\n");
                let n = choose(5);
                for i in 0..n {
                    s.line(format!("RCPT TO:<u{i}@y.z>\r\n").as_bytes());
                }
                one(&mut s, b"DATA\r\n", || BODIES[0].to_vec());
                one(&mut s, b"DATA\r\n", || BODIES[1].to_vec());
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
        ], vec![space("real-addresses", addresses_about(), || words_addresses(&[Kind::Own, Kind::Default]))], words_spaces(false)].into_iter().flatten().collect(),
        assumptions: vec!["a filter that refuses does not also rewrite; a data filter does not leave an empty recipient list"],
    }
}

pub fn s04(t: Tier) -> Check {
    let d = t.pick(9, 12);
    Check {
        level: Level::Model,
        rule: RULE,
        spaces: [vec![
            space("parameters", parameters_about(), || parameters(1)),
            space("tens-of-megabytes", TENS, tens_of_megabytes),
            space("long-addresses", LONG_ADDRESSES, long_addresses),
            space("slow-cycle", SLOW_CYCLE, slow_cycle),
            space("junk", JUNKS, junk),
            space("equal-addresses", EQUALS, equal_addresses),
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("histories", format!("every sequence of 0..={d} of MAIL, RCPT, DATA, an unknown and an unimplemented command, every filter decision, followed by a probe: RCPT, DATA, MAIL, RCPT, DATA"), move || {
                const C: [usize; 3] = [0, 1, 2];
                let mut s = Sess::new(Kind::Own, Policy::Filters);
                let n = choose(d + 1);
                for _ in 0..n {
                    one(&mut s, CMDS[C[choose(3)]], || BODIES[0].to_vec());
                }
                s.policy = Policy::Accept;
                for i in [1, 2, 3, 1, 2] {
                    one(&mut s, CMDS[i], || BODIES[1].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("refused-again-and-again", REPEATED, repeated),
            space("others-between", "every prefix of a transaction (accepted or refused at each step) x none or one (thorough: up to 2) of 5 other commands at each place, then the probe", move || {
                const O: [&[u8]; 6] = [b"", b"RSET\r\n", b"WHAT\r\n", b"NOOP\r\n", b"EHLO a.b\r\n", b"MAIL FROM:<z@z>\r\n"];
                let mut s = Sess::new([Kind::Own, Kind::Half][choose(2)], Policy::Filters);
                let steps = choose(4);
                for i in 0..=steps {
                    for _ in 0..t.pick(1, 2) {
                        let o = O[choose(6)];
                        if !o.is_empty() { one(&mut s, o, || vec![]) }
                    }
                    if i < steps { one(&mut s, CMDS[i], || BODIES[0].to_vec()) }
                }
                s.policy = Policy::Accept;
                for i in [1, 2, 3, 1, 2] {
                    one(&mut s, CMDS[i], || BODIES[1].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("every-command-in-every-state", "no mail / mail without / with one / two recipients / after DATA refused / after a delivery / after a refused delivery x each of 18 commands, twice (thorough: three times), then the probe", move || {
                let mut s = Sess::new(pick(&KINDS), Policy::Accept);
                let st = choose(7);
                let own = s.kind == Kind::Own;
                if st >= 1 { s.line(CMDS[0]) }
                if st >= 2 { s.line(CMDS[1]) }
                if st == 3 { s.line(CMDS[4]) }
                if st == 4 && own { s.fixed.push_back(Dec::no(554, b"not now")); s.line(CMDS[2]) }
                if st == 5 { one(&mut s, CMDS[2], || BODIES[2].to_vec()) }
                if st == 6 {
                    if own { s.fixed.push_back(Dec::yes()) }
                    s.fixed.push_back(Dec::no(552, b"too long"));
                    one(&mut s, CMDS[2], || BODIES[2].to_vec())
                }
                s.policy = Policy::Either;
                for _ in 0..t.pick(2, 3) { one(&mut s, CMDS[choose(18)], || BODIES[0].to_vec()) }
                s.policy = Policy::Accept;
                for i in [1, 2, 3, 1, 2] {
                    one(&mut s, CMDS[i], || BODIES[1].to_vec());
                }
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("repeated", "in 5 states, one of 18 commands 0..=11, and at 30 numbers up to 5000 (RCPT: 258) times, all accepted or each 2nd or 5th decision a refusal, then the probe; 70000 times for 3 of them", || {
                let (pre, far) = [(0, false), (1, false), (2, false), (3, false), (4, false), (2, true)][choose(6)];
                let c = CMDS[if far { [0, 5, 7][choose(3)] } else { choose(18) }];
                let n = if far { 70_000 } else { times(if c.starts_with(b"RCPT") || c.starts_with(b"DATA") || c == b"data\r\n" { 258 } else { 5000 }) };
                let p = if far { 0 } else { choose(3) };
                let mut s = Sess::new(Kind::Own, [Policy::Accept, Policy::Every(2, 1), Policy::Every(5, 3)][p]);
                if pre == 4 { s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes(), Dec::yes(), Dec::no(554, b"no")]) }
                for k in [&[][..], &[0], &[0, 1], &[0, 1, 4], &[0, 1, 4, 2]][pre] { one(&mut s, CMDS[*k], || BODIES[0].to_vec()) }
                for i in 0..n { one(&mut s, c, || BODIES[i % 4].to_vec()) }
                for k in [1, 2, 0, 1, 2] { one(&mut s, CMDS[k], || BODIES[0].to_vec()) }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("refusal-codes", "each filter and the handler refusing with each code 0..=999 and 2 texts, null sender or not, then the probe", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let k = choose(4);
                let d = Dec::no(choose(1000) as u16, [&b"no"[..], b""][choose(2)]);
                s.fixed = (0..4).map(|i| if i == k { d.clone() } else { Dec::yes() }).collect();
                for c in [CMDS[[0, 3][choose(2)]], CMDS[1], CMDS[2]] { one(&mut s, c, || BODIES[0].to_vec()) }
                s.fixed.clear();
                for i in [1, 2, 3, 1, 2] {
                    one(&mut s, CMDS[i], || BODIES[1].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("refused-deliveries", "three deliveries in a row, each accepted or refused by the handler, commands between them that need a transaction", || {
                let mut s = Sess::new(pick(&KINDS), Policy::Accept);
                for _ in 0..3 {
                    s.line(CMDS[0]);
                    s.line(CMDS[1]);
                    if s.kind == Kind::Own { s.fixed.push_back(Dec::yes()) }
                    s.fixed.push_back(if flip() { Dec::yes() } else { Dec::no(552, b"too long") });
                    one(&mut s, CMDS[2], || BODIES[choose(4)].to_vec());
                    one(&mut s, CMDS[1 + choose(2)], || vec![]);
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
        ], words_spaces(true)].into_iter().flatten().collect(),
        assumptions: vec!["a filter that refuses does not also rewrite; a data filter does not leave an empty recipient list"],
    }
}

/// Whole conversations for the checks on packets, delays, failures.
pub fn conversation(i: usize) -> Sess {
    let mut s = Sess::new(Kind::Own, Policy::Accept);
    match i {
        0 => s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\nhi\r\n.\r\nQUIT\r\n"),
        1 => {
            s.fixed = VecDeque::from(vec![Dec::no(551, b"no sender"), Dec::yes(), Dec::no(552, b"no rcpt"), Dec::yes(), Dec::no(553, b"no data"), Dec::yes(), Dec::no(554, b"no mail")]);
            s.all(b"MAIL FROM:<>\r\nMAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nRCPT TO:<z@y>\r\nDATA\r\nDATA\r\n..\r\n.\r\nDATA\r\n")
        }
        2 => s.all(b"DATA\r\nRCPT TO:<x>\r\nWHAT\r\n\r\nRSET\r\nMAIL FROM:<a@b>\r\nMAIL FROM:<a@b>\r\nDATA\r\n"),
        3 => s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n.\r\nMAIL FROM:<>\r\nRCPT TO:<q@r>\r\nDATA\r\n.a\r\n\r.\n\r\n..\r\n.\r\n"),
        4 => s.all(b"a\rb\nc\r\r\n\n\r\nNOOP\n\r\n"),
        5 => s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\nhi\r\n."),
        6 => s.all(b"\r\n\r\n"),
        _ => s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n\r\n.\r\n\r\n.\r\n.\r\n"),
    }
    s
}
pub const N_CONV: usize = 8;

pub fn s05(t: Tier) -> Check {
    let b = t.pick(2, 4);
    let sl = t.pick(5, 6);
    Check {
        level: Level::Model,
        rule: RULE,
        spaces: vec![
            space("junk", JUNKS, junk),
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("few-cuts", format!("{N_CONV} conversations x every set of up to {b} cuts (each also with an empty packet), packets in buffers of their own or parts of one"), move || {
                let s = conversation(choose(N_CONV));
                let mem = [Mem::Own, Mem::Shared][choose(2)];
                let p = cut(&s.input, Cuts::Dev);
                nontrivial();
                state(&p.iter().map(|x| x.len()).collect::<Vec<_>>());
                run(&s, &p, mem, Opts::default())
            }).budget(b),
            space("windows", "conversations with every way of cutting a window of 12 bytes (empty packets too at up to 6 of them), at every position; the rest whole or byte by byte", move || {
                let s = conversation(choose(N_CONV));
                let n = s.input.len();
                let at = choose(n);
                let end = (at + t.pick(11, 14)).min(n);
                let (rest, mem) = ([Cuts::Whole, Cuts::Bytes][choose(2)], [Mem::Own, Mem::Shared][choose(2)]);
                let mut p = cut(&s.input[..at], rest);
                p.extend(cut(&s.input[at..end], Cuts::All));
                p.extend(cut(&s.input[end..], rest));
                nontrivial();
                run(&s, &p, mem, Opts::default())
            }),
            space("empties", "windows of 6 bytes, every cut with or without an empty packet", move || {
                let s = conversation(choose(N_CONV));
                let n = s.input.len();
                let at = choose(n);
                let end = (at + t.pick(5, 7)).min(n);
                let mem = [Mem::Own, Mem::Shared][choose(2)];
                let mut p = vec![s.input[..at].to_vec()];
                p.extend(cut(&s.input[at..end], Cuts::Empties));
                p.push(s.input[end..].to_vec());
                nontrivial();
                run(&s, &p, mem, Opts::default())
            }),
            space("uniform", "conversations in packets of every constant size, with 0..=3 empty packets between", || {
                let s = conversation(choose(N_CONV));
                let k = 1 + choose(40);
                let e = choose(4);
                let mut p = vec![];
                for c in s.input.chunks(k) {
                    p.extend(vec![vec![]; e]);
                    p.push(c.to_vec());
                }
                p.extend(vec![vec![]; e]);
                nontrivial();
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
            space("strings", format!("every string over {{CR, LF, RSET, x}} of up to {sl} pieces x every cut"), move || {
                let b = tokens(&[b"\r", b"\n", b"\r\n", b"x", b"RSET"], 0, sl);
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&b);
                nontrivial();
                let p = if b.len() <= sl { cut(&b, Cuts::All) } else { cut(&b, Cuts::Dev) };
                run(&s, &p, Mem::Own, Opts::default())
            }).budget(2),
            space("end-of-data", "DATA followed by every string over {., CR, LF, a} of length up to 5 and an end marker and a command, x every cut of it", move || {
                let x = string(b".\r\na", 0, t.pick(4, 5));
                let mut s = Sess::new(Kind::Default, Policy::Accept);
                let head = b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n";
                let mut tail = x;
                tail.extend_from_slice(b"\r\n.\r\nRSET\r\n");
                s.all(&[&head[..], &tail].concat());
                let whole = flip();
                let k = tail.len() - 6;
                let mut p = if whole { vec![] } else { vec![head.to_vec()] };
                let mut first = cut(&tail[..k], Cuts::All);
                if whole {
                    p.push([&head[..], &first[0]].concat());
                    first.remove(0);
                }
                p.extend(first);
                if flip() { p.push(tail[k..].to_vec()) } else { let l = p.len() - 1; p[l].extend_from_slice(&tail[k..]) }
                nontrivial();
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
            space("lone-line-ends", "a lone LF behind any byte, a lone CR before any byte, two critical bytes around either, in 3 lines and in a body, in one packet or cut at it", || {
                const C: &[u8] = b"\r\n. \tx:<>\0\xff";
                let (a, b) = match choose(4) { 0 => (choose(256) as u8, b'N'), 1 => (b'x', choose(256) as u8), _ => (pick(C), pick(C)) };
                let e = pick(b"\r\n");
                let (head, tail): (&[u8], &[u8]) = [(&b"NOOP "[..], &b"QUIT\r\nRSET\r\n"[..]), (b"", b"OOP\r\n\r\n"), (b"MAIL FROM:<a@b>", b"RCPT TO:<x@y>\r\nDATA\r\n"), (b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n", b".\r\n.\r\nRSET\r\n.\r\n")][choose(4)];
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[head, &[a, e, b], tail].concat());
                nontrivial();
                let at = head.len() + choose(4);
                let p = if flip() { vec![s.input.clone()] } else { vec![s.input[..at].to_vec(), s.input[at..].to_vec()] };
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
            space("long-lines-packets", "lines and bodies of lengths around 506, 1000, 1024, 4096, 8192 in packets of 1, 2, 7, 512, 1000, 1024 bytes, in buffers of their own or parts of one", || {
                let n = [506usize, 998, 999, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 8193][choose(12)];
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let x = vec![b'x'; n];
                if flip() {
                    s.all(&[b"NOOP ", &x[..], b"\r\nRSET\r\n"].concat());
                } else {
                    s.all(&[b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n", &x[..], b"\r\n.\r\nRSET\r\n"].concat());
                }
                nontrivial();
                let k = [1usize, 2, 7, 512, 1000, 1024][choose(6)];
                let p: Vec<B> = s.input.chunks(k).map(|x| x.to_vec()).collect();
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
            space("large-lines-split", "lines of 25 lengths around 4096 .. 65536 of 3 kinds cut at each of their last 4 and at 3 other places, and then again or not, in own or shared buffers", || {
                let lens = large_lengths();
                let n = lens[choose(lens.len())];
                let (head, fill): (&[u8], &[u8]) = [(&b"NOOP "[..], &b"x"[..]), (b"", b"\r"), (b"MAIL FROM:<a@b> K=", b"v")][choose(3)];
                let mut line: B = [head, &fill.repeat(n)[..]].concat();
                line.truncate(n);
                line.extend_from_slice(b"\r\n");
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[&line[..], b"RSET\r\nMAIL FROM:<c@d>\r\n"].concat());
                nontrivial();
                let l = line.len();
                let at = [l, l - 1, l - 2, l - 3, 1, l / 2, l + 1][choose(7)];
                let mut p = vec![s.input[..at].to_vec(), s.input[at..].to_vec()];
                if flip() { let r = p[1].split_off(1); p.push(r) }
                if flip() { p.insert(0, vec![]) }
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
            space("large-packets", "a line of 6 kinds or a body of 7 of 26 sizes from 999 to 1100000 bytes and a conversation behind it, whole, in halves, or in packets of 1460 or 65536 bytes, in own or shared buffers", large_packets),
            space("many-empties", "a conversation with 1..=70001 empty packets in a row before, in or behind a line or body", || {
                let s = conversation([0, 3][choose(2)]);
                let n = [1usize, 10, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1024, 3000, 70_001][choose(15)];
                let at = choose(s.input.len() + 1);
                let mut p = vec![s.input[..at].to_vec()];
                p.extend(vec![vec![]; n]);
                p.push(s.input[at..].to_vec());
                nontrivial();
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("small-buffers", "lines and bodies of 1..=40 bytes of 4 values with another of 3 values at any place, cut at any one place", || {
                let n = 1 + choose(40);
                let mut x = vec![b"1\0\x80\xff"[choose(4)]; n];
                x[choose(n)] = b"1\x80\xff"[choose(3)];
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let head: &[u8] = if flip() { b"VRFY " } else { b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n" };
                s.all(&[head, &x[..], b"\r\n.\r\nNOOP\r\n"].concat());
                nontrivial();
                let at = head.len() + choose(n + 6);
                // small packets from the start of the line or body on
                let p = vec![s.input[..if head.len() > 5 { head.len() } else { 0 }].to_vec(), s.input[if head.len() > 5 { head.len() } else { 0 }..at].to_vec(), s.input[at..].to_vec()];
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("many-packets", "a line and a body of 4096..30000 bytes in packets of one byte, and a conversation of 70000 bytes of short lines likewise", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.lean = true;
                let n = [4096usize, 8193, 20_001, 30_000][choose(4)];
                match choose(3) {
                    0 => s.all(&[b"NOOP ", &vec![b'x'; n][..], b"\r\nRSET\r\n"].concat()),
                    1 => s.all(&[b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n", &b".x\r\n".repeat(n / 4)[..], b"\r\n.\r\nRSET\r\n"].concat()),
                    _ => s.all(&[b"MAIL FROM:<a@b>\r\n", &b"RCPT TO:<x@y>\r\n".repeat(70_000 / 15)[..], b"DATA\r\nx\r\n.\r\n"].concat()),
                }
                nontrivial();
                run(&s, &cut(&s.input, Cuts::Bytes), Mem::Own, Opts::default())
            }),
            space("long-lines-cut", "lines of up to 5000 bytes cut at every power of two and every length near it", || {
                let lens = block_lengths(5000);
                let n = lens[choose(lens.len())];
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[b"NOOP ", &vec![b'x'; n][..], b"\r\nRSET\r\n"].concat());
                let at = lens[choose(lens.len())].min(s.input.len());
                nontrivial();
                let p = vec![s.input[..at].to_vec(), s.input[at..].to_vec()];
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
        ],
        assumptions: vec![],
    }
}

pub fn s06(t: Tier) -> Check {
    let l = t.pick(5, 6);
    const HEAD: &[u8] = b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n";
    const TOK: &[&[u8]] = &[b".", b"\r", b"\n", b"\r\n", b"\r\n.\r\n", b"DATA\r\n", b"RCPT TO:<e@e>\r\n", b"MAIL FROM:<m@m>\r\n", b"QUIT", b"x"];
    let pieces = |s: &Sess, how: usize| match how {
        0 => vec![s.input.clone()],
        1 => cut(&s.input, Cuts::Bytes),
        2 => vec![HEAD.to_vec(), s.input[HEAD.len()..].to_vec()],
        _ => lines(&s.input),
    };
    Check {
        level: Level::Model,
        rule: RULE,
        spaces: [vec![
            space("junk", JUNKS, junk),
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("by-code", BY_CODE, by_code),
            space("smuggling", format!("after an accepted DATA: every sequence of 0..={l} out of 10 tokens (dots, CR, LF, end marker, commands), in one packet, byte by byte, body apart"), move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[HEAD, &tokens(TOK, 0, l)].concat());
                nontrivial();
                s.seen();
                run(&s, &pieces(&s, choose(3)), Mem::Own, Opts::default())
            }),
            space("raw-bytes", format!("after an accepted DATA: every string over {{., CR, LF, x}} of length 0..={}, then an end marker, a mail and another body", l + 2), move || {
                let mut s = Sess::new(Kind::Default, Policy::Accept);
                s.all(&[HEAD, &string(b".\r\nx", 0, l + 2), b"\r\n.\r\n", HEAD, b"y\r\n.\r\nRSET\r\n"].concat());
                nontrivial();
                run(&s, &pieces(&s, choose(2)), Mem::Own, Opts::default())
            }),
            space("refused", format!("after a refused DATA, or DATA without mail or recipient: every sequence of 0..={} out of 10 tokens is commands", l - 1), move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let pre: B = match choose(3) {
                    0 => {
                        s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes(), Dec::no(554, b"no")]);
                        HEAD.to_vec()
                    }
                    1 => b"DATA\r\n".to_vec(),
                    _ => b"MAIL FROM:<a@b>\r\nDATA\r\n".to_vec(),
                };
                s.all(&[&pre[..], &tokens(TOK, 0, l - 1)].concat());
                nontrivial();
                let p = if flip() { vec![s.input.clone()] } else { cut(&s.input, Cuts::Bytes) };
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("refused-by-handler", format!("the handler refuses: every sequence of 0..={} tokens after the body is commands, and one delivery more", l - 2), move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes(), Dec::yes(), Dec::no(552, b"no")]);
                s.all(&[HEAD, b"b\r\n.\r\n", &tokens(TOK, 0, l - 2), b"\r\n", HEAD, b"z\r\n.\r\n"].concat());
                nontrivial();
                run(&s, &pieces(&s, choose(3)), Mem::Own, Opts::default())
            }),
            space("read-on", "handlers that read the body stream again after its end and after complete(): no byte of what follows", move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[HEAD, &tokens(&TOK[..6], 0, 3), b"\r\n.\r\nRSET\r\n.\r\n", HEAD, b".\r\nWHAT\r\n"].concat());
                nontrivial();
                run(&s, &pieces(&s, choose(4)), Mem::Own, Opts { read_on: true, ..Opts::default() })
            }),
            space("large", "bodies of 26 sizes from 999 to 1100000 bytes of 7 kinds x 4 endings, accepted or refused, then commands and another body, in one packet, packets of 1460 or 65536 bytes, or body apart", move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let d = if flip() { Dec::yes() } else { Dec::no(552, b"no") };
                s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes(), Dec::yes(), d]);
                let b = filler(choose(FILLERS), SIZES[choose(26)]);
                s.all(&[HEAD, &b, [&b""[..], b"\r", b".", b"\r\n.x"][choose(4)], b"\r\n.\r\nRSET\r\n", HEAD, b"y\r\n.\r\nRSET\r\n"].concat());
                nontrivial();
                let p = match choose(4) { 0 => vec![s.input.clone()], 1 => sized(&s.input, 1460), 2 => sized(&s.input, 65_536), _ => pieces(&s, 2) };
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("many", "0..=11, and at 30 numbers up to 5000, and 30000 deliveries in a row, of 4 bodies or of one that looks like commands, in one packet or packets of 7 or 1460 bytes", move || {
                let n = match choose(2) { 0 => times(5000), _ => 30_000 };
                let look = flip();
                let mut s = Sess::new(Kind::Own, if flip() { Policy::Accept } else { Policy::Every(7, 4) });
                for i in 0..n {
                    for k in 0..3 { one(&mut s, CMDS[k], || if look { b"RSET\r\nMAIL FROM:<e@e>\r\n.\r\n".to_vec() } else { BODIES[i % 4].to_vec() }) }
                }
                let p = match choose(3) { 0 => vec![s.input.clone()], 1 => sized(&s.input, 7), _ => sized(&s.input, 1460) };
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("boundary-cuts", "a conversation with pipelined bodies and look-alikes, cut anywhere at up to 2 places, delayed once", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                const T: [&[u8]; 4] = [b"\n.\n", b"\r\n.\n", b"\r.\r", b"\n.\r\nQUIT\r\n"];
                s.all(&[HEAD, T[choose(4)], T[choose(4)], b"\r\n.\r\nRSET\r\n", HEAD, b".\r\nRSET\r\n"].concat());
                nontrivial();
                let p = cut(&s.input, Cuts::Dev);
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts { pend_reader: true, ..Opts::default() })
            }).budget(2),
        ], words_spaces(false)].into_iter().flatten().collect(),
        assumptions: vec![],
    }
}

pub fn s07(t: Tier) -> Check {
    let b = t.pick(2, 3);
    Check {
        level: Level::Fault,
        rule: "Fault: the connection ends after any number of bytes. The model of the truncated input says what is due; a panic, a missing return, a re-read, an executed unfinished line or a body announced as complete is a violation. Non-trivial: the input ended somewhere.",
        spaces: vec![
            space("every-byte", format!("{N_CONV} conversations ended after every byte x up to {b} cuts, empty packets or delays"), move || {
                let full = conversation(choose(N_CONV)).input;
                let n = choose(full.len() + 1);
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&full[..n]);
                nontrivial();
                s.seen();
                let p = cut(&s.input, Cuts::Dev);
                run(&s, &p, [Mem::Shared, Mem::Own][choose(t.pick(1, 2))], Opts { pend_reader: true, ..Opts::default() })
            }).budget(b),
            space("every-decision", "every sequence of up to 4 out of 6 commands with every decision, ended after every byte of the last command or body", || {
                let mut s = Sess::new(pick(&[Kind::Own, Kind::Default]), Policy::Either);
                let n = choose(5);
                for _ in 0..n {
                    one(&mut s, CMDS[choose(6)], || BODIES[0].to_vec());
                }
                let last: &[u8] = if n < 4 { CMDS[choose(6)] } else { b"DATA\r\n" };
                let k = choose(last.len());
                s.all(&last[..k]);
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("body-cut-short", "DATA accepted, then every string over {., CR, LF, a, ..} of length 0..=6 and the end, the handler accepting or refusing the error, whole or byte by byte, reading on or not", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let x = string(b".\r\na", 0, 6);
                let fine = flip();
                for c in [&b"MAIL FROM:<a@b>\r\n"[..], b"RCPT TO:<x@y>\r\n", b"DATA\r\n"] { s.line(c) }
                if !fine { s.fixed.push_back(Dec::no(451, b"cut short")) }
                s.all(&x);
                nontrivial();
                let p = packed(&s, [0, 2, 1][choose(3)]);
                run(&s, &p, Mem::Own, Opts { read_on: flip(), ..Opts::default() })
            }),
            space("small-buffers", "lines and bodies of 1..=40 bytes of 4 values with another of 3 values at any place, cut at any one place, ending there or never completed", || {
                let n = 1 + choose(40);
                let mut x = vec![b"1\0\x80\xff"[choose(4)]; n];
                x[choose(n)] = b"1\x80\xff"[choose(3)];
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let head: &[u8] = if flip() { b"" } else { b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n" };
                s.all(&[head, &x[..]].concat());
                nontrivial();
                let at = head.len() + choose(n);
                run(&s, &[s.input[..head.len()].to_vec(), s.input[head.len()..at].to_vec(), s.input[at..].to_vec()], Mem::Own, Opts::default())
            }),
            space("only-line-ends", "inputs of CR, LF and one letter of length up to 7, every cut", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let x = string(b"\r\nq", 0, 7);
                s.all(&x);
                nontrivial();
                let p = cut(&x, Cuts::All);
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("large", "a line of 8 kinds, or a body of 7, of 26 sizes from 999 to 1100000 bytes that is not completed (5 endings) behind 0, 1 or 100 deliveries, the handler accepting or refusing the error, in one packet or packets of 1460 bytes", || {
                const L: [&[u8]; 8] = [b"NOOP ", b"x", b"MAIL FROM:<", b"RCPT TO:<a@", b"DATA ", b"RSET\n", b"QUIT\r", b"MAIL FROM:<a@b> A="];
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                for _ in 0..[0, 1, 100][choose(3)] {
                    for k in 0..3 { one(&mut s, CMDS[k], || BODIES[0].to_vec()) }
                }
                let size = SIZES[choose(26)];
                let k = choose(L.len() + FILLERS);
                let b = if k < L.len() {
                    [L[k], &filler(0, size), [&b""[..], b"\r", b"\n", b"\r\r", b">"][choose(5)]].concat()
                } else {
                    for c in [&b"MAIL FROM:<a@b>\r\n"[..], b"RCPT TO:<x@y>\r\n", b"DATA\r\n"] { s.line(c) }
                    s.fixed.push_back(if flip() { Dec::yes() } else { Dec::no(451, b"cut short") });
                    [&filler(k - L.len(), size)[..], [&b""[..], b"\r", b"\r\n", b"\r\n.", b"\r\n.\r"][choose(5)]].concat()
                };
                s.all(&b);
                nontrivial();
                let p = if flip() { vec![s.input.clone()] } else { sized(&s.input, 1460) };
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("many", "0..=11, and at 30 numbers up to 5000 commands of 6 kinds or deliveries, then a line or body that is not completed", || {
                let k = choose(7);
                let n = times(if k == 1 { 258 } else { 5000 });
                let mut s = Sess::new(Kind::Own, if flip() { Policy::Accept } else { Policy::Every(5, 3) });
                if k == 1 { one(&mut s, CMDS[0], || vec![]) }
                for _ in 0..n {
                    for c in if k == 6 { 0..3 } else { k..k + 1 } { one(&mut s, CMDS[c], || BODIES[0].to_vec()) }
                }
                s.all([&b"RSET"[..], b"MAIL FROM:<a@b>\r", b"\r\nDATA", b"MAIL FROM:<q@q>\r\nRCPT TO:<q@q>\r\nDATA\r\nx\r\n."][choose(4)]);
                nontrivial();
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("any-bytes", "every pair of byte values, and every byte value at 3 places of a conversation, then the end", move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let x: B = if flip() {
                    vec![choose(256) as u8, choose(256) as u8]
                } else {
                    let mut v = conversation(0).input;
                    let i = choose(v.len());
                    v[i] = choose(256) as u8;
                    v.truncate(i + 1 + 2 * choose(3));
                    v
                };
                s.all(&x);
                nontrivial();
                run(&s, &[x.clone()], Mem::Own, Opts::default())
            }),
            space("after-packets", "the connection ends after 0..=3 empty packets, after whole lines or in the middle of one, delays before the end", || {
                let mut s = Sess::new(pick(&KINDS), Policy::Accept);
                let x = [&b""[..], b"N", b"NOOP\r", b"NOOP\r\n", b"MAIL FROM:<>\r\nR", b"MAIL FROM:<>\r\nRCPT TO:<a>\r\nDATA\r\n", b"MAIL FROM:<>\r\nRCPT TO:<a>\r\nDATA\r\n.\r"][choose(7)];
                s.all(x);
                nontrivial();
                let mut p = cut(x, [Cuts::Whole, Cuts::Bytes][choose(2)]);
                p.extend(vec![vec![]; choose(4)]);
                run(&s, &p, Mem::Own, Opts { pend_reader: true, pend_hooks: true, ..Opts::default() })
            }).budget(3),
        ],
        assumptions: vec!["handlers consume the body stream and call complete()"],
    }
}

pub fn s08(t: Tier) -> Check {
    let b = t.pick(3, 4);
    Check {
        level: Level::Fault,
        rule: "Every operation of the outgoing sink (asking for room, writing, flushing) is a fault point: it may fail. From then on any read of the connection, hook call or write, and any result other than an error, is a violation. Non-trivial: something failed or was delayed.",
        spaces: vec![
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("large-replies", "each of the 11 replies and of the 4 refusals with a text of 17 lengths from 505 to 10120 bytes, in one packet or line by line, and a failure at any one operation", large_replies(Opts { fail: true, ..Opts::default() })).budget(1),
            space("conversations", format!("{N_CONV} conversations, whole, line by line or byte by byte; up to {b} failures and delays at any of the sink's operations (nothing follows the first failure)"), move || {
                let s = conversation(choose(N_CONV));
                let p = packed(&s, choose(3));
                run(&s, &p, Mem::Own, Opts { pend_sink: true, fail: true, ..Opts::default() })
            }).budget(b),
            space("every-decision", "every sequence of up to 5 (thorough: 6) out of 6 commands, every decision, one failure anywhere", move || {
                let mut s = Sess::new(Kind::Own, Policy::Either);
                let n = choose(t.pick(6, 7));
                for _ in 0..n {
                    one(&mut s, CMDS[choose(6)], || BODIES[0].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts { fail: true, ..Opts::default() })
            }).budget(1),
            space("long-replies", "each reply in turn of 0..=4 lines; one failure at any line, with up to one delay", || {
                let mut tx = texts(Kind::Own);
                let which = choose(N_REPLIES);
                tx[which].1 = vec![b'x'; [0usize, 506, 507, 1012, 1013, 1600][choose(6)]];
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                let i = conversation(choose(4)).input;
                s.all(&i);
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts { fail: true, ..Opts::default() })
            }).budget(1),
            space("long-refusals", "each decision in turn refused with a text of 0..=4 lines, one failure at any line", || {
                let text = vec![b'x'; [0usize, 506, 507, 1013, 1600][choose(5)]];
                let k = choose(4);
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.fixed = (0..4).map(|i| if i == k { Dec::no(554, &text) } else { Dec::yes() }).collect();
                s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\nhi\r\n.\r\nQUIT\r\n");
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts { fail: true, ..Opts::default() })
            }).budget(1),
            space("codes", "each of the 11 replies with each of 40 codes and 3 texts, one failure anywhere", || {
                const C: [u16; 40] = [0, 1, 99, 100, 199, 200, 211, 214, 220, 221, 235, 250, 251, 252, 299, 300, 334, 354, 399, 400, 421, 450, 451, 452, 454, 455, 499, 500, 501, 502, 503, 504, 530, 550, 551, 552, 553, 554, 555, 999];
                let mut tx = texts(Kind::Own);
                tx[choose(N_REPLIES)] = (C[choose(40)], text([0usize, 3, 600][choose(3)], 1));
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                s.all(b"WHAT\r\nRSET\r\nRCPT TO:<x>\r\nDATA\r\nMAIL FROM:<>\r\nMAIL FROM:<>\r\nDATA\r\nRCPT TO:<x>\r\nDATA\r\n.\r\n");
                nontrivial();
                run(&s, &[s.input.clone()], Mem::Own, Opts { fail: true, ..Opts::default() })
            }).budget(1),
            space("long-sessions", "sessions of 100 commands, one failure anywhere", || {
                let mut s = Sess::new(pick(&KINDS), Policy::Every(3, 2));
                for i in 0..100 {
                    one(&mut s, CMDS[i % 5], || BODIES[i % 4].to_vec());
                }
                run(&s, &[s.input.clone()], Mem::Own, Opts { fail: true, ..Opts::default() })
            }).budget(1),
            space("late", "sessions of up to 70000 commands of 6 kinds or deliveries, a failure of the sink at each of 20 operations around 11 numbers from 255 to 196608", || {
                const AT: [usize; 11] = [275, 532, 1020, 2070, 3080, 4116, 8210, 32_780, 65_556, 131_092, 196_628];
                let (k, at) = (choose(7), AT[choose(11)]);
                let n = if k == 1 { (at / 2).min(300) } else { at / 2 };
                let mut s = Sess::new(Kind::Own, if flip() { Policy::Accept } else { Policy::Every(5, 3) });
                if k == 1 { one(&mut s, CMDS[0], || vec![]) }
                let c = if k == 6 { 0..3 } else { k..k + 1 };
                for i in 0..n { one(&mut s, CMDS[c.start + i % c.len()], || BODIES[0].to_vec()) }
                run(&s, &[s.input.clone()], Mem::Own, Opts { fail_at: Some(at - choose(20)), ..Opts::default() })
            }),
        ],
        assumptions: vec!["the sink keeps reporting an error after its first one"],
    }
}

pub fn s09(t: Tier) -> Check {
    let b = t.pick(2, 3);
    let d = t.pick(5, 6);
    Check {
        level: Level::Model,
        rule: "Whenever the connection is asked for input, everything the model holds due for the bytes handed out so far must have been done: replies written and flushed, hooks called and finished, the handler's body ended. A client that waits for each reply is one of the inputs (line by line). Non-trivial: at least one command line.",
        spaces: vec![
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("large-replies", "each of the 11 replies and of the 4 refusals with a text of 20 lengths from 505 to 300000 bytes, in one packet or line by line", large_replies(Opts::default())),
            space("sequences", format!("every sequence of 0..={d} out of 9 commands, every decision; whole, line by line, byte by byte"), seq(d, &[Kind::Own], Policy::Either, 9, 3)),
            space("cuts", format!("{N_CONV} conversations x every set of up to {b} cuts, empty packets and sink delays"), move || {
                let s = conversation(choose(N_CONV));
                let p = cut(&s.input, Cuts::Dev);
                nontrivial();
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts { pend_sink: true, ..Opts::default() })
            }).budget(b),
            space("held-back", "a client that holds back: conversations where each packet ends at a place that requires an answer, or 1..=3 bytes later", || {
                let s = conversation(choose(N_CONV));
                let k = choose(4);
                let mut p: Vec<B> = vec![];
                let mut rest = &s.input[..];
                while let Some(i) = model::find_crlf(rest) {
                    let n = (i + 2 + k).min(rest.len());
                    p.push(rest[..n].to_vec());
                    rest = &rest[n..];
                }
                p.push(rest.to_vec());
                nontrivial();
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts::default())
            }),
            space("long-replies", "replies of several lines, delays in the sink at up to 2 places", || {
                let mut tx = texts(Kind::Own);
                let which = choose(N_REPLIES);
                tx[which].1 = vec![b'x'; [0usize, 506, 507, 1600][choose(4)]];
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                let i = conversation(choose(4)).input;
                s.all(&i);
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts { pend_sink: true, ..Opts::default() })
            }).budget(2),
            space("codes", "each of the 11 replies and each of the 4 refusals with every code 0..=999 and 3 texts (empty, short, three lines), commands line by line", || {
                let which = choose(N_REPLIES + 4);
                let (code, x) = (choose(1000) as u16, text([0usize, 3, 1100][choose(3)], 1));
                let mut tx = texts(Kind::Own);
                if which < N_REPLIES { tx[which] = (code, x.clone()) }
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                if which >= N_REPLIES {
                    let d = Dec::no(code, &x);
                    s.fixed = (0..4).map(|i| if i == which - N_REPLIES { d.clone() } else { Dec::yes() }).collect();
                    s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n.\r\nRSET\r\n");
                } else {
                    s.all(b"WHAT\r\nRSET\r\nRCPT TO:<x>\r\nDATA\r\nMAIL FROM:<>\r\nMAIL FROM:<>\r\nDATA\r\nRCPT TO:<x>\r\nDATA\r\n.\r\n");
                }
                nontrivial();
                run(&s, &lines(&s.input), Mem::Own, Opts::default())
            }),
            space("long", "line by line: every cycle of 1..=2 out of 6 commands, and deliveries, of 0..=11, and at 30 numbers up to 5000 commands, and 70000 of one of 5", || {
                let far = flip();
                let c: Vec<usize> = if far { vec![[0, 2, 3, 5, 6][choose(5)]] } else if flip() { vec![0, 1, 2] } else { (0..1 + choose(2)).map(|_| choose(6)).collect() };
                let n = if far { 70_000 } else { times(5000) };
                let mut s = Sess::new(Kind::Own, if flip() { Policy::Accept } else { Policy::Every(5, 3) });
                for i in 0..n { one(&mut s, CMDS[c[i % c.len()]], || BODIES[i % 4].to_vec()) }
                run(&s, &lines(&s.input), Mem::Own, Opts::default())
            }),
            space("large", "lines of 6 kinds and bodies of 7 of 26 sizes from 999 to 1100000 bytes, with the reply due before anything else is read, packets of 1460 or 65536 bytes and 4 ways of sending the end", || {
                let size = SIZES[choose(26)];
                let k = choose(6 + FILLERS);
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let p = if k < 6 {
                    let a = [&b"NOOP "[..], b"x", b"MAIL FROM:<", b"DATA ", b"RSET\n", b"EHLO a"][k];
                    s.line(&[a, &filler(0, size), [&b""[..], b">"][choose(2)], b"\r\n"].concat());
                    sized(&s.input, [1460, 65_536][choose(2)])
                } else {
                    for c in [&b"MAIL FROM:<a@b>\r\n"[..], b"RCPT TO:<x@y>\r\n", b"DATA\r\n"] { s.line(c) }
                    let mut p = lines(&s.input);
                    let h = s.input.len();
                    s.all(&[&filler(k - 6, size)[..], b"\r\n.\r\n"].concat());
                    if s.in_data { s.all(b"\r\n.\r\n") }
                    let x = &s.input[h..];
                    let e = x.len() - [0, 1, 3, 5][choose(4)];
                    p.extend(sized(&x[..e], [1460, 65_536][choose(2)]));
                    if e < x.len() { p.push(x[e..].to_vec()) }
                    p
                };
                nontrivial();
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("bodies", "bodies over {., CR, LF, a} of length 0..=6 and end marker, byte by byte or marker in one packet: the reply does not wait for more input", || {
                let x = string(b".\r\na", 0, 6);
                let mut s = Sess::new(Kind::Default, Policy::Accept);
                for c in [&b"MAIL FROM:<a@b>\r\n"[..], b"RCPT TO:<x@y>\r\n", b"DATA\r\n"] { s.line(c) }
                s.body(&model::encode(&x));
                s.line(b"RSET\r\n");
                let p = packed(&s, choose(3));
                run(&s, &p, Mem::Own, Opts::default())
            }),
        ],
        assumptions: vec![],
    }
}

pub fn s10(t: Tier) -> Check {
    let b = t.pick(4, 5);
    Check {
        level: Level::Model,
        rule: "Every operation of the connection, the sink and the hooks may answer not-ready (and wake at once). After a suspension something must have answered not-ready, and everything must still happen exactly as the model says. Non-trivial: at least one not-ready answer.",
        spaces: vec![
            space("pauses", format!("{N_CONV} conversations, whole or line by line; up to {} pauses of 1 ms to 25 h (7 durations) and delays anywhere", t.pick(1, 2)), || {
                let s = conversation(choose(N_CONV));
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts { pauses: true, ..Opts::delays() })
            }).budget(t.pick(1, 2)),
            space("slow-cycle", SLOW_CYCLE, slow_cycle),
            space("slow-clock", SLOW_CLOCK, slow_clock),
            space("large-replies", "each of the 11 replies and of the 4 refusals with a text of 17 lengths from 505 to 10120 bytes, in one packet or line by line, and one delay anywhere", large_replies(Opts { pend_sink: true, fail: false, ..Opts::default() })).budget(1),
            space("conversations", format!("{N_CONV} conversations, whole or line by line; every set of up to {b} delays"), move || {
                let s = conversation(choose(N_CONV));
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts::delays())
            }).budget(b),
            space("bytes", "conversations byte by byte; every set of up to 2 delays", || {
                let s = conversation(choose(N_CONV));
                run(&s, &cut(&s.input, Cuts::Bytes), Mem::Own, Opts::delays())
            }).budget(2),
            space("everything-delayed", "every operation not ready once: every sequence of up to 4 (thorough: 5) out of 9 commands, every decision, whole, line by line, byte by byte", move || {
                let mut s = Sess::new(pick(&[Kind::Own, Kind::Default]), Policy::Either);
                let n = choose(t.pick(5, 6));
                for _ in 0..n { one(&mut s, CMDS[choose(9)], || BODIES[2].to_vec()) }
                let p = packed(&s, choose(3));
                run(&s, &p, Mem::Own, Opts { yield_all: true, ..Opts::default() })
            }),
            space("repeated", "one operation not ready up to 4 times in a row", || {
                let s = conversation(choose(4));
                let p = packed(&s, choose(2));
                let o = match choose(3) { 0 => Opts { pend_reader: true, ..Opts::default() }, 1 => Opts { pend_hooks: true, ..Opts::default() }, _ => Opts { pend_sink: true, ..Opts::default() } };
                run(&s, &p, Mem::Own, o)
            }).budget(4),
            space("stalls", "each operation of 4 conversations, whole or line by line, not ready 5..=11 times in a row or at 30 numbers up to 5000 or 70000 times", || {
                let s = conversation(choose(4));
                let p = packed(&s, choose(2));
                let n = match choose(38) { 37 => 70_000, k if k < 7 => 5 + k, k => [20, 31, 32, 33, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 130, 254, 255, 256, 257, 258, 500, 512, 513, 999, 1000, 1001, 1024, 1025, 4097, 5000][k - 7] };
                let at = choose(90);
                run(&s, &p, Mem::Own, Opts { stall: Some((at, n)), ..Opts::default() })
            }),
            space("long", "every operation not ready once: cycles of 1..=2 out of 6 commands, and deliveries, of 0..=11, and at 27 numbers up to 1025 commands, in one packet or line by line", || {
                let n = times(1025);
                let c: Vec<usize> = if flip() { vec![0, 1, 2] } else { (0..1 + choose(2)).map(|_| choose(6)).collect() };
                let mut s = Sess::new(Kind::Own, if flip() { Policy::Accept } else { Policy::Every(5, 3) });
                for i in 0..n { one(&mut s, CMDS[c[i % c.len()]], || BODIES[i % 4].to_vec()) }
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts { yield_all: true, ..Opts::default() })
            }),
            space("bodies", "bodies over {., CR, LF, a} of length 0..=4 byte by byte, up to 2 delays of the connection and the hooks", || {
                let x = string(b".\r\na", 0, 4);
                let mut s = Sess::new(Kind::Default, Policy::Accept);
                for c in [&b"MAIL FROM:<a@b>\r\n"[..], b"RCPT TO:<x@y>\r\n", b"DATA\r\n"] { s.line(c) }
                let h = s.input.len();
                s.body(&model::encode(&x));
                s.line(b"RSET\r\n");
                let mut p = vec![s.input[..h].to_vec()];
                p.extend(cut(&s.input[h..], Cuts::Bytes));
                run(&s, &p, Mem::Own, Opts { pend_reader: true, pend_hooks: true, ..Opts::default() })
            }).budget(2),
            space("long-replies", "replies of up to 4 lines, up to 3 delays in the sink", || {
                let mut tx = texts(Kind::Own);
                let which = choose(N_REPLIES);
                tx[which].1 = vec![b'x'; [0usize, 507, 1600][choose(3)]];
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                let i = conversation(choose(3)).input;
                s.all(&i);
                run(&s, &[s.input.clone()], Mem::Own, Opts { pend_sink: true, ..Opts::default() })
            }).budget(3),
        ],
        assumptions: vec!["an operation that answered not-ready wakes the task and can be asked again"],
    }
}

/// A text of the given length and kind.
fn text(n: usize, kind: usize) -> B {
    match kind {
        0 => vec![b'x'; n],
        1 => vec![b' '; n],
        2 => (0..n).map(|i| b" -\tab~!250 "[i % 11]).collect(),
        3 => vec![b'-'; n],
        _ => (0..n).map(|i| (32 + i % 95) as u8).collect(),
    }
}
pub fn s11(t: Tier) -> Check {
    let max = t.pick(3100, 8000);
    Check {
        level: Level::Model,
        rule: "The texts the configuration supplies are varied; the written bytes are read by an independent reader of SMTP replies, which demands lines of at most 512 bytes with one code, hyphens, a last line with a space, and the texts adding up. Non-trivial: a text was sent.",
        spaces: vec![
            space("lengths", format!("banner texts of every length 0..={max} of 5 kinds"), move || {
                let mut tx = texts(Kind::Own);
                tx[R_BANNER].1 = text(choose(max + 1), choose(5));
                let s = Sess::with(Kind::Own, Policy::Accept, tx);
                nontrivial();
                run(&s, &[], Mem::Own, Opts::default())
            }),
            space("each-reply", "each of the 11 replies of the configuration x 34 lengths around 0, 506, 512, 1012, 2*506, 10*506, 100*506, 128*506, 65536, 256*506, and 300000 x 5 kinds", || {
                const L: [usize; 34] = [0, 1, 2, 3, 80, 504, 505, 506, 507, 508, 510, 511, 512, 513, 1011, 1012, 1013, 1014, 1018, 1024, 1025, 5059, 5060, 5061, 50_599, 50_601, 64_767, 64_768, 64_769, 65_535, 65_536, 65_537, 129_537, 300_000];
                let mut tx = texts(Kind::Own);
                let which = choose(N_REPLIES);
                tx[which].1 = text(L[choose(34)], choose(5));
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                s.all(b"WHAT\r\nRSET\r\nRCPT TO:<x>\r\nDATA\r\nMAIL FROM:<>\r\nMAIL FROM:<>\r\nDATA\r\nRCPT TO:<x>\r\nDATA\r\n.\r\n");
                nontrivial();
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("refusals", "each refusal of the configuration x those 34 lengths x 5 kinds x codes", || {
                const L: [usize; 34] = [0, 1, 2, 3, 80, 504, 505, 506, 507, 508, 510, 511, 512, 513, 1011, 1012, 1013, 1014, 1018, 1024, 1025, 5059, 5060, 5061, 50_599, 50_601, 64_767, 64_768, 64_769, 65_535, 65_536, 65_537, 129_537, 300_000];
                let k = choose(4);
                let d = Dec::no([550, 400, 999, 100, 7, 0][choose(6)], &text(L[choose(34)], choose(5)));
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.fixed = (0..4).map(|i| if i == k { d.clone() } else { Dec::yes() }).collect();
                s.all(b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n.\r\nRSET\r\n");
                nontrivial();
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("codes", "every code 0..=999 with texts of 0, 1 and 3 lines", || {
                let mut tx = texts(Kind::Own);
                tx[R_UNREC] = (choose(1000) as u16, text([0, 5, 1100][choose(3)], 2));
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                s.all(b"WHAT\r\n");
                nontrivial();
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("bytes", "every allowed byte at every position of texts of 1..=3 bytes, and around the line break of a long text", || {
                let c = if flip() { 9u8 } else { 32 + choose(95) as u8 };
                let mut x = if flip() { text(1 + choose(3), 0) } else { text(1100, 0) };
                let i = if x.len() > 3 { 500 + choose(16) } else { choose(x.len()) };
                x[i] = c;
                let mut tx = texts(Kind::Own);
                tx[R_BANNER].1 = x;
                let s = Sess::with(Kind::Own, Policy::Accept, tx);
                nontrivial();
                run(&s, &[], Mem::Own, Opts::default())
            }),
            space("words", format!("each of the 11 replies and 4 refusals of the configuration x {} texts of real mail systems, alone, or twice with 0, 1 or 500..=512 bytes between them, 3 codes", words::TEXTS.len()), || {
                let w = words::TEXTS[choose(words::TEXTS.len())];
                let t = match choose(16) {
                    0 => w.to_vec(),
                    1 => [w, w].concat(),
                    2 => [w, &b" "[..], w].concat(),
                    k => [w, &text(497 + k, 0)[..], w].concat(),
                };
                let k = choose(N_REPLIES + 4);
                let mut tx = texts(Kind::Own);
                if k < N_REPLIES { tx[k] = ([tx[k].0, 250, 421][choose(3)], t.clone()) }
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                if k >= N_REPLIES {
                    let d = Dec::no([550, 451, 250][choose(3)], &t);
                    s.fixed = (0..4).map(|i| if i == k - N_REPLIES { d.clone() } else { Dec::yes() }).collect();
                }
                s.all(b"WHAT\r\nRSET\r\nRCPT TO:<x>\r\nDATA\r\nMAIL FROM:<a@b>\r\nMAIL FROM:<>\r\nDATA\r\nRCPT TO:<x@y>\r\nDATA\r\n.\r\n");
                nontrivial();
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("delays", "texts of 0..=5 lines, every set of up to 3 sink delays", || {
                let mut tx = texts(Kind::Own);
                tx[R_BANNER].1 = text([0usize, 1, 506, 507, 1012, 1013, 2000, 2500][choose(8)], 4);
                tx[R_UNREC].1 = text([0usize, 507, 2500][choose(3)], 4);
                let mut s = Sess::with(Kind::Own, Policy::Accept, tx);
                s.all(b"WHAT\r\n");
                run(&s, &[s.input.clone()], Mem::Own, Opts { pend_sink: true, ..Opts::default() })
            }).budget(3),
        ],
        assumptions: vec!["reply texts consist of tab and printable ASCII, codes are below 1000"],
    }
}

/// Several sessions, polled in every order.
fn together(ss: &[Sess], ps: Vec<Vec<B>>, shared: bool, opts: Opts, limit: Option<usize>) -> Res {
    let qs: Vec<VecDeque<bytes::BytesMut>> = if shared {
        // all packets of all sessions are parts of one buffer, alternating
        let mut order = vec![];
        let longest = ps.iter().map(|p| p.len()).max().unwrap();
        for i in 0..longest {
            for (k, p) in ps.iter().enumerate() {
                if i < p.len() { order.push((k, i)) }
            }
        }
        let mut all = bytes::BytesMut::from(order.iter().flat_map(|(k, i)| ps[*k][*i].clone()).collect::<Vec<u8>>());
        let mut qs = vec![VecDeque::new(); ps.len()];
        for (k, i) in order {
            qs[k].push_back(all.split_to(ps[k][i].len()));
        }
        qs
    } else {
        ps.iter().map(|p| packets(p, Mem::Own)).collect()
    };
    let mut runs: Vec<(usize, Run)> = ss.iter().zip(qs).map(|(s, q)| Run::new(s, q, opts)).enumerate().collect();
    let mut switches = limit.unwrap_or(usize::MAX);
    let mut cur = 0;
    let mut order = vec![];
    while !runs.is_empty() {
        if runs.len() > 1 && switches > 0 {
            let k = if limit.is_some() { dev(runs.len()) } else { choose(runs.len()) };
            if k > 0 && limit.is_some() { switches -= 1 }
            cur = if limit.is_some() { (cur + k) % runs.len() } else { k };
        }
        cur %= runs.len();
        let id = runs[cur].0;
        order.push(id as u8);
        note(|| format!("-- session {id}"));
        match runs[cur].1.poll() {
            Err(e) => return Err(format!("session {id} (in the order {}): {e}", order.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(""))),
            Ok(true) => { runs.remove(cur); }
            Ok(false) => (),
        }
        step();
        state(&order);
    }
    Ok(())
}
fn small(i: usize, tag: usize) -> Sess {
    let mut s = Sess::new([Kind::Own, Kind::Default][tag % 2], Policy::Accept);
    match i {
        0 => {
            s.line(format!("MAIL FROM:<s{tag}@b>\r\n").as_bytes());
            s.line(format!("RCPT TO:<r{tag}@y>\r\n").as_bytes());
            s.line(format!("RCPT TO:<t{tag}@y>\r\n").as_bytes());
            s.line(b"DATA\r\n");
            s.body(format!("body {tag}\r\n.\r\n").as_bytes());
        }
        1 => {
            s.line(format!("RCPT TO:<r{tag}@y>\r\n").as_bytes());
            s.line(b"WHAT\r\n");
        }
        2 => {
            s.line(format!("MAIL FROM:<s{tag}@b>\r\n").as_bytes());
            s.all(b"RCP");
        }
        _ => {
            s.line(format!("MAIL FROM:<s{tag}@b>\r\n").as_bytes());
            s.line(format!("RCPT TO:<r{tag}@y>\r\n").as_bytes());
            s.line(format!("RCPT TO:<t{tag}@y>\r\n").as_bytes());
            s.line(b"DATA\r\n");
            s.all(format!("cut {tag}\r\n").as_bytes());
        }
    }
    s
}
pub fn s12(t: Tier) -> Check {
    let sw = t.pick(3, 5);
    Check {
        level: Level::Model,
        rule: "Two or three real sessions, each with a model of its own, progress in every order of polls (each poll runs to the next not-ready answer); each must do exactly what its model says. Non-trivial: always.",
        spaces: vec![
            space("every-order", "two sessions out of 4 x 4 kinds, packets line by line, the connection not ready before each packet: every order of polls", move || {
                let (a, b) = (small(choose(4), 0), small(choose(4), 1));
                let ps = if flip() { vec![lines(&a.input), lines(&b.input)] } else { vec![vec![a.input.clone()], vec![b.input.clone()]] };
                nontrivial();
                together(&[a, b], ps, flip(), Opts { yield_reader: true, ..Opts::default() }, None)
            }),
            space("every-operation", format!("two sessions, every operation of connection, sink and hooks not ready once; every order with up to {sw} switches"), move || {
                let (a, b) = (small(choose(4), 0), small(choose(4), 1));
                let ps = vec![lines(&a.input), lines(&b.input)];
                nontrivial();
                together(&[a, b], ps, flip(), Opts { yield_all: true, ..Opts::default() }, Some(sw))
            }).budget(sw as u32),
            space("three-sessions", format!("three sessions, every operation not ready once; every order with up to {} switches", sw - 1), move || {
                let (a, b, c) = (small(choose(4), 0), small(choose(4), 1), small(choose(4), 2));
                let ps = vec![lines(&a.input), lines(&b.input), lines(&c.input)];
                nontrivial();
                together(&[a, b, c], ps, flip(), Opts { yield_all: true, ..Opts::default() }, Some(sw - 1))
            }).budget(sw as u32 - 1),
            space("other-configurations", "two sessions with the same commands and 19 x 19 configurations (own replies, changing ones, the library's, with single building blocks, single replies, all; long ones) and decisions (all accepted, or every second or third not): one after the other, or every operation not ready once and every order with up to 1 switch", || {
                fn full() -> Sess {
                    let k = choose(19);
                    let mut s = match k {
                        0 => Sess::changing(Kind::Own),
                        1..=3 => Sess::new(KINDS[k - 1], Policy::Accept),
                        4..=10 => Sess::new(Kind::Roots(1 << (k - 4)), Policy::Accept),
                        11 => Sess::new(Kind::Roots(127), Policy::Accept),
                        12 => Sess::new(Kind::Lens(700, 3, 600), Policy::Accept),
                        13 => Sess::new(Kind::Lens(3, 700, 40), Policy::Accept),
                        _ => Sess::new(Kind::Leaf([R_BANNER, R_MAIL_OK, R_DATA_OK, R_ACCEPTED, R_UNREC][k - 14]), Policy::Accept),
                    };
                    s.policy = [Policy::Accept, Policy::Every(2, 0), Policy::Every(3, 1)][choose(3)];
                    for i in [5, 6, 1, 2, 3, 0, 2, 1, 0, 1] { one(&mut s, CMDS[i], || vec![]) }
                    for _ in 0..2 { one(&mut s, CMDS[2], || BODIES[0].to_vec()) }
                    s
                }
                let (a, b) = (full(), full());
                nontrivial();
                if flip() {
                    run(&a, &[a.input.clone()], Mem::Own, Opts::default())?;
                    run(&b, &[b.input.clone()], Mem::Own, Opts::default())
                } else {
                    let ps = vec![lines(&a.input), lines(&b.input)];
                    together(&[a, b], ps, false, Opts { yield_all: true, ..Opts::default() }, Some(1))
                }
            }).budget(1),
            space("one-after-the-other", "a session that ends anywhere (mid-line, mid-transaction, mid-body, sink failing), then another one", || {
                let full = conversation(choose(N_CONV)).input;
                let n = choose(full.len() + 1);
                let mut a = Sess::new(Kind::Own, Policy::Accept);
                a.all(&full[..n]);
                nontrivial();
                run(&a, &[a.input.clone()], Mem::Own, Opts { fail: true, ..Opts::default() })?;
                let b = small(choose(4), 1);
                run(&b, &[b.input.clone()], Mem::Own, Opts::default())
            }).budget(1),
            space("bytewise", "two sessions byte by byte from one shared buffer, alternating, with up to 2 changes of the order", || {
                let (a, b) = (small([0, 3][choose(2)], 0), small([0, 3][choose(2)], 1));
                let ps = vec![cut(&a.input, Cuts::Bytes), cut(&b.input, Cuts::Bytes)];
                nontrivial();
                together(&[a, b], ps, true, Opts { yield_all: true, ..Opts::default() }, Some(2))
            }).budget(2),
            space("many", "4..=11, and at 26 numbers up to 1001 sessions of 4 kinds, in turn after each not-ready answer, in either order, every operation or only the connection not ready once", || {
                let n = times(1001).max(4);
                let all = flip();
                let back = flip();
                let ss: Vec<Sess> = (0..n).map(|i| small(i / 2 % 4, i)).collect();
                let o = Opts { yield_all: all, yield_reader: !all, ..Opts::default() };
                let mut runs: Vec<(usize, Run)> = ss.iter().map(|s| Run::new(s, packets(&lines(&s.input), Mem::Own), o)).enumerate().collect();
                if back { runs.reverse() }
                nontrivial();
                while !runs.is_empty() {
                    let mut rest = vec![];
                    for (id, mut r) in runs {
                        if !r.poll().map_err(|e| format!("session {id} of {n}: {e}"))? { rest.push((id, r)) }
                    }
                    step();
                    runs = rest;
                }
                Ok(())
            }),
            space("many-before", "0..=11, and at 26 numbers up to 1001 sessions one after the other, each ended in one of 4 ways, then one of 4 others", || {
                let n = times(1001);
                let how = choose(4);
                for i in 0..n {
                    let mut a = Sess::new(Kind::Own, Policy::Accept);
                    a.all([&b"RCP"[..], b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\n", b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\nabc", b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\nx\r\n.\r\n"][how]);
                    run(&a, &[a.input.clone()], Mem::Own, Opts::default()).map_err(|e| format!("session {i} of {n}: {e}"))?;
                }
                nontrivial();
                let b = small(choose(4), 1);
                run(&b, &[b.input.clone()], Mem::Own, Opts::default())
            }),
        ],
        assumptions: vec!["sessions share nothing but the library and, possibly, memory their packets lie in"],
    }
}

pub fn s13(t: Tier) -> Check {
    let d = t.pick(3, 4);
    Check {
        level: Level::Model,
        rule: RULE,
        spaces: vec![
            space("blocks", format!("each of the 128 sets of provided building blocks ({}), every sequence of 0..={d} of MAIL, RCPT, DATA, an unknown and an unimplemented command with every decision", ROOT_NAMES.join(", ")), move || {
                const C: [usize; 5] = [0, 1, 2, 5, 6];
                let mut s = Sess::new(Kind::Roots(choose(1 << N_ROOTS) as u8), Policy::Either);
                let n = choose(d + 1);
                for _ in 0..n { one(&mut s, CMDS[C[choose(5)]], || BODIES[0].to_vec()) }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("every-event", "each of the 128 sets of building blocks and each of the 11 single replies, a conversation in which every reply occurs, every handler decision", || {
                let k = choose((1 << N_ROOTS) + N_REPLIES);
                let kind = if k < N_REPLIES { Kind::Leaf(k) } else { Kind::Roots((k - N_REPLIES) as u8) };
                let mut s = Sess::new(kind, Policy::Accept);
                for i in [5, 6, 1, 2, 3, 0, 2, 1] { one(&mut s, CMDS[i], || vec![]) }
                s.fixed.push_back(if flip() { Dec::yes() } else { Dec::no(552, b"no") });
                one(&mut s, CMDS[2], || BODIES[choose(4)].to_vec());
                one(&mut s, CMDS[2], || vec![]);
                let p = packed(&s, choose(3));
                run(&s, &p, Mem::Own, Opts::default())
            }),
            space("single-replies", format!("each of the 11 single replies provided alone, every sequence of 0..={} of MAIL, RCPT, DATA, an unknown and an unimplemented command, every decision", d + 1), move || {
                const C: [usize; 5] = [0, 1, 2, 5, 6];
                let mut s = Sess::new(Kind::Leaf(choose(N_REPLIES)), Policy::Either);
                let n = choose(d + 2);
                for _ in 0..n { one(&mut s, CMDS[C[choose(5)]], || BODIES[0].to_vec()) }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("changing-replies", format!("okay, bad sequence and banner, or each single reply, provided with a text that is different after each hook, every sequence of 0..={d} of MAIL, RCPT, DATA, an unknown and an unimplemented command, every decision"), move || {
                const C: [usize; 5] = [0, 1, 2, 5, 6];
                let k = choose(N_REPLIES + 1);
                let mut s = Sess::changing(if k < N_REPLIES { Kind::Leaf(k) } else { Kind::Half });
                let n = choose(d + 1);
                for _ in 0..n { one(&mut s, CMDS[C[choose(5)]], || BODIES[0].to_vec()) }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("all-verbs", "nothing provided but the host name: every sequence of 0..=3 (thorough: 4) commands out of 18, every decision", seq(t.pick(3, 4), &KINDS[1..2], Policy::Either, 18, 1)),
            space("lengths", format!("all building blocks provided; one of the host name, the banner and the others of every length 0..={}, or two of them of every pair of lengths out of 12; a conversation in which every reply occurs", t.pick(1600, 6000)), move || {
                const L: [u16; 12] = [0, 1, 2, 63, 64, 255, 256, 500, 505, 506, 507, 1013];
                let mut l = [11u16, 17, 5];
                match choose(4) {
                    3 => { let k = choose(3); l[k] = L[choose(12)]; l[(k + 1) % 3] = L[choose(12)]; }
                    k => l[k] = choose(t.pick(1601, 6001)) as u16,
                }
                let mut s = Sess::new(Kind::Lens(l[0], l[1], l[2]), Policy::Accept);
                for i in [5, 6, 1, 2, 3, 0, 2, 1] { one(&mut s, CMDS[i], || vec![]) }
                one(&mut s, CMDS[2], || BODIES[0].to_vec());
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("inputs", "nothing, okay and bad_sequence, or all building blocks provided, or one of 3 single replies: 17 senders (null sender too) x 16 recipients x 0..=12, 20, 50, 100, 101, 128, 256, 300 of them x parameters or none x 3 bodies", || {
                const A: &[&str] = &["a@b", "a.b.c@d-e.f", "\"a b\"@c", "\"a\\\"b\"@c", "\"\"@c", "x@[1.2.3.4]", "x@[IPv6:::1]", "x@[IPv6:1:2:3:4:5:6:7:8]", "@r.s:x@y", "@r.s,@t.u:x@y", "Postmaster", "postmaster@z", "x!#$%&'*+-/=?^_`{|}~@y", "X@Y.Z", "\"@\"@y", "1@2.3"];
                let kind = [Kind::Roots(0), Kind::Roots(12), Kind::Roots(127), Kind::Leaf(R_DATA_OK), Kind::Leaf(R_RCPT_OK), Kind::Leaf(R_ACCEPTED)][choose(6)];
                let f = if flip() { "" } else { A[choose(A.len())] };
                let k = choose(A.len());
                let (n, same, par) = if flip() { (choose(3), flip(), ["", " SIZE=100000 BODY=8BITMIME"][choose(2)]) } else { ([3usize, 4, 5, 6, 7, 8, 9, 10, 11, 12, 20, 50, 100, 101, 128, 256, 300][choose(17)], true, "") };
                let mut s = Sess::new(kind, Policy::Accept);
                s.line(format!("MAIL FROM:<{f}>{par}\r\n").as_bytes());
                for i in 0..n { s.line(format!("RCPT TO:<{}>{par}\r\n", A[if same { k } else { (k + i) % A.len() }]).as_bytes()) }
                one(&mut s, CMDS[2], || BODIES[k % 3].to_vec());
                one(&mut s, CMDS[2], || BODIES[0].to_vec());
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("words", format!("4 sets of building blocks and 2 single replies: in 4 states, one of {} lines of real clients, in lower case or not, and after DATA {} contents, then a probe of the state", words::LINES.len(), words::BODIES.len()), || words_session(1, &[Kind::Roots(0), Kind::Roots(12), Kind::Roots(64), Kind::Roots(127), Kind::Leaf(R_DATA_OK), Kind::Leaf(R_RCPT_OK)])),
            space("real-addresses", format!("nothing or all building blocks provided: {}", addresses_about()), || words_addresses(&[Kind::Roots(0), Kind::Roots(127)])),
            space("long", "nothing, all or two sets of building blocks, or one of 11 single replies provided: every cycle of 1..=2 out of 6 commands, and deliveries, of 0..=11, and at 26 numbers up to 1001 commands, all accepted or not", || {
                let k = choose(4 + N_REPLIES);
                let kind = if k < 4 { Kind::Roots([0u8, 12, 64, 127][k]) } else { Kind::Leaf(k - 4) };
                let n = times(1001);
                let c: Vec<usize> = if flip() { vec![0, 1, 2] } else { (0..1 + choose(2)).map(|_| [0, 2, 3, 5, 6, 1][choose(if n > 300 { 5 } else { 6 })]).collect() };
                let mut s = Sess::new(kind, if flip() { Policy::Accept } else { Policy::Every(5, 3) });
                for i in 0..n { one(&mut s, CMDS[c[i % c.len()]], || BODIES[i % 4].to_vec()) }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
            space("deep", format!("nothing provided, okay and bad_sequence, or all building blocks: every sequence of up to {} of MAIL, RCPT, DATA, every decision", d + 4), move || {
                let mut s = Sess::new(Kind::Roots([0u8, 12, 127][choose(3)]), Policy::Either);
                let n = choose(d + 5);
                for _ in 0..n { one(&mut s, CMDS[choose(3)], || BODIES[0].to_vec()) }
                run(&s, &[s.input.clone()], Mem::Own, Opts::default())
            }),
        ],
        assumptions: vec!["reply texts consist of tab and printable ASCII, codes are below 1000"],
    }
}

pub fn s14(t: Tier) -> Check {
    const HEAD: &[u8] = b"MAIL FROM:<a@b>\r\nRCPT TO:<x@y>\r\nDATA\r\n";
    const TOK: &[&[u8]] = &[b".", b"\r", b"\n", b"\r\n", b"\r\n.\r\n", b"NOOP", b"x"];
    /// Reads so many times, or to the end; completes or not.
    fn rude(message: usize, max: usize) -> Option<Rude> {
        let (reads, complete) = (choose(max + 2), flip());
        Some(Rude { message, reads: if reads > max { usize::MAX } else { reads }, complete })
    }
    const MAILS: [&[u8]; 6] = [
        b"MAIL FROM:<e@e>\r\nRCPT TO:<f@f>\r\nDATA\r\nx\r\n.\r\nNOOP\r\n", b".\r\nNOOP\r\n", b"..\r\n..\r\nRSET\r\n.\r\nNOOP\r\n",
        b"\r\nRCPT TO:<e@e>\r\n\r\n.\r\n.\r\n", b"RCPT TO:<e@e>\r\nNO", b"NOOP\r\n.\r",
    ];
    let d = t.pick(4, 6);
    Check {
        level: Level::Fault,
        rule: "Fault: the configuration's message handler returns without having read its message to the end, or without completing it, or completes it too early. The model of the session says what is due up to then; from then on every reply, hook call or delivery is a violation, and the session has to end (how, is left open). A handler that has in effect got everything, or learned that the connection ended, is within its rights: then all goes on as usual. Non-trivial: the contract was broken.",
        spaces: vec![
            space("messages", format!("{} messages of lines that look like commands, whole, line by line, byte by byte or cut at one place; 0..=8 reads or to the end, completed or not, accepted or refused, three kinds of configuration", MAILS.len()), || {
                let mut s = Sess::new(pick(&KINDS), Policy::Accept);
                s.fixed = VecDeque::from(vec![Dec::yes(), Dec::yes()]);
                if s.kind == Kind::Own { s.fixed.push_back(Dec::yes()) }
                s.fixed.push_back(if flip() { Dec::yes() } else { Dec::no(552, b"no") });
                s.all(&[HEAD, MAILS[choose(MAILS.len())]].concat());
                s.seen();
                let p = match choose(4) { 3 => { let k = 1 + choose(s.input.len() - 1); vec![s.input[..k].to_vec(), s.input[k..].to_vec()] } h => packed(&s, h) };
                run(&s, &p, [Mem::Own, Mem::Shared][choose(2)], Opts { rude: rude(0, 8), ..Opts::default() })
            }),
            space("any-content", format!("every sequence of 0..={d} out of 7 tokens after the go-ahead, one packet, byte by byte, or body apart; 0..=6 reads or to the end, completed or not"), move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[HEAD, &tokens(TOK, 0, d)].concat());
                s.seen();
                let p = match choose(3) { 2 => vec![HEAD.to_vec(), s.input[HEAD.len()..].to_vec()], 1 => cut(&s.input, Cuts::Bytes), _ => vec![s.input.clone()] };
                run(&s, &p, Mem::Own, Opts { rude: rude(0, 6), ..Opts::default() })
            }),
            space("delays", "6 messages, delays of the connection, the sink and the handler, and up to 2 deviations; 0..=4 reads or to the end", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[HEAD, MAILS[choose(MAILS.len())]].concat());
                s.seen();
                let p = packed(&s, 1 + choose(2));
                run(&s, &p, Mem::Own, Opts { rude: rude(0, 4), ..Opts::delays() })
            }).budget(t.pick(2, 3)),
            space("later-message", format!("1..={d} messages in one session, handled properly up to the one that is not"), move || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let n = 1 + choose(d);
                for _ in 0..n { s.all(&[HEAD, [MAILS[1], MAILS[2], b"x\r\n.\r\n"][choose(3)]].concat()); }
                s.seen();
                let p = packed(&s, choose(3));
                run(&s, &p, Mem::Own, Opts { rude: rude(n - 1, 3), ..Opts::default() })
            }),
            space("large", "messages of 26 sizes from 999 to 1100000 bytes of 7 kinds, in one packet or packets of 1460 or 65536 bytes, then commands; 0..=4 reads or to the end, completed or not", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                s.all(&[HEAD, &filler(choose(FILLERS), SIZES[choose(26)]), b"\r\n.\r\nRSET\r\n", HEAD, b"z\r\n.\r\n"].concat());
                let p = match choose(3) { 0 => vec![s.input.clone()], 1 => sized(&s.input, 1460), _ => sized(&s.input, 65_536) };
                run(&s, &p, Mem::Own, Opts { rude: rude(0, 4), ..Opts::default() })
            }),
            space("much-later-message", "a message handled carelessly after 0..=11, and at 26 numbers up to 1001 others, with another one behind it", || {
                let mut s = Sess::new(Kind::Own, Policy::Accept);
                let n = times(1001);
                for _ in 0..n + 2 { s.all(&[HEAD, b"x\r\nRSET\r\n.\r\n"].concat()) }
                let p = packed(&s, choose(2));
                run(&s, &p, Mem::Own, Opts { rude: rude(n, 2), ..Opts::default() })
            }),
        ],
        assumptions: vec!["a panic ends the session: nothing catches it and polls on"],
    }
}
