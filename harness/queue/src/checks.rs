//! Checks Q01-Q06.
use crate::world::*;
use mcore::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

const HOUR: u64 = 3600;
fn secs(n: u64) -> Duration {
    Duration::from_secs(n)
}
fn mk(queued: usize, found: usize, refusals: impl Fn(usize) -> u32, opts: Opts) -> Sh {
    let mut w = World::new(queued, found, opts);
    for (i, m) in w.mails.iter_mut().enumerate() {
        m.refusals = refusals(i);
    }
    note(|| format!("{queued} queued, {found} in flight, refusals {:?}", w.mails.iter().map(|m| m.refusals).collect::<Vec<_>>()));
    Sh(Arc::new(Mutex::new(w)))
}
/// Lets one process live until it is done: at start-up, just before the hour, after it.
/// Ok(true) if it crashed.
fn live(sh: &Sh) -> Result<bool, String> {
    process(sh, |p| {
        let refusals: Vec<u32> = sh.0.lock().unwrap().mails.iter().map(|m| m.refusals).collect();
        let before: Vec<M> = sh.0.lock().unwrap().mails.clone();
        if let End::Crash = p.steps()? {
            return Ok(true);
        }
        quiet(p, &before)?;
        p.advance(secs(HOUR - 1));
        if let End::Crash = p.steps()? {
            return Ok(true);
        }
        quiet(p, &before)?;
        p.advance(secs(HOUR + 100));
        if let End::Crash = p.steps()? {
            return Ok(true);
        }
        quiet(p, &before)?;
        let w = sh.0.lock().unwrap();
        for (i, m) in w.mails.iter().enumerate() {
            let b = &before[i];
            if b.st == St::Done || m.hurt {
                continue;
            }
            ensure!(m.attempts - b.attempts == refusals[i] + 1, "mail {i} was attempted {} times, with {} refusals", m.attempts - b.attempts, refusals[i]);
            let again = refusals[i] + (b.st == St::Inflight) as u32;
            ensure!(m.requeued - b.requeued == again, "mail {i} was returned to the queue {} times instead of {again}", m.requeued - b.requeued);
        }
        ensure!(w.mails.iter().any(|m| m.hurt) || p.alive() == 0, "{} tasks wait for nothing", p.alive());
        Ok(false)
    })
}
/// Nothing can happen any more at this time: is everything done that must be?
fn quiet(p: &mut Proc, before: &[M]) -> Res {
    let w = p.sh.0.lock().unwrap();
    let after_hour = w.offset - w.startup_offset > secs(HOUR);
    ensure!(!p.main_alive(), "the runner is stuck although nothing it waits for is pending");
    ensure!(w.main_done == Some(true), "the runner failed");
    for (i, m) in w.mails.iter().enumerate() {
        ensure!(m.delivered <= 1 + m.excused, "mail {i} was handed to the transport with success {} times", m.delivered);
        ensure!(m.st != St::Done || m.delivered > 0, "mail {i} is done without having been sent");
        if m.hurt {
            continue;
        }
        let was_found = before[i].st == St::Inflight;
        if !was_found || after_hour {
            ensure!(m.st == St::Done, "mail {i} is left behind: {:?}, {:?}", m.st, m.at);
        }
        if was_found && !after_hour {
            ensure!(m.st == St::Inflight && m.at == At::Idle && m.attempts == before[i].attempts, "mail {i}, found in flight, was touched within the hour: {:?}, {:?}", m.st, m.at);
        }
    }
    state(&w.key());
    outcome(&w.log);
    Ok(())
}
const MANY: [usize; 14] = [31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000];
const STORMS: [usize; 26] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 128, 255, 256, 1000];
const SPURIOUS: &str = "polled although nothing has happened to them, anywhere, up to";
/// The runner and every task polled again and again before every completion.
fn storms() -> Res {
    let storm = STORMS[choose(STORMS.len())];
    let (q, f) = (choose(3), choose(3));
    let r = choose(3) as u32;
    whole(mk(q, f, |i| if i % 2 == 0 { r } else { 0 }, Opts { storm, list_own: flip(), ..Opts::default() }))
}
const STORMED: &str = "0..=2 queued and 0..=2 found mails, 0..=2 refusals of every other one; the runner and all tasks polled each of 26 numbers of times up to 1000 before every completion and before the hour passes";
/// No crash expected.
fn whole(sh: Sh) -> Res {
    nontrivial();
    let c = live(&sh)?;
    assert!(!c);
    Ok(())
}
/// Restarts after each crash until a process lives to its end.
fn with_crashes(sh: Sh) -> Res {
    for _ in 0..10 {
        if !live(&sh)? {
            return Ok(());
        }
    }
    Err("crashes without end".into())
}
/// Every answer of the transport that is a refusal is one.
fn answers() -> Res {
    let refusal = Some((choose(1000) as u16, choose(TEXTS)));
    let (r, f) = (1 + choose(2) as u32, choose(2));
    whole(mk(1 - f, f, |_| r, Opts { refusal, later: false, ..Opts::default() }))
}
const MON: &str = "The storage and the transport are stand-ins that complete when the explorer says so; the storage checks at every operation that it is due for that mail, with that mail's own and current handle, and the transport that it is given that mail's contents. When nothing can happen any more (at start-up, one second before the hour, after the hour) everything due must be done. Non-trivial: at least one mail in the storage, or an injected fault.";

pub fn q01(t: Tier) -> Check {
    let b = t.pick(3, 4);
    Check {
        level: Level::Model,
        rule: MON,
        spaces: vec![
            space("two-mails", format!("2 queued mails, up to {} refusals of one,", t.pick(1, 2)) + " every order of completions", move || {
                let r = choose(t.pick(2, 3)) as u32;
                whole(mk(2, 0, |i| if i == 0 { r } else { 0 }, Opts { all_orders: true, ..Opts::default() }))
            }),
            space("queued-and-found", "1 queued and 1 found mail, 0..=2 refusals of each, storage that lists its own in-flight mails or not, every order of completions", || {
                let r = [choose(3) as u32, choose(3) as u32];
                whole(mk(1, 1, |i| r[i], Opts { all_orders: true, list_own: flip(), ..Opts::default() }))
            }),
            space("three-mails", format!("3 mails, 0..=1 of them found, up to 2 refusals of each, up to {} deviations from first-come-first-served", t.pick(2, 4)), move || {
                let f = choose(2);
                let r = [choose(3) as u32, choose(3) as u32, choose(3) as u32];
                whole(mk(3 - f, f, |i| r[i], Opts { list_own: flip(), ..Opts::default() }))
            }).budget(t.pick(2, 4)),
            space("immediate-or-later", format!("2 queued mails and 1 found, one refusal or none of each; operations answer immediately or later, up to {b} deviations from either"), move || {
                let r = [choose(2) as u32, choose(2) as u32, choose(2) as u32];
                whole(mk(2, 1, |i| r[i], Opts { later: flip(), mixed: true, ..Opts::default() }))
            }).budget(b),
            space("fetch-failures", format!("2 queued mails and 1 found, up to 2 storage operations fail, up to {} such and other deviations", b), move || {
                let r = [choose(2) as u32, 0, choose(2) as u32];
                whole(mk(2, 1, |i| r[i], Opts { errors: true, later: flip(), ..Opts::default() }))
            }).budget(b),
            space("spurious-polls", format!("1..=2 queued mails and 0..=1 found, none or one refusal of each; the runner and the tasks {SPURIOUS} {} times and other deviations", t.pick(2, 3)), move || {
                let (q, f) = (1 + choose(2), choose(2));
                let r = [choose(2) as u32, choose(2) as u32, 0];
                whole(mk(q, f, |i| r[i], Opts { spurious: true, in_order: flip(), ..Opts::default() }))
            }).budget(t.pick(2, 3)),
            space("storms", STORMED, storms),
            space("many-mails", format!("0..={} queued and 0..=10 found mails, refusals in 4 patterns, all answers immediate or later, one deviation", t.pick(8, 40)), move || {
                let (q, f) = (choose(9) * t.pick(1, 5), [0, 1, 4, 10][choose(4)]);
                let k = choose(4) as u32;
                whole(mk(q, f, |i| if k == 0 { 0 } else { (i as u32 * 7 / k) % (k + 1) }, Opts { later: flip(), ..Opts::default() }))
            }).budget(1),
            space("very-many-mails", "each of 14 numbers of mails from 31 to 1000, queued or found or half of each, 3 patterns of refusals, answers immediate or later", || {
                let n = MANY[choose(MANY.len())];
                let (q, f) = [(n, 0), (0, n), (n / 2, n - n / 2)][choose(3)];
                let k = choose(3) as u32;
                whole(mk(q, f, |i| i as u32 % (k + 1), Opts { later: flip(), ..Opts::default() }))
            }),
            space("thousands", format!("each of {} numbers of mails from 4095 to {}, queued or found, answers immediate or later", t.pick(7, 8), t.pick(70_001, 140_001)), move || {
                let n = [4095usize, 4096, 4097, 5000, 8193, 10_001, 70_001, 140_001][choose(t.pick(7, 8))];
                let (q, f) = if flip() { (n, 0) } else { (0, n) };
                whole(mk(q, f, |i| (i % 1000 == 999) as u32, Opts { later: flip(), ..Opts::default() }))
            }),
            space("contents", "2 mails, queued or found, with each of 8 kinds of bodies (none, empty parts, 1000 parts, 760 kB, all byte values) and 8 kinds of envelopes (no sender, 0 to 1000 recipients, repeated ones, unusual ones), 0..=2 refusals, answers immediate or later", || {
                let (body, envelope) = (choose(BODIES), choose(ENVELOPES));
                let r = choose(3) as u32;
                let f = choose(3);
                whole(mk(2 - f, f, |_| r, Opts { body, envelope, later: flip(), ..Opts::default() }))
            }),
            space("large-contents", "1 mail, queued or found, with a body of 1001 to 300001 parts, some of them empty, or of 20 to 70 MB, or with 1001 to 100001 recipients, refused once or not", || {
                let (body, envelope) = { let k = choose(LARGE_BODIES + LARGE_ENVELOPES); if k < LARGE_BODIES { (BODIES + k, 0) } else { (0, ENVELOPES + k - LARGE_BODIES) } };
                let r = choose(2) as u32;
                let f = choose(2);
                whole(mk(1 - f, f, |_| r, Opts { body, envelope, ..Opts::default() }))
            }),
            space("answers", "1 mail, queued or found, refused once or twice with each code 0..=999 and each of 7 texts (none, 506, 513 or 70 000 bytes, one that looks like success, other bytes)", answers),
        ],
        assumptions: vec!["attempts take less than an hour (the documented condition for returning found mail)", "the storage hands out a new name at every move and refuses outdated names for found mail"],
    }
}
pub fn q02(t: Tier) -> Check {
    let b = t.pick(3, 4);
    Check {
        level: Level::Model,
        rule: MON,
        spaces: vec![
            space("refusals", format!("1 mail, queued or found, 0..={} refusals, answers immediate or later", t.pick(300, 3000)), move || {
                let r = choose(t.pick(301, 3001)) as u32;
                let f = choose(2);
                whole(mk(1 - f, f, |_| r, Opts { later: flip(), ..Opts::default() }))
            }),
            space("very-many-refusals", format!("1 mail, queued or found, refused each of {} numbers of times from 400 to {}, answers immediate or later", t.pick(9, 12), t.pick(70_000, 300_000)), move || {
                let r = [400u32, 500, 512, 999, 1000, 1001, 5000, 65_535, 70_000, 100_001, 131_073, 300_000][choose(t.pick(9, 12))];
                let f = choose(2);
                whole(mk(1 - f, f, |_| r, Opts { later: flip(), ..Opts::default() }))
            }),
            space("two-mails-every-order", format!("2 queued mails, up to {} refusals of the first, every order of completions", t.pick(1, 2)), move || {
                let r = choose(t.pick(2, 3)) as u32;
                whole(mk(2, 0, |i| if i == 0 { r } else { 0 }, Opts { all_orders: true, ..Opts::default() }))
            }),
            space("mixed-refusals", format!("3 queued mails with 0..=3 refusals each, up to {} deviations from first-come-first-served", b - 1), move || {
                let r = [choose(4) as u32, choose(4) as u32, choose(4) as u32];
                whole(mk(3, 0, |i| r[i], Opts::default()))
            }).budget(b - 1),
            space("immediate-or-later", format!("2 mails with 0..=2 refusals each, every operation immediate or later, up to {b} deviations"), move || {
                let r = [choose(3) as u32, choose(3) as u32];
                whole(mk(2, 0, |i| r[i], Opts { later: flip(), mixed: true, ..Opts::default() }))
            }).budget(b),
            space("spurious-polls", format!("1..=2 mails with 0..=2 refusals each; the runner and the tasks {SPURIOUS} {} times and other deviations", t.pick(2, 3)), move || {
                let q = 1 + choose(2);
                let r = [choose(3) as u32, choose(3) as u32];
                whole(mk(q, 0, |i| r[i], Opts { spurious: true, in_order: flip(), ..Opts::default() }))
            }).budget(t.pick(2, 3)),
            space("storms", STORMED, storms),
            space("many-mails", format!("0..={} mails with 5 patterns of refusals, one deviation", t.pick(13, 65)), move || {
                let q = choose(14) * t.pick(1, 5);
                let k = choose(5) as u32;
                whole(mk(q, 0, |i| if k == 0 { 0 } else { i as u32 % (k + 1) }, Opts { later: flip(), ..Opts::default() }))
            }).budget(1),
            space("very-many-mails", "each of 14 numbers of queued mails from 31 to 1000, all or each 2nd or 10th refused 1 or 3 times, answers immediate or later", || {
                let n = MANY[choose(MANY.len())];
                let (m, k) = ([1, 2, 10][choose(3)], [1u32, 3][choose(2)]);
                whole(mk(n, 0, |i| if i % m == 0 { k } else { 0 }, Opts { later: flip(), ..Opts::default() }))
            }),
            space("answers", "1 mail, queued or found, refused once or twice with each code 0..=999 and each of 7 texts (none, 506, 513 or 70 000 bytes, one that looks like success, other bytes)", answers),
            space("contents", "2 mails, queued or found, with each of 8 kinds of bodies and 8 kinds of envelopes, 1..=2 refusals, answers immediate or later", || {
                let (body, envelope) = (choose(BODIES), choose(ENVELOPES));
                let r = 1 + choose(2) as u32;
                let f = choose(3);
                whole(mk(2 - f, f, |_| r, Opts { body, envelope, later: flip(), ..Opts::default() }))
            }),
        ],
        assumptions: vec!["storage works, attempts take less than an hour"],
    }
}
pub fn q03(t: Tier) -> Check {
    let b = t.pick(2, 3);
    Check {
        level: Level::Fault,
        rule: "Crash points: before every step of every task, before and after the effect of every outstanding operation; the next process starts on what the storage then holds and is explored to its end, an hour included. A mail may be handed out twice with success only if a crash fell between the transport's success and the done mark. Non-trivial: at least one mail.",
        spaces: vec![
            space("one-mail", "1 mail, queued or found, 0..=2 refusals, up to 3 crashes anywhere (every order of completions only if thorough)", move || {
                let f = choose(2);
                let r = choose(3) as u32;
                nontrivial();
                with_crashes(mk(1 - f, f, |_| r, Opts { crash: true, all_orders: t == Tier::Thorough, ..Opts::default() }))
            }).budget(3),
            space("two-mails-every-order", "1 queued mail and 1 found (thorough: or both queued; one refusal or none), every order of completions, one crash anywhere", move || {
                let f = 1 - choose(t.pick(1, 2));
                let r = if f == 1 { choose(t.pick(1, 2)) as u32 } else { 0 };
                nontrivial();
                with_crashes(mk(2 - f, f, |i| if i == 0 { r } else { 0 }, Opts { crash: true, all_orders: true, list_own: false, ..Opts::default() }))
            }).budget(1),
            space("three-mails", format!("3 mails, 0..={} of them found, none or one refusal of each, up to {b} crashes or other orders", t.pick(1, 2)), move || {
                let f = choose(t.pick(2, 3));
                let r = [choose(2) as u32, choose(2) as u32, choose(2) as u32];
                nontrivial();
                with_crashes(mk(3 - f, f, |i| r[i], Opts { crash: true, list_own: flip(), ..Opts::default() }))
            }).budget(b),
            space("spurious-polls", format!("2 mails, one found or none; crashes anywhere, and the runner and the tasks {SPURIOUS} {b} times together"), move || {
                let f = choose(2);
                nontrivial();
                with_crashes(mk(2 - f, f, |_| 0, Opts { crash: true, spurious: true, in_order: true, ..Opts::default() }))
            }).budget(b),
            space("with-failures", format!("2 mails, one found or none, up to {b} crashes and failing storage operations"), move || {
                let f = choose(2);
                nontrivial();
                with_crashes(mk(2 - f, f, |_| 0, Opts { crash: true, errors: true, ..Opts::default() }))
            }).budget(b),
            space("immediate", format!("2 queued and 1 found mail, operations answer immediately or later, up to {b} crashes and other deviations"), move || {
                let r = [choose(2) as u32, 0, choose(2) as u32];
                nontrivial();
                with_crashes(mk(2, 1, |i| r[i], Opts { crash: true, later: flip(), mixed: true, ..Opts::default() }))
            }).budget(b),
            space("many", format!("{} queued and {} found mails, each second refused once, one crash anywhere", t.pick(10, 40), t.pick(5, 20)), move || {
                nontrivial();
                with_crashes(mk(t.pick(10, 40), t.pick(5, 20), |i| i as u32 % 2, Opts { crash: true, list_own: flip(), later: flip(), in_order: true, ..Opts::default() }))
            }).budget(1),
        ],
        assumptions: vec!["storage operations are atomic and durable once completed", "the transport eventually accepts, an hour passes"],
    }
}
pub fn q04(t: Tier) -> Check {
    let b = t.pick(4, 5);
    Check {
        level: Level::Model,
        rule: MON,
        spaces: vec![
            space("found-only", format!("0..=3 found mails, up to 2 refusals of each, up to {} deviations from first-come-first-served", b - 1), move || {
                let f = choose(4);
                let r = [choose(3) as u32, choose(3) as u32, choose(3) as u32];
                whole(mk(0, f, |i| r[i], Opts::default()))
            }).budget(b - 1),
            space("two-found-every-order", "2 found mails, one refusal or none of one, every order of completions", || {
                let r = choose(2) as u32;
                whole(mk(0, 2, |i| if i == 0 { r } else { 0 }, Opts { all_orders: true, ..Opts::default() }))
            }),
            space("queued-and-found", format!("1..=2 queued and 1..=2 found, storage listing its own in-flight mails or not, none or one refusal, up to {} deviations", b - 1), move || {
                let (q, f) = (1 + choose(2), 1 + choose(2));
                let r = [choose(2) as u32, choose(2) as u32, 0, 0];
                whole(mk(q, f, |i| r[i], Opts { list_own: flip(), ..Opts::default() }))
            }).budget(b - 1),
            space("slow-start", format!("1 queued and 2 found, 1700 s pass at any step, up to 3 times, up to {} deviations", b - 1), move || {
                whole(mk(1, 2, |_| 0, Opts { drift: true, list_own: false, ..Opts::default() }))
            }).budget(b - 1),
            space("spurious-polls", format!("0..=1 queued and 1..=2 found mails; the runner and the tasks {SPURIOUS} {} times; 1700 s pass at any step or not", t.pick(3, 4)), move || {
                let (q, f) = (choose(2), 1 + choose(2));
                whole(mk(q, f, |_| 0, Opts { spurious: true, drift: flip(), list_own: false, in_order: true, ..Opts::default() }))
            }).budget(t.pick(3, 4)),
            space("restarts", format!("0..=1 queued and 1..=2 found mails; up to {} crashes, each followed by another start, and 1700 s passing, anywhere", t.pick(2, 3)), move || {
                let (q, f) = (choose(2), 1 + choose(2));
                nontrivial();
                with_crashes(mk(q, f, |_| 0, Opts { crash: true, drift: true, in_order: true, ..Opts::default() }))
            }).budget(t.pick(2, 3)),
            space("storms", STORMED, storms),
            space("requeue-failures", format!("1 queued and 1..=3 found; storage operations on one mail fail, up to {} deviations", b - 1), move || {
                let f = 1 + choose(3);
                let v = choose(1 + f);
                whole(mk(1, f, |_| 0, Opts { errors: true, victim: Some(v), later: flip(), ..Opts::default() }))
            }).budget(b - 1),
            space("requeue-hangs", "1 queued and 1..=3 found; operations on one mail hang", move || {
                let f = 1 + choose(3);
                let v = choose(1 + f);
                whole(mk(1, f, |_| 0, Opts { hangs: true, victim: Some(v), list_own: false, ..Opts::default() }))
            }).budget(b - 1),
            space("many-found", format!("0..={} found mails and 0 or 3 queued ones, 3 patterns of refusals, one deviation", t.pick(20, 100)), move || {
                let f = choose(11) * t.pick(2, 10);
                let k = choose(3) as u32;
                whole(mk([0, 3][choose(2)], f, |i| i as u32 % (k + 1), Opts { later: flip(), ..Opts::default() }))
            }).budget(1),
            space("very-many-found", "each of 14 numbers of found mails from 31 to 1000, and 0 or 40 queued ones, none or every 3rd refused, answers immediate or later", || {
                let n = MANY[choose(MANY.len())];
                let k = choose(2) as u32;
                whole(mk([0, 40][choose(2)], n, |i| if i % 3 == 0 { k } else { 0 }, Opts { later: flip(), ..Opts::default() }))
            }),
        ],
        assumptions: vec!["attempts take less than an hour", "the virtual clock is set to the real one when the runner is started; firing is looked at one second before and 100 seconds after the hour"],
    }
}
pub fn q05(t: Tier) -> Check {
    let b = t.pick(3, 4);
    Check {
        level: Level::Fault,
        rule: "Faults: every storage operation on the victim may fail, every operation on it (the transport's too) may hang for good; the others must all be delivered as usual, and the victim never be marked done or sent out of turn. Non-trivial: a fault was injected.",
        spaces: vec![
            space("one-victim", format!("2 queued and 1 found mail, any of them the victim, none or one refusal of each; failures at up to {b} operations, and other orders"), move || {
                let v = choose(3);
                let r = [choose(2) as u32, choose(2) as u32, choose(2) as u32];
                plain(mk(2, 1, |i| r[i], Opts { errors: true, victim: Some(v), later: flip(), ..Opts::default() }))
            }).budget(b),
            space("one-hangs", format!("2 queued and 1 found mail, any of them the victim, none or one refusal; hanging at any operation, up to {b} deviations"), move || {
                let v = choose(3);
                let r = [choose(2) as u32, choose(2) as u32, choose(2) as u32];
                plain(mk(2, 1, |i| r[i], Opts { hangs: true, victim: Some(v), list_own: false, later: flip(), ..Opts::default() }))
            }).budget(b),
            space("both-every-order", "2 queued mails, failing or hanging of one operation on the first or second, every order of completions", || {
                let v = choose(2);
                let (e, h) = [(true, false), (false, true)][choose(2)];
                plain(mk(2, 0, |_| 0, Opts { all_orders: true, errors: e, hangs: h, victim: Some(v), list_own: false, ..Opts::default() }))
            }).budget(1),
            space("anyone", format!("4 mails, 0..=2 of them found; up to {b} failures and hangs of any of them"), move || {
                let f = choose(3);
                plain(mk(4 - f, f, |_| 0, Opts { errors: true, hangs: true, list_own: false, later: flip(), ..Opts::default() }))
            }).budget(b),
            space("spurious-polls", format!("2 queued and 1 found mail, any of them the victim; failures and hangs, and the runner and the tasks {SPURIOUS} {b} times together"), move || {
                let v = choose(3);
                let (e, h) = [(true, false), (false, true)][choose(2)];
                plain(mk(2, 1, |_| 0, Opts { errors: e, hangs: h, victim: Some(v), spurious: true, list_own: false, in_order: true, ..Opts::default() }))
            }).budget(b),
            space("refusing-victim", "2 queued and 1 found mail, one of them refused 200 times, others not at all", || {
                let v = choose(3);
                plain(mk(2, 1, |i| if i == v { 200 } else { 0 }, Opts { later: flip(), ..Opts::default() }))
            }).budget(1),
            space("many", "20 queued and 5 found mails; one failure or hang anywhere", || {
                plain(mk(20, 5, |i| i as u32 % 2, Opts { errors: true, hangs: true, list_own: false, later: flip(), ..Opts::default() }))
            }).budget(1),
            space("very-many", "100 queued and 30 found mails, every 3rd refused once; one failure or hang anywhere", || {
                plain(mk(100, 30, |i| if i % 3 == 0 { 1 } else { 0 }, Opts { errors: true, hangs: true, list_own: false, in_order: true, ..Opts::default() }))
            }).budget(1),
            space("many-victims", "1, 2, 10 or each of 14 numbers of mails from 31 to 1000, queued or found, listed before or behind 5 queued and 2 found others, one operation (any kind) failing or hanging for all of them, none or one refusal of each, answers immediate or later", || {
                let n = if flip() { MANY[choose(MANY.len())] } else { [1, 2, 10][choose(3)] };
                let (k, hang) = [(Kind::Start, true), (Kind::Start, false), (Kind::Get, true), (Kind::Get, false), (Kind::Send, true), (Kind::Done, true), (Kind::Done, false), (Kind::Cancel, true), (Kind::Cancel, false), (Kind::CancelFound, true), (Kind::CancelFound, false)][choose(11)];
                let found = k == Kind::CancelFound || flip();
                let front = flip();
                let (q, f) = if found { (5, 2 + n) } else { (5 + n, 2) };
                let from = match (found, front) { (false, true) => 0, (false, false) | (true, true) => 5, (true, false) => 7 };
                let r = if k == Kind::Cancel { 1 } else { choose(2) as u32 };
                plain(mk(q, f, |_| r, Opts { broken: Some((from, from + n, k, hang)), list_own: false, later: flip(), ..Opts::default() }))
            }),
        ],
        assumptions: vec!["attempts that end take less than an hour; a storage does not list as found what its own process has hanging"],
    }
}
fn plain(sh: Sh) -> Res {
    let c = live(&sh)?;
    assert!(!c);
    Ok(())
}

/// One life in which the listings themselves may fail or hang.
fn listing(sh: Sh) -> Res {
    process(&sh, |p| {
        let before: Vec<M> = sh.0.lock().unwrap().mails.clone();
        for (to, after_hour) in [(0, false), (HOUR - 1, false), (HOUR + 100, true)] {
            p.advance(secs(to));
            p.steps()?;
            let w = sh.0.lock().unwrap();
            let [list, find] = w.lists;
            for (i, m) in w.mails.iter().enumerate() {
                ensure!(m.delivered <= 1, "mail {i} was handed to the transport with success {} times", m.delivered);
                if before[i].st == St::Queued {
                    ensure!(m.listed || m.attempts == 0, "mail {i} was attempted although no listing named it");
                    ensure!(m.st == if m.listed { St::Done } else { St::Queued }, "mail {i}, {}, is {:?} when nothing more can happen", if m.listed { "listed as queued" } else { "not listed" }, m.st);
                    ensure!(m.listed || list == Some(false) || list.is_none(), "mail {i} was overlooked");
                } else {
                    let want = if m.listed && after_hour { St::Done } else { St::Inflight };
                    ensure!(m.st == want, "mail {i}, {} in flight, is {:?} at {to} s", if m.listed { "found" } else { "not found" }, m.st);
                }
            }
            match (list, find) {
                (Some(true), Some(true)) => ensure!(w.main_done == Some(true), "both listings ended, but the runner {}", if w.main_done.is_none() { "goes on waiting" } else { "reports an error" }),
                _ if w.list_hung => ensure!(w.main_done != Some(true), "the runner reports success although a listing never ended"),
                (Some(false), _) | (_, Some(false)) => ensure!(w.main_done == Some(false), "a listing failed, but the runner {}", if w.main_done.is_none() { "goes on waiting" } else { "reports success" }),
                _ => return Err("the runner waits although both listings are ready".into()),
            }
            state(&(w.key(), list, find));
            outcome(&w.log);
        }
        ensure!(p.alive() == 0, "{} tasks wait for nothing", p.alive());
        Ok(())
    })
}
pub fn q06(t: Tier) -> Check {
    let b = t.pick(3, 4);
    Check {
        level: Level::Fault,
        rule: "Faults: either listing fails or hangs for good at any of its items or at its end. Whatever it named before must be delivered as always, the rest be untouched, and the runner's result say whether both listings came to their end. Non-trivial: a listing failed or hung.",
        spaces: vec![
            space("fails", format!("0..={} queued and 0..=2 found mails, none or one refusal of each; a listing fails anywhere, and up to {} deviations", t.pick(2, 3), b - 1), move || {
                let (q, f) = (choose(t.pick(3, 4)), choose(3));
                let r = [choose(2) as u32, choose(2) as u32];
                listing(mk(q, f, |i| r[i % 2], Opts { list_errors: true, list_own: flip(), later: flip(), ..Opts::default() }))
            }).budget(b),
            space("hangs", format!("0..={} queued and 0..=2 found mails, none or one refusal of each; a listing hangs anywhere, and up to {} deviations", t.pick(2, 3), b - 1), move || {
                let (q, f) = (choose(t.pick(3, 4)), choose(3));
                let r = [choose(2) as u32, choose(2) as u32];
                listing(mk(q, f, |i| r[i % 2], Opts { list_hangs: true, list_own: false, later: flip(), ..Opts::default() }))
            }).budget(b),
            space("either-mixed", format!("1..=2 queued and 1..=2 found mails, operations immediate or later, up to {} failures, hangs and deviations", b - 1), move || {
                let (q, f) = (1 + choose(2), 1 + choose(2));
                listing(mk(q, f, |_| 0, Opts { list_errors: true, list_hangs: true, mixed: true, later: flip(), list_own: false, ..Opts::default() }))
            }).budget(b - 1),
            space("every-order", "1 queued and 1 found mail, or 2 queued; every order of completions, a listing failing or hanging anywhere", || {
                let f = choose(2);
                let (e, h) = [(true, false), (false, true)][choose(2)];
                listing(mk(2 - f, f, |_| 0, Opts { all_orders: true, list_errors: e, list_hangs: h, list_own: false, ..Opts::default() }))
            }).budget(1),
            space("spurious-polls", format!("0..=2 queued and 0..=2 found mails; a listing fails or hangs anywhere, and the runner and the tasks {SPURIOUS} {b} times together"), move || {
                let (q, f) = (choose(3), choose(3));
                let (e, h) = [(true, false), (false, true)][choose(2)];
                listing(mk(q, f, |_| 0, Opts { list_errors: e, list_hangs: h, spurious: true, list_own: false, in_order: true, ..Opts::default() }))
            }).budget(b),
            space("long-listings", format!("0..={} queued and 0..=20 found mails, one failure or hang anywhere", t.pick(20, 100)), move || {
                let (q, f) = (choose(t.pick(3, 5)) * t.pick(10, 25), choose(3) * 10);
                listing(mk(q, f, |i| i as u32 % 2, Opts { list_errors: true, list_hangs: true, list_own: false, later: flip(), ..Opts::default() }))
            }).budget(1),
            space("very-long-listings", "each of 14 numbers of mails from 31 to 300, queued or found, the listings failing or hanging at any item", || {
                let n = MANY[choose(13)];
                let (q, f) = [(n, 0), (0, n)][choose(2)];
                listing(mk(q, f, |_| 0, Opts { list_errors: true, list_hangs: true, list_own: false, in_order: true, ..Opts::default() }))
            }).budget(1),
            space("thousands", format!("each of {} numbers of mails from 4095 to {}, queued or found, answers immediate or later", t.pick(7, 8), t.pick(70_001, 140_001)), move || {
                let n = [4095usize, 4096, 4097, 5000, 8193, 10_001, 70_001, 140_001][choose(t.pick(7, 8))];
                let (q, f) = if flip() { (n, 0) } else { (0, n) };
                whole(mk(q, f, |i| (i % 1000 == 999) as u32, Opts { later: flip(), ..Opts::default() }))
            }),
        ],
        assumptions: vec!["after an error a listing yields nothing more"],
    }
}
