//! The clock of the code under test. `std::time` reads it through `clock_gettime`, which
//! this program defines itself: while an execution is frozen, its thread's time stands
//! still except for what the explorer lets pass.
use std::cell::Cell;
use std::time::Duration;

thread_local! {
    /// nanoseconds of the monotonic and of the real-time clock while frozen
    static NOW: Cell<Option<(i128, i128)>> = const { Cell::new(None) };
}
unsafe fn real(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    libc::syscall(libc::SYS_clock_gettime, id as libc::c_long, ts) as libc::c_int
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    let frozen = NOW.try_with(|n| n.get()).unwrap_or(None);
    match (frozen, id) {
        (Some((m, _)), libc::CLOCK_MONOTONIC | libc::CLOCK_MONOTONIC_COARSE | libc::CLOCK_MONOTONIC_RAW | libc::CLOCK_BOOTTIME) => put(ts, m),
        (Some((_, r)), libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE) => put(ts, r),
        _ => real(id, ts),
    }
}
unsafe fn put(ts: *mut libc::timespec, ns: i128) -> libc::c_int {
    (*ts).tv_sec = (ns / 1_000_000_000) as _;
    (*ts).tv_nsec = (ns % 1_000_000_000) as _;
    0
}
/// Time stands still on this thread until this is dropped, and starts where it always does.
pub struct Frozen(());
impl Frozen {
    pub fn new() -> Frozen {
        static START: std::sync::OnceLock<(i128, i128)> = std::sync::OnceLock::new();
        let now = |id| unsafe {
            let mut t: libc::timespec = std::mem::zeroed();
            assert_eq!(real(id, &mut t), 0);
            t.tv_sec as i128 * 1_000_000_000 + t.tv_nsec as i128
        };
        let t = *START.get_or_init(|| (now(libc::CLOCK_MONOTONIC), now(libc::CLOCK_REALTIME)));
        NOW.with(|n| n.set(Some(t)));
        Frozen(())
    }
}
impl Drop for Frozen {
    fn drop(&mut self) {
        NOW.with(|n| n.set(None));
    }
}
/// Lets time pass.
pub fn pass(d: Duration) {
    NOW.with(|n| n.set(n.get().map(|(m, r)| (m + d.as_nanos() as i128, r + d.as_nanos() as i128))));
}
/// Is `std::time` really driven by this clock?
pub fn works() -> bool {
    let _f = Frozen::new();
    let (a, b) = (std::time::Instant::now(), std::time::SystemTime::now());
    pass(Duration::from_secs(86_400));
    a.elapsed().as_secs() == 86_400 && b.elapsed().map_or(false, |d| d.as_secs() == 86_400)
}
