//! `std::collections::HashMap/HashSet` seed themselves through `getrandom`. Defining the symbol in
//! the executable makes it one more simulated source: every run executes on a fresh thread (fresh
//! hash keys), and the keys come from the run's choice stream.
use std::cell::Cell;
thread_local! { static KEY: Cell<u64> = const { Cell::new(0) }; static USED: Cell<u64> = const { Cell::new(0) }; }

pub fn set(seed: u64) {
    KEY.with(|k| k.set(seed));
}
pub fn used() -> u64 {
    USED.with(|k| k.get())
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = KEY.try_with(|k| k.get()).unwrap_or(1);
    for i in 0..len {
        s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (s >> 33) as u8;
    }
    let _ = KEY.try_with(|k| k.set(s));
    let _ = USED.try_with(|k| k.set(k.get() + 1));
    len as isize
}
