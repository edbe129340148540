//! Deterministic replacement for the `getrandom` 0.1 crate (same public API).
//!
//! Every thread has its own generator.  The explorer reseeds it at the start of
//! each execution, so that one list of choices always denotes one execution.
//! The explorer can also script the next answers (`script`), which turns the
//! random source into an environment whose answers are enumerated.
use std::cell::RefCell;
use std::collections::VecDeque;
use std::num::NonZeroU32;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct Error(NonZeroU32);

impl Error {
    pub const UNKNOWN: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31) });
    pub const UNAVAILABLE: Error = Error(unsafe { NonZeroU32::new_unchecked(1 << 31) });
    pub const INTERNAL_START: u32 = 1 << 31;
    pub const CUSTOM_START: u32 = (1 << 31) + (1 << 30);
    pub fn raw_os_error(self) -> Option<i32> {
        None
    }
    pub const fn code(self) -> NonZeroU32 {
        self.0
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "getrandom error")
    }
}
impl std::error::Error for Error {}
impl From<NonZeroU32> for Error {
    fn from(c: NonZeroU32) -> Self {
        Error(c)
    }
}
impl From<Error> for std::io::Error {
    fn from(e: Error) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e)
    }
}

struct State {
    s: [u64; 4],
    script: VecDeque<u8>,
    drawn: u64,
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl State {
    fn new(seed: u64) -> State {
        let mut x = seed;
        State {
            s: [splitmix(&mut x), splitmix(&mut x), splitmix(&mut x), splitmix(&mut x)],
            script: VecDeque::new(),
            drawn: 0,
        }
    }
    fn next(&mut self) -> u64 {
        let s = &mut self.s;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
    fn fill(&mut self, dest: &mut [u8]) {
        self.drawn += dest.len() as u64;
        let mut i = 0;
        while i < dest.len() {
            match self.script.pop_front() {
                Some(b) => {
                    dest[i] = b;
                    i += 1;
                }
                None => break,
            }
        }
        for chunk in dest[i..].chunks_mut(8) {
            let r = self.next().to_le_bytes();
            let n = chunk.len();
            chunk.copy_from_slice(&r[..n]);
        }
    }
}

thread_local! {
    static STATE: RefCell<State> = RefCell::new(State::new(next_thread()));
}
/// Threads the explorer does not seed (pools) differ from each other.
fn next_thread() -> u64 {
    static N: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x5EED);
    N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)
}

pub fn seed(s: u64) {
    STATE.with(|st| *st.borrow_mut() = State::new(s));
}
/// The next bytes drawn on this thread are these.
pub fn script(bytes: &[u8]) {
    STATE.with(|st| st.borrow_mut().script.extend(bytes.iter().cloned()));
}
pub fn clear_script() {
    STATE.with(|st| st.borrow_mut().script.clear());
}
pub fn drawn() -> u64 {
    STATE.with(|st| st.borrow().drawn)
}
pub fn fill(dest: &mut [u8]) {
    let ok = STATE.try_with(|st| st.borrow_mut().fill(dest)).is_ok();
    if !ok {
        State::new(7).fill(dest)
    }
}
pub fn getrandom(dest: &mut [u8]) -> Result<(), Error> {
    fill(dest);
    Ok(())
}
