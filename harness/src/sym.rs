//! Symbolic inputs. Compiled to wasm the functions are imports interpreted by the
//! engine; compiled natively they replay recorded input values.

#[cfg(target_arch = "wasm32")]
mod imp {
    #[link(wasm_import_module = "sym")]
    unsafe extern "C" {
        pub fn sym_var(w: u32, lo: u64, hi: u64) -> u64;
        pub fn sym_assume(c: u32);
        pub fn sym_assert(c: u32, p: *const u8, n: usize);
        pub fn sym_panic(p: *const u8, n: usize);
        pub fn sym_conc(v: u64) -> u64;
        pub fn sym_cover(id: u32);
        pub fn sym_known(p: *const u8, n: usize);
        pub fn sym_log(p: *const u8, n: usize);
        pub fn sym_tier() -> u32;
    }
}

#[cfg(not(target_arch = "wasm32"))]
mod imp {
    //! Replay backend: values come from `set_inputs`, outcomes end the process.
    use std::cell::{Cell, RefCell};
    thread_local! {
        static IN: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
        static AT: Cell<usize> = const { Cell::new(0) };
    }
    pub fn set_inputs(v: Vec<u64>) {
        IN.with(|i| *i.borrow_mut() = v);
        AT.with(|a| a.set(0));
    }
    pub unsafe fn sym_var(_w: u32, lo: u64, hi: u64) -> u64 {
        let k = AT.with(|a| {
            let k = a.get();
            a.set(k + 1);
            k
        });
        let v = IN.with(|i| i.borrow().get(k).copied().unwrap_or(lo));
        if v < lo || v > hi {
            println!("REPLAY-ASSUME input {k} out of range");
            std::process::exit(4);
        }
        v
    }
    pub unsafe fn sym_assume(c: u32) {
        if c == 0 {
            println!("REPLAY-ASSUME failed");
            std::process::exit(4);
        }
    }
    pub unsafe fn sym_assert(c: u32, p: *const u8, n: usize) {
        if c == 0 {
            let s = unsafe { std::slice::from_raw_parts(p, n) };
            println!("REPLAY-VIOLATION {}", String::from_utf8_lossy(s).replace('\n', "\\n").replace('\r', "\\r"));
            std::process::exit(1);
        }
    }
    pub unsafe fn sym_conc(v: u64) -> u64 {
        v
    }
    pub unsafe fn sym_tier() -> u32 {
        std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough") as u32
    }
    pub unsafe fn sym_cover(_id: u32) {}
    pub unsafe fn sym_known(_p: *const u8, _n: usize) {}
    pub unsafe fn sym_log(p: *const u8, n: usize) {
        let s = unsafe { std::slice::from_raw_parts(p, n) };
        println!("REPLAY-INPUT {}", String::from_utf8_lossy(s).replace('\n', "\\n").replace('\r', "\\r"));
    }
}

#[cfg(not(target_arch = "wasm32"))]
pub use imp::set_inputs;

/// A byte in `lo..=hi`.
pub fn byte(lo: u8, hi: u8) -> u8 {
    unsafe { imp::sym_var(8, lo as u64, hi as u64) as u8 }
}
/// A symbolic boolean.
pub fn flag() -> bool {
    byte(0, 1) != 0
}
pub fn u32v() -> u32 {
    unsafe { imp::sym_var(32, 0, u32::MAX as u64) as u32 }
}
pub fn u64v() -> u64 {
    unsafe { imp::sym_var(64, 0, u64::MAX) }
}
/// A member of an alphabet, kept symbolic.
pub fn of(alphabet: &[u8]) -> u8 {
    alphabet[byte(0, alphabet.len() as u8 - 1) as usize]
}
/// A number in `0..n`, one path per value.
pub fn pick(n: usize) -> usize {
    if n == 1 {
        return 0;
    }
    unsafe { imp::sym_conc(byte(0, n as u8 - 1) as u64) as usize }
}
/// One of the given values, one path per value.
pub fn one<T: Copy>(xs: &[T]) -> T {
    xs[pick(xs.len())]
}
/// Makes a value concrete, one path per value.
pub fn conc(v: u64) -> u64 {
    unsafe { imp::sym_conc(v) }
}
pub fn conc_flag(v: bool) -> bool {
    conc(v as u64) != 0
}
pub fn assume(c: bool) {
    unsafe { imp::sym_assume(c as u32) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { imp::sym_assert(c as u32, msg.as_ptr(), msg.len()) }
}
/// Marks a point that has to be reachable for the check to mean anything.
pub fn cover(id: u32) {
    unsafe { imp::sym_cover(id) }
}
/// Violations from here on belong to a recorded finding (empty: none).
pub fn known(tag: &str) {
    unsafe { imp::sym_known(tag.as_ptr(), tag.len()) }
}
/// Whether the larger bounds are in force.
pub fn deep() -> bool {
    unsafe { imp::sym_tier() != 0 }
}
pub fn log(s: &str) {
    unsafe { imp::sym_log(s.as_ptr(), s.len()) }
}

/// Routes panics to the engine with their source location.
#[cfg(target_arch = "wasm32")]
pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        let mut buf = [0u8; 256];
        let mut n = 0;
        let mut put = |s: &[u8], n: &mut usize| {
            for b in s {
                if *n < 256 {
                    buf[*n] = *b;
                    *n += 1;
                }
            }
        };
        if let Some(l) = info.location() {
            put(b"panic at ", &mut n);
            put(l.file().as_bytes(), &mut n);
            put(b":", &mut n);
            let mut d = [0u8; 10];
            let (mut v, mut k) = (l.line(), 10);
            while v > 0 {
                k -= 1;
                d[k] = b'0' + (v % 10) as u8;
                v /= 10;
            }
            put(&d[k..], &mut n);
        }
        unsafe { imp::sym_panic(buf.as_ptr(), n) }
    }));
}
#[cfg(not(target_arch = "wasm32"))]
pub fn init() {
    std::panic::set_hook(Box::new(|info| {
        println!("REPLAY-VIOLATION panic: {}", info.to_string().replace('\n', " "));
        std::process::exit(1);
    }));
}

#[cfg(target_arch = "wasm32")]
#[unsafe(no_mangle)]
unsafe extern "Rust" fn __getrandom_v03_custom(dest: *mut u8, len: usize) -> Result<(), ()> {
    for i in 0..len {
        unsafe { *dest.add(i) = 7 }
    }
    Ok(())
}
