//! One generated case: its random stream and the description of its input.
use crate::gen::Rng;
use crate::q;
use std::cell::RefCell;

pub type R = Result<(), String>;
pub struct Cx {
    pub r: Rng,
    pub input: String,
}
pub struct Sub {
    pub prop: &'static str,
    pub name: &'static str,
    pub what: &'static str,
    pub quick: u32,
    pub thorough: u32,
    pub f: fn(&mut Cx) -> R,
}
impl Cx {
    /// record the (non-trivial) input of this case
    pub fn input(&mut self, s: String) {
        if !self.input.is_empty() {
            self.input.push_str(" ; ");
        }
        self.input.push_str(&s);
        INPUT.with(|i| *i.borrow_mut() = self.input.clone());
    }
}
thread_local! {
    static INPUT: RefCell<String> = RefCell::new(String::new());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("panic at {l}: {m}"));
    }));
}
pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}
pub fn cut(s: &str) -> String {
    s.chars().take(1200).collect()
}
/// run one case
pub fn one(s: &Sub, seed: u64, idx: u64) -> (R, String) {
    q::reset_arena();
    INPUT.with(|i| i.borrow_mut().clear());
    let mut cx = Cx { r: Rng(fnv(s.name) ^ seed.wrapping_mul(0x9E3779B97F4A7C15) ^ idx.wrapping_mul(0xD1B54A32D192ED03), !matches!(s.prop, "C19" | "C20" | "C21")), input: String::new() };
    cx.r.next();
    let f = s.f;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut cx)));
    let input = INPUT.with(|i| i.borrow().clone());
    match r {
        Ok(r) => (r, input),
        Err(_) => (Err(PANIC.with(|p| p.borrow().clone())), input),
    }
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !($c) { return Err(format!($($t)*)); } };
}
#[macro_export]
macro_rules! subs {
    ($($prop:literal $name:ident $what:literal $q:literal $t:literal);* $(;)?) => {
        pub fn subs() -> Vec<$crate::cx::Sub> {
            vec![$($crate::cx::Sub { prop: $prop, name: stringify!($name), what: $what, quick: $q, thorough: $t, f: $name }),*]
        }
    };
}
