// Parameter types for generated routers.  Compiled into the harness and into
// every crate of generated routers.
use std::cell::{Cell, RefCell};
use std::fmt;
use std::str::FromStr;

// What a matcher does on the way: memory taken (counted by the allocator of
// the program the routers are compiled into), and texts the types below were
// asked to parse.
thread_local! {
    pub static TAKEN: Cell<u64> = const { Cell::new(0) };
    pub static BYTES: Cell<u64> = const { Cell::new(0) };
    static WATCHING: Cell<bool> = const { Cell::new(false) };
    static SEEN: RefCell<Vec<(&'static str, String)>> = RefCell::new(vec![]);
}

#[allow(dead_code)]
pub fn watch() {
    SEEN.with(|s| s.borrow_mut().clear());
    WATCHING.with(|w| w.set(true));
    TAKEN.with(|t| t.set(0));
    BYTES.with(|t| t.set(0));
}

/// allocations, bytes, and what was parsed
#[allow(dead_code)]
pub fn watched() -> (u64, u64, Vec<(&'static str, String)>) {
    let (n, b) = (TAKEN.with(|t| t.get()), BYTES.with(|t| t.get()));
    WATCHING.with(|w| w.set(false));
    (n, b, SEEN.with(|s| s.borrow().clone()))
}

fn seen(typ: &'static str, text: &str) {
    if WATCHING.with(|w| w.get()) {
        let (n, b) = (TAKEN.with(|t| t.get()), BYTES.with(|t| t.get()));
        SEEN.with(|s| s.borrow_mut().push((typ, text.to_string())));
        TAKEN.with(|t| t.set(n));
        BYTES.with(|t| t.set(b));
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Even(pub u32);
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct NotEven(pub String);
impl FromStr for Even {
    type Err = NotEven;
    fn from_str(s: &str) -> Result<Even, NotEven> {
        seen("Even", s);
        match s.parse::<u32>() {
            Ok(n) if n % 2 == 0 => Ok(Even(n)),
            _ => Err(NotEven(s.to_string())),
        }
    }
}
impl fmt::Display for Even {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}

/// lower case letters, digits and dashes
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Slug(pub String);
#[derive(Debug, PartialEq, Eq, Clone)]
pub enum SlugError {
    Empty,
    Invalid { at: usize },
}
impl FromStr for Slug {
    type Err = SlugError;
    fn from_str(s: &str) -> Result<Slug, SlugError> {
        seen("Slug", s);
        if s.is_empty() {
            return Err(SlugError::Empty);
        }
        for (at, c) in s.char_indices() {
            if !(c.is_ascii_lowercase() || c.is_ascii_digit() || c == '-') {
                return Err(SlugError::Invalid { at });
            }
        }
        Ok(Slug(s.to_string()))
    }
}
impl fmt::Display for Slug {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}

/// hexadecimal digits; prints in lower case
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Hex(pub u64);
impl FromStr for Hex {
    type Err = std::num::ParseIntError;
    fn from_str(s: &str) -> Result<Hex, std::num::ParseIntError> {
        seen("Hex", s);
        u64::from_str_radix(s, 16).map(Hex)
    }
}
impl fmt::Display for Hex {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{:x}", self.0)
    }
}

/// takes anything, remembers exactly what
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Any(pub String);
impl FromStr for Any {
    type Err = ();
    fn from_str(s: &str) -> Result<Any, ()> {
        seen("Any", s);
        Ok(Any(s.to_string()))
    }
}
impl fmt::Display for Any {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.0)
    }
}
