// A crate with a type Uuid, as far as routers need one.
use std::{fmt, str};
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Uuid(u128);
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct ParseError(String);
impl str::FromStr for Uuid {
    type Err = ParseError;
    fn from_str(s: &str) -> Result<Uuid, ParseError> {
        let err = || ParseError(s.to_string());
        let groups: Vec<usize> = s.split('-').map(|g| g.len()).collect();
        if groups != [32] && groups != [8, 4, 4, 4, 12] {
            return Err(err());
        }
        let digits: String = s.chars().filter(|c| *c != '-').collect();
        if !digits.chars().all(|c| c.is_ascii_hexdigit()) {
            return Err(err());
        }
        u128::from_str_radix(&digits, 16).map(Uuid).map_err(|_| err())
    }
}
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        let s = format!("{:032x}", self.0);
        write!(f, "{}-{}-{}-{}-{}", &s[..8], &s[8..12], &s[12..16], &s[16..20], &s[20..])
    }
}
