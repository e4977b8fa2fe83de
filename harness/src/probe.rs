//! Deeply nested inputs, one per process: running out of stack ends the process.
use crate::any::Any;
use serde::de::IgnoredAny;
use ser_write_json::de as jd;
use ser_write_msgpack::de as md;

fn rep(b: &[u8], n: usize) -> Vec<u8> { b.iter().copied().cycle().take(b.len() * n).collect() }
/// Runs one probe; false: no such probe. Printing anything means the call returned.
pub fn probe(what: &str, n: usize) -> bool {
    let (fmt, rest) = what.split_once('-').unwrap_or(("", what));
    let (how, shape) = rest.split_once('-').unwrap_or(("", rest));
    let mut b = match (fmt, shape) {
        ("json", "arrays") => rep(b"[", n), ("json", "objects") => rep(b"{\"a\":", n),
        ("json", "closed") => [rep(b"[", n), rep(b"]", n)].concat(),
        ("msgpack", "arrays") => rep(&[0x91], n), ("msgpack", "maps") => rep(&[0x81, 0xc0], n),
        ("msgpack", "closed") => [rep(&[0x91], n), vec![0xc0]].concat(),
        _ => return false,
    };
    let r = match (fmt, how) {
        ("json", "ignored") => ser_write_json::from_mut_slice::<IgnoredAny>(&mut b).is_ok(),
        ("json", "tree") => ser_write_json::from_mut_slice::<Any>(&mut b).map(std::mem::forget).is_ok(),
        ("json", "typed") => ser_write_json::from_mut_slice::<Vec<Vec<u8>>>(&mut b).is_ok(),
        ("msgpack", "ignored") => ser_write_msgpack::from_slice::<IgnoredAny>(&b).is_ok(),
        ("msgpack", "skip") => md::Deserializer::from_slice(&b).eat_message().is_ok(),
        ("msgpack", "tree") => ser_write_msgpack::from_slice::<Any>(&b).map(std::mem::forget).is_ok(),
        ("msgpack", "typed") => ser_write_msgpack::from_slice::<Vec<Vec<u8>>>(&b).is_ok(),
        _ => return false,
    };
    let _ = jd::Error::UnexpectedEof;
    println!("returned {}", if r { "a value" } else { "an error" });
    true
}
