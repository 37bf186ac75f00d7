//! The options in force for an argument vector (from the documentation: defaults, '--no-defaults', last value wins).
use crate::clean::FLAGS;

pub struct Opts { args: Vec<(String, String)>, pub nodef: bool }

impl Opts {
    pub fn new(a: &[String]) -> Opts {
        let mut args = vec![];
        let mut nodef = false;
        for x in a {
            if x == "--no-defaults" { nodef = true; }
            if let Some((k, v)) = x.strip_prefix("--").and_then(|x| x.split_once('=')) { args.push((k.to_string(), v.to_string())); }
        }
        Opts { args, nodef }
    }
    pub fn val(&self, k: &str) -> Option<&str> { self.args.iter().rev().find(|a| a.0 == k).map(|a| a.1.as_str()) }
    pub fn on(&self, k: &str) -> bool {
        match self.val(k) {
            Some(v) => matches!(v, "true" | "yes" | "y"),
            None => !self.nodef && FLAGS.iter().find(|f| f.0 == k).unwrap_or_else(|| panic!("unknown flag {}", k)).1,
        }
    }
    pub fn prec(&self, k: &str) -> u32 {
        self.val(k).and_then(|v| v.parse().ok()).unwrap_or(match k { "coordinates-precision" | "properties-precision" => 6, _ => 8 })
    }
    pub fn join(&self) -> &str { self.val("join-style-attributes").unwrap_or("some") }
    pub fn indent(&self) -> &str { self.val("indent").unwrap_or("none") }
    pub fn sep(&self) -> &str { self.val("list-separator").unwrap_or("space") }
    /// flags that are on
    pub fn enabled(&self) -> Vec<&'static str> { FLAGS.iter().map(|f| f.0).filter(|f| self.on(f)).collect() }
}
