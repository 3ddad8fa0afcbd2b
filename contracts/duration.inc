// TRUSTED stand-in for std's Duration: whole seconds and nanoseconds.
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct Duration { pub s: u64, pub n: u32 }
impl Duration {
    pub fn new(s: u64, n: u32) -> (r: Duration) requires n < 1_000_000_000 ensures r == (Duration { s, n }) { Duration { s, n } }
    pub fn from_secs(s: u64) -> (r: Duration) ensures r == (Duration { s, n: 0 }) { Duration { s, n: 0 } }
    pub fn as_secs(&self) -> (r: u64) ensures r == self.s { self.s }
}
