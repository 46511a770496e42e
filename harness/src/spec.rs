//! The specification: symbol tables, window zones, field layouts and reference automata.
//! Nothing here looks at the code under verification.

/// (nominal length in us, tolerance in percent) of the symbols of a protocol, in order
pub type Table = &'static [(u64, u64)];

pub const NEC: Table = &[(13500, 7), (11250, 7), (1120, 25), (2250, 12)];
pub const SAMSUNG: Table = &[(9000, 7), (6750, 7), (1120, 25), (2250, 12)];
pub const RC5: Table = &[(889, 12), (1778, 10)];
pub const RC6: Table = &[(444, 12), (888, 12), (1332, 12), (1776, 12), (2220, 12), (2664, 12)];
pub const SBP: Table = &[(9000, 5), (5000, 5), (1000, 10), (2000, 10)];
pub const DENON: Table = &[(5000, 8), (840, 10), (1680, 10)];

const E8: u128 = 100_000_000;

/// N(1-t)+1 <= d <= N(1+t)(1-1/256)-3, N = nominal ticks: `d` must be recognised as this symbol
pub fn inner((p, t): (u64, u64), f: u64, d: u64) -> bool {
    let (n, t, d) = (p as u128 * f as u128, t as u128, d as u128);
    d * E8 >= n * (100 - t) + E8 && (d + 3) * (E8 * 256) <= n * ((100 + t) * 255)
}

/// N(1-t)-N/256-1 <= d <= N(1+t): `d` may be recognised as this symbol
pub fn outer((p, t): (u64, u64), f: u64, d: u64) -> bool {
    let (n, t, d) = (p as u128 * f as u128, t as u128, d as u128);
    (d + 1) * (E8 * 256) >= n * ((100 - t) * 256 - 100) && d * E8 <= n * (100 + t)
}

/// Is `got` an answer that the window specification allows for duration `d` at clock `f`?
pub fn symbol_ok(table: Table, f: u64, d: u64, got: Option<usize>) -> bool {
    match got {
        Some(k) if k < table.len() => {
            // An earlier symbol wins, so it may not have been passed over
            outer(table[k], f, d) && !table[..k].iter().any(|s| inner(*s, f, d))
        }
        // The unused slots of a table are the empty duration
        Some(_) => d == 0,
        None => !table.iter().any(|s| inner(*s, f, d)),
    }
}

/// The symbol that the specification prescribes for `d`, if it prescribes one
pub fn class(table: Table, f: u64, d: u64) -> Result<Option<usize>, ()> {
    let n = table.iter().filter(|s| outer(**s, f, d)).count();
    if n == 0 && d > 0 {
        return Ok(None);
    }
    let k = table.iter().position(|s| inner(*s, f, d)).ok_or(())?;
    // no earlier symbol may claim it
    if table[..k].iter().any(|s| outer(*s, f, d)) {
        return Err(());
    }
    Ok(Some(k))
}

// ---------------------------------------------------------------------------------------------
// Pulse distance protocols: one symbol per mark+space interval

/// State of a frame. `Rx(n)`: header and `n` bits received
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pd {
    Idle,
    Rx(u32),
    Done,
    Repeat,
    Err,
}

/// NEC: `bits` are the bits so far; `valid`: they are the most recent frame, complete
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct NecS {
    pub st: Pd,
    pub bits: u32,
    pub valid: bool,
}

impl NecS {
    /// Bit index in range
    pub fn safe(&self) -> bool {
        !matches!(self.st, Pd::Rx(n) if n > 31)
    }
    pub fn inv(&self) -> bool {
        match self.st {
            Pd::Rx(n) => n <= 31 && (self.bits >> n) == 0 && !self.valid,
            Pd::Done | Pd::Repeat => self.valid,
            _ => true,
        }
    }
    /// Equal as far as later behaviour depends on it
    pub fn same(&self, o: &NecS) -> bool {
        self.st == o.st
            && self.valid == o.valid
            && (self.bits == o.bits || (!self.valid && !matches!(self.st, Pd::Rx(_))))
    }
    /// The required next state; None: the frame has to be abandoned
    pub fn next(&self, sym: Option<usize>) -> Option<NecS> {
        let s = *self;
        match (s.st, sym) {
            (Pd::Idle, Some(0)) => Some(NecS { st: Pd::Rx(0), bits: 0, valid: false }),
            (Pd::Idle, Some(1)) if s.valid => Some(NecS { st: Pd::Repeat, ..s }),
            (Pd::Idle, _) => Some(s),
            (Pd::Rx(n), Some(b @ 2..=3)) => {
                let bits = s.bits | ((b as u32 - 2) << n);
                Some(if n == 31 {
                    NecS { st: Pd::Done, bits, valid: true }
                } else {
                    NecS { st: Pd::Rx(n + 1), bits, valid: false }
                })
            }
            _ => None,
        }
    }
    pub fn reset(&self) -> NecS {
        NecS { st: Pd::Idle, ..*self }
    }
}

/// Denon: header, 48 bits
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct DenonS {
    pub st: Pd,
    pub bits: u64,
}

impl DenonS {
    /// Bit index in range
    pub fn safe(&self) -> bool {
        !matches!(self.st, Pd::Rx(n) if n > 47)
    }
    pub fn inv(&self) -> bool {
        match self.st {
            Pd::Rx(n) => n <= 47 && (self.bits >> n) == 0,
            Pd::Done => self.bits >> 48 == 0,
            Pd::Repeat => false,
            _ => true,
        }
    }
    pub fn same(&self, o: &DenonS) -> bool {
        self.st == o.st && (self.bits == o.bits || matches!(self.st, Pd::Idle | Pd::Err))
    }
    pub fn next(&self, sym: Option<usize>) -> Option<DenonS> {
        let s = *self;
        match (s.st, sym) {
            (Pd::Idle, Some(0)) => Some(DenonS { st: Pd::Rx(0), bits: 0 }),
            (Pd::Idle, _) => Some(s),
            (Pd::Rx(n), Some(b @ 1..=2)) => {
                let bits = s.bits | ((b as u64 - 1) << n);
                Some(DenonS { st: if n == 47 { Pd::Done } else { Pd::Rx(n + 1) }, bits })
            }
            _ => None,
        }
    }
    pub fn reset(&self) -> DenonS {
        DenonS { st: Pd::Idle, bits: 0 }
    }
}

/// Samsung Blu-ray: header, 16 address bits (Rx 0-15), pause (Rx 16), 20 data bits (Rx 17-36)
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct SbpS {
    pub st: Pd,
    pub addr: u16,
    pub cmd: u32,
}

impl SbpS {
    /// Bit index in range
    pub fn safe(&self) -> bool {
        !matches!(self.st, Pd::Rx(n) if n > 36)
    }
    pub fn inv(&self) -> bool {
        match self.st {
            Pd::Idle => self.addr == 0 && self.cmd == 0,
            Pd::Rx(n) if n < 16 => (self.addr >> n) == 0 && self.cmd == 0,
            Pd::Rx(16) => self.cmd == 0,
            Pd::Rx(n) => n <= 36 && (self.cmd >> (n - 17)) == 0,
            Pd::Done => self.cmd >> 20 == 0,
            Pd::Repeat => false,
            Pd::Err => true,
        }
    }
    pub fn same(&self, o: &SbpS) -> bool {
        self.st == o.st && ((self.addr == o.addr && self.cmd == o.cmd) || self.st == Pd::Err)
    }
    pub fn next(&self, sym: Option<usize>) -> Option<SbpS> {
        let mut s = *self;
        match (s.st, sym) {
            (Pd::Idle, Some(0)) => {
                s.st = Pd::Rx(0);
                Some(s)
            }
            (Pd::Idle, _) => Some(s),
            (Pd::Rx(n), Some(b @ 2..=3)) if n < 16 => {
                s.addr |= (b as u16 - 2) << n;
                s.st = Pd::Rx(n + 1);
                Some(s)
            }
            (Pd::Rx(16), Some(1)) => {
                s.st = Pd::Rx(17);
                Some(s)
            }
            (Pd::Rx(n), Some(b @ 2..=3)) if n > 16 => {
                s.cmd |= (b as u32 - 2) << (n - 17);
                s.st = if n == 36 { Pd::Done } else { Pd::Rx(n + 1) };
                Some(s)
            }
            _ => None,
        }
    }
    pub fn reset(&self) -> SbpS {
        SbpS { st: Pd::Idle, addr: 0, cmd: 0 }
    }
}

// ---------------------------------------------------------------------------------------------
// Bi-phase protocols: one symbol per edge. `units` is the pulse length in half-bits / units.

/// RC5. `Data(n)`: the next mid-bit edge is that of bit n. `odd`: odd number of half-bits since the
/// mid-bit edge of the first start bit
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rc5St {
    Idle,
    Data(u32),
    Done,
    Err,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rc5S {
    pub st: Rc5St,
    pub bits: u16,
    pub odd: bool,
}

/// What an edge has to lead to
pub enum Next<S> {
    /// exactly this state
    To(S),
    /// this state, or idle
    Maybe(S),
    /// idle or error
    Abandon,
}

impl Rc5S {
    pub fn start() -> Rc5S {
        Rc5S { st: Rc5St::Data(12), bits: 1 << 13, odd: false }
    }
    /// Bit index in range
    pub fn safe(&self) -> bool {
        !matches!(self.st, Rc5St::Data(n) if n > 12)
    }
    pub fn inv(&self) -> bool {
        match self.st {
            Rc5St::Idle => self.bits == 0,
            Rc5St::Data(n) => {
                n <= 12 && self.bits & ((2 << n) - 1) == 0 && self.bits >> 13 == 1
            }
            Rc5St::Done => self.bits >> 13 == 1,
            Rc5St::Err => true,
        }
    }
    pub fn same(&self, o: &Rc5S) -> bool {
        self.st == o.st
            && (self.bits == o.bits || self.st == Rc5St::Err)
            && (self.odd == o.odd || !matches!(self.st, Rc5St::Data(_)))
    }
    pub fn next(&self, rising: bool, units: Option<usize>) -> Next<Rc5S> {
        let s = *self;
        match (s.st, rising, units) {
            // An idle line, then a mark
            (_, true, None) => Next::To(Rc5S::start()),
            (Rc5St::Idle, true, _) => Next::Maybe(Rc5S::start()),
            (Rc5St::Idle, false, _) => Next::To(s),
            (Rc5St::Data(n), _, Some(u)) => {
                let odd = s.odd ^ (u & 1 == 1);
                Next::To(if odd {
                    Rc5S { odd, ..s }
                } else {
                    let bits = s.bits | ((rising as u16) << n);
                    let st = if n == 0 { Rc5St::Done } else { Rc5St::Data(n - 1) };
                    Rc5S { st, bits, odd }
                })
            }
            _ => Next::Abandon,
        }
    }
}

/// RC6. Leader (6 units mark), 2 units space, start bit and mode bits (`Head(3)`..`Head(0)`),
/// toggle bit (`Trail`), 16 bits (`Data(15)`..`Data(0)`). `odd`: odd number of units since the leader
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Rc6St {
    Idle,
    Lead,
    Pause,
    Head(u32),
    Trail,
    Data(u32),
    Done,
    Err,
}

/// Header bits that do not matter
const ANY: u16 = 0xFFFF;

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Rc6S {
    pub st: Rc6St,
    pub data: u16,
    pub head: u16,
    pub toggle: bool,
    pub odd: bool,
}

impl Rc6S {
    /// Bit index in range
    pub fn safe(&self) -> bool {
        match self.st {
            Rc6St::Head(n) => n <= 3,
            Rc6St::Data(n) => n <= 15,
            _ => true,
        }
    }
    pub fn inv(&self) -> bool {
        match self.st {
            Rc6St::Head(n) => n <= 3 && self.data == 0,
            Rc6St::Data(n) => n <= 15 && self.data & (((2u32 << n) - 1) as u16) == 0,
            Rc6St::Done | Rc6St::Err => true,
            _ => self.data == 0,
        }
    }
    /// Is `self` what `o` requires?
    pub fn same(&self, o: &Rc6S) -> bool {
        use Rc6St::*;
        self.st == o.st
            && (self.head == o.head || o.head == ANY || !matches!(self.st, Lead | Pause | Head(_)))
            && (self.data == o.data || self.st == Err)
            && (self.toggle == o.toggle || !matches!(self.st, Data(_) | Done))
            && (self.odd == o.odd || matches!(self.st, Idle | Done | Err))
    }
    pub fn next(&self, rising: bool, units: Option<usize>) -> Next<Rc6S> {
        use Rc6St::*;
        let s = *self;
        let lead = Rc6S { st: Lead, data: 0, head: 0, toggle: s.toggle, odd: false };
        let odd = s.odd ^ (units.unwrap_or(0) & 1 == 1);
        match (s.st, rising, units) {
            (_, true, None) => Next::To(lead),
            (Idle, true, _) => Next::Maybe(Rc6S { head: ANY, ..lead }),
            (Idle, false, _) => Next::To(s),
            (Lead, false, Some(6)) => Next::To(Rc6S { st: Pause, odd, ..s }),
            (Pause, true, Some(2)) => Next::To(Rc6S { st: Head(3), odd, ..s }),
            (Head(n), _, Some(_)) => {
                let t = if odd {
                    let head = s.head | ((!rising as u16) << n);
                    Rc6S { st: if n == 0 { Trail } else { Head(n - 1) }, head, odd, ..s }
                } else {
                    Rc6S { odd, ..s }
                };
                // Only a start bit 1 and mode 000 are claimed
                let clean = if odd || n < 3 { t.head == 8 } else { t.head == 0 };
                if clean {
                    Next::To(t)
                } else {
                    Next::Maybe(Rc6S { head: ANY, ..t })
                }
            }
            (Trail, false, Some(3)) => Next::To(Rc6S { st: Data(15), toggle: true, odd, ..s }),
            (Trail, true, Some(2)) => Next::To(Rc6S { st: Data(15), toggle: false, odd, ..s }),
            (Trail, false, Some(1)) => Next::To(Rc6S { odd, ..s }),
            (Data(n), _, Some(_)) => Next::To(if odd {
                let data = s.data | ((!rising as u16) << n);
                Rc6S { st: if n == 0 { Done } else { Data(n - 1) }, data, odd, ..s }
            } else {
                Rc6S { odd, ..s }
            }),
            _ => Next::Abandon,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Fields of a frame

/// NEC standard and Samsung: (address, command)
pub fn nec_fields(bits: u32) -> (u8, u8) {
    (bits as u8, (bits >> 16) as u8)
}
/// Apple: (page, command, device)
pub fn apple_fields(bits: u32) -> Option<(u8, u8, u8)> {
    let (mut x, mut ones) = (bits, 0);
    while x != 0 {
        x &= x - 1;
        ones += 1;
    }
    if (bits >> 5) & 0x7FF == 0x43F && ones % 2 == 1 {
        Some(((bits & 31) as u8, ((bits >> 17) & 127) as u8, (bits >> 24) as u8))
    } else {
        None
    }
}
/// (start, toggle, address, command)
pub fn rc5_fields(bits: u16) -> (u8, bool, u8, u8) {
    ((bits >> 12) as u8 & 3, bits >> 11 & 1 == 1, (bits >> 6) as u8 & 31, bits as u8 & 63)
}
/// (command, valid) of the 20 data bits
pub fn sbp_fields(cmd: u32) -> (u8, bool) {
    let c = (cmd >> 4) as u8;
    (c, (cmd >> 12) as u8 == !c)
}
