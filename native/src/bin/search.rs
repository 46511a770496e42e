//! search <property> <seed> <budget ms>: look for a concrete input or history on which the real
//! code (public API only) breaks a property, against the reference automata of `harness::spec`.
//! Exit 1 and the history if there is one.
use harness::lemmas::{rc5_level, rc6_level};
use harness::mono::*;
use harness::spec::*;
use infrared::cmd::AnyCommand;
use infrared::protocol::{denon::*, nec::*, rc5::*, rc6::*, sbp::*};
use infrared::receiver::{DecoderBuilder, MultiReceiver, NoPin, ProtocolDecoder, State};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use infrared::{BufferInputReceiver, PeriodicPoll, Protocol, Receiver};
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------------------------ randomness

pub struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0.wrapping_mul(0x2545_F491_4F6C_DD1D)
    }
    fn below(&mut self, n: u64) -> u64 {
        (self.next() >> 11) % n
    }
    fn flip(&mut self) -> bool {
        self.below(2) == 1
    }
    fn of<T: Copy>(&mut self, v: &[T]) -> T {
        v[self.below(v.len() as u64) as usize]
    }
}

// ----------------------------------------------------------------------- the code under test

/// A result in a form common to all protocols
#[derive(Clone, Copy, PartialEq, Debug)]
enum Got {
    None,
    Err,
    Cmd(u64, bool),
}
/// A command as a number, and its repeat flag
trait Norm {
    fn norm(&self) -> (u64, bool);
}
impl Norm for NecCommand {
    fn norm(&self) -> (u64, bool) {
        (self.addr as u64 | (self.cmd as u64) << 16, self.repeat)
    }
}
impl Norm for SamsungNecCommand {
    fn norm(&self) -> (u64, bool) {
        (self.addr as u64 | (self.cmd as u64) << 16, self.repeat)
    }
}
impl Norm for Nec16Command {
    fn norm(&self) -> (u64, bool) {
        (self.addr as u64 | (self.cmd as u64) << 16, self.repeat)
    }
}
impl Norm for AppleNecCommand {
    fn norm(&self) -> (u64, bool) {
        (self.command_page as u64 | (self.command as u64) << 8 | (self.device_id as u64) << 16, self.repeat)
    }
}
impl Norm for NecDebugCmd {
    fn norm(&self) -> (u64, bool) {
        (self.bits as u64, false)
    }
}
impl Norm for SbpCommand {
    fn norm(&self) -> (u64, bool) {
        (self.address as u64 | (self.command as u64) << 16 | (self.valid as u64) << 32, false)
    }
}
impl Norm for DenonCommand {
    fn norm(&self) -> (u64, bool) {
        (self.bits, false)
    }
}
impl Norm for Rc5Command {
    fn norm(&self) -> (u64, bool) {
        (self.cmd as u64 | (self.addr as u64) << 8 | (self.start as u64) << 16 | (self.toggle as u64) << 24, false)
    }
}
impl Norm for Rc6Command {
    fn norm(&self) -> (u64, bool) {
        (self.cmd as u64 | (self.addr as u64) << 8 | (self.toggle as u64) << 24, false)
    }
}
fn norm<C: Norm, E>(r: Result<Option<C>, E>) -> Got {
    match r {
        Ok(None) => Got::None,
        Err(_) => Got::Err,
        Ok(Some(c)) => {
            let (a, b) = c.norm();
            Got::Cmd(a, b)
        }
    }
}

const NAMES: [&str; 9] = ["Nec", "SamsungNec", "Nec16", "AppleNec", "NecDebug", "Sbp", "Denon", "Rc5", "Rc6"];
const MONOS: [&str; 4] = ["u32", "u64", "fugit u32 1 MHz", "fugit u64 1 MHz"];
type F1 = F32<1_000_000>;
type G1 = F64<1_000_000>;

type Ev = Box<dyn FnMut(bool, u64) -> Got>;
struct DecBox {
    event: Box<dyn FnMut(u8, bool, u64) -> (u8, Got)>,
}
fn dec_of<P: DecoderBuilder<M> + 'static, M: Mono + 'static>(f: u32) -> DecBox
where
    P::Cmd: Norm,
    P::Decoder: 'static,
{
    let mut d = P::build(f);
    DecBox {
        // op 0: event, 1: reset; the status and what command() says
        event: Box::new(move |op, e, t| {
            let s = if op == 0 {
                match d.event(e, M::dur(t)) {
                    State::Idle => 0,
                    State::Receiving => 1,
                    State::Done => 2,
                    State::Error(_) => 3,
                }
            } else {
                d.reset();
                0
            };
            (s, norm::<_, ()>(Ok(d.command())))
        }),
    }
}
fn rx_of<P: DecoderBuilder<M> + 'static, M: Mono + 'static>(f: u32) -> Ev
where
    P::Cmd: Norm,
    P::Decoder: 'static,
{
    let mut r = Receiver::<P, NoPin, M>::new(f);
    Box::new(move |e, t| norm(r.event(M::dur(t), e)))
}
fn at_of<P: DecoderBuilder<M> + 'static, M: Mono + 'static>(f: u32) -> Ev
where
    P::Cmd: Norm,
    P::Decoder: 'static,
    M::Instant: 'static,
{
    let mut r = Receiver::<P, NoPin, M>::new(f);
    Box::new(move |e, t| norm(r.event_instant(M::at(t), e)))
}
fn sym_of<P: DecoderBuilder<M>, M: Mono>(f: u32, d: u64) -> Option<usize> {
    P::build(f).spans().get::<usize>(M::dur(d))
}
fn buf_of<P: DecoderBuilder<M>, M: Mono>(f: u32, b: &[u64], with: bool) -> Vec<Got>
where
    P::Cmd: Norm,
{
    let b: Vec<M::Duration> = b.iter().map(|d| M::dur(*d)).collect();
    let mut v = vec![];
    let mut r = BufferInputReceiver::<P, M>::with_frequenzy(if with { 7 } else { f });
    let mut it = if with { r.iter_with::<P, M, P::Cmd>(f, &b) } else { r.iter(&b) };
    for _ in 0..b.len() + 2 {
        match it.next() {
            Some(c) => v.push(norm::<_, ()>(Ok(Some(c)))),
            None => {
                v.push(Got::None);
                for _ in 0..2 {
                    if it.next().is_some() {
                        v.push(Got::Err);
                    }
                }
                break;
            }
        }
    }
    v
}
fn poll_of<P: DecoderBuilder<u32> + 'static>(f: u32) -> Box<dyn FnMut(bool) -> Got>
where
    P::Cmd: Norm,
    P::Decoder: 'static,
{
    let mut r = PeriodicPoll::<P>::new(f);
    Box::new(move |e| norm(r.poll(e)))
}
#[derive(Clone, Copy)]
struct Pin;
thread_local! { static LOW: Cell<Result<bool, u8>> = const { Cell::new(Ok(false)) }; static ON: Cell<bool> = const { Cell::new(false) }; }
impl embedded_hal::digital::v2::InputPin for Pin {
    type Error = u8;
    fn is_high(&self) -> Result<bool, u8> {
        LOW.with(|l| l.get()).map(|l| !l)
    }
    fn is_low(&self) -> Result<bool, u8> {
        LOW.with(|l| l.get())
    }
}
fn pollpin_of<P: DecoderBuilder<u32> + 'static>(f: u32) -> Box<dyn FnMut(bool) -> Got>
where
    P::Cmd: Norm,
    P::Decoder: 'static,
{
    let mut r = PeriodicPoll::<P, Pin>::with_pin(f, Pin);
    Box::new(move |e| {
        LOW.with(|l| l.set(Ok(e)));
        norm(r.poll())
    })
}
/// Call a generic function for a protocol and time base chosen at run time
macro_rules! pick {
    ($p:expr, $m:expr, $f:ident, $($a:expr),*) => {
        match $m {
            0 => pick!(@ $p, $f, u32, $($a),*),
            1 => pick!(@ $p, $f, u64, $($a),*),
            2 => pick!(@ $p, $f, F1, $($a),*),
            _ => pick!(@ $p, $f, G1, $($a),*),
        }
    };
    (@ $p:expr, $f:ident, $m:ty, $($a:expr),*) => {
        match $p {
            0 => $f::<Nec, $m>($($a),*),
            1 => $f::<SamsungNec, $m>($($a),*),
            2 => $f::<Nec16, $m>($($a),*),
            3 => $f::<AppleNec, $m>($($a),*),
            4 => $f::<NecDebug, $m>($($a),*),
            5 => $f::<Sbp, $m>($($a),*),
            6 => $f::<Denon, $m>($($a),*),
            7 => $f::<Rc5, $m>($($a),*),
            _ => $f::<Rc6, $m>($($a),*),
        }
    };
}
macro_rules! pick32 {
    ($p:expr, $f:ident, $($a:expr),*) => {
        match $p {
            0 => $f::<Nec>($($a),*),
            1 => $f::<SamsungNec>($($a),*),
            2 => $f::<Nec16>($($a),*),
            3 => $f::<AppleNec>($($a),*),
            4 => $f::<NecDebug>($($a),*),
            5 => $f::<Sbp>($($a),*),
            6 => $f::<Denon>($($a),*),
            7 => $f::<Rc5>($($a),*),
            _ => $f::<Rc6>($($a),*),
        }
    };
}

// ------------------------------------------------------------------------------- the reference

fn table(p: usize) -> Table {
    match p {
        1 => SAMSUNG,
        0..=4 => NEC,
        5 => SBP,
        6 => DENON,
        7 => RC5,
        _ => RC6,
    }
}
fn biphase(p: usize) -> bool {
    p >= 7
}
/// What a complete frame `w` has to be reported as; None: nothing
fn expect(p: usize, w: u64) -> Option<u64> {
    let b = w as u32;
    Some(match p {
        0 | 1 => {
            let (a, c) = nec_fields(b);
            a as u64 | (c as u64) << 16
        }
        2 => w & 0xFF_FFFF,
        3 => {
            let (page, cmd, dev) = apple_fields(b)?;
            page as u64 | (cmd as u64) << 8 | (dev as u64) << 16
        }
        4 => w,
        5 => {
            let (c, v) = sbp_fields((w >> 16) as u32);
            (w & 0xFFFF) | (c as u64) << 16 | (v as u64) << 32
        }
        6 => w,
        7 => {
            let (s, t, a, c) = rc5_fields(w as u16);
            c as u64 | (a as u64) << 8 | (s as u64) << 16 | (t as u64) << 24
        }
        _ => (w & 0xFF) | (w >> 8 & 0xFF) << 8 | (w >> 16 & 1) << 24,
    })
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Spec {
    /// the flag: what is remembered is not known
    Nec(NecS, bool),
    Sbp(SbpS),
    Denon(DenonS),
    Rc5(Rc5S),
    Rc6(Rc6S),
    Unknown,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Out {
    None,
    /// nothing or an error
    Abandon,
    /// a command; the frame
    Cmd(u64),
    Repeat(u64),
    /// anything
    Any,
    AnyRepeat,
}
fn fresh(p: usize) -> Spec {
    match p {
        0..=4 => Spec::Nec(NecS { st: Pd::Idle, bits: 0, valid: false }, false),
        5 => Spec::Sbp(SbpS { st: Pd::Idle, addr: 0, cmd: 0 }),
        6 => Spec::Denon(DenonS { st: Pd::Idle, bits: 0 }),
        7 => Spec::Rc5(Rc5S { st: Rc5St::Idle, bits: 0, odd: false }),
        _ => Spec::Rc6(Rc6S { st: Rc6St::Idle, data: 0, head: 0, toggle: false, odd: false }),
    }
}
fn idle(p: usize) -> Spec {
    match fresh(p) {
        Spec::Nec(s, _) => Spec::Nec(s, true),
        s => s,
    }
}
/// What may follow when an interval or pulse with symbol `sym` is seen
fn after(p: usize, s: Spec, rising: bool, sym: Option<usize>) -> Vec<(Spec, Out)> {
    let fr = fresh(p);
    let mut v = vec![];
    match s {
        Spec::Unknown => v.push((if sym.is_none() { idle(p) } else { s }, Out::Any)),
        Spec::Nec(s, free) => {
            if free && s.st == Pd::Idle && sym == Some(1) {
                return vec![(Spec::Nec(s, true), Out::AnyRepeat)];
            }
            match s.next(sym) {
                Some(e) => match e.st {
                    Pd::Done => v.push((Spec::Nec(e.reset(), false), Out::Cmd(e.bits as u64))),
                    Pd::Repeat => v.push((Spec::Nec(e.reset(), false), Out::Repeat(e.bits as u64))),
                    _ => v.push((Spec::Nec(e, free && sym != Some(0)), Out::None)),
                },
                None => v.push((fr, Out::Abandon)),
            }
        }
        Spec::Sbp(s) => match s.next(sym) {
            Some(e) if e.st == Pd::Done => v.push((fr, Out::Cmd(e.addr as u64 | (e.cmd as u64) << 16))),
            Some(e) => v.push((Spec::Sbp(e), Out::None)),
            None => v.push((fr, Out::Abandon)),
        },
        Spec::Denon(s) => match s.next(sym) {
            Some(e) if e.st == Pd::Done => v.push((fr, Out::Cmd(e.bits))),
            Some(e) => v.push((Spec::Denon(e), Out::None)),
            None => v.push((fr, Out::Abandon)),
        },
        Spec::Rc5(s) => match s.next(rising, sym.map(|k| k + 1)) {
            Next::To(e) if e.st == Rc5St::Done => v.push((fr, Out::Cmd(e.bits as u64))),
            Next::To(e) => v.push((Spec::Rc5(e), Out::None)),
            Next::Maybe(e) => v.extend([(Spec::Rc5(e), Out::None), (fr, Out::Abandon)]),
            Next::Abandon => v.push((fr, Out::Abandon)),
        },
        Spec::Rc6(s) => match s.next(rising, sym.map(|k| k + 1)) {
            Next::To(e) if e.st == Rc6St::Done => v.push((fr, Out::Cmd(e.data as u64 | (e.toggle as u64) << 16))),
            Next::To(e) => v.push((Spec::Rc6(e), Out::None)),
            Next::Maybe(e) => v.extend([(Spec::Rc6(e), Out::None), (fr, Out::Abandon)]),
            Next::Abandon => v.push((fr, Out::Abandon)),
        },
    }
    v
}

#[derive(Clone)]
struct Model {
    p: usize,
    f: u64,
    max: u64,
    cands: Vec<Spec>,
    mark: Option<u64>,
}
impl Model {
    fn new(p: usize, f: u32, mono: usize) -> Model {
        Model { p, f: f as u64, max: if mono % 2 == 0 { u32::MAX as u64 } else { u64::MAX }, cands: vec![fresh(p)], mark: Some(0) }
    }
    fn syms(&self, d: u64) -> Vec<Option<usize>> {
        let t = table(self.p);
        let mut v: Vec<_> = (0..t.len()).map(Some).filter(|k| symbol_ok(t, self.f, d, *k)).collect();
        if symbol_ok(t, self.f, d, None) || d == 0 {
            v.push(None);
        }
        v
    }
    /// The decoder is reset
    fn reset(&mut self) {
        for s in &mut self.cands {
            *s = match *s {
                Spec::Nec(s, free) => Spec::Nec(s.reset(), free),
                _ => idle(self.p),
            };
        }
        self.mark = Some(0);
    }
    /// The states and answers that are right for this edge
    fn next(&mut self, rising: bool, d: u64) -> Vec<(Spec, Out)> {
        let d = d.min(self.max);
        let mut all = vec![];
        if biphase(self.p) {
            for sy in self.syms(d) {
                for s in &self.cands {
                    all.extend(after(self.p, *s, rising, sy));
                }
            }
        } else if !rising {
            self.mark = Some(d);
            all = self.cands.iter().map(|s| (*s, if *s == Spec::Unknown { Out::Any } else { Out::None })).collect();
        } else if let Some(m) = self.mark.take() {
            let sum = m.saturating_add(d).min(self.max);
            for sy in self.syms(sum) {
                for s in &self.cands {
                    all.extend(after(self.p, *s, rising, sy));
                }
            }
        } else {
            // a rising edge that no mark came before
            all.push((Spec::Unknown, Out::Any));
        }
        all
    }
}
fn fits(p: usize, o: Out, g: Got) -> bool {
    match (o, g) {
        (Out::Any, _) => true,
        (Out::None, Got::None) | (Out::Abandon, Got::None | Got::Err) => true,
        // errors in addition are only looked at where they lose a frame
        (Out::None, Got::Err) => true,
        (Out::Cmd(w), g) => match (expect(p, w), g) {
            (Some(c), Got::Cmd(x, rep)) => c == x && !rep,
            (None, Got::None) => true,
            _ => false,
        },
        (Out::Repeat(w), g) => match (expect(p, w), g) {
            (Some(c), Got::Cmd(x, rep)) => c == x && (rep || p == 4),
            (None, Got::None) => true,
            _ => false,
        },
        (Out::AnyRepeat, Got::None) => true,
        (Out::AnyRepeat, Got::Cmd(_, rep)) => rep || p == 4,
        _ => false,
    }
}

// ------------------------------------------------------------------------------------ histories

type Edge = (bool, u64);
/// A way of choosing a length inside a window
#[derive(Clone, Copy, PartialEq)]
enum Place {
    Mid,
    Low,
    High,
    Rand,
}
fn dur(rng: &mut Rng, p: usize, k: usize, f: u32, pl: Place) -> u64 {
    let (us, t) = table(p)[k];
    let n = us as u128 * f as u128;
    let (f64, e6) = (f as u64, 1_000_000u128);
    let mid = ((n + e6 / 2) / e6) as u64;
    let lo = (n * (100 - t as u128)).div_ceil(e6 * 100) as u64 + 1;
    let hi = ((n * (100 + t as u128) * 255) / (e6 * 100 * 256)).saturating_sub(3) as u64;
    let d = match pl {
        Place::Mid => mid,
        _ if lo > hi => mid,
        Place::Low => lo,
        Place::High => hi,
        Place::Rand => lo + rng.below(hi - lo + 1),
    };
    if class(table(p), f64, d) == Ok(Some(k)) {
        d
    } else {
        mid
    }
}
const PLACES: [Place; 4] = [Place::Mid, Place::Low, Place::High, Place::Rand];
fn longest(p: usize, f: u32) -> u64 {
    table(p).iter().map(|s| s.0 * (100 + s.1) * f as u64 / 100_000_000).max().unwrap() + 10
}
/// Idle time: leaves the level at mark
fn gap(rng: &mut Rng, p: usize, f: u32, h: &mut Vec<Edge>) {
    let last = h.last().map_or(false, |e| e.0);
    let g = longest(p, f) * (1 + rng.below(3)) + rng.below(1000);
    if biphase(p) {
        if last {
            h.push((false, dur(rng, p, 0, f, Place::Mid)));
        }
        h.push((true, g));
    } else {
        if last || h.is_empty() {
            h.push((false, f as u64 * 560 / 1_000_000));
        }
        h.push((true, g));
    }
}
/// One interval of a pulse distance protocol
fn interval(rng: &mut Rng, total: u64, h: &mut Vec<Edge>) {
    if !h.last().map_or(true, |e| e.0) {
        h.push((true, 0));
    }
    let hi = match rng.below(6) {
        0 => 0,
        1 => total,
        2 => rng.below(total + 1),
        _ => total / 3,
    };
    h.push((false, hi));
    h.push((true, total - hi));
}
fn bits_of(p: usize) -> u32 {
    match p {
        0..=4 => 32,
        5 => 36,
        6 => 48,
        7 => 14,
        _ => 17,
    }
}
fn word(rng: &mut Rng, p: usize) -> u64 {
    let m = (1u64 << bits_of(p)) - 1;
    let w = match rng.below(8) {
        0 => 0,
        1 => m,
        2 => 0xAAAA_AAAA_AAAA_AAAA & m,
        3 => 0x5555_5555_5555_5555 & m,
        _ => rng.next() & m,
    };
    match p {
        3 if rng.below(4) > 0 => {
            let w = (w as u32 & !0xFFE0) | 0x43F << 5;
            (w ^ if w.count_ones() % 2 == 0 { 1 << 16 } else { 0 }) as u64
        }
        5 if rng.flip() => (w & 0xFFF_FFFF) | (!(w >> 20) & 0xFF) << 28,
        7 => w | 1 << 13,
        _ => w,
    }
}
/// Symbols (pulse distance) or units (bi-phase, after the first edge) of a frame
fn frame(p: usize, w: u64) -> Vec<usize> {
    let lvl = |n: usize, first: usize, l: &dyn Fn(usize) -> bool| {
        let (mut v, mut last) = (vec![], first);
        for h in first + 1..n {
            if l(h) != l(h - 1) {
                v.push(h - last - 1);
                last = h;
            }
        }
        v
    };
    match p {
        0..=4 => [0].into_iter().chain((0..32).map(|i| 2 + (w >> i & 1) as usize)).collect(),
        5 => [0]
            .into_iter()
            .chain((0..16).map(|i| 2 + (w >> i & 1) as usize))
            .chain([1])
            .chain((16..36).map(|i| 2 + (w >> i & 1) as usize))
            .collect(),
        6 => [0].into_iter().chain((0..48).map(|i| 1 + (w >> i & 1) as usize)).collect(),
        7 => lvl(28, 1, &|h| rc5_level(w as u16, h)),
        _ => lvl(52, 0, &|h| rc6_level(w as u16, w >> 16 & 1 == 1, h)),
    }
}
/// The first `n` parts of a frame; the start edge of a bi-phase frame is that of the gap
fn send(rng: &mut Rng, p: usize, f: u32, syms: &[usize], pl: Option<Place>, h: &mut Vec<Edge>) {
    for k in syms {
        let place = pl.unwrap_or_else(|| rng.of(&PLACES));
        let d = dur(rng, p, *k, f, place);
        if biphase(p) {
            let r = !h.last().map_or(false, |e| e.0);
            h.push((r, d));
        } else {
            interval(rng, d, h);
        }
    }
}
const BADS: u64 = 16;
/// Something that is not the continuation of a frame
fn bad(rng: &mut Rng, p: usize, f: u32, kind: u64, h: &mut Vec<Edge>) {
    let r = !h.last().map_or(false, |e| e.0);
    let n = table(p).len() as u64;
    let total = match kind {
        0 => return,
        1 => 1,
        2 => 0,
        3 => u32::MAX as u64,
        4 => u64::MAX,
        5 => longest(p, f),
        6 => {
            h.push((r, rng.below(longest(p, f))));
            return;
        }
        7 => {
            // the same edge again
            h.push((!r, rng.below(longest(p, f))));
            return;
        }
        14 | 15 if !biphase(p) => {
            // an interval that would be a symbol if the sum of its halves wrapped around
            let k = rng.below(n) as usize;
            let d = dur(rng, p, k, f, Place::Mid);
            let a = d + 1 + rng.below(1000);
            if !r {
                h.push((true, longest(p, f)));
            }
            h.push((false, a));
            h.push((true, (if kind == 14 { u32::MAX as u64 } else { u64::MAX }) - a + 1 + d));
            return;
        }
        k if k - 8 < n => dur(rng, p, (k - 8) as usize, f, Place::Mid),
        _ => rng.below(longest(p, f)),
    };
    if biphase(p) {
        h.push((r, total));
    } else if total > u32::MAX as u64 / 2 {
        if !r {
            h.push((false, rng.below(1 << 32)));
        }
        h.push((true, total));
    } else {
        interval(rng, total, h);
    }
}
fn clocks(p: usize) -> &'static [u32] {
    if p == 8 {
        &[1_000_000, 40_000, 44_100, 100_000, 8_000_000, 48_000_000]
    } else {
        &[1_000_000, 20_000, 40_000, 44_100, 100_000, 8_000_000, 48_000_000, 84_000_000]
    }
}
fn random(rng: &mut Rng, p: usize, f: u32) -> Vec<Edge> {
    let mut h = vec![];
    for _ in 0..1 + rng.below(6) {
        match rng.below(9) {
            0..=2 => {
                if rng.below(5) > 0 {
                    gap(rng, p, f, &mut h);
                }
                let w = word(rng, p);
                send(rng, p, f, &frame(p, w), None, &mut h);
            }
            3..=4 => {
                gap(rng, p, f, &mut h);
                let s = frame(p, word(rng, p));
                let n = rng.below(s.len() as u64 + 1) as usize;
                send(rng, p, f, &s[..n], None, &mut h);
                let k = rng.below(BADS);
                bad(rng, p, f, k, &mut h);
                if rng.flip() {
                    // and the rest of it
                    send(rng, p, f, &s[n..], None, &mut h);
                }
            }
            5 if p < 5 => {
                if rng.flip() {
                    gap(rng, p, f, &mut h);
                }
                send(rng, p, f, &[1], None, &mut h);
            }
            6 => {
                for _ in 0..rng.below(40) {
                    let k = rng.below(table(p).len() as u64) as usize;
                    send(rng, p, f, &[k], None, &mut h);
                }
            }
            7 => {
                for _ in 0..rng.below(20) {
                    let d = match rng.below(4) {
                        0 => rng.next(),
                        1 => rng.next() >> 32,
                        _ => rng.below(longest(p, f)),
                    };
                    h.push((rng.flip(), d));
                }
                gap(rng, p, f, &mut h);
            }
            _ => {
                let k = rng.below(BADS);
                bad(rng, p, f, k, &mut h);
            }
        }
    }
    gap(rng, p, f, &mut h);
    let w = word(rng, p);
    send(rng, p, f, &frame(p, w), None, &mut h);
    if p < 5 {
        gap(rng, p, f, &mut h);
        send(rng, p, f, &[1, 1], None, &mut h);
    }
    h
}
/// Every prefix length of a frame, with every kind of disturbance
fn systematic(rng: &mut Rng, p: usize, f: u32, out: &mut dyn FnMut(&[Edge]) -> bool) -> bool {
    let len = if biphase(p) { 46 } else { frame(p, 0).len() };
    for n in 0..=len {
        for kind in 0..BADS {
            for v in 0..8 {
                let mut h = vec![];
                if v & 1 == 1 {
                    gap(rng, p, f, &mut h);
                    let w = word(rng, p);
                    send(rng, p, f, &frame(p, w), Some(Place::Mid), &mut h);
                }
                gap(rng, p, f, &mut h);
                let s = frame(p, word(rng, p));
                if n > s.len() {
                    continue;
                }
                send(rng, p, f, &s[..n], None, &mut h);
                bad(rng, p, f, kind, &mut h);
                if v & 4 == 4 {
                    // the rest of the frame
                    send(rng, p, f, &s[n..], None, &mut h);
                }
                if v & 2 == 2 {
                    if p < 5 {
                        gap(rng, p, f, &mut h);
                        send(rng, p, f, &[1], Some(Place::Mid), &mut h);
                    }
                    gap(rng, p, f, &mut h);
                    let w = word(rng, p);
                    send(rng, p, f, &frame(p, w), None, &mut h);
                } else if p < 5 {
                    send(rng, p, f, &[1], Some(Place::Mid), &mut h);
                }
                if p < 5 {
                    gap(rng, p, f, &mut h);
                    send(rng, p, f, &[1], Some(Place::Mid), &mut h);
                }
                if !out(&h) {
                    return false;
                }
            }
        }
    }
    true
}

// ------------------------------------------------------------------------------------- verdicts

struct Ctx {
    prop: String,
    rng: Rng,
    end: Instant,
    cases: u64,
    events: u64,
    commands: u64,
    sample: String,
}
fn show(h: &[Edge]) -> String {
    h.iter().map(|(r, d)| format!("{}{}", if *r { "+" } else { "-" }, d)).collect::<Vec<_>>().join(" ")
}
fn fail(c: &Ctx, text: String) -> ! {
    println!("{} does not hold:", c.prop);
    println!("{text}");
    println!("(edges: + rising, the mark begins; - falling, the mark ends; then the ticks since the previous edge)");
    stats(c);
    std::process::exit(1);
}
fn stats(c: &Ctx) {
    println!(
        "STATS {{\"cases\": {}, \"events\": {}, \"commands_decoded\": {}, \"sample\": {:?}}}",
        c.cases, c.events, c.commands, c.sample
    );
}
fn quiet<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}
thread_local! { static PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

const OWN: [&str; 9] = ["C02", "C02", "C02", "C02", "C02", "C04", "C05", "C06", "C07"];

/// The properties that a history shows to be broken, with a description
/// `cuts`: before these edges the decoder is reset
fn judge(p: usize, mono: usize, f: u32, h: &[Edge], cuts: &[usize], ev: &mut u64, cmds: &mut u64) -> Option<(Vec<&'static str>, String)> {
    let mut rx = match quiet(|| pick!(p, mono, rx_of, f)) {
        Ok(r) => r,
        Err(e) => return Some((vec!["C01"], format!("creating the receiver panics: {e}"))),
    };
    // a bare decoder, and a new one at each reset
    let mut dec = (!cuts.is_empty()).then(|| pick!(p, mono, dec_of, f));
    let mut new = None;
    let feed = |a: &mut DecBox, r: bool, d: u64| match (a.event)(0, r, d) {
        (2, g) => {
            (a.event)(1, false, 0);
            g
        }
        (3, _) => {
            (a.event)(1, false, 0);
            Got::Err
        }
        _ => Got::None,
    };
    let mut m = Model::new(p, f, mono);
    // a command where there is none, seen before
    let mut early: Option<(Vec<&'static str>, String)> = None;
    for (i, (r, d)) in h.iter().enumerate() {
        let mut fresh_says = None;
        if cuts.contains(&i) {
            (dec.as_mut().unwrap().event)(1, false, 0);
            new = Some(pick!(p, mono, dec_of, f));
            m.reset();
        }
        if let Some(n) = &mut new {
            fresh_says = quiet(|| feed(n, *r, *d)).ok();
        }
        let g = match quiet(|| if let Some(a) = &mut dec { feed(a, *r, *d) } else { rx(*r, *d) }) {
            Ok(g) => g,
            Err(e) => return Some((vec!["C01"], format!("edge {i} panics: {e}\nhistory: {}", show(&h[..=i])))),
        };
        *ev += 1;
        let before = m.cands.clone();
        let all = m.next(*r, *d);
        let ok: Vec<_> = all.iter().filter(|(_, o)| fits(p, *o, g)).cloned().collect();
        if let Got::Cmd(..) = g {
            *cmds += 1;
        }
        if ok.is_empty() {
            let rep = all.iter().any(|(_, o)| matches!(o, Out::Repeat(_) | Out::AnyRepeat));
            let cmd = all.iter().any(|(_, o)| matches!(o, Out::Cmd(_)));
            let mut props = vec![];
            match g {
                Got::Cmd(_, true) => props.push("C03"),
                _ if rep => props.push("C03"),
                Got::Cmd(..) if cmd => {
                    props.push(OWN[p]);
                    // does it depend on what came before?
                    let cut = (0..i).rev().find(|j| h[*j].0 && h[*j].1 >= longest(p, f));
                    if let Some(j) = cut {
                        let mut rx = pick!(p, mono, rx_of, f);
                        let last = h[j..=i].iter().map(|(r, d)| quiet(|| rx(*r, *d)).unwrap_or(Got::Err)).last();
                        if all.iter().any(|(_, o)| fits(p, *o, last.unwrap())) {
                            props.push("C08");
                        }
                    }
                }
                Got::Cmd(..) => props.push("C08"),
                _ => props.push(OWN[p]),
            }
            if fresh_says.is_some_and(|n| n != g) {
                props.push("C18");
            }
            let want: Vec<_> = all.iter().map(|(_, o)| *o).collect();
            let reset = cuts.iter().filter(|c| **c <= i).map(|c| format!("\nthe decoder is reset before edge {c}")).collect::<String>();
            let text = (
                props,
                format!(
                    "edge {i} returns {g:x?}, right would be {want:x?} (as a frame word; {:x?}){reset}\nreference state before: {before:?}\nhistory: {}",
                    want.iter().map(|o| if let Out::Cmd(w) | Out::Repeat(w) = o { expect(p, *w) } else { None }).collect::<Vec<_>>(),
                    show(&h[..=i])
                ),
            );
            match early {
                Some((mut q, t)) => {
                    // the frame that is under way then is not decoded either
                    if cmd && all.iter().all(|(_, o)| matches!(o, Out::Cmd(_))) {
                        q.push(OWN[p]);
                        return Some((q, format!("{t}\nand then {}", text.1)));
                    }
                    early = Some((q, t));
                    m.cands = all.into_iter().map(|(s, _)| s).collect();
                    continue;
                }
                None if matches!(g, Got::Cmd(_, false)) && !cmd && !rep => {
                    early = Some(text);
                    m.cands = all.into_iter().map(|(s, _)| s).collect();
                    continue;
                }
                None => return Some(text),
            }
        }
        m.cands = vec![];
        for (s, _) in ok {
            if !m.cands.contains(&s) {
                m.cands.push(s);
            }
        }
    }
    early
}
fn check(c: &mut Ctx, p: usize, mono: usize, f: u32, h: &[Edge]) {
    check_cut(c, p, mono, f, h, &[])
}
/// Where decoders are reset in a history: anywhere, often in the middle of an interval
fn cuts_of(rng: &mut Rng, h: &[Edge]) -> Vec<usize> {
    (0..1 + rng.below(3))
        .map(|_| {
            let i = rng.below(h.len() as u64) as usize;
            if rng.flip() {
                return i;
            }
            (i..h.len()).find(|j| h[*j].0).unwrap_or(i)
        })
        .collect()
}
fn check_cut(c: &mut Ctx, p: usize, mono: usize, f: u32, h: &[Edge], cuts: &[usize]) {
    c.cases += 1;
    let r = judge(p, mono, f, h, cuts, &mut c.events, &mut c.commands);
    if c.sample.is_empty() && c.commands > 0 {
        c.sample = format!("{} {} {f} Hz: {}", NAMES[p], MONOS[mono], show(h));
    }
    if let Some((props, text)) = r {
        if props.contains(&c.prop.as_str()) {
            fail(c, format!("{} receiver, {} time base, {f} Hz\n{text}", NAMES[p], MONOS[mono]));
        }
    }
}
fn decoders(c: &mut Ctx, ps: &[usize]) {
    // systematic, 1 MHz first
    let mut rng = Rng(c.rng.next() | 1);
    let half = Instant::now() + (c.end - Instant::now()) / 2;
    'sys: for (mono, f) in [(0, 1_000_000), (1, 40_000), (2, 1_000_000), (0, 8_000_000)] {
        for p in ps {
            if !systematic(&mut rng, *p, f, &mut |h| {
                check(c, *p, mono, f, h);
                Instant::now() < half
            }) {
                break 'sys;
            }
        }
    }
    while Instant::now() < c.end {
        for p in ps {
            let f = if rng.below(3) == 0 {
                (if *p == 8 { 40_000 } else { 20_000 }) + rng.below(50_000_000) as u32
            } else {
                rng.of(clocks(*p))
            };
            let mono = rng.below(4) as usize;
            let f = if mono > 1 { 1_000_000 } else { f };
            let h = random(&mut rng, *p, f);
            let cuts = if rng.below(4) == 0 { cuts_of(&mut rng, &h) } else { vec![] };
            check_cut(c, *p, mono, f, &h, &cuts);
        }
    }
}

/// Extreme clocks, durations and instants; only panics count
fn c01(c: &mut Ctx) {
    let mut rng = Rng(c.rng.next() | 1);
    let fs = [0, 1, 2, 255, 1000, 32_768, 10_000_000, 16_777_216, 100_000_000, 318_000_000, 477_218_589, 1 << 31, u32::MAX - 1, u32::MAX];
    let mut round = 0u64;
    while Instant::now() < c.end {
        for p in 0..9 {
            let f = if round < fs.len() as u64 { fs[round as usize] } else { rng.next() as u32 >> rng.below(32) };
            let mono = rng.below(4) as usize;
            let f2 = if mono > 1 { 1_000_000 } else { f };
            let h: Vec<Edge> = if rng.flip() && f2 >= 1000 {
                random(&mut rng, p, f2)
            } else {
                (0..1 + rng.below(60))
                    .map(|i| {
                        let d = match rng.below(6) {
                            0 => 0,
                            1 => u32::MAX as u64 - rng.below(3),
                            2 => u64::MAX - rng.below(3),
                            3 => rng.next() >> 32,
                            _ => dur(&mut rng, p, (i as usize * 7) % table(p).len(), f2, Place::Mid),
                        };
                        (if rng.below(5) == 0 { rng.flip() } else { i % 2 == 0 }, d)
                    })
                    .collect()
            };
            c.cases += 1;
            let r = quiet(|| {
                let mut rx = pick!(p, mono, rx_of, f2);
                for (r, d) in &h {
                    rx(*r, *d);
                }
                let mut rx = pick!(p, mono, at_of, f2);
                for (r, d) in &h {
                    rx(*r, *d);
                }
                let mut rx = pick32!(p, poll_of, f2);
                for (r, d) in &h {
                    for _ in 0..d % 50 {
                        rx(*r);
                    }
                }
                let b: Vec<u64> = h.iter().map(|e| e.1).collect();
                pick!(p, mono, buf_of, f2, &b, rng.flip());
            });
            c.events += 3 * h.len() as u64;
            if let Err(e) = r {
                fail(c, format!("{} receiver, {} time base, {f2} Hz panics: {e}\nfed as durations, as instants, as polls (duration mod 50) and as a buffer: {}", NAMES[p], MONOS[mono], show(&h)));
            }
        }
        round += 1;
    }
}

fn c09(c: &mut Ctx) {
    let mut rng = Rng(c.rng.next() | 1);
    while Instant::now() < c.end {
        for p in 0..9 {
            for mono in 0..2 {
                let f = match rng.below(3) {
                    0 => rng.of(clocks(p)),
                    1 => rng.next() as u32 >> rng.below(32),
                    _ => rng.below(400_000_000) as u32,
                };
                let (us, t) = rng.of(table(p));
                let n = us as u128 * f as u128;
                let edge = match rng.below(3) {
                    0 => n * (100 - t as u128) / 100_000_000,
                    1 => n * (100 + t as u128) / 100_000_000,
                    _ => n / 1_000_000,
                } as u64;
                let span = 8 + edge / 128;
                let d = match rng.below(4) {
                    0 => edge,
                    1 => rng.next() as u32 as u64,
                    _ => edge.saturating_sub(span / 2) + rng.below(span),
                };
                if mono == 0 && d > u32::MAX as u64 {
                    continue;
                }
                c.cases += 1;
                match quiet(|| pick!(p, mono, sym_of, f, d)) {
                    Ok(g) => {
                        if !symbol_ok(table(p), f as u64, d, g) {
                            fail(c, format!("{} decoder, {} time base, {f} Hz: a pulse of {d} ticks is recognised as symbol {g:?} of {:?} (us, percent)", NAMES[p], MONOS[mono], table(p)));
                        }
                        c.commands += g.is_some() as u64;
                    }
                    Err(e) => fail(c, format!("{} decoder, {f} Hz: {e}", NAMES[p])),
                }
            }
        }
    }
}

// ------------------------------------------------------------------------------ round trips

fn trips<P, const F: u32>(c: &mut Ctx, name: &str, all: &mut dyn Iterator<Item = <P as Protocol>::Cmd>)
where
    P: ProtocolEncoder<F> + DecoderBuilder<u32>,
    <P as Protocol>::Cmd: PartialEq + Norm + core::fmt::Debug,
{
    let mut b = [0u32; 80];
    for cmd in all {
        c.cases += 1;
        let r = quiet(|| {
            b = [0; 80];
            let n = P::encode(&cmd, &mut b);
            let mut rx = Receiver::<P, NoPin, u32>::new(F);
            let mut got = vec![];
            for i in 0..n {
                match rx.event(b[i], i % 2 == 0) {
                    Ok(None) => {}
                    Ok(Some(x)) => got.push(x),
                    Err(_) => return (n, got, true),
                }
            }
            (n, got, false)
        });
        match r {
            Ok((n, got, err)) => {
                c.events += n as u64;
                c.commands += got.len() as u64;
                if err || got.len() != 1 || got[0] != cmd {
                    fail(c, format!("{name} at {F} Hz: {cmd:?} is encoded as {:?}\nand decoded as {got:?}{}", &b[..n], if err { ", with an error" } else { "" }));
                }
            }
            Err(e) => fail(c, format!("{name} at {F} Hz: {cmd:?}: {e}")),
        }
    }
}
macro_rules! at_clocks {
    ($c:expr, $name:literal, $p:ty, $it:expr, $($f:literal)*) => { $( trips::<$p, $f>($c, $name, &mut $it); )* };
}
fn c10(c: &mut Ctx) {
    let rc6 = || (0..1u32 << 17).map(|w| Rc6Command { addr: (w >> 8) as u8, cmd: w as u8, toggle: w >> 16 == 1 });
    let rc5 = || (0..1u32 << 13).map(|w| Rc5Command { addr: (w >> 6) as u8 & 31, cmd: w as u8 & 63, start: 2 + (w >> 12) as u8, toggle: w >> 11 & 1 == 1 });
    at_clocks!(c, "Rc6", Rc6, rc6(), 40_000 44_100 100_000 1_000_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Rc6", Rc6, rc6(), 9_000_000);
    at_clocks!(c, "Rc5", Rc5, rc5(), 20_000 25_000 32_768 38_000 40_000 44_100 48_000 56_000 100_000 1_000_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Rc5", Rc5, rc5(), 8_000_000 9_600_000 48_000_000 84_000_000 200_000_000 400_000_000);
    let nec = |s: u32| (0..1u32 << 16).step_by(s as usize).map(|w| NecCommand { addr: (w >> 8) as u8, cmd: w as u8, repeat: false });
    let sam = |s: u32| (0..1u32 << 16).step_by(s as usize).map(|w| SamsungNecCommand { addr: (w >> 8) as u8, cmd: w as u8, repeat: false });
    let n16 = |s: u32| (0..1u32 << 24).step_by(s as usize).map(|w| Nec16Command { addr: (w >> 8) as u16, cmd: w as u8, repeat: false });
    let raw = |s: u64| (0..1u64 << 32).step_by(s as usize).map(|w| NecDebugCmd { bits: w as u32 });
    at_clocks!(c, "Nec", Nec, nec(1), 1_000_000);
    at_clocks!(c, "SamsungNec", SamsungNec, sam(1), 1_000_000);
    at_clocks!(c, "Nec16", Nec16, n16(251), 1_000_000);
    at_clocks!(c, "NecDebug", NecDebug, raw(65_521), 1_000_000);
    at_clocks!(c, "Nec", Nec, nec(37), 20_000 25_000 32_768 38_000 40_000 44_100 48_000 56_000 100_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Nec", Nec, nec(37), 8_000_000 9_600_000 48_000_000 84_000_000 200_000_000 400_000_000);
    at_clocks!(c, "SamsungNec", SamsungNec, sam(41), 20_000 25_000 32_768 38_000 40_000 44_100 48_000 56_000 100_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "SamsungNec", SamsungNec, sam(41), 8_000_000 9_600_000 48_000_000 84_000_000 200_000_000 400_000_000);
    at_clocks!(c, "Nec16", Nec16, n16(9973), 20_000 25_000 32_768 38_000 40_000 44_100 48_000 56_000 100_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Nec16", Nec16, n16(9973), 8_000_000 9_600_000 48_000_000 84_000_000 200_000_000 400_000_000);
    at_clocks!(c, "NecDebug", NecDebug, raw(2_097_143), 20_000 25_000 32_768 38_000 40_000 44_100 48_000 56_000 100_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "NecDebug", NecDebug, raw(2_097_143), 8_000_000 9_600_000 48_000_000 84_000_000 200_000_000 400_000_000);
    at_clocks!(c, "Rc6", Rc6, rc6().step_by(7), 41_000 48_000 56_000 250_000 500_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Rc6", Rc6, rc6().step_by(7), 2_000_000 3_579_545 4_000_000 6_000_000 8_000_000);
    // clocks no round number gives
    at_clocks!(c, "Rc6", Rc6, rc6().step_by(101), 45_454 64_000 72_000 90_001 125_000 200_000 333_333 455_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Rc6", Rc6, rc6().step_by(101), 1_500_000 2_457_600 3_000_000 5_000_000 7_372_800 9_600_000);
    at_clocks!(c, "Rc5", Rc5, rc5().step_by(7), 20_480 22_050 31_250 36_000 62_500 64_000 72_000 76_000 125_000 144_000 250_000 455_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Rc5", Rc5, rc5().step_by(7), 3_579_545 7_372_800 16_000_000 24_000_000 72_000_000 168_000_000);
    at_clocks!(c, "Nec", Nec, nec(257), 20_480 22_050 31_250 36_000 62_500 64_000 72_000 76_000 125_000 144_000 250_000 455_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "Nec", Nec, nec(257), 3_579_545 7_372_800 16_000_000 24_000_000 72_000_000 168_000_000);
    at_clocks!(c, "SamsungNec", SamsungNec, sam(257), 20_480 22_050 31_250 36_000 62_500 64_000 72_000 76_000 125_000 144_000 250_000 455_000);
    #[cfg(not(lowclk))]
    at_clocks!(c, "SamsungNec", SamsungNec, sam(257), 3_579_545 7_372_800 16_000_000 24_000_000 72_000_000 168_000_000);
}

// ------------------------------------------------------------------------------------- sender

struct Pwm;
impl embedded_hal::PwmPin for Pwm {
    type Duty = u16;
    fn enable(&mut self) {
        ON.with(|o| o.set(true));
    }
    fn disable(&mut self) {
        ON.with(|o| o.set(false));
    }
    fn get_duty(&self) -> u16 {
        1
    }
    fn get_max_duty(&self) -> u16 {
        2
    }
    fn set_duty(&mut self, _: u16) {}
}
fn on() -> bool {
    ON.with(|o| o.get())
}
/// Any frame of up to 16 entries
struct Fake;
impl Protocol for Fake {
    type Cmd = Vec<u32>;
}
impl<const F: u32> ProtocolEncoder<F> for Fake {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(c: &Vec<u32>, b: &mut [u32]) -> usize {
        b[..c.len()].copy_from_slice(c);
        c.len()
    }
}
/// Marks and spaces of a frame, tick by tick
fn levels(f: &[u32]) -> Vec<bool> {
    let mut v = vec![];
    for (i, d) in f.iter().enumerate().skip(1) {
        v.extend(std::iter::repeat(i % 2 == 1).take(*d as usize));
    }
    v
}
fn c12(c: &mut Ctx) {
    const F: u32 = 40_000;
    let mut rng = Rng(c.rng.next() | 1);
    // the shape of encoded frames
    while Instant::now() < c.end {
        c.cases += 1;
        ON.with(|o| o.set(false));
        let mut log = vec![];
        let r = quiet(|| -> Option<String> {
            let mut s = Sender::<_, F, 80>::new(Pwm);
            for _ in 0..rng.below(3) {
                s.tick();
                if on() {
                    return Some("on before anything is loaded".into());
                }
            }
            for round in 0..1 + rng.below(5) {
                let mut own = [0u32; 80];
                let w = rng.next();
                let n;
                match rng.below(5) {
                    0 => {
                        let x = Rc5Command { addr: w as u8 & 31, cmd: (w >> 8) as u8 & 63, start: 2 + (w >> 16 & 1) as u8, toggle: w >> 17 & 1 == 1 };
                        s.load::<Rc5>(&x);
                        n = <Rc5 as ProtocolEncoder<F>>::encode(&x, &mut own);
                        log.push(format!("{x:?}"));
                    }
                    1 => {
                        let x = Rc6Command { addr: w as u8, cmd: (w >> 8) as u8, toggle: w >> 17 & 1 == 1 };
                        s.load::<Rc6>(&x);
                        n = <Rc6 as ProtocolEncoder<F>>::encode(&x, &mut own);
                        log.push(format!("{x:?}"));
                    }
                    2 => {
                        let x = NecCommand { addr: w as u8, cmd: (w >> 8) as u8, repeat: false };
                        s.load::<Nec>(&x);
                        n = <Nec as ProtocolEncoder<F>>::encode(&x, &mut own);
                        log.push(format!("{x:?}"));
                    }
                    3 => {
                        let x = SamsungNecCommand { addr: w as u8, cmd: (w >> 8) as u8, repeat: false };
                        s.load::<SamsungNec>(&x);
                        n = <SamsungNec as ProtocolEncoder<F>>::encode(&x, &mut own);
                        log.push(format!("{x:?}"));
                    }
                    _ => {
                        let k = 2 + 2 * rng.below(4) as usize;
                        let mut x: Vec<u32> = (0..k).map(|_| 1 + rng.below(5) as u32).collect();
                        x[0] = 0;
                        s.load::<Fake>(&x);
                        own[..k].copy_from_slice(&x);
                        n = k;
                        log.push(format!("frame {x:?}"));
                    }
                }
                if n % 2 != 0 || n < 2 || own[0] != 0 {
                    return Some(format!("the encoded frame {:?} is not whole pairs of mark and space", &own[..n]));
                }
                if s.buffer() != &own[..n] {
                    return Some(format!("load {round} leaves {:?} in the buffer, the frame is {:?}", s.buffer(), &own[..n]));
                }
                let lv = levels(&own[..n]);
                let disturb = rng.below(lv.len() as u64 * 2) as usize;
                for (i, l) in lv.iter().enumerate() {
                    if i == disturb && i > 0 {
                        s.load::<Fake>(&vec![0, 3, 3, 3]);
                    }
                    s.tick();
                    if on() != *l {
                        return Some(format!("load {round}, tick {i}: output {}, the frame says {l}{}\nframe {:?}", on(), if disturb <= i { format!(" (another load at tick {disturb})") } else { String::new() }, &own[..n]));
                    }
                }
                for i in 0..3 + rng.below(40) {
                    s.tick();
                    if on() {
                        return Some(format!("load {round}: on {i} ticks after the end of the frame {:?}", &own[..n]));
                    }
                }
            }
            None
        });
        match r {
            Ok(None) => {}
            Ok(Some(t)) => fail(c, format!("loaded one after another: {log:?}\n{t}")),
            Err(e) => fail(c, format!("loaded one after another: {log:?}\npanics: {e}")),
        }
        // the pinless sender, with a clock near its end
        let r = quiet(|| -> Option<String> {
            let mut s = PulsedataSender::<16>::new();
            let mut ts = if rng.flip() { u32::MAX - rng.below(20) as u32 } else { rng.next() as u32 };
            for round in 0..3 {
                let k = 2 + 2 * rng.below(6) as usize;
                let mut x: Vec<u32> = (0..k).map(|_| 1 + rng.below(5) as u32).collect();
                x[0] = 0;
                s.load_command::<Fake, F>(&x);
                let lv = levels(&x);
                let stop = if rng.flip() { lv.len() } else { rng.below(lv.len() as u64) as usize };
                for (i, l) in lv.iter().take(stop).enumerate() {
                    ts = ts.wrapping_add(1);
                    let g = s.tick(ts) == Status::Transmit(true);
                    if g != *l {
                        return Some(format!("PulsedataSender, load {round} {x:?}, tick {i} (clock {ts}): {g}, the frame says {l}"));
                    }
                }
                if stop == lv.len() {
                    for i in 0..5 {
                        ts = ts.wrapping_add(1);
                        let g = s.tick(ts);
                        if g == Status::Transmit(true) {
                            return Some(format!("PulsedataSender, load {round} {x:?}: {g:?} {i} ticks after the end"));
                        }
                    }
                }
            }
            None
        });
        c.events += 100;
        match r {
            Ok(None) => {}
            Ok(Some(t)) => fail(c, t),
            Err(e) => fail(c, e),
        }
    }
}

// ------------------------------------------------------------------- polled, buffered, multiple

fn c13(c: &mut Ctx, long: bool) {
    let mut rng = Rng(c.rng.next() | 1);
    while Instant::now() < c.end {
        for p in 0..9 {
            let f = rng.of(&[20_000u32, 40_000, 44_100]);
            let h = random(&mut rng, p, f);
            c.cases += 1;
            let pin = rng.flip();
            let r = quiet(|| -> Option<String> {
                let mut a = if pin { pick32!(p, pollpin_of, f) } else { pick32!(p, poll_of, f) };
                let mut b = pick!(p, 0, rx_of, f);
                let (mut age, mut level, mut n) = (0u64, false, 0u64);
                for (r, d) in &h {
                    // the level before this edge is held for `d` polls in all, the last is the edge
                    let d = (*d).clamp(1, 40_000);
                    for k in 0..d {
                        let e = if k + 1 == d { *r } else { level };
                        let x = a(e);
                        n += 1;
                        age += 1;
                        let y = if e != level {
                            level = e;
                            b(e, std::mem::take(&mut age))
                        } else {
                            Got::None
                        };
                        if x != y {
                            return Some(format!("sample {n} ({}): polled {x:?}, event receiver {y:?}\nedges by number of polls: {}", e, show(&h)));
                        }
                    }
                }
                None
            });
            c.events += h.len() as u64;
            match r {
                Ok(None) => {}
                Ok(Some(t)) => fail(c, format!("{} polled at {f} Hz{}\n{t}", NAMES[p], if pin { " from a pin" } else { "" })),
                Err(e) => fail(c, format!("{} polled at {f} Hz panics: {e}\n{}", NAMES[p], show(&h))),
            }
            // failing reads
            let r = quiet(|| -> Option<String> {
                let mut a = PeriodicPoll::<Nec, Pin>::with_pin(f, Pin);
                let mut b = PeriodicPoll::<Nec>::new(f);
                let mut e = false;
                let h = random(&mut rng, 0, f);
                for (r, d) in &h {
                    for k in 0..(*d).clamp(1, 700) {
                        if rng.below(7) == 0 {
                            LOW.with(|l| l.set(Err(9)));
                            if a.poll().is_ok() {
                                return Some("a failing pin read is not reported".into());
                            }
                        }
                        if k + 1 == (*d).clamp(1, 700) {
                            e = *r;
                        }
                        LOW.with(|l| l.set(Ok(e)));
                        let (x, y) = (norm(a.poll()), norm(b.poll(e)));
                        if x != y {
                            return Some(format!("with failing reads {x:?}, without {y:?}"));
                        }
                    }
                }
                None
            });
            match r {
                Ok(None) => {}
                Ok(Some(t)) => fail(c, t),
                Err(e) => fail(c, e),
            }
        }
    }
    if long {
        // the counter wraps around in the middle of a frame
        let f = 40_000;
        let mut a = PeriodicPoll::<Nec>::new(f);
        let mut b = Receiver::<Nec, NoPin, u32>::new(f);
        let mut h = vec![];
        gap(&mut rng, 0, f, &mut h);
        send(&mut rng, 0, f, &frame(0, 0x1234_5678), Some(Place::Mid), &mut h);
        let idle = (1u64 << 32) - 1500;
        for _ in 0..idle {
            if a.poll(false) != Ok(None) {
                fail(c, "a poll without a change returns something".into());
            }
        }
        let (mut level, mut age, mut n) = (false, idle, idle);
        for (r, d) in &h {
            for k in 0..(*d).max(1) {
                let e = if k + 1 == (*d).max(1) { *r } else { level };
                let x = quiet(|| norm(a.poll(e)));
                n += 1;
                age += 1;
                let y = if e != level {
                    level = e;
                    norm(b.event(std::mem::take(&mut age) as u32, e))
                } else {
                    Got::None
                };
                if x != Ok(y) {
                    fail(c, format!("Nec polled at {f} Hz, sample {n} after {idle} samples of silence: polled {x:?}, event receiver {y:?}"));
                }
            }
        }
    }
}
fn c14(c: &mut Ctx) {
    let mut rng = Rng(c.rng.next() | 1);
    while Instant::now() < c.end {
        for p in 0..9 {
            let mono = rng.below(4) as usize;
            let f = if mono > 1 { 1_000_000 } else { rng.of(clocks(p)) };
            let mut b: Vec<u64> = vec![];
            for _ in 0..rng.below(4) {
                b.extend(random(&mut rng, p, f).iter().map(|e| e.1));
                if rng.flip() {
                    b.push(rng.next() >> rng.below(64));
                }
            }
            // random histories begin with a mark or a space
            if rng.flip() {
                b.insert(0, 5);
            }
            let cut = rng.below(b.len() as u64 + 1) as usize;
            if rng.flip() {
                b.truncate(cut);
            }
            let with = rng.flip();
            c.cases += 1;
            let mut rx = pick!(p, mono, rx_of, f);
            let mut want: Vec<Got> = vec![];
            for (i, d) in b.iter().enumerate() {
                match quiet(|| rx(i % 2 == 0, *d)) {
                    Ok(g @ Got::Cmd(..)) => want.push(g),
                    Ok(_) => {}
                    Err(_) => return,
                }
            }
            c.commands += want.len() as u64;
            c.events += b.len() as u64;
            want.push(Got::None);
            let got = quiet(|| pick!(p, mono, buf_of, f, &b, with));
            if got.as_ref().ok() != Some(&want) {
                fail(c, format!("{} {} {f} Hz: iterating yields {got:x?},\nan event receiver reports {want:x?} (None: the end)\nbuffer: {b:?}", NAMES[p], MONOS[mono]));
            }
        }
    }
}
/// (per slot: what lone receivers say, what the multi receiver says)
fn lone<P: DecoderBuilder<u32> + 'static>(f: u32) -> Box<dyn FnMut(bool, u32) -> Option<AnyCommand>>
where
    P::Cmd: Into<AnyCommand>,
    P::Decoder: 'static,
{
    let mut r = Receiver::<P, NoPin, u32>::new(f);
    Box::new(move |e, t| r.event(t, e).unwrap_or(None).map(Into::into))
}
macro_rules! combo {
    ($c:expr, $rng:expr, $f:expr, $h:expr, $n:literal, $($p:ty),*) => {{
        let (f, h) = ($f, $h);
        let mut m = MultiReceiver::<$n, ($($p),*), NoPin>::new(f, NoPin);
        let mut it = MultiReceiver::<$n, ($($p),*), NoPin>::new(f, NoPin);
        let mut mp = MultiReceiver::<$n, ($($p),*), Pin>::new(f, Pin);
        let mut mpi = MultiReceiver::<$n, ($($p),*), Pin>::new(f, Pin);
        let mut ls = [$( lone::<$p>(f) ),*];
        for (i, (r, d)) in h.iter().enumerate() {
            let d = (*d).min(u32::MAX as u64) as u32;
            let want: Vec<Option<AnyCommand>> = ls.iter_mut().map(|l| l(*r, d)).collect();
            let got = m.event_generic(d, *r);
            let flat: Vec<AnyCommand> = it.event_generic_iter(d, *r).collect();
            let show = |v: &[Option<AnyCommand>]| format!("{v:?}");
            $c.commands += flat.len() as u64;
            let ctx = |what: &str, g: String, w: String| format!("MultiReceiver of {} at {f} Hz, {what}, edge {i}: {g}\nlone receivers: {w}\nhistory: {}", stringify!($($p),*), crate::show(&h[..=i]));
            if show(&got) != show(&want) {
                fail($c, ctx("event_generic", show(&got), show(&want)));
            }
            let flat_want: Vec<&AnyCommand> = want.iter().flatten().collect();
            if format!("{flat:?}") != format!("{flat_want:?}") {
                fail($c, ctx("event_generic_iter", format!("{flat:?}"), format!("{flat_want:?}")));
            }
            if $rng.below(20) == 0 {
                LOW.with(|l| l.set(Err(3)));
                if mp.event(d).is_ok() || mpi.event_iter(d).is_ok() {
                    fail($c, ctx("a failing pin", "no error".into(), String::new()));
                }
            }
            LOW.with(|l| l.set(Ok(*r)));
            let pin = mp.event(d).unwrap();
            if show(&pin) != show(&want) {
                fail($c, ctx("event", show(&pin), show(&want)));
            }
            let flat: Vec<AnyCommand> = mpi.event_iter(d).unwrap().collect();
            if format!("{flat:?}") != format!("{flat_want:?}") {
                fail($c, ctx("event_iter", format!("{flat:?}"), format!("{flat_want:?}")));
            }
            $c.events += 1;
        }
    }};
}
fn c15(c: &mut Ctx) {
    let mut rng = Rng(c.rng.next() | 1);
    while Instant::now() < c.end {
        let f = rng.of(&[40_000u32, 1_000_000, 8_000_000]);
        let mut h = vec![];
        for _ in 0..4 {
            let p = rng.of(&[0usize, 1, 2, 3, 6, 7, 8]);
            if h.last().map_or(false, |e: &Edge| e.0) {
                h.push((false, 1));
            }
            let x = random(&mut rng, p, f);
            h.extend(x);
        }
        c.cases += 1;
        combo!(c, rng, f, &h, 2, Nec, Rc5);
        combo!(c, rng, f, &h, 2, Rc6, Denon);
        combo!(c, rng, f, &h, 3, SamsungNec, Rc6, Rc5);
        combo!(c, rng, f, &h, 4, Rc5, SamsungNec, Denon, AppleNec);
        combo!(c, rng, f, &h, 5, Denon, Rc6, Rc5, Nec, SamsungNec);
        combo!(c, rng, f, &h, 6, Nec, Rc5, Rc6, SamsungNec, Denon, AppleNec);
    }
}

/// Decoders after a reset against new ones; command() against the status
fn c18(c: &mut Ctx) {
    let mut rng = Rng(c.rng.next() | 1);
    while Instant::now() < c.end {
        for p in 0..9 {
            let mono = rng.below(4) as usize;
            let f = if mono > 1 { 1_000_000 } else { rng.of(clocks(p)) };
            let mut h = random(&mut rng, p, f);
            let cut = rng.below(h.len() as u64 + 1) as usize;
            h.truncate(cut);
            let mut t = vec![];
            if rng.flip() {
                gap(&mut rng, p, f, &mut t);
            }
            let w = word(&mut rng, p);
            send(&mut rng, p, f, &frame(p, w), None, &mut t);
            if !biphase(p) && rng.below(3) == 0 {
                // an interval that is cut in two by the reset
                let k = rng.below(table(p).len() as u64) as usize;
                let d = dur(&mut rng, p, k, f, Place::Mid);
                let x = rng.below(d);
                h.push((false, x));
                t.insert(0, (true, if rng.flip() { d - x } else { d }));
            }
            t.extend(random(&mut rng, p, f));
            let hist = random(&mut rng, p, f);
            let cuts = cuts_of(&mut rng, &hist);
            check_cut(c, p, mono, f, &hist, &cuts);
            c.cases += 1;
            let r = quiet(|| -> Option<String> {
                let mut a = pick!(p, mono, dec_of, f);
                let mut b = pick!(p, mono, dec_of, f);
                let mut st = 0;
                for (i, (r, d)) in h.iter().enumerate() {
                    let (s, g) = (a.event)(0, *r, *d);
                    st = s;
                    if s != 2 && g != Got::None {
                        return Some(format!("edge {i}: status {s}, but command() returns {g:x?}\nhistory: {}", show(&h[..=i])));
                    }
                    if s == 2 && g == Got::None && p != 3 {
                        return Some(format!("edge {i}: complete, but command() returns nothing\nhistory: {}", show(&h[..=i])));
                    }
                    if s >= 2 {
                        (a.event)(1, false, 0);
                        st = 0;
                    }
                }
                let _ = st;
                let (_, g) = (a.event)(1, false, 0);
                if g != Got::None {
                    return Some(format!("command() returns {g:x?} after a reset\nhistory: {}", show(&h)));
                }
                let (mut mark, mut framed) = (0u64, false);
                for (i, (r, d)) in t.iter().enumerate() {
                    // a NEC decoder remembers the latest frame
                    if p < 5 && !framed {
                        let tb = table(p);
                        if *r && outer(tb[1], f as u64, mark.saturating_add(*d)) {
                            break;
                        }
                        // header and a mark that is no interval yet
                        if !*r {
                            mark = *d;
                        }
                    }
                    let (x, y) = ((a.event)(0, *r, *d), (b.event)(0, *r, *d));
                    if x != y {
                        return Some(format!("edge {i} after the reset: {x:x?}, a new decoder: {y:x?} (status, command())\nbefore the reset: {}\nafter: {}", show(&h), show(&t[..=i])));
                    }
                    framed |= x.0 == 2;
                    if x.0 == 2 {
                        c.commands += 1;
                    }
                    if x.0 >= 2 {
                        (a.event)(1, false, 0);
                        (b.event)(1, false, 0);
                    }
                }
                None
            });
            c.events += (h.len() + t.len()) as u64;
            match r {
                Ok(None) => {}
                Ok(Some(t)) => fail(c, format!("{} decoder, {} time base, {f} Hz\n{t}", NAMES[p], MONOS[mono])),
                Err(_) => {} // C01
            }
        }
    }
}

/// Receivers put together in several ways decode frames at the clock they were built for
fn c19(c: &mut Ctx) {
    let mut rng = Rng(c.rng.next() | 1);
    fn b32<P: DecoderBuilder<u32> + 'static>(r: Receiver<P, NoPin, u32>) -> Ev
    where
        P::Cmd: Norm,
        P::Decoder: 'static,
    {
        let mut r = r;
        Box::new(move |e, t| norm(r.event(t as u32, e)))
    }
    fn b64<P: DecoderBuilder<u64> + 'static>(r: Receiver<P, NoPin, u64>) -> Ev
    where
        P::Cmd: Norm,
        P::Decoder: 'static,
    {
        let mut r = r;
        Box::new(move |e, t| norm(r.event(t, e)))
    }
    fn bp<P: DecoderBuilder<u32> + 'static>(r: Receiver<P, Pin, u32>) -> Ev
    where
        P::Cmd: Norm,
        P::Decoder: 'static,
    {
        let mut r = r;
        Box::new(move |e, t| {
            LOW.with(|l| l.set(Ok(e)));
            norm(r.event(t as u32))
        })
    }
    fn poll<P: DecoderBuilder<u32> + 'static>(r: PeriodicPoll<P, NoPin>) -> Ev
    where
        P::Cmd: Norm,
        P::Decoder: 'static,
    {
        let mut r = r;
        let mut level = false;
        Box::new(move |e, t| {
            for _ in 1..t {
                if norm(r.poll(level)) != Got::None {
                    return Got::Err;
                }
            }
            level = e;
            norm(r.poll(e))
        })
    }
    let new = infrared::receiver;
    while Instant::now() < c.end {
        let f = rng.of(&[40_000u32, 44_100, 56_000, 2_000_000, 8_000_000]);
        let g = 3_000_000;
        let mut all: Vec<(usize, u32, &str, Ev)> = vec![
            (0, f, "nec.frequency", b32(new().nec().frequency(f).build())),
            (0, f, "frequency.nec", b32(new().frequency(f).nec().build())),
            (0, 1_000_000, "nec", b32(new().nec().build())),
            (2, f, "frequency.nec16.monotonic", b64(new().frequency(f).nec16().monotonic::<u64>().build())),
            (2, f, "nec16", b32(new().frequency(g).nec16().frequency(f).build())),
            (1, f, "nec_samsung", b32(new().nec_samsung().frequency(f).build())),
            (3, f, "nec_apple", b32(new().nec_apple().frequency(f).build())),
            (7, f, "rc5", b32(new().frequency(f).rc5().build())),
            (8, f, "rc6", b32(new().frequency(f).rc6().build())),
            (5, f, "samsung_bluray", b32(new().samsung_bluray().frequency(f).build())),
            (6, f, "denon", b32(new().denon().frequency(f).build())),
            (6, f, "monotonic.frequency.denon", b64(new().monotonic::<u64>().frequency(f).denon().build())),
            (7, f, "nec.rc5", b32(new().nec().frequency(f).rc5().build())),
            (4, f, "protocol", b32(new().protocol::<NecDebug>().frequency(f).build())),
            (0, f, "frequency.nec.pin", bp(new().frequency(f).nec().pin(Pin).build())),
            (8, f, "pin.frequency.rc6", bp(new().pin(Pin).frequency(f).rc6().build())),
            (0, f, "Receiver::new", b32(Receiver::<Nec, NoPin, u32>::new(f))),
            (7, f, "Receiver::with_input", b32(Receiver::<Rc5, NoPin, u32>::with_input(f, NoPin))),
            (8, f, "Receiver::with_pin", bp(Receiver::<Rc6, Pin, u32>::with_pin(f, Pin))),
        ];
        if f < 100_000 {
            all.push((0, f, "build_polled", poll(new().frequency(f).nec().build_polled())));
            all.push((8, f, "rc6 build_polled", poll(new().rc6().frequency(f).build_polled())));
            all.push((7, f, "PeriodicPoll::new", poll(PeriodicPoll::<Rc5>::new(f))));
        }
        for (p, f, name, mut ev) in all {
            c.cases += 1;
            let mut h = vec![];
            gap(&mut rng, p, f, &mut h);
            if name == "build_polled" || name.contains("oll") {
                // sampled levels: no empty pulses
                h.iter_mut().for_each(|e| e.1 = e.1.max(2));
                let s = frame(p, word(&mut rng, p));
                for k in s {
                    let d = dur(&mut rng, p, k, f, Place::Rand);
                    if biphase(p) {
                        h.push((!h.last().unwrap().0, d));
                    } else {
                        h.push((false, d / 3));
                        h.push((true, d - d / 3));
                    }
                }
            } else {
                let w = word(&mut rng, p);
                send(&mut rng, p, f, &frame(p, w), None, &mut h);
            }
            let mut m = Model::new(p, f, 0);
            for (i, (r, d)) in h.iter().enumerate() {
                let g = match quiet(|| ev(*r, *d)) {
                    Ok(g) => g,
                    Err(_) => break,
                };
                let all = m.next(*r, *d);
                let ok: Vec<_> = all.iter().filter(|(_, o)| fits(p, *o, g)).map(|x| x.0).collect();
                if ok.is_empty() {
                    // a defect of the decoder itself is not one of the builder
                    let mut rx = pick!(p, 0, dec_of, f);
                    let mut last = Got::None;
                    for (r, d) in &h[..=i] {
                        let Ok((s, g)) = quiet(|| (rx.event)(0, *r, *d)) else { break };
                        last = if s == 3 { Got::Err } else { g };
                        if s >= 2 {
                            (rx.event)(1, false, 0);
                        }
                    }
                    if last == g {
                        break;
                    }
                    fail(c, format!("{} receiver made with `{name}` for {f} Hz: edge {i} returns {g:x?}, right would be {all:x?}\nhistory: {}", NAMES[p], show(&h)));
                }
                c.events += 1;
                c.commands += matches!(g, Got::Cmd(..)) as u64;
                m.cands = vec![];
                for s in ok {
                    if !m.cands.contains(&s) {
                        m.cands.push(s);
                    }
                }
            }
        }
    }
}

// ------------------------------------------------------------- the contracts on made-up values

/// Run contracts that start from new objects on made-up values; what fails here fails alone too
fn contracts(c: &mut Ctx, names: &[&str]) {
    use harness::nd;
    let mut reg: Vec<(&'static str, fn())> = vec![];
    harness::registry(&mut reg);
    let todo: Vec<_> = reg.into_iter().filter(|(n, _)| names.contains(&n.trim_start_matches("harness::"))).collect();
    if todo.is_empty() {
        return;
    }
    let mut rng = Rng(c.rng.next() | 1);
    let mut doubts = 0;
    while Instant::now() < c.end && doubts < 20 {
        for (name, f) in &todo {
            for _ in 0..8 {
                let mut r = Rng(rng.next() | 1);
                let style = r.below(4);
                nd::MADE.with(|m| m.borrow_mut().clear());
                nd::GEN.with(|g| {
                    *g.borrow_mut() = Some(Box::new(move |n| match r.below(if style == 0 { 1 } else { 8 }) {
                        0..=2 => r.next(),
                        3 => r.below(4),
                        4 => r.below(64),
                        5 => u64::MAX >> (64 - 8 * n) << r.below(2),
                        6 => (1u64 << r.below(8 * n as u64)).wrapping_sub(r.below(3)),
                        _ => r.next() >> r.below(64),
                    }))
                });
                harness::mono::forget();
                let e = std::panic::catch_unwind(f);
                nd::GEN.with(|g| *g.borrow_mut() = None);
                let vals = nd::MADE.with(|m| m.borrow().iter().map(|v| v.iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", ")).collect::<Vec<_>>());
                let e = match e {
                    Ok(()) => {
                        c.cases += 1;
                        continue;
                    }
                    Err(e) => e,
                };
                if e.downcast_ref::<nd::Assume>().is_some() {
                    continue;
                }
                let what = PANIC.with(|p| p.borrow().clone());
                let msg = what.lines().last().unwrap_or("").to_string();
                let tags = msg.split(':').next().unwrap_or("");
                let tagged = !tags.is_empty() && tags.split(' ').all(|t| t.len() == 3 && t.starts_with('C') && t[1..].parse::<u8>().is_ok());
                if tagged && !tags.split(' ').any(|t| t == c.prop) {
                    continue;
                }
                // in a process of its own
                let dir = std::env::current_exe().unwrap().parent().unwrap().to_path_buf();
                let file = dir.join(format!("made-{}.txt", c.prop));
                std::fs::write(&file, vals.join("\n") + "\n").unwrap();
                let out = std::process::Command::new(dir.join("replay")).arg(name.trim_start_matches("harness::")).arg(&file).output();
                match out {
                    Ok(o) if o.status.code() == Some(1) && String::from_utf8_lossy(&o.stderr).contains(&msg) => {
                        fail(c, format!("the contract {} fails on the real code with the values\n  {}\n{what}", name.trim_start_matches("harness::"), vals.join("\n  ")))
                    }
                    _ => doubts += 1,
                }
            }
        }
    }
    if doubts > 0 {
        println!("doubts: {doubts}");
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[2].parse().unwrap();
    let ms: u64 = a[3].parse().unwrap();
    std::panic::set_hook(Box::new(|i| PANIC.with(|p| *p.borrow_mut() = i.to_string())));
    let mut c = Ctx {
        prop: a[1].clone(),
        rng: Rng(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1),
        end: Instant::now() + Duration::from_millis(ms),
        cases: 0,
        events: 0,
        commands: 0,
        sample: String::new(),
    };
    for _ in 0..10 {
        c.rng.next();
    }
    // contracts first, for a fifth of the time, or all of it where there is nothing else
    if let Some(names) = a.get(4) {
        let end = c.end;
        let alone = matches!(a[1].as_str(), "C11" | "C16" | "C17");
        c.end = Instant::now() + Duration::from_millis(if alone { ms } else { ms / 5 });
        contracts(&mut c, &names.split(',').collect::<Vec<_>>());
        c.end = end;
    }
    match a[1].as_str() {
        "C01" => {
            let end = c.end;
            c.end = Instant::now() + Duration::from_millis(ms / 2);
            c01(&mut c);
            c.end = end;
            decoders(&mut c, &[0, 1, 2, 3, 4, 5, 6, 7, 8]);
        }
        "C02" | "C03" => decoders(&mut c, &[0, 1, 2, 3, 4]),
        "C04" => decoders(&mut c, &[5]),
        "C05" => decoders(&mut c, &[6]),
        "C06" => decoders(&mut c, &[7]),
        "C07" => decoders(&mut c, &[8]),
        "C08" => decoders(&mut c, &[0, 5, 6, 7, 8, 1]),
        "C09" => c09(&mut c),
        "C10" => c10(&mut c),
        "C12" => c12(&mut c),
        "C13" => c13(&mut c, ms >= 30_000),
        "C14" => c14(&mut c),
        "C15" => c15(&mut c),
        "C18" => c18(&mut c),
        "C19" => c19(&mut c),
        _ => {}
    }
    stats(&c);
}
