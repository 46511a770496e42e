//! A protocol whose decoder answers arbitrarily and records what it is told. Receivers, iterators and
//! builders are generic in the protocol, so what they do with this one they do with all of them.
use crate::{mono::Mono, nd};
use embedded_hal::digital::v2::InputPin;
use infrared::cmd::{AddressCommand, AnyCommand, Command};
use infrared::receiver::{time::PulseSpans, DecoderBuilder, DecodingError, ProtocolDecoder, State};
use infrared::{Protocol, ProtocolId};

pub struct Spy<const ID: usize>;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct SpyCmd(pub u32);

impl<const ID: usize> Protocol for Spy<ID> {
    type Cmd = SpyCmd;
}

/// What one decoder was told and what it answered last
#[derive(Clone, Copy)]
pub struct Log {
    pub built: u32,
    pub freq: u32,
    pub events: u32,
    pub edge: bool,
    pub dt: u64,
    pub out: State,
    pub cmd: Option<u32>,
    pub resets: u32,
    /// An event was delivered without a reset after the last command or error
    pub not_reset: bool,
    /// A reset while nothing was complete or wrong
    pub spurious: bool,
}

pub const EMPTY: Log = Log {
    built: 0,
    freq: 0,
    events: 0,
    edge: false,
    dt: 0,
    out: State::Idle,
    cmd: None,
    resets: 0,
    not_reset: false,
    spurious: false,
};

static mut LOGS: [Log; 6] = [EMPTY; 6];

pub fn log(id: usize) -> &'static mut Log {
    unsafe { &mut (*core::ptr::addr_of_mut!(LOGS))[id] }
}
pub fn clear() {
    unsafe { *core::ptr::addr_of_mut!(LOGS) = [EMPTY; 6] }
}

pub struct SpyDecoder<M: Mono, const ID: usize> {
    fresh: bool,
    spans: PulseSpans<M>,
}

impl<M: Mono, const ID: usize> DecoderBuilder<M> for Spy<ID> {
    type Decoder = SpyDecoder<M, ID>;
    fn build(freq: u32) -> Self::Decoder {
        let l = log(ID);
        l.built += 1;
        l.freq = freq;
        SpyDecoder { fresh: true, spans: PulseSpans::new(1, &[0; 8], &[0; 8]) }
    }
}

fn answer() -> State {
    match nd::below(7) {
        0 => State::Idle,
        1 => State::Receiving,
        2 => State::Done,
        3 => State::Error(DecodingError::Address),
        4 => State::Error(DecodingError::Data),
        5 => State::Error(DecodingError::Validation),
        _ => State::Error(DecodingError::RemoteControlError),
    }
}

fn over(s: State) -> bool {
    matches!(s, State::Done | State::Error(_))
}

impl<M: Mono, const ID: usize> ProtocolDecoder<Spy<ID>, M> for SpyDecoder<M, ID> {
    fn event(&mut self, edge: bool, dt: M::Duration) -> State {
        let l = log(ID);
        if over(l.out) && !self.fresh {
            l.not_reset = true;
        }
        l.events += 1;
        l.edge = edge;
        l.dt = M::ticks(dt);
        l.out = answer();
        l.cmd = if nd::bool() { Some(nd::u32()) } else { None };
        self.fresh = false;
        l.out
    }
    fn command(&self) -> Option<SpyCmd> {
        let l = log(ID);
        if l.out == State::Done && !self.fresh {
            l.cmd.map(SpyCmd)
        } else {
            None
        }
    }
    fn reset(&mut self) {
        let l = log(ID);
        l.resets += 1;
        if !self.fresh && !over(l.out) {
            l.spurious = true;
        }
        self.fresh = true;
    }
    fn spans(&self) -> &PulseSpans<M> {
        &self.spans
    }
}

impl Log {
    /// Did exactly one event with this content arrive since `n`?
    pub fn told(&self, n: u32, edge: bool, dt: u64) -> bool {
        self.events == n + 1 && self.edge == edge && self.dt == dt
    }
    /// Was the decoder reset exactly where it has to be?
    pub fn clean(&self) -> bool {
        !self.not_reset && !self.spurious
    }
    /// What the last answer means for the user
    pub fn outcome(&self) -> Result<Option<u32>, DecodingError> {
        match self.out {
            State::Done => Ok(self.cmd),
            State::Error(e) => Err(e),
            _ => Ok(None),
        }
    }
}

/// The command type asked for
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Out(pub u32);
impl From<SpyCmd> for Out {
    fn from(c: SpyCmd) -> Out {
        Out(c.0 ^ 0x5A5A_A5A5)
    }
}
pub fn out(x: u32) -> Out {
    Out::from(SpyCmd(x))
}

impl Command for SpyCmd {
    fn is_repeat(&self) -> bool {
        self.0 & 1 == 1
    }
}
impl AddressCommand for SpyCmd {
    const ID: ProtocolId = ProtocolId::Unknown;
    fn address(&self) -> u32 {
        self.0 >> 16
    }
    fn command(&self) -> u32 {
        self.0 & 0xFFFF
    }
    fn create(addr: u32, cmd: u32) -> Option<Self> {
        Some(SpyCmd(addr << 16 | cmd))
    }
}
pub fn any_is(a: &Option<AnyCommand>, x: Option<u32>) -> bool {
    match (a, x) {
        (Some(a), Some(x)) => {
            a.protocol == ProtocolId::Unknown
                && a.address == x >> 16
                && a.command == x & 0xFFFF
                && a.repeat == (x & 1 == 1)
        }
        (None, None) => true,
        _ => false,
    }
}

/// A remote control for it
#[derive(Default, Debug)]
pub struct SpyRemote;
impl infrared::remotecontrol::RemoteControlModel for SpyRemote {
    const PROTOCOL: ProtocolId = ProtocolId::Unknown;
    const ADDRESS: u32 = 7;
    type Cmd = SpyCmd;
    const BUTTONS: &'static [(u32, infrared::remotecontrol::Action)] =
        &[(9, infrared::remotecontrol::Action::Play)];
}

/// An input pin with a number. The level (or a failure) is set by the harness
pub struct SpyPin(pub u32);
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct PinErr(pub u8);
static mut PIN: (Result<bool, PinErr>, u32) = (Ok(false), 0);
pub fn set_pin(low: Result<bool, PinErr>) {
    unsafe { *core::ptr::addr_of_mut!(PIN) = (low, 0) }
}
fn read() -> Result<bool, PinErr> {
    unsafe {
        let p = &mut *core::ptr::addr_of_mut!(PIN);
        p.1 += 1;
        p.0
    }
}
/// Number of reads since the level was set
pub fn reads() -> u32 {
    unsafe { (*core::ptr::addr_of!(PIN)).1 }
}
impl InputPin for SpyPin {
    type Error = PinErr;
    fn is_high(&self) -> Result<bool, PinErr> {
        read().map(|l| !l)
    }
    fn is_low(&self) -> Result<bool, PinErr> {
        read()
    }
}
pub fn any_pin() -> Result<bool, PinErr> {
    if nd::bool() {
        Ok(nd::bool())
    } else {
        Err(PinErr(nd::u8()))
    }
}
