//! Contracts of the sender: edge scheduling, loading, pin driving
use crate::{nd, proofs, reach};
use infrared::sender::{ProtocolEncoder, PulsedataSender, Sender, Status};
use infrared::Protocol;

/// A protocol whose frames are whatever the harness wants: up to `N` entries
pub struct Fake;
pub const N: usize = 6;
#[derive(Clone, Copy)]
pub struct Frame {
    pub e: [u32; N],
    pub n: usize,
}
impl Protocol for Fake {
    type Cmd = Frame;
}
impl<const F: u32> ProtocolEncoder<F> for Fake {
    type EncoderData = ();
    const DATA: () = ();
    fn encode(c: &Frame, buf: &mut [u32]) -> usize {
        buf[..N].copy_from_slice(&c.e);
        c.n
    }
}
/// A frame of whole mark/space pairs. The first entry is the silence before it, none is empty
fn any_frame(max: u32, pairs: u8) -> Frame {
    let mut f = Frame { e: [0; N], n: 2 * (1 + nd::below(pairs) as usize) };
    for i in 1..N {
        if i < 2 * pairs as usize {
            let l = nd::u32();
            nd::assume(l >= 1 && l <= max);
            f.e[i] = l;
        } else {
            // what is behind the frame is never sent
            f.e[i] = 1;
        }
    }
    f
}

/// An output that records whether it is on
pub struct SpyPwm {
    pub on: bool,
    pub calls: u32,
}
pub const fn pwm() -> SpyPwm {
    SpyPwm { on: false, calls: 0 }
}
static mut ON: bool = false;
fn on() -> bool {
    unsafe { ON }
}
impl embedded_hal::PwmPin for SpyPwm {
    type Duty = u16;
    fn enable(&mut self) {
        unsafe { ON = true };
        self.on = true;
        self.calls += 1;
    }
    fn disable(&mut self) {
        unsafe { ON = false };
        self.on = false;
        self.calls += 1;
    }
    fn get_duty(&self) -> u16 {
        1
    }
    fn get_max_duty(&self) -> u16 {
        2
    }
    fn set_duty(&mut self, _: u16) {}
}

/// The waveform of one frame, tick by tick
#[derive(Clone, Copy)]
struct Wave {
    f: Frame,
    pos: usize,
    left: u32,
    quiet: bool,
}
impl Wave {
    fn new(f: Frame) -> Wave {
        Wave { f, pos: 0, left: 0, quiet: false }
    }
    /// Level of the next tick
    fn tick(&mut self) -> bool {
        if self.pos < self.f.n {
            if self.left == 0 {
                // an edge
                self.pos += 1;
                if self.pos < self.f.n {
                    self.left = self.f.e[self.pos];
                }
            }
            self.left = self.left.saturating_sub(1);
        } else {
            self.quiet = true;
        }
        self.pos % 2 == 1
    }
}

/// Whole frames on the pin: nothing before a load, the exact waveform after it, silence after that.
/// A load in the middle is ignored, a load afterwards sends the second frame and nothing of the first
fn wave() {
    let mut s = Sender::<_, 1000, 8>::new(pwm());
    s.tick();
    assert!(!on(), "a sender with nothing loaded stays off");
    let a = any_frame(2, 2);
    s.load::<Fake>(&a);
    let mut w = Wave::new(a);
    let extra = nd::below(8);
    for i in 0..8u8 {
        assert!(!w.quiet || !on());
        s.tick();
        assert!(on() == w.tick(), "the waveform of the frame");
        if i == extra && w.pos % 2 == 1 {
            s.load::<Fake>(&any_frame(3, 1));
        }
    }
    assert!(w.quiet && !on(), "off after the frame");
    let b = any_frame(2, 1);
    s.load::<Fake>(&b);
    let mut w = Wave::new(b);
    for _ in 0..5 {
        s.tick();
        assert!(on() == w.tick(), "the waveform of the next frame, nothing of the earlier one");
    }
    assert!(w.quiet, "off after the frame");
    reach!(a.n == 4 && b.n == 2, "a short frame after a long one");
    reach!(extra == 1, "load during a transmission");
}

/// The same for the pinless sender, whose clock is the caller's and may wrap around; loading restarts
fn wave_ts() {
    let mut s = PulsedataSender::<8>::new();
    let mut ts = nd::u32();
    assert!(s.tick(ts) == Status::Idle, "a sender with nothing loaded stays off");
    let a = any_frame(2, 2);
    s.load_command::<Fake, 1000>(&a);
    assert!(s.buffer().len() == a.n && s.buffer()[a.n - 1] == a.e[a.n - 1], "the frame is loaded");
    let mut w = Wave::new(a);
    let steps = nd::below(9);
    for i in 0..8u8 {
        if i < steps {
            ts = ts.wrapping_add(1);
            let l = w.tick();
            assert!((s.tick(ts) == Status::Transmit(true)) == l, "the waveform of the frame");
        }
    }
    let b = any_frame(2, 1);
    s.load_command::<Fake, 1000>(&b);
    assert!(s.buffer().len() == b.n, "the next frame is loaded");
    let mut w = Wave::new(b);
    for _ in 0..5 {
        ts = ts.wrapping_add(1);
        let l = w.tick();
        assert!((s.tick(ts) == Status::Transmit(true)) == l, "the waveform of the next frame, nothing of the earlier one");
    }
    assert!(w.quiet && s.tick(ts) == Status::Idle, "idle after the frame");
    s.reset();
    assert!(s.tick(nd::u32()) == Status::Idle && s.buffer().is_empty(), "nothing loaded after a reset");
    reach!(steps == 3 && ts < 4, "wrap around in the middle of a frame");
}

#[cfg(infrared_verif = "sender")]
pub mod step {
    use super::*;
    pub const S: usize = 80;
    type State = (usize, Status, u32, usize);

    /// Where a sender can be inside a frame
    fn inv((pos, status, _, len): State) -> bool {
        len % 2 == 0
            && len <= S
            && pos <= len
            && match status {
                Status::Idle => pos == 0 || pos == len,
                Status::Transmit(true) => pos % 2 == 1,
                Status::Transmit(false) => pos > 0 && pos % 2 == 0,
                Status::Error => false,
            }
    }
    fn any_status() -> Status {
        match nd::below(4) {
            0 => Status::Idle,
            1 => Status::Transmit(true),
            2 => Status::Transmit(false),
            _ => Status::Error,
        }
    }
    /// Any sender in the middle of anything
    fn any_sender<const Z: usize>() -> (PulsedataSender<Z>, State, usize, u32) {
        let mut s = PulsedataSender::<Z>::new();
        let (pos, len) = (nd::usize(), nd::usize());
        let st = (pos, any_status(), nd::u32(), len);
        nd::assume(len <= Z && pos <= len);
        // one entry is enough: the one that is due
        let v = nd::u32();
        if pos < Z {
            s.verif_buf()[pos] = v;
        }
        s.verif_set(st);
        (s, st, pos, v)
    }

    /// One tick, from every state, at every time
    pub fn tick() {
        let (mut s, st, pos, v) = any_sender::<S>();
        nd::assume(inv(st));
        let ts = nd::u32();
        let r = s.tick(ts);
        let (pos2, status2, last2, len2) = s.verif_get();
        let (_, status, last, len) = st;
        assert!(len2 == len, "the frame is kept");
        assert!(r == status2, "the state is returned");
        if pos == len {
            assert!(r == Status::Idle && pos2 == pos, "after the frame the sender is off and stays off");
        } else if ts.wrapping_sub(last) >= v {
            assert!(pos2 == pos + 1 && last2 == ts, "an edge when the entry has passed");
            assert!(r == Status::Transmit(pos % 2 == 0), "marks and spaces alternate, a mark first");
        } else {
            assert!(pos2 == pos && last2 == last && r == status, "nothing changes before the entry has passed");
        }
        assert!(inv((pos2, status2, last2, len2)), "the state stays inside the frame");
        reach!(pos2 == pos + 1 && pos > 0, "edge");
        reach!(pos == len && len > 0, "end");
        reach!(ts < last && pos2 == pos + 1, "wrap around");
    }

    /// A protocol with frames of any length that fits, arbitrary at one arbitrary place
    pub struct Long;
    #[derive(Clone, Copy)]
    pub struct At {
        n: usize,
        k: usize,
        v: u32,
    }
    impl Protocol for Long {
        type Cmd = At;
    }
    impl<const F: u32> ProtocolEncoder<F> for Long {
        type EncoderData = ();
        const DATA: () = ();
        fn encode(c: &At, buf: &mut [u32]) -> usize {
            assert!(buf.len() == S, "the encoder is given the whole buffer");
            buf[c.k] = c.v;
            c.n
        }
    }
    /// Loading a frame of any length, from every state
    pub fn load_long() {
        let (mut s, _, _, _) = any_sender::<S>();
        let c = At { n: nd::usize(), k: nd::usize(), v: nd::u32() };
        nd::assume(c.n <= S && c.n % 2 == 0 && c.k < c.n);
        s.load_command::<Long, 1000>(&c);
        let (pos, status, _, len) = s.verif_get();
        assert!((pos, status, len) == (0, Status::Idle, c.n), "the whole frame, from its start");
        assert!(s.buffer().len() == c.n && s.buffer()[c.k] == c.v, "the encoded lengths");
        reach!(c.n == S && c.k == S - 1, "a full buffer");
    }

    /// Loading, from every state: the frame from its start, nothing of what was there
    pub fn load() {
        let (mut s, _, _, _) = any_sender::<8>();
        let f = any_frame(u32::MAX, 3);
        s.load_command::<Fake, 1000>(&f);
        let (pos, status, last, len) = s.verif_get();
        assert!((pos, status, len) == (0, Status::Idle, f.n), "the whole frame, from its start");
        for i in 0..N {
            if i < f.n {
                assert!(s.buffer()[i] == f.e[i], "the encoded lengths");
            }
        }
        let ts = nd::u32();
        assert!(s.tick(ts) == Status::Transmit(true), "the mark begins at the first tick");
        assert!(s.verif_get() == (1, Status::Transmit(true), ts, f.n));
        let _ = last;
    }

    /// The pin, from every state inside a frame: `e` ticks after the last edge, an entry of `v`
    pub fn pin() {
        let mut s = Sender::<_, 1000, S>::new(pwm());
        let (pos, len) = (nd::usize(), nd::usize());
        let (counter, e, v) = (nd::u32(), nd::u32(), nd::u32());
        let st = (pos, any_status(), counter.wrapping_sub(e), len);
        nd::assume(inv(st) && pos < S && e >= 1 && e <= v);
        let fr = any_frame(5, 1);
        let before = st.1 == Status::Transmit(true);
        {
            let (p, c, b) = s.verif_parts();
            p.on = before;
            *c = counter;
            b.verif_buf()[pos] = v;
            b.verif_set(st);
        }
        if nd::bool() {
            s.load::<Fake>(&fr);
            let (_, _, b) = s.verif_parts();
            if st.1 != Status::Idle {
                assert!(b.verif_get() == st && b.verif_buf()[pos] == v, "a load during a transmission changes nothing");
            } else {
                assert!(b.verif_get().3 == fr.n && b.verif_get().0 == 0, "an idle sender takes the frame");
                s.tick();
                assert!(on(), "and starts with a mark");
                return;
            }
        }
        s.tick();
        let on = on();
        let (_, c, b) = s.verif_parts();
        let (c, (pos2, status2, last2, len2)) = (*c, b.verif_get());
        assert!(on == (status2 == Status::Transmit(true)), "the output is on exactly during marks");
        assert!(len2 == len && c == counter.wrapping_add(1), "one tick passes");
        if pos == len {
            assert!(!on && pos2 == pos, "off after the frame");
        } else if pos > 0 {
            assert!((pos2 != pos) == (e == v), "a mark or space is exactly as long as its entry");
            if e == v {
                assert!(on != before && c.wrapping_sub(last2) == 1, "and the next begins at once");
            } else {
                assert!(on == before && c.wrapping_sub(last2) == e + 1, "the level stays");
            }
        }
        reach!(pos > 0 && pos < len && e == v && e > 1, "edge");
        reach!(pos > 0 && pos < len && e < v, "no edge");
    }
    proofs! {
        [7] tick_any => tick();
        [7] load_any => load();
        [7] load_any_length => load_long();
        [7] pin_any => pin();
    }
}
#[cfg(all(infrared_verif = "sender", not(kani)))]
pub use step::registry as step_registry;

proofs! {
    [9] wave_pin => wave();
    [9] wave_clock => wave_ts();
}
