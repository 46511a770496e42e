//! Contracts of the receivers: event, polled, buffer, multi; builders and constructors
use crate::{mono::*, nd, proofs, reach, spy::*};
use infrared::receiver::{
    BufferInputReceiver, DecodingError, Error, MultiReceiver, NoPin, PeriodicPoll, Receiver,
};

fn any_edge() -> bool {
    nd::bool()
}
/// Any instant of a time base
fn any_t<M: Mono>() -> u64 {
    M::ticks(M::any())
}
fn same<E: PartialEq>(r: &Result<Option<Out>, E>, e: &Result<Option<u32>, E>) -> bool {
    match (r, e) {
        (Ok(a), Ok(b)) => *a == b.map(out),
        (Err(a), Err(b)) => a == b,
        _ => false,
    }
}
fn lift(r: Result<Option<u32>, DecodingError>) -> Result<Option<u32>, Error<PinErr>> {
    r.map_err(|e| match e {
        DecodingError::Address => Error::Address,
        DecodingError::Data => Error::Data,
        DecodingError::Validation => Error::Validation,
        DecodingError::RemoteControlError => Error::RemoteControlError,
    })
}

// -------------------------------------------------------------------------------- event receiver

/// Two events in a row, so that the second starts after any answer to the first
fn event<M: Mono>() {
    clear();
    let mut r = Receiver::<Spy<0>, NoPin, M, Out>::new(nd::u32());
    for i in 0..2 {
        let (e, d) = (any_edge(), M::any());
        let x = if i == 0 { r.event(d, e) } else { r.event_edge(d, e) };
        let l = log(0);
        assert!(l.told(i, e, M::ticks(d)), "the decoder is told of the event exactly once");
        assert!(same(&x, &l.outcome()), "the decoder's answer is returned");
        reach!(matches!(x, Ok(Some(_))), "a command");
        reach!(x.is_err(), "an error");
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
}

fn instant<M: Mono>() {
    clear();
    let mut r = Receiver::<Spy<0>, NoPin, M, Out>::new(nd::u32());
    let mut prev = 0;
    for i in 0..3 {
        let (e, t) = (any_edge(), any_t::<M>());
        let x = r.event_instant(M::at(t), e);
        let l = log(0);
        assert!(l.events == i + 1, "the decoder is told of the event exactly once");
        assert!(l.edge == e, "the edge is passed on");
        assert!(l.dt == M::since(t, prev), "the time since the previous event is passed on");
        assert!(same(&x, &l.outcome()), "the decoder's answer is returned");
        prev = t;
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
}

fn pin_event<M: Mono>() {
    clear();
    let id = nd::u32();
    let mut r = Receiver::<Spy<0>, SpyPin, M, Out>::with_pin(nd::u32(), SpyPin(id));
    let mut n = 0;
    let mut prev = 0;
    for i in 0..3 {
        let low = any_pin();
        set_pin(low);
        let t = any_t::<M>();
        let stamps = i != 1;
        let x = if stamps { r.event_instant(M::at(t)) } else { r.event(M::dur(t)) };
        let l = log(0);
        match low {
            Ok(low) => {
                let dt = if stamps { M::since(t, prev) } else { t };
                assert!(l.told(n, low, dt), "a low pin is a mark, told exactly once");
                assert!(same(&x, &lift(l.outcome())), "the decoder's answer is returned");
                n += 1;
                if stamps {
                    prev = t;
                }
            }
            Err(e) => {
                assert!(x == Err(Error::Hal(e)), "a failed pin read is returned");
                assert!(l.events == n, "a failed pin read changes nothing");
            }
        }
        assert!(reads() == 1, "the pin is read once");
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
    assert!(r.pin().0 == id && r.pin_mut().0 == id, "the receiver has the pin it was given");
    assert!(r.release().0 == id, "the pin is given back");
}

fn event_total() {
    use infrared::receiver::{DecoderBuilder, ProtocolDecoder};
    clear();
    let mut d = <Spy<0> as DecoderBuilder<u32>>::build(1);
    for i in 0..2 {
        let (e, t) = (any_edge(), nd::u32());
        let x = d.event_total(e, t).map(|c| c.map(Out::from));
        let l = log(0);
        assert!(l.told(i, e, t as u64), "the decoder is told of the event exactly once");
        assert!(same(&x, &l.outcome()), "the decoder's answer is returned");
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
}

// ------------------------------------------------------------------------------- polled receiver

/// One poll from an arbitrary clock, then one more
#[cfg(infrared_verif = "poll")]
fn poll_step() {
    clear();
    let mut r = PeriodicPoll::<Spy<0>, NoPin, Out>::new(nd::u32());
    let (clock, last, edge) = (nd::u32(), nd::u32(), nd::bool());
    r.verif_set((clock, last, edge));
    let mut age = clock.wrapping_sub(last);
    let mut level = edge;
    let mut n = 0;
    for i in 0..2 {
        let e = any_edge();
        let x = if i == 0 { r.poll(e) } else { r.poll_base(e) };
        age = age.wrapping_add(1);
        let l = log(0);
        if e == level {
            assert!(x == Ok(None) && l.events == n, "no change, no event");
        } else {
            assert!(l.told(n, e, age as u64), "a change is an event with the number of polls since the previous one");
            assert!(same(&x, &l.outcome()), "the decoder's answer is returned");
            age = 0;
            n += 1;
        }
        level = e;
        let (c, la, ed) = r.verif_get();
        assert!(c.wrapping_sub(la) == age && ed == level, "the time base stays well formed");
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
    reach!(n == 2, "two changes");
    reach!(clock == u32::MAX && n == 1, "wrap around");
}

/// From a new receiver
fn poll_fresh() {
    clear();
    let mut r = PeriodicPoll::<Spy<0>, NoPin, Out>::new(nd::u32());
    let (mut age, mut level, mut n) = (0, false, 0);
    for _ in 0..4 {
        let e = any_edge();
        let x = r.poll(e);
        age += 1;
        let l = log(0);
        if e == level {
            assert!(x == Ok(None) && l.events == n, "no change, no event");
        } else {
            assert!(l.told(n, e, age), "a change is an event with the number of polls since the previous one");
            assert!(same(&x, &l.outcome()), "the decoder's answer is returned");
            age = 0;
            n += 1;
            level = e;
        }
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
}

fn poll_pin() {
    clear();
    let mut r = PeriodicPoll::<Spy<0>, SpyPin, Out>::with_pin(nd::u32(), SpyPin(1));
    let (mut age, mut level, mut n) = (0, false, 0);
    for _ in 0..4 {
        let low = any_pin();
        set_pin(low);
        let x = r.poll();
        let l = log(0);
        assert!(reads() == 1, "the pin is read once");
        match low {
            Err(e) => assert!(x == Err(Error::Hal(e)) && l.events == n, "a failed pin read is no sample"),
            Ok(e) => {
                age += 1;
                if e == level {
                    assert!(x == Ok(None) && l.events == n, "no change, no event");
                } else {
                    assert!(l.told(n, e, age), "a change is an event with the number of polls since the previous one");
                    assert!(same(&x, &lift(l.outcome())), "the decoder's answer is returned");
                    age = 0;
                    n += 1;
                    level = e;
                }
            }
        }
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
}

// ------------------------------------------------------------------------------- buffer receiver

static mut SEEN: u32 = 0;
/// `next()` from any position of a buffer: what the decoder answers is recorded by a decoder of its own
mod rec {
    use super::*;
    use infrared::receiver::{time::PulseSpans, DecoderBuilder, ProtocolDecoder, State};
    pub struct Rec;
    impl infrared::Protocol for Rec {
        type Cmd = SpyCmd;
    }
    pub struct RecDecoder<M: Mono>(<Spy<0> as DecoderBuilder<M>>::Decoder);
    pub const N: usize = 5;
    /// (edge, duration, result) of every event so far
    pub static mut ALL: [(bool, u64, Option<u32>); N] = [(false, 0, None); N];
    pub fn all(i: usize) -> &'static mut (bool, u64, Option<u32>) {
        unsafe { &mut (*core::ptr::addr_of_mut!(ALL))[i] }
    }
    impl<M: Mono> DecoderBuilder<M> for Rec {
        type Decoder = RecDecoder<M>;
        fn build(freq: u32) -> Self::Decoder {
            RecDecoder(<Spy<0> as DecoderBuilder<M>>::build(freq))
        }
    }
    impl<M: Mono> ProtocolDecoder<Rec, M> for RecDecoder<M> {
        fn event(&mut self, edge: bool, dt: M::Duration) -> State {
            let s = self.0.event(edge, dt);
            let l = log(0);
            let i = l.events as usize - 1;
            assert!(i < N, "no entry is used twice");
            *all(i) = (edge, M::ticks(dt), l.outcome().unwrap_or(None));
            s
        }
        fn command(&self) -> Option<SpyCmd> {
            self.0.command()
        }
        fn reset(&mut self) {
            self.0.reset()
        }
        fn spans(&self) -> &PulseSpans<M> {
            self.0.spans()
        }
    }
}

fn buffer<M: Mono>(with: bool) {
    clear();
    unsafe { SEEN = 0 };
    let buf = [M::any(), M::any(), M::any()];
    let n = nd::below(4) as usize;
    let f = nd::u32();
    let mut r = BufferInputReceiver::<rec::Rec, M, Out>::with_frequenzy(if with { 1 } else { f });
    let mut it = if with {
        r.iter_with::<rec::Rec, M, Out>(f, &buf[..n])
    } else {
        r.iter(&buf[..n])
    };
    assert!(log(0).built == 1 && log(0).freq == f, "a new decoder for this clock");
    let mut used = 0;
    loop {
        let x = it.next();
        let seen = log(0).events as usize;
        assert!(seen <= n, "only entries of the buffer are used");
        for i in used..seen {
            let (e, d, c) = *rec::all(i);
            assert!(e == (i % 2 == 0) && d == M::ticks(buf[i]), "the entries in order, with alternating edges");
            if i + 1 < seen {
                assert!(c.is_none(), "no command is lost");
            } else {
                assert!(x == c.map(out), "the command is yielded");
            }
        }
        if x.is_none() {
            assert!(seen == n, "it ends only at the end of the buffer");
            break;
        }
        assert!(seen > used, "every command has its own entries");
        used = seen;
    }
    assert!(it.next().is_none() && it.next().is_none(), "it stays ended");
    assert!(log(0).events as usize == n && log(0).clean(), "every entry once, decoder reset after commands and errors");
    reach!(n == 3 && rec::all(0).2.is_some() && rec::all(2).2.is_some(), "commands at the start and the end");
}

/// One `next()` from any position of a longer buffer, with at most four entries left
#[cfg(infrared_verif = "iter")]
fn buffer_any<M: Mono>() {
    clear();
    const L: usize = 40;
    let k = nd::below(5) as usize;
    let p = nd::below(L as u8 - 4) as usize;
    let mut buf = [M::dur(0); L];
    for i in 0..4 {
        buf[p + i] = M::any();
    }
    let mut r = BufferInputReceiver::<rec::Rec, M, Out>::with_frequenzy(1);
    let mut it = r.iter(&buf[..p + k]);
    it.verif_set(p);
    let x = it.next();
    let seen = log(0).events as usize;
    assert!(seen <= k && it.verif_get() == p + seen, "only entries of the buffer are used, each once");
    for i in 0..4 {
        if i < seen {
            let (e, d, c) = *rec::all(i);
            assert!(e == ((p + i) % 2 == 0) && d == M::ticks(buf[p + i]), "the entries in order, with alternating edges");
            if i + 1 < seen {
                assert!(c.is_none(), "no command is lost");
            } else {
                assert!(x == c.map(out), "the command is yielded");
            }
        }
    }
    if x.is_none() {
        assert!(seen == k, "it ends only at the end of the buffer");
    } else {
        assert!(seen > 0, "every command has its own entries");
    }
    // what the decoder is left with shows at the next entry
    if seen < k {
        let _ = it.next();
    }
    assert!(log(0).clean(), "the decoder is reset after a command or an error, and only then");
    reach!(seen == 2 && k == 4 && p % 2 == 1, "a command in the middle");
    reach!(seen == 4 && x.is_none(), "no command");
}

/// One turn of the loop in `next()`, from any position of a buffer of any length with any contents: the
/// decoder cuts the execution off when it is asked a second time, after looking at how the loop came round
#[cfg(infrared_verif = "iter")]
pub mod turn {
    use super::*;
    use infrared::receiver::{time::PulseSpans, DecoderBuilder, ProtocolDecoder, State};
    use infrared::Protocol;
    use std::alloc::{alloc, Layout};

    pub struct Turn;
    impl Protocol for Turn {
        type Cmd = SpyCmd;
    }
    pub struct TurnDecoder;
    impl<M: Mono> DecoderBuilder<M> for Turn {
        type Decoder = TurnDecoder;
        fn build(_: u32) -> TurnDecoder {
            TurnDecoder
        }
    }
    /// position, turns, answer, command, resets, entry at the position and the one after it
    pub struct Now(usize, u32, State, Option<u32>, u32, [u64; 2]);
    static mut NOW: Now = Now(0, 0, State::Idle, None, 0, [0; 2]);
    fn now() -> &'static mut Now {
        unsafe { &mut *core::ptr::addr_of_mut!(NOW) }
    }
    fn over(s: State) -> bool {
        matches!(s, State::Done | State::Error(_))
    }
    impl<M: Mono> ProtocolDecoder<Turn, M> for TurnDecoder {
        fn event(&mut self, edge: bool, d: M::Duration) -> State {
            let n = now();
            assert!(edge == ((n.0 + n.1 as usize) % 2 == 0), "edges alternate, starting with a mark");
            assert!(M::ticks(d) == n.5[n.1 as usize], "the duration is the one at the position");
            if n.1 == 1 {
                assert!(!(n.2 == State::Done && n.3.is_some()), "no command is lost");
                assert!(n.4 == over(n.2) as u32, "the decoder is reset after a command or an error, and only then");
                nd::assume(false);
            }
            n.1 += 1;
            n.2 = match nd::below(4) {
                0 => State::Idle,
                1 => State::Receiving,
                2 => State::Done,
                _ => State::Error(DecodingError::Data),
            };
            n.3 = if nd::bool() { Some(nd::u32()) } else { None };
            n.2
        }
        fn command(&self) -> Option<SpyCmd> {
            let n = now();
            if n.1 == 1 && n.2 == State::Done && n.4 == 0 {
                n.3.map(SpyCmd)
            } else {
                None
            }
        }
        fn reset(&mut self) {
            now().4 += 1;
        }
        fn spans(&self) -> &PulseSpans<M> {
            unreachable!()
        }
    }

    pub fn turn<M: Mono>() {
        let (len, p) = (nd::usize(), nd::usize());
        let max = if cfg!(kani) { 1 << 42 } else { 1 << 24 };
        nd::assume(p <= len && len > 0 && len <= max);
        // 2^42 entries are all that the addresses of the verifier have room for; it leaves the contents open, except for the two entries that this turn can hand on
        let buf = unsafe {
            let b = alloc(Layout::array::<M::Duration>(len).unwrap()) as *mut M::Duration;
            nd::assume(!b.is_null());
            #[cfg(not(kani))]
            for i in 0..len {
                *b.add(i) = M::dur(0);
            }
            *now() = Now(p, 0, State::Idle, None, 0, [0; 2]);
            for i in 0..2 {
                if i < len - p {
                    let d = M::any();
                    *b.add(p + i) = d;
                    now().5[i] = M::ticks(d);
                }
            }
            core::slice::from_raw_parts(b, len)
        };
        let mut r = BufferInputReceiver::<Turn, M, Out>::with_frequenzy(1);
        let mut it = r.iter(buf);
        it.verif_set(p);
        let x = it.next();
        let n = now();
        assert!(it.verif_get() == p + n.1 as usize, "every entry is used once");
        assert!(n.1 == (p < len) as u32, "an entry is used if there is one");
        assert!(x == if n.1 == 1 && n.2 == State::Done { n.3.map(out) } else { None }, "the command is yielded");
        assert!(n.4 == (n.1 == 1 && over(n.2)) as u32, "the decoder is reset after a command or an error, and only then");
        if x.is_none() {
            assert!(it.verif_get() == len, "it ends only at the end of the buffer");
            assert!(it.next().is_none() && now().1 == n.1 && it.verif_get() == len, "it stays ended");
        }
        reach!(x.is_some() && p > 1 << 40, "a command far into a long buffer");
        reach!(x.is_none() && p < len, "the last entry is used up");
        reach!(p == len && len > 1 << 33, "at the end of a long buffer");
    }
}

// -------------------------------------------------------------------------------- multi receiver

macro_rules! multi {
    ($name:ident, $iter:ident, $n:literal, $($id:literal),*) => {
        fn $name<M: Mono>() {
            clear();
            let f = nd::u32();
            let mut r = MultiReceiver::<$n, ($(Spy<$id>,)*), SpyPin, M>::new(f, SpyPin(3));
            $( assert!(log($id).built == 1 && log($id).freq == f, "every decoder is built for the clock"); )*
            for i in 0..2u32 {
                let (e, d) = (any_edge(), M::any());
                let x: [Option<infrared::cmd::AnyCommand>; $n];
                if i == 0 {
                    x = r.event_generic(d, e);
                } else {
                    set_pin(Ok(e));
                    x = r.event(d).unwrap();
                    assert!(reads() == 1, "the pin is read once");
                }
                $(
                    assert!(log($id).told(i, e, M::ticks(d)), "every receiver sees the edge exactly once");
                    assert!(any_is(&x[$id], log($id).outcome().unwrap_or(None)), "slot i is the result of receiver i");
                )*
            }
            let ev = log(0).events;
            set_pin(Err(PinErr(5)));
            assert!(matches!(r.event(M::any()), Err(PinErr(5))) && log(0).events == ev, "a failed pin read is returned");
            $( assert!(log($id).clean(), "each decoder is reset after its own commands and errors only"); )*
            assert!(r.pin().0 == 3, "the pin is the one given");
            reach!(true $(&& log($id).outcome().is_ok_and(|c| c.is_some()))*, "all slots filled");
        }
        /// The flattened forms: slots in order, empty ones left out
        fn $iter<M: Mono>(pin: bool) {
            clear();
            let mut r = MultiReceiver::<$n, ($(Spy<$id>,)*), SpyPin, M>::new(1, SpyPin(3));
            let (e, d) = (any_edge(), M::any());
            if pin {
                set_pin(Ok(e));
                let it = r.event_iter(d).unwrap();
                $iter::check::<M>(it, e, d);
                set_pin(Err(PinErr(7)));
                assert!(matches!(r.event_iter(d), Err(PinErr(7))) && log(0).events == 1, "a failed pin read is returned");
            } else {
                let it = r.event_generic_iter(d, e);
                $iter::check::<M>(it, e, d);
            }
        }
        mod $iter {
            use super::*;
            pub fn check<M: Mono>(mut it: impl Iterator<Item = infrared::cmd::AnyCommand>, e: bool, d: M::Duration) {
                $(
                    assert!(log($id).told(0, e, M::ticks(d)), "every receiver sees the edge exactly once");
                    let x = log($id).outcome().unwrap_or(None);
                    if x.is_some() {
                        assert!(any_is(&it.next(), x), "the flattened form has the non-empty slots in order");
                    }
                    assert!(log($id).clean(), "each decoder is reset after its own commands and errors only");
                )*
                assert!(it.next().is_none(), "and nothing else");
                reach!(true $(&& log($id).outcome().is_ok_and(|c| c.is_some()))*, "all slots filled");
                reach!(true $(&& !log($id).outcome().is_ok_and(|c| c.is_some()))*, "no slot filled");
            }
        }
    };
}
multi!(multi2, iter2, 2, 0, 1);
multi!(multi3, iter3, 3, 0, 1, 2);
multi!(multi4, iter4, 4, 0, 1, 2, 3);
multi!(multi5, iter5, 5, 0, 1, 2, 3, 4);
multi!(multi6, iter6, 6, 0, 1, 2, 3, 4, 5);

// ---------------------------------------------------------------------- builders and constructors

fn built(f: u32) {
    assert!(log(0).built == 1 && log(0).freq == f, "the decoder is built once, for the chosen clock");
    clear();
}
/// A receiver without a pin: built for `f`, with no history
macro_rules! ck {
    ($f:expr, $b:expr, $m:ty) => {{
        let mut r = $b;
        assert!(log(0).built == 1 && log(0).freq == $f, "the decoder is built once, for the chosen clock");
        let (e, t) = (any_edge(), any_t::<$m>());
        let _ = r.event_instant(<$m as Mono>::at(t), e);
        assert!(log(0).told(0, e, <$m as Mono>::since(t, 0)), "a new receiver has no earlier history");
        clear();
    }};
}
macro_rules! ckpin {
    ($f:expr, $p:expr, $b:expr, $m:ty) => {{
        let mut r = $b;
        assert!(log(0).built == 1 && log(0).freq == $f, "the decoder is built once, for the chosen clock");
        assert!(r.pin().0 == $p, "the receiver has the pin it was given");
        let (e, t) = (any_edge(), any_t::<$m>());
        set_pin(Ok(e));
        let _ = r.event_instant(<$m as Mono>::at(t));
        assert!(log(0).told(0, e, <$m as Mono>::since(t, 0)), "a new receiver has no earlier history and reads its pin");
        clear();
    }};
}
macro_rules! ckpoll {
    ($f:expr, $b:expr) => {{
        let mut r = $b;
        assert!(log(0).built == 1 && log(0).freq == $f, "the decoder is built once, for the chosen clock");
        assert!(matches!(r.poll(false), Ok(None)) && log(0).events == 0, "a new receiver starts with no mark");
        let _ = r.poll(true);
        assert!(log(0).told(0, true, 2), "a new receiver has no earlier history");
        clear();
    }};
}
macro_rules! ckpollpin {
    ($f:expr, $b:expr) => {{
        let mut r = $b;
        assert!(log(0).built == 1 && log(0).freq == $f, "the decoder is built once, for the chosen clock");
        set_pin(Ok(false));
        assert!(matches!(r.poll(), Ok(None)) && log(0).events == 0, "a new receiver starts with no mark");
        set_pin(Ok(true));
        let _ = r.poll();
        assert!(log(0).told(0, true, 2), "a new receiver has no earlier history and reads its pin");
        clear();
    }};
}
type S = Spy<0>;
fn b() -> infrared::receiver::Builder {
    infrared::receiver()
}

fn builder_orders() {
    clear();
    let (f, g, p) = (nd::u32(), nd::u32(), nd::u32());
    ck!(1_000_000, b().protocol::<S>().build(), u32);
    ck!(f, b().frequency(f).protocol::<S>().build(), u32);
    ck!(f, b().protocol::<S>().frequency(f).build(), u32);
    ck!(f, b().frequency(g).frequency(f).protocol::<S>().build(), u32);
    ck!(f, b().frequency(g).protocol::<S>().frequency(f).build(), u32);
    ck!(f, b().frequency(f).monotonic::<u64>().protocol::<S>().build(), u64);
    ck!(f, b().monotonic::<u64>().frequency(f).protocol::<S>().build(), u64);
    ck!(f, b().protocol::<S>().frequency(f).monotonic::<u64>().build(), u64);
    ck!(1_000_000, b().protocol::<S>().monotonic::<u64>().build(), u64);
    ckpin!(f, p, b().frequency(f).pin(SpyPin(p)).protocol::<S>().build(), u32);
    ckpin!(f, p, b().pin(SpyPin(p)).frequency(f).protocol::<S>().build(), u32);
    ckpin!(f, p, b().protocol::<S>().pin(SpyPin(p)).frequency(f).build(), u32);
    ckpin!(f, p, b().frequency(g).protocol::<S>().frequency(f).pin(SpyPin(p)).monotonic::<u64>().build(), u64);
    ckpin!(f, p, b().pin(SpyPin(g)).frequency(f).pin(SpyPin(p)).protocol::<S>().build(), u32);
    ckpin!(1_000_000, p, b().pin(SpyPin(p)).protocol::<S>().build(), u32);
}
fn builder_orders2() {
    clear();
    let (f, g, p) = (nd::u32(), nd::u32(), nd::u32());
    ck!(f, b().frequency(f).protocol::<S>().remotecontrol(SpyRemote).build(), u32);
    ck!(f, b().protocol::<S>().remotecontrol(SpyRemote).frequency(f).build(), u32);
    ckpin!(f, p, b().protocol::<S>().frequency(f).pin(SpyPin(p)).remotecontrol(SpyRemote).build(), u32);
    ckpin!(f, p, b().protocol::<S>().remotecontrol(SpyRemote).pin(SpyPin(p)).frequency(f).build(), u32);
    ck!(f, b().frequency(f).protocol::<Spy<1>>().protocol::<S>().build(), u32);
    ckpoll!(1_000_000, b().protocol::<S>().build_polled());
    ckpoll!(f, b().frequency(f).protocol::<S>().build_polled());
    ckpoll!(f, b().protocol::<S>().frequency(g).frequency(f).build_polled());
    ckpoll!(f, b().frequency(f).protocol::<S>().remotecontrol(SpyRemote).build_polled());
    ckpollpin!(f, b().frequency(f).pin(SpyPin(p)).protocol::<S>().build_polled());
    ckpollpin!(f, b().protocol::<S>().pin(SpyPin(p)).frequency(f).build_polled());
    ckpollpin!(1_000_000, b().protocol::<S>().pin(SpyPin(p)).build_polled());
    let bb = infrared::receiver::Builder::default();
    ck!(1_000_000, bb.protocol::<S>().build(), u32);
}
fn constructors() {
    clear();
    let (f, p) = (nd::u32(), nd::u32());
    ck!(f, Receiver::<S>::new(f), u32);
    ck!(f, Receiver::<S, NoPin, u64>::new(f), u64);
    ck!(f, Receiver::<S, NoPin>::with_input(f, NoPin), u32);
    ckpin!(f, p, Receiver::<S, SpyPin>::with_input(f, SpyPin(p)), u32);
    ckpin!(f, p, Receiver::<S, SpyPin>::with_pin(f, SpyPin(p)), u32);
    ckpin!(f, p, Receiver::<S, SpyPin, u64>::with_pin(f, SpyPin(p)), u64);
    ckpoll!(f, PeriodicPoll::<S>::new(f));
    ckpoll!(f, PeriodicPoll::<S, NoPin>::with_input(f, NoPin));
    ckpollpin!(f, PeriodicPoll::<S, SpyPin>::with_pin(f, SpyPin(p)));
    ckpollpin!(f, PeriodicPoll::<S, SpyPin>::with_input(f, SpyPin(p)));
    let none: [u32; 0] = [];
    let mut r = BufferInputReceiver::<S>::new();
    r.iter(&none);
    built(1_000_000);
    let mut r = BufferInputReceiver::<S>::default();
    r.iter(&none);
    built(1_000_000);
    let mut r = BufferInputReceiver::<S>::with_frequenzy(f);
    r.iter(&none);
    built(f);
    r.iter_with::<S, u32, SpyCmd>(p, &none);
    built(p);
    r.iter(&none);
    built(f);
}
fn constructors_fugit() {
    clear();
    let p = nd::u32();
    ckpin!(1_000_000, p, Receiver::<S, SpyPin, F32<1_000_000>>::with_fugit(SpyPin(p)), F32<1_000_000>);
    ckpin!(32_768, p, Receiver::<S, SpyPin, F32<32_768>>::with_fugit(SpyPin(p)), F32<32_768>);
    ckpin!(48_000_000, p, Receiver::<S, SpyPin, F64<48_000_000>>::with_fugit64(SpyPin(p)), F64<48_000_000>);
    ckpin!(1_000_000, p, Receiver::<S, SpyPin, F64<1_000_000>>::with_fugit64(SpyPin(p)), F64<1_000_000>);
}

proofs! {
    [9] event_u32 => event::<u32>();
    [9] event_u64 => event::<u64>();
    [9] event_f32 => event::<F32<1_000_000>>();
    [9] instant_u32 => instant::<u32>();
    [9] instant_u64 => instant::<u64>();
    [9] instant_f32 => instant::<F32<1_000_000>>();
    [9] instant_f64 => instant::<F64<1_000_000>>();
    [9] pin_u32 => pin_event::<u32>();
    [9] pin_u64 => pin_event::<u64>();
    [9] pin_f32 => pin_event::<F32<1_000_000>>();
    [9] pin_f64 => pin_event::<F64<1_000_000>>();
    [9] total => event_total();
    [9] poll_from_new => poll_fresh();
    [9] poll_with_pin => poll_pin();
    [5] buffer_u32 => buffer::<u32>(false);
    [5] buffer_with_u64 => buffer::<u64>(true);
    [5] buffer_f32 => buffer::<F32<1_000_000>>(false);
    [9] multi_2 => multi2::<u32>();
    [4] multi_iter_2 => iter2::<u32>(true);
    [4] multi_iter_np_2 => iter2::<u32>(false);
    [9] multi_3 => multi3::<u32>();
    [5] multi_iter_3 => iter3::<u32>(true);
    [5] multi_iter_np_3 => iter3::<u32>(false);
    [9] multi_4 => multi4::<u32>();
    [6] multi_iter_4 => iter4::<u32>(true);
    [6] multi_iter_np_4 => iter4::<u32>(false);
    [9] multi_5 => multi5::<u32>();
    [7] multi_iter_5 => iter5::<u32>(true);
    [7] multi_iter_np_5 => iter5::<u32>(false);
    [9] multi_6 => multi6::<u32>();
    [8] multi_iter_6 => iter6::<u32>(true);
    [8] multi_iter_np_6 => iter6::<u32>(false);
    [9] multi_3_u64 => multi3::<u64>();
    [9] build_orders => builder_orders();
    [9] build_orders2 => builder_orders2();
    [9] build_direct => constructors();
    [9] build_fugit => constructors_fugit();
}
#[cfg(infrared_verif = "poll")]
pub mod hooked {
    use super::*;
    proofs! {
        [9] poll_any => poll_step();
    }
}
#[cfg(infrared_verif = "iter")]
pub mod hooked_iter {
    use super::*;
    proofs! {
        [3] turn_u32 => super::turn::turn::<u32>();
        [3] turn_u64 => super::turn::turn::<u64>();
        [3] turn_f32 => super::turn::turn::<F32<1_000_000>>();
        [6] buffer_any_u32 => buffer_any::<u32>();
        [6] buffer_any_u64 => buffer_any::<u64>();
        [6] buffer_any_f32 => buffer_any::<F32<1_000_000>>();
    }
}
