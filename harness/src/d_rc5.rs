//! Contracts of the Rc5 decoder, over an arbitrary decoder state satisfying the invariant
use crate::{mono::*, nd, proofs, reach, spec::*};
use infrared::protocol::Rc5;
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};

pub type Dec<M> = <Rc5 as DecoderBuilder<M>>::Decoder;

pub fn get<M: Mono>(d: &Dec<M>) -> Rc5S {
    let (tag, n, bits, clock) = d.verif_get();
    let st = match tag {
        0 => Rc5St::Idle,
        1 => Rc5St::Data(n),
        2 => Rc5St::Done,
        _ => Rc5St::Err,
    };
    Rc5S { st, bits, odd: clock & 1 == 1 }
}

pub fn build<M: Mono>(f: u32) -> Dec<M> {
    <Rc5 as DecoderBuilder<M>>::build(f)
}

/// A decoder in an arbitrary state that satisfies the invariant
fn any<M: Mono>(f: u32) -> (Dec<M>, Rc5S) {
    let mut d = build::<M>(f);
    let tag = nd::below(4);
    let n = nd::below(13) as u32;
    nd::assume(tag != 3 || n < 4);
    d.verif_set((tag, n, nd::u16(), nd::usize()));
    let s = get(&d);
    nd::assume(s.inv());
    (d, s)
}

fn status(r: State, st: Rc5St) -> bool {
    matches!(
        (r, st),
        (State::Idle, Rc5St::Idle)
            | (State::Receiving, Rc5St::Data(_))
            | (State::Done, Rc5St::Done)
            | (State::Error(_), Rc5St::Err)
    )
}

fn abandoned(s: &Rc5S) -> bool {
    matches!(s.st, Rc5St::Idle | Rc5St::Err)
}

fn units<M: Mono>(d: &Dec<M>, t: M::Duration) -> Option<usize> {
    d.spans().get::<usize>(t).filter(|k| *k < 2).map(|k| k + 1)
}

fn check(s: &Rc5S, p: &Rc5S, rising: bool, units: Option<usize>) {
    match s.next(rising, units) {
        Next::To(e) if s.st == Rc5St::Idle || units.is_none() => {
            assert!(p.same(&e), "C06 C08: after a gap an empty frame starts")
        }
        Next::To(e) => {
            assert!(p.st == e.st || p.st != Rc5St::Done, "C06 C08: a frame is complete only at its last bit");
            assert!(p.same(&e), "C06: edge handled as specified");
        }
        Next::Maybe(e) => assert!(p.same(&e) || abandoned(p), "C06 C08: edge handled as specified or frame abandoned"),
        Next::Abandon if matches!(s.st, Rc5St::Done | Rc5St::Err) => {}
        Next::Abandon => assert!(abandoned(p), "C08: disturbed frame is abandoned"),
    }
    assert!(p.safe(), "C01: bit index stays in range");
    assert!(p.inv(), "C06 C08: decoder state stays well formed");
}

/// One edge
fn step<M: Mono>(f: u32) {
    let (mut d, s) = any::<M>(f);
    let (rising, t) = (nd::bool(), M::any());
    let units = units::<M>(&d, t);
    let r = d.event(rising, t);
    let p = get(&d);
    check(&s, &p, rising, units);
    assert!(status(r, p.st), "C06 C08 C18: reported status is the decoder's state");
    reach!(s.st == Rc5St::Data(0) && p.st == Rc5St::Done, "last bit");
    reach!(s.st == Rc5St::Data(5) && units == Some(2), "two half-bits");
    reach!(s.st == Rc5St::Data(5) && units.is_none(), "disturbance");
}

/// command() in every state
fn command<M: Mono>(f: u32) {
    let (d, s) = any::<M>(f);
    let c = d.command();
    match s.st {
        Rc5St::Done => {
            assert!(c.is_some(), "C06 C18: a complete frame gives a command");
            let c = c.unwrap();
            assert!((c.start, c.toggle, c.addr, c.cmd) == rc5_fields(s.bits), "C06: command carries the bits of the frame");
        }
        _ => assert!(c.is_none(), "C18: no command unless complete"),
    }
    reach!(s.st == Rc5St::Done, "a command");
}

/// A new decoder
fn fresh<M: Mono>(f: u32) {
    let mut d = build::<M>(f);
    let s = get(&d);
    assert!(s.st == Rc5St::Idle && s.inv(), "C06 C08 C18 C19: a new decoder is idle");
    assert!(d.command().is_none(), "C18: a new decoder has no command");
    let (rising, t) = (nd::bool(), M::any());
    let units = units::<M>(&d, t);
    d.event(rising, t);
    check(&s, &get(&d), rising, units);
}

/// reset() from any state, then any two edges, compared with a new decoder
fn reset<M: Mono>(f: u32) {
    let (mut d, _) = any::<M>(f);
    let t = M::any();
    let old = d.spans().get::<usize>(t);
    d.event(false, M::any());
    d.reset();
    assert!(d.spans().get::<usize>(t) == old, "C06 C09 C18: reset keeps the windows");
    let p = get(&d);
    assert!(p.st == Rc5St::Idle && p.inv() && d.command().is_none(), "C06 C08 C18: idle after reset");
    let mut n = build::<M>(f);
    for _ in 0..2 {
        let (e, t) = (nd::bool(), M::any());
        let (a, b) = (d.event(e, t), n.event(e, t));
        assert!(a == b, "C18: same status as a new decoder");
        assert!(get(&d).same(&get(&n)), "C18: same state as a new decoder");
    }
    reach!(!matches!(get(&d).st, Rc5St::Idle), "a frame starts after reset");
}

proofs! {
    [9] step_1m => step::<A32>(0);
    [9] step_u64 => step::<A64>(0);
    [9] step_f32 => step::<AF32>(0);
    [9] step_f64 => step::<AF64>(0);
    [9] command_1m => command::<A32>(0);
    [9] fresh_1m => fresh::<A32>(0);
    [9] fresh_u64 => fresh::<A64>(0);
    [9] reset_1m => reset::<u32>(1_000_000);
    [9] reset_u64 => reset::<u64>(1_000_000);
}
