//! Contracts of the Rc6 decoder, over an arbitrary decoder state satisfying the invariant
use crate::{mono::*, nd, proofs, reach, spec::*};
use infrared::protocol::Rc6;
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};

pub type Dec<M> = <Rc6 as DecoderBuilder<M>>::Decoder;

pub fn get<M: Mono>(d: &Dec<M>) -> Rc6S {
    let (tag, n, data, head, toggle, clock) = d.verif_get();
    let st = match tag {
        0 => Rc6St::Idle,
        1 => Rc6St::Lead,
        2 => Rc6St::Pause,
        3 => Rc6St::Head(n),
        4 => Rc6St::Trail,
        5 => Rc6St::Data(n),
        6 => Rc6St::Done,
        _ => Rc6St::Err,
    };
    Rc6S { st, data, head, toggle, odd: clock & 1 == 1 }
}

pub fn build<M: Mono>(f: u32) -> Dec<M> {
    <Rc6 as DecoderBuilder<M>>::build(f)
}

/// A decoder in an arbitrary state that satisfies the invariant
fn any<M: Mono>(f: u32) -> (Dec<M>, Rc6S) {
    let mut d = build::<M>(f);
    let tag = nd::below(8);
    let n = nd::below(16) as u32;
    nd::assume(tag != 7 || n < 4);
    nd::assume(tag != 3 || n < 4);
    d.verif_set((tag, n, nd::u16(), nd::u16(), nd::bool(), nd::usize()));
    let s = get(&d);
    nd::assume(s.inv());
    (d, s)
}

fn status(r: State, st: Rc6St) -> bool {
    matches!(
        (r, st),
        (State::Idle, Rc6St::Idle)
            | (
                State::Receiving,
                Rc6St::Lead | Rc6St::Pause | Rc6St::Head(_) | Rc6St::Trail | Rc6St::Data(_)
            )
            | (State::Done, Rc6St::Done)
            | (State::Error(_), Rc6St::Err)
    )
}

fn abandoned(s: &Rc6S) -> bool {
    matches!(s.st, Rc6St::Idle | Rc6St::Err)
}

fn units<M: Mono>(d: &Dec<M>, t: M::Duration) -> Option<usize> {
    d.spans().get::<usize>(t).filter(|k| *k < 6).map(|k| k + 1)
}

fn check(s: &Rc6S, p: &Rc6S, rising: bool, units: Option<usize>) {
    match s.next(rising, units) {
        Next::To(e) if s.st == Rc6St::Idle || units.is_none() => {
            assert!(p.same(&e), "C07 C08: after a gap an empty frame starts")
        }
        Next::To(e) => {
            assert!(p.st == e.st || p.st != Rc6St::Done, "C07 C08: a frame is complete only at its last bit");
            assert!(p.same(&e), "C07: edge handled as specified");
        }
        Next::Maybe(e) => assert!(p.same(&e) || abandoned(p), "C07 C08: edge handled as specified or frame abandoned"),
        Next::Abandon if matches!(s.st, Rc6St::Done | Rc6St::Err) => {}
        Next::Abandon => assert!(abandoned(p), "C08: disturbed frame is abandoned"),
    }
    assert!(p.safe(), "C01: bit index stays in range");
    assert!(p.inv(), "C07 C08: decoder state stays well formed");
}

/// One edge
fn step<M: Mono>(f: u32) {
    let (mut d, s) = any::<M>(f);
    let (rising, t) = (nd::bool(), M::any());
    let units = units::<M>(&d, t);
    let r = d.event(rising, t);
    let p = get(&d);
    check(&s, &p, rising, units);
    assert!(status(r, p.st), "C07 C08 C18: reported status is the decoder's state");
    reach!(s.st == Rc6St::Data(0) && p.st == Rc6St::Done, "last bit");
    reach!(s.st == Rc6St::Lead && p.st == Rc6St::Pause, "leader");
    reach!(s.st == Rc6St::Trail && units == Some(3), "toggle");
    reach!(s.st == Rc6St::Data(5) && units.is_none(), "disturbance");
}

/// command() in every state
fn command<M: Mono>(f: u32) {
    let (d, s) = any::<M>(f);
    let c = d.command();
    match s.st {
        Rc6St::Done => {
            assert!(c.is_some(), "C07 C18: a complete frame gives a command");
            let c = c.unwrap();
            assert!((c.addr, c.cmd) == ((s.data >> 8) as u8, s.data as u8), "C07: command carries the bits of the frame");
            assert!(c.toggle == s.toggle, "C07: command carries the toggle bit of the frame");
        }
        _ => assert!(c.is_none(), "C18: no command unless complete"),
    }
    reach!(s.st == Rc6St::Done, "a command");
}

/// A new decoder
fn fresh<M: Mono>(f: u32) {
    let mut d = build::<M>(f);
    let s = get(&d);
    assert!(s.st == Rc6St::Idle && s.inv(), "C07 C08 C18 C19: a new decoder is idle");
    assert!(d.command().is_none(), "C18: a new decoder has no command");
    let (rising, t) = (nd::bool(), M::any());
    let units = units::<M>(&d, t);
    d.event(rising, t);
    check(&s, &get(&d), rising, units);
}

/// reset() from any state, then any two edges, compared with a new decoder
fn reset<M: Mono>(f: u32) {
    let (mut d, _) = any::<M>(f);
    let t = M::any();
    let old = d.spans().get::<usize>(t);
    d.event(false, M::any());
    d.reset();
    assert!(d.spans().get::<usize>(t) == old, "C07 C09 C18: reset keeps the windows");
    let p = get(&d);
    assert!(p.st == Rc6St::Idle && p.inv() && d.command().is_none(), "C07 C08 C18: idle after reset");
    let mut n = build::<M>(f);
    for _ in 0..2 {
        let (e, t) = (nd::bool(), M::any());
        let (a, b) = (d.event(e, t), n.event(e, t));
        assert!(a == b, "C18: same status as a new decoder");
        assert!(get(&d).same(&get(&n)), "C18: same state as a new decoder");
    }
    reach!(!matches!(get(&d).st, Rc6St::Idle), "a frame starts after reset");
}

proofs! {
    [9] step_1m => step::<A32>(0);
    [9] step_u64 => step::<A64>(0);
    [9] step_f32 => step::<AF32>(0);
    [9] step_f64 => step::<AF64>(0);
    [9] command_1m => command::<A32>(0);
    [9] fresh_1m => fresh::<A32>(0);
    [9] fresh_u64 => fresh::<A64>(0);
    [9] reset_1m => reset::<u32>(1_000_000);
    [9] reset_u64 => reset::<u64>(1_000_000);
}
