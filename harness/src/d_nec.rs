//! Contracts of the NEC decoder, over an arbitrary decoder state satisfying the invariant
use crate::{mono::*, nd, proofs, reach, spec::*, variant::Variant};
use infrared::protocol::{nec::*, Nec};
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};

pub type Dec<M, C> = <Nec<C> as DecoderBuilder<M>>::Decoder;

pub fn get<M: Mono, C: Variant>(d: &Dec<M, C>) -> NecS {
    let (tag, n, bits, valid) = d.verif_get();
    let st = match tag {
        0 => Pd::Idle,
        1 => Pd::Rx(n),
        2 => Pd::Done,
        3 => Pd::Repeat,
        _ => Pd::Err,
    };
    NecS { st, bits, valid }
}

pub fn build<M: Mono, C: Variant>(f: u32) -> Dec<M, C> {
    <Nec<C> as DecoderBuilder<M>>::build(f)
}

/// A decoder in an arbitrary state that satisfies the invariant
fn any<M: Mono, C: Variant>(f: u32) -> (Dec<M, C>, NecS) {
    let mut d = build::<M, C>(f);
    let tag = nd::below(5);
    let n = nd::below(32) as u32;
    nd::assume(tag != 4 || n < 4);
    d.verif_set((tag, n, nd::u32(), nd::bool()));
    let s = get(&d);
    nd::assume(s.inv());
    (d, s)
}

fn status(r: State, st: Pd) -> bool {
    matches!(
        (r, st),
        (State::Idle, Pd::Idle)
            | (State::Receiving, Pd::Rx(_))
            | (State::Done, Pd::Done | Pd::Repeat)
            | (State::Error(_), Pd::Err)
    )
}

fn abandoned(s: &NecS) -> bool {
    matches!(s.st, Pd::Idle | Pd::Err) && !s.valid
}

/// An interval with symbol `sym` in state `s` led to `p`
fn judge(s: &NecS, sym: Option<usize>, p: &NecS) {
    let memo = |e: &NecS| p.valid == e.valid && (!e.valid || p.bits == e.bits);
    match (s.st, s.next(sym)) {
        (Pd::Idle, Some(e)) if sym == Some(1) => {
            assert!(p.same(&e), "C03: repeat code handled as specified");
        }
        (Pd::Idle, Some(e)) if sym == Some(0) => {
            assert!(p.st == e.st && p.bits == e.bits, "C02 C08: a header starts an empty frame");
            assert!(p.valid == e.valid, "C03: a header forgets the latest frame");
        }
        (Pd::Idle, Some(e)) => {
            assert!(p.st == e.st, "C02 C08: nothing starts without a header");
            assert!(memo(&e), "C03: nothing else forgets the latest frame");
        }
        (_, Some(e)) => {
            assert!(p.st == e.st || p.st != Pd::Done, "C02 C08: a frame is complete only at its last bit");
            assert!(p.st == e.st && p.bits == e.bits, "C02: bit handled as specified");
            assert!(p.valid == e.valid, "C03: a frame is remembered once complete");
        }
        (Pd::Rx(_), None) if sym.is_none() => {
            assert!(matches!(p.st, Pd::Idle | Pd::Err), "C02 C08: a gap ends a frame");
            assert!(!p.valid, "C03: an abandoned frame is not remembered");
        }
        (Pd::Rx(_), None) => {
            assert!(matches!(p.st, Pd::Idle | Pd::Err), "C08: disturbed frame is abandoned");
            assert!(!p.valid, "C03: an abandoned frame is not remembered");
        }
        _ => {}
    }
}

/// One mark+space interval
fn step<M: Mono, C: Variant>(f: u32) {
    let (mut d, s) = any::<M, C>(f);
    let (hi, lo) = (M::any(), M::any());
    let r = d.event(false, hi);
    assert!(status(r, get(&d).st), "C02 C03 C08 C18: the status reported at the end of a mark is the decoder's state");
    if matches!(s.st, Pd::Idle | Pd::Rx(_)) {
        assert!(get(&d).same(&s), "C02 C03 C08: the end of a mark changes nothing");
    }
    let sym = d.spans().get::<usize>(M::sum(hi, lo)).filter(|k| *k < 4);
    let r = d.event(true, lo);
    let p = get(&d);
    judge(&s, sym, &p);
    assert!(p.safe(), "C01: bit index stays in range");
    assert!(p.inv(), "C02 C03 C08: decoder state stays well formed");
    assert!(status(r, p.st), "C02 C03 C08 C18: reported status is the decoder's state");
    reach!(s.st == Pd::Idle && sym == Some(0), "header");
    reach!(s.st == Pd::Idle && sym == Some(1) && s.valid, "repeat");
    reach!(s.st == Pd::Rx(31) && sym == Some(3), "last bit");
    reach!(s.st == Pd::Rx(7) && sym.is_none(), "disturbance");
}

/// Any two edges, alternating or not
fn edges<M: Mono, C: Variant>(f: u32) {
    let (mut d, mut s) = any::<M, C>(f);
    for _ in 0..2 {
        let r = d.event(nd::bool(), M::any());
        let p = get(&d);
        assert!(p.safe(), "C01: bit index stays in range");
        assert!(p.inv(), "C02 C03 C08: decoder state stays well formed");
        assert!(status(r, p.st), "C02 C03 C08 C18: reported status is the decoder's state");
        if let Pd::Rx(_) = s.st {
            let one = |k| s.next(Some(k)).map_or(false, |e| p.same(&e));
            assert!(p.same(&s) || abandoned(&p) || one(2) || one(3), "C08: at most one bit per edge");
        } else if s.st == Pd::Idle {
            assert!(!matches!(p.st, Pd::Done | Pd::Err), "C08: no command without a frame");
        }
        s = p;
    }
}

/// command() in every state
fn command<M: Mono, C: Variant>(f: u32) {
    let (d, s) = any::<M, C>(f);
    let c = d.command();
    match s.st {
        Pd::Done => assert!(C::right(&c, s.bits, false), "C02: command carries the bits of the frame"),
        Pd::Repeat => assert!(C::right(&c, s.bits, true), "C03: repeat carries the bits of the frame"),
        _ => assert!(c.is_none(), "C18: no command unless complete"),
    }
    reach!(c.is_some(), "a command");
    reach!(s.st == Pd::Repeat, "a repeat");
}

/// A new decoder
fn fresh<M: Mono, C: Variant>(f: u32) {
    let mut d = build::<M, C>(f);
    let s = get(&d);
    assert!(s.st == Pd::Idle && !s.valid, "C02 C03 C08 C18 C19: a new decoder is idle and remembers no frame");
    assert!(d.command().is_none(), "C18: a new decoder has no command");
    // and no mark
    let t = M::any();
    let sym = d.spans().get::<usize>(t).filter(|k| *k < 4);
    d.event(true, t);
    let e = s.next(sym);
    assert!(e.map_or(false, |e| get(&d).same(&e)), "C18 C19: a new decoder has seen no mark");
}

/// reset() from any state, then any three edges, compared with a new decoder that remembers the
/// same frame
fn reset<M: Mono, C: Variant>(f: u32) {
    let (mut d, s) = any::<M, C>(f);
    let t = M::any();
    let old = d.spans().get::<usize>(t);
    d.event(false, M::any());
    let s1 = get(&d);
    d.reset();
    assert!(d.spans().get::<usize>(t) == old, "C02 C09 C18: reset keeps the windows");
    let p = get(&d);
    assert!(p.st == Pd::Idle && d.command().is_none(), "C02 C08 C18: idle after reset");
    assert!(p.same(&s1.reset()), "C03 C18: reset keeps exactly the last complete frame");
    if matches!(s.st, Pd::Rx(_)) {
        assert!(!p.valid, "C03: a broken frame is not remembered");
    }
    let mut n = build::<M, C>(f);
    n.verif_set((0, 0, p.bits, p.valid));
    for _ in 0..3 {
        let (e, t) = (nd::bool(), M::any());
        let (a, b) = (d.event(e, t), n.event(e, t));
        assert!(a == b, "C18: same status as a new decoder");
        assert!(get(&d).same(&get(&n)), "C18: same state as a new decoder");
    }
    reach!(matches!(get(&d).st, Pd::Rx(_)), "a frame starts after reset");
}

proofs! {
    [9] step_std => step::<A32, NecCommand>(0);
    [9] step_samsung => step::<A32, SamsungNecCommand>(0);
    [9] step_nec16 => step::<A32, Nec16Command>(0);
    [9] step_apple => step::<A32, AppleNecCommand>(0);
    [9] step_raw => step::<A32, NecDebugCmd>(0);
    [9] step_u64 => step::<A64, NecCommand>(0);
    [9] step_f32 => step::<AF32, NecCommand>(0);
    [9] step_f64 => step::<AF64, NecCommand>(0);
    [9] edges_std => edges::<A32, NecCommand>(0);
    [9] edges_samsung => edges::<A32, SamsungNecCommand>(0);
    [9] edges_u64 => edges::<A64, NecCommand>(0);
    [9] edges_f32 => edges::<AF32, NecCommand>(0);
    [9] edges_f64 => edges::<AF64, NecCommand>(0);
    [40] command_std => command::<A32, NecCommand>(0);
    [40] command_samsung => command::<A32, SamsungNecCommand>(0);
    [40] command_nec16 => command::<A32, Nec16Command>(0);
    [40] command_apple => command::<A32, AppleNecCommand>(0);
    [40] command_raw => command::<A32, NecDebugCmd>(0);
    [9] fresh_std => fresh::<A32, NecCommand>(0);
    [9] fresh_samsung => fresh::<A32, SamsungNecCommand>(0);
    [9] fresh_u64 => fresh::<A64, NecCommand>(0);
    [9] reset_std => reset::<u32, NecCommand>(1_000_000);
    [9] reset_samsung => reset::<u32, SamsungNecCommand>(1_000_000);
    [9] reset_u64 => reset::<u64, NecCommand>(1_000_000);
}
