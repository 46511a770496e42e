//! Contracts of the Sbp decoder, over an arbitrary decoder state satisfying the invariant
use crate::{mono::*, nd, proofs, reach, spec::*};
use infrared::protocol::Sbp;
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};

pub type Dec<M> = <Sbp as DecoderBuilder<M>>::Decoder;

pub fn get<M: Mono>(d: &Dec<M>) -> SbpS {
    let (tag, n, addr, cmd) = d.verif_get();
    let st = match tag {
        0 => Pd::Idle,
        1 => Pd::Rx(n),
        2 => Pd::Rx(16),
        3 => Pd::Rx(17 + n),
        4 => Pd::Done,
        _ => Pd::Err,
    };
    SbpS { st, addr, cmd }
}

pub fn build<M: Mono>(f: u32) -> Dec<M> {
    <Sbp as DecoderBuilder<M>>::build(f)
}

/// A decoder in an arbitrary state that satisfies the invariant
fn any<M: Mono>(f: u32) -> (Dec<M>, SbpS) {
    let mut d = build::<M>(f);
    let tag = nd::below(6);
    let n = nd::below(20) as u32;
    nd::assume(tag != 5 || n < 4);
    nd::assume(tag != 1 || n < 16);
    d.verif_set((tag, n, nd::u16(), nd::u32()));
    let s = get(&d);
    nd::assume(s.inv());
    (d, s)
}

fn status(r: State, st: Pd) -> bool {
    matches!(
        (r, st),
        (State::Idle, Pd::Idle)
            | (State::Receiving, Pd::Rx(_))
            | (State::Done, Pd::Done)
            | (State::Error(_), Pd::Err)
    )
}

fn abandoned(s: &SbpS) -> bool {
    matches!(s.st, Pd::Idle | Pd::Err)
}

/// An interval with symbol `sym` in state `s` led to `p`
fn judge(s: &SbpS, sym: Option<usize>, p: &SbpS) {
    match (s.st, s.next(sym)) {
        (Pd::Idle, Some(e)) => assert!(p.same(&e), "C04 C08: a header and nothing else starts an empty frame"),
        (_, Some(e)) => {
            assert!(p.st == e.st || p.st != Pd::Done, "C04 C08: a frame is complete only at its last bit");
            assert!(p.same(&e), "C04: bit handled as specified");
        }
        (Pd::Rx(_), None) if sym.is_none() => assert!(abandoned(p), "C04 C08: a gap ends a frame"),
        (Pd::Rx(_), None) => assert!(abandoned(p), "C08: disturbed frame is abandoned"),
        _ => {}
    }
}

/// One mark+space interval
fn step<M: Mono>(f: u32) {
    let (mut d, s) = any::<M>(f);
    let (hi, lo) = (M::any(), M::any());
    let r = d.event(false, hi);
    assert!(status(r, get(&d).st), "C04 C08 C18: the status reported at the end of a mark is the decoder's state");
    if matches!(s.st, Pd::Idle | Pd::Rx(_)) {
        assert!(get(&d).same(&s), "C04 C08: the end of a mark changes nothing");
    }
    let sym = d.spans().get::<usize>(M::sum(hi, lo)).filter(|k| *k < 4);
    let r = d.event(true, lo);
    let p = get(&d);
    judge(&s, sym, &p);
    assert!(p.safe(), "C01: bit index stays in range");
    assert!(p.inv(), "C04 C08: decoder state stays well formed");
    assert!(status(r, p.st), "C04 C08 C18: reported status is the decoder's state");
    reach!(s.st == Pd::Idle && sym == Some(0), "header");
    reach!(s.st == Pd::Rx(7) && sym.is_none(), "disturbance");
    reach!(s.st == Pd::Rx(15) && sym == Some(3), "last address bit");
    reach!(s.st == Pd::Rx(16) && sym == Some(1), "pause");
    reach!(s.st == Pd::Rx(36) && sym == Some(3), "last bit");
}

/// Any two edges, alternating or not
fn edges<M: Mono>(f: u32) {
    let (mut d, mut s) = any::<M>(f);
    for _ in 0..2 {
        let r = d.event(nd::bool(), M::any());
        let p = get(&d);
        assert!(p.safe(), "C01: bit index stays in range");
        assert!(p.inv(), "C04 C08: decoder state stays well formed");
        assert!(status(r, p.st), "C04 C08 C18: reported status is the decoder's state");
        if let Pd::Rx(_) = s.st {
            let one = |k| s.next(Some(k)).map_or(false, |e| p.same(&e));
            assert!(p.same(&s) || abandoned(&p) || (1..=3).any(one), "C08: at most one bit per edge");
        } else if s.st == Pd::Idle {
            assert!(!matches!(p.st, Pd::Done | Pd::Err), "C08: no command without a frame");
        }
        s = p;
    }
}

/// command() in every state
fn command<M: Mono>(f: u32) {
    let (d, s) = any::<M>(f);
    let c = d.command();
    match s.st {
        Pd::Done => {
            assert!(c.is_some(), "C04 C18: a complete frame gives a command");
            let (cmd, valid) = sbp_fields(s.cmd);
            let c = c.unwrap();
            assert!(c.address == s.addr, "C04: address carries the bits of the frame");
            assert!(c.command == cmd, "C04: command carries the bits of the frame");
            assert!(c.valid == valid, "C04: valid exactly if the check bits are right");
        }
        _ => assert!(c.is_none(), "C18: no command unless complete"),
    }
    reach!(s.st == Pd::Done, "a command");
}

/// A new decoder
fn fresh<M: Mono>(f: u32) {
    let mut d = build::<M>(f);
    let s = get(&d);
    assert!(s.st == Pd::Idle && s.inv(), "C04 C08 C18 C19: a new decoder is idle");
    assert!(d.command().is_none(), "C18: a new decoder has no command");
    let t = M::any();
    let sym = d.spans().get::<usize>(t).filter(|k| *k < 4);
    d.event(true, t);
    let e = s.next(sym);
    assert!(e.map_or(false, |e| get(&d).same(&e)), "C18 C19: a new decoder has seen no mark");
}

/// reset() from any state, then any three edges, compared with a new decoder
fn reset<M: Mono>(f: u32) {
    let (mut d, _) = any::<M>(f);
    let t = M::any();
    let old = d.spans().get::<usize>(t);
    d.event(false, M::any());
    d.reset();
    assert!(d.spans().get::<usize>(t) == old, "C04 C09 C18: reset keeps the windows");
    let p = get(&d);
    assert!(p.st == Pd::Idle && p.inv() && d.command().is_none(), "C04 C08 C18: idle after reset");
    let mut n = build::<M>(f);
    for _ in 0..3 {
        let (e, t) = (nd::bool(), M::any());
        let (a, b) = (d.event(e, t), n.event(e, t));
        assert!(a == b, "C18: same status as a new decoder");
        assert!(get(&d).same(&get(&n)), "C18: same state as a new decoder");
    }
    reach!(matches!(get(&d).st, Pd::Rx(_)), "a frame starts after reset");
}

proofs! {
    [9] step_1m => step::<A32>(0);
    [9] step_u64 => step::<A64>(0);
    [9] step_f32 => step::<AF32>(0);
    [9] step_f64 => step::<AF64>(0);
    [9] edges_1m => edges::<A32>(0);
    [9] edges_u64 => edges::<A64>(0);
    [9] edges_f32 => edges::<AF32>(0);
    [9] edges_f64 => edges::<AF64>(0);
    [9] command_1m => command::<A32>(0);
    [9] fresh_1m => fresh::<A32>(0);
    [9] fresh_u64 => fresh::<A64>(0);
    [9] reset_1m => reset::<u32>(1_000_000);
    [9] reset_u64 => reset::<u64>(1_000_000);
}
