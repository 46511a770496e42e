//! Lemmas over the decoder contracts (`spec`): what the step contracts say about whole histories.
//! A receiver resets its decoder after a command or an error (contract of Receiver::event_edge), so
//! between events it is idle or inside a frame.
use crate::{nd, proofs, reach, spec::*};

fn sym(n: u8) -> Option<usize> {
    let k = nd::below(n + 1);
    if k == n {
        None
    } else {
        Some(k as usize)
    }
}

// ------------------------------------------------------------------------------------------- NEC

fn nec_any() -> NecS {
    let s = NecS { st: if nd::bool() { Pd::Idle } else { Pd::Rx(nd::below(32) as u32) }, bits: nd::u32(), valid: nd::bool() };
    nd::assume(s.inv());
    s
}

/// Next state between events, and the result (bits, repeat) reported at this interval
fn nec_recv(s: NecS, sym: Option<usize>) -> (NecS, Option<(u32, bool)>) {
    match s.next(sym) {
        Some(e) => match e.st {
            Pd::Done => (e.reset(), Some((e.bits, false))),
            Pd::Repeat => (e.reset(), Some((e.bits, true))),
            _ => (e, None),
        },
        // abandoned: idle or error, then reset
        None => (NecS { st: Pd::Idle, bits: nd::u32(), valid: false }, None),
    }
}

/// Any history, a gap, a frame: exactly this frame is reported, at its last bit
fn nec_frame() {
    let (s, r) = nec_recv(nec_any(), None);
    assert!(r.is_none(), "a gap reports nothing");
    let (mut s, r) = nec_recv(s, Some(0));
    assert!(r.is_none(), "a header reports nothing");
    let w = nd::u32();
    for i in 0..32 {
        let (t, r) = nec_recv(s, Some(2 + (w >> i & 1) as usize));
        s = t;
        assert!(r == if i == 31 { Some((w, false)) } else { None }, "the frame and nothing else");
    }
    assert!(s.st == Pd::Idle && s.inv());
    // and a repeat code after a gap repeats it
    let (s, r) = nec_recv(s, None);
    assert!(r.is_none(), "a gap reports nothing");
    let (s, r) = nec_recv(s, Some(1));
    assert!(r == Some((w, true)), "the repeat code repeats the frame");
    let (_, r) = nec_recv(s, Some(1));
    assert!(r == Some((w, true)), "and again");
}

/// One step of any history. Ghost: the intervals since the latest header interval are `run` bits
/// with value `word` (run = 255: something else came in between); `last`: the latest frame if complete
fn nec_history() {
    let s = nec_any();
    let (run, word, last, has) = (nd::u8(), nd::u32(), nd::u32(), nd::bool());
    // Link between decoder and ghost
    if let Pd::Rx(n) = s.st {
        nd::assume(run as u32 == n && word == s.bits && !has);
    }
    nd::assume(s.valid == has && (!has || s.bits == last));
    let sy = sym(4);
    let (p, r) = nec_recv(s, sy);
    // The ghost is a function of the intervals and results alone
    let (run2, word2) = match sy {
        Some(0) => (0, 0),
        Some(b @ 2..=3) if run < 32 => (run + 1, word | ((b as u32 - 2) << run)),
        _ => (255, 0),
    };
    let (mut last2, mut has2) = (last, has);
    if sy == Some(0) {
        has2 = false;
    }
    match r {
        Some((bits, false)) => {
            assert!(run2 == 32 && word2 == bits, "a command is a header and 32 bits, uninterrupted");
            last2 = bits;
            has2 = true;
        }
        Some((bits, true)) => {
            assert!(sy == Some(1) && has && bits == last, "a repeat repeats the latest frame, complete");
        }
        None => assert!(!(sy == Some(1) && has && s.st == Pd::Idle), "a repeat code is not lost"),
    }
    assert!(p.inv());
    if let Pd::Rx(n) = p.st {
        assert!(run2 as u32 == n && word2 == p.bits && !has2, "bits of this frame only");
    }
    assert!(p.valid == has2 && (!has2 || p.bits == last2), "the latest frame is remembered only if complete");
    reach!(matches!(r, Some((_, false))), "a command");
    reach!(matches!(r, Some((_, true))), "a repeat");
}

// ----------------------------------------------------------------------------------------- Denon

fn denon_any() -> DenonS {
    let s = DenonS { st: if nd::bool() { Pd::Idle } else { Pd::Rx(nd::below(48) as u32) }, bits: nd::u64() };
    nd::assume(s.inv());
    s
}
fn denon_recv(s: DenonS, sym: Option<usize>) -> (DenonS, Option<u64>) {
    match s.next(sym) {
        Some(e) if e.st == Pd::Done => (e.reset(), Some(e.bits)),
        Some(e) => (e, None),
        None => (DenonS { st: Pd::Idle, bits: nd::u64() }, None),
    }
}
fn denon_frame() {
    let (s, r) = denon_recv(denon_any(), None);
    assert!(r.is_none(), "a gap reports nothing");
    let (mut s, r) = denon_recv(s, Some(0));
    assert!(r.is_none(), "a header reports nothing");
    let w = nd::u64() & ((1 << 48) - 1);
    for i in 0..48 {
        let (t, r) = denon_recv(s, Some(1 + (w >> i & 1) as usize));
        s = t;
        assert!(r == if i == 47 { Some(w) } else { None }, "the frame and nothing else");
    }
    assert!(s.st == Pd::Idle && s.inv());
}
fn denon_history() {
    let s = denon_any();
    let (run, word) = (nd::u8(), nd::u64());
    if let Pd::Rx(n) = s.st {
        nd::assume(run as u32 == n && word == s.bits);
    }
    let sy = sym(3);
    let (p, r) = denon_recv(s, sy);
    let (run2, word2) = match sy {
        Some(0) => (0, 0),
        Some(b) if run < 48 => (run + 1, word | ((b as u64 - 1) << run)),
        _ => (255, 0),
    };
    if let Some(bits) = r {
        assert!(run2 == 48 && word2 == bits, "a command is a header and 48 bits, uninterrupted");
    }
    assert!(p.inv());
    if let Pd::Rx(n) = p.st {
        assert!(run2 as u32 == n && word2 == p.bits, "bits of this frame only");
    }
    reach!(r.is_some(), "a command");
}

// ------------------------------------------------------------------------------------------- SBP

fn sbp_any() -> SbpS {
    let s = SbpS { st: if nd::bool() { Pd::Idle } else { Pd::Rx(nd::below(37) as u32) }, addr: nd::u16(), cmd: nd::u32() };
    nd::assume(s.inv());
    s
}
fn sbp_recv(s: SbpS, sym: Option<usize>) -> (SbpS, Option<(u16, u32)>) {
    match s.next(sym) {
        Some(e) if e.st == Pd::Done => (e.reset(), Some((e.addr, e.cmd))),
        Some(e) => (e, None),
        None => (s.reset(), None),
    }
}
fn sbp_frame() {
    let (s, r) = sbp_recv(sbp_any(), None);
    assert!(r.is_none(), "a gap reports nothing");
    let (mut s, r) = sbp_recv(s, Some(0));
    assert!(r.is_none(), "a header reports nothing");
    let (a, c) = (nd::u16(), nd::u32() & 0xFFFFF);
    for i in 0..37 {
        let sy = match i {
            0..=15 => 2 + (a >> i & 1) as usize,
            16 => 1,
            _ => 2 + (c >> (i - 17) & 1) as usize,
        };
        let (t, r) = sbp_recv(s, Some(sy));
        s = t;
        assert!(r == if i == 36 { Some((a, c)) } else { None }, "the frame and nothing else");
    }
    assert!(s.st == Pd::Idle && s.inv());
}
fn sbp_history() {
    let s = sbp_any();
    let (run, a, c) = (nd::u8(), nd::u16(), nd::u32());
    if let Pd::Rx(n) = s.st {
        nd::assume(run as u32 == n && a == s.addr && c == s.cmd);
    }
    let sy = sym(4);
    let (p, r) = sbp_recv(s, sy);
    let (run2, a2, c2) = match sy {
        Some(0) => (0, 0, 0),
        Some(1) if run == 16 => (17, a, c),
        Some(b @ 2..=3) if run < 16 => (run + 1, a | ((b as u16 - 2) << run), c),
        Some(b @ 2..=3) if run > 16 && run < 37 => (run + 1, a, c | ((b as u32 - 2) << (run - 17))),
        _ => (255, 0, 0),
    };
    if let Some(x) = r {
        assert!(run2 == 37 && (a2, c2) == x, "a command is a header, 16 bits, a pause and 20 bits, uninterrupted");
    }
    assert!(p.inv());
    if let Pd::Rx(n) = p.st {
        assert!(run2 as u32 == n && (a2, c2) == (p.addr, p.cmd), "bits of this frame only");
    }
    reach!(r.is_some(), "a command");
}

// ------------------------------------------------------------------------------------------- RC5

fn rc5_any() -> Rc5S {
    let s = Rc5S {
        st: if nd::bool() { Rc5St::Idle } else { Rc5St::Data(nd::below(13) as u32) },
        bits: nd::u16(),
        odd: nd::bool(),
    };
    nd::assume(s.inv());
    s
}
fn rc5_recv(s: Rc5S, rising: bool, units: Option<usize>) -> (Rc5S, Option<u16>) {
    let idle = Rc5S { st: Rc5St::Idle, bits: 0, odd: nd::bool() };
    match s.next(rising, units) {
        Next::To(e) if e.st == Rc5St::Done => (idle, Some(e.bits)),
        Next::To(e) => (e, None),
        Next::Maybe(e) => (if nd::bool() { e } else { idle }, None),
        Next::Abandon => (idle, None),
    }
}
/// Level of half-bit `h` of a RC5 frame: a one is space, mark
pub fn rc5_level(w: u16, h: usize) -> bool {
    (w >> (13 - h / 2) & 1 == 1) == (h % 2 == 1)
}
fn rc5_frame() {
    let w = nd::u16();
    nd::assume(w >> 13 == 1);
    // The edge after the idle time is the mid-bit edge of the first start bit
    let (mut s, r) = rc5_recv(rc5_any(), true, None);
    assert!(r.is_none(), "the first edge reports nothing");
    let mut last = 1;
    for h in 2..28 {
        if rc5_level(w, h) != rc5_level(w, h - 1) {
            let (t, r) = rc5_recv(s, rc5_level(w, h), Some(h - last));
            s = t;
            last = h;
            assert!(r == if h == 27 { Some(w) } else { None }, "the frame and nothing else");
        }
    }
    assert!(last == 27 && s.st == Rc5St::Idle);
}
/// Ghost: `taken` mid-bit edges with values `word` since the edge that started the frame, `odd`
/// half-bits since then, every pulse in between one or two half-bits long (taken = 255: no frame)
fn rc5_history() {
    let s = rc5_any();
    let (taken, word, odd) = (nd::u8(), nd::u16(), nd::bool());
    nd::assume(taken <= 13 || taken == 255);
    if let Rc5St::Data(n) = s.st {
        nd::assume(taken as u32 == 12 - n && word << (n + 1) == s.bits & 0x1FFF && odd == s.odd && word >> taken == 0);
    }
    let (rising, u) = (nd::bool(), sym(2).map(|k| k + 1));
    let (p, r) = rc5_recv(s, rising, u);
    let (taken2, word2, odd2) = match (taken, u) {
        (t, Some(u)) if t < 13 => {
            if odd ^ (u == 1) {
                (t, word, true)
            } else {
                (t + 1, word << 1 | rising as u16, false)
            }
        }
        _ => (255, 0, false),
    };
    if let Some(bits) = r {
        assert!(taken2 == 13 && bits == (1 << 13 | word2), "a command is 13 recognised bits after a start edge");
    }
    assert!(p.inv());
    if let Rc5St::Data(n) = p.st {
        let cont = taken2 as u32 == 12 - n && word2 << (n + 1) == p.bits & 0x1FFF && odd2 == p.odd;
        let start = rising && p.same(&Rc5S::start());
        assert!(cont || start, "bits of this frame only");
    }
    reach!(r.is_some(), "a command");
}

// ------------------------------------------------------------------------------------------- RC6

fn rc6_any() -> Rc6S {
    use Rc6St::*;
    let n = nd::below(16) as u32;
    let st = match nd::below(6) {
        0 => Idle,
        1 => Lead,
        2 => Pause,
        3 => Head(n),
        4 => Trail,
        _ => Data(n),
    };
    let s = Rc6S { st, data: nd::u16(), head: nd::u16(), toggle: nd::bool(), odd: nd::bool() };
    nd::assume(s.inv());
    s
}
fn rc6_recv(s: Rc6S, rising: bool, units: Option<usize>) -> (Rc6S, Option<(u16, bool)>) {
    let idle = Rc6S { st: Rc6St::Idle, data: 0, head: nd::u16(), toggle: nd::bool(), odd: nd::bool() };
    match s.next(rising, units) {
        Next::To(e) if e.st == Rc6St::Done => (idle, Some((e.data, e.toggle))),
        Next::To(e) => (e, None),
        Next::Maybe(e) => (if nd::bool() { e } else { idle }, None),
        Next::Abandon => (idle, None),
    }
}
/// Level of unit `u` of a mode 0 frame: a one is mark, space
pub fn rc6_level(w: u16, toggle: bool, u: usize) -> bool {
    match u {
        0..=5 => true,
        6..=7 => false,
        8..=9 => u == 8,
        10..=15 => u % 2 == 1,
        16..=17 => toggle,
        18..=19 => !toggle,
        _ => (w >> (15 - (u - 20) / 2) & 1 == 1) == (u % 2 == 0),
    }
}
fn rc6_frame() {
    let (w, tg) = (nd::u16(), nd::bool());
    let (mut s, r) = rc6_recv(rc6_any(), true, None);
    assert!(r.is_none(), "the first edge reports nothing");
    let mut last = 0;
    for u in 1..52 {
        if rc6_level(w, tg, u) != rc6_level(w, tg, u - 1) {
            let (t, r) = rc6_recv(s, rc6_level(w, tg, u), Some(u - last));
            s = t;
            last = u;
            assert!(r == if u == 51 { Some((w, tg)) } else { None }, "the frame and nothing else");
        }
    }
    assert!(last == 51 && s.st == Rc6St::Idle);
}
/// Ghost: `k` parts of the frame seen since the edge that started it, each with recognised pulses:
/// leader, pause, 4 header bits, toggle bit, then `k - 7` data bits with value `word`
fn rc6_history() {
    use Rc6St::*;
    let s = rc6_any();
    fn parts(st: Rc6St) -> u32 {
        match st {
            Lead => 0,
            Pause => 1,
            Head(n) => 5 - n,
            Trail => 6,
            Data(n) => 22 - n,
            _ => 255,
        }
    }
    let (rising, u) = (nd::bool(), sym(6).map(|k| k + 1));
    let (p, r) = rc6_recv(s, rising, u);
    if r.is_some() {
        assert!(s.st == Data(0) && u.is_some(), "a command only at the last of 16 data bits");
    }
    if let Some((bits, t)) = r {
        assert!(bits & !1 == s.data && t == s.toggle, "a command has the bits of its frame");
    }
    assert!(p.inv());
    if p.st != Idle && p.st != Lead {
        assert!(u.is_some() && (parts(p.st) == parts(s.st) || parts(p.st) == parts(s.st) + 1), "every part is recognised");
        if let Data(n) = p.st {
            assert!(if s.st == Trail { p.data == 0 } else { p.data as u32 & !(2u32 << n) == s.data as u32 || p.data == s.data });
        }
    } else {
        assert!(p.data == 0, "no bits are left");
    }
    reach!(r.is_some(), "a command");
}

proofs! {
    [34] l_nec_frame => nec_frame();
    [34] l_nec_history => nec_history();
    [50] l_denon_frame => denon_frame();
    [50] l_denon_history => denon_history();
    [50] l_sbp_frame => sbp_frame();
    [50] l_sbp_history => sbp_history();
    [30] l_rc5_frame => rc5_frame();
    [30] l_rc5_history => rc5_history();
    [54] l_rc6_frame => rc6_frame();
    [54] l_rc6_history => rc6_history();
}
