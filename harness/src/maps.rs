//! Do the hooks still mean what the contracts take them to mean? On ordinary frames, each decoded
//! right, the state read through a hook has to follow the reference automaton, and a decoder (or
//! sender, or poller) set to the state that was read has to carry on as the original does. Where
//! it does not, the code keeps its state in another way than the hook assumes: contracts over
//! states set through that hook are about nothing then, and are not used.
#![allow(unused)]
use crate::{mono::*, spec::*};
use infrared::receiver::{DecoderBuilder, ProtocolDecoder, State};

/// Some words
fn words(bits: u32) -> Vec<u64> {
    let m = (1u64 << bits) - 1;
    let mut v = vec![0, m, 0x5555_5555_5555_5555 & m, 0xAAAA_AAAA_AAAA_AAAA & m];
    let mut x = 0x9E37_79B9_7F4A_7C15u64;
    for _ in 0..60 {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        v.push(x & m);
    }
    v
}

/// (edge, duration) of a sequence of mark+space intervals
fn intervals(iv: &[(u32, u32)]) -> Vec<(bool, u32)> {
    iv.iter().flat_map(|(hi, lo)| [(false, *hi), (true, *lo)]).collect()
}
/// Edges of a sequence of levels, each `unit` long; the first edge comes after a gap
fn levels(l: &[bool], unit: u32) -> Vec<(bool, u32)> {
    let (mut v, mut n, mut on) = (vec![], 0, false);
    for x in l {
        if *x != on {
            v.push((*x, if v.is_empty() { 60_000 } else { n * unit }));
            on = *x;
            n = 0;
        }
        n += 1;
    }
    if on {
        v.push((false, n * unit));
    }
    v
}

/// Run the frames through one decoder, reset in between, and through one that is replaced by a new
/// one set to its state at every rising edge. `follow`: does the state read fit?
/// None: a frame is not decoded, or not right, which is for the other checks to find
fn run<D, S: Copy>(
    build: &dyn Fn() -> D,
    event: &dyn Fn(&mut D, bool, u32) -> State,
    reset: &dyn Fn(&mut D),
    copy: &dyn Fn(&D, &mut D),
    right: &dyn Fn(&D, u64) -> bool,
    start: S,
    follow: &dyn Fn(&D, &mut S, bool, u32) -> bool,
    idle: &dyn Fn(&D) -> bool,
    frames: &[(u64, Vec<(bool, u32)>)],
) -> Option<bool> {
    let mut d = build();
    let mut good = idle(&d);
    for (w, edges) in frames {
        let mut s = start;
        let mut done = State::Idle;
        for (e, t) in edges {
            done = event(&mut d, *e, *t);
            good &= follow(&d, &mut s, *e, *t);
            if done == State::Done {
                break;
            }
        }
        if done != State::Done || !right(&d, *w) {
            return None;
        }
        reset(&mut d);
        good &= idle(&d);
    }
    if !good {
        return Some(false);
    }
    for (w, edges) in frames {
        let mut done = State::Idle;
        for (e, t) in edges {
            done = event(&mut d, *e, *t);
            if done == State::Done {
                break;
            }
            if *e {
                let mut n = build();
                copy(&d, &mut n);
                d = n;
            }
        }
        if done != State::Done || !right(&d, *w) {
            return Some(false);
        }
        reset(&mut d);
    }
    Some(true)
}

fn next<S>(n: Next<S>) -> Option<S> {
    match n {
        Next::To(s) | Next::Maybe(s) => Some(s),
        Next::Abandon => None,
    }
}

#[cfg(infrared_verif = "nec")]
pub fn nec() -> Option<bool> {
    use crate::d_nec::{build, get};
    use infrared::protocol::nec::NecCommand;
    let frames: Vec<_> = words(32)
        .into_iter()
        .map(|w| {
            let mut v = vec![(9000, 4500)];
            v.extend((0..32).map(|i| (560, if w >> i & 1 == 1 { 1690 } else { 560 })));
            (w, intervals(&v))
        })
        .collect();
    run(
        &|| build::<u32, NecCommand>(1_000_000),
        &|d, e, t| d.event(e, t),
        &|d| d.reset(),
        &|d, n| n.verif_set(d.verif_get()),
        &|d, w| d.command().map_or(false, |c| (c.addr, c.cmd) == nec_fields(w as u32)),
        NecS { st: Pd::Idle, bits: 0, valid: false },
        &|d, s, e, t| {
            if e {
                let k = if s.st == Pd::Idle { 0 } else if t > 1000 { 3 } else { 2 };
                *s = s.next(Some(k)).unwrap();
            }
            let p = get::<u32, NecCommand>(d);
            p.inv() && p.st == s.st && (s.st == Pd::Idle || p.bits == s.bits)
        },
        &|d| get::<u32, NecCommand>(d).inv() && get::<u32, NecCommand>(d).st == Pd::Idle,
        &frames,
    )
}

#[cfg(infrared_verif = "sbp")]
pub fn sbp() -> Option<bool> {
    use crate::d_sbp::{build, get};
    let frames: Vec<_> = words(36)
        .into_iter()
        .map(|w| {
            let bit = |i: u32| (500, if w >> i & 1 == 1 { 1500 } else { 500 });
            let mut v = vec![(4500, 4500)];
            v.extend((0..16).map(bit));
            v.push((500, 4500));
            v.extend((16..36).map(bit));
            (w, intervals(&v))
        })
        .collect();
    run(
        &|| build::<u32>(1_000_000),
        &|d, e, t| d.event(e, t),
        &|d| d.reset(),
        &|d, n| n.verif_set(d.verif_get()),
        &|d, w| d.command().map_or(false, |c| c.address == w as u16 && (c.command, c.valid) == sbp_fields((w >> 16) as u32)),
        SbpS { st: Pd::Idle, addr: 0, cmd: 0 },
        &|d, s, e, t| {
            if e {
                let k = match s.st {
                    Pd::Idle => 0,
                    Pd::Rx(16) => 1,
                    _ if t > 1000 => 3,
                    _ => 2,
                };
                *s = s.next(Some(k)).unwrap();
            }
            get::<u32>(d).inv() && get::<u32>(d).same(s)
        },
        &|d| get::<u32>(d).inv() && get::<u32>(d).st == Pd::Idle,
        &frames,
    )
}

#[cfg(infrared_verif = "denon")]
pub fn denon() -> Option<bool> {
    use crate::d_denon::{build, get};
    let frames: Vec<_> = words(48)
        .into_iter()
        .map(|w| {
            let mut v = vec![(3400, 1600)];
            v.extend((0..48).map(|i| (480, if w >> i & 1 == 1 { 1200 } else { 360 })));
            (w, intervals(&v))
        })
        .collect();
    run(
        &|| build::<u32>(1_000_000),
        &|d, e, t| d.event(e, t),
        &|d| d.reset(),
        &|d, n| n.verif_set(d.verif_get()),
        &|d, w| d.command().map_or(false, |c| c.bits == w),
        DenonS { st: Pd::Idle, bits: 0 },
        &|d, s, e, t| {
            if e {
                let k = if s.st == Pd::Idle { 0 } else if t > 1000 { 2 } else { 1 };
                *s = s.next(Some(k)).unwrap();
            }
            get::<u32>(d).inv() && get::<u32>(d).same(s)
        },
        &|d| get::<u32>(d).inv() && get::<u32>(d).st == Pd::Idle,
        &frames,
    )
}

#[cfg(infrared_verif = "rc5")]
pub fn rc5() -> Option<bool> {
    use crate::d_rc5::{build, get};
    let frames: Vec<_> = words(13)
        .into_iter()
        .map(|w| {
            let w = w | 1 << 13;
            let l: Vec<bool> = (0..14).rev().flat_map(|i| [w >> i & 1 == 0, w >> i & 1 == 1]).collect();
            (w, levels(&l, 889))
        })
        .collect();
    run(
        &|| build::<u32>(1_000_000),
        &|d, e, t| d.event(e, t),
        &|d| d.reset(),
        &|d, n| n.verif_set(d.verif_get()),
        &|d, w| d.command().map_or(false, |c| (c.start, c.toggle, c.addr, c.cmd) == rc5_fields(w as u16)),
        Rc5S { st: Rc5St::Idle, bits: 0, odd: false },
        &|d, s, e, t| {
            *s = next(s.next(e, if t > 50_000 { None } else { Some(t as usize / 889) })).unwrap();
            get::<u32>(d).inv() && get::<u32>(d).same(s)
        },
        &|d| get::<u32>(d).inv() && get::<u32>(d).st == Rc5St::Idle,
        &frames,
    )
}

#[cfg(infrared_verif = "rc6")]
pub fn rc6() -> Option<bool> {
    use crate::d_rc6::{build, get};
    let frames: Vec<_> = words(17)
        .into_iter()
        .map(|w| {
            let bit = |i: u32| [w >> i & 1 == 1, w >> i & 1 == 0];
            let t = bit(16);
            let mut l = vec![true, true, true, true, true, true, false, false];
            l.extend([true, false, false, true, false, true, false, true, t[0], t[0], t[1], t[1]]);
            l.extend((0..16).rev().flat_map(bit));
            (w, levels(&l, 444))
        })
        .collect();
    run(
        &|| build::<u32>(1_000_000),
        &|d, e, t| d.event(e, t),
        &|d| d.reset(),
        &|d, n| n.verif_set(d.verif_get()),
        &|d, w| d.command().map_or(false, |c| (c.addr, c.cmd, c.toggle) == ((w >> 8) as u8, w as u8, w >> 16 == 1)),
        Rc6S { st: Rc6St::Idle, data: 0, head: 0, toggle: false, odd: false },
        &|d, s, e, t| {
            *s = next(s.next(e, if t > 50_000 { None } else { Some(t as usize / 444) })).unwrap();
            get::<u32>(d).inv() && get::<u32>(d).same(s)
        },
        &|d| get::<u32>(d).inv() && get::<u32>(d).st == Rc6St::Idle,
        &frames,
    )
}

/// Levels at every poll of an ordinary RC5 frame, polled at 40 kHz
#[cfg(infrared_verif = "poll")]
pub fn poll() -> Option<bool> {
    use infrared::{protocol::Rc5, PeriodicPoll};
    let w = 0x2A5Cu32 | 1 << 13;
    let mut l = vec![false; 3000];
    for i in (0..14).rev() {
        for h in [w >> i & 1 == 0, w >> i & 1 == 1] {
            l.extend([h; 36]);
        }
    }
    l.extend([false; 100]);
    let mut r = PeriodicPoll::<Rc5>::new(40_000);
    let (mut age, mut level, mut got, mut good) = (0u32, false, 0, true);
    for e in l {
        age += 1;
        if e != level {
            age = 0;
            level = e;
        }
        got += matches!(r.poll(e), Ok(Some(_))) as u32;
        let (clock, last, edge) = r.verif_get();
        good &= clock.wrapping_sub(last) == age && edge == level;
        r.verif_set((clock.wrapping_add(77), last.wrapping_add(77), edge));
    }
    if got != 1 {
        return None;
    }
    Some(good)
}

#[cfg(infrared_verif = "iter")]
pub fn iter() -> Option<bool> {
    use infrared::{protocol::Nec, receiver::BufferInputReceiver};
    let mut b = vec![60_000u32];
    for w in words(32) {
        b.extend([9000, 4500]);
        b.extend((0..32).flat_map(|i| [560, if w >> i & 1 == 1 { 1690 } else { 560 }]));
        b.extend([560, 40_000]);
    }
    let n = words(32).len();
    let mut r = BufferInputReceiver::<Nec>::with_frequenzy(1_000_000);
    if r.iter(&b).count() != n {
        return None;
    }
    let (mut it, mut k) = (r.iter(&b), 0);
    while it.next().is_some() {
        // a command is there at the mark that ends its last bit
        if it.verif_get() != 68 * k + 67 {
            return Some(false);
        }
        it.verif_set(68 * k + 69);
        k += 1;
    }
    Some(k == n && it.verif_get() == b.len())
}

#[cfg(infrared_verif = "sender")]
pub fn sender() -> Option<bool> {
    use infrared::{
        protocol::{nec::NecCommand, Nec},
        sender::{PulsedataSender, Status},
    };
    let mut s = PulsedataSender::<80>::new();
    s.load_command::<Nec, 40_000>(&NecCommand { addr: 7, cmd: 0x5A, repeat: false });
    let b = s.buffer().to_vec();
    // when the edges are due
    let due: Vec<u32> = b.iter().scan(1000, |t, d| {
        *t += d;
        Some(*t)
    }).collect();
    let (mut last, mut good) = (0, true);
    for ts in 1000..due[b.len() - 1] + 20 {
        let r = s.tick(ts);
        let pos = due.iter().filter(|d| **d <= ts).count();
        if pos > 0 {
            last = due[pos - 1];
        }
        let on = pos % 2 == 1;
        if (r == Status::Transmit(true)) != on || s.buffer() != b {
            return None;
        }
        let off = ts > due[b.len() - 1];
        let want = if off { Status::Idle } else { Status::Transmit(on) };
        good &= s.verif_get() == (pos, want, last, b.len());
        let mut n = PulsedataSender::<80>::new();
        n.verif_set(s.verif_get());
        *n.verif_buf() = *s.verif_buf();
        s = n;
    }
    Some(good)
}

/// Hook and whether it can be used. None: it is not known, the code fails on an ordinary frame
pub fn all() -> Vec<(&'static str, Option<bool>)> {
    let mut v: Vec<(&'static str, Option<bool>)> = vec![];
    let mut add = |n, f: fn() -> Option<bool>| {
        v.push((n, std::panic::catch_unwind(f).unwrap_or(None)));
    };
    #[cfg(infrared_verif = "nec")]
    add("nec", nec);
    #[cfg(infrared_verif = "sbp")]
    add("sbp", sbp);
    #[cfg(infrared_verif = "denon")]
    add("denon", denon);
    #[cfg(infrared_verif = "rc5")]
    add("rc5", rc5);
    #[cfg(infrared_verif = "rc6")]
    add("rc6", rc6);
    #[cfg(infrared_verif = "poll")]
    add("poll", poll);
    #[cfg(infrared_verif = "iter")]
    add("iter", iter);
    #[cfg(infrared_verif = "sender")]
    add("sender", sender);
    v
}
