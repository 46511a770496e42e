//! Time bases under test
use crate::nd;
use infrared::receiver::time::{InfraMonotonic, Span};

pub trait Mono: InfraMonotonic {
    fn dur(d: u64) -> Self::Duration;
    fn any() -> Self::Duration;
    fn ticks(d: Self::Duration) -> u64;
    fn at(t: u64) -> Self::Instant;
    /// Time from `prev` to `t`, zero where time runs backwards. The integer time bases are plain
    /// numbers, fugit instants wrap around: up to half the range ahead is later, the rest earlier
    fn since(t: u64, prev: u64) -> u64;
    /// Sum of two durations, the longest representable one if that is exceeded
    fn sum(a: Self::Duration, b: Self::Duration) -> Self::Duration;
}
impl Mono for u32 {
    fn since(t: u64, prev: u64) -> u64 {
        if t >= prev {
            t - prev
        } else {
            0
        }
    }
    fn ticks(d: u32) -> u64 {
        d as u64
    }
    fn at(t: u64) -> u32 {
        t as u32
    }
    fn dur(d: u64) -> u32 {
        if d > u32::MAX as u64 {
            u32::MAX
        } else {
            d as u32
        }
    }
    fn any() -> u32 {
        nd::u32()
    }
    fn sum(a: u32, b: u32) -> u32 {
        Self::dur(a as u64 + b as u64)
    }
}
impl Mono for u64 {
    fn since(t: u64, prev: u64) -> u64 {
        if t >= prev {
            t - prev
        } else {
            0
        }
    }
    fn ticks(d: u64) -> u64 {
        d
    }
    fn at(t: u64) -> u64 {
        t
    }
    fn dur(d: u64) -> u64 {
        d
    }
    fn any() -> u64 {
        nd::u64()
    }
    fn sum(a: u64, b: u64) -> u64 {
        if a > u64::MAX - b {
            u64::MAX
        } else {
            a + b
        }
    }
}
pub type F32<const HZ: u32> = fugit::TimerInstantU32<HZ>;
pub type F64<const HZ: u32> = fugit::TimerInstantU64<HZ>;
impl<const HZ: u32> Mono for F32<HZ> {
    fn since(t: u64, prev: u64) -> u64 {
        let d = (t as u32).wrapping_sub(prev as u32);
        if d <= u32::MAX / 2 {
            d as u64
        } else {
            0
        }
    }
    fn ticks(d: Self::Duration) -> u64 {
        d.ticks() as u64
    }
    fn at(t: u64) -> Self::Instant {
        fugit::TimerInstantU32::from_ticks(t as u32)
    }
    fn dur(d: u64) -> Self::Duration {
        fugit::TimerDurationU32::from_ticks(<u32 as Mono>::dur(d))
    }
    fn any() -> Self::Duration {
        Self::dur(nd::u32() as u64)
    }
    fn sum(a: Self::Duration, b: Self::Duration) -> Self::Duration {
        Self::dur(a.ticks() as u64 + b.ticks() as u64)
    }
}
impl<const HZ: u32> Mono for F64<HZ> {
    fn since(t: u64, prev: u64) -> u64 {
        let d = (t as u64).wrapping_sub(prev as u64);
        if d <= u64::MAX / 2 {
            d as u64
        } else {
            0
        }
    }
    fn ticks(d: Self::Duration) -> u64 {
        d.ticks() as u64
    }
    fn at(t: u64) -> Self::Instant {
        fugit::TimerInstantU64::from_ticks(t)
    }
    fn dur(d: u64) -> Self::Duration {
        fugit::TimerDurationU64::from_ticks(d)
    }
    fn any() -> Self::Duration {
        Self::dur(nd::u64())
    }
    fn sum(a: Self::Duration, b: Self::Duration) -> Self::Duration {
        Self::dur(<u64 as Mono>::sum(a.ticks(), b.ticks()))
    }
}

/// A time base whose windows are cut from any number of ticks
pub trait Windows: Mono {
    fn window(ticks: u32, tol: u32) -> Span<Self::Duration>;
}
impl Windows for u32 {
    fn window(ticks: u32, tol: u32) -> Span<u32> {
        Span::<u32>::new(ticks, tol)
    }
}
impl Windows for u64 {
    fn window(ticks: u32, tol: u32) -> Span<u64> {
        Span::<u64>::new(ticks, tol)
    }
}
impl<const HZ: u32> Windows for F32<HZ> {
    fn window(ticks: u32, tol: u32) -> Span<Self::Duration> {
        Span::<Self::Duration>::new(Self::dur(ticks as u64), tol)
    }
}
impl<const HZ: u32> Windows for F64<HZ> {
    fn window(ticks: u32, tol: u32) -> Span<Self::Duration> {
        Span::<Self::Duration>::new(Self::dur(ticks as u64), tol)
    }
}

/// The time base `M` at any clock. The windows of a decoder are `Span::new(ticks, tolerance)` for
/// the ticks that a symbol takes at a clock; here the ticks of every symbol are arbitrary, up to
/// more than the longest symbol of all protocols takes at the fastest clock
pub struct AnyClock<M>(core::marker::PhantomData<M>);
/// (length, ticks it takes) of the lengths that were asked for
static mut TICKS: [(u32, u32); 8] = [(0, 0); 8];
#[cfg(not(kani))]
pub fn forget() {
    unsafe { *core::ptr::addr_of_mut!(TICKS) = [(0, 0); 8] }
}
fn ticks(p: u32) -> u32 {
    let t = unsafe { &mut *core::ptr::addr_of_mut!(TICKS) };
    if p == 0 {
        return 0;
    }
    for i in 0..8 {
        if t[i].0 == 0 {
            let n = nd::u32();
            nd::assume(n < 1 << 26);
            t[i] = (p, n);
        }
        if t[i].0 == p {
            return t[i].1;
        }
    }
    panic!("more than eight symbols")
}
impl<M: Windows> InfraMonotonic for AnyClock<M> {
    type Instant = M::Instant;
    type Duration = M::Duration;
    const ZERO_INSTANT: M::Instant = M::ZERO_INSTANT;
    const ZERO_DURATION: M::Duration = M::ZERO_DURATION;
    fn checked_sub(a: M::Instant, b: M::Instant) -> Option<M::Duration> {
        <M as InfraMonotonic>::checked_sub(a, b)
    }
    fn saturating_add(a: M::Duration, b: M::Duration) -> M::Duration {
        <M as InfraMonotonic>::saturating_add(a, b)
    }
    fn create_span(_: u32, p: u32, tol: u32) -> Span<M::Duration> {
        nd::assume(tol < 64);
        M::window(ticks(p), tol)
    }
}
impl<M: Windows> Mono for AnyClock<M> {
    fn since(t: u64, prev: u64) -> u64 {
        <M as Mono>::since(t, prev)
    }
    fn ticks(d: M::Duration) -> u64 {
        <M as Mono>::ticks(d)
    }
    fn at(t: u64) -> M::Instant {
        <M as Mono>::at(t)
    }
    fn dur(d: u64) -> M::Duration {
        <M as Mono>::dur(d)
    }
    fn any() -> M::Duration {
        <M as Mono>::any()
    }
    fn sum(a: M::Duration, b: M::Duration) -> M::Duration {
        <M as Mono>::sum(a, b)
    }
}
pub type A32 = AnyClock<u32>;
pub type A64 = AnyClock<u64>;
pub type AF32 = AnyClock<F32<1_000_000>>;
pub type AF64 = AnyClock<F64<1_000_000>>;
