//! The table of a protocol becomes windows entry by entry, whatever the table says (C09).
use crate::{nd, proofs, reach};
use infrared::receiver::time::{InfraMonotonic, PulseSpans, Span};

/// A time base that makes a window of one tick from each (clock, length, tolerance), a different one for each
struct Tab;
fn code(f: u32, p: u32, t: u32) -> u32 {
    f << 24 | p << 8 | t
}
impl InfraMonotonic for Tab {
    type Instant = u32;
    type Duration = u32;
    const ZERO_INSTANT: u32 = 0;
    const ZERO_DURATION: u32 = 0;
    fn checked_sub(a: u32, b: u32) -> Option<u32> {
        a.checked_sub(b)
    }
    fn saturating_add(a: u32, b: u32) -> u32 {
        a.saturating_add(b)
    }
    fn create_span(f: u32, p: u32, t: u32) -> Span<u32> {
        Span::<u32>::new(code(f, p, t), 0)
    }
}

fn table() {
    let f = nd::u8() as u32;
    let mut p = [0u32; 8];
    let mut t = [0u32; 8];
    for k in 0..8 {
        p[k] = nd::u16() as u32;
        t[k] = nd::u8() as u32;
    }
    let s = PulseSpans::<Tab>::new(f, &p, &t);
    let d = nd::u32();
    let mut want = None;
    for k in (0..8).rev() {
        if code(f, p[k], t[k]) == d {
            want = Some(k);
        }
    }
    reach!(want == Some(7), "the last entry");
    reach!(want.is_none(), "none");
    assert!(s.get::<usize>(d) == want, "C09: entry k has length k and tolerance k, the first that fits is recognised");
}

proofs! {
    [10] table_any => table();
}
