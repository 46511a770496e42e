//! Encoders: shape of the encoded frames and the way back through the decoders
use crate::{nd, proofs, variant::Variant};
use infrared::protocol::nec::*;
use infrared::protocol::rc5::Rc5Command;
use infrared::protocol::rc6::Rc6Command;
use infrared::protocol::{Nec, Rc5, Rc6};
use infrared::receiver::{DecoderBuilder, NoPin, ProtocolDecoder, Receiver};
use infrared::sender::ProtocolEncoder;
use infrared::Protocol;

pub trait AnyCmd: PartialEq + Sized {
    /// Any command that fits the frame
    fn any() -> Self;
}
impl AnyCmd for NecCommand {
    fn any() -> Self {
        NecCommand { addr: nd::u8(), cmd: nd::u8(), repeat: false }
    }
}
impl AnyCmd for SamsungNecCommand {
    fn any() -> Self {
        SamsungNecCommand { addr: nd::u8(), cmd: nd::u8(), repeat: false }
    }
}
impl AnyCmd for Nec16Command {
    fn any() -> Self {
        Nec16Command { addr: nd::u16(), cmd: nd::u8(), repeat: false }
    }
}
impl AnyCmd for NecDebugCmd {
    fn any() -> Self {
        NecDebugCmd { bits: nd::u32() }
    }
}
impl AnyCmd for Rc5Command {
    fn any() -> Self {
        let (addr, cmd, start) = (nd::u8(), nd::u8(), nd::u8());
        nd::assume(addr < 32 && cmd < 64 && (start == 2 || start == 3));
        Rc5Command { addr, cmd, start, toggle: nd::bool() }
    }
}
impl AnyCmd for Rc6Command {
    fn any() -> Self {
        Rc6Command { addr: nd::u8(), cmd: nd::u8(), toggle: nd::bool() }
    }
}

/// Entries a frame may take
const MAX: usize = 80;

fn shape(b: &[u32], n: usize) {
    assert!(n >= 2 && n % 2 == 0 && n <= b.len(), "whole mark/space pairs");
    assert!(b[0] == 0, "the mark begins at once");
}

/// Encode any command: the entries, their number, and the length of each as the decoder for the
/// same clock classifies it
fn encoded<P: ProtocolEncoder<F>, const F: u32, const L: usize>(c: P::Cmd) -> (P::Cmd, [u32; L], usize)
where
    P::Cmd: AnyCmd,
{
    // whatever an earlier frame left there
    let mut b = [nd::u32(); L];
    let n = P::encode(&c, &mut b);
    shape(&b, n);
    let i = nd::usize();
    nd::assume(i > 0 && i < n);
    assert!(b[i] > 0, "no empty mark or space");
    (c, b, n)
}

/// A header and 32 bits, least significant first, that mean the command, and a closing mark
fn wave_nec<C: Variant + AnyCmd, const F: u32>() {
    let (c, b, n) = encoded::<Nec<C>, F, MAX>(C::any());
    let d = <Nec<C> as DecoderBuilder<u32>>::build(F);
    assert!(n == 68, "header, 32 bits and the closing mark");
    let i = nd::below(33) as usize;
    let class = d.spans().get::<usize>(b[1 + 2 * i] + b[2 + 2 * i]);
    if i == 0 {
        assert!(class == Some(0), "a header first");
    } else {
        // that the packed bits mean the command is a contract of its own, in `cmd`
        assert!(class == Some(2 + (c.pack() >> (i - 1) & 1) as usize), "the bits are those of the command");
    }
}

/// Half-bits as marks and spaces: entry by entry, against the frame's levels
fn levels<const N: usize, const L: usize>(b: &[u32; L], n: usize, max: usize, want: &[bool; N], first: u8, most: usize, unit: u64, class: impl Fn(u32) -> Option<usize>) {
    // the nearest multiple of the half-bit
    let units = |t: u32| {
        let mut u = 0;
        for k in 1..most + 1 {
            if 2 * t as u64 >= unit * (2 * k as u64 - 1) {
                u = k;
            }
        }
        u
    };
    let i = nd::usize();
    nd::assume(i > 0 && i < n);
    assert!(class(b[i]) == Some(units(b[i]) - 1), "every pulse is recognised");
    // how many marks and spaces have ended when half-bit `h` is on the line
    let h = nd::below(N as u8);
    nd::assume(h >= first);
    let (mut end, mut done) = (first, 0u8);
    for i in 1..max {
        if i < n {
            end += units(b[i]) as u8;
            if end <= h {
                done += 1;
            }
        }
    }
    assert!(want[h as usize] == (done % 2 == 0), "marks and spaces are those of the frame");
    // what is not sent is silence
    assert!(end == N as u8 || (end == N as u8 - 1 && !want[N - 1]), "the whole frame is sent");
}
fn wave_rc5<const F: u32>() {
    let (c, b, n) = encoded::<Rc5, F, 30>(Rc5Command::any());
    let d = <Rc5 as DecoderBuilder<u32>>::build(F);
    let w = (c.start as u16) << 12 | (c.toggle as u16) << 11 | (c.addr as u16) << 6 | c.cmd as u16;
    let mut want = [false; 28];
    for k in 0..14 {
        let bit = w >> (13 - k) & 1 == 1;
        want[2 * k] = !bit;
        want[2 * k + 1] = bit;
    }
    levels(&b, n, 29, &want, 1, 2, 889 * F as u64 / 1_000_000, |t| d.spans().get::<usize>(t));
}
fn wave_rc6<const F: u32>(toggle: bool) {
    let (c, b, n) = encoded::<Rc6, F, 46>(Rc6Command { addr: nd::u8(), cmd: nd::u8(), toggle });
    let d = <Rc6 as DecoderBuilder<u32>>::build(F);
    // leader, start bit, mode 000, double toggle bit, 16 bits; a one is a mark and a space
    let mut want = [false; 52];
    for k in 0..6 {
        want[k] = true;
    }
    want[8] = true;
    for k in [11, 13, 15] {
        want[k] = true;
    }
    want[if c.toggle { 16 } else { 18 }] = true;
    want[if c.toggle { 17 } else { 19 }] = true;
    let w = (c.addr as u16) << 8 | c.cmd as u16;
    for k in 0..16 {
        let bit = w >> (15 - k) & 1 == 1;
        want[20 + 2 * k] = bit;
        want[21 + 2 * k] = !bit;
    }
    // lengths of the marks and spaces, a mark first; silence at the end is not sent
    let (mut run, mut m) = ([0u8; 46], 1);
    for h in 0..52 {
        run[m] += 1;
        if h < 51 && want[h] != want[h + 1] {
            m += 1;
        }
    }
    assert!(n == if want[51] { m + 1 } else { m }, "the whole frame is sent");
    let i = nd::usize();
    nd::assume(i > 0 && i < n);
    assert!(d.spans().get::<usize>(b[i]) == Some(run[i] as usize - 1), "marks and spaces are those of the frame");
}

/// Encode any command, decode it with a new receiver for the same clock
fn trip<P: ProtocolEncoder<F> + DecoderBuilder<u32>, const F: u32, const N: usize>()
where
    <P as Protocol>::Cmd: AnyCmd,
{
    let c = <P as Protocol>::Cmd::any();
    let mut b = [0; MAX];
    let n = P::encode(&c, &mut b);
    assert!(n <= N);
    let mut r = Receiver::<P, NoPin, u32>::new(F);
    let mut got = 0;
    for i in 0..N {
        if i < n {
            match r.event(b[i], i % 2 == 0) {
                Ok(None) => {}
                Ok(Some(x)) => {
                    assert!(x == c, "the decoded command is the encoded one");
                    got += 1;
                }
                Err(_) => assert!(false, "no error"),
            }
        }
    }
    assert!(got == 1, "exactly one command");
}
type NecD = Nec<NecDebugCmd>;
type N16 = Nec<Nec16Command>;
type NecS = Nec<SamsungNecCommand>;

/// The tick computations that the all-clock proof is about are those of the encoders
#[cfg(infrared_verif = "nec_enc")]
fn data_nec<C: NecCommandVariant, const F: u32>(head: u32) {
    use infrared::protocol::nec::encoder::verif_calc_ticks as t;
    let d = <Nec<C> as ProtocolEncoder<F>>::DATA;
    assert!(d == [t(head, F), t(4500, F), t(2250, F), t(560, F), t(560, F), t(1690, F)], "the encoder's tick computation");
}
#[cfg(infrared_verif = "rc5_enc")]
fn data_rc5<const F: u32>() {
    let d = <Rc5 as ProtocolEncoder<F>>::DATA;
    assert!(d == [infrared::protocol::rc5::encoder::verif_calc_freq(F)], "the encoder's tick computation");
}
fn data_rc6<const F: u32>() {
    let d = <Rc6 as ProtocolEncoder<F>>::DATA;
    assert!(d[0] as u64 == 444 * F as u64 / 1_000_000, "444 us");
}

macro_rules! at {
    ($reg:ident, $(($m:ident, $f:literal)),*) => {
        #[cfg(not(kani))]
        fn $reg(v: &mut Vec<(&'static str, fn())>) {
            $(
                $m::registry(v);
                #[cfg(infrared_verif = "nec_enc")]
                $m::nec_ticks::registry(v);
                #[cfg(infrared_verif = "rc5_enc")]
                $m::rc5_ticks::registry(v);
            )*
        }
        $(
        pub mod $m {
            use super::*;
            const F: u32 = $f;
            proofs! {
                [70] wave_nec => super::wave_nec::<NecCommand, F>();
                [70] wave_samsung => super::wave_nec::<SamsungNecCommand, F>();
                [70] wave_nec16 => super::wave_nec::<Nec16Command, F>();
                [70] wave_raw => super::wave_nec::<NecDebugCmd, F>();
                [50] wave_rc5 => super::wave_rc5::<F>();
            }
            #[cfg(infrared_verif = "nec_enc")]
            pub mod nec_ticks {
                use super::*;
                proofs! {
                    [30] ticks_nec => data_nec::<NecCommand, F>(9000);
                    [30] ticks_nec16 => data_nec::<Nec16Command, F>(9000);
                    [30] ticks_raw => data_nec::<NecDebugCmd, F>(9000);
                    [30] ticks_samsung => data_nec::<SamsungNecCommand, F>(4500);
                }
            }
            #[cfg(infrared_verif = "rc5_enc")]
            pub mod rc5_ticks {
                use super::*;
                proofs! {
                    [8] ticks_rc5 => data_rc5::<F>();
                }
            }
        }
    )* };
}
macro_rules! at6 {
    ($reg:ident, $(($m:ident, $f:literal)),*) => {
        #[cfg(not(kani))]
        fn $reg(v: &mut Vec<(&'static str, fn())>) {
            $( $m::registry(v); )*
        }
        $(
        pub mod $m {
            use super::*;
            const F: u32 = $f;
            proofs! {
                [54] wave_rc6_0 => super::wave_rc6::<F>(false);
                [54] wave_rc6_1 => super::wave_rc6::<F>(true);
                [8] data_rc6 => super::data_rc6::<F>();
            }
        }
    )* };
}
at!(
    registry_a,
    (k20, 20_000),
    (k38, 38_000),
    (k40, 40_000),
    (k44, 44_100),
    (k100, 100_000),
    (m1, 1_000_000)
);
// left out where the encoders do not compile for them (check.py)
#[cfg(not(lowclk))]
at!(
    registry_b,
    (m8, 8_000_000),
    (m48, 48_000_000),
    (m400, 400_000_000)
);
at6!(registry_6, (r40, 40_000), (r44, 44_100), (r100, 100_000), (r1m, 1_000_000));
#[cfg(not(lowclk))]
at6!(registry_7, (r8m, 8_000_000), (r9m, 9_000_000));

/// Encoder and receiver put together
pub mod whole {
    use super::*;
    const F: u32 = 1_000_000;
    proofs! {
        [70] trip_nec => trip::<Nec, F, 68>();
        [70] trip_samsung => trip::<NecS, F, 68>();
        [70] trip_nec16 => trip::<N16, F, 68>();
        [70] trip_raw => trip::<NecD, F, 68>();
        [50] trip_rc5 => trip::<Rc5, F, 28>();
        [60] trip_rc6 => trip::<Rc6, F, 44>();
    }
}

#[cfg(not(kani))]
pub fn registry_all(v: &mut Vec<(&'static str, fn())>) {
    registry_a(v);
    registry_6(v);
    #[cfg(not(lowclk))]
    {
        registry_b(v);
        registry_7(v);
    }
    whole::registry(v);
}
