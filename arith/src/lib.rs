//! Wrappers around the real code whose LLVM IR is verified by lir.py (see DESIGN.md).
//! Each wrapper only calls /repo code; rustc inlines all of it.
use infrared::protocol::*;
use infrared::receiver::{time::InfraMonotonic, DecoderBuilder, ProtocolDecoder};

/// The symbol number that a decoder built for clock `f` sees in duration `d`, 255 for none
#[inline(always)]
fn w<P: DecoderBuilder<M>, M: InfraMonotonic>(f: u32, d: M::Duration) -> usize {
    P::build(f).spans().get::<usize>(d).unwrap_or(255)
}

macro_rules! wrappers {
    ($( $(#[$a:meta])* $name:ident($($v:ident: $t:ty),*) = $e:expr; )*) => {
        $( $(#[$a])* #[no_mangle] pub fn $name($($v: $t),*) -> usize { $e } )*
        /// Run a wrapper natively, to replay a counterexample
        pub fn native(name: &str, a: &[u64]) -> Option<usize> {
            $( $(#[$a])* if name == stringify!($name) {
                let mut i = 0;
                $( let $v = a[i] as $t; i += 1; )*
                let _ = i;
                return Some($name($($v),*));
            } )*
            None
        }
    };
}

type F32<const HZ: u32> = fugit::TimerInstantU32<HZ>;
type F64<const HZ: u32> = fugit::TimerInstantU64<HZ>;
#[inline(always)]
fn wf<P: DecoderBuilder<F32<HZ>>, const HZ: u32>(d: u32) -> usize {
    w::<P, F32<HZ>>(HZ, fugit::TimerDurationU32::from_ticks(d))
}
#[inline(always)]
fn wg<P: DecoderBuilder<F64<HZ>>, const HZ: u32>(d: u64) -> usize {
    w::<P, F64<HZ>>(HZ, fugit::TimerDurationU64::from_ticks(d))
}

#[cfg(infrared_verif = "nec_enc")]
#[inline(always)]
fn t<P: DecoderBuilder<u32>>(f: u32, mark: u32, space: u32) -> usize {
    use infrared::protocol::nec::encoder::verif_calc_ticks as c;
    w::<P, u32>(f, c(mark, f) + c(space, f))
}
#[cfg(infrared_verif = "rc5_enc")]
#[inline(always)]
fn t5(f: u32, n: u32) -> usize {
    w::<Rc5, u32>(f, n * infrared::protocol::rc5::encoder::verif_calc_freq(f))
}

/// The unit is stated here; that the encoder's table has it is a harness of its own (data_rc6)
#[inline(always)]
fn t6(f: u32, n: u32) -> usize {
    w::<Rc6, u32>(f, n * ((444 * f) / 1_000_000))
}

wrappers! {
    w_nec_u32(f: u32, d: u32) = w::<Nec, u32>(f, d);
    w_nec16_u32(f: u32, d: u32) = w::<Nec16, u32>(f, d);
    w_apple_u32(f: u32, d: u32) = w::<AppleNec, u32>(f, d);
    w_necdebug_u32(f: u32, d: u32) = w::<NecDebug, u32>(f, d);
    w_samsung_u32(f: u32, d: u32) = w::<SamsungNec, u32>(f, d);
    w_rc5_u32(f: u32, d: u32) = w::<Rc5, u32>(f, d);
    w_rc6_u32(f: u32, d: u32) = w::<Rc6, u32>(f, d);
    w_sbp_u32(f: u32, d: u32) = w::<Sbp, u32>(f, d);
    w_denon_u32(f: u32, d: u32) = w::<Denon, u32>(f, d);
    w_nec_u64(f: u32, d: u64) = w::<Nec, u64>(f, d);
    w_samsung_u64(f: u32, d: u64) = w::<SamsungNec, u64>(f, d);
    w_rc5_u64(f: u32, d: u64) = w::<Rc5, u64>(f, d);
    w_rc6_u64(f: u32, d: u64) = w::<Rc6, u64>(f, d);
    w_sbp_u64(f: u32, d: u64) = w::<Sbp, u64>(f, d);
    w_denon_u64(f: u32, d: u64) = w::<Denon, u64>(f, d);

    f_nec_1000000(d: u32) = wf::<Nec, 1_000_000>(d);
    f_nec_40000(d: u32) = wf::<Nec, 40_000>(d);
    f_nec_32768(d: u32) = wf::<Nec, 32_768>(d);
    f_nec_84000000(d: u32) = wf::<Nec, 84_000_000>(d);
    f_samsung_1000000(d: u32) = wf::<SamsungNec, 1_000_000>(d);
    f_samsung_8000000(d: u32) = wf::<SamsungNec, 8_000_000>(d);
    f_rc5_1000000(d: u32) = wf::<Rc5, 1_000_000>(d);
    f_rc5_32768(d: u32) = wf::<Rc5, 32_768>(d);
    f_rc6_1000000(d: u32) = wf::<Rc6, 1_000_000>(d);
    f_rc6_48000000(d: u32) = wf::<Rc6, 48_000_000>(d);
    f_sbp_1000000(d: u32) = wf::<Sbp, 1_000_000>(d);
    f_sbp_100000(d: u32) = wf::<Sbp, 100_000>(d);
    f_denon_1000000(d: u32) = wf::<Denon, 1_000_000>(d);
    f_denon_16000000(d: u32) = wf::<Denon, 16_000_000>(d);
    g_nec_1000000(d: u64) = wg::<Nec, 1_000_000>(d);
    g_nec_32768(d: u64) = wg::<Nec, 32_768>(d);
    g_rc5_1000000(d: u64) = wg::<Rc5, 1_000_000>(d);
    g_rc5_125000000(d: u64) = wg::<Rc5, 125_000_000>(d);
    g_rc6_1000000(d: u64) = wg::<Rc6, 1_000_000>(d);
    g_sbp_1000000(d: u64) = wg::<Sbp, 1_000_000>(d);
    g_denon_1000000(d: u64) = wg::<Denon, 1_000_000>(d);

    t_rc6_0(f: u32) = t6(f, 1);
    t_rc6_1(f: u32) = t6(f, 2);
    t_rc6_2(f: u32) = t6(f, 3);
    t_rc6_5(f: u32) = t6(f, 6);
    #[cfg(infrared_verif = "nec_enc")]
    t_nec_0(f: u32) = t::<Nec>(f, 9000, 4500);
    #[cfg(infrared_verif = "nec_enc")]
    t_nec_2(f: u32) = t::<Nec>(f, 560, 560);
    #[cfg(infrared_verif = "nec_enc")]
    t_nec_3(f: u32) = t::<Nec>(f, 560, 1690);
    #[cfg(infrared_verif = "nec_enc")]
    t_samsung_0(f: u32) = t::<SamsungNec>(f, 4500, 4500);
    #[cfg(infrared_verif = "nec_enc")]
    t_samsung_2(f: u32) = t::<SamsungNec>(f, 560, 560);
    #[cfg(infrared_verif = "nec_enc")]
    t_samsung_3(f: u32) = t::<SamsungNec>(f, 560, 1690);
    #[cfg(infrared_verif = "rc5_enc")]
    t_rc5_0(f: u32) = t5(f, 1);
    #[cfg(infrared_verif = "rc5_enc")]
    t_rc5_1(f: u32) = t5(f, 2);
}
