//! What a decoded command has to look like, per NEC variant
use crate::spec;
use infrared::protocol::nec::*;

pub trait Variant: NecCommandVariant {
    const TABLE: spec::Table;
    /// Is this the right interpretation of a frame `bits`?
    fn right(got: &Option<Self>, bits: u32, repeat: bool) -> bool;
}
impl Variant for NecCommand {
    const TABLE: spec::Table = spec::NEC;
    fn right(got: &Option<Self>, bits: u32, repeat: bool) -> bool {
        let (addr, cmd) = spec::nec_fields(bits);
        *got == Some(NecCommand { addr, cmd, repeat })
    }
}
impl Variant for SamsungNecCommand {
    const TABLE: spec::Table = spec::SAMSUNG;
    fn right(got: &Option<Self>, bits: u32, repeat: bool) -> bool {
        let (addr, cmd) = spec::nec_fields(bits);
        *got == Some(SamsungNecCommand { addr, cmd, repeat })
    }
}
impl Variant for Nec16Command {
    const TABLE: spec::Table = spec::NEC;
    fn right(got: &Option<Self>, bits: u32, repeat: bool) -> bool {
        *got == Some(Nec16Command { addr: bits as u16, cmd: (bits >> 16) as u8, repeat })
    }
}
impl Variant for NecDebugCmd {
    const TABLE: spec::Table = spec::NEC;
    fn right(got: &Option<Self>, bits: u32, _: bool) -> bool {
        *got == Some(NecDebugCmd { bits })
    }
}
impl Variant for AppleNecCommand {
    const TABLE: spec::Table = spec::NEC;
    fn right(got: &Option<Self>, bits: u32, repeat: bool) -> bool {
        *got == spec::apple_fields(bits).map(|(command_page, command, device_id)| AppleNecCommand {
            command_page,
            command,
            device_id,
            repeat,
        })
    }
}
