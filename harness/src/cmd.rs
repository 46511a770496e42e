//! Commands: packing, creation, the generic view
use crate::{nd, proofs, reach, spec};
use infrared::cmd::{AddressCommand, AnyCommand};
use infrared::protocol::{denon::DenonCommand, nec::*, rc5::Rc5Command, rc6::Rc6Command, sbp::SbpCommand};
use infrared::ProtocolId;

/// Pack and unpack of a NEC variant whose pack is total
fn variant<C: NecCommandVariant + PartialEq + Copy>(c: C, repeat: bool) {
    let w = c.pack();
    assert!(C::unpack(w, repeat) == Some(c), "unpack of pack is the command");
    assert!(C::validate(w), "a packed word is valid");
    let v = nd::u32();
    let mine = C::unpack(v, repeat).is_some_and(|c| c.pack() == v);
    assert!(C::validate(v) == mine, "a word is valid exactly if it is the packing of a command");
    assert!(C::unpack(v, repeat).is_some(), "every word is some command");
    reach!(C::validate(v), "a valid word");
}
fn nec() {
    let (addr, cmd, repeat) = (nd::u8(), nd::u8(), nd::bool());
    variant(NecCommand { addr, cmd, repeat }, repeat);
    variant(SamsungNecCommand { addr, cmd, repeat }, repeat);
    let addr = nd::u16();
    variant(Nec16Command { addr, cmd, repeat }, repeat);
    variant(NecDebugCmd { bits: nd::u32() }, repeat);
}
/// The Apple variant has no packing; what it accepts and what it makes of it are given
fn apple() {
    let (w, repeat) = (nd::u32(), nd::bool());
    let want = spec::apple_fields(w);
    assert!(AppleNecCommand::validate(w) == want.is_some(), "vendor and odd parity");
    let c = AppleNecCommand::unpack(w, repeat);
    match (c, want) {
        (None, None) => {}
        (Some(c), Some((page, cmd, dev))) => {
            assert!(c.command_page == page && c.command == cmd && c.device_id == dev && c.repeat == repeat, "the fields of the word");
            let a = AnyCommand::from(c);
            assert!(a.protocol == ProtocolId::NecApple && a.repeat == repeat, "generic view");
            assert!(a.command & 0x7F == cmd as u32 && a.command >> 7 == page as u32, "page and code");
        }
        _ => assert!(false, "accepted exactly if valid"),
    }
    reach!(want.is_some(), "a valid word");
    // Two frames with the same page and code look the same, others differ
    let (w2, _) = (nd::u32(), ());
    if let (Some(x), Some(y)) = (AppleNecCommand::unpack(w, false), AppleNecCommand::unpack(w2, false)) {
        let same = (x.command_page, x.command) == (y.command_page, y.command);
        assert!((AddressCommand::command(&x) == AddressCommand::command(&y)) == same, "page and code are both kept");
    }
    let (a, k) = (nd::u32(), nd::u32());
    if let Some(c) = AppleNecCommand::create(a, k) {
        assert!(c.address() == a && AddressCommand::command(&c) == k, "a created command has the address and the code asked for");
    }
}
fn rc5() {
    let (addr, cmd, start, toggle) = (nd::u8(), nd::u8(), nd::u8(), nd::bool());
    nd::assume(addr < 32 && cmd < 64 && start < 4);
    let c = Rc5Command { addr, cmd, start, toggle };
    let w = c.pack();
    assert!(w < 1 << 14 && Rc5Command::unpack(w) == c, "unpack of pack is the command");
    let v = nd::u16();
    nd::assume(v < 1 << 14);
    assert!(Rc5Command::unpack(v).pack() == v, "every frame is the packing of its command");
    let n = Rc5Command::new(addr, cmd, toggle);
    assert!(n.addr == addr && n.cmd == cmd && n.toggle == toggle && n.start == 3, "new");
    assert!(Rc5Command::unpack(n.pack()) == n);
}
fn rc6() {
    let (bits, toggle) = (nd::u16(), nd::bool());
    let c = Rc6Command::from_bits(bits, toggle);
    assert!(c.addr == (bits >> 8) as u8 && c.cmd == bits as u8 && c.toggle == toggle, "the fields of the frame");
    let (addr, cmd) = (nd::u8(), nd::u8());
    assert!(Rc6Command::new(addr, cmd) == Rc6Command { addr, cmd, toggle: false }, "new");
}
fn sbp() {
    let (addr, data) = (nd::u16(), nd::u32());
    let c = SbpCommand::unpack(addr, data);
    assert!(c.address == addr && c.command == (data >> 4) as u8, "the fields of the frame");
    let ok = (data >> 12) as u8 == !((data >> 4) as u8);
    assert!(c.valid == ok, "valid exactly with the complement");
    reach!(c.valid, "valid");
}

/// What a created command says, and that it can be sent
fn made<C: AddressCommand>(id: ProtocolId, max_addr: u32, max_cmd: u32, raw: impl Fn(&C) -> bool) {
    let (a, c) = (nd::u32(), nd::u32());
    match C::create(a, c) {
        Some(x) => {
            assert!(x.address() == a && x.command() == c, "a created command has the address and the code asked for");
            assert!(a <= max_addr && c <= max_cmd, "a created command fits the frame");
            assert!(raw(&x), "a created command survives transmission");
            assert!(!x.is_repeat(), "a created command is no repeat");
            let y = AnyCommand::from(x);
            assert!(y.protocol == id && y.address == a && y.command == c && !y.repeat && y.raw == 0, "generic view");
        }
        None => assert!(a > max_addr || c > max_cmd, "what fits the frame can be created"),
    }
    reach!(a == max_addr && c == max_cmd, "largest");
}
fn create() {
    made::<NecCommand>(ProtocolId::Nec, 0xFF, 0xFF, |c| NecCommand::unpack(c.pack(), false) == Some(*c));
    made::<SamsungNecCommand>(ProtocolId::NecSamsung, 0xFF, 0xFF, |c| SamsungNecCommand::unpack(c.pack(), false) == Some(*c));
    made::<Rc5Command>(ProtocolId::Rc5, 0x1F, 0x3F, |c| Rc5Command::unpack(c.pack()) == *c && c.start == 3);
    made::<Rc6Command>(ProtocolId::Rc6, 0xFF, 0xFF, |c| *c == Rc6Command::from_bits((c.addr as u16) << 8 | c.cmd as u16, false));
    made::<SbpCommand>(ProtocolId::Sbp, 0xFFFF, 0xFF, |c| c.valid);
}

fn view<C: AddressCommand>(c: C, id: ProtocolId, addr: u32, cmd: u32, repeat: bool) {
    assert!(C::ID == id && c.address() == addr && c.command() == cmd && c.is_repeat() == repeat, "the command's own view");
    let a = AnyCommand::from(c);
    assert!(a.protocol == id && a.address == addr && a.command == cmd && a.repeat == repeat && a.raw == 0, "generic view");
}
fn views() {
    let (a8, c8, f) = (nd::u8(), nd::u8(), nd::bool());
    let (a, c) = (a8 as u32, c8 as u32);
    view(NecCommand { addr: a8, cmd: c8, repeat: f }, ProtocolId::Nec, a, c, f);
    view(SamsungNecCommand { addr: a8, cmd: c8, repeat: f }, ProtocolId::NecSamsung, a, c, f);
    view(Rc5Command { addr: a8, cmd: c8, start: nd::u8(), toggle: f }, ProtocolId::Rc5, a, c, f);
    view(Rc6Command { addr: a8, cmd: c8, toggle: f }, ProtocolId::Rc6, a, c, f);
    let a16 = nd::u16();
    view(SbpCommand { address: a16, command: c8, valid: f }, ProtocolId::Sbp, a16 as u32, c, false);
    let bits = nd::u64();
    let d = AnyCommand::from(DenonCommand { bits });
    assert!(d.protocol == ProtocolId::Denon && d.raw == bits && d.address == 0 && d.command == 0 && !d.repeat, "generic view");
}
fn ids() {
    use ProtocolId::*;
    for id in [Nec, Nec16, NecSamsung, NecApple, Rc5, Rc6, Sbp, Denon, Unknown] {
        assert!(ProtocolId::from(id as u8) == id, "id to number and back");
    }
    let n = nd::u8();
    let id = ProtocolId::from(n);
    assert!(id as u8 == n || id == Unknown, "number to id and back");
}
proofs! {
    [2] pack_nec => nec();
    [34] pack_apple => apple();
    [2] pack_rc5 => rc5();
    [2] pack_rc6 => rc6();
    [2] pack_sbp => sbp();
    [2] created => create();
    [2] generic => views();
    [11] protocol_ids => ids();
}
