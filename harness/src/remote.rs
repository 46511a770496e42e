//! Remote controls: the documented buttons, both ways
use crate::{nd, proofs, reach};
use infrared::cmd::{AddressCommand, Command};
use infrared::protocol::{nec::*, rc5::Rc5Command, sbp::SbpCommand};
use infrared::remotecontrol::{nec::*, rc5::CdPlayer, sbp::SamsungBluRayPlayer, Action, Action::*, Button, RemoteControlModel};
use infrared::ProtocolId;

/// All actions
pub const ACTIONS: [Action; 62] = [
    Power, Source, One, Two, Three, Four, Five, Six,
    Seven, Eight, Nine, Zero, Teletext, ChannelPrev, VolumeUp, VolumeDown,
    VolumeMute, ChannelList, ChannelListNext, ChannelListPrev, Tools, Info, Return, Exit,
    Enter, Up, Down, Left, Right, Red, Green, Yellow,
    Blue, Emanual, PictureSize, Subtitle, Stop, Rewind, Play, Paus,
    Play_Pause, Play_Pause2, Forward, Mode, Shuffle, U_SD, Plus, Minus,
    Next, Prev, Eq, Mute, Random, Repeat, Time, Setup,
    Menu, PitchReset, PitchPlus, PitchMinus, Prog, BatteryLow,
];
const TV: &[(u32, Action)] = &[
    (2, Power), (1, Source), (4, One), (5, Two), (6, Three), (8, Four),
    (9, Five), (10, Six), (12, Seven), (13, Eight), (14, Nine), (17, Zero),
    (44, Teletext), (19, ChannelPrev), (7, VolumeUp), (11, VolumeDown), (15, VolumeMute), (107, ChannelList),
    (18, ChannelListNext), (16, ChannelListPrev), (75, Tools), (31, Info), (88, Return), (45, Exit),
    (104, Enter), (96, Up), (97, Down), (101, Left), (98, Right), (108, Red),
    (20, Green), (21, Yellow), (22, Blue), (63, Emanual), (62, PictureSize), (37, Subtitle),
    (70, Stop), (69, Rewind), (71, Play), (74, Paus), (72, Forward),
];
const MP3: &[(u32, Action)] = &[
    (69, Power), (70, Mode), (71, Mute), (68, Play_Pause), (64, Prev), (67, Next),
    (7, Eq), (21, Minus), (9, Plus), (22, Zero), (25, Shuffle), (13, U_SD),
    (12, One), (24, Two), (94, Three), (8, Four), (28, Five), (90, Six),
    (66, Seven), (82, Eight), (74, Nine),
];
const CD: &[(u32, Action)] = &[
    (1, One), (2, Two), (3, Three), (4, Four), (5, Five), (6, Six),
    (7, Seven), (8, Eight), (9, Nine), (11, Time), (12, Power), (16, Up),
    (17, Down), (18, Setup), (21, Left), (22, Right), (23, Enter), (28, Random),
    (29, Repeat), (32, Next), (33, Prev), (37, PitchReset), (38, PitchPlus), (39, PitchMinus),
    (41, Prog), (48, Paus), (53, Play), (54, Stop),
];
const BLURAY: &[(u32, Action)] = &[
    (2, One), (3, Two), (4, Three), (5, Four), (6, Five), (7, Six),
    (8, Seven), (9, Eight), (10, Nine),
];
/// Page and code
const APPLE: &[(u32, Action)] = &[
    (0x0E << 7 | 0x01, Menu),
    (0x0E << 7 | 0x02, Play_Pause),
    (0x0E << 7 | 0x03, Right),
    (0x0E << 7 | 0x04, Left),
    (0x0E << 7 | 0x05, Up),
    (0x0E << 7 | 0x06, Down),
    (0x0E << 7 | 0x2E, Enter),
    (0x0E << 7 | 0x2F, Play_Pause2),
    (0x00 << 7 | 0x03, BatteryLow),
    (0x00 << 7 | 0x07, BatteryLow),
];

/// The documented action of a code
fn listed(t: &[(u32, Action)], code: u32) -> Option<Action> {
    let mut r = None;
    for (c, a) in t {
        if *c == code && r.is_none() {
            r = Some(*a);
        }
    }
    r
}
fn has(t: &[(u32, Action)], a: Action) -> bool {
    let mut r = false;
    for (_, b) in t {
        r |= *b == a;
    }
    r
}
fn any_action() -> Action {
    ACTIONS[nd::below(ACTIONS.len() as u8) as usize]
}

/// Any command of the remote's protocol
pub trait AnyCmd: AddressCommand {
    fn any() -> Self;
    fn same(&self, o: &Self) -> bool;
    fn copy(&self) -> Self;
}
impl AnyCmd for NecCommand {
    fn any() -> Self {
        NecCommand { addr: nd::u8(), cmd: nd::u8(), repeat: nd::bool() }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn copy(&self) -> Self {
        *self
    }
}
impl AnyCmd for SamsungNecCommand {
    fn any() -> Self {
        SamsungNecCommand { addr: nd::u8(), cmd: nd::u8(), repeat: nd::bool() }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn copy(&self) -> Self {
        *self
    }
}
impl AnyCmd for AppleNecCommand {
    fn any() -> Self {
        let (command_page, command) = (nd::u8(), nd::u8());
        nd::assume(command_page < 32 && command < 128);
        AppleNecCommand { command_page, command, device_id: nd::u8(), repeat: nd::bool() }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn copy(&self) -> Self {
        *self
    }
}
impl AnyCmd for Rc5Command {
    fn any() -> Self {
        Rc5Command { addr: nd::u8(), cmd: nd::u8(), start: nd::u8(), toggle: nd::bool() }
    }
    fn same(&self, o: &Self) -> bool {
        self == o
    }
    fn copy(&self) -> Self {
        *self
    }
}
impl AnyCmd for SbpCommand {
    fn any() -> Self {
        SbpCommand { address: nd::u16(), command: nd::u8(), valid: nd::bool() }
    }
    fn same(&self, o: &Self) -> bool {
        self.address == o.address && self.command == o.command && self.valid == o.valid
    }
    fn copy(&self) -> Self {
        SbpCommand { address: self.address, command: self.command, valid: self.valid }
    }
}

fn remote<R: RemoteControlModel>(id: ProtocolId, addr: u32, t: &[(u32, Action)])
where
    R::Cmd: AnyCmd,
{
    assert!(R::ADDRESS == addr && R::PROTOCOL == id && <R::Cmd as AddressCommand>::ID == id, "address and protocol");
    // Any command
    let c = R::Cmd::any();
    let want = if c.address() == addr { listed(t, c.command()) } else { None };
    assert!(R::decode(&c) == want, "listed codes of this address have their action, others none");
    let b = Button::<R, R::Cmd>::from(c.copy());
    assert!(b.action() == want && b.command().same(&c) && b.is_repeat() == c.is_repeat(), "a button is what it was made from");
    reach!(want.is_some(), "a listed code");
}
fn encode<R: RemoteControlModel>(addr: u32, t: &[(u32, Action)], can: bool)
where
    R::Cmd: AnyCmd,
{
    // Any action
    let a = any_action();
    match R::encode(&a) {
        Some(c) => {
            assert!(has(t, a), "only listed actions are encoded");
            assert!(c.address() == addr && !c.is_repeat(), "encoded for this remote");
            assert!(R::decode(&c) == Some(a), "and decoded as the same action");
        }
        None => assert!(!can || !has(t, a), "every listed action of a protocol with creation is encoded"),
    }
    reach!(has(t, a), "a listed action");
}
fn distinct<R: RemoteControlModel>()
where
    R::Cmd: AnyCmd,
{
    let (a, b) = (any_action(), any_action());
    nd::assume(a != b);
    if let (Some(x), Some(y)) = (R::encode(&a), R::encode(&b)) {
        assert!(x.command() != y.command(), "different actions have different commands");
    }
}
fn names() {
    let i = nd::below(ACTIONS.len() as u8) as usize;
    let (a, mut same) = (ACTIONS[i], 0);
    let n = a.to_str();
    assert!(!n.is_empty());
    for b in ACTIONS {
        let m = b.to_str();
        if m.len() == n.len() && m.as_bytes() == n.as_bytes() {
            assert!(a == b, "names are distinct");
            same += 1;
        }
    }
    assert!(same == 1);
}
proofs! {
    [43] tv => remote::<SamsungTv>(ProtocolId::NecSamsung, 7, TV);
    [43] tv_encode => encode::<SamsungTv>(7, TV, true);
    [43] tv_distinct => distinct::<SamsungTv>();
    [43] mp3 => remote::<SpecialForMp3>(ProtocolId::Nec, 0, MP3);
    [43] mp3_encode => encode::<SpecialForMp3>(0, MP3, true);
    [43] mp3_distinct => distinct::<SpecialForMp3>();
    [43] apple => remote::<Apple2009>(ProtocolId::NecApple, 0, APPLE);
    [43] apple_encode => encode::<Apple2009>(0, APPLE, false);
    [43] apple_distinct => distinct::<Apple2009>();
    [43] cd => remote::<CdPlayer>(ProtocolId::Rc5, 20, CD);
    [43] cd_encode => encode::<CdPlayer>(20, CD, true);
    [43] cd_distinct => distinct::<CdPlayer>();
    [43] bluray => remote::<SamsungBluRayPlayer>(ProtocolId::Sbp, 32, BLURAY);
    [43] bluray_encode => encode::<SamsungBluRayPlayer>(32, BLURAY, true);
    [43] bluray_distinct => distinct::<SamsungBluRayPlayer>();
    [64] action_names => names();
}
