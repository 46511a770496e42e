"""Which machinery decides which property. Kani patterns are substrings of harness names."""
TRUSTED = [
    'rustc and LLVM; Kani 0.68 and CBMC (MIR at opt-level 0); z3 behind lir.py; lir.py itself',
    'the hooks in /repo (cfg infrared_verif): verif_get/verif_set read and write the named fields',
    'harness/src/spec.rs is the specification: symbol tables, automata, field layouts',
]
FUGIT = 'fugit time bases are covered at the listed timer rates only (const generic)'
STATE = 'decoder histories are covered by an invariant over the decoder state: every state that satisfies it is a start state'
F_STEP = 'step contracts are proved for windows of any width, as every clock gives them (which symbol a duration is at a clock is C09); after reset() the comparison with a new decoder is proved at 1 MHz'
D = ['d_nec::', 'd_sbp::', 'd_denon::', 'd_rc5::', 'd_rc6::']
DECODERS = ['NecDecoder', 'SbpDecoder', 'DenonDecoder', 'Rc5Decoder', 'Rc6Decoder']
def fns(*d): return ['%s::%s' % (x, m) for x in d for m in ('event', 'command', 'reset', 'spans')]
W = ['w_%s' % n for n in ('nec_u32', 'samsung_u32', 'rc5_u32', 'rc6_u32', 'sbp_u32', 'denon_u32', 'nec_u64', 'samsung_u64', 'rc5_u64', 'rc6_u64', 'sbp_u64', 'denon_u64')]
WX = ['w_nec16_u32', 'w_apple_u32', 'w_necdebug_u32']
FG = '''f_nec_1000000 f_nec_40000 f_nec_32768 f_nec_84000000 f_samsung_1000000 f_samsung_8000000 f_rc5_1000000 f_rc5_32768 f_rc6_1000000
f_rc6_48000000 f_sbp_1000000 f_sbp_100000 f_denon_1000000 f_denon_16000000 g_nec_1000000 g_nec_32768 g_rc5_1000000 g_rc5_125000000 g_rc6_1000000
g_sbp_1000000 g_denon_1000000'''.split()
T = ['t_nec_0', 't_nec_2', 't_nec_3', 't_samsung_0', 't_samsung_2', 't_samsung_3', 't_rc5_0', 't_rc5_1', 't_rc6_0', 't_rc6_1', 't_rc6_2', 't_rc6_5']
ENC_Q = [m + '::' for m in ('enc::k20', 'enc::m1', 'enc::m400')]
ENC_T = ['enc::k38::', 'enc::k40::', 'enc::k44::', 'enc::k100::', 'enc::m8::', 'enc::m48::', 'enc::r1m::wave_rc6', 'enc::whole::']
def decoder(mod, d, lem): return dict(
    kani=['%s::%s_' % (mod, h) for h in ('step', 'edges', 'command', 'fresh', 'reset') if not (h == 'edges' and 'rc' in mod)] + ['lemmas::l_%s_' % lem, 'recv::event_', 'recv::total'],
    functions=fns(d) + ['Receiver::event_edge'], assumptions=[STATE, F_STEP, FUGIT], search=True)
PROPS = {
 'C01': dict(kani=['%s%s_' % (d, h) for d in D for h in ('step', 'edges', 'fresh') if not (h == 'edges' and 'rc' in d)] + ['recv::instant_', 'recv::poll_from_new', 'recv::hooked::poll_any'],
    arith=['w_nec_u32', 'w_samsung_u32', 'w_rc5_u32', 'w_rc6_u32', 'w_sbp_u32', 'w_denon_u32', 'w_nec_u64', 'w_rc5_u64', 'w_rc6_u64', 'w_sbp_u64', 'w_denon_u64'],
    functions=fns(*DECODERS) + ['DecoderBuilder::build (all)', 'PulseSpans::new', 'Span::new', 'Span::contains', 'scale_with_samplerate', 'Receiver::event', 'Receiver::event_instant', 'PeriodicPoll::poll_base'],
    assumptions=[STATE, FUGIT], search=True),
 'C02': decoder('d_nec', 'NecDecoder', 'nec'),
 'C03': dict(decoder('d_nec', 'NecDecoder', 'nec')),
 'C04': decoder('d_sbp', 'SbpDecoder', 'sbp'),
 'C05': decoder('d_denon', 'DenonDecoder', 'denon'),
 'C06': decoder('d_rc5', 'Rc5Decoder', 'rc5'),
 'C07': decoder('d_rc6', 'Rc6Decoder', 'rc6'),
 'C08': dict(kani=['%s%s_' % (d, h) for d in D for h in ('step', 'edges', 'reset', 'fresh') if not (h == 'edges' and 'rc' in d)] + ['_history', 'recv::event_u32'],
    functions=fns(*DECODERS) + ['Receiver::event_edge'], assumptions=[STATE, F_STEP, FUGIT], search=True),
 'C09': dict(kani=['spans::'], arith=W + WX + FG, functions=['DecoderBuilder::build (all)', 'PulseSpans::new', 'PulseSpans::get', 'InfraMonotonic::create_span', 'Span::new', 'Span::contains', 'scale_with_samplerate'],
    assumptions=[FUGIT], search=True),
 'C10': dict(kani=[e + h for e in ENC_Q for h in ('wave_nec', 'wave_samsung', 'wave_raw', 'wave_rc5', 'nec_ticks', 'rc5_ticks')] + ['data_rc6'] , kani_thorough=ENC_Q + ENC_T, arith=T, jobs=6,
    functions=['Nec::encode', 'Rc5::encode', 'Rc6::encode (thorough)', 'nec::encoder::calc_ticks', 'rc5::encoder::calc_freq', 'NecCommandVariant::pack'],
    assumptions=['encode is verified at the listed clock constants (F is a const generic); between them it depends on F only through DATA, which is proved for all clocks',
        'RC6 encoding: in the quick tier by complete enumeration of all 2^17 commands at the listed clocks, not deductively'], search=True, search_ms=15000),
 'C11': dict(kani=['cmd::'], functions=['pack/unpack/cmd_is_valid of all NEC variants', 'Rc5Command::pack/unpack/cmd_is_valid', 'Rc6Command::from_bits', 'AddressCommand::create (all)', 'From<..> for AnyCommand', 'ProtocolId::from'],
    assumptions=[], search=True),
 'C12': dict(kani=['send::'] + ['enc::m1::wave_nec', 'enc::m1::wave_samsung', 'enc::m1::wave_raw', 'enc::m1::wave_rc5'], functions=['PulsedataSender::tick', 'PulsedataSender::load_command', 'PulsedataSender::buffer', 'hal::Sender::load', 'hal::Sender::tick'],
    assumptions=['any buffer contents, length and counter satisfying the sender invariant are a start state'], search=True),
 'C13': dict(kani=['recv::poll_', 'recv::hooked::poll_any'], functions=['PeriodicPoll::poll_base', 'PeriodicPoll::poll', 'PeriodicPoll::with_pin', 'PeriodicPoll::new'], assumptions=['any poll counter, edge time and level is a start state'], search=True),
 'C14': dict(kani=['recv::buffer_', 'recv::hooked_iter::'], bounded=['recv::buffer_', 'buffer_any'], functions=['BufferIterator::next', 'BufferInputReceiver::iter', 'BufferInputReceiver::with_frequenzy'],
    assumptions=['one turn of the loop of next() is proved for every position of a buffer of every length (up to 2^42 entries) with any contents; that the turns differ in nothing but the fields of the iterator is not, the loop has no other state (a change to that is only seen within four turns, and by the search)',
        'bounded: several turns together, for at most 4 remaining entries of a buffer of 40'], search=True),
 'C15': dict(kani=['recv::multi_2', 'recv::multi_3', 'recv::multi_4', 'recv::multi_5', 'recv::multi_6', 'recv::multi_iter_2', 'recv::multi_iter_3', 'recv::multi_iter_4', 'recv::multi_iter_np_5'], kani_thorough=['recv::multi_'],
    functions=['ReceiverWrapper::make/event for 2..6', 'MultiReceiver::event_generic', 'event_generic_iter', 'event', 'event_iter'], assumptions=['protocols are spy protocols that record every call'], search=True),
 'C16': dict(kani=['recv::event_', 'recv::instant_', 'recv::pin_', 'recv::total'], functions=['Receiver::event_edge', 'Receiver::event', 'Receiver::event_instant'], assumptions=['the decoder is a spy that answers arbitrarily'], search=True),
 'C17': dict(kani=['remote::'], functions=['RemoteControlModel::decode/encode (all five)', 'Button::action/command', 'Action::to_str'], assumptions=[], search=True),
 'C18': dict(kani=['%s%s_' % (d, h) for d in D for h in ('step', 'command', 'fresh', 'reset')], functions=fns(*DECODERS), assumptions=[STATE, F_STEP, FUGIT], search=True),
 'C19': dict(kani=['recv::build_', 'fresh_'], functions=['Builder (all methods)', 'Receiver::new/with_input/with_pin/with_fugit/with_fugit64', 'PeriodicPoll::new/with_pin', 'MultiReceiver::new'], assumptions=['construction is checked with spy protocols that record the frequency, and with the real decoders'], search=True),
}
