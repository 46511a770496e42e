#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the long lines stay editable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
                   state=[dict(name=a,meaning=b,where=c) for a,b,c in state],observe_at=list(observe),hook_needed=hook)))
DEC=["src/protocol/nec/decoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs"]
p("C01","No edge timing can crash a receiver",
  "For every protocol, every clock frequency and every time base, feeding a receiver any edge with any duration or timestamp, after any earlier input, returns normally: no arithmetic overflow, out-of-range shift, index or other panic. Creating a receiver for any clock frequency returns normally as well.",
  ["inputs","histories","configurations"],"all u32 frequencies, all u32/u64 durations and timestamps, all decoder states reachable by any earlier events, all five protocol families",
  "Tests feed a few dozen recorded, well-behaved frames at 3 clock rates; no test uses durations near the integer limits, edges that repeat, or states reached by noise.",
  DEC+["src/receiver.rs","src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs","src/protocol/utils.rs","src/receiver/ppoll.rs"],
  [("decoder event handlers","ProtocolDecoder::event in each decoder"),("tick scaling","scale_with_samplerate, Span::new"),("duration addition","NEC, SBP and Denon add the saved mark to the space")],
  [("decoder state","bit counter, bit buffer, saved duration, half-bit clock","the decoder structs")],["Receiver::event","Receiver::event_instant","PeriodicPoll::poll","DecoderBuilder::build"],"set/read decoder state")
p("C02","A NEC frame is decoded exactly, whatever came before",
  "Whatever a NEC receiver (standard, Samsung, 16-bit, Apple or raw variant) has seen before, once the line has been idle for a time that is no valid pulse length, a header plus 32 bits sent least significant bit first with every mark+space inside its window produces exactly one result, at the edge that completes the last bit. That result carries exactly the transmitted bits, interpreted by the variant (address in bits 0-7 or 0-15, command in bits 16-23; Apple page/command/device fields and only for its vendor id with odd parity), not flagged as repeat.",
  ["inputs","histories","configurations"],"all 2^32 words, all in-window durations and splits into mark and space, all clocks, all earlier histories",
  "The tests decode nominal frames of one variant at one or three clock rates from a fresh receiver; jitter, other variants' full word space and dirty receiver states are not covered.",
  ["src/protocol/nec/decoder.rs","src/protocol/nec/mod.rs","src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/nec/nec16.rs","src/protocol/nec/apple.rs","src/protocol/nec/raw.rs","src/receiver.rs","src/receiver/time.rs"],
  [("bit accumulation","NecDecoder::event"),("field extraction","NecCommandVariant::unpack of each variant"),("result delivery and reset","Receiver::event_edge")],
  [("bit buffer / bit index","bits received so far","NecDecoder")],["Receiver::event"],"set/read decoder state")
p("C03","A NEC repeat repeats exactly the frame it follows",
  "When a NEC receiver sees a repeat code, it reports the command of the most recent frame, flagged as repeat, if that frame was received completely. If no frame was received yet, or the most recent frame was broken off, the repeat code reports nothing.",
  ["histories","inputs"],"all histories of complete frames, broken frames, repeat codes, noise and gaps",
  "The one repeat test sends a good frame followed by repeats; it never repeats without a frame or after a broken one.",
  ["src/protocol/nec/decoder.rs","src/receiver.rs"],
  [("repeat handling","NecDecoder::event / command"),("bit buffer kept over reset","NecDecoder::reset")],
  [("bit buffer","last complete frame, kept over reset","NecDecoder")],["Receiver::event"],"set/read decoder state")
p("C04","A Samsung Blu-ray frame is decoded exactly, whatever came before",
  "Whatever came before, after an idle time that is no valid pulse length, a header, 16 address bits, a pause and 20 data bits (least significant first, every interval in its window) produce exactly one command, at the edge completing the last bit. Its address is the 16 bits sent, its command is data bits 4-11, and it is marked valid exactly when data bits 12-19 are the complement of bits 4-11.",
  ["inputs","histories","configurations"],"all 2^36 payloads, all in-window durations, all clocks, all earlier histories",
  "No test exercises this protocol at all.",
  ["src/protocol/sbp/mod.rs","src/receiver.rs","src/receiver/time.rs"],
  [("bit accumulation","SbpDecoder::event"),("field extraction","SbpCommand::unpack")],
  [("address/command accumulators","bits received so far, cleared by reset","SbpDecoder")],["Receiver::event"],"set/read decoder state")
p("C05","A Denon frame is decoded exactly, whatever came before",
  "Whatever came before, after an idle time that is no valid pulse length, a header followed by 48 bits (least significant first, every interval in its window) produces exactly one command, at the edge completing the last bit, carrying exactly those 48 bits.",
  ["inputs","histories","configurations"],"all 2^48 words, all in-window durations, all clocks, all earlier histories including broken frames",
  "The only test counts decoded frames of one recording and never looks at the bits.",
  ["src/protocol/denon/mod.rs","src/receiver.rs","src/receiver/time.rs"],
  [("bit accumulation","DenonDecoder::event"),("reset","DenonDecoder::reset")],
  [("bit accumulator","bits received so far","DenonDecoder")],["Receiver::event"],"set/read decoder state")
p("C06","An RC5 frame is decoded exactly, whatever came before",
  "Whatever came before, after an idle time that is no valid pulse length, the edges of a 14-bit bi-phase RC5 frame (first start bit 1), every pulse one or two half-bits long within its window, produce exactly one command, at the mid-bit edge of the last bit. Its start bits, toggle bit, 5-bit address and 6-bit command are exactly the transmitted bits.",
  ["inputs","histories","configurations"],"all 2^13 frames, all in-window durations, all clocks, all earlier histories",
  "Tests send toggle=0 frames with nominal timing from a fresh decoder (one recording has noise in between).",
  ["src/protocol/rc5/decoder.rs","src/protocol/rc5/mod.rs","src/receiver.rs","src/receiver/time.rs"],
  [("half-bit clock recovery","Rc5Decoder::event"),("field extraction","Rc5Command::unpack")],
  [("half-bit clock, bit buffer","position inside the frame and bits so far","Rc5Decoder")],["Receiver::event"],"set/read decoder state")
p("C07","An RC6 frame is decoded exactly, whatever came before",
  "Whatever came before, after an idle time that is no valid pulse length, the edges of a mode-0 RC6 frame (leader, start bit, mode 000, double-width toggle bit, 16 bi-phase bits), every pulse in its window, produce exactly one command, at the mid-bit edge of the last bit. Its toggle flag, 8-bit address and 8-bit command are exactly the transmitted ones.",
  ["inputs","histories","configurations"],"all 2^17 frames, all in-window durations, all clocks, all earlier histories",
  "Tests only send toggle=0 frames with nominal timing from a fresh decoder.",
  ["src/protocol/rc6/decoder.rs","src/protocol/rc6/cmd.rs","src/receiver.rs","src/receiver/time.rs"],
  [("leader/mode/toggle/data automaton","Rc6Decoder::event"),("field extraction","Rc6Command::from_bits")],
  [("clock, header and data registers","position inside the frame and bits so far","Rc6Decoder")],["Receiver::event"],"set/read decoder state")
p("C08","Incomplete or disturbed frames are never reported as commands",
  "For every protocol and every sequence of edges, a (non-repeat) command is reported only at the edge that completes a whole frame, with a recognised pulse for the header and for every single bit since that header. A pulse that fits no window inside a frame makes the receiver abandon that frame (with or without reporting an error), and none of its bits appear in any later command.",
  ["inputs","histories"],"all edge sequences over all durations for all five protocol families",
  "Tests contain one disturbed RC5 and one disturbed Denon recording; phantom commands need particular disturbances at particular bit positions.",
  DEC+["src/receiver.rs","src/receiver/time.rs"],
  [("abandon on unknown pulse","ProtocolDecoder::event of each decoder"),("clean restart","reset() of each decoder, called by Receiver::event_edge")],
  [("decoder state","progress inside a frame","the decoder structs")],["Receiver::event"],"set/read decoder state")
p("C09","Pulse windows are nominal length plus/minus tolerance at every clock",
  "At every clock frequency and for every time base, a pulse is recognised as a symbol exactly when its length lies in nominal length +/- that symbol's tolerance, up to a rounding of three clock ticks plus 0.4 %, the earlier symbol winning where windows overlap. Nominal lengths in us and tolerances are: NEC header 13500/7%, repeat 11250/7%, zero 1120/25%, one 2250/12% (Samsung header 9000, repeat 6750); RC5 half-bits 889/12%, 1778/10%; RC6 one to six units of 444/12%; Blu-ray header 9000/5%, pause 5000/5%, zero 1000/10%, one 2000/10%; Denon header 5000/8%, zero 840/10%, one 1680/10%.",
  ["inputs","configurations"],"all u32 clock frequencies, all durations, u32 and u64 ticks; fugit ticks at a list of rates",
  "Tests check three values of the scaling helper and nominal pulses at three rates.",
  ["src/protocol/utils.rs","src/receiver/time.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs"]+DEC,
  [("scaling","scale_with_samplerate"),("windows","Span::new, PulseSpans::new, PulseSpans::get"),("tables","PULSE/TOL constants of each decoder")],
  (),["ProtocolDecoder::spans","PulseSpans::get"],None)
p("C10","What is encoded at a clock rate is decoded at that clock rate",
  "For every command of the NEC (standard, Samsung, 16-bit, raw), RC5 and RC6 protocols, feeding the encoded pulse lengths to a receiver of the same protocol at the same clock frequency yields exactly that command, including the RC5/RC6 toggle bit. This holds for clock frequencies from 20 kHz (RC6: 40 kHz) up to the highest the encoder accepts (400 MHz NEC and RC5, 9 MHz RC6).",
  ["inputs","configurations"],"all commands in field range x all clock frequencies in the stated range",
  "Tests loop over most toggle=0 commands at 40 kHz and one command at two other rates; Samsung, 16-bit, raw, toggle and other rates are not covered.",
  ["src/protocol/nec/encoder.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs","src/protocol/nec/decoder.rs","src/protocol/rc5/decoder.rs","src/protocol/rc6/decoder.rs","src/protocol/utils.rs"],
  [("encoders","ProtocolEncoder::encode and the tick computation behind DATA"),("decoders","ProtocolDecoder::event")],
  (),["ProtocolEncoder::encode","Receiver::event"],"expose the private tick computation of the encoders")
p("C11","Command fields survive packing, creation and the generic view",
  "Unpacking a packed command gives the same command, a packed word always passes its own validity check, and a word passes that check only if it is the packing of some command. Creating a command from an address and a code either fails or gives a command that reports exactly that address and code and that the protocol can transmit; the generic command view carries protocol, address, code (Apple: page and code), raw bits (Denon) and repeat flag unchanged, and protocol ids survive conversion to their number and back.",
  ["inputs"],"all field values, all 2^32 words, all (address, code) pairs, all bytes",
  "Tests check one or two example commands per variant.",
  ["src/protocol/nec/standard.rs","src/protocol/nec/samsung.rs","src/protocol/nec/nec16.rs","src/protocol/nec/apple.rs","src/protocol/nec/raw.rs","src/protocol/rc5/mod.rs","src/protocol/rc6/cmd.rs","src/protocol/sbp/mod.rs","src/protocol/denon/mod.rs","src/cmd.rs","src/protocol.rs"],
  [("pack/unpack/validate","NecCommandVariant impls, Rc5Command, Rc6Command, SbpCommand"),("create/address/command","AddressCommand impls"),("generic view","From<Cmd> for AnyCommand, From<u8> for ProtocolId")],
  (),["pack","unpack","validate","create","AnyCommand::from"],None)
p("C12","The sender emits exactly the loaded frame and then stays silent",
  "After a command is loaded, ticking the sender produces marks and spaces of exactly the encoded lengths in order, starting with a mark; every frame is a whole number of mark/space pairs, and after it the output is off and stays off until the next load. A sender that has nothing loaded never switches its output on, a pin-driving sender ignores a load during a transmission, and nothing of an earlier frame is ever sent again.",
  ["inputs","histories","configurations"],"all commands and encoded frames, all load/tick histories, all buffer sizes that hold the frame, timer wrap-around",
  "No test ticks a sender at all; tests only look at the encoded buffer.",
  ["src/sender/senders.rs","src/sender/buffer.rs","src/sender/hal.rs","src/protocol/nec/encoder.rs","src/protocol/rc5/encoder.rs","src/protocol/rc6/encoder.rs"],
  [("edge scheduling","PulsedataSender::tick"),("frame storage","PulsedataBuffer"),("pin driving","Sender::tick, Sender::load")],
  [("position, last edge, status, buffer fill level","progress inside the frame","PulsedataSender, PulsedataBuffer")],["Sender::tick","PulsedataSender::tick","ProtocolEncoder::encode"],"set/read sender state")
p("C13","A polled receiver decodes like an event receiver",
  "For every sequence of sampled levels, a periodically polled receiver behaves exactly like an event receiver that is told of each level change with the number of polls since the previous change: same commands, same errors, at the same samples, and nothing on samples without a change. This holds forever, including when the poll counter wraps around, and for samples read from a pin, where a failing read is reported and counts as no sample.",
  ["inputs","histories","schedules"],"all level sequences of any length, all poll counter values",
  "One test polls one RC5 recording.",
  ["src/receiver/ppoll.rs","src/receiver/decoder.rs"],
  [("edge detection and sample counting","PeriodicPoll::poll_base"),("command delivery","ProtocolDecoder::event_total")],
  [("poll clock, last edge, last level","time base of the polled receiver","PeriodicPoll")],["PeriodicPoll::poll"],"set the poll counter")
p("C14","A buffer receiver yields every command in the buffer, in order",
  "For every buffer of durations, iterating a buffer receiver yields, in order, exactly the commands that an event receiver at the same clock reports when fed the same durations with alternating edges starting with a mark. Errors and rejected frames inside the buffer do not end the iteration; it ends only when the buffer is used up, and then stays ended.",
  ["inputs","histories"],"all buffers of any length and content, all protocols",
  "Tests iterate over a handful of recordings without a decoding error in them.",
  ["src/receiver/iter.rs","src/receiver/bufferinput.rs"],
  [("iteration","BufferIterator::next")],
  [("position","next buffer entry","BufferIterator")],["BufferInputReceiver::iter","BufferInputReceiver::iter_with"],None)
p("C15","A multi receiver is its receivers side by side",
  "For two to six protocols, a multi receiver given an edge returns in slot i exactly the command that a lone receiver of protocol i with the same history would return (nothing where that one reports nothing or an error). Every receiver sees every edge exactly once, whatever the others do, and the flattened form yields the non-empty slots in order.",
  ["inputs","histories","configurations"],"all arities, all protocol combinations, all edge sequences",
  "No test uses the multi receiver.",
  ["src/receiver/multi.rs","src/receiver.rs"],
  [("fan-out","ReceiverWrapper::event and ::make for each arity"),("front end","MultiReceiver::event, event_iter, event_generic")],
  (),["MultiReceiver::event","MultiReceiver::event_iter"],None)
p("C16","Event receivers hand each edge to the decoder unaltered",
  "An event receiver passes each edge and the time since the previous event to its decoder exactly once and returns exactly what that produces: a completed command (converted to the requested type), the decoder's error, or nothing; after a command or an error the decoder starts afresh. With timestamps the time is the difference to the previous timestamp (zero if, in the order of that time base, time runs backwards); with a pin a low level counts as a mark, and a failed pin read is returned as an error and changes nothing else.",
  ["inputs","histories","fault_sequences"],"all edges, durations and timestamps, all decoder answers, all pin read results in any order",
  "Tests use event() with good data only; timestamps, pins and pin errors are never tested.",
  ["src/receiver.rs","src/receiver/error.rs","src/receiver/decoder.rs","src/receiver/time/primitives.rs","src/receiver/time/fgt.rs"],
  [("dispatch","Receiver::event_edge"),("front ends","Receiver::event, event_instant for pin and no pin"),("error mapping","From<DecodingError> for Error")],
  [("previous instant","time of the previous event","Receiver")],["Receiver::event","Receiver::event_instant","Receiver::event_edge"],None)
p("C17","Remote controls map buttons and commands consistently",
  "For every built-in remote, an action that can be encoded is encoded to a command of the remote's address that decodes to that same action, and two different listed actions never share a command. A command from another address or with an unlisted code decodes to no action, each listed code decodes to its documented action, a button reports the action and command it was made from, and all actions have distinct names.",
  ["inputs"],"all remotes x all actions x all commands",
  "One test maps one RC5 code.",
  ["src/remotecontrol/mod.rs","src/remotecontrol/mapper.rs","src/remotecontrol/nec/samsungtv.rs","src/remotecontrol/nec/specialformp3.rs","src/remotecontrol/nec/apple2009.rs","src/remotecontrol/rc5/cdplayer.rs","src/remotecontrol/sbp/blurayplayer.rs"],
  [("lookup","RemoteControlModel::decode / encode"),("tables","BUTTONS of each remote"),("button","From<Cmd> for Button")],
  (),["RemoteControlModel::decode","RemoteControlModel::encode","Button::action","Action::to_str"],None)
p("C18","Decoders hand out a command only when complete, and reset cleanly",
  "A protocol decoder returns a command only while its last reported status was completion (and, Apple frames failing their check apart, always then). After a reset, which never changes its pulse windows, a decoder reports being idle, returns no command and reacts to every further edge sequence exactly like a newly built one, except that a NEC decoder remembers the last frame for repeats.",
  ["inputs","histories"],"all decoder states reachable by any events, all protocols",
  "Tests never call a decoder directly in other states than completion.",
  DEC+["src/receiver/decoder.rs"],
  [("command()","each decoder"),("reset()","each decoder"),("state mapping","From<...State> for State")],
  [("decoder state","progress inside a frame","the decoder structs")],["ProtocolDecoder::command","ProtocolDecoder::reset","ProtocolDecoder::event"],"set/read decoder state")
p("C19","Builders and constructors keep the chosen configuration",
  "However a receiver is put together - builder calls in any order, or any of the direct constructors - its decoder is built for the protocol and exactly the clock frequency chosen last (1 MHz if none, the timer rate for fugit constructors) and it reads exactly the pin it was given. A new receiver starts with no earlier history.",
  ["configurations","inputs"],"all orders of builder calls, all constructors, all frequencies",
  "One test builds one receiver and does not look at its configuration.",
  ["src/receiver/builder.rs","src/receiver.rs","src/receiver/ppoll.rs","src/receiver/bufferinput.rs","src/receiver/iter.rs","src/receiver/multi.rs","src/lib.rs"],
  [("builder steps","Builder methods"),("constructors","Receiver, PeriodicPoll, BufferInputReceiver, MultiReceiver constructors")],
  (),["Builder::build","Builder::build_polled","Receiver::new","Receiver::with_fugit"],None)
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
