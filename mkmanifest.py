#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json
TECH = {
 'decoder': 'Kani contracts on the real decoder (any invariant state, any edge) plus inductive lemmas over the contracts; counterexample search on the real code',
}
D = TECH['decoder']
N = {
 'C01': (D + '; LLVM-IR verifier (z3) for the window arithmetic', 'Proof: every event/command/reset obligation (overflow, shift, index, unwrap) from every state satisfying the invariant, all durations; building at all clocks via lir.py. Fugit rates: listed constants.'),
 'C02': (D, 'Proof for all states, words and durations; step contracts per interval, frame lemma over the contracts. Windows at other clocks: C09.'),
 'C03': (D, 'Proof: repeat contract per interval and a history lemma with ghost state (latest frame, complete or not).'),
 'C04': (D, 'Proof, as C02.'), 'C05': (D, 'Proof, as C02.'), 'C06': (D, 'Proof, as C02, per edge.'), 'C07': (D, 'Proof, as C02, per edge; mode 0 frames.'),
 'C08': (D, 'Proof: abandon contracts for every state and an inductive history lemma per protocol.'),
 'C09': ('Deductive verifier lir.py: symbolic execution of the LLVM IR of the real window code, every path obligation discharged by z3', 'Proof for all 2^32 clocks and all durations (u32, u64); fugit time bases at listed rates. Trusts rustc/LLVM optimisation, lir.py, z3.'),
 'C10': ('Kani contracts on the real encoders (symbolic command and bit index) plus lir.py proof of encoded tick counts against decoder windows for all clocks', 'Proof at listed clock constants and, through the tick computation, at all clocks in range; RC6 payload in the quick tier by complete native enumeration of all commands at listed clocks (thorough: Kani).'),
 'C11': ('Kani contracts on pack/unpack/create/generic views, all values', 'Proof, loop free, full domain.'),
 'C12': ('Kani contracts on the sender tick/load (any state satisfying the sender invariant) and on encoder frame shape', 'Proof of the tick/load contracts for any buffer and counter; waveform composition bounded to short frames and lemma-free harnesses.'),
 'C13': ('Kani contract on the poll step from any counter and level, spy decoder', 'Proof: loop free, any counter value including wrap-around.'),
 'C14': ('Kani contract on BufferIterator::next from any position, spy decoder; loop bounded', 'Bounded: at most 4 remaining entries per call, any position and contents; compared with a lone event receiver.'),
 'C15': ('Kani contracts on the multi receivers of 2-6 protocols, spy decoders', 'Proof per edge from new receivers with arbitrary decoder answers.'),
 'C16': ('Kani contracts on the event receivers with an arbitrary (spy) decoder', 'Proof, loop free, all time bases (fugit at listed rates).'),
 'C17': ('Kani contracts on the remote control tables, all addresses, codes and actions', 'Proof, full domain.'),
 'C18': (D, 'Proof: command/status/reset contracts from every invariant state.'),
 'C19': ('Kani contracts on builders and constructors with recording spy protocols', 'Proof for all frequencies over the listed builder call orders and constructors.'),
}
checks = [dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p, evidence_file='evidence/%s.json' % p,
               technique=t, level='proof', level_note=n) for p, (t, n) in N.items()]
json.dump(dict(version=1, setup_cmd='python3 setup_check.py',
    hooks=dict(guard='cfg(infrared_verif), with values nec, nec_enc, rc5, rc5_enc, rc6, sbp, denon, poll, iter, sender',
               enable='RUSTFLAGS="--cfg infrared_verif --cfg infrared_verif=\\"nec\\" ..." (set by check.py)', source_commits=['7945b5a42e5dadafee16121b19aff23803e112c6']),
    checks=checks, not_applicable=[], notes='See DESIGN.md. Findings: KNOWN_FINDINGS.txt.'), open('MANIFEST.json', 'w'), indent=1)
