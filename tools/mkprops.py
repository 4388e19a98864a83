"""Write /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
PP = 'poc/vdaf_poc/'


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, title
    a = {'files': [PP + f for f in files],
         'mechanism': [{'name': n, 'where': PP + w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': PP + w} for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why, 'anchors': a})


prop('P01', 'Prio3 messages round-trip and admit exactly one encoding',
     'For every Prio3 instance and every message type (public share, leader and helper input share, '
     'verifier share, verifier message, output share, aggregate share, aggregation parameter), decoding the encoding of a well-formed '
     'value gives that value back. Every byte string a decoder accepts is exactly the encoding of the '
     'value it returns; inputs that encode no value (truncated, followed by further bytes, non-canonical) are refused with an exception.',
     ['inputs', 'configurations'],
     'all well-formed values, all byte strings, any number of shares and proofs, joint randomness used or not',
     'The test vectors decode about a dozen honest messages; no test feeds a decoder a wrong length, trailing bytes or '
     'a non-canonical field element, and only a few share/proof counts are used.',
     ['vdaf_prio3.py', 'field.py', 'common.py'],
     [('length-exact splitting and trailing-bytes checks', 'vdaf_prio3.py: decode_input_share, decode_public_share, decode_verifier_share'),
      ('modulus check on every element', 'field.py: Field.decode_vec')],
     observe=['decode_*/encode_* methods of Prio3'])

prop('P02', 'Poplar1 and IDPF messages round-trip and admit exactly one encoding',
     'For every tree depth and payload length, decoding the encoding of a well-formed Poplar1 or IDPF value (public share, input share, '
     'verifier share, verifier message, output share, aggregate share, aggregation parameter) gives that value back. '
     'Every byte string a decoder accepts is exactly the encoding of the value it returns: wrong lengths, trailing bytes, '
     'non-zero padding bits and non-canonical field elements are refused with an exception.',
     ['inputs', 'configurations'],
     'all well-formed values, all byte strings, every tree depth and every level, inner and leaf',
     'Tests cover a few fixed depths and a couple of hand-written padding cases; the property quantifies over all depths, '
     'all residues modulo eight of the bit counts and all malformed inputs.',
     ['vdaf_poplar1.py', 'idpf_bbcggi21.py', 'field.py', 'common.py'],
     [('trailing bit and byte checks', 'vdaf_poplar1.py: decode_agg_param, decode_input_share'),
      ('padding-bit check', 'idpf_bbcggi21.py: unpack_bits')],
     observe=['decode_*/encode_* methods of Poplar1 and of the IDPF'])

prop('P03', 'Field-vector encoding is canonical, fixed width and little-endian',
     'Every field encodes a vector as the concatenation of fixed-width little-endian integers of its elements, and decoding '
     'inverts this exactly. Decoding refuses any input whose length is not a multiple of the element size and any input '
     'containing an element that is not smaller than the modulus; integer-to-bytes helpers refuse values that do not fit.',
     ['inputs', 'configurations'],
     'all fields, all vectors including the empty one, all byte strings',
     'Tests round-trip small random vectors; the probability of a random element hitting the non-canonical range is about 2^-32 to 2^-250.',
     ['field.py', 'common.py'],
     [('length and modulus checks', 'field.py: Field.decode_vec'), ('range checks', 'common.py: to_le_bytes, to_be_bytes')],
     observe=['encode_vec, decode_vec'])

prop('P04', 'Ping-pong wire messages are framed strictly and unambiguously',
     'Every message of the ping-pong topology is a one-byte type followed by its length-prefixed parts, and parsing a serialized '
     'message gives back the same type and parts. Parsing fails on an unknown type, on any truncation, on a missing part '
     'and on any trailing byte.',
     ['inputs'], 'all byte strings; all types and all part lengths below 2^32',
     'The ping-pong tests exchange honest messages only; no malformed message is parsed.',
     ['vdaf_ping_pong.py', 'common.py'],
     [('type dispatch, length-prefixed parts, trailing check', 'vdaf_ping_pong.py: encode, decode')],
     observe=['serialized outbound messages', 'result of processing an inbound message'])

prop('P05', 'Ping-pong parties follow the round state machine and never crash',
     'A leader or helper processing any inbound bytes either advances by exactly one round, finishes, or ends up rejected; no exception '
     'escapes. A party finishes with an output share only when the last round of the VDAF has been processed and, if that step '
     'consumed a finish message, only for a message of that type; any decoding or verification failure, wrong message type or wrong '
     'round leads to rejection. Verifier shares are always combined in the order leader, helper, with each party using its own identifier.',
     ['inputs', 'histories', 'fault_sequences'],
     'all inbound byte strings, all numbers of rounds, all failures of the underlying VDAF operations, both roles',
     'Tests run a toy VDAF through a handful of honest exchanges; they cannot cover message/round/role combinations nor every failing call.',
     ['vdaf_ping_pong.py'],
     [('catch-all rejection and round/type gating', 'vdaf_ping_pong.py: ping_pong_*')],
     state=[('round counter', 'number of verification rounds completed', 'vdaf_ping_pong.py: Continued')],
     observe=['returned State objects'])

prop('P06', 'Prio3 releases no output share unless every proof and seed check passed',
     'Combining Prio3 verifier shares fails unless the sum of all shares of every one of the proofs is accepted by the proof system, and '
     'finishing fails unless the joint-randomness seed recomputed by this aggregator equals the one all aggregators agreed on. '
     'The value released is the truncation of exactly the measurement share that was verified.',
     ['inputs', 'configurations'],
     'all (including malicious) reports, all share counts and proof counts, joint randomness used or not',
     'A few negative vectors alter one report each; with a changed gate most malicious reports still fail for other reasons.',
     ['vdaf_prio3.py', 'flp_bbcggi19.py'],
     [('decide for each proof', 'vdaf_prio3.py: verifier_shares_to_message'), ('seed comparison', 'vdaf_prio3.py: verify_next')],
     observe=['verifier_shares_to_message, verify_next'])

prop('P07', 'Prio3 input shares reconstruct the measurement and its proofs',
     'For every measurement, randomness, number of shares and number of proofs, the measurement shares that the aggregators expand from their '
     'input shares add up to the encoded measurement, and their proof shares add up to the proofs generated for that measurement, one per proof with its own '
     'slice of prover and joint randomness. Every aggregator obtains the same kind and length of share.',
     ['inputs', 'configurations'],
     'all measurements, all random inputs, 2 to 255 shares, 1 to 255 proofs',
     'Vectors exist only for two or three shares and at most a few proofs; the sum must hold for every count.',
     ['vdaf_prio3.py'],
     [('subtraction of every helper expansion', 'vdaf_prio3.py: shard_with_joint_rand, shard_without_joint_rand'),
      ('share expansion', 'vdaf_prio3.py: expand_input_share')],
     observe=['shard', 'verify_init'])

prop('P08', 'Honest Prio3 reports always verify and yield the truncated measurement',
     'For honestly generated reports all aggregators derive the same joint randomness as the client, query each proof with identical query randomness, '
     'and the joint-randomness check at the end always succeeds. The output shares of all aggregators add up to the truncation of the encoded measurement.',
     ['inputs', 'configurations'],
     'all measurements and random inputs, every aggregator index, 2 to 255 shares, every proof count',
     'Tests run two or three aggregators; index-dependent mistakes at higher indices or proof counts are never executed.',
     ['vdaf_prio3.py'],
     [('shared derivation helpers', 'vdaf_prio3.py: joint_rand_part, joint_rand_seed, joint_rands, query_rands')],
     observe=['shard, verify_init, verifier_shares_to_message, verify_next'])

prop('P09', 'Verification and joint randomness bind everything they must depend on',
     'The randomness used to query a report is derived from the verification key and bound to the nonce, application context, algorithm, usage '
     'and number of proofs (Prio3) or level (Poplar1), and from nothing supplied by the client other than the nonce. Prio3 joint randomness is bound to every aggregator\'s '
     'full measurement share, its blind and index, the nonce, the context and the number of proofs, and every aggregator recomputes its own contribution rather than trusting the report.',
     ['inputs', 'configurations'],
     'all keys, nonces, contexts, reports, aggregator indices',
     'A missing or wrong binding leaves honest runs working; only an adversary who varies the unbound input sees the difference.',
     ['vdaf_prio3.py', 'vdaf_poplar1.py', 'vdaf.py', 'common.py'],
     [('binder strings', 'vdaf_prio3.py: query_rands, joint_rand_part, joint_rand_seed, joint_rands'),
      ('binder string', 'vdaf_poplar1.py: verify_init')],
     observe=['derived randomness'])

prop('P10', 'Every randomness derivation is domain separated and context bound',
     'Each distinct purpose for which pseudorandomness is derived uses its own domain-separation tag made of the document version, algorithm class, '
     'algorithm identifier, usage and the full application context; no two purposes share a tag. Algorithm identifiers of different VDAFs differ, '
     'and aggregators and clients use the same tag for the same purpose.',
     ['inputs', 'configurations', 'programs'],
     'all derivation sites reachable from the public operations, all contexts and usages',
     'A collision of tags or a dropped context is invisible to functional tests since all parties stay consistent.',
     ['vdaf_prio3.py', 'vdaf_poplar1.py', 'idpf_bbcggi21.py', 'vdaf.py', 'common.py'],
     [('tag formatting', 'common.py: format_dst'), ('tag construction', 'vdaf.py: domain_separation_tag'), ('usage constants', 'vdaf_prio3.py, vdaf_poplar1.py')],
     observe=['seed, tag and binder of each XOF invocation'])

prop('P11', 'Poplar1 verifies exactly the sketch and releases output only on success',
     'For every level, prefix set and report, the two aggregators\' sketch shares add up to the masked sketch values, and their second-round shares add up '
     'to a value that is zero exactly when the sketch equation holds, so honest reports always pass. An output share is released only after both rounds ran in order and '
     'the combined second-round value was exactly zero; any other message, share count, share length or step is refused.',
     ['inputs', 'histories'],
     'all reports, levels (inner and leaf), prefix sets, message sequences',
     'One negative vector exists; algebraic slips that cancel for tested depths, or a missing guard on an out-of-order message, go unnoticed.',
     ['vdaf_poplar1.py'],
     [('sketch computation', 'vdaf_poplar1.py: shard, verify_init, verify_next'), ('zero check', 'vdaf_poplar1.py: verifier_shares_to_message')],
     state=[('step', 'which round the state is in', 'vdaf_poplar1.py: verify state tuple')],
     observe=['verify_init, verify_next, verifier_shares_to_message'])

prop('P12', 'Aggregation parameters are accepted only where re-use is safe',
     'Prio3 accepts a report for aggregation once only. Poplar1 accepts a parameter exactly when its prefixes are strictly increasing and, '
     'if the report was aggregated before, the level is strictly greater than the most recent one and every prefix extends one of the most recent prefixes.',
     ['inputs', 'histories'],
     'all parameters and all histories of earlier parameters',
     'The tests try about ten parameter sequences of depth three.',
     ['vdaf_prio3.py', 'vdaf_poplar1.py'],
     [('validity predicate', 'vdaf_prio3.py: is_valid'), ('validity predicate', 'vdaf_poplar1.py: is_valid, get_ancestor')],
     observe=['is_valid'])

prop('P13', 'Aggregation is exact addition of output shares in any order and batching',
     'For Prio3 and Poplar1 the empty aggregate is the zero vector of the right length and field, updating adds the output share element by element, and merging adds '
     'all given shares; vectors of mismatched length are refused. The final result is decoded from the sum of all aggregate shares, with the number of measurements passed on unchanged.',
     ['inputs', 'histories', 'configurations'],
     'all sequences and groupings of updates and merges, all levels and prefix counts',
     'Tests aggregate a few measurements in one order; merge is exercised only through unsharding.',
     ['vdaf_prio3.py', 'vdaf_poplar1.py', 'common.py'],
     [('vector addition', 'common.py: vec_add'), ('agg_init/agg_update/merge/unshard', 'vdaf_prio3.py, vdaf_poplar1.py')],
     observe=['agg_init, agg_update, merge, unshard'])

prop('P14', 'Operations are deterministic, stateless and leave their arguments untouched',
     'The results of sharding, verification, aggregation, unsharding, encoding, decoding and proof operations depend only on their explicit arguments and the instance\'s parameters: no hidden '
     'randomness, clock, environment or earlier call influences them. They never modify their arguments or the visible attributes of the instance, and keep no state that influences later results.',
     ['histories', 'inputs', 'programs'],
     'all call sequences on the same instance and all aliasing of arguments',
     'Tests use fresh objects per report and do not compare arguments before and after; a leak needs a second call or an aliased argument.',
     ['vdaf_prio3.py', 'vdaf_poplar1.py', 'idpf_bbcggi21.py', 'flp_bbcggi19.py', 'field.py', 'common.py', 'xof.py', 'vdaf_ping_pong.py'],
     [('copy before correction', 'vdaf_prio3.py: verify_init'), ('deep copy before wrapping', 'flp_bbcggi19.py: ProveGadget.wrap, QueryGadget.wrap'),
      ('copy before extension', 'flp_bbcggi19.py: QueryGadget.__init__')],
     observe=['arguments, instance attributes and module state after each call'])

prop('P15', 'Proof-system lengths announced by a circuit are the lengths produced',
     'For every circuit and every parameter choice, encoded measurements, outputs, proofs, verifier messages and circuit outputs have exactly the announced lengths, the '
     'announced amounts of prover, query and joint randomness are exactly consumed, and every gadget is called exactly the announced number of times with inputs of its arity.',
     ['configurations', 'inputs'],
     'all circuits and all parameters (lengths, bounds, chunk sizes, not only divisible ones)',
     'Tests use about twenty parameter sets; length arithmetic has to hold for every one.',
     ['flp_bbcggi19.py'],
     [('length formulas', 'flp_bbcggi19.py: prove_rand_len, query_rand_len, proof_len, verifier_len, wire_poly_len, gadget_poly_len'),
      ('circuit parameters', 'flp_bbcggi19.py: Count, Sum, SumVec, Histogram, MultihotCountVec constructors')],
     observe=['announced length attributes versus produced vectors'])

prop('P16', 'Validity circuits and output maps are affine on secret shares',
     'For every circuit, number of shares and sharing of a measurement, the circuit evaluated on the shares (with gadget outputs shared) adds up to the circuit evaluated on the measurement, and '
     'truncation of the shares adds up to truncation of the measurement. Multiplication of share-dependent values happens only inside gadgets, and public constants are divided by the number of shares.',
     ['inputs', 'configurations'],
     'all circuits, all share counts, all sharings',
     'With two shares and a few parameters many scaling mistakes cancel or touch only constants that are zero.',
     ['flp_bbcggi19.py'],
     [('scaling by inverse share count', 'flp_bbcggi19.py: eval methods'), ('linear decoding', 'flp_bbcggi19.py: decode_range_checked_int, truncate')],
     observe=['circuit outputs on shares'])

prop('P17', 'Each circuit checks exactly the constraints that make a measurement valid',
     'The output of every circuit is a combination, with independent random weights, of one bit-check per encoded element, plus the one-hot sum check (histogram) or the weight check (bounded weight vector); '
     'no element is left unchecked for any parameters. Encodings of valid measurements satisfy all constraints.',
     ['inputs', 'configurations'],
     'all circuits, all lengths and chunk lengths, every position of the encoded vector',
     'Invalid inputs are tried at a few positions for a few lengths; an unchecked last or padded element needs a specific length/chunk combination.',
     ['flp_bbcggi19.py'],
     [('gadget inputs', 'flp_bbcggi19.py: eval of Count, Sum, SumVec, Histogram, MultihotCountVec'), ('gadgets', 'flp_bbcggi19.py: Mul, PolyEval, ParallelSum')],
     observe=['circuit outputs'])

prop('P18', 'Measurement encoding is faithful and refuses out-of-range measurements',
     'For every circuit, encoding a measurement in range, truncating and decoding gives the contribution of that measurement to the aggregate back; the bit weights used for encoding and decoding agree and add up to the announced maximum. '
     'Measurements out of range (too large, negative, wrong length, too much weight) are refused with an exception rather than encoded as something else.',
     ['inputs', 'configurations'],
     'all maximum values (powers of two or not), all measurements',
     'Tests round-trip a few maxima; refusal is tested for almost none.',
     ['flp_bbcggi19.py'],
     [('weighted-bit encoding', 'flp_bbcggi19.py: encode_range_checked_int, decode_range_checked_int'), ('range checks', 'flp_bbcggi19.py: encode methods')],
     observe=['encode, truncate, decode'])

prop('P19', 'Field arithmetic is the prime-field arithmetic announced',
     'Each field\'s modulus is prime, its announced subgroup order is a power of two dividing the multiplicative group order, its generator has exactly that order, and its encoded size is the '
     'number of bytes needed for the modulus. Addition, subtraction, negation, multiplication, powers and inverses return the canonical residue in the same field; equality holds exactly for equal residues.',
     ['inputs', 'configurations'],
     'all fields, all operands',
     'Tests try a hundred random operand pairs; they cannot establish primality, the exact order or behaviour at the extremes.',
     ['field.py'],
     [('parameters', 'field.py: Field64, Field96, Field128, Field255'), ('operators', 'field.py: Field')],
     observe=['field constants and operators'])

prop('P20', 'XOF output is an unbiased, resumable stream over an unambiguous input',
     'An XOF absorbs its tag, seed and binder so that different triples of the same shape are never confused, and consecutive reads of any lengths return consecutive pieces of one output stream. '
     'Field elements are sampled by masking to the modulus\' bit length and rejecting values not below the modulus, so each is uniform; seeds or tags of unsupported size are refused.',
     ['inputs', 'histories'],
     'all seeds, tags, binders, all sequences of read lengths, all fields',
     'Tests check one vector per XOF and one rejection case; unaligned reads across blocks and over-long tags are not tried.',
     ['xof.py', 'common.py'],
     [('length-prefixed absorption', 'xof.py: XofTurboShake128.__init__, XofFixedKeyAes128.__init__'), ('stream offset', 'xof.py: XofFixedKeyAes128.next'), ('rejection sampling', 'xof.py: Xof.next_vec')],
     state=[('length_consumed', 'bytes already output', 'xof.py: XofFixedKeyAes128')],
     observe=['XOF output'])

prop('P21', 'IDPF shares sum to the programmed value on the path and to zero off it',
     'For every depth, index, level, prefix and programmed values, the two parties\' outputs add up to the programmed vector of that level when the prefix lies on the path of the index, '
     'and to the zero vector otherwise. Evaluation refuses repeated prefixes, prefixes of the wrong length, levels out of range and unknown parties; key generation refuses mis-sized inputs.',
     ['inputs', 'configurations'],
     'all depths, indices, prefixes, keys, contexts and nonces',
     'Tests evaluate a few small trees; a mistake confined to one combination of control bits, level kind or depth can be missed.',
     ['idpf_bbcggi21.py', 'idpf.py', 'common.py'],
     [('correction words', 'idpf_bbcggi21.py: gen'), ('path evaluation', 'idpf_bbcggi21.py: eval, eval_next, extend, convert')],
     observe=['gen, eval'])

prop('P22', 'A proof is accepted only if the circuit output and every gadget test pass',
     'The verifier message consists of the circuit output reduced with independent randomness for every output element, and, per gadget, the evaluations at a fresh point of every wire polynomial and of the gadget polynomial from the proof. '
     'The decision is positive exactly when the reduced output is zero and every gadget applied to its wire evaluations gives the claimed evaluation; query aborts when a test point is a root of unity of the interpolation domain.',
     ['inputs', 'configurations'],
     'all circuits with any number of gadgets and outputs, all proofs, all query randomness',
     'A skipped gadget or output is only noticed by a proof that cheats exactly there; root-of-unity points have negligible probability in random tests.',
     ['flp_bbcggi19.py'],
     [('prove/query/decide', 'flp_bbcggi19.py: FlpBBCGGI19'), ('wire recording', 'flp_bbcggi19.py: ProveGadget, QueryGadget')],
     observe=['query, decide'])

prop('P23', 'Invalid parameters and mis-sized inputs are refused',
     'Constructing a Prio3 instance or circuit with parameters outside their documented ranges (number of shares, number of proofs, lengths, chunk lengths, maxima and weights, bounds too large for the field) fails. '
     'Sharding with a nonce or random input of the wrong size fails, for Prio3 and for Poplar1.',
     ['configurations', 'inputs'],
     'all parameter values and all input sizes',
     'Tests construct valid instances only.',
     ['vdaf_prio3.py', 'vdaf_poplar1.py', 'flp_bbcggi19.py', 'idpf_bbcggi21.py'],
     [('constructor checks', 'vdaf_prio3.py: Prio3.__init__; flp_bbcggi19.py: circuit constructors'), ('size checks', 'vdaf_prio3.py: shard; vdaf_poplar1.py: shard')],
     observe=['constructors, shard'])

prop('P24', 'No single share or seed is used for two purposes; helpers never see the secret',
     'The client\'s random input is split into non-overlapping parts that cover it exactly, each used for one role of one party. What helpers receive is a function of the randomness only, and the measurement enters '
     'the leader\'s share only after subtracting the pseudorandom share of every helper; proofs are masked the same way.',
     ['inputs', 'configurations'],
     'all measurements and random inputs, all share counts',
     'Re-used or overlapping randomness leaves every functional result unchanged.',
     ['vdaf_prio3.py', 'vdaf_poplar1.py', 'idpf_bbcggi21.py'],
     [('splitting of the random input', 'vdaf_prio3.py: shard, shard_with_joint_rand, shard_without_joint_rand; vdaf_poplar1.py: shard; idpf_bbcggi21.py: gen')],
     observe=['input shares as functions of the random input'])

prop('P25', 'Drivers run each measurement through all aggregators with fresh randomness',
     'Running a DAF or VDAF over a batch draws a fresh nonce and random input of the required sizes per measurement, gives each aggregator its own share and identifier, runs all rounds combining the verifier shares of all aggregators, and '
     'aggregates each output share exactly once into the share of the aggregator that produced it. The result is unsharded from all aggregate shares with the exact number of measurements.',
     ['inputs', 'configurations', 'histories'],
     'all batches, all numbers of aggregators and rounds',
     'Drivers are exercised with a few measurements and two or three aggregators, and their results do not reveal re-used nonces.',
     ['vdaf.py', 'daf.py', 'flp.py'],
     [('drivers', 'vdaf.py: run_vdaf; daf.py: run_daf; flp.py: run_flp, additive_secret_share')],
     observe=['run_vdaf, run_daf, run_flp'])

prop('P26', 'Transforms and polynomial arithmetic are numerically correct at every size',
     'Forward and inverse transforms, products, evaluation and interpolation in the monomial and Lagrange bases agree with each other and with their mathematical definition for every supported size and every polynomial, including zero, constant and unreduced ones.',
     ['inputs', 'configurations'],
     'all power-of-two sizes, all polynomials over all fields',
     'Random polynomials of a few sizes; zero and short polynomials at boundaries are not covered.',
     ['field.py'],
     [('NTT, Lagrange and monomial routines', 'field.py: NttField, Lagrange, poly_*')],
     observe=['ntt, inv_ntt, poly_*'])

prop('P27', 'Soundness error of the proof systems stays below the announced bound',
     'A prover who does not know a valid measurement convinces the aggregators with probability at most the bound documented for the field, circuit and number of proofs.',
     ['inputs', 'configurations'],
     'all cheating provers',
     'Negligible-probability events cannot be sampled.',
     ['flp_bbcggi19.py', 'vdaf_prio3.py'],
     [('parameter choice', 'vdaf_prio3.py: instantiations')],
     observe=['acceptance probability'])

prop('P28', 'A proof made honestly for a valid measurement is always accepted',
     'For every circuit, parameter choice and valid measurement, the proof the client makes is accepted by the decision over the combined verifier messages, whatever the prover, joint and '
     'query randomness and however measurement and proof are split into shares. The only exception is a query point inside the interpolation domain, which is refused with an error.',
     ['inputs', 'configurations'],
     'all measurements, circuits, sharings and random inputs',
     'Tests run a few measurements per circuit with small parameters; a prover and verifier that disagree for longer vectors, other chunk lengths or one measurement stay unnoticed.',
     ['flp_bbcggi19.py', 'field.py', 'vdaf_prio3.py'],
     [('proof, query and decision', 'flp_bbcggi19.py: FlpBBCGGI19'), ('gadget polynomials', 'flp_bbcggi19.py: Mul, PolyEval, ParallelSum')],
     observe=['prove, query, decide'])

prop('P29', 'The Prio3 aggregate result is the exact aggregate of the measurements',
     'For every Prio3 instance, number of aggregators and batch of valid measurements, sharding, verifying, aggregating and unsharding honest reports gives exactly the count, sum, vector sum or '
     'histogram of the batch. The result is the same whether messages are passed as values or in encoded form and whether reports are aggregated one by one or merged in batches.',
     ['inputs', 'configurations', 'histories'],
     'all instances, parameters, batches and randomness',
     'Tests run a few batches with two or three aggregators and one parameter set per instance, passing values rather than encoded messages.',
     ['vdaf_prio3.py', 'flp_bbcggi19.py', 'field.py', 'xof.py'],
     [('whole protocol', 'vdaf_prio3.py: Prio3'), ('circuits', 'flp_bbcggi19.py')],
     observe=['unshard after the whole protocol'])

prop('P30', 'The Poplar1 aggregate result counts the measurements under each prefix',
     'For every tree depth, level, set of candidate prefixes and batch of measurements, sharding, verifying, aggregating and unsharding honest reports gives, for each prefix, exactly the number '
     'of measurements that start with it; verification of honest reports never fails. The result is the same whether messages are passed as values or in encoded form and whether reports are '
     'aggregated one by one or merged in batches.',
     ['inputs', 'configurations', 'histories'],
     'all depths, levels, prefix sets, batches and randomness',
     'Tests use short inputs and a few prefix sets; deep trees, levels next to the leaves and mixed batches are not reached.',
     ['vdaf_poplar1.py', 'idpf_bbcggi21.py', 'field.py', 'xof.py'],
     [('whole protocol', 'vdaf_poplar1.py: Poplar1'), ('keys', 'idpf_bbcggi21.py: IdpfBBCGGI21')],
     observe=['unshard after the whole protocol'])

prop('P31', 'Honest ping-pong exchanges finish with the output shares of the VDAF',
     'When an honest leader and helper exchange ping-pong messages about an honest report, both finish after exactly one message more than the VDAF has rounds, and their output shares '
     'are those that verification without messages would give each of them.',
     ['inputs', 'configurations', 'histories'],
     'all VDAFs, reports, aggregation parameters and randomness',
     'Tests use a toy VDAF whose shares are plain integers; the real VDAFs are never run over ping-pong.',
     ['vdaf_ping_pong.py', 'vdaf_prio3.py', 'vdaf_poplar1.py'],
     [('exchange', 'vdaf_ping_pong.py: PingPong')],
     observe=['states of both parties after each message'])

prop('P32', 'The proof-system driver decides over fresh additive shares of everything',
     'Running a proof system on an encoded measurement draws joint, prover and query randomness of the announced lengths, splits measurement and proof into the given number of additive shares '
     'that are uniformly random and sum to them exactly, queries each pair of shares once with the common randomness and the right number of shares, and returns the decision over the sum of '
     'all verifier messages.',
     ['inputs', 'configurations'],
     'all proof systems, measurements and numbers of shares',
     'Tests always use two shares of a few measurements and do not look at the shares.',
     ['flp.py', 'field.py'],
     [('driver and sharing', 'flp.py: run_flp, additive_secret_share'), ('random vectors', 'field.py: Field.rand_vec')],
     observe=['run_flp, additive_secret_share'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
