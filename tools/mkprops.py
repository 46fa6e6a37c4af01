#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                               observe_at=observe or [], hook_needed=None)))

p("C01", "PRBS streams follow their recurrence and resume exactly from the returned seed",
  "Every generated bit is the mod-2 sum of the earlier bits selected by the generating polynomial, the seed being the bits before the first one, newest first. The seed handed back with a block is the last bits of the stream, newest first, so a stream produced in any sequence of blocks (empty, shorter than the seed, longer than a whole period) or bit by bit with the iterator is identical to the stream produced in one call. This holds for every supported PRBS type at any length, and for any other binary polynomial up to its nominal period.",
  ["inputs", "histories", "configurations"],
  "all supported PRBS types and arbitrary binary polynomials, all seeds including all-zero, all block-length sequences, generator and iterator mixed",
  "tests compare one full period from the all-ones seed with stored files and never split a stream, pass a short block or exceed a period",
  ["CommDspy/tx/prbs_generator.py", "CommDspy/tx/prbs_iterator.py", "CommDspy/auxiliary.py"],
  [("shift register step and tiling of whole periods", "tx/prbs_generator.py:prbs_generator"), ("iterator step", "tx/prbs_iterator.py:PrbsIterator.__next__")],
  ["tx.prbs_gen return values", "tx.PrbsIterator next/get_seed/get_prev_seed"],
  [("seed", "last n bits, newest first", "tx/prbs_generator.py")])

p("C02", "The named PRBS types are the standard maximal-length sequences",
  "For each named PRBS type n (7, 9, 11, 13, 15, 31) the stream from any nonzero seed repeats with period exactly 2^n-1 and not earlier, and within one period every nonzero n-bit window occurs exactly once. The recurrences are the standard ones: x^7+x^6+1, x^9+x^5+1, x^11+x^9+1, x^13+x^12+x^2+x+1, x^15+x^14+1 and x^31+x^28+1.",
  ["configurations", "inputs"], "every named type, every nonzero seed",
  "tests compare five of the types with one stored sequence from one seed and never touch the 31-bit type or check maximality",
  ["CommDspy/auxiliary.py", "CommDspy/constants.py"],
  [("tap table", "auxiliary.py:get_polynomial"), ("type enumeration", "constants.py:PrbsEnum")],
  ["get_polynomial", "tx.prbs_gen"])

p("C03", "Packing bits into symbols and unpacking them are exact inverses",
  "For every power-of-two alphabet and every combination of the bit-order, MSB, LSB and polarity flags, packing takes the bits in row-major order in groups, least significant bit first, applies the flags, and yields one integer in range per complete group, dropping only a trailing incomplete group. Unpacking with the same flags returns exactly the packed bits, for any number of symbols including a single one, and packing unpacked symbols returns the symbols. An alphabet size that is not a power of two is rejected when packing.",
  ["inputs", "configurations"], "all bit arrays of any shape and length, alphabets 2, 4, 8, ... , all 16 flag combinations",
  "tests check a few vectors for two and four symbols with some flags",
  ["CommDspy/tx/bin2symbol.py", "CommDspy/rx/symbol2bin.py"],
  [("grouping and flag order", "tx/bin2symbol.py:bin2symbol"), ("inverse flag order", "rx/symbol2bin.py:symbol2bin")],
  ["tx.bin2symbol", "rx.symbol2bin"])

p("C04", "Constellation mapping and demapping are exact inverses, Gray labelling is Gray",
  "Each constellation has its documented levels (NRZ -1,1; OOK 0,1; PAM3 -1,0,1; PAM4 -3,-1,1,3), scaled in full-scale mode so that their mean power is 1, and mapping sends symbol k to the k-th level, or to its negation under polarity inversion, or to the k-th of the caller's own levels, refusing a level list of the wrong size and anything that is no constellation. Demapping with the same options returns the symbols for arrays of any shape. Gray coding for power-of-two constellations is a bijection under which neighbouring levels differ in exactly one bit, and Gray decoding inverts it.",
  ["inputs", "configurations"], "all symbol arrays of any shape, all constellations, full-scale, polarity and custom-level options, any Gray table size that is a power of two",
  "tests map a handful of symbols for some option combinations",
  ["CommDspy/tx/mapping.py", "CommDspy/rx/demapping.py", "CommDspy/auxiliary.py", "CommDspy/tx/coding.py", "CommDspy/rx/decoding.py"],
  [("level table", "auxiliary.py:get_levels"), ("mapping", "tx/mapping.py:mapping"), ("demapping", "rx/demapping.py:demapping"), ("Gray table", "auxiliary.py:get_gray_level_vec")],
  ["tx.mapping", "rx.demapping", "tx.coding_gray", "rx.decoding_gray", "get_levels", "get_gray_level_vec"])

p("C05", "The slicer returns the nearest constellation level, element by element",
  "For any increasing array of levels (the four PAM4 levels by default) and any input array or list, each output element is a level at minimal distance from the corresponding input element; saturation, unequal spacing and ties included. The output has the input's shape, and an element's decision depends on that element alone.",
  ["inputs", "configurations"], "all inputs of any shape, all increasing level lists",
  "tests never call it directly with uneven levels, other shapes or out-of-range values",
  ["CommDspy/rx/slicer.py"], [("distance matrix and argmin", "rx/slicer.py:slicer")], ["rx.slicer"])

p("C06", "The quantizer rounds to its fixed-point grid and saturates at its ends",
  "With b total bits and f fractional bits the quantizer's grid is exactly {0..2^b-1}, {-2^(b-1)..2^(b-1)-1} or {-(2^(b-1)-1)..2^(b-1)-1} for the unsigned, signed and symmetric types, multiplied by 2^-f for positive, zero and negative f. Every output is a grid value nearest to the input, so values beyond the grid saturate, grid values are unchanged, and the error inside the range is at most half a step. Unknown types are rejected and the default type is the unsigned one.",
  ["inputs", "configurations"], "all inputs, all bit widths and fractional widths of either sign, the three types",
  "tests do not cover the quantizer at all, the simulation uses one setting",
  ["CommDspy/rx/quantiztion.py", "CommDspy/rx/slicer.py"], [("grid construction", "rx/quantiztion.py:quantize")], ["rx.quantize"])

p("C07", "Line encoders emit exactly their code's waveform for every bit sequence",
  "For every input sequence: differential coding emits the running sum modulo the constellation size starting from zero; Manchester emits 10 for one and 01 for zero; bipolar emits the middle level for zero and alternates low, high for ones starting low; MLT-3 steps through the cycle 0,1,2,1 at every one, starting at 0, and holds at zeros; differential Manchester always changes level at the start of a bit, and in the middle of the bit only for a zero, starting at level zero. Arrays of several dimensions are encoded in row-major order and keep their shape (last axis doubled for the two-chip codes).",
  ["inputs", "histories"], "all bit (or symbol) sequences of any length and shape",
  "tests encode short fixed or random vectors and mostly compare with a re-implementation on the same vectors",
  ["CommDspy/tx/coding.py"], [("accumulators and code tables", "tx/coding.py:coding_differential, coding_manchester, coding_bipolar, coding_mlt3, coding_differential_manchester")],
  ["tx.coding_*"])

p("C08", "Line decoders recover every encoded sequence exactly",
  "Decoding an encoded sequence with the matching line code (differential for every constellation, Manchester, bipolar with or without error detection, MLT-3, differential Manchester) returns exactly the original sequence, for every length including a single symbol and for arrays of any shape accepted by the encoder.",
  ["inputs", "histories"], "all sequences, all shapes, all constellations for the differential code",
  "tests round-trip one random vector per code, one-dimensional only",
  ["CommDspy/rx/decoding.py", "CommDspy/tx/coding.py"], [("inverse filters and pair decisions", "rx/decoding.py:decoding_differential, decoding_manchester, decoding_bipolar, decoding_mlt3, decoding_differential_manchester")],
  ["rx.decoding_* after tx.coding_*"])

p("C09", "Line-code violations are flagged where they occur, non-binary data is refused",
  "Manchester decoding yields 0.5 exactly at the chip pairs without a transition and the right bit elsewhere; bipolar decoding with error detection yields +0.5 (-0.5) exactly at those marks that have an adjacent mark (spaces ignored) of the same high (low) sign, 1 at the other marks and 0 at spaces, and without it 1 at every mark. Every encoder or decoder that is defined on binary data rejects an array holding any value other than 0 and 1.",
  ["inputs", "fault_sequences"], "all received sequences, i.e. all error patterns, and all arrays with foreign values",
  "tests inject a few errors at fixed positions",
  ["CommDspy/rx/decoding.py", "CommDspy/misc/help_functions.py", "CommDspy/tx/coding.py"],
  [("pair difference", "rx/decoding.py:decoding_manchester"), ("mark sign tracking", "rx/decoding.py:decoding_bipolar"), ("binary check", "misc/help_functions.py:check_binary")],
  ["rx.decoding_manchester", "rx.decoding_bipolar", "all binary coders"])

p("C10", "Linear block coding is GF(2) multiplication and decoding is minimum distance",
  "Encoding splits the bits into blocks of k, zero-padding the last one, and emits block times generator modulo 2. Decoding returns, for each complete received block (trailing incomplete bits ignored), data whose codeword is at minimal Hamming distance, hence it corrects every pattern of at most floor((dmin-1)/2) errors per block; the optional reliability output is zero for received codewords and otherwise one over the number of nearest codewords. Bits are returned as one flat sequence.",
  ["inputs", "configurations", "fault_sequences"], "all binary generator matrices, all messages, all error patterns",
  "tests use one or two codes with a few error positions",
  ["CommDspy/tx/coding.py", "CommDspy/rx/decoding.py", "CommDspy/misc/ml_decoding.py"],
  [("block product", "tx/coding.py:coding_linear"), ("codebook search", "rx/decoding.py:decoding_linear"), ("minimum distance choice", "misc/ml_decoding.py:ml_decoding")],
  ["tx.coding_linear", "rx.decoding_linear"])

p("C11", "Convolutional encoding is the shift-register machine of its generators",
  "For every binary generator set with one or more inputs, with or without feedback polynomials, the encoder emits at each step, output by output, the mod-2 sum of the register taps selected by the generators, the registers starting at zero, inputs taken serially and zero-padded to a whole step. It holds for any message length, so long recursive messages stay exact. An inconsistent feedback configuration (a transfer function declared to use a feedback polynomial that is not given, one with delayed taps declared not to use the given polynomial, a missing or wrongly sized declaration) is refused with an error by the encoder and both decoders; every consistent one is accepted.",
  ["inputs", "configurations", "histories"], "all messages of any length, all generator sets and feedback polynomials the validity check admits",
  "tests encode a few short messages with textbook codes",
  ["CommDspy/tx/coding.py", "CommDspy/misc/help_functions.py"], [("per-transfer-function filtering modulo 2", "tx/coding.py:coding_conv")], ["tx.coding_conv"])

p("C12", "Convolutional decoding finds a nearest code path and inverts noise-free encoding",
  "For each block of the traceback length, both convolutional decoders return an input sequence of 0s and 1s which, from some starting state, produces an output at minimal Hamming distance from the received block, over all starting states and inputs. Hence a noise-free single-block (and, for non-catastrophic starts, multi-block) message is recovered whenever the nearest path is unique, and both decoders achieve the same distance. With the error probability requested, the exhaustive decoder reports per block 0 for a received codeword and otherwise one over the number of nearest (starting state, input) pairs, and the Viterbi decoder reports one over the number of nearest final states (0 if there is one), together with the final state of the path it chose in the last block.",
  ["inputs", "configurations", "fault_sequences"], "all received bit sequences, all small codes with and without feedback, all block lengths",
  "tests decode noise-free or lightly damaged messages of fixed codes",
  ["CommDspy/rx/decoding.py", "CommDspy/misc/ml_decoding.py"], [("trellis construction", "misc/ml_decoding.py:create_trellis_bin"), ("exhaustive search", "rx/decoding.py:decoding_conv_ml"), ("add-compare-select", "rx/decoding.py:decoding_conv_viterbi")],
  ["rx.decoding_conv_ml", "rx.decoding_conv_viterbi"])

p("C13", "The FFE/DFE equalizer obeys its decision-feedback difference equation",
  "Each equalizer output is the forward-tap combination of the current and earlier inputs minus the feedback-tap combination of the most recent symbol decisions, each decision being the nearest level to the equalizer output at the selected sampling phase of its symbol. The returned memories are the latest inputs and the latest decisions, and at one sample per symbol feeding them back makes processing in chunks identical to processing in one call. Memories of a wrong size are refused.",
  ["inputs", "histories", "configurations"], "all input sequences, tap vectors, level sets, oversampling ratios and phases, and all splits into chunks",
  "tests run one long block and look at the aggregate error only",
  ["CommDspy/rx/ffe_dfe_model.py", "CommDspy/rx/slicer.py", "CommDspy/auxiliary.py"],
  [("sample loop and feedback buffer", "rx/ffe_dfe_model.py:ffe_dfe")], ["rx.ffe_dfe"],
  [("decision memory", "most recent decisions, newest first", "rx/ffe_dfe_model.py"), ("forward memory", "most recent inputs, oldest first", "rx/ffe_dfe_model.py")])

p("C14", "Streaming blocks give the same output for every split into chunks",
  "Pulse shaping, the channel filter (FIR and IIR), the CTLE and the stateful filter objects compute the output of their linear difference equation, and processing a signal in any sequence of chunks while carrying the returned (or internal) memory yields exactly the samples of one pass over the whole signal. The filter objects can be started (or reset) from given past inputs and outputs, newest first (or the transposed state), and refuse a memory of a wrong length.",
  ["inputs", "histories"], "all signals, coefficients, and all chunkings including one-sample chunks",
  "tests and the example run one block or one fixed chunk size and never compare chunkings",
  ["CommDspy/channel/pulse_shaping.py", "CommDspy/channel/additive_noise_functions.py", "CommDspy/rx/ctle_model.py", "CommDspy/misc/help_classes.py"],
  [("carried filter state", "channel/pulse_shaping.py:pulse_shape, channel/additive_noise_functions.py:awgn_channel, rx/ctle_model.py:ctle"), ("filter objects", "misc/help_classes.py:Filter, FilterTII, FfeDfeFilterTII")],
  ["channel.pulse_shape", "channel.awgn_channel", "rx.ctle", "misc.help_classes filters"])

p("C15", "Pulse shaping is free of inter-symbol interference at the symbol instants",
  "For every oversampling ratio, span and roll-off, the shaped signal has ratio-many samples per symbol, and with the rectangular, sinc and raised-cosine pulses the sample half the pulse length after a symbol's position equals that symbol exactly; the impulse option only inserts zeros and the rectangular pulse holds each symbol for one symbol time. Sinc, raised-cosine and root-raised-cosine pulses have their closed-form values, including at removable singularities, and are symmetric; a memory of a wrong length or an unknown pulse name is refused.",
  ["inputs", "configurations"], "all symbol sequences, oversampling ratios, spans, roll-offs including those that hit the removable singularities",
  "tests plot or use one configuration",
  ["CommDspy/channel/pulse_shaping.py", "CommDspy/auxiliary.py"],
  [("pulse formulas", "channel/pulse_shaping.py:rect_pulse, sinc_pulse, rcos_pulse, rrc_pulse"), ("zero insertion", "auxiliary.py:upsample")],
  ["channel.pulse_shape", "channel.*_pulse"])

p("C16", "Pattern locking finds the alignment of every cyclic shift",
  "Given a reference pattern whose cyclic self-correlation has a single peak, locking returns that pattern rotated to line up with the signal, for every rotation of the signal, for signals longer than the pattern, and for binary PRBS with any set of bit errors fewer than a quarter of the period. The correlation returned has one entry per candidate offset and the chosen offset is a maximum of it.",
  ["inputs", "fault_sequences"], "all patterns, all rotations, all error patterns below the bound, signals of any length",
  "tests lock on one or a few random rotations",
  ["CommDspy/rx/lock_pattern.py"], [("correlation over the doubled pattern", "rx/lock_pattern.py:lock_pattern_to_signal, lock_pattern_to_signal_binary")],
  ["rx.lock_pattern_to_signal", "rx.lock_pattern_to_signal_binary"])

p("C17", "PRBS checkers count exactly the bits that are wrong",
  "For a received stream that is an aligned, rotated or repeated PRBS with arbitrary bit errors, the checker marks exactly the erroneous positions, its correct count plus its error count is the stream length, and it declares loss of lock exactly when the errors reach the threshold. The economy checker, seeded from the received bits themselves, does the same from the first of its candidate starting points that keeps lock.",
  ["inputs", "fault_sequences", "configurations"], "all PRBS types up to 15 (31 for the economy checker), all rotations, lengths, thresholds and error patterns",
  "tests inject errors in one pattern and check the totals once",
  ["CommDspy/rx/checker.py", "CommDspy/rx/lock_pattern.py", "CommDspy/tx/prbs_generator.py"],
  [("alignment, tiling and comparison", "rx/checker.py:prbs_checker"), ("self-seeded comparison", "rx/checker.py:prbs_checker_economy")],
  ["rx.prbs_checker", "rx.prbs_checker_econ"])

p("C18", "Framing and binary helpers compute their documented arrangement for all inputs",
  "Buffering a signal yields rows of the requested length that start every (length - overlap) samples, after the requested number of leading zeros, the last one zero-padded, or, with clipping, dropped exactly when it is incomplete (overlap smaller than the length, signal longer than the overlap); upsampling puts each sample followed by rate-1 zeros; zero-order hold repeats each sample. The k-bit permutation table lists 0..2^k-1 in binary, integer/binary conversions of arrays of any shape are mutual inverses, and the Hamming table holds all pairwise distances with the index of a nearest codeword; mean power and RMS are those of the samples.",
  ["inputs", "configurations"], "all signals, lengths, overlaps of either sign, delays, widths and shapes",
  "tests never exercise these helpers directly",
  ["CommDspy/auxiliary.py"], [("frame extraction", "auxiliary.py:buffer"), ("conversions", "auxiliary.py:upsample, zoh, get_bin_perm, bin2uint, uint2bin, hamming, power, rms")],
  ["buffer", "upsample", "zoh", "get_bin_perm", "bin2uint", "uint2bin", "hamming", "power", "rms"])

p("C19", "Digital oversampling keeps the original samples and interpolates exactly",
  "Oversampling by an integer factor returns the original samples, after the documented trimming, at every factor-th position with the matching time axis, for every order and method; the Lagrange method reproduces any polynomial of degree at most the order exactly at the fractional points. Lagrange coefficients sum to one and, at zero delay, every method's coefficients select the current sample alone. An unknown method is refused.",
  ["inputs", "configurations"], "all signals, factors, orders, methods, roll-offs and delays in [0,1)",
  "tests look at one sine wave",
  ["CommDspy/digital_delay.py"], [("coefficient formulas", "digital_delay.py:dig_delay_lagrange_coeffs, dig_delay_sinc_coeffs, dig_delay_rcos_coeffs"), ("interleaving and trimming", "digital_delay.py:digital_oversample")],
  ["digital_oversample", "dig_delay_lagrange_coeffs", "dig_delay_sinc_coeffs"])

p("C20", "The eye diagram is the per-phase amplitude histogram of the signal, shown twice",
  "Each column of the eye diagram counts, for one sampling phase, how many of that phase's samples fall in each of the equal amplitude bins over the full-scale range, so a column's total is the number of in-range samples at that phase, and the phases are repeated once to show two symbol periods. The logarithmic version is the logarithm of the same counts plus 0.1, and the amplitude axis spans the full-scale range with one value per bin.",
  ["inputs", "configurations"], "all signals, oversampling ratios, bin counts and full-scale values",
  "tests only draw one picture",
  ["CommDspy/eye_diagram.py", "CommDspy/digital_delay.py"], [("per-phase histogram", "eye_diagram.py:eye_diagram")], ["eye_diagram"])

p("C21", "The Mueller-Muller step points to the stronger of pre- and postcursor",
  "The clock-recovery step compares the weighted correlation of the samples with the previous symbols (postcursor) and with the next symbols (precursor), each averaged over the chunk, and returns 1, -1 or 0 as the difference is above, below or within the tolerance. Swapping time direction negates the step.",
  ["inputs", "configurations"], "all chunks, references, weights and tolerances",
  "tests run one recovery loop and look at where it ends",
  ["CommDspy/rx/clock_data_recovery.py"], [("correlation difference", "rx/clock_data_recovery.py:mueller_muller_step")], ["rx.mueller_muller_step"])

p("C22", "LMS gradients are the averaged error-data correlations at the requested taps",
  "The decision-directed gradient reports the mean squared error between outputs and references (the sliced outputs when none are given), and for each requested forward tap half the mean of error times input at that delay (negative delays look ahead) and for each requested feedback tap minus half the mean of error times reference at that delay, averaged over the samples for which both exist, in the order the taps were requested. Only the requested gradients are returned, and a reference of the wrong length is refused; the soft-decision version does the same with its mixture-likelihood error and loss.",
  ["inputs", "configurations"], "all signals, level sets, tap index lists in any order and sign, with and without reference",
  "tests only watch one convergence run",
  ["CommDspy/rx/least_mean_squares.py"], [("masked means", "rx/least_mean_squares.py:_compute_derivatives"), ("return forms", "rx/least_mean_squares.py:_return_function")],
  ["rx.ddlms_grad", "rx.soft_ddlms_grad"])

p("C23", "Channel estimation recovers the impulse response of a noise-free channel",
  "For a noise-free PRBS signal in any rotation passed through a linear channel whose largest tap is positive and whose response around it fits the requested pre- and postcursor window, the estimate is proportional to the channel's impulse response in time order with the precursors first, the residual is zero, and the normalized estimate has peak 1 (otherwise it is the response divided by the variance of the received period). Further repetitions of the period are averaged and an incomplete one is ignored; with disturbances the estimate is the least-squares solution. The bit-order, polarity and Gray options match a signal generated with those options.",
  ["inputs", "configurations"], "all channels within the window, all rotations, types, constellations and options",
  "tests use one stored channel with a loose threshold",
  ["CommDspy/channel_estimation.py", "CommDspy/misc/least_squares.py", "CommDspy/rx/lock_pattern.py"],
  [("alignment and least squares", "channel_estimation.py:channel_estimation_prbs")], ["channel_estimation_prbs"])

p("C24", "Equalizer estimation minimizes squared error and inverts invertible channels",
  "The estimated forward and feedback taps, used as an equalizer on the same signal, reproduce the reference with the least squared error of all taps of that size (plus the weighted squared taps when ridge regularization is requested; a zero weight is no regularization and an unknown one is refused); when some taps of that size reproduce the reference exactly the reported residual is zero and the output equals the reference. The reported residual and mean squared error are the actual ones. Normalization divides all taps by the main (largest) forward tap and reports it as the gain, with or without feedback taps.",
  ["inputs", "configurations"], "all reference sequences, channels, tap counts and normalization, PRBS-driven or with an explicit reference",
  "the existing test is one channel with a threshold and is unstable",
  ["CommDspy/equalization_estimation.py", "CommDspy/misc/least_squares.py"],
  [("regression matrix and tap extraction", "equalization_estimation.py:equalization_estimation")], ["equalization_estimation", "equalization_estimation_prbs"])

p("C25", "The noise channel adds zero-mean independent noise at the requested SNR",
  "The noise added is white and Gaussian with zero mean, does not depend on the signal's sign or order, and has a power equal to the signal's mean power divided by the linear value of the SNR in dB, for any signal with or without a DC component and any SNR. Without an SNR the channel output is exactly the filtered signal, and the returned memory never depends on the noise.",
  ["inputs", "configurations"], "all signals, SNRs, channel coefficients",
  "tests measure the SNR of one zero-mean signal",
  ["CommDspy/channel/additive_noise_functions.py"], [("power estimate and scaling", "channel/additive_noise_functions.py:awgn, awgn_channel")], ["channel.awgn", "channel.awgn_channel"])

p("C26", "Library calls leave their arguments unchanged and keep no hidden state",
  "No coding, decoding, mapping, filtering, checking or estimation call modifies the arrays, dictionaries or seeds passed to it, and repeating any deterministic call with the same arguments, in any order with other calls, returns the same result; deterministic calls do not touch the process-wide random generator.",
  ["inputs", "histories"], "all public deterministic functions, all call histories",
  "tests never look at the arguments after a call or repeat calls in different orders",
  ["CommDspy/tx/coding.py", "CommDspy/rx/decoding.py", "CommDspy/rx/demapping.py", "CommDspy/misc/ml_decoding.py"],
  [("copies before in-place operations", "tx/bin2symbol.py, rx/demapping.py, misc/ml_decoding.py")], ["arguments after each call"])

p("C27", "A noise-free transmit-receive chain delivers every bit",
  "For every supported combination of PRBS source, binary code, symbol packing, Gray or differential symbol code, constellation, pulse and FIR channel equalized by its exact decision-feedback inverse, the bits recovered by the matching receive chain equal the transmitted bits and the checker reports zero errors, also with a disturbance smaller than half the level spacing, however the stream is cut into chunks between memory-carrying stages.",
  ["inputs", "histories", "configurations"], "all compositions of stages, all chunkings",
  "tests exercise stages one by one and never a whole chain over several chunks",
  ["CommDspy/tx", "CommDspy/rx", "CommDspy/channel"],
  [("stage composition", "tx, channel, rx packages")], ["bits before the first and after the last stage"])

p("C28", "The CTLE has the requested DC gain, zeros and poles and is stable",
  "For every non-empty list of zero frequencies and at least as many pole frequencies and every DC gain, with frequencies given with either sign, the discrete equalizer filter is the bilinear transform of the continuous transfer function with those zeros and poles in the left half plane: its gain at DC is the requested one and its impulse response decays. Filtering with it satisfies the difference equation of the returned coefficients.",
  ["inputs", "configurations"], "all zero/pole lists, gains, rates and oversampling ratios",
  "tests plot one response",
  ["CommDspy/rx/ctle_model.py"], [("polynomials and bilinear transform", "rx/ctle_model.py:get_ctle_filter")], ["rx.get_ctle_filter", "rx.ctle"])

p("C29", "The example link's transmitter and receiver objects are consistent across chunks",
  "In the example simulation the transmitter's chunks concatenate to one continuous PRBS stream, the encoder and decoder built from the same coding configuration are inverses of each other on every chunk, the channel and front-end objects carry their memory so that chunked operation equals one pass, over a distortion-free channel the link delivers the transmitted bits, and the bit checker accumulates exactly the number of checked and erroneous bits.",
  ["inputs", "histories", "configurations"], "all coding configurations, chunk sizes and numbers of chunks",
  "the example simulation has no tests",
  ["example_simulation/simulation_parts/transmitter.py", "example_simulation/simulation_parts/receiver.py", "example_simulation/simulation_parts/channel.py", "example_simulation/analyzer/analyzer_classes.py"],
  [("chunk state", "simulation_parts/*.py"), ("error accumulation", "analyzer/analyzer_classes.py:Checker")],
  ["Transmitter.generate", "Encoder", "Decoder", "Channel", "Checker"])

p("C30", "The power-spectrum analyzer reports power at the right frequency and scale",
  "For a sum of sampled tones, real or complex, that the resolution separates, the estimated spectrum peaks at each tone's frequency with the tone's power in the chosen unit and shows no power elsewhere, except for the lines of the window the caller chose, averaged over the complete windows overlapping as asked; the units differ only by their documented constant factors (load, resolution bandwidth, sampling rate, side-band convention, full scale, signal power), and the default resolution fits signals of any length from 20 samples on.",
  ["inputs", "configurations"], "all tones, rates, windows and modes", "tests draw one spectrum",
  ["CommDspy/psa.py"], [("normalization and Welch estimate", "psa.py:psa")], ["psa.psa"])

p("C31", "Least squares solutions minimize their stated objective",
  "For every full-column-rank system the ordinary solution minimizes the squared residual |Ax - b|^2; for every system and weight the ridge solution minimizes |Ax - b|^2 + lambda |x|^2 and the lasso solution minimizes |Ax - b|^2 / (2M) + lambda |x|_1 over M rows, without any hidden intercept, also when the data have a mean; the returned residual is the squared residual of the returned solution. The selecting function and the direct and closed-form functions agree, and an unknown regularization name is refused.",
  ["inputs", "configurations"], "all matrices and right-hand sides (any layout, more rows than columns, and fewer for ridge), weights, ways of calling",
  "no test calls the regularised solvers or checks optimality of a solution",
  ["CommDspy/misc/least_squares.py"], [("solvers", "misc/least_squares.py:ols, ridge_regression, lasso_regression, least_squares")],
  ["misc.least_squares functions"])

p("C32", "Random jitter displaces each symbol's sampling instants and nothing else",
  "With a requested random jitter, pulse shaping returns ratio-many samples per symbol taken from the unjittered waveform at displaced instants: one displacement per symbol shared by all its samples, Gaussian with zero mean and the requested standard deviation in symbol times, independent between symbols and calls. The returned memory never depends on the jitter, so a stream can continue with or without it, and zero jitter gives exactly the shaped signal.",
  ["inputs", "histories", "configurations"], "all symbol sequences, pulses, ratios and jitter levels, all continuations",
  "no test uses jitter; its effect is statistical",
  ["CommDspy/channel/pulse_shaping.py"], [("jitter and memory", "channel/pulse_shaping.py:pulse_shape")], ["channel.pulse_shape with rj_sigma"])

p("C33", "The example receiver adapts against its error and stops when settled",
  "In the example simulation, each chunk received while converging is sampled at the current phase and then moves the phase by the chunk's Mueller-Muller step (modulo the oversampling ratio, while the clock loop is open), each forward and feedback tap by minus the learning rate times its decision-directed LMS gradient at the slicer input times the new digital gain (while the tap loop is open), and the digital gain by a hundred times the learning rate times the power missing at the slicer; otherwise nothing moves. The clock loop closes at a zero step, the tap loop when the mean squared error changed by less than the threshold since the previous chunk, and convergence is done exactly when both are closed; it can be started again. The configuration objects stay as the caller gave them; an equalizer description whose vectors do not have the described sizes, or with feedback taps but without levels, is refused, as is an exchange of taps for ones of another size, which then leaves the taps alone. The simulation's memory holds one copy of every stage's output per recorded chunk, in order, until it is reset.",
  ["inputs", "histories", "configurations"], "all channels, tap counts with and without feedback, sampling phases, learning rates, chunk histories with one or more starts",
  "the example simulation has no tests",
  ["example_simulation/simulation_parts/receiver.py", "example_simulation/simulation_parts/full_link.py", "example_simulation/simulation_parts/simulation.py", "example_simulation/analyzer/analyzer_classes.py"],
  [("adaptation and stop conditions", "simulation_parts/receiver.py:Receiver.digital_stage"), ("record", "simulation_parts/simulation.py:gather_memory")],
  ["Receiver", "FullLink.start_convergence", "Simulation.gather_memory", "Simulation.perform_convergence", "Memory"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
print(len(P), "properties")
