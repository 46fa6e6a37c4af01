"""Per property: what is specified / what TLC enumerates / what is recorded beyond the bounds and judged / tolerance."""
D = {
"C01": ("`Prbs`: register as the last n bits newest first; `Step`, `Run`, request with cut and resume.",
        "all polynomials and seeds up to degree 4 (thorough 5), all request sequences up to 7 (9) bits, generator and iterator interleaved. Invariants: chunked = one shot, recurrence, seed = last bits, all seeds reach the same relation.",
        "all six named types, streams far over a period, empty and one-bit blocks, iterator handed over mid-stream, int types, degree up to 12 for own polynomials. Exact."),
"C02": ("`Prbs` with the standard tap sets; for the 31-bit register GF(2)[x] arithmetic modulo its polynomial.",
        "every state of the 7, 9, 11, 13 and 15 bit registers (43 648 states): no zero state, return after exactly 2^n-1 steps. x^(2^31) = x mod f and x != 1; 2^31-1 is prime, so the 31-bit order is maximal.",
        "full periods of the real generator from several seeds: the trace machine counts distinct windows; 31-bit streams of several thousand bits against the recurrence; `get_polynomial`. Exact. A PRBS31 stream of 150000 (1.1 million) bits."),
"C03": ("`Symbols`: `Pack`/`Unpack` with the four flags.", "all bit strings up to 6 (9) bits, 1..4 (5) bits per symbol, all 16 flag combinations; round trip both ways, range, injectivity.",
        "up to 8 (12) bits per symbol, 3000-bit streams, arrays of 1-3 dimensions, strided/Fortran layouts, short integer types, flags left out when default, non powers of two. Exact."),
"C04": ("`Symbols`: levels, map, demap, Gray table.", "all symbol sequences up to 4 (6), all constellations, polarity, custom levels; evenness, invertibility, Gray involution.",
        "random shapes up to four dimensions, full scale (fixed point 1e-4), custom levels of any order, wrong sizes, Gray tables up to 2^8 (2^11)."),
"C05": ("`Symbols`: relation `Nearest(levels, x, y)` (a tie allows both).", "every increasing level list of up to 4 levels in -4..4 (-6..6), every input in half units beyond the range.",
        "uneven, two-level and sixteen-level lists, lists as inputs, shapes, far saturation, exact ties; each element alone gives the same decision. Exact in sixteenths. Levels hundreds apart with inputs a millionth beside the thresholds."),
"C06": ("`Symbols`: grid of a format as an integer set; nearest grid value.", "all formats up to 4 (6) bits and -2..2 (-4..4) fractional bits, all types, inputs in quarter steps through and beyond the grid.",
        "formats up to 20 bits, random inputs, ties, defaults, unknown types, shapes. Exact."),
"C07": ("`LineCodes`: one state machine per code (state: running sum, last polarity, cycle index, level).", "all inputs up to 8 (12) bits, differential alphabets 2, 3, 4 up to 5 (7) symbols; machine = independent waveform characterisation, injective.",
        "up to 1500 symbols, dense and sparse, 1-4 dimensions, int types, layouts. Exact."),
"C08": ("`LineCodes`: the decoder is the inverse relation of the machine.", "same enumeration, the emitted waveform is replayed into every decoder.", "encoder output *and* the specification's own waveform of the recorded inputs are decoded, so a pair of matching wrong coder and decoder is seen too; signed, unsigned and short integers."),
"C09": ("`LineCodes`: illegal pairs / marks.", "every received Manchester sequence up to 4 (7) pairs, bipolar up to 7 (10) symbols: flags iff illegal, one error is local.", "long sequences with random errors; every binary-only function with one bad value (2, -1, 0.5, NaN...) in random places of random shapes."),
"C10": ("`BlockCode`: GF(2) product, Hamming distance, nearest set.", "all generators of the small dimensions and the (7,4) Hamming code, all messages, all error patterns bit by bit; corrects up to half the distance.", "random generators up to 5x10 (also rank deficient), several blocks, trailing bits, every single error for Hamming, reliability output. Codes of up to 520 bits."),
"C11": ("`ConvCode`: registers, feedback, output sums.", "all one-input two-output codes of 3 taps with every feedback and some two-input codes, all messages up to 4 (6) steps; machine = polynomial form, linear, shift invariant.", "up to 3 inputs, memory 7, feedback of other lengths, 1200-bit recursive messages; configurations that contradict themselves must be refused, the others accepted."),
"C12": ("`ConvCode`: minimal path distance over all states and inputs as dynamic program.", "a list of codes, every received block up to 6 (9) bits: DP = exhaustive search, clean = 0.", "random codes, several blocks, trailing bits, long blocks (26 steps) for Viterbi: the returned input's best path distance must equal the DP minimum (any nearest path is accepted), no comparison with a particular path. Blocks whose distances exceed a byte; the reported error probabilities and final state (event `rep`)."),
"C13": ("`Equalizer`: inputs history, decision history, decision instants.", "all inputs of an alphabet up to 4 (6) symbols, all cuts, several tap sets, ratios and phases; incremental machine = closed form, memories.", "dyadic taps and inputs, 1-4 samples per symbol and all phases, chunking at 1 sample per symbol, defaults (`None` taps/memories/levels), wrong memory sizes. Exact on a grid; decisions on a tie accept both."),
"C14": ("`Streams`: difference equation, direct and transposed state.", "all small integer filters and inputs up to 3 (5) samples, all cuts: direct = transposed = convolution sum.", "channel (FIR/IIR), pulse shaping, CTLE and the filter objects in random cuts including empty/one-sample chunks, started or reset from given memories, wrong memory lengths. Exact dyadic or 1e-6 relative for IIR."),
"C15": ("`Pulse`: delay-line machine for any pulse; closed forms in fixed-point trigonometry (`Trig`).", "all short symbol sequences, ratios up to 5 (8), spans up to 3 (4): no ISI, hold, insertion, Nyquist zeros, evenness.", "all pulses, ratios up to 32, roll-offs (including the singular points), exported pulse functions with their own time axis, defaults, wrong memory, unknown names. 2e-4 on closed forms, exact at symbol instants within 1e-9. Close to the removable singularities the closed forms are evaluated in a rewritten, cancellation-free form (checked against the quotient in `MC_Pulse`), with roll-offs chosen to put a sample beside the singular instant."),
"C16": ("`Lock`: cyclic correlation, the set of its maxima.", "every rotation and every admissible error set of PRBS-3/4 patterns, every short symbol pattern.", "PRBS up to 511, a quarter of the period minus one errors, shorter and longer signals, other alphabets, short/unsigned integers; only patterns with a single peak must rotate, all others must take *a* maximum. Long, mostly zero patterns (up to 9001) with the correlation evaluated sparsely."),
"C17": ("`Checker`: source, error channel, aligned / rotated / economy checker.", "PRBS7 with flips at any place, all phases, thresholds.", "types 7..15 (31 for economy), thresholds at, below and above the error count, own reference sequences, many periods, default thresholds."),
"C18": ("`Framing`: streaming framer, conversions, Hamming table, power.", "all lengths, overlaps (also negative), delays up to 9 (16) samples; all small words.", "long signals, words of 30 bits, any shape, complex and short integer signals. All integer types for the binary helpers, words up to 60 bits in two halves."),
"C19": ("`Interp`: Lagrange weights as exact fractions; sliding window.", "all small polynomials, orders up to 3 (4), factors up to 4.", "all methods and orders, random signals, time axes, coefficient vectors; kept samples to 1e-9, polynomials to 1e-5. Orders up to 30: the weights by a neighbour-to-neighbour recurrence, checked against the exact fractions in `MC_Interp` (`FarAgrees`)."),
"C20": ("`Eye`: counters per phase and bin.", "all short signals with values on and beside every bin edge.", "random signals, default and own full scale, other bin counts and ratios, logarithmic version; edge samples may fall in either neighbouring bin by at most one ulp (inputs avoid the ambiguous points except where numpy's convention is exact). Short patterns repeated up to 140000 times, so that counts exceed small integer types."),
"C21": ("`Cdr`: two running correlations.", "all chunks up to 4 (5) over small alphabets, all weights.", "long chunks, default tolerance and weights, differences just around the tolerance."),
"C22": ("`Lms`: per-tap sums; fixed-point exponential for the soft version.", "all short histories and tap windows.", "random orders of taps, negative delays, references given or not, requested gradients only, soft version with 1e-3 relative. Outputs many sigma from every level, where the loss is a closed form."),
"C23": ("`ChanEst`: received period = pattern * channel; normal equations of the window.", "every small channel in the window, rotations, options: locks, channel solves the normal equations.", "types 7, 9, 11, all bit/symbol options, repetitions and incomplete periods, disturbances (normal equations of the recorded signal), normalisation (and the amplitude of the un-normalised estimate), regularisation."),
"C24": ("`EqEst`: least squares in exact rationals; equalizer run.", "all small tap sets; reference built by running the equalizer; no perturbed taps are better.", "recorded estimates are judged by perturbation: no change of a tap in any direction lowers the recorded cost; residual, mse, gain and normalisation recomputed."),
"C25": ("`Noise`: channel with an adversarial noise source.", "all short signals, filters, noises: memory and clean part unaffected; power law.", "statistical clauses over fixed-seed runs (mean, variance, kurtosis, correlation in time and with the signal, at > 6 sigma), DC signals, several SNRs, chunks; determinism without SNR. SNRs from -85 to 120 dB; autocorrelation at all lags; the spread of the noise against signal and position."),
"C26": ("`Purity`: store of arguments, history of calls.", "all pairs of the calls in both orders, the caller overwriting results in between.", "long random histories; fingerprints of arguments (bytes, dtype, shape), results, global RNG state; read-only arguments are accepted. Every call is also compared with its result in its own fresh process. Sixteen draws of every parameter per function, caller's lists (unsorted) as well as arrays."),
"C27": ("`Link`: frames, queues between stages, chunked transport, all coding stages from the other modules.", "every schedule of framing and transport over chain configurations; nothing lost, order kept, delivered = sent.", "random chains over all stages, long streams, disturbance below half the spacing, checker at the end."),
"C28": ("`Ctle`: bilinear transform on rational roots.", "every small list of zeros/poles: unit DC gain, stability, order independence.", "random lists, both signs, gains, impulse responses; 1e-6 relative."),
"C33": ("`Adapt`: the example receiver's control (both loops, phase, stop conditions, restart) and the simulation's record; gradients and timing steps from `Lms` and `Cdr`.", "every history of a few chunks with a start and a restart, at learning rate zero, replayed chunk by chunk.", "whole links with random channels, taps, rates: phase, taps, gain, error and control after every chunk; the record; complete convergences; the caller's configuration."),
"C29": ("`ExSim`: example transmitter, coder, channel, front end, receiver, bit checker as stateful objects.", "coding configurations, chunk sequences, seeds.", "long runs of every object and of the whole link, objects rebuilt from carried memory, error counters."),
"C30": ("`Psa`: windows, bins, side bands, unit factors.", "every unit, resolution, side-band convention and tone position.", "tones off and on the grid, several tones, complex signals, default arguments, short signals; 2 % in power, one bin in frequency. Seven windows that are sums of cosines: the exact lines each shows around a tone. A tone whose amplitude changes every quarter window, at every overlap: the average over the windows."),
"C31": ("`LeastSq`: moments, exact rational minimiser, soft threshold.", "all systems of up to 2 (3) rows over small values and weights: beats every competitor on a grid.", "random systems up to 40x6, scaled units, data with mean, ridge/lasso optimality conditions (KKT) in fixed point."),
"C32": ("`Jitter`: fine-grid waveform, adversarial displacement per symbol.", "all displacements on the grid for all short symbol sequences; memory is clean.", "ramps make the displacement observable: one per symbol, mean/variance/kurtosis/independence at > 6 sigma, many short calls, continuing with and without jitter. Autocorrelation at all lags; a tone whose neighbouring samples satisfy a displacement-free identity, so that the waveform between the samples is visible. Standard deviations from 2e-6 to 0.6 symbol times."),
}
