HOOKS = {'guard': 'cfg fundsp_mc (RUSTFLAGS --cfg fundsp_mc)', 'enable': 'mcids/.cargo/config.toml sets rustflags --cfg fundsp_mc for the C16 check; all other checks build without it', 'source_commits': ['4be1643']}
MC = 'exhaustive enumeration of operation histories on the real code'
prop('C01', 'Block processing equals sample-by-sample processing',
 'For every audio unit in the library and every way of dividing a stream into single samples and blocks of any size from 0 to 64, the output stream equals the one produced sample by sample, within floating-point rounding. Only the requested number of input samples is read and exactly that many output samples are produced. This holds for every opcode of the 32-bit and 64-bit environments, for operator compositions, dynamic networks, sequencers, slots and adapters.',
 ['inputs', 'configurations', 'histories'], 'all schedules of tick/block steps up to a depth, all block sizes, for every opcode, several input signals and sample rates',
 'Tests compare a handful of units at one or two block patterns; the statement is over every partition of the stream and over every unit.',
 ['src/audiounit.rs', 'src/audionode.rs', 'src/combinator.rs', 'src/net.rs', 'src/sequencer.rs', 'src/delay.rs', 'src/wavetable.rs', 'src/oscillator.rs', 'src/filter.rs'],
 [('process implementations with SIMD loops and remainders', 'src/*.rs AudioNode::process'), ('block adapters', 'src/audiounit.rs BigBlockAdapter, BlockRateAdapter')],
 ['AudioUnit::tick', 'AudioUnit::process'],
 MC + ': all tick/block schedules', 'All step sequences over {tick, 0, 1, 7, 8, 13, 64} to depth 4 (5 thorough) times 3 signals and all constant block sizes 1..64 at 3 sample rates, for about 470 units. Trusts a fixed float tolerance.')
prop('C02', 'Reset restores the initial state; clones are independent replicas',
 'After any history of processing, resets and clonings, reset() makes a unit produce exactly the output a freshly constructed identical unit produces from its first sample. A clone continues with exactly the output the original would have produced, and processing or resetting the clone never affects the original, nor the original the clone. This holds for every opcode and composition.',
 ['histories', 'configurations'], 'all histories of process, reset, clone and fork operations up to a depth, for every opcode',
 'Tests exercise reset or clone at most once on a few units with one history.',
 ['src/audiounit.rs', 'src/audionode.rs', 'src/noise.rs', 'src/dynamics.rs', 'src/reverb.rs', 'src/adsr.rs', 'src/shape.rs', 'src/net.rs', 'src/sequencer.rs'],
 [('AudioNode::reset of every node', 'src/*.rs'), ('Clone implementations', 'src/*.rs')],
 ['AudioUnit::reset', 'Clone'],
 MC + ': all process/reset/clone/fork histories', 'All sequences over {tick, block 64, block 13, reset, clone, fork} to depth 4 (6 thorough), plus long histories; bit-exact comparison with a fresh unit.')
prop('C03', 'Graph operators and combinators denote the documented signal algebra',
 'The operators and combinators (bus, branch, pipe, stack, sum, difference, product, thru, negation, scalar arithmetic and their indexed multi-channel forms) compute exactly the documented wiring of their operands: stack concatenates channels, branch shares the input and concatenates outputs, bus shares the input and mixes outputs, pipe feeds left into right, arithmetic combines outputs channelwise and thru passes missing channels through. Input and output counts follow the documented arity rules, and this holds for every nesting of operators.',
 ['programs', 'inputs'], 'all operator expressions up to a nesting depth over a base of distinguishable units',
 'Tests instantiate a few dozen specific expressions; the claim is over every composition.',
 ['src/combinator.rs', 'src/audionode.rs', 'src/prelude.rs'],
 [('operator traits on An', 'src/combinator.rs'), ('Pipe, Stack, Branch, Bus, Thru, Binop, Unop, Multi* and Reduce nodes', 'src/audionode.rs')],
 ['AudioUnit::tick', 'AudioUnit::process', 'inputs()', 'outputs()'],
 'exhaustive enumeration of operator terms against a denotational reference', 'All generated static terms to depth 2 over linear units with distinct coefficients and delays, compared with an independent interpreter.')
prop('C04', 'Dynamic network edits realise exactly the edited graph',
 'After any sequence of node insertions, removals, replacements, link and unlink operations and operator compositions, a network computes exactly the signal flow graph those operations describe, where an unconnected input reads silence, and network operators equal the corresponding static operators. A cycle is reported as an error and clears when it is broken; node and edge queries always agree with the graph.',
 ['histories', 'programs'], 'all edit sequences up to a depth over a small set of node types',
 'Tests run random edit sequences with a consistency check only, or a few fixed graphs, never comparing audio against a model for all sequences.',
 ['src/net.rs', 'src/vertex.rs'],
 [('edit operations and topological ordering', 'src/net.rs'), ('Net operators', 'src/net.rs')],
 ['Net edit API', 'tick/process output', 'Net::error', 'Net::check'],
 'explicit-state exploration of edit sequences against a reference graph model', 'All edit sequences over 20+ operations to depth 3 (4 thorough) from 7 seed graphs, and all network operator terms to depth 2, compared with an independent graph model and with static operators.')
prop('C05', 'Network backend follows committed frontend edits atomically',
 'For every interleaving of frontend edits, commits, settings and backend processing, the backend output at any sample is that of one committed version of the graph: edits are invisible until commit, a commit takes effect as a whole at the next processing call, nodes that remain keep their internal state across commits, and crossfaded replacement moves from the old unit to the new one over the given duration. The latest of several commits made between two processing calls wins, with no edit lost.',
 ['schedules', 'histories'], 'all interleavings of frontend operations and backend processing steps up to a depth',
 'Tests commit once or twice at fixed points.',
 ['src/net.rs', 'src/realnet.rs', 'src/vertex.rs'],
 [('message queue and migration', 'src/realnet.rs'), ('vertex crossfade', 'src/vertex.rs')],
 ['NetBackend::tick', 'NetBackend::process', 'Net::commit'],
 'exhaustive interleaving exploration against a versioned graph model', 'All interleavings over 6 scenario alphabets of 8 to 10 operations to depth 6 (7 thorough), compared sample by sample with a versioned graph model. Interleaving is at the granularity of API calls; the message channel itself is trusted.')
prop('C06', 'Sequencer plays every event exactly in its scheduled window',
 'For every history of pushes, relative pushes, edits, resets and processing, the sequencer output at each sample equals the sum of the events whose (edited) window covers that sample, each event starting from its first sample at its start time rounded to a sample and shaped by its fade-in and fade-out curves. Replay mode plays all events again after reset, and non-replay mode plays none of them.',
 ['histories'], 'all operation sequences up to a depth over absolute and relative events, edits, resets and blocks',
 'Tests push a few events and compare loosely.',
 ['src/sequencer.rs'],
 [('event queues', 'src/sequencer.rs'), ('fades', 'src/sequencer.rs fade_in, fade_out')],
 ['Sequencer::tick', 'Sequencer::process'],
 'exhaustive operation sequences against a reference scheduler', 'All operation sequences over 3 alphabets of 9 to 12 operations to depth 6 (7 thorough) in both replay modes, and all start positions, durations, fades and block sizes of one event, compared with a reference scheduler.')
prop('C07', 'Sequencer backend equals direct use of the sequencer',
 'Controlling a sequencer through a frontend while its backend processes audio gives the same output as performing the same operations directly on a sequencer at the points where the backend picks them up, for every interleaving of frontend operations and backend processing. No message is lost, duplicated or reordered within the capacity of the queue.',
 ['schedules', 'histories'], 'all interleavings of frontend operations and backend steps up to a depth',
 'Tests use the backend in one fixed order.',
 ['src/realseq.rs', 'src/sequencer.rs'],
 [('message queue', 'src/realseq.rs')],
 ['SequencerBackend::tick', 'SequencerBackend::process'],
 'exhaustive interleaving exploration, differential against direct use', 'All interleavings of frontend and backend calls over 2 alphabets to depth 6 (7 thorough), 4 initial configurations, compared with the reference scheduler behind a message queue.')
prop('C08', 'Slot replaces its unit with the requested crossfade',
 'For every interleaving of replacement requests and processing, a slot outputs its current unit until a replacement arrives, then a crossfade of the requested length and shape from the current unit to the new one, then only the new unit. If several replacements arrive during a crossfade, the latest one wins and follows after the crossfade in progress completes.',
 ['schedules', 'histories'], 'all interleavings of set requests and processing steps up to a depth, all fade shapes and lengths in a set',
 'No test covers slots beyond construction.',
 ['src/slot.rs'],
 [('slot backend crossfade', 'src/slot.rs')],
 ['Slot::set', 'SlotBackend::tick', 'SlotBackend::process'],
 'exhaustive interleaving exploration against a reference crossfader', 'All interleavings over 10 operations to depth 6 (7 thorough) for generators and processors, compared with a reference crossfader; all fade lengths 1..140 at two sample rates and 6 step sizes.')
prop('C09', 'Real-time processing neither allocates nor frees memory',
 'Once a unit has been allocated, processing by tick or block allocates and frees no heap memory, for every opcode. Network, sequencer and slot backends keep this while receiving any sequence of frontend messages: units that are no longer needed are handed back to the frontend for deallocation.',
 ['histories', 'schedules', 'configurations'], 'all opcodes, all step sequences and frontend/backend interleavings up to a depth, under a counting allocator',
 'Tests do not observe the allocator.',
 ['src/net.rs', 'src/realnet.rs', 'src/realseq.rs', 'src/slot.rs', 'src/audiounit.rs', 'src/dynamics.rs', 'src/vertex.rs'],
 [('allocate methods', 'src/*.rs'), ('return channels', 'src/realnet.rs, src/realseq.rs, src/slot.rs')],
 ['global allocator during backend calls'],
 MC + ' under a counting allocator', 'All step sequences to depth 4 (5 thorough) at 3 sample rates for every opcode and all frontend/backend interleavings to depth 5 (6 thorough), under an allocator that counts heap operations in processing calls.')
prop('C10', 'Settings reach exactly the addressed node, in order',
 'A setting with any address path through nested combinators and networks changes exactly the addressed node as if that node had been constructed with the value, and leaves all others unchanged. Settings sent through a setting listener are applied in the order sent before the next processed sample, and none is lost within the queue capacity.',
 ['programs', 'schedules', 'histories'], 'all address paths in all composition shapes up to a depth, all interleavings of sends and processing',
 'Tests try two or three addresses.',
 ['src/setting.rs', 'src/audionode.rs', 'src/net.rs'],
 [('Setting address path', 'src/setting.rs'), ('set forwarding in combinators', 'src/audionode.rs')],
 ['AudioUnit::set', 'SettingSender::try_send'],
 'exhaustive enumeration of address paths and send/process interleavings', 'All address paths, their prefixes, extensions and one-step deviations in every composition shape of depth 2 (3 thorough) over 22 unary and 19 binary structures; a table of every settable opcode with all sequences of settings compared with a unit constructed with the values; all interleavings of sends and processing through setting listeners.')
prop('C11', 'Frequency response and latency match what is measured',
 'For every linear unit and composition of units, at every sample rate, the reported frequency response equals the transform of the impulse response that processing produces. No output reacts to an input earlier than the reported latency, the reported latency of limiters, resynthesizers and oversamplers in any composition with plain units is exact, and render_latency and filter_latency discard exactly the latency.',
 ['configurations', 'programs'], 'all linear opcodes over a grid of parameters, rates and frequencies, and all compositions of depth 2 over a set of leaves and structures',
 'Tests check a list of filters at fixed parameters, hardly any compositions, and no latency of compositions.',
 ['src/signal.rs', 'src/audiounit.rs', 'src/audionode.rs', 'src/combinator.rs', 'src/filter.rs', 'src/svf.rs', 'src/biquad.rs', 'src/delay.rs', 'src/fir.rs', 'src/net.rs', 'src/oversample.rs', 'src/wave.rs'],
 [('route methods', 'src/*.rs route'), ('latency compensated rendering', 'src/wave.rs render_latency, filter_latency')],
 ['AudioUnit::response', 'AudioUnit::latency', 'Wave::render_latency', 'Wave::filter_latency'],
 MC + ': units and compositions with measured impulse responses', 'Every linear opcode at 3^n (5^n thorough) control values, 3 rates and 16 frequencies; about 350000 compositions of depth 2 over 8 leaves, 17 unary and 25 binary structures for response and latency; every generator followed by latency chains at each rate.')
prop('C12', 'Delays, taps and feedback loops compute the exact recurrence',
 'A fixed delay outputs its input exactly the rounded number of samples later; taps interpolate the input history at the requested delay, clamped to the range given; a finite impulse response filter convolves its input with its weights, the last weight applying to the newest sample; nested allpasses satisfy their recurrence. Feedback structures (plain, with feedback processing, and delay networks with Hadamard mixing, and feedback units with a delay rounded to samples of at least one) satisfy their recurrence for every loop content, delay length and input. This holds at every sample rate and for every division into single samples and blocks.',
 ['inputs', 'configurations', 'histories'], 'all delay lengths in a range, loop structures, sample rates and step schedules',
 'Tests sample a few lengths.',
 ['src/delay.rs', 'src/feedback.rs'],
 [('delay buffers', 'src/delay.rs'), ('feedback nodes', 'src/feedback.rs')],
 ['tick/process output'],
 'exhaustive enumeration of delay configurations against reference recurrences', 'Delays of 0..700 samples in half-sample steps at several rates, all tap ranges and control values up to 130 samples, FIR lengths 1..9, every feedback structure with sets of loop bodies of 1..4 channels; step schedules over ticks and block sizes. Trusts float tolerance.')
prop('C13', 'Wave editing operations behave like sample vectors',
 'For every sequence of wave operations (push and insert channels, remove, retain, append, mix, normalize, fade, resize, set, silence) the wave equals the same operations on plain per-channel sample vectors, and all channels always have equal length. Rendering and filtering through a unit produce exactly the unit output of the requested duration at the sample rate of the wave, and playing back a channel gives the chosen span of samples once or looped.',
 ['histories'], 'all operation sequences up to a depth on small waves',
 'Tests exercise few operations on one wave.',
 ['src/wave.rs'],
 [('Wave operations', 'src/wave.rs')],
 ['Wave API'],
 'explicit-state exploration of operation sequences against a vector model', 'All operation sequences to depth 4 (5 thorough) on waves up to a few channels and samples; every catalog unit rendered or filtered at several lengths and rates; playback of all spans and loop points of small waves under all step sequences.')
prop('C14', 'Saved waves load back identically and write failures are reported',
 'Writing a wave as 16-bit or 32-bit float WAV and loading it back gives the same channels, length, sample rate and samples (exactly for float, within quantization for 16-bit). If writing fails at any byte, the operation reports an error instead of silently producing a truncated file.',
 ['inputs', 'fault_sequences'], 'all small shapes and extreme sample values; a fault at every byte offset of the output',
 'Tests do one round trip and no fault injection.',
 ['src/write.rs', 'src/read.rs'],
 [('WAV writer', 'src/write.rs'), ('decoder', 'src/read.rs')],
 ['write_wav16', 'write_wav32', 'save_wav16', 'save_wav32', 'Wave::load_slice'],
 'exhaustive enumeration of shapes and fault points', 'Waves of 1..26 channels and small lengths at all standard rates with extreme sample values; failure (error, short write, interruption, zero write) injected at every byte of output; loading truncated at every byte.')
prop('C15', 'Shared queues and variables deliver data in order without loss',
 'For every interleaving of writing and reading, a ring buffer delivers samples in order and drops only when full, a snoop presents the most recent samples in order, and a shared variable reads the latest value written from any clone, also through var and var_fn nodes. A timer reports the stream time processed so far and an atomic table interpolates between the values last written to it.',
 ['schedules', 'histories'], 'all interleavings of writer and reader operations up to a depth',
 'Tests use one interleaving.',
 ['src/ring.rs', 'src/snoop.rs', 'src/shared.rs', 'src/dynamics.rs', 'src/wavetable.rs'],
 [('ring', 'src/ring.rs'), ('snoop', 'src/snoop.rs'), ('Shared', 'src/shared.rs')],
 ['reader and writer API'],
 'explicit-state exploration of interleavings against queue models', 'All interleavings of reader and writer operations to a fixed depth for several capacities, with block and tick steps; operations are atomic steps (single producer and single consumer queues from the thingbuf crate are trusted).')
prop('C16', 'Identifiers are unique under concurrency',
 'Node and event identifiers handed out by any number of threads are never equal, for every interleaving of the steps of the generator and every outcome allowed by its memory orderings, including when the low word of its counter is rewound.',
 ['schedules'], 'all interleavings and release-acquire memory outcomes of the atomic operations of 2 and 3 threads, from counter values around the rewinding point',
 'Tests run single threaded and never wrap.',
 ['src/shared.rs', 'src/net.rs', 'src/sequencer.rs'],
 [('IdGenerator', 'src/shared.rs')],
 ['NodeId::new', 'EventId::new'],
 'explicit-state exploration of all interleavings and memory model outcomes of the real code, atomic operations intercepted', 'Two threads making 1..3 (4 thorough) identifiers each and three threads making 1..2, from 12 counter values around the rewinding point; modification orders and release-acquire views are modelled, store buffering beyond it (SeqCst fences) is not needed. Assumes that no thread stalls while 2^32 identifiers are made.')
prop('C18', 'Pseudorandom phase is deterministic and differs between copies',
 'Generators that start from a pseudorandom phase or seed get one determined by their location in the graph: building the same graph twice gives identical output, copies of a generator at different locations in static graphs, networks and slots give different output, and reset returns to the same phase. An explicitly given phase or seed overrides it.',
 ['programs'], 'all composition shapes up to a depth and every pseudorandom generator in every way of placing copies side by side',
 'Tests check one or two graphs for decorrelation.',
 ['src/audionode.rs', 'src/combinator.rs', 'src/net.rs', 'src/slot.rs', 'src/noise.rs', 'src/oscillator.rs', 'src/wavetable.rs', 'src/envelope.rs', 'src/math.rs'],
 [('ping', 'src/audionode.rs AudioNode::ping'), ('set_hash', 'src/*.rs set_hash'), ('AttoHash', 'src/math.rs')],
 ['tick/process output', 'AudioUnit::ping'],
 'exhaustive enumeration of composition shapes and generator placements', 'All shapes of depth 2 over 22 unary and 19 binary structures with probe units recording the hash they receive; every generator opcode of both environments in 15 placements.')
prop('C20', 'Sample rate, reset and allocation reach every contained unit',
 'For every composition of combinators, adapters, feedback structures, networks, sequencers and slots, and every history of sample rate changes, resets, allocations and processing, every contained unit runs at the sample rate of the whole (times the oversampling factor of structures around it), is in its initial state after the whole is reset, and has been allocated after the whole is allocated.',
 ['programs', 'histories'], 'all composition shapes up to a depth times all histories of sample rate, reset, allocate and processing operations up to a length',
 'Tests never observe contained units and use few shapes.',
 ['src/audionode.rs', 'src/combinator.rs', 'src/feedback.rs', 'src/net.rs', 'src/vertex.rs', 'src/sequencer.rs', 'src/slot.rs', 'src/audiounit.rs', 'src/oversample.rs', 'src/resample.rs'],
 [('forwarding of set_sample_rate, reset and allocate', 'src/*.rs')],
 ['AudioUnit::set_sample_rate', 'AudioUnit::reset', 'AudioUnit::allocate', 'probe units'],
 'exhaustive enumeration of composition shapes and operation histories with probe units', 'All shapes of depth 2 (3 thorough) over 22 unary and 19 binary structures; all histories over 6 operations of length 5 (6 thorough) for single structures, 3 for depth 2.')
prop('C26', 'Hz and seconds mean the same at every sample rate',
 'Multiplying the sample rate and every frequency (given or input) by a factor, and dividing every time by it, leaves the produced samples unchanged, for every oscillator, filter, envelope, delay, follower, limiter, feedback structure, network and sequencer that takes frequencies or times and is not band limited to a fixed range. After any history, setting a sample rate and resetting makes a unit equal to a fresh unit set to that rate; filters, delays, followers and strings that change rate while playing take on the behaviour of the new rate without a reset. Reverbs spread their energy over the same times at every rate.',
 ['configurations', 'histories'], 'every parameterized opcode times scale factors, base rates, signals and points of change; all histories of rate changes, processing, reset, allocation and cloning up to a length for every opcode',
 'Tests run almost entirely at the default sample rate.',
 ['src/filter.rs', 'src/svf.rs', 'src/biquad.rs', 'src/moog.rs', 'src/rez.rs', 'src/delay.rs', 'src/oscillator.rs', 'src/follow.rs', 'src/dynamics.rs', 'src/envelope.rs', 'src/reverb.rs', 'src/feedback.rs'],
 [('set_sample_rate implementations', 'src/*.rs AudioNode::set_sample_rate')],
 ['AudioUnit::set_sample_rate', 'tick/process output'],
 MC + ': rate change histories and scaled configurations', '210 parameterized units times 3 scales (5 thorough), 2 base rates (4 thorough), 3 signals and 3 points of change; about 470 units times 4 rates times all histories of 8 operations to length 3 (4 thorough); 180 units times 4 rates times all histories of rate changes while playing to length 2 (3 thorough).')
prop('C17', 'Oscillators produce their waveform at the requested frequency',
 'For every sequence of frequency inputs and every division into blocks, sine, ramp and the antialiased saw, square, pulse and summation oscillators follow the exact accumulated phase of their input frequency, and a plucked string follows its delay recurrence at its pitch. Wavetable oscillators output the documented partials of their waveform with no partial above the Nyquist frequency and no aliasing, at every frequency from 20 Hz up at audio sample rates, and a wavetable made from a single-cycle wave reproduces the shape of the wave.',
 ['inputs', 'configurations', 'histories'], 'all sequences of frequency and step operations up to a depth; every table frequency that has an exact period',
 'Tests check a few spectra or only that output stays in range.',
 ['src/oscillator.rs', 'src/wavetable.rs', 'src/hacker.rs', 'src/hacker32.rs'],
 [('phase accumulation', 'src/oscillator.rs'), ('table construction and lookup', 'src/wavetable.rs')],
 ['tick/process output', 'Wavetable API'],
 MC + ': frequency and step sequences, spectra at every bin frequency', 'All sequences of frequencies and step kinds to a fixed depth for each oscillator in both precisions; wavetable spectra at every frequency k sr/2048 (also negative); partial amplitudes and phases of the documented series. Trusts an in-harness FFT and float tolerance.')
prop('C19', 'Noise generators have their documented distribution and period',
 'Every maximum length sequence of order 1 to 31 visits each nonzero state exactly once per period from every seed, white noise is uniform over its range without correlation between samples, and pink and brown noise fall by 3 and 6 decibels per octave. A sample-and-hold takes new samples of its input at intervals that keep the requested frequency on average and the requested variability.',
 ['inputs', 'configurations'], 'the full period of every maximum length sequence and of white noise; all frequencies and variabilities of sample-and-hold in a grid',
 'Tests look at a few values of noise output.',
 ['src/noise.rs', 'src/hacker.rs', 'src/math.rs'],
 [('Mls, Noise, Hold', 'src/noise.rs'), ('pink and brown', 'src/hacker.rs')],
 ['tick/process output', 'MlsState API'],
 'explicit-state exploration of the full state cycle of generators', 'Complete state cycles of MLS orders 1..31 and of the 2^32 states of white noise; power spectra averaged over fixed long runs for pink and brown noise; hold intervals over a grid of frequencies and variabilities.')
prop('C21', 'Limiters, followers and meters obey their documented dynamics',
 'For every input the limiter output is the input delayed by its lookahead, scaled by one gain common to all channels, and never exceeds plus or minus 1.0 when attack and release last at least 20 samples; the gain recovers after the loud passage. Followers move monotonically towards a constant input without overshoot and reach halfway in the given attack, release or response time, and meters and monitors report the documented recurrences of peak, RMS and sample value.',
 ['inputs', 'configurations', 'histories'], 'all patterns of loud and quiet samples up to a length, all attack and release times in a grid, all step histories for meters',
 'Tests feed one signal to the limiter and followers.',
 ['src/dynamics.rs', 'src/follow.rs'],
 [('Limiter and ReduceBuffer', 'src/dynamics.rs'), ('Follow and AFollow', 'src/follow.rs'), ('Meter and Monitor', 'src/dynamics.rs')],
 ['tick/process output', 'Shared values'],
 'exhaustive enumeration of input patterns and configurations against reference recurrences', 'All loud/quiet patterns over the lookahead window for 1..3 channels with several attack and release times; every ReduceBuffer length and update sequence to a depth; follower halfway times within 1.5 % and 0.6 samples.')
prop('C22', 'Spectral resynthesis, resampling and oversampling are faithful',
 'A resynthesizer calls its function once for each window with the windowed input spectra and correct times and frequencies, outputs the overlap-add of the returned spectra after a latency of one window, and reconstructs forwarded inputs exactly. A resampler outputs the cubic interpolation of its generator at the accumulated speed for every sequence of speeds. An oversampled node runs twice per sample on the input with its images filtered out, and its output is filtered alike before decimation; Fourier transforms equal the discrete Fourier transform at every supported length.',
 ['inputs', 'configurations', 'histories'], 'all window lengths and spectral effects; all speed sequences up to a depth; impulses at every position of the oversampling buffers',
 'Tests check one resynthesis window length and that oversampling runs.',
 ['src/resynth.rs', 'src/fft.rs', 'src/resample.rs', 'src/oversample.rs'],
 [('Resynth and FftWindow', 'src/resynth.rs'), ('Resampler', 'src/resample.rs'), ('Oversampler', 'src/oversample.rs')],
 ['tick/process output', 'FftWindow API', 'fft functions'],
 'exhaustive enumeration of configurations and control sequences against reference models', 'Window lengths 4..32768, 8 spectral effects, 4 channel layouts, 2 rates and 3 step patterns; all sequences of 3 (4 thorough) of 30 speed segments; all impulse positions in oversampling buffers, passband flat within 0.2 dB to 0.2 and images at 0.25 suppressed by 70 dB.')
prop('C23', 'Audio buffers and views hold exactly the samples written to them',
 'Every way of writing to an owned audio buffer or a mutable view of it (by sample, by vector, through channel slices or subsets of channels) changes exactly the addressed samples, and every way of reading sees the same samples. Buffers start silent, clearing silences them, resizing keeps the remaining channels and adds silent ones, and copies are independent.',
 ['histories', 'inputs'], 'all write operations at all positions for every buffer kind and channel count; all write sequences up to a depth',
 'Tests never address buffers systematically.',
 ['src/buffer.rs'],
 [('BufferVec, BufferArray, BufferRef, BufferMut', 'src/buffer.rs')],
 ['buffer API'],
 'explicit-state exploration of write sequences against a sample matrix', '13 write operations at all 64 positions of 0..7 channels read back in 16 ways; all sequences of 3 (4 thorough) writes out of 52.')
prop('C24', 'Envelopes follow their control functions and gates',
 'An envelope evaluates its function at time zero and then at increasing times 0.75 to 1.25 intervals apart, with the inputs present at the start of each segment, and outputs the straight line between values, for every division of the stream into blocks and any change of interval or reset. The live ADSR envelope is silent until its input is positive, then rises to one in the attack time and falls to the sustain level in the decay time, and falls to silence in the release time when its input is no longer positive.',
 ['histories', 'inputs', 'configurations'], 'all histories of steps, interval changes and resets up to a depth for every envelope form; all gate sequences and stage times in a grid',
 'Tests use envelopes only as signal sources.',
 ['src/envelope.rs', 'src/adsr.rs'],
 [('Envelope and EnvelopeIn', 'src/envelope.rs'), ('adsr_live', 'src/adsr.rs')],
 ['tick/process output', 'calls of the control function'],
 MC + ': envelope histories and gate sequences', '16 envelope forms at 3 rates, all sequences of 4 (5 thorough) of 8 operations, intervals of at least 4 samples; 81 ADSR settings including zero times with all sequences of 3 (4 thorough) of 12 gate segments. Gate changes may take effect within 5 ms.')
prop('C25', 'Math functions, waveshapers and panners equal their definitions',
 'Easing, interpolation, spline, conversion, weighting and noise functions equal their documented definitions for every input in range: eases map 0 to 0 and 1 to 1, de-interpolation inverts interpolation, the monotonic spline never overshoots, and noise functions stay within -1...1 and are continuous. Waveshapers apply their documented function to every sample in tick and block processing, SIMD number types agree with scalars lane by lane, panners have equal power, and mixers apply their matrix.',
 ['inputs'], 'every 32-bit float in range for eases and waveshapers (every 16th and 256th in the quick check), all combinations of knots from a grid for splines',
 'Tests check a few values.',
 ['src/math.rs', 'src/lib.rs', 'src/shape.rs', 'src/pan.rs'],
 [('math functions', 'src/math.rs'), ('Num and Float for SIMD types', 'src/lib.rs'), ('waveshapers', 'src/shape.rs'), ('Panner and Mixer', 'src/pan.rs')],
 ['function values', 'tick/process output'],
 'exhaustive enumeration of bounded input spaces against independent definitions', 'All 2^30 floats in 0...1 for 11 eases (thorough), all 7^5 knot combinations, floats of magnitude up to 256 for 11 waveshapers and 4 hardness values, pan values in 30000 steps by 4 ways of setting. Trusts float tolerance.')
prop('C27', 'Filters have their documented responses for every parameter history',
 'Every filter (state variable, Butterworth, resonator, one-pole, allpass, DC blocking, pinking, Moog, resonant two-pole, morphing, plain biquad and biquad bank) has the frequency response of its prototype at the cutoff, Q and gain given, whether these come from construction, inputs or settings. For every sequence of parameter changes, resets, sample rate changes and blocks the output follows the recurrence of the filter with the current parameters and retained state, also for biquads with nonlinear state shaping or nonlinear feedback. With subsampled parameters, changes take effect at the start of the next period.',
 ['histories', 'inputs', 'configurations'], 'all sequences of parameter tuples, block sizes, resets and sample rates up to a depth for every filter opcode in both precisions',
 'Tests compare a few fixed responses with their own transform.',
 ['src/svf.rs', 'src/biquad.rs', 'src/biquad_bank.rs', 'src/filter.rs', 'src/moog.rs', 'src/rez.rs', 'src/fir.rs'],
 [('Svf, FixedSvf and Morph', 'src/svf.rs'), ('biquads', 'src/biquad.rs'), ('BiquadBank', 'src/biquad_bank.rs'), ('one-pole filters', 'src/filter.rs'), ('Moog', 'src/moog.rs'), ('Rez', 'src/rez.rs')],
 ['tick/process output'],
 MC + ': filter parameter histories against an independent reference model', '193 filter forms, all sequences of 3 (4 thorough) of 32 operations (9 parameter tuples by 3 step sizes, modulation at every sample, reset, 3 sample rates), reference in double precision with trapezoidal state variable and direct form recurrences; measured responses of 9 parameter tuples against analog prototypes at 48 frequencies. For nonlinear forms a slightly disturbed copy of the model measures sensitivity to rounding and comparison ends where it becomes chaotic; clipping in highpass feedback is excluded for that reason.')
prop('C28', 'Reverbs decay as configured; modulation effects and chaos stay in bounds',
 'Every stereo reverb is stable, linear and time invariant (apart from its delay modulation): the response to either input reaches both outputs and decays in proportion to the time given, at every sample rate, room size, diffusion and damping, and damping and loop filters shorten the decay of the frequencies they attenuate. Chorus outputs the input and four copies at one fifth of the amplitude, each delayed by its multiple of the separation plus at most the variation, and flanger and phaser output the input plus the delayed or allpassed signal with feedback of the amount given. Rossler and Lorenz oscillators follow their differential equations at the frequency given and stay bounded at all audio frequencies.',
 ['configurations', 'inputs'], 'grids of all parameters, sample rates and block schedules for every effect opcode',
 'Tests run the effects on noise for a moment.',
 ['src/prelude.rs', 'src/reverb.rs', 'src/oscillator.rs', 'src/feedback.rs', 'src/delay.rs'],
 [('reverb, chorus, flanger and phaser opcodes', 'src/prelude.rs'), ('Reverb', 'src/reverb.rs'), ('Rossler and Lorenz', 'src/oscillator.rs')],
 ['tick/process output'],
 'exhaustive enumeration of effect configurations against reference recurrences and measured decay', 'Impulse responses of 192 (quick) to 816 reverb configurations, chorus impulses for 8 (64) seeds by 12 parameter sets by 3 rates by 2 schedules, flanger and phaser recurrences in 144 configurations by 3 schedules, chaotic systems for 8 (19) frequencies by 4 (32) seeds by 3 rates by 3 modulation patterns. Measured decay is 2 to 3 times the documented time in all reverbs; the check bounds the ratio.')

prop('C29', 'Opcodes mean the same in every environment',
 'Every opcode of the 64-bit and 32-bit environments and of the generic prelude at both precisions produces the same output from the same parameters and inputs, within the rounding of the precisions, for every division into blocks. Forms with fixed parameters (such as `lowpass_hz` or `lowpass_q`) equal the general form fed the same parameters.',
 ['configurations', 'inputs', 'histories'], 'every opcode in four environments times parameter grids, signals and all step sequences up to a depth',
 'Tests use one environment for each opcode and do not compare the forms.',
 ['src/prelude.rs', 'src/hacker.rs', 'src/hacker32.rs'],
 [('opcode constructors', 'src/prelude.rs'), ('64-bit forms', 'src/hacker.rs'), ('32-bit forms', 'src/hacker32.rs')],
 ['tick/process output'],
 MC + ': opcodes in four environments run in lockstep', 'About 230 catalog units and 400 points of parameter grids in each of four environments; all step sequences to a depth.')
prop('C30', 'Granular synthesis and update functions keep their schedule',
 'A granular synthesizer asks its generator for each grain once and in time, each voice overlapping its grains by their envelopes and starting at its share of the first grain, with the time, beat and voice of the grain and texture values in -1...1 that recur with the cycle; its output is the sum of the grains with equal power fades. A dynamical system calls its update function at time zero and then at the start of the first step at least the update interval after the previous call, with the time and the time elapsed, and its output reflects the update at once.',
 ['histories', 'configurations', 'schedules'], 'all patterns of grain lengths times voices, block schedules and histories; all sequences of steps, resets, rate changes and clones up to a depth times update intervals',
 'Tests run one granular synthesizer and no dynamical system over time.',
 ['src/granular.rs', 'src/system.rs', 'src/sequencer.rs'],
 [('grain scheduling', 'src/granular.rs instantiate, instantiate_voices'), ('update scheduling', 'src/system.rs tick, process')],
 ['calls of the generator and update functions', 'tick/process output'],
 MC + ': grain patterns, block schedules and step histories against schedule models', '20 (84) grain patterns times 1..4 (6) voices times 8 histories times 30 block schedules; 576 (2880) helix configurations; all sequences of 8 operations to length 5 (6) times 7 update intervals.')

prop('C31', 'Elementary nodes, sample access and adapters do what they document',
 'Constants, impulses, passes, sinks, splits, joins, reversals, rotations, single sample delays, maps and constant arithmetic compute their documented function of each input frame for every channel count, division into blocks, reset and clone. Reading or filtering one mono or stereo sample at a time advances a unit by one sample and presents exactly its output (averaged to mono or duplicated to stereo), and blocks of any length through the adapters equal sample by sample processing. Operand accessors of combinators and indexed nodes address exactly the operand named, and responses in decibels equal the magnitude of the response.',
 ['configurations', 'histories', 'inputs'], 'every elementary opcode times channel counts times all histories of steps, resets and clones up to a depth; all access sequences; all sequences of block lengths through adapters for every opcode; all accessor sequences',
 'Tests and examples call these with one or two channels and a value or two.',
 ['src/audionode.rs', 'src/audiounit.rs', 'src/combinator.rs', 'src/pan.rs', 'src/prelude.rs'],
 [('elementary nodes', 'src/audionode.rs'), ('sample access', 'src/audiounit.rs and src/audionode.rs get_mono, get_stereo, filter_mono, filter_stereo'), ('BigBlockAdapter and BlockRateAdapter', 'src/audiounit.rs')],
 ['tick/process output', 'get and filter functions', 'process_big'],
 MC + ': histories of elementary nodes against frame functions', 'About 215 nodes of 0 to 24 channels times histories of 8 operations to length 5 (6 thorough); access sequences of 5 (7) operations on 9 units as boxed units and as nodes; 9^2 (9^3) block length sequences through adapters for about 500 units; 24 indexed and 6 binary structures.')
