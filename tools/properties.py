#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run it after editing; both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CH = json.load(open(V + "/tools/checks.json"))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    P.append(dict(p={"id": id, "title": title, "statement": statement,
                     "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a},
                  technique=technique, note=note))


S = "source/"
prop("C01", "A .hmpg file reads back as the experience it was written from",
     "Writing an experience to the binary distribution format and loading that file (from disk or from memory) gives the same experience: every metadata field, device, avatar, library effect (with nested timelines), channel, band and effect, in order, with presence or absence of optional fields preserved. Real-valued fields come back within their coded range and within half a quantisation step; strings longer than 255 bytes come back cut to 255. Writing does not modify the experience, writing the same experience twice gives the same bytes, and what the object that loads held before does not matter.",
     ["inputs"], "for every experience whose counts, ids and positions fit the field widths of the format, any combination of optional fields, band kinds, effect kinds and strings",
     "Round trips are structural: the tests write a handful of hand-made objects, while a field lost for one combination of optional fields, band kind or count survives them all.",
     [S+"IOHaptics/src/IOBinary.cpp", S+"IOHaptics/src/IOBinaryBands.cpp", S+"IOHaptics/src/IOBinaryPrimitives.cpp", S+"IOHaptics/include/IOBinaryFields.h"],
     [("IOBinary::writeFile / loadFile / loadMemory", S+"IOHaptics/src/IOBinary.cpp"), ("IOBinaryBands readBand*/writeBand*", S+"IOHaptics/src/IOBinaryBands.cpp")],
     "property-based testing: generated experiences, write/read round trip against a quantisation model",
     "Random search over generated experiences; field widths bound the domain.")
prop("C02", "Bit-level fields of the binary formats decode to what was encoded",
     "A sequence of fields of 1 to 32 bits written one after the other occupies exactly the sum of their widths, most significant bit first, and reads back value by value: unsigned and two's-complement integers exactly, strings byte for byte with their length prefix, three-component vectors and coded reals within half a quantisation step. Coded reals saturate at the ends of their range, hit the ends exactly, keep order, and a decoded amplitude or phase that is coded again decodes to itself. The stream reader and the bit-vector reader agree on the values and on how many bits they consume, from any starting bit offset.",
     ["inputs"], "for every sequence of field widths, values and bit offsets",
     "Offsets and widths interact: each of the 32 widths at each of 8 alignments with boundary values is beyond what example tests enumerate.",
     [S+"IOHaptics/src/IOBinaryPrimitives.cpp", S+"IOHaptics/include/IOBinaryPrimitives.h"],
     [("IOBinaryPrimitives readNBits/writeNBits/readFNBits/writeFNBits", S+"IOHaptics/include/IOBinaryPrimitives.h")],
     "property-based testing: generated field sequences against an independent bit packer",
     "Random search; independent bit packer as the reference.")
prop("C14", "Point evaluation of bands and channels follows the signal definition",
     "The value of a band at any moment is the value its effects define there: zero outside an effect, interpolated amplitude for curves, a unit sinusoid/square/triangle/sawtooth wave driven by the integral of the interpolated frequency times the interpolated amplitude for vectorial effects, the decaying fixed-length pulse for transients, the stored amplitude for sampled blocks. Where effects of a band overlap, the one that starts last counts. A channel's value is the sum of its bands, limited to [-1, 1], and frequencies are limited to the limits of the band, for every time scale.",
     ["inputs"], "for every band content, keyframes with or without amplitude or frequency, moment in time and time scale",
     "The value depends on the position of the moment among keyframes, missing fields and the time scale; tests evaluate a few fixed points at 1000 ticks/s.",
     [S+"Types/src/Effect.cpp", S+"Types/src/Band.cpp", S+"Types/src/Channel.cpp"],
     [("Effect::EvaluateVectorial/EvaluateTransient/EvaluateKeyframes", S+"Types/src/Effect.cpp"), ("Band::Evaluate", S+"Types/src/Band.cpp"), ("Channel::Evaluate", S+"Types/src/Channel.cpp")],
     "property-based testing: generated bands evaluated against direct definitions",
     "Random search; samples on a jump of the signal are not compared.")
prop("C15", "Rendering a channel gives the sampled sum of its bands",
     "Rendering a channel to N samples at a sample rate yields exactly N samples (after the requested padding), each being the sum of what the bands define at that moment, limited to [-1, 1] once all bands are mixed: curve effects interpolated by the band's curve type from their first to their last keyframe, vectorial, transient and block effects placed at their position, silence elsewhere. Moving every effect by a whole number of samples moves the rendered signal by that many samples.",
     ["inputs"], "for every channel content, curve type, sample count, sample rate, time scale and padding",
     "Sample boundaries, odd keyframe counts and time scales combine in ways a few rendered examples cannot cover.",
     [S+"Types/src/Band.cpp", S+"Types/src/Channel.cpp", S+"Types/src/Effect.cpp", S+"Tools/src/Tools.cpp"],
     [("Channel::EvaluateChannel", S+"Types/src/Channel.cpp"), ("Band::EvaluationBand", S+"Types/src/Band.cpp")],
     "property-based testing: rendered signals against a reference synthesiser, plus a metamorphic shift",
     "Random search; keyframes at least one sample apart.")
prop("C17", "Zero-tree coded wavelet blocks decode to the coded integers",
     "Coding an integer wavelet block (any power-of-two length of 8 or more, with its scale and number of bit planes) and decoding the bytes returns exactly the same integers, bit depth and the scale within its quantisation step, and coder objects can be reused for any number of blocks. Decoding any byte string at all terminates without touching memory outside the block and leaves the decoder able to decode the next valid block.",
     ["inputs", "histories"], "for every integer block within the bit depth, every sequence of blocks and every byte string",
     "The coder is a bit-plane state machine whose lists depend on the significance pattern of every coefficient; tests code a couple of fixed blocks.",
     [S+"Spiht/src/Spiht_Enc.cpp", S+"Spiht/src/Spiht_Dec.cpp"],
     [("Spiht_Enc::encodeEffect", S+"Spiht/src/Spiht_Enc.cpp"), ("Spiht_Dec::decodeEffect", S+"Spiht/src/Spiht_Dec.cpp")],
     "property-based testing: round trip of generated blocks; mutation fuzzing of the decoder under AddressSanitizer",
     "Random search; arbitrary bytes are decoded into blocks of 16 to 1024 values.")
prop("C18", "The arithmetic coder is lossless and compresses to the entropy",
     "Any sequence of binary symbols, each coded in one of seven contexts, decodes to the same symbols when the decoder asks for the same contexts, whether the code is handed over as bits or as packed bytes. Encoder and decoder can be reused for several messages, keeping or resetting their statistics as long as both do the same, and the size of a message stays close to its adaptive entropy.",
     ["inputs", "histories"], "for every symbol and context sequence, and every history of messages and resets",
     "Carry, underflow and rescaling paths are reached only by particular symbol statistics and lengths.",
     [S+"Spiht/src/ArithEnc.cpp", S+"Spiht/src/ArithDec.cpp"],
     [("ArithEnc::encode/flush", S+"Spiht/src/ArithEnc.cpp"), ("ArithDec::decode", S+"Spiht/src/ArithDec.cpp")],
     "property-based testing: round trip of generated symbol histories with an entropy bound",
     "Random search; messages up to 6000 symbols.")
prop("C19", "The wavelet transform reconstructs perfectly and matches its filter bank",
     "For every signal of power-of-two length (8 and up) and every legal number of levels, analysis followed by synthesis returns the signal, synthesis followed by analysis returns the coefficients, both within rounding error, and the transform is linear. The coefficients are those of the symmetric 9/7 biorthogonal filter bank with symmetric extension, coarsest band first.",
     ["inputs"], "for every signal, length and number of levels",
     "Boundary handling depends on length and level; an error at one end of one level is invisible to the fixed signals of the tests.",
     [S+"FilterBank/src/Wavelet.cpp"],
     [("Wavelet::DWT / inv_DWT", S+"FilterBank/src/Wavelet.cpp")],
     "property-based testing: perfect reconstruction, linearity and a reference filter bank",
     "Random search; lengths 8 to 1024.")
prop("C24", "Curve interpolation passes through its points and follows its definition",
     "Every curve interpolation (linear, cubic, natural cubic spline, Akima, Bezier, B-spline) yields one value per sample from the first to the last keyframe, follows its mathematical definition there, passes through the keyframes where its definition does, and is constant on constant input. Pointwise helpers (linear between two points, chirp frequency, range mapping, power-of-two and digit tests) return what their definition says for all arguments.",
     ["inputs"], "for every set of keyframes at increasing samples, all gaps and amplitudes",
     "Gap patterns between keyframes are unbounded and each formula has its own segment bookkeeping; tests use two or three layouts.",
     [S+"Tools/src/Tools.cpp", S+"Tools/include/Tools.h"],
     [("linearInterpolation, cubicInterpolation, akimaInterpolation, bezierInterpolation, bsplineInterpolation", S+"Tools/src/Tools.cpp")],
     "property-based testing: generated keyframes against direct definitions of each curve",
     "Random search; keyframes at strictly increasing samples, B-splines within a tenth of a parameter step.")

prop("C12", "Factoring repeated effects into the library keeps the meaning",
     "Factoring the repeated effects of an experience into the effect libraries leaves what every band plays unchanged once references are resolved: each replaced effect becomes a reference, at the same position, to a library effect equal to it in everything but position and id. Effects count as repeats only when all their content (keyframes, phase, base signal, semantic, nested timeline) agrees. Entries the library already had stay as they were, new entries get ids no other effect of the library has, every repeated basis effect of the non-wavelet bands of a perception is factored and nothing else is, bands of wavelet blocks are untouched, and doing it again changes nothing.",
     ["inputs"], "for every experience, with any pattern of repeated, nearly equal and already referenced effects",
     "Which effects are equal and which ids are free depends on the content; the tests factor one fixed example.",
     [S+"Types/src/Perception.cpp", S+"Types/src/Haptics.cpp", S+"Types/src/Effect.cpp"],
     [("Haptics::refactor / Perception::refactorEffects", S+"Types/src/Perception.cpp"), ("Effect::isEquivalent", S+"Types/src/Effect.cpp")],
     "property-based testing: generated repeats and near-repeats; the resolved meaning before and after is compared, plus invariants of the library",
     "Random search; up to a few dozen effects per experience.")
prop("C13", "Linearizing replaces every reference by the library effect it names",
     "Linearizing an experience replaces every reference to a library effect - in a band, in the timeline of a composite effect, or in another library effect - by that library effect placed at the position of the reference, keeps every other effect and the order, leaves references to unknown ids as they are, and empties the libraries. Libraries whose effects refer to each other in circles do not make it run forever, and linearizing twice is the same as once.",
     ["inputs"], "for every experience, any nesting of references, unknown ids and reference cycles",
     "Nesting depth, order of library entries and cycles are unbounded; the tests resolve single flat references.",
     [S+"Types/src/Perception.cpp", S+"Types/src/Haptics.cpp"],
     [("Haptics::linearize / Perception::linearizeLibrary", S+"Types/src/Perception.cpp")],
     "property-based testing: generated libraries and references against an independent resolver",
     "Random search; nesting up to a few levels.")
prop("C16", "The experience tree behaves as ordered lists under any edit history",
     "Under any sequence of edits, effects stay ordered by position with ties in insertion order, and keyframes, bands, channels, perceptions, avatars, devices and library effects behave as plain lists: access, replacement and removal act on exactly the addressed element and refuse indices out of bounds, replacing metadata replaces all the metadata and leaves the children alone. Adding an amplitude or frequency at a moment merges with the keyframe there and otherwise inserts in order. Durations of effects, bands and channels, the overlap test of a band and the search for a band free at a moment agree with the content.",
     ["histories", "inputs"], "for every sequence of edits and every index, position, tie and content",
     "Order and merge bugs depend on the history of edits; tests add a few elements in one order.",
     [S+"Types/src/Band.cpp", S+"Types/src/Effect.cpp", S+"Types/src/Channel.cpp", S+"Types/src/Perception.cpp", S+"Types/src/Haptics.cpp", S+"Types/src/Keyframe.cpp"],
     [("Band::addEffect / isOverlapping / getBandTimeLength", S+"Types/src/Band.cpp"), ("Effect::addAmplitudeAt / addFrequencyAt / getEffectTimeLength", S+"Types/src/Effect.cpp"), ("Channel::findBandAvailable / generateBand", S+"Types/src/Channel.cpp"), ("replace*At / remove*At", S+"Types/src/Haptics.cpp")],
     "model-based stateful testing: generated edit histories mirrored on a list model",
     "Random search; histories of up to a few dozen edits.",
     state=[{"name": "experience tree", "meaning": "avatars, perceptions, devices, library, channels, bands, effects, keyframes", "where": S+"Types/include/Haptics.h"}])
prop("C20", "Wavelet encoding keeps to its bit budget and synthesis inverts it",
     "Encoding a signal as wavelet blocks yields the blocks that cover it, in order and at multiples of the block length in ticks, within the announced band limits, and every sub-band of a block is quantised with at most 15 bits whose total is exactly the budget, at a scale that covers the largest coefficient. A silent signal or an empty budget gives silence, a full budget gives the signal back within the quantisation step. The bitstream of a block depends on its content and parameters only, not on what was encoded before or on the time scale. Decoding a band, transforming it in place, and evaluating or rendering it all give the synthesis of the coded coefficients at the right samples, and bands of other types are left alone.",
     ["inputs", "histories", "configurations"], "for every signal, block length, sample rate, time scale, bit budget and history of encoded blocks",
     "Bit allocation is driven by a psychohaptic model of the content; the tests encode a couple of signals at one configuration.",
     [S+"Encoder/src/WaveletEncoder.cpp", S+"WaveletDecoder/src/WaveletDecoder.cpp", S+"PsychohapticModel/src/PsychohapticModel.cpp", S+"Types/src/Band.cpp"],
     [("WaveletEncoder::encodeSignal / encodeBlock", S+"Encoder/src/WaveletEncoder.cpp"), ("WaveletDecoder::decodeBand / transformBand", S+"WaveletDecoder/src/WaveletDecoder.cpp"), ("PsychohapticModel::getSMR", S+"PsychohapticModel/src/PsychohapticModel.cpp")],
     "property-based testing: generated signals and configurations; the coded integers are read back and checked against an allocation search and a reference synthesis filter bank",
     "Random search; blocks of 16 to 1024 samples.")
prop("C28", "Bits go where the noise would be felt most",
     "The peaks found in a spectrum are exactly its local maxima (the middle of a run of equal values) that are high enough and prominent enough: one has to go down at least that far from them on both sides before one can go higher. The mask is the highest of the curves around the peaks, 5 dB less 5/1400 dB per hertz below the peak and falling with 30 times the square of the relative distance, with the threshold of perception added; the energies and the signal-to-mask ratios of the sub-bands of a block are the sums of its spectrum and of that mask over each sub-band, whatever was analysed before. The encoder gives each bit of the budget to the sub-band whose mask is the least above the noise its quantisation leaves, until it has 15.",
     ["inputs", "histories", "configurations"], "for every spectrum, block, block length, sample rate and bit budget, and every earlier use of the model",
     "Which sub-band gets the next bit depends on the whole spectrum and on every bit given before; a wrong share still decodes, only with audible noise. The one test looks for one peak in an otherwise flat spectrum.",
     [S+"PsychohapticModel/src/PsychohapticModel.cpp", S+"PsychohapticModel/include/PsychohapticModel.h", S+"Encoder/src/WaveletEncoder.cpp"],
     [("PsychohapticModel::findPeaks / peakMask / getSMR", S+"PsychohapticModel/src/PsychohapticModel.cpp"), ("WaveletEncoder::encodeBlock", S+"Encoder/src/WaveletEncoder.cpp")],
     "property-based testing: generated spectra, peaks, blocks and budgets; peaks by their definition, the model and the sharing of the bits by a reference in double precision with a direct Fourier transform",
     "Random search; blocks of 8 to 512 samples; decisions closer than 1e-7 dB are not judged.")
prop("C29", "What is wrong with an .hjif document is reported as the suite demands",
     "Checking an experience, loading a document and running the encoder on it report every broken rule of the profile and level with one line on the error stream for each element that breaks it, naming the element by its id and those of the perception and channel it is in, in the wording of the conformance suite (scripts/RM_submission/conformance_config.json); rules that hold are not reported, and a conformant document is not reported on at all. The report of a refused document ends with the line that says that it is not conformant. Each malformed element that is left out is reported with one line of its own and changes nothing else in the report, and no document is refused without a word.",
     ["inputs"], "for every experience, any number of broken rules in any of its elements, and every malformed element or document",
     "The conformance suite compares the whole error output, for some thirty documents with one fault each that are not part of the repository; ids, counts and combinations of faults are not tested at all.",
     [S+"IOHaptics/src/IOJson.cpp", S+"IOHaptics/include/IOJson.h", S+"Encoder/src/main.cpp", "scripts/RM_submission/conformance_config.json"],
     [("IOJson::semanticConformanceCheck*", S+"IOHaptics/src/IOJson.cpp"), ("IOJson::loadFile / load*", S+"IOHaptics/src/IOJson.cpp"), ("main", S+"Encoder/src/main.cpp")],
     "property-based testing: generated experiences with 0-3 changes at places the rules speak about, documents with one malformed element; report compared with the lines written out independently and with that of the document without the element",
     "Random search; the order of the lines is left open, but for the last.")
prop("C30", "The evaluation scripts measure what they say and run what they are told",
     "The PSNR of two recordings is 10 log10(4/mse) over the samples of all channels, the shorter recording padded with silence where that is asked for, 100 for equal ones, and recordings of other rates, channel counts or (unpadded) lengths are refused. The bit rate of a coding is its size in kilobits by the duration of the recording and, for a submission, its channel count. Padding adds the seconds asked for of silence at both ends and nothing else. The Bjontegaard figures are the mean differences of the two fitted curves over what they share. A submission run encodes, decodes, synthesizes and pads every effect of its configuration that passes the filter, at every bit rate, with the options given, into the folders and files named after it, and tables these measures; a conformance run compares the report of each document with the one expected and counts those that agree; the metrics and the data check reproduce their tables.",
     ["inputs", "configurations"], "for every pair of recordings, coded size, pair of rate and quality curves, table, and every configuration of a run",
     "Nothing tests the scripts; they need recordings, tools and a configuration, and a wrong figure looks like any other.",
     ["scripts/RM_submission/submission_process.py", "scripts/RM_submission/conformance_check.py", "scripts/test/psnr.py", "scripts/test/bitrate.py", "scripts/tools/csv_to_metrics.py", "scripts/tools/check_data.py"],
     [("psnr_two_files / compute_bitrate / addPadding / bjontegaard / main", "scripts/RM_submission/submission_process.py"), ("main", "scripts/RM_submission/conformance_check.py")],
     "property-based testing (Hypothesis): generated recordings, curves, tables and configurations; direct formulas, an independent fit, metamorphic shifts, and a model of the run with stand-ins that record the tools started",
     "Random search; soundfile, matplotlib and the tools are stand-ins; curves that overlap by at least 3 dB.")
prop("C25", "PCM recordings become a curve band plus a residual that rebuild them",
     "Saving samples as a WAV file and loading it gives the same samples, channel by channel, within 16-bit resolution and clipped to full scale. The extrema found in a signal are exactly its first and last sample and its local minima and maxima, and a curve band made of them has one keyframe per extremum at its moment with its amplitude. Encoding a recording gives one channel per audio channel, with its sampling rate, sample count and the bands announced (a curve band of the type the modality asks for below the cut-off, wavelet bands above), and with a full bit budget rendering the result gives back the recording. The split at the cut-off is a Butterworth filter of order eight run there and back: no delay, and the squared gain at every frequency.",
     ["inputs", "configurations"], "for every recording, number of channels, sample rate, cut-off, modality and bit budget",
     "The result depends on the whole signal through filters, extrema and residual; the tests only check that files load.",
     [S+"Encoder/src/PcmEncoder.cpp", S+"Tools/src/WavParser.cpp", S+"FilterBank/src/Filterbank.cpp"],
     [("PcmEncoder::encode / localExtrema / convertToCurveBand", S+"Encoder/src/PcmEncoder.cpp"), ("WavParser::loadFile / saveFile", S+"Tools/src/WavParser.cpp")],
     "property-based testing: generated recordings; direct definition of extrema, round trip of WAV files, rendering compared with the recording",
     "Random search; the WAV container, FFT and IIR libraries are stand-ins for the third-party headers that are absent from the sandbox.")

prop("C07", "An .hjif file reads back as the experience it was written from",
     "Writing a conformant experience to the JSON interchange format and loading the file gives the same experience, exactly: metadata, avatars, devices, library, channels, bands, effects, keyframes, coded wavelet blocks and syncs, in order, with optional fields present or absent as they were (an unset time scale comes back as the default 1000). Writing the loaded experience again gives the same file, writing does not modify the experience, and a version or date that is not valid is replaced by a valid one without touching anything else. The text coding of wavelet blocks is lossless up to trailing zero bytes, and the coded block decodes to the same coefficients.",
     ["inputs"], "for every conformant experience of either profile and level, any strings and any combination of optional fields",
     "Structural round trip: a field lost or mixed up for one combination of optional fields, band kind or effect kind survives the handful of fixed files of the tests.",
     [S+"IOHaptics/src/IOJson.cpp", S+"IOHaptics/src/IOJsonPrimitives.cpp"],
     [("IOJson::writeFile / extract*", S+"IOHaptics/src/IOJson.cpp"), ("IOJson::loadFile / load*", S+"IOHaptics/src/IOJson.cpp"), ("bytes2bits, bits2base64, base642bits, bits2bytes", S+"IOHaptics/src/IOJson.cpp")],
     "property-based testing: generated conformant experiences, write/load round trip and fixpoint; text coding against its definition",
     "Random search. Composite effects are outside the domain: the repository's JSON format has no field for their timeline.")
prop("C08", "HJIF loading accepts exactly the conformant experiences",
     "The conformance check of an experience, and loading an .hjif document, succeed exactly when every rule on version, profile, level, date, time scale, unique ids, existing references (avatar, device, library effect), modalities, channel and band counts, device frequencies, directions, actuator targets, band parameters and semantic keywords holds for its profile and level. Documents that are no JSON object, are cut short, or lack a required top-level member are refused. A malformed element (missing or mistyped required member, unknown keyword) is left out, a mistyped optional member counts as absent, and neither disturbs anything else.",
     ["inputs"], "for every experience and any combination of rule violations, and every malformed element or member of a document",
     "Rules interact with profile, level and each other; tests cover one violation at a time on one experience.",
     [S+"IOHaptics/src/IOJson.cpp", S+"IOHaptics/src/IOJsonPrimitives.cpp"],
     [("IOJson::semanticConformanceCheck*", S+"IOHaptics/src/IOJson.cpp"), ("IOJson::loadFile / load*", S+"IOHaptics/src/IOJson.cpp")],
     "property-based testing: verdict compared with independently written rules on perturbed conformant experiences; metamorphic comparison of malformed documents with the document without the element",
     "Random search; JSON schema files are not part of the repository, so schema validation accepts everything here.")

prop("C03", "A MIHS stream reads back as the experience it was written from",
     "Writing an experience as an MPEG-I haptic stream and reading that file (or its units one by one) back gives the same experience up to the quantisation of the format: metadata at every level, avatars, devices, library with nested timelines, and every band with each effect once, at its position, with its keyframes, semantic, phase and base signal, whatever the packet duration used to cut the timeline into units and however effects overlap or lie across packet borders. Effects that had an id keep it, references keep their target. The order of effects in a band is not kept, composite effects are read back as the effects they contain, and components that contain no effect are left out.",
     ["inputs", "configurations"], "for every experience within the field widths of the stream, all band kinds and modalities, and every packet duration",
     "Effects are cut at packet borders and merged again by id; only particular positions relative to the borders, overlaps, ids or band kinds break.",
     [S+"IOHaptics/src/IOStream.cpp", S+"IOHaptics/include/IOStream.h"], [("IOStream::writeFile/writeUnits", S+"IOHaptics/src/IOStream.cpp"), ("IOStream::readFile/readMIHSUnit", S+"IOHaptics/src/IOStream.cpp")],
     "property-based testing: generated experiences with effects placed around packet borders, write/read round trip against the quantisation model of the stream",
     "Random search; composite effects at position 0, wavelet bands without references.")

def planned(id, title, statement, over, text, why, files, mech, technique="", note=""):
    prop(id, title, statement, over, text, why, files, mech, technique, note)


prop("C04", "MIHS units and packets are framed exactly as announced",
     "Every unit of a written stream starts with its 9-byte header followed by exactly the announced number of bytes, a sequence of packets each of exactly its announced length. The stream starts with an initialization unit (timing, then metadata of the experience, library, perceptions, channels and bands, in that order and each once) that announces the packet duration used. The data units cover the timeline in order: each has one packet per band with something in its span, parametric bands at most one, and every keyframe, reference and wavelet block lies in the unit whose span contains its moment. Types, durations and sync flags of units describe their content, dependent units are flagged as such, and spans without content give silent units.",
     ["inputs", "configurations"], "for every experience within the field widths of the stream and every packet duration",
     "Lengths are bit counts rounded per packet and effects are cut at packet borders; only particular contents, durations and positions break the framing.",
     [S+"IOHaptics/src/IOStream.cpp"], [("IOStream::writeUnits / writeMIHSUnit* / writeMIHSPacket", S+"IOHaptics/src/IOStream.cpp"), ("IOStream::sortPacket / initializeStream", S+"IOHaptics/src/IOStream.cpp")],
     "property-based testing: written streams taken apart by an independently written parser and compared with the timeline of the experience",
     "Random search; timelines of up to 60 packets.")
prop("C05", "A receiver can join a MIHS stream at every initialization",
     "Every sync of an experience gives an initialization at the first unit border at or after it, and an experience without syncs has the one at the start. Repeated initializations and timing packets change nothing in what is read but the list of syncs, which reads back as the times of the initializations. Reading from a later initialization gives the same metadata and all content from that time on, at the right times. After units were lost, nothing is invented, nothing is moved in time, and everything from the next unit flagged for sync on is there.",
     ["inputs", "histories", "fault_sequences"], "for every experience, list of syncs, packet duration, point of joining and set of lost units",
     "What a receiver holds when it joins depends on the history of units it saw; tests read whole streams without syncs.",
     [S+"IOHaptics/src/IOStream.cpp", S+"IOHaptics/include/IOStream.h"], [("IOStream::writeUnits (syncs)", S+"IOHaptics/src/IOStream.cpp"), ("IOStream::readMIHSUnit / readMIHSPacket (waitSync)", S+"IOHaptics/src/IOStream.cpp")],
     "property-based testing: generated streams with syncs, read from generated points of joining and with generated losses, compared with the content from that moment on",
     "Random search; timelines of up to 60 packets.")
prop("C06", "Checksummed MIHS packets accept exactly undamaged content",
     "The checksum of one or several packets is the remainder of dividing their bits by the announced 16- or 32-bit polynomial; the packet that carries it holds the value and the number of packets it covers and reads back as written. Any burst of errors no longer than the checksum changes it. Packets that are no packets are not checksummed. In a stream, a right checksum changes nothing in what is read, and a wrong one makes the reader drop the damaged packets and wait for the next unit flagged for sync, from which on everything is read again.",
     ["inputs", "fault_sequences"], "for every packet content, number of packets and every burst of errors",
     "The guarantee is over all contents and corruptions.",
     [S+"IOHaptics/src/IOStream.cpp"], [("IOStream::writeCRC / computeCRC / checkCRC", S+"IOHaptics/src/IOStream.cpp")],
     "property-based testing: generated packets and damage against polynomial division; generated streams with right and wrong checksums inserted",
     "Random search; the stream writer adds no checksum by itself, so the check inserts them.")
prop("C21", "AHAP patterns become the effects they describe",
     "Converting an AHAP pattern gives, in one channel, a keyframe per transient event at its time with its intensity, ordered by time in one transient band, and an effect per continuous event at its time, for its duration, in vectorial bands (65 to 300 Hz) in which no effects overlap. Between the first and the last control point of the intensity curves, the intensity is multiplied by the curve, and outside it is that of the event (a transient before the first point may take the value of that point); at its ends and at the control points an event has its sharpness plus the curve, in range. The order of the elements of the pattern does not matter, other elements are ignored, a channel that was there keeps its content. Malformed documents, events (also of negative or overlong times) and curves are refused, malformed parameters and control points are left out, and values out of their range count as its nearest end.",
     ["inputs", "configurations"], "for every pattern of events and curves, in any order, every time scale and every malformed element",
     "Events meet curves that begin, end or jump before, inside, at the borders of or after them; tests have one curve and one event.",
     [S+"Encoder/src/AhapEncoder.cpp", S+"Types/src/Channel.cpp"], [("AhapEncoder::encode / extract* / modulateContinuous*", S+"Encoder/src/AhapEncoder.cpp")],
     "property-based testing: generated patterns; the intensity and frequency of every resulting effect followed tick by tick against the curves",
     "Random search; frequencies of transients under a sharpness curve are not compared, control points of one parameter at distinct ticks.")
prop("C22", "IVS documents become the effects their timelines launch",
     "Converting an IVS document gives a channel per timeline, with its own id, holding one vectorial effect for every time a basis effect is launched: at its launch time, for its duration, with the waveform, frequency and magnitude of the effect or of the launch, and with its attack and fade (cut where they do not fit). A repeat plays everything launched in its time once more per count, moves what comes after it by the time this takes, and repeats nest to any depth. Effects of one band do not overlap, the order of the elements does not matter, launches of unknown effects, and events without time, duration, period or known waveform, are left out, a channel that was there keeps its content, and documents that are missing or malformed are refused.",
     ["inputs", "histories", "configurations"], "for every document, any nesting of repeats, any order of elements and every time scale",
     "Repeats nested in repeats shift and multiply what is launched in and after them; the tests convert single effects and no repeats.",
     [S+"Encoder/src/IvsEncoder.cpp", S+"Encoder/include/IvsEncoder.h", S+"Types/src/Channel.cpp"], [("IvsEncoder::encode / convertToEffect", S+"Encoder/src/IvsEncoder.cpp"), ("RepeatNode::pushEffect / linearize", S+"Encoder/include/IvsEncoder.h")],
     "property-based testing: generated documents played by an independent interpreter of repeats and envelopes and compared effect by effect",
     "Random search; repeats of a timeline are disjoint or nested.")
prop("C23", "OHM metadata survives writing, loading and conversion",
     "OHM metadata written and loaded again is the same: version, descriptions (32 bytes), file names (64 bytes), every element and every channel with its gain and its 32 bit body part mask, in the byte layout of the format, whatever the object that loads held before. A file that is missing, has another header or is cut short anywhere is refused. Importing OHM metadata into an experience gives a perception per element, with the modality its description names, and a channel per channel, and exporting gives back the same elements and channels, with the number the version of the experience begins with.",
     ["inputs"], "for every OHM header, any text and mask, and every place a file may be cut at",
     "Fixed-width text fields and masks with high bytes; the tests load one file.",
     [S+"Tools/src/OHMData.cpp", S+"Types/src/Haptics.cpp", S+"Types/src/Perception.cpp"], [("OHMData::loadFile/writeFile", S+"Tools/src/OHMData.cpp"), ("Haptics::loadMetadataFromOHM/extractMetadataToOHM", S+"Types/src/Haptics.cpp")],
     "property-based testing: round trips and an independent writer of the byte layout as oracles, with cut and damaged files",
     "Random search; the number of channels of an element is that of its list.")
prop("C26", "The command line tools produce what was asked for or report failure",
     "For any accepted input (AHAP, IVS, WAV, OHM set, HJIF, MIHS, interchange binary) and any documented options, in any order and spelling, the encoder, decoder and synthesizer write to the output path (or the documented default) exactly what the library conversion, decoding or synthesis asked for yields: -kb goes over -bu, which goes over the default budget, -cf, -bl, -ts, -r before -l, -b with the packet duration; -fs, --pad in milliseconds and --generate_ohm. Exit code 0 means exactly that this was done. Missing, unreadable, damaged or unknown inputs, outputs that cannot be written and incomplete commands end with another exit code and leave no output; help succeeds and writes nothing; no command ends in an exception.",
     ["inputs", "configurations", "fault_sequences"], "for every kind of input, any combination, order and spelling of options, and every input or output that cannot be used",
     "The options cross with five input kinds and three outputs, and scripts rely on the exit code. The repository has no test that runs a tool.",
     [S+"Encoder/src/main.cpp", S+"Decoder/src/main.cpp", S+"Synthesizer/src/main.cpp", S+"Tools/src/InputParser.cpp"], [("main, codecExecutor, help", S+"Encoder/src/main.cpp"), ("main", S+"Decoder/src/main.cpp"), ("main", S+"Synthesizer/src/main.cpp"), ("InputParser", S+"Tools/src/InputParser.cpp")],
     "property-based testing: generated command lines and input sets run through the mains; the library calls the command stands for are the oracle, with injected input and output faults",
     "Random search; the mains are run in process. What the conversions themselves yield is the subject of C21-C25, C20 and C27.")
prop("C27", "Synthesis renders every channel of an experience to its place in a WAV file",
     "The length of an experience is that of its longest channel: sample count over sampling rate where both are given, otherwise the moment its last effect ends, of whatever kind (wavelet blocks included, transients lasting 22 ms). Synthesizing it at a rate fs with some padding gives a WAV file with one 16-bit track for each channel of each perception, in order, of round(fs * (length + 2 * padding)) samples, each being the mix of the channel limited to full scale, times its gain and the unit of its perception, rounded and clipped, and silence in the padding. Nothing to write, or a file that cannot be written, is reported.",
     ["inputs", "configurations"], "for every experience of any number of perceptions and channels, gains and units, every time scale, rate and padding",
     "Lengths depend on which effect ends last and in which unit it is counted, and tracks on the channels of the perceptions before; tests synthesize nothing with two perceptions.",
     [S+"Synthesizer/src/Helper.cpp", S+"Synthesizer/include/Helper.h", S+"Types/src/Haptics.cpp", S+"Types/src/Band.cpp", S+"Tools/src/WavParser.cpp"], [("Helper::getTimeLength / playFile", S+"Synthesizer/src/Helper.cpp"), ("Band::getBandTimeLength", S+"Types/src/Band.cpp"), ("WavParser::saveFile", S+"Tools/src/WavParser.cpp")],
     "property-based testing: generated experiences, with the length, the layout of the file and each sample computed independently",
     "Random search; samples next to a jump of the signal are not compared.")
prop("C09", "Damaged .hmpg files are refused or read as what they say, never worse",
     "For any bytes, loading a .hmpg file (from disk or from memory) ends, without a crash, an exception or an access outside the data. A file that is cut short anywhere is refused. What is accepted holds only codes that exist, can be written in both file formats, and reads back as the same experience when it is written as .hmpg again. File and memory reader agree.",
     ["inputs", "fault_sequences"], "for every file content (timelines nested up to a thousand deep), and every place a file may be cut or damaged at",
     "Files come from elsewhere; a damaged count or code leads anywhere in the readers. The tests read intact files only.",
     [S+"IOHaptics/src/IOBinary.cpp", S+"IOHaptics/src/IOBinaryBands.cpp", S+"IOHaptics/include/IOBinaryPrimitives.h"], [("IOBinary::loadFile/loadMemory", S+"IOHaptics/src/IOBinary.cpp"), ("IOBinaryBands::readBandHeader/readBandBody", S+"IOHaptics/src/IOBinaryBands.cpp")],
     "property-based fuzzing: intact files cut at every place and damaged by bit, byte and structure mutations under the address sanitizer, with re-writing as oracle for what is accepted",
     "Random search; time is not bounded, wavelet blocks of less than 4 ticks are not compared after re-writing.")

prop("C11", "Damaged MIHS streams are refused or read as what they say, never worse",
     "For any bytes, reading a MIHS stream - from a file, unit by unit or packet by packet - ends, without a crash, an exception or an access outside the data. A stream cut inside a unit, and a unit or packet that is incomplete, is refused; cut between units, the stream is read as a part of what the whole stream gives. What is accepted holds only codes that exist, every announced band holds the effects its data packets describe - at the times and with the ids, keyframes and coded blocks they give, in whatever order packets are dropped, repeated or moved - and can be written in all formats. A refused part leaves the reader usable.",
     ["inputs", "fault_sequences"], "for every stream content, and every way units and packets may be cut, damaged, dropped, repeated or reordered (timelines nested up to a thousand deep)",
     "Streams come over a network; any count, id, length or code in them can be wrong, and units can be missing. The tests read intact streams only.",
     [S+"IOHaptics/src/IOStream.cpp", S+"IOHaptics/include/IOBinaryPrimitives.h", S+"IOHaptics/src/IOBinaryBands.cpp"], [("IOStream::loadFile/readFile", S+"IOHaptics/src/IOStream.cpp"), ("IOStream::readMIHSUnit/readMIHSPacket", S+"IOHaptics/src/IOStream.cpp"), ("IOStream::readData/readMetadataBand/addEffectToHaptic", S+"IOHaptics/src/IOStream.cpp")],
     "property-based fuzzing: streams cut, damaged bit-wise and packet-wise under the address sanitizer; an independent parser says what accepted streams contain",
     "Random search; contents are compared where the announcement of a band is unambiguous; time is not bounded.")

prop("C10", "Any .hjif, AHAP or IVS document is refused or read, never worse",
     "Whatever a JSON or XML document holds, loading it as .hjif and converting it as AHAP pattern or IVS file ends, without a crash, an exception or an access outside the data. What is accepted as .hjif obeys every rule of conformance, reads back as it is when it is written again, and can be written as .hmpg and as a stream, which leaves it as it was. What a converted document gives has effects at moments that are not negative, keyframes in order, known base signals, amplitudes that are numbers and no negative frequencies, is conformant, and can be written in every format and played. A refused document leaves the perception as it was.",
     ["inputs"], "for every document: members and attributes of any type and size, missing, repeated, moved or exchanged, and any text",
     "Documents are made by hand and by other tools; each of their values can be missing, of another type or far out of range. The tests convert a few good ones.",
     [S+"IOHaptics/src/IOJson.cpp", S+"Encoder/src/AhapEncoder.cpp", S+"Encoder/src/IvsEncoder.cpp"], [("IOJson::loadFile", S+"IOHaptics/src/IOJson.cpp"), ("AhapEncoder::encode", S+"Encoder/src/AhapEncoder.cpp"), ("IvsEncoder::encode", S+"Encoder/src/IvsEncoder.cpp")],
     "property-based fuzzing: valid documents with structural, numeric and textual changes under the address sanitizer; conformance rules, field rules and re-writing as oracle for what is accepted",
     "Random search; streams are written for contents of up to 2000 packets, IVS repetitions of more than 99 times are left out.")

NA = {}
if __name__ == "__main__":
    P.sort(key=lambda x: x["p"]["id"])
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            f.write(json.dumps(x["p"], ensure_ascii=False) + "\n")
    checks = [dict(property=x["p"]["id"],
                   quick_cmd=f"python3 tools/check.py {x['p']['id']} quick",
                   thorough_cmd=f"python3 tools/check.py {x['p']['id']} thorough",
                   evidence_file=f"evidence/{x['p']['id']}.json",
                   technique=x["technique"], level="exploration", level_note=x["note"])
              for x in P if x["p"]["id"] in CH]
    na = [dict(property=x["p"]["id"], reason=NA.get(x["p"]["id"], "The check for this property is not built yet."))
          for x in P if x["p"]["id"] not in CH]
    json.dump(dict(version=1, setup_cmd="python3 tools/build.py", checks=checks, not_applicable=na),
              open(V + "/MANIFEST.json", "w"), indent=1)
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for x in P:
        jsonschema.validate(x["p"], sch)
    jsonschema.validate(json.load(open(V + "/MANIFEST.json")), json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(P), "properties,", len(checks), "checks")
