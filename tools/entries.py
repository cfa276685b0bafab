TEST = "The 194 tests run each routine on a handful of fixed inputs; "
P("S01", "Vector kernels equal their scalar definitions for every length",
  "Every vectorised arithmetic kernel (complex and real add, subtract, multiply, scale, conjugate, accumulate, divide, magnitude, sums, int-to-float and float-to-int conversions, de-interleaving) produces, for each of the requested elements and for every length, the value its scalar definition gives up to rounding. Operands that are inputs only are left unchanged, and nothing beyond the length rounded up to one vector is read or written.",
  ["inputs"], "All lengths from 1 up, all finite operand values, conjugation flags and in-place or out-of-place forms.",
  TEST + "vector remainders, aliasing and sign conventions show only at particular lengths and values.",
  ["source/RKSIMD.c", "headers/RadarKit/RKSIMD.h"], [("RKSIMD_* kernels", "source/RKSIMD.c")],
  "AddressSanitizer + UBSan run of every kernel with a double-precision scalar oracle", "Random lengths and operands; tolerance of a few float ulps of the operand magnitude.")
P("S02", "Signal-processing primitives follow their definitions",
  "Windows, ramps, angle interpolation and differences on the circle, analytic (Hilbert) signals, fast sine, cosine and arctangent approximations, IEEE half- and single-precision conversions, hop-sequence strides and pulse noise estimates give the value of their mathematical definition for every length and argument. Hop strides visit every hop once before any repeats.",
  ["inputs"], "All lengths of at least two, all parameters and finite arguments, all 16-bit half patterns.",
  TEST + "wrap-around, odd lengths and special float patterns are not among them.",
  ["source/RKDSP.c", "source/RKWindow.c", "source/RKRamp.c", "source/RKMisc.c"], [("RKWindowMake, RKRampMake, RKHilbertTransform", "source/"), ("RKInterpolate*, RKGet*Delta, half float", "source/RKDSP.c, source/RKMisc.c")],
  "AddressSanitizer + UBSan run with closed-form oracles in double precision", "Sampled arguments, exhaustive over small lengths.")
P("M01", "Moment estimators equal their definitions for every ray",
  "For every ray of pulses, the pulse-pair, pulse-pair with hopping, alternating staggered, multi-lag and spectral moment processors produce reflectivity, velocity, width, differential reflectivity, differential phase and correlation coefficient (and signal power and SNR) equal at every gate to what the estimator's definition gives on the same pulses, with the configured noise, calibration and censoring applied. The result does not depend on what the scratch memory held before, and no access leaves the scratch and ray buffers whatever the number of pulses, gates and lags.",
  ["inputs", "histories", "configurations"], "All pulse counts, gate counts, lag settings, signals, noise levels and earlier contents of the reused scratch space.",
  "The tests compare one synthetic ray per processor; stale accumulators, pulse-count boundaries and gate offsets need other rays and a used scratch space.",
  ["source/RKPulsePair.c", "source/RKMultiLag.c", "source/RKSpectralMoment.c", "source/RKMomentEngine.c", "source/RKScratch.c"], [("RKPulsePair*, RKMultiLag, RKSpectralMoment", "source/"), ("RKScratch", "source/RKScratch.c")],
  "AddressSanitizer + UBSan run of the estimators on a reused scratch space, with double-precision reference estimators", "Gates whose reference is within rounding of a censoring threshold or a branch cut are not compared.")
P("M02", "Ray products carry exactly the quality-controlled moments",
  "When moments are written into a ray, a gate keeps its value in the single-polarization products exactly when its SNR and signal quality index exceed the configured thresholds and the next gate is not censored, and in the dual-polarization products when that holds in both channels; every other gate is marked as having no value. Signal power and signal quality are reported for every gate regardless. Nothing beyond the gates of the ray is read or written.",
  ["inputs", "configurations"], "All gate counts up to the capacity, thresholds and moment values including not-a-number.",
  TEST + "censoring depends on thresholds and every gate count up to the capacity.",
  ["source/RKMomentEngine.c", "source/RKScratch.c"], [("makeRayFromScratch", "source/RKMomentEngine.c")],
  "AddressSanitizer + UBSan run with a per-gate oracle", "Sampled moments and thresholds.")
P("M03", "Each filter's calibration is applied over exactly its output range",
  "After a configuration or waveform change, every gate carries the calibration constants of the waveform filter whose output covers that gate: reflectivity with range, wavelength, sensitivity and channel constants, differential reflectivity and differential phase offsets. This holds for any number of filters, any origins and lengths, and any down-sampling ratio.",
  ["configurations", "inputs"], "All filter layouts, gate counts, down-sampling ratios and calibration constants.",
  "The tests use single-filter waveforms with fixed constants.",
  ["source/RKMomentEngine.c"], [("RKMomentUpdateCalibration", "source/RKMomentEngine.c")],
  "AddressSanitizer + UBSan run with a per-gate reference", "Sampled layouts.")
P("M04", "Ray noise estimation follows its definition and stays within the ray",
  "For a ray of receiver noise with echoes in a minority of its gates, the ray-by-ray noise estimate of each polarization is positive and within 1.5 dB of the true noise power. When no estimate can be made, the configured noise floor is used for both polarizations. No gate beyond those of the ray is read.",
  ["inputs"], "All gate counts and power profiles.",
  "No test drives the estimator through its fallback and boundary conditions.",
  ["source/RKDSP.c", "source/RKMomentEngine.c"], [("ray noise estimator", "source/RKMomentEngine.c, source/RKDSP.c")],
  "AddressSanitizer + UBSan run with a reference estimator", "Sampled profiles.")
P("W01", "Waveforms are the requested signal with consistent gains",
  "A generated tone, chirp, frequency-hop or hopping-chirp waveform has, in every group, samples following the requested frequencies with unit noise gain, transmit samples that are the full-scale 16-bit copy, hops in pairs that cover every frequency, and filters that lie inside the samples; filter gain, sensitivity gain and full scale agree with the samples. Copying, conjugating, decimating, windowing, appending and down-converting give exactly the samples, anchors and gains their definitions state, for every group, and never change the original of a copy.",
  ["inputs", "histories"], "All sampling rates, frequencies, lengths, hop counts, group counts, strides, windows and sequences of those operations.",
  "The tests build a few fixed waveforms; group, remainder and multi-filter cases are not sampled.",
  ["source/RKWaveform.c"], [("RKWaveformInitAs*, RKWaveformDecimate, RKWaveformDownConvert, RKWaveformAppendWaveform, RKWaveformApplyWindow", "source/RKWaveform.c")],
  "AddressSanitizer + UBSan run with a double-precision waveform model", "Sampled parameters; down-conversion of real-valued waveforms only at power-of-two lengths.")
P("W02", "Waveform files round-trip and damaged files are refused safely",
  "A waveform written to a file and read back has the same groups, filters, samples, frequencies and name, including an empty name that becomes the file's own name. A truncated file, or one whose filters lie outside its samples, is refused; any file that is accepted yields a waveform all of whose filters lie inside its samples, no read leaves its buffers, and the caller's file stays open.",
  ["inputs"], "All waveforms and all byte-level damage of their files.",
  "The tests read back intact files only.",
  ["source/RKWaveform.c", "source/RKFileHeader.c"], [("RKWaveformWriteFile, RKWaveformReadFromReference", "source/RKWaveform.c")],
  "AddressSanitizer + UBSan run of write, damage and read with a comparing oracle", "Sampled damage.")
P("P01", "Pulse compression delivers every pulse once, in order, correctly compressed",
  "Whatever the buffer depth, number of worker cores, schedule and load, every pulse handed to the pulse compression engine comes out exactly once and in the order it went in. Each gate is the matched filter output of the pulse's waveform group (groups follow the pulse number in rotation), placed where each filter's input and output origins say, then down-sampled by the pulse-to-ray ratio, with matching split and interleaved samples, pulse width and gate counts for one or both channels and for integer or complex input. Raw samples and the producer's header fields are left as they were. A pulse is left uncompressed (marked skipped) only when the engine is overloaded. Changing the filters between pulses takes effect for later pulses, and stopping the engine always completes.",
  ["schedules", "inputs", "histories"], "All interleavings of producer, workers, watcher and consumer, all filters, gate counts and filter changes.",
  "The tests compress one pulse with one filter; ordering, overload, core counts and filter layout show only under other schedules and parameters.",
  ["source/RKPulseEngine.c", "source/RKDSP.c"], [("RKPulseEngine workers and watcher", "source/RKPulseEngine.c"), ("RKPulseEngineSetFilterByWaveform", "source/RKPulseEngine.c")],
  "AddressSanitizer + UBSan run of the real engine under injected delays, with an order monitor and a double-precision correlation oracle per gate", "Sampled schedules; progress is decided by a 20 s bound that must fail twice.")
P("R01", "The pulse ring filter filters each gate along pulses and nothing else",
  "With the ring filter on, every in-phase and quadrature sample of the first gates of each polarization (as many as the previous configuration's ring filter gate count and the pulse allow) becomes the output of the configured recursive filter run along successive compressed pulses at that gate, whatever the number of cores and schedule. Other gates, other data and the header stay as they were; pulses that were not compressed, and all pulses while the filter is off, pass unchanged. Every pulse is released exactly once, in order, only after it was compressed, with the status that says whether it was filtered. The elliptical filters reject slow ground clutter and pass the rest.",
  ["schedules", "inputs", "histories", "configurations"], "All interleavings of the workers, core counts, gate counts, filters, and switching of filters between pulses.",
  "The tests never run the filter over long pulse sequences, several cores or gate limits.",
  ["source/RKPulseRingFilter.c", "source/RKDSP.c"], [("ringFilterCore and pulseRingWatcher", "source/RKPulseRingFilter.c"), ("RKGetFilterCoefficients", "source/RKDSP.c")],
  "AddressSanitizer + UBSan run of the real engine under injected delays, with a per-gate reference recursion and an order monitor", "Sampled schedules; progress is decided by a 20 s bound that must fail twice.")
P("P02", "Every pulse gets the antenna position and the marker of its time",
  "Each pulse is tagged exactly once and in order, only after the ring filter has released it and an antenna position later than the pulse is known. It gets the azimuth (along the shorter arc) and elevation interpolated between the positions around its time, the velocities and raw readings of the position before it, and the scan type of that position; sweeps begin where an active scan starts or follows a completed sweep, and end where the pedestal reports completion or the scan stops being active. A beginning sweep, a change of scan type and a change of gate count each start a new configuration, which copies the last one except for what changed, and the pulse records the configuration in force. Every other field and all data of the pulse stay as they were.",
  ["schedules", "inputs", "histories"], "All position streams, pulse rates, buffer depths and interleavings of the pulse and position producers.",
  "No test runs the engine; crossing north, several positions per pulse or several pulses per position, and buffer wrap-around depend on the stream and the timing.",
  ["source/RKPositionEngine.c", "source/RKConfig.c"], [("pulseTagger", "source/RKPositionEngine.c"), ("RKConfigAdvance", "source/RKConfig.c")],
  "AddressSanitizer + UBSan run of the real engine with interleaved producers, compared pulse by pulse with a model of the tagger", "Sampled streams that stay within the depth of the buffers; progress is decided by a 20 s bound that must fail twice.")
P("Y01", "Rays are made of the right pulses, once each, in order",
  "Whatever the number of cores and the schedule, pulses are grouped into rays by antenna position (whole degrees of azimuth in a plan scan, of elevation in a height scan, of both otherwise, or the index a pulse already carries): a ray holds the consecutive pulses of one bin and the pulse that follows them (unless boundary pulses are excluded), starts anew where a sweep begins, ends where a sweep ends, and never exceeds the maximum number of pulses. Rays come out exactly once and in order, with times, angles, gate count, gate size, configuration, sweep angles, pulse count and combined markers of exactly those pulses, and their products equal what the selected noise estimator, calibrator and moment processor give for those pulses under the configuration of the last one. A ray of three or fewer pulses, spanning three degrees or more, of mixed gate counts, or not compressed is delivered without values and marked skipped. Every pulse is released for recording once no ray needs it, and is otherwise left unchanged.",
  ["schedules", "inputs", "histories", "configurations"], "All interleavings of gatherer, workers and consumer, all scans, markers, configuration changes and estimators.",
  "No test runs the engine across sweeps; grouping, calibration after a change and release of pulses depend on the history and the schedule.",
  ["source/RKMomentEngine.c", "source/RKCalibrator.c", "source/RKPulsePair.c"], [("pulseGatherer, momentEngineCore", "source/RKMomentEngine.c")],
  "AddressSanitizer + UBSan run of the real engine under injected delays, with a model of the grouping and the estimators run on a private scratch space as reference", "Sampled schedules and scans without overload; progress is decided by a 20 s bound that must fail twice.")
P("N01", "Product files hold exactly the product, and are read back the same",
  "A product that is written to a NetCDF file can be found there by any NetCDF reader under its type name, with its dimensions, azimuths, elevations, beam widths and gate widths, every finite value unchanged (others as missing data), and its attributes (texts, position, time, scan type and angle, wavelength, PRF, Nyquist velocity, pulse width, noise, calibration, thresholds) under the names, units and values stated. Reading the file returns that product, with missing and range folded data as not-a-number; reading any file of a sweep returns the sweep with exactly the base moments that have a file, or the collection of exactly the products of that sweep, and not those of another sweep or kind. An incomplete product is refused without leaving a file, writing changes no value of the product but those that are not numbers, a second product replaces the first, and no file is left open.",
  ["inputs"], "All products: dimensions, scan types, texts up to their full length, values including not-a-number, and sets of files.",
  "The tests write one product of fixed contents; labels, units, scan types, missing values and partial sets of files show only with others.",
  ["source/RKProductFile.c", "source/RKSweepFile.c", "source/RKProduct.c"], [("RKProductFileWriterNC, RKProductFileReaderNC", "source/RKProductFile.c"), ("RKSweepFileRead", "source/RKSweepFile.c"), ("RKProductCollectionInitWithFilename", "source/RKProductFile.c")],
  "AddressSanitizer + UBSan run of write and read with an independent inspection of the file through the NetCDF library", "Sampled products.")
P("N02", "Reading an unusual or damaged product file stays within bounds",
  "Reading a NetCDF file as a product or as a sweep never reads or writes outside its buffers, whatever the dimensions (up to more rays and gates than the limits), ranks and types of its arrays, lengths of its texts, number of values of its attributes, missing parts, or truncation of the file. What is returned has no more rays and gates than its buffers hold, readable arrays of that size, and terminated texts; otherwise nothing is returned. No file is left open.",
  ["inputs"], "All NetCDF files, including those of another making and damaged ones.",
  "The tests read only files RadarKit wrote.",
  ["source/RKProductFile.c", "source/RKSweepFile.c"], [("RKProductFileReaderNC", "source/RKProductFile.c"), ("RKSweepFileRead", "source/RKSweepFile.c")],
  "AddressSanitizer + UBSan run of both readers on generated odd and truncated files", "Sampled oddities; the NetCDF library itself is not instrumented.")
P("E01", "Every sweep becomes its products, each delivered once, in order",
  "The rays from the one that begins a sweep to the one that ends it (a ray may do both) form a sweep, cut down to 360 rays when it has 361 to 379; rays between sweeps belong to none. While recording is on, and the sweep has at least three rays, four fifths of them in mid-sweep, every described product that the sweep contains is handed to the recorder exactly once, sweep after sweep and in order of description, holding exactly the values, angles and times of those rays (gates a ray lacks are not-a-number), the configuration of the sweep and the description of the radar, under a name made of the data folder, day, prefix, time, elevation or azimuth or ray count, and symbol, in a folder that exists. The file manager is told of each file the recorder wrote, unless the handling script removes them, and of the archive the script makes; the script is given the files of each recorded sweep. This holds for every schedule, sweep length and recorder speed as long as two sweeps fit in the ray buffer. A flush ends the sweep that is under way; after stopping, nothing more is recorded and no sweep is recorded in part; product descriptions get the first free identity and are refused when all are taken.",
  ["schedules", "inputs", "histories"], "All sequences of sweeps, interleavings of gatherer, sweep manager, releaser, recorder, flush and stop.",
  "The tests never run the engine over several sweeps; loss, duplication, mixing of sweeps and release of rays in use depend on the history and the timing.",
  ["source/RKSweepEngine.c", "source/RKProduct.c"], [("rayGatherer, sweepManager, rayReleaser", "source/RKSweepEngine.c"), ("RKSweepCollect", "source/RKSweepEngine.c"), ("RKProductInitFromSweep", "source/RKProduct.c")],
  "AddressSanitizer + UBSan run of the real engine under injected delays and slow or failing recorders, with a model of the sweeps compared at every recording", "Sampled schedules; progress is decided by a 20 s bound that must fail twice.")
P("C01", "Configuration changes apply one at a time, completely, and change nothing else",
  "A configuration change, by any thread, makes exactly one new configuration in the next slot of the buffer: a copy of the latest one with the values named in the change, and no others, replaced, and with the next identifier. Changes of several threads take place one after another, in the order of each thread, none lost or doubled; earlier configurations that are still in the buffer stay as they were and are found by their identifier; whoever reads the latest configuration sees it complete. Any sequence of keys is handled within bounds: unusable waveforms and unknown keys are left out, long texts are cut, and calibrations of more filters than there can be are cut. The setters of the radar (PRF, SNR threshold) set the value given. This holds for every radar of the process, also after another one was freed.",
  ["inputs", "schedules", "histories"], "All sequences of keys and values, buffer depths, histories and interleavings of any number of threads.",
  "Every ray and file is interpreted by its configuration; tests read a few values after one change by one thread.",
  ["source/RKConfig.c", "source/RKRadar.c"], [("RKConfigAdvance", "source/RKConfig.c"), ("RKAddConfig", "source/RKRadar.c"), ("RKSetPRF", "source/RKRadar.c")],
  "AddressSanitizer + UBSan run of concurrent changes with injected delays, each resulting configuration checked against a model applied to its predecessor", "The keys that the code does not handle (user parameters, waveform id) change nothing.")
P("D01", "While recording is on every pulse is in exactly one raw data file, and reads back the same",
  "While recording is on, every processed pulse of a configuration that is recorded (all but those made during start-up) is written to exactly one file, in order, with its header and data as they were; none is written while recording is off. A change of the recording switch takes effect within the pulse being handled, at any time. A new file begins where the configuration changes, recording is switched, or the file holds the maximum number of pulses; it holds the description of the radar, the configuration of its pulses and the waveform with all filters and samples, is named by the data folder, day, prefix and time of its first pulse and the kind of data, and the file manager is told of it when it is complete, also when the recorder stops. The library reads back the same header, waveform and pulses; a file that is cut short or holds more gates than a pulse can take is read up to there, and one whose headers are damaged, of version 5 or unknown is read or refused, within bounds. Pulses that are being made are not touched, and a failing write stops neither the recorder nor the other files.",
  ["schedules", "inputs", "histories"], "All histories of pulses, configurations and switching, cache sizes, limits, and interleavings of the recorder with the radar.",
  "No test runs the recorder; pulses lost, doubled or misfiled around a change, a full cache or a stop show only in long histories.",
  ["source/RKRawDataRecorder.c", "source/RKFoundation.c"], [("pulseRecorder", "source/RKRawDataRecorder.c"), ("RKRawDataRecorderCacheWrite", "source/RKRawDataRecorder.c"), ("RKReadPulseFromFileReference", "source/RKFoundation.c")],
  "AddressSanitizer + UBSan run of the real recorder under injected delays and write faults, with every byte of every file accounted for against a log of the pulses made", "Sampled schedules and histories that stay within the depth of the pulse buffer.")
P("F01", "The file manager keeps each kind of data within its limit by removing the oldest, and touches nothing else",
  "While the file manager is active, the files of each kind of data (raw data, moments, health) are brought to at most the limit of that kind, whether they were there before it started or were reported since, by removing the oldest files, by the time in their names, and only as many as needed. A limit set by the user applies to that kind; the others get their share of the total limit. Day folders that were emptied so are removed, except the last one; log files are removed when older than the set age. Nothing else is removed or changed: hidden files, files with names RadarKit does not make, files outside the day folders, links, what links point to, other folders, whatever characters or length the path has. When there are more files than the manager can list, the limit still holds and files go by day. A report of a file that does not exist, lies elsewhere, or is of an unknown kind is refused without effect, and does not block later reports. The manager stops promptly at any time, also while files are being reported.",
  ["inputs", "histories", "schedules"], "All folder contents, paths, limits, sizes, histories of reports, and times of starting and stopping.",
  "No test runs the file manager, whose mistakes are lost data or a full disk; the wrapped list, the overfull list and the odd path take days or unusual sites to show.",
  ["source/RKFileManager.c"], [("fileRemover", "source/RKFileManager.c"), ("refreshFileList", "source/RKFileManager.c"), ("RKFileManagerAddFile", "source/RKFileManager.c")],
  "AddressSanitizer + UBSan run of the real file manager on scratch folders with a fast clock, stand-ins that confine every removal, and a reference model of which files must be left", "The small list (100 files, DEBUG_FILE_MANAGER) reaches the wrapped and overfull list; the list of a running radar (72,000 or more) is only used within its capacity.")
P("H01", "Every consolidated health holds the newest report of each active node, in one valid JSON object, and is logged once",
  "While the radar runs, every published health is a whole JSON object within the length of a health string that holds, for each active node, the values of its newest complete report, as sent: none is lost, doubled, mixed with another report, replaced by an older one, or made up. The report of a node that has been silent for a while is kept and marked old in all its states, never before ten collections, never the one of the radar itself, and as soon as the node reports again its values are fresh. A node is left out only when its report does not fit. A GPS reading in order moves the heading or location of the radar only after several agreeing readings and then does; without one the position of the radar is shown as an override, and the GPS readings are marked as not in use. Readers never see a health in part. Every health made while the recorder is on is one line of the log file of its minute, in order and once; none while it is off; every finished file, the last one too, is told once to the file manager.",
  ["schedules", "histories", "inputs"], "All reports, numbers of nodes, silences, buffer depths, GPS readings, switching of the recorder and interleavings of nodes, collector, logger and readers.",
  "The tests never run the collector with live nodes; a stale, mixed or cut health shows only under particular timing and lengths.",
  ["source/RKHealthEngine.c", "source/RKHealthLogger.c", "source/RKRadar.c"], [("healthConsolidator", "source/RKHealthEngine.c"), ("healthLogger", "source/RKHealthLogger.c"), ("RKGetVacantHealth", "source/RKRadar.c")],
  "AddressSanitizer + UBSan run of the real health engine and logger with reporting nodes on a fast clock, every published health and log line checked against a record of what each node sent", "The nodes report at most as often as the collector's buffer allows; waits are counted in naps of the collector, so that a slow machine raises no alarm.")
P("J01", "Status, product and control texts are read and changed exactly, and any text is handled within bounds",
  "From every JSON text of the kinds the system exchanges (healths of values with states, nested objects and arrays, strings with any characters and escapes, any blanks) the library returns for each key exactly its value, the keys one after another in order, and for a state the first entry that has it; an absent key has none. Setting the state of one or all entries, or turning quoted true/false into logical values, changes just that and leaves a valid text within the length of a health string. The overview shows each entry with its value, the pretty text says the same as the source, arrays of numbers and quoted strings and product descriptions give the numbers and texts written there, columns of text are merged line by line, and bytes are printed as they are. Any other text - cut, damaged, empty, with misplaced brackets or quotes - is handled within the bounds of the text and of the destination, ends, and returns only pieces of the text.",
  ["inputs"], "All texts, well-formed or not, all keys, values and lengths up to the length of a health string, all sizes of destination.",
  "These functions take what hardware, clients and the network send; the tests use a few well-formed texts, so an overread or a wrong neighbour goes unseen.",
  ["source/RKMisc.c", "source/RKFoundation.c"], [("RKGetValueOfKey", "source/RKMisc.c"), ("RKJSONScanPassed", "source/RKMisc.c"), ("RKReplaceAllValuesOfKey", "source/RKFoundation.c"), ("RKParseProductDescription", "source/RKFoundation.c"), ("RKPrettyStringFromKeyValueString", "source/RKFoundation.c")],
  "AddressSanitizer + UBSan run on exactly sized buffers, with each result compared with the generator's own record of the document", "In the healths, strings hold no brackets or quotes (RKGetValueOfKey ends a value at the first closing mark, which the healths of the system observe); the JSON element functions get all characters.")

P("V01", "Scan commands make the volumes they describe, and the pedestal is steered through every sweep of them in order",
  "Each PPI, RHI, sector, volume, point or home command of any length makes exactly the sweeps it describes, at once, once or for the lineup as its form says; start, stop and next act on the volumes as documented; a command that is not understood is answered with NAK and leaves the volumes and their course unchanged, and every command is answered by a complete line within the response buffer. From then on each position gets at most one instruction per axis, within the rates of the volume, such that a pedestal that obeys goes through the sweeps in order, each from its start to its end at its rate and with the other axis held, repeats or stops as told and stands still when stopped. Positions carry the flags and the angles of the sweep they belong to: the completion once per sweep, the scan flag for its data part, none without a volume - also when commands come from other threads.",
  ["inputs", "histories", "schedules"], "All command texts, all sequences of commands at all times, all pedestals that react within the action period, and all interleavings of commands with positions.",
  "A wrong transition shows only for particular orders of sweeps, commands and pedestal states and then ruins the volume or leaves the antenna moving; the tests do not run the engine with a pedestal.",
  ["source/RKSteerEngine.c"], [("RKSteerEngineGetAction", "source/RKSteerEngine.c"), ("RKSteerEngineExecuteString", "source/RKSteerEngine.c"), ("RKSteerEngineNextHitter", "source/RKSteerEngine.c"), ("RKSteerEngineUpdatePositionFlags", "source/RKSteerEngine.c"), ("RKSteerEngineScanSummary", "source/RKSteerEngine.c")],
  "online trace monitor: a model of the volumes and a simulated pedestal driven by the real instructions, checked position by position under AddressSanitizer + UBSan; commands against positions under ThreadSanitizer", "Not judged: the speed-down mode, sectors of less than 20 degrees, point without both angles, and a component of a volume that leaves its azimuth out after another one.")

P("L01", "A radar can be built, put on air, changed, stopped, put on air again and freed at any time",
  "A radar built from any valid description, with any set of devices (transceiver, pedestal, health relay, user devices) and user module, can go live, have its settings changed (waveform, PRF, filters, moment method, noise, calibrations, controls, soft restart), stop, go live again and be freed, in any order, without a memory error. On air, pulses that are handed in go through the chain whether or not there are positions, whatever their number of gates. Every device that was initialised is told to disconnect exactly once and freed exactly once, and its functions are never called with another object; a device that fails or is incomplete makes going live fail with a result, not a crash. The user module is created from the waveform, used only between its creation and its end, and ended exactly once. Settings made before going live are kept. Going live, stopping and freeing take bounded time, and afterwards no thread, descriptor or byte of the radar is left.",
  ["inputs", "schedules", "histories"], "All descriptions, sets of devices, failures of devices, orders and times of changes, stops and restarts.",
  "The life of a radar spans all engines and their threads; the tests run a single fixed configuration and exit without freeing.",
  ["source/RKRadar.c", "source/RKPulseEngine.c", "source/RKMomentEngine.c", "source/RKHostMonitor.c", "source/RKDSP.c"], [("RKInitWithDesc", "source/RKRadar.c"), ("RKGoLive", "source/RKRadar.c"), ("RKStop", "source/RKRadar.c"), ("RKFree", "source/RKRadar.c"), ("RKSetWaveform", "source/RKRadar.c"), ("RKSoftRestart", "source/RKRadar.c"), ("RKMeasureNoise", "source/RKRadar.c")],
  "AddressSanitizer + UBSan run of whole radars with recording devices and user modules, each hook call, thread, descriptor and allocated byte accounted for", "A relay radar is not driven: it goes live only when its server answers, by design. Files of products are written by other checks; here the products are only counted.")
P("K01", "Messages cross the network whole, once and in order, and connections begin and end cleanly",
  "What is sent through the packet functions of the server and of the client arrives as the same bytes in the same order, however many payloads a message has and however slowly or in whatever pieces the other side takes them; the function returns the number of bytes sent when all were sent, else a negative value, and never blocks others by keeping its lock. The server hands each command line of a client, in whatever pieces it arrives and however many come at once, to the command handler exactly once and in order, answers and streams of a client are never mixed within a message, a client too many is told that the server is busy, each served client is welcomed once and terminated once, after its last handler call, and its place is given back. The client hands over each message (constant size, header-defined size or line) exactly once, whole and in order, as soon as it is complete; an incomplete or oversized one is never handed over, and the connection is made again. However and whenever a client or server is stopped, it ends in bounded time with its threads, descriptors and memory released, and no descriptor is closed twice.",
  ["inputs", "schedules", "histories"], "All message sizes, numbers of payloads, fragmentations, paces, numbers of clients, orders of connecting, leaving, resetting, hanging up and stopping.",
  "Partial sends, split and merged segments, resets and stops at any point depend on the network; the tests connect nothing.",
  ["source/RKNetwork.c", "source/RKServer.c", "source/RKClient.c"], [("RKNetworkSendPackets", "source/RKNetwork.c"), ("RKOperatorSendPackets", "source/RKServer.c"), ("RKOperatorRoutine", "source/RKServer.c"), ("RKServerRoutine", "source/RKServer.c"), ("theClient", "source/RKClient.c")],
  "AddressSanitizer + UBSan run of the real server, client and packet functions over loopback sockets with peers that fragment, stall, reset and leave, every byte, answer, handler call, descriptor, thread and allocation accounted for", "A send to a peer that takes nothing for the length of the time limit may be given up; what is then left of the message is the caller's affair.")
P("X01", "Every control command does exactly what it says, and is answered once",
  "On a radar that is live, every text given to RKExecuteCommand is answered with exactly one terminated text within the length of a string, whatever its characters and length, and without an answer buffer has the same effects. A command for the transceiver, pedestal or health relay comes to that device and no other, once, as everything behind its letter and blanks, and the answer is what the device said; for a device that is not there, or a volume command without a steer engine, the answer is NAK. Help holds the help of every device. A DSP command, with or without a blank before and behind its second letter, sets exactly what it names (noise, noise in dB, SNR or SQI threshold, ring filter and its number of gates, moment method, kind of recording) to exactly the value given and nothing else, says what is now set, or says what is set when there is no value; an unknown command, filter or incomplete value is answered with NAK and changes nothing. A volume command has the effect and answer that the steer engine gives to that text. Clearing empties the buffers; a restart keeps all settings. With several operators at the same time every command still has its own effect and answer.",
  ["inputs", "histories", "schedules"], "All texts, all orders of commands, all sets of devices, and all interleavings of operators.",
  "The commands are typed by people and sent by other programs; the tests send none, so a lost parameter, a setting changed by the side, or a crash on a missing device goes unseen.",
  ["source/RKRadar.c"], [("RKExecuteCommand", "source/RKRadar.c"), ("RKSetPulseRingFilterByType", "source/RKRadar.c"), ("RKAddConfig", "source/RKRadar.c")],
  "AddressSanitizer + UBSan run of a live radar with recording devices; after every command the answer, the devices' records and the whole configuration are compared with a model of the command", "No pulses flow, so that nothing but the commands changes the settings; the commands of the command center itself (a, s, u, x) are not part of it.")
P("X02", "The command center answers each client once per command and streams what was asked for, as the radar holds it",
  "Every client of the command center gets exactly one answer to every command, in the order of its commands, whatever the commands, the other clients, the streams in progress and the radars it may select, and an answer to a choice of streams names exactly the streams chosen. Every packet is whole: a delimiter with the type and the number of bytes that follow, never interleaved with another. A client gets no stream it has not asked for, or is not allowed; and each one it asked for keeps coming while the radar runs, alongside the others: texts terminated and up to date; rays, product or display, each once, in order, none left out, with exactly the products asked for and the data the radar holds (at the down-sampling of the display); sweeps once, in order, none left out, with all their rays in order; processor status and health once and in order, as the radar holds them; pulses on the scope with the samples of the pulse; controls and radars as they are listed. Products that an algorithm describes get an id of their own, and what it returns for a sweep is kept as the data of that product and sweep; with the client or the radar gone nothing of it is expected any more. Clients may send in pieces, read slowly, leave in the middle or have their radar removed, and the center stops in bounded time with all sockets, threads and memory returned.",
  ["inputs", "schedules", "histories"], "All commands and their orders, all combinations of streams, numbers, paces and ends of clients, radars, scans and moments at which a radar is removed.",
  "Operators and algorithms depend on it while a radar runs; the tests never connect a client, and what goes wrong depends on which streams run together and on when a client sends, reads or leaves.",
  ["source/RKCommandCenter.c", "source/RKServer.c", "source/RKSweepEngine.c", "source/RKRadar.c"], [("socketCommandHandler", "source/RKCommandCenter.c"), ("socketStreamHandler", "source/RKCommandCenter.c"), ("RKCommandCenterRemoveRadar", "source/RKCommandCenter.c"), ("RKStreamFromString", "source/RKFoundation.c"), ("RKSweepEngineDescribeProduct", "source/RKSweepEngine.c"), ("RKServerReceiveUserPayload", "source/RKServer.c")],
  "AddressSanitizer + UBSan run of a live radar and the real command center over loopback sockets; clients of four kinds check every packet online against the commands they sent and the buffers of the radar", "A ray or status overwritten before the client compares it is counted as late and not judged; slow clients may miss what the rings no longer hold; soft restarts of the radar under clients and relayed radars are not exercised here.")

P("K02", "A web socket delivers each payload and message whole, once and in order, answers pings, and connects anew after any end",
  "The address given to a web socket is taken apart into host, port, path and encryption as it is written. The opening request names that path and host and the arguments of RFC 6455; a connection is opened only when the answer accepts it, whatever the order, case, length and pieces of its lines, and a refusal, a cut or a silence leads to another attempt and to no callback. While a connection is open, each payload that is accepted goes out once, whole, in order and unchanged, in one masked frame with the header that its length calls for, from one byte to one below the limit; payloads accepted before a connection opens are not sent in it later than newer ones nor twice, and a payload that does not fit, or that finds the queue full, is refused. Every text or binary frame from the server, of any length below 1 MiB, masked or not, in pieces of any size or together with others, leads to one call of the message handler with exactly its bytes, terminated; each ping is answered by a pong with its payload, in order; a server that falls silent is pinged. A frame that is too long, a close frame, the end of the stream, or a reset ends the connection with one call of the close handler for each call of the open handler, and the next connection starts afresh. A stop comes back within seconds in any state, leaves the web socket closed and no descriptor or memory behind. All of this holds the same over TLS.",
  ["inputs", "histories", "schedules", "faults"], "All payload and message lengths, splits of the stream, answers to the handshake, and ends of a connection, plain and TLS, in any order over several connections.",
  "The web socket links a radar to its hub, through proxies that split, join and drop data; errors show for particular lengths, splits and ends, and there is no test.",
  ["source/RKWebSocket.c", "headers/RadarKit/RKWebSocket.h"], [("transporter", "source/RKWebSocket.c"), ("RKWebSocketConnect", "source/RKWebSocket.c"), ("RKWebSocketFrameEncode", "source/RKWebSocket.c"), ("RKWebSocketFrameDecode", "source/RKWebSocket.c"), ("RKWebSocketSend", "source/RKWebSocket.c"), ("RKGetHandshakeArgument", "source/RKWebSocket.c")],
  "AddressSanitizer + UBSan + LeakSanitizer run of the client against a server of our own over the loopback, plain or through a TLS end, that draws its handshake, frames, splits and ends at random and decodes what the client sends; the order, content and number of payloads, messages, pongs, pings and callbacks are compared on both sides", "The waits between attempts are shortened by a faster clock. Messages in several fragments are not supported by the client and not sent. A server that stops reading for good holds up the writing of the client.")
P("K03", "Each report of a device reaches the radar whole and in order, and each command to it gets its own response",
  "Every position that a pedestal sends reaches the radar once, whole and in the order sent, turned by the heading of the radar into [0, 360], with an elevation below -90 degrees unwrapped and its time and software flags cleared; a position that has not come whole is not used. Every scan action that a position calls for goes back whole, in order and only once, never in the middle of another message. Every health that a health relay sends becomes one health of the radar with exactly its text, up to the room for it, and each press of a button told in it leads to one task. The place, heading, speed and validity in a health of the GPS are those of the last sentences with a right checksum, to the precision told, and a damaged sentence makes it invalid; no sentence is read outside its bounds. Only reports under way when a connection ends may be lost, and only from its end; the next connection is greeted and used like the first. Each command reaches the device whole and once, whatever threads send them, and its caller gets the response to that very command, or is told in time that there is none, that it is too long, or that there is no connection. The health of the pedestal tells its last position, interlocks and scan. A device can be disconnected and freed at any time, after which nothing more comes from it and no thread, descriptor or memory is left.",
  ["inputs", "histories", "schedules", "faults"], "All reports, sentences, commands, headings, interleavings of commands, reports and actions, pieces of the stream and ends of a connection, and stops at any time.",
  "There is no test of these clients: they need a device, and errors show only when reports, commands and actions cross, or when a connection ends or a report is damaged.",
  ["source/RKPedestalPedzy.c", "source/RKHealthRelayTweeta.c", "source/RKHealthRelayNaveen.c", "source/ext/nmea.c", "source/RKClient.c"], [("pedestalPedzyRead, pedestalPedzySendAction", "source/RKPedestalPedzy.c"), ("RKPedestalPedzyExec", "source/RKPedestalPedzy.c"), ("healthRelayTweetaRead", "source/RKHealthRelayTweeta.c"), ("healthRelayNaveenRead", "source/RKHealthRelayNaveen.c"), ("nmea_parse_sentence", "source/ext/nmea.c")],
  "AddressSanitizer + UBSan + LeakSanitizer run of the clients in a radar against device servers of our own over the loopback that draw reports, pieces, ends and responses at random; what reaches the radar is compared online with what was sent, what reaches the device with what the radar and its callers sent, and each GPS health with a reference of the sentences so far", "The waits between attempts are shortened. The GPS never answers a command, so commands to it end in a timeout. A device that sends a response to a command that has timed out is not driven.")
P("K04", "The reporter sends its hub each item it is to send once, in order and as it is, and answers each message",
  "Each connection to a hub asks for the pathway of the radar and begins with its introduction, naming the radar, and then its whole control description. From then on, as long as the radar does not lap the reporter, every health, pulse and ray whose place in its buffer is a multiple of the stride of its kind goes out exactly once and in order, beginning with the ones that become ready after the connection; those of streams that were not asked for, and older ones, never do. A health goes out as its text, a pulse as the first 200 samples of both channels (with the marks that end them), and a ray as its angles and its first 200 reflectivities, all as they are in the radar and never mixed with another. Every message of the hub but its welcome and farewell is answered once, in order, with the message itself, up to the room for it. After the hub closes, resets or refuses a connection the reporter connects anew and introduces itself again. A reporter can be stopped at any time, connected or not, comes back within seconds, can be started again, and leaves no thread, descriptor or memory behind; without a host it does not run.",
  ["inputs", "histories", "schedules", "faults"], "All contents, gate counts, buffer depths, strides, choices of streams, messages, ends of a connection, and interleavings of the radar, the reporter and the web socket; stops at any time.",
  "There is no test of the reporter: it needs a hub, and what goes out depends on how the radar, the reporter and the web socket interleave.",
  ["source/RKReporter.c", "headers/RadarKit/RKReporter.h", "source/RKWebSocket.c"], [("reporter", "source/RKReporter.c"), ("handleOpen, handleMessage, handleClose", "source/RKReporter.c"), ("RKReporterStart, RKReporterStop, RKReporterFree", "source/RKReporter.c"), ("RKWebSocketSend", "source/RKWebSocket.c")],
  "AddressSanitizer + UBSan + LeakSanitizer run of the reporter of a radar whose buffers are being filled, against a hub of our own over the loopback that identifies every item from its content and checks order, stride, completeness and answers online", "The waits between attempts are shortened by a faster clock. The radar waits for a reporter that is about to be lapped; what a lapped reporter skips is not judged. Angles are compared as whole degrees, as they are sent.")
P("G01", "The clock gives even, ordered times close to the true ones, however late each tic arrives",
  "For every sequence of tics that come at a steady rate and arrive late by a varying amount (constant, uniform, in bursts, rarely), with gaps in the sequence, long pauses, resets, wisdom about the rate, an offset, or no usable counter at all, the times that RKClockGetTime gives never run backward, follow the counter evenly once the clock has seen its stride (the spread of the errors is far below the spread of the arrivals), stay within the arrival delays of the true times plus the offset, and return to the time of day after a pause or reset. The text of the time and the timeval agree with the number. Memory stays within the buffer of the clock for every size and stride it accepts; others are refused.",
  ["inputs", "histories", "configurations"], "All sizes, strides, rates, delays, gaps, pauses, resets, offsets and wisdoms.",
  "Every pulse and position is placed by these times, so an error smears azimuths and products; it builds up over thousands of tics and depends on the history of delays, of which the tests have none.",
  ["source/RKClock.c"], [("RKClockGetTime", "source/RKClock.c"), ("RKClockInitWithSize", "source/RKClock.c"), ("RKClockReset", "source/RKClock.c")],
  "AddressSanitizer + UBSan run of the clock on a simulated time of day; every time is compared online with the true time of its tic and with an exact reference of the regression", "The time of day is simulated, so that late arrivals are known exactly; times in the first stride are only held to bounds, not to evenness. A clock of low precision is held to 2e-4 s.")
P("T01", "Every log message is written once, whole, in order and where it belongs, and every value is shown as it is",
  "With any number of threads that log, each message is in the log exactly once, as one record with the time of day at which it was made, never mixed with another; those of one thread are in its order; a message longer than the limit is cut and marked within it; and the record is in the file chosen: the named one, the default one of the program, or the daily one of the date on its stamp, below the folder set, whatever its length; on the screen too when asked. Integers, floats, values of every type, times, angles, paths, file names and stream choices are turned to text, and back where there is a way back, as their definition says for every value, also when several threads do so at once, within the length of the string.",
  ["inputs", "schedules"], "All messages, lengths, folders, days, threads, values, types and paths.",
  "Operators find what went wrong from the log; mixed or lost lines depend on the interleaving, and the tests format a few fixed values in a single thread.",
  ["source/RKFoundation.c", "source/RKMisc.c"], [("RKLog", "source/RKFoundation.c"), ("RKSetRootDataFolder", "source/RKFoundation.c"), ("RKStringFromValue", "source/RKFoundation.c"), ("RKStreamFromString", "source/RKFoundation.c"), ("RKIntegerToCommaStyleString", "source/RKMisc.c"), ("RKPathStringByExpandingTilde", "source/RKMisc.c")],
  "AddressSanitizer + UBSan and ThreadSanitizer runs of threads that log on a simulated time of day, every record of every file attributed to its message; values against their definitions, in one and in several threads", "Texts returned from rings of static strings are checked as long as the ring holds them: the threads take turns between values.")
P("B01", "The rings of pulses and rays, the scratch spaces and the command queue keep each element apart and in turn",
  "For every capacity and depth that is accepted, the slots of a pulse or ray buffer and all data areas within them (raw, compressed and split samples of both channels; moments, byte and float products) are disjoint, aligned for the vector kernels and inside the bytes reported, so that what is written to one is read back from it and from nothing else; a capacity that cannot be aligned is refused. Vacant slots are handed out in ring order with identities that go on by the depth, and nothing but their status, time, position and identity changes. Clearing leaves the slots as new ones, a copy holds the samples of consecutive pulses also around the end of the ring, and split samples are those of all gates. All arrays of the scratch spaces hold their capacity and are accounted for. The command queue gives each command once, whole and in order, refuses or waits when it is full, and gives nothing or waits when it is empty.",
  ["inputs", "histories", "schedules"], "All capacities, depths, turns, gate counts, orders of pushes and pops, and interleavings of a producer and a consumer.",
  "All engines share these buffers, and an overlap or a stale area shows only for particular capacities or after the ring has turned; the tests use one capacity and print.",
  ["source/RKFoundation.c", "source/RKScratch.c", "headers/RadarKit/RKFoundation.h", "headers/RadarKit/RKTypes.h"], [("RKPulseBufferAlloc", "source/RKFoundation.c"), ("RKRayBufferAlloc", "source/RKFoundation.c"), ("RKGetVacantPulseFromBuffer", "source/RKFoundation.c"), ("RKMomentScratchAlloc", "source/RKScratch.c"), ("RKCommandQueuePush", "source/RKFoundation.c")],
  "AddressSanitizer + UBSan run over random capacities; every area of every slot is filled with its own pattern and all are checked after each operation; the queue with a producer and a consumer also under ThreadSanitizer", "One producer and one consumer, as the queue is meant for; a popped command is used until the next one is taken.")
