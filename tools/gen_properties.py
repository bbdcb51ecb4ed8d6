"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
from pathlib import Path

C = "shepherd_core/shepherd_core/"
D = "shepherd_data/shepherd_data/"
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    assert len(title) <= 80, (pid, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": hook}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})


prop("C01", "Recorded samples are read back complete, unchanged and in order",
     "Every sample appended to a recording (raw or in physical units, with a start time or with per-sample times) is read back once, at its position, however the appends were split and whichever block range, block size (given out in complete blocks), raw or physical mode and compression is used. "
     "Raw values are bit-exact, physical values are exactly the calibrated raw value and differ from what was appended by at most half a conversion step, and timestamps given as a start time advance by the sample interval. "
     "When a default-rate recording is closed only the incomplete last buffer is dropped, from all channels alike.",
     ["inputs", "histories"],
     "all sequences of append calls (lengths incl. 0, 1, just below/above a buffer, unequal channel lengths), values over the full 32-bit/64-bit range, compressions, calibrations, and all block ranges/sizes on reading",
     "The tests append one fixed random block and read it with default block size; splits, block sizes, extreme values and partial blocks are not reached.",
     [C + "writer.py", C + "reader.py", C + "data_models/base/calibration.py"],
     [("append & resize of the three datasets", "Writer.append_iv_data_raw/_si"), ("alignment on close", "Writer._align"),
      ("block reader", "Reader.read_buffers")],
     ["blocks yielded by read_buffers", "datasets of the HDF5 file opened independently"])

prop("C02", "Existing files are never lost, overwritten or altered without request",
     "Creating a recording at a path that already exists leaves the existing file byte-identical and stores under a new unused name, unless overwriting or modification was requested. "
     "Opening for modification keeps every stored sample (apart from an incomplete last buffer), group and attribute that the caller does not explicitly set, and new samples follow the stored ones. "
     "Opening, validating, analysing, exporting, plotting or reducing a recording never changes the bytes of the source file, and never overwrites an already existing output file, even one older or different from what would be produced now.",
     ["inputs", "histories"],
     "all histories of create / re-create / modify / read / export operations over a directory of recordings and foreign files",
     "Tests create a single file per test in a fresh directory; histories over several existing files and outputs are not explored.",
     [C + "writer.py", C + "reader.py", D + "reader.py", D + "cli.py"],
     [("unique file names", "writer.unique_path, Writer.__init__"), ("read-only open", "Reader.__init__"),
      ("skip existing outputs", "Reader.save_metadata/save_csv/save_log/waveform_to_csv/cut_and_downsample_to_file/plot_to_file")],
     ["bytes and mtime of all files in the directory before/after each operation", "file-open events (audit hook)"])

prop("C03", "A recording session that fails midway still leaves a usable file",
     "If the code that produces a recording raises at any point of the session, the exception reaches the caller unchanged, the file is closed, and it opens again as a valid recording. "
     "It then holds exactly the samples, metadata and calibration stored before the failure, with all channels equally long (apart from the incomplete last buffer). "
     "Rejected constructor arguments or unreadable sources never leave the previous content of an existing recording destroyed or changed.",
     ["crash_points", "histories", "fault_sequences"],
     "every point between two operations of a session and faults injected inside storage operations, followed by re-opening",
     "No test lets a session fail; crash points between appends and metadata writes are not reached.",
     [C + "writer.py", C + "reader.py"],
     [("context manager exit", "Writer.__exit__, Writer._align, Reader.__exit__"), ("validation before writing", "Writer.__init__")],
     ["re-opened file", "open file descriptors of the process", "raised exception"])

prop("C04", "Metadata, configuration and calibration survive storing in a recording",
     "Mode, data type, window length, compression, hostname, virtual-source/harvester configuration, calibration and free attributes stored with a recording are reported back with equal value by every reader of the file, survive re-opening for modification, and appear in the extracted metadata file. "
     "The voltage step of a curve recording is reported as stored, or else as the one found in the curves themselves. "
     "Combinations a mode does not support are rejected when written and reported as invalid when read.",
     ["inputs", "configurations"],
     "all supported and unsupported mode / data type / window combinations, nested configurations (incl. complete source configs), host names, attributes and calibrations with in-range values",
     "Tests check a handful of fixed values, never the stored configuration through the reader.",
     [C + "writer.py", C + "reader.py"],
     [("attributes", "Writer.__init__/store_config/store_hostname/__setitem__"), ("getters", "Reader.get_*"), ("metadata dump", "Reader.get_metadata/save_metadata")],
     ["return values of the reader", "YAML metadata file"])

prop("C05", "The validity and time checks accept sound files and flag damaged ones",
     "A recording produced by the library is judged valid, and one that lacks a mandatory group, channel, attribute or supported mode/type/window combination is judged invalid whatever else it contains. "
     "The time check confirms gap-free recordings at the default rate and reports every file in which the time between two neighbouring buffers deviates by 5 % of a buffer or more, wherever in the file the jump lies. "
     "Logged errors are counted exactly for the requested group and level, and the summary of a log prints the first of them, up to the given limit.",
     ["inputs", "fault_sequences"],
     "all single and combined structural faults injected in valid files, jumps at every buffer position (also where analysis is split in blocks), and log contents",
     "Tests only use intact files; the fault classes and jump positions are never exercised.",
     [C + "reader.py"],
     [("validity", "Reader.is_valid"), ("time check", "Reader.check_timediffs/_data_timediffs"), ("error count", "Reader.count_errors_in_log")],
     ["verdicts of is_valid/check_timediffs/count_errors_in_log"])

prop("C06", "Energy, runtime and statistics match the recorded samples",
     "The reported energy of a recording is the sum of voltage times current over all samples times the sample interval, its runtime and rate follow from the sample times, and reported minimum and maximum (and for unsplit data mean and deviation) are those of the calibrated samples. "
     "None of these figures depends on the internal block length the analysis uses, and energies of consecutive parts add up to the whole.",
     ["inputs", "configurations"],
     "all recordings (values, lengths, sample rates, calibrations) and all internal block lengths",
     "Tests compare nothing, or one value, and never with split analysis.",
     [C + "reader.py"],
     [("energy", "Reader.energy"), ("statistics", "Reader._dset_statistics"), ("stats refresh", "Reader._refresh_file_stats")],
     ["return values", "metadata"])

prop("C07", "Text exports reproduce the recorded data and logs faithfully",
     "An exported table has a header, one row per stored entry in order, and every value equals the calibrated stored value to float precision, with timestamps as stored times; the chosen separator is used throughout. "
     "Exported logs contain every message once, in order, with its time and all further columns, and an unreadable message does not cost the others. "
     "Exports work for any group content (empty, one- and two-dimensional, missing calibration attributes) and report the number of entries written.",
     ["inputs"],
     "all group contents: lengths incl. 0 and 1, dimensions, integer/float/string columns, unicode messages, with and without gain/offset, separators",
     "Tests only check that an export file is created.",
     [D + "reader.py", C + "reader.py"],
     [("csv", "shepherd_data.Reader.save_csv"), ("log", "shepherd_data.Reader.save_log/warn_logs"), ("waveform csv", "Reader.waveform_to_csv")],
     ["parsed export files"])

prop("C08", "Cutting and down-sampling keep the requested time span and signal",
     "A cut recording contains exactly the samples of the requested time span (at the default rate without an incomplete last buffer) with their original timestamps, and keeps mode, data type, window length, calibration, hostname and configuration of the source. "
     "Reducing by a factor yields one sample per factor, on a uniform time grid starting at the first sample of the span, follows the low-passed source signal (constants stay constant, energy of slow signals is preserved), and does not depend on internal block lengths. "
     "Impossible spans are rejected without leaving files behind.",
     ["inputs", "configurations"],
     "all spans, reduction factors, sample rates, internal block lengths and signal shapes; harvester and emulator recordings",
     "Tests only check that an output file exists for a few factors on one constant file.",
     [D + "reader.py"],
     [('downsample', 'shepherd_data.Reader.downsample'), ('cut', 'shepherd_data.Reader.cut_and_downsample_to_file')],
     ["output file opened independently"])

prop("C09", "GPIO traces convert to waveforms without losing or inventing edges",
     "For every recorded pin the extracted waveform starts with the initial state, contains every state change of that pin with its exact timestamp and new state, in order, and nothing else, so that replaying it reproduces the pin at every recorded instant. "
     "Pins do not influence each other, and querying a pin by its name, or by an unambiguous part of it, resolves the documented pin number.",
     ["inputs"],
     "all event streams over up to 16+ pins, incl. empty and single-entry streams, repeated states, simultaneous changes and any pin naming",
     "Tests use one fixed file with a trivial pattern.",
     [C + "reader.py"],
     [("waveforms", "Reader.gpio_to_waveforms/get_filter_for_redundant_states/get_gpio_pin_num")],
     ["return value of gpio_to_waveforms", "waveform csv"])

prop("C10", "UART decoding of a sampled line returns exactly the transmitted text",
     "For a line transmitting 8N1 characters (or frames of another data length given to the decoder) at any usual or odd baud rate, with idle pauses of any length, either polarity and edge jitter that is small against a bit, the decoder recovers every character with the value sent and with the time of its start bit, and lines/text are the exact concatenation of the characters. "
     "Decoding never modifies the caller's waveform, is independent of the time origin, and rejects malformed waveforms.",
     ["inputs"],
     "all byte strings (full byte range), baud rates, idle gaps, polarity, time origins incl. epoch times, jitter below the sampling tolerance",
     "Tests decode two recorded files; only a fraction of the alphabet, one baud rate and one polarity are reached.",
     [C + "decoder_waveform/uart.py", C + "reader.py"],
     [("decoder", "decoder_waveform.Uart"), ("gpio to uart", "Reader.gpio_to_uart")],
     ["symbols, lines and text returned by the decoder"])

prop("C11", "Calibration converts consistently and survives its storage formats",
     "Converting physical values to raw and back returns the value to within half a raw step (negative raw values clip to zero), raw to physical and back is the identity, and conversion is monotone and does not modify its input, for scalars and arrays alike. "
     "Any calibration written as EEPROM bytes or as a file and loaded again is equal, foreign data is rejected. "
     "Exported driver settings represent the calibration to fixed-point resolution, and values that do not fit are rejected rather than wrapped.",
     ["inputs"],
     "all gains/offsets in and beyond the representable range, scalar and array inputs, complete capes for harvester and emulator",
     "Tests round-trip the default calibration only.",
     [C + "data_models/base/calibration.py", C + "data_models/base/cal_measurement.py"],
     [("pair", "CalibrationPair"), ("eeprom", "CalibrationCape.to_bytestr/from_bytestr"), ("driver export", "export_for_sysfs")],
     ["return values"])

prop("C12", "Measured calibration and converter formulas invert the hardware transfer",
     "The conversion formulas between volts/amperes and converter counts are mutually inverse to within one count inside the range, monotone, and limited to the counts the hardware has. "
     "A calibration computed from measured pairs reproduces the line through those pairs (so the exact gain and offset for consistent data, independent of the order of the pairs), and data that cannot define a calibration is rejected.",
     ["inputs"],
     "all values in and beyond the converter range, all sets of measurement pairs incl. reordered, noisy, degenerate ones",
     "Tests probe few points and one measurement file.",
     [C + "calibration_hw_def.py", C + "data_models/base/cal_measurement.py"],
     [("hardware formulas", "calibration_hw_def"), ("fit", "CalMeasurementCape.to_cal, CalMeasPairs.to_cal")],
     ["return values"])

prop("C13", "The virtual converter obeys its energy and threshold rules at every step",
     "For every converter configuration and input sequence, each step follows the documented model: charge entering and leaving the storage capacitor accounts for every change of its voltage, which never leaves zero to its maximum, and no energy appears from nowhere. "
     "The output turns on and off only by the enable/disable thresholds and their check interval, the output voltage is zero while off and at its configured (or pass-through) level while on, and the power-good signal follows its own hysteresis.",
     ["inputs", "histories", "configurations"],
     "all step histories (input voltage/current, drawn current) and configurations: direct, diode, boost, buck, boost-buck, thresholds, efficiencies, leakage, delayed checks",
     "Tests run fixed short sequences on preset sources with range assertions; long histories with adversarial loads and random configurations are not reached.",
     [C + "vsource/virtual_converter_model.py", C + "data_models/content/virtual_source.py"],
     [("steps", "VirtualConverterModel.calc_inp_power/calc_out_power/update_cap_storage/update_states_and_output")],
     ["return values and exposed state after each step"])

prop("C14", "Virtual harvesters only deliver points of the offered characteristic",
     "For every harvester algorithm and every input trace, the operating point handed out corresponds to the recorded characteristic: the set-point or measured open-circuit voltage the algorithm acts on stays in the configured limits, current is never negative, and power never exceeds what the source offered in the observed window. "
     "The optimal tracker reaches the maximum of each window, constant-voltage and open-circuit trackers follow their rules, and recorded samples pass unchanged where the configuration says so.",
     ["inputs", "histories", "configurations"],
     "all harvester presets and derived configurations fed with arbitrary curve traces (ramps, reversed, irregular, noisy, dark)",
     "Tests feed a few synthetic curves to the presets and check nothing or ranges.",
     [C + "vsource/virtual_harvester_model.py", C + "data_models/content/virtual_harvester.py"],
     [("algorithms", "VirtualHarvesterModel.ivcurve_sample & sub-algorithms")],
     ["return values of each sample call"])

prop("C15", "Simulated sources account for energy and keep recordings consistent",
     "Simulating a harvester or a complete source over a recording yields one output sample per input sample of all complete buffers, at the input's time, and reports exactly the energy that the produced samples contain. "
     "For sources with a storage capacitor delivered energy never exceeds the harvested energy plus what the storage held at the start, and no result depends on how the input is split in buffers or on whether internals are monitored.",
     ["inputs", "histories", "configurations"],
     "all source/harvester presets, targets and input recordings (samples and curves)",
     "Tests only check that simulation finishes and some energy is produced.",
     [C + "vsource/virtual_source_model.py", C + "vsource/virtual_source_simulation.py", C + "vsource/virtual_harvester_simulation.py"],
     [("source model", "VirtualSourceModel.iterate_sampling"), ("file simulation", "simulate_source, simulate_harvester")],
     ["output recording", "returned energies", "model state"])

prop("C16", "Emulator register sets represent the requested source faithfully",
     "Every accepted virtual source and harvester configuration can be turned into the integer register set of the emulator, each register within its container and representing the configured physical value to register resolution (voltages, currents, capacities, efficiencies, intervals, mode flags). "
     "Configurations whose limits contradict each other (where the model defines that as an error) or whose values cannot be represented are rejected with an error instead of being silently wrapped.",
     ["inputs", "configurations"],
     "all configurations derivable from the fixtures with any overridden parameter, extreme and boundary values, both operating modes and data types",
     "Tests export a few presets; parameter space and register limits are not reached.",
     [C + "data_models/content/virtual_source.py", C + "data_models/content/virtual_harvester.py"],
     [("registers", "ConverterPRUConfig.from_vsrc, HarvesterPRUConfig.from_vhrv"), ("model validators", "VirtualSourceConfig.post_validation, VirtualHarvesterConfig")],
     ["register model", "validation errors"])

prop("C17", "Target load models draw physically plausible current",
     "For any supply voltage (including zero) and power-good history, a modelled target draws a finite, non-negative current that follows its law (constant current, power or resistance; diode for LEDs), and only its sleep/leakage current while not powered. "
     "The models never raise during a simulation and do not carry state between independent instances.",
     ["inputs", "histories"],
     "all target types with any parameters, sequences of supply voltages and power-good states",
     "Tests step the targets with a few voltages.",
     [C + "vsource/target_model.py"],
     [("targets", "ResistiveTarget, ConstantCurrentTarget, ConstantPowerTarget, DiodeTarget")],
     ["return values of step"])

prop("C18", "Every data model survives export and import unchanged and is immutable",
     "Any accepted model written completely to a file or exported as dictionary and loaded again is an equal object with equal content hash, the minimal file keeps every value that was given, and loading a file of another model type is rejected. "
     "Fields of accepted models cannot be reassigned, invalid or unknown fields are rejected, different content gives a different hash, and time spans and timestamps keep their value.",
     ["inputs", "configurations"],
     "all model types with randomly generated accepted content incl. optional, nested, list, path, time and byte fields",
     "Tests round-trip few models with default content.",
     [C + "data_models/base/shepherd.py", C + "data_models/base/content.py", C + "data_models/base/wrapper.py", C + "data_models/"],
     [("yaml", "ShpModel.to_file/from_file"), ("immutability", "ShpModel.model_config"), ("hash", "ShpModel.get_hash")],
     ["reloaded object", "YAML file"])

prop("C19", "Fixture lookup and inheritance resolve correctly and without side effects",
     "Looking up a fixture by name or id returns exactly the stored record, names and ids of the shipped fixtures are unambiguous, and unknown ones raise an error. "
     "Inheriting from a fixture overrides exactly the given fields and keeps all others of the whole ancestor chain, reports that chain, and rejects unknown or circular ancestry; lookups and inheritance never change the database, so results do not depend on earlier queries.",
     ["inputs", "histories", "configurations"],
     "all histories of queries over the shipped fixtures and over generated inheritance graphs (chains, cycles, unknown parents)",
     "Tests query few fixtures once each.",
     [C + "testbed_client/fixtures.py", C + "testbed_client/client_abc_fix.py"],
     [("lookup", "Fixture.__getitem__/query_id/query_name"), ("inheritance", "Fixture.inheritance"), ("client", "FixtureClient")],
     ["returned records", "state of the database before/after"])

prop("C20", "Only executable experiments are accepted",
     "An experiment is accepted only if it can run on the testbed: every requested target exists, is used once, sits on an observer slot, has distinct custom ids, fits its firmware's microcontrollers and has a usable source, and times, durations and options are consistent. "
     "Everything else is rejected with an error when the experiment is built, and no experiment that meets the rules is rejected. "
     "Testbed descriptions that use an observer, cape, target or address twice are rejected as well.",
     ["inputs", "configurations"],
     "all experiments generated from valid ones by single and combined faults (duplicate targets, overlapping custom ids, missing targets, wrong firmware type/MCU, missing second firmware, negative times, several sources)",
     "Tests cover one or two instances of some rules; combinations over all targets/observers are not reached.",
     [C + "data_models/experiment/experiment.py", C + "data_models/experiment/target_config.py", C + "data_models/testbed/testbed.py"],
     [("validators", "Experiment.post_validation, TargetConfig.post_validation, Testbed.post_validation")],
     ["acceptance / validation error"])

prop("C21", "Experiments translate to tasks that execute exactly what was requested",
     "For every accepted experiment that starts in the future or as soon as possible and asks for no pin actuation (others are refused), the generated tasks contain one task set per requested target, addressed to the observer and port that hosts it, programming its firmware with its custom id and emulating with the requested source, times, duration, tracing and logging options. "
     "Nothing is lost, duplicated or assigned to another node (a second firmware is skipped only where the target has no second microcontroller), and each observer extracts exactly its own tasks from the wrapped set. "
     "Storage paths differ between observers and between experiments that differ in name or in their start second.",
     ["inputs", "configurations"],
     "all accepted experiments over the testbed's targets and observers, with mixed per-target configurations, and all observers extracting",
     "Tests translate two fixed experiments and check only that it succeeds.",
     [C + "data_models/task/testbed_tasks.py", C + "data_models/task/observer_tasks.py", C + "data_models/task/__init__.py", C + "data_models/task/emulation.py", C + "data_models/task/firmware_mod.py", C + "data_models/task/programming.py", C + "data_models/testbed/testbed.py"],
     [("mapping", "TestbedTasks.from_xp, ObserverTasks.from_xp"), ("extraction", "prepare_task, extract_tasks, get_observer_tasks")],
     ["generated task models", "extracted tasks"])

prop("C22", "Embedded firmware is delivered bit-exact or refused",
     "A firmware embedded in an experiment and extracted again yields the identical file content with the suffix of its type, and its hash identifies that content. "
     "Embedded data that is corrupted, truncated or does not match its stored hash, wrong file types and missing files are reported as errors (or a failed hash comparison) and never delivered, and source files are never changed.",
     ["inputs", "fault_sequences"],
     "all file contents and sizes, elf and hex, embedded/absolute-path variants, and corruptions of the embedded text or hash",
     "Tests embed and extract two sample files.",
     [C + "data_models/content/firmware.py", C + "fw_tools/converter.py", C + "fw_tools/validation.py"],
     [('embed', 'Firmware.from_firmware, fw_tools.file_to_base64'), ('extract', 'Firmware.extract_firmware, fw_tools.base64_to_file/extract_firmware'), ('hash', 'fw_tools.file_to_hash/base64_to_hash, Firmware.compare_hash')],
     ["extracted file bytes", "errors"])

prop("C23", "Firmware patching changes only the node id and conversion keeps the image",
     "Setting an identifier in a program file changes exactly the bytes of that symbol to the given value, leaves the rest of the file untouched and is read back equal; impossible requests (unknown symbol, value out of range, symbol not stored in the file, not a program file) change nothing. "
     "Converting a program to a hex image keeps every loadable byte at its address. "
     "Type and architecture detection classify every file by its content, and arbitrary or damaged files give a negative answer or a plain value error, nothing else.",
     ["inputs"],
     "all identifier values, symbol widths, generated and mutated program/hex files of both architectures, arbitrary byte files",
     "Tests patch two sample files with few values.",
     [C + "fw_tools/patcher.py", C + "fw_tools/converter_elf.py", C + "fw_tools/converter.py", C + "fw_tools/validation.py"],
     [("patch", "modify_symbol_value, modify_uid, find_symbol, read_symbol"), ("convert", "elf_to_hex, firmware_to_hex"), ("detect", "is_elf/is_hex/determine_type/determine_arch")],
     ["file bytes, symbol values, hex image", "detected types"])

prop("C24", "Scheduled events and times are exact and consistent",
     "A scheduled pin event expands to exactly the requested number of instants, starting at its delay and spaced by its period, and tracing/actuation settings are accepted exactly if they are executable. "
     "Times without zone information are taken in the local zone that is in effect at that date, and dates produced for records are the current local date.",
     ["inputs", "configurations"],
     "all delays, periods and counts incl. non-representable fractions, all pins and capabilities, and local zones with and without daylight saving in any season",
     "Tests use few integer periods and the zone of the build machine.",
     [C + "data_models/experiment/observer_features.py", C + "data_models/base/timezone.py", C + "data_models/testbed/gpio.py"],
     [("events", "GpioEvent.get_events"), ("zones", "timezone.local_tz/local_now/local_iso_date")],
     ["returned instants", "timestamps"])

prop("C25", "Imported solar traces become physically faithful recordings",
     "Importing a recorded solar trace produces curves, tracked samples or short-circuit/open-voltage pairs that follow the single-diode characteristic of each source entry (smoothly interpolated between entries), in the requested duration and rate, with voltages and currents non-negative and, at each entry, within the source's open-circuit voltage and short-circuit current. "
     "Trackers never deliver more than the optimal tracker, which never exceeds the maximum of the curve, and impossible imports are rejected.",
     ["inputs", "configurations"],
     "all trace parameters, panel cell counts, durations, rates, algorithms and tracker intervals",
     "Tests convert one trace with few settings and check only existence.",
     [D + "ivonne.py", D + "mppt.py"],
     [("conversion", "ivonne.Reader.convert_2_ivcurves/convert_2_ivsamples/convert_2_isc_voc"), ("trackers", "mppt")],
     ["output recording", "tracker return values"])

prop("C26", "Command line batches treat every file and report failures",
     "Each command handles every given recording exactly as if it were given alone: results for one file do not depend on other files of the batch, and unreadable, damaged or foreign files neither stop the batch nor change the treatment of the rest. "
     "The validation command succeeds if and only if every given recording is readable, passes the validity check and has equal time steps, and command outputs equal those of the library calls.",
     ["inputs", "fault_sequences"],
     "all batches (orders, directories, duplicates) mixing sound, invalid, corrupted, empty and foreign files, for all commands",
     "Tests call each command once on one good file.",
     [D + "cli.py"],
     [("batch loop", "cli.path_to_flist, commands"), ("exit code", "cli.validate")],
     ["exit codes", "output files per input"])

prop("C27", "The web client transfers content faithfully and never pretends success",
     "A model inserted into the testbed server arrives there complete, so that an identical model can be rebuilt from the request, the session presents exactly the given token (text or file content, without line break) to exactly the given or the public server, and missing owner and group of content are filled with those of the logged-in user without touching given values. "
     "Success is reported only if the server accepted the data; rejections, garbage answers, timeouts, missing token files and operations that are not supported end in an error. "
     "Without a server connection lookups and inheritance keep working on the local fixtures.",
     ["inputs", "histories", "fault_sequences"],
     "all sequences of connect/insert/query calls against a server that answers normally, with errors, rejections or not at all",
     "Tests never contact a server.",
     [C + "testbed_client/client_web.py", C + "testbed_client/client_abc_fix.py", C + "testbed_client/user_model.py"],
     [('client', 'WebClient.insert/connect/_authenticate/try_completing_model'), ('user data', 'AbcClient.fill_in_user_data')],
     ["requests recorded by a loopback server", "return values"])

prop("C28", "Inventories record the system truthfully and flag every deviation",
     "A collected inventory contains the facts of the host at collection time, can be stored and reloaded as equal object, and merging inventories of several hosts keeps every host, with one line per host in the exported table. "
     "The consistency report warns, naming the hosts, for every tracked software version that differs among the hosts that report it, for hosts running longer than 30 hours and for collections more than 10 seconds after the earliest, and stays silent otherwise, for any mix of hosts including partially collected ones.",
     ["inputs", "configurations"],
     "all sets of inventories differing in any subset of versions, platform, or timestamps, with missing values",
     "Tests collect the inventory of one host only.",
     [C + "inventory/__init__.py", C + "inventory/system.py", C + "inventory/python.py", C + "inventory/target.py"],
     [("collect", "Inventory.collect, SystemInventory.collect, PythonInventory.collect"), ("report", "InventoryList.warn/to_csv")],
     ["collected models", "emitted warnings"])

prop("C29", "Plots show the recorded signal of the requested span at the right time",
     "Plot data and plotted curves contain the samples of the requested time span (by default of the whole recording), every point at the time of its recorded sample relative to the start of the recording, "
     "with calibrated voltage and current and their product as power, in the units the axes name. "
     "Long spans are thinned uniformly to about the allowed number of points and still follow the signal. "
     "A combined plot shows every given recording under its name, spans with too few samples give no plot.",
     ["inputs", "configurations"],
     "all recordings (rates, lengths, calibrations, clock origins), spans inside, outside and across the limits, point limits, single and combined plots, power only or all diagrams",
     "Tests only check that plotting does not fail for one file with default arguments.",
     [D + "reader.py", D + "cli.py"],
     [("plot data", "shepherd_data.Reader.generate_plot_data"), ("figures", "shepherd_data.Reader.assemble_plot/plot_to_file/multiplot_to_file")],
     ["returned plot data", "curves of saved figures"])

prop("C30", "User accounts keep their secrets and public content is described",
     "A new account gets a fresh, unguessable token of its own unless one is given; given tokens, password hashes and all other fields are kept unchanged, the given data is not altered, and an account is inactive unless requested otherwise. "
     "Neither token nor password hash ever appears in the printed, logged, hashed or dumped (JSON) form of an account, while an account rebuilt from its own fields is equal to it. "
     "Password hashes are reproducible, differ for different passwords, don't reveal them and cost about a million rounds; unusable passwords, names, groups and mail addresses are rejected. "
     "Content that is visible to a group or everyone needs a description and content always has an owner and group.",
     ["inputs", "configurations"],
     "all accounts and the secrets in them, all orders of creation and processes, passwords of any length and alphabet, all content models with any visibility",
     "No test creates accounts or compares tokens; leaks and repetitions only show over many accounts and outputs.",
     [C + "testbed_client/user_model.py", C + "data_models/base/content.py"],
     [("accounts", "shepherd_core.testbed_client.user_model.User"), ("passwords", "shepherd_core.testbed_client.user_model.hash_password"), ("content", "shepherd_core.data_models.base.content.ContentModel")],
     ["fields and textual forms of accounts", "hashes and their cost", "acceptance of content"])

out = Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P), "properties")
