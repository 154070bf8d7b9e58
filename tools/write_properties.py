"""Regenerates /verif/properties.jsonl (the source of truth for the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                          "observe_at": list(observe), "hook_needed": None}})


prop("P01", "Pulse files read while being written show exactly the complete records",
     "However many bytes of an LJH 2.1 or 2.2 file have reached the disk when it is opened, opening either fails (header "
     "incomplete, or the operating system refuses) or presents exactly the complete records: their number, raw samples "
     "(bitwise inverted on request), subframe counts, timestamps and header values equal what was written. An object opened "
     "earlier keeps presenting its own records unchanged while the file grows. Dividing the file into segments of any size "
     "covers every complete record exactly once.",
     ["schedules", "crash_points", "inputs", "fault_sequences"],
     "every header variant, every interleaving of byte-granular appends with opens and reads, every cut-off point, open() failures",
     "tests open a handful of finished files and one ragged file; cut-off points, growing files and header variants are not varied",
     ["mass/core/files.py", "mass/core/channel.py"],
     [("record count from file size, torn tail ignored", "mass/core/files.py LJHFile._parse_header"),
      ("record layout and timestamps", "mass/core/files.py LJHFile2_1, LJHFile2_2"),
      ("segments", "mass/core/files.py LJHFile.set_segment_size")],
     [("binary_size/nPulses", "complete records at open", "LJHFile")],
     ["LJHFile.open, alldata, subframecount, datatimes_raw", "PulseRecords", "NoiseRecords"])

prop("P02", "A refreshed OFF file equals the same file freshly opened",
     "At every point of a history in which an acquisition program appends to an OFF file in arbitrary pieces, an OffFile presents "
     "exactly the complete records on disk when it was last opened or refreshed, with the values, model matrices, sample times and "
     "modelled pulses that were encoded, for every supported format version and number of basis elements. "
     "Records presented earlier never change, and a torn or missing header is refused.",
     ["schedules", "crash_points", "inputs", "fault_sequences"],
     "every format version and basis size, every interleaving of byte-granular appends with opens, refreshes and reads",
     "one test refreshes one file once, with the growth faked through a test-only argument; torn records, empty files and failures are not tried",
     ["mass/off/off.py"],
     [("header parse and record dtype", "mass/off/off.py readJsonString, recordDtype"),
      ("memory map refreshed from file size", "mass/off/off.py OffFile._updateMmap"),
      ("model matrices", "mass/off/off.py OffFile._decodeModelInfo")],
     [("nRecords/_mmap", "complete records at last refresh", "OffFile")],
     ["OffFile[i], len, projectors, basis, modeledPulse, recordXY, sampleTimes"])

prop("P03", "Every record belongs to the experiment state that was active at its time",
     "For every history of experiment-state labels (unique, repeated, excluded or aliased) and record timestamps, each record is "
     "attributed to the label most recently begun at or before its time, and to none if that label is excluded; aliased labels are merged. "
     "However the history is cut into refreshes, the attribution after the last refresh equals that of loading the finished files at once.",
     ["schedules", "histories", "inputs"],
     "every label sequence with repeats, excludes and aliases, every record time (including ties and gaps), every partition into refreshes",
     "tests refresh two fixed histories; an excluded or repeated label being active across a refresh is not tried",
     ["mass/off/experiment_state.py", "mass/off/channels.py", "mass/core/channel.py"],
     [("incremental state slices", "mass/off/experiment_state.py ExperimentStateFile.calcStatesDict"),
      ("refresh bookkeeping", "mass/off/channels.py Channel.refreshFromFiles, ChannelGroup.refreshFromFiles"),
      ("states as a categorical cut", "mass/core/channel.py MicrocalDataSet.summarize_data")],
     [("statesDict", "label -> slice or list of slices", "Channel")],
     ["ExperimentStateFile.calcStatesDict", "Channel.statesDict", "TESGroup good(state=...)"])

prop("P04", "State-file lines are taken in exactly once, whole, however they arrive",
     "Whatever number of bytes of the experiment-state file is on disk at each parse, the labels and start times known afterwards are exactly "
     "those of the complete lines, in order, each once, with nanosecond-exact times. A partly written last line is neither misread nor lost: "
     "it appears once it is complete. A parse that fails leaves the previous knowledge intact, and a later parse succeeds.",
     ["schedules", "crash_points", "fault_sequences"],
     "every cut-off point of the state file at every parse, with failing reads in between",
     "tests parse finished files only",
     ["mass/off/experiment_state.py"],
     [("incremental parse from a saved offset", "mass/off/experiment_state.py ExperimentStateFile.parse")],
     [("parse_start", "file offset of the first byte not yet taken in", "ExperimentStateFile")],
     ["ExperimentStateFile.allLabels, unixnanos, labels"])

prop("P05", "A live OFF channel group equals a fresh one after any refresh history",
     "After any interleaving of acquisition writes (several channels and the state file, torn anywhere) with refreshes, added recipes and "
     "cuts, and channels marked bad or good, a refreshed channel group presents for every channel the same record count, state slices, state "
     "labels, recipe values and cut results as a group freshly opened on the same files with the same definitions. "
     "Each refresh reports exactly the number of new labels and new records it took in.",
     ["schedules", "histories", "fault_sequences"],
     "every interleaving of DAQ appends, including between the steps of one refresh, with refreshes, recipe/cut definitions and bad marking",
     "one test does one refresh of two channels with faked growth and no torn data",
     ["mass/off/channels.py", "mass/off/off.py", "mass/off/experiment_state.py"],
     [("group refresh", "mass/off/channels.py ChannelGroup.refreshFromFiles"),
      ("per-channel refresh", "mass/off/channels.py Channel.refreshFromFiles"),
      ("indexed access", "mass/off/channels.py Channel.getAttr, OffFile indexing with cuts")],
     [("nRecords, statesDict, defaultCutRecipeName", "what a channel presents", "Channel")],
     ["ChannelGroup.refreshFromFiles", "Channel.getAttr"])

prop("P06", "Each pulse gets its true nearest external triggers",
     "For every pair of ordered pulse and external-trigger time series, every pulse's subframes since the last trigger, until the next and "
     "from the nearest are exact, with a documented 'none' value when there is no such trigger, whether there are zero, one or many triggers or pulses. "
     "A trigger file cut short in mid-entry yields exactly its complete entries.",
     ["inputs", "crash_points", "histories"],
     "every interleaving of the two time series including ties, empty and single-element ones; every cut-off point of the trigger file",
     "tests compare one recorded file with a stored result",
     ["mass/core/analysis_algorithms.pyx", "mass/core/channel_group.py", "mass/off/channels.py"],
     [("merge scan", "mass/core/analysis_algorithms.pyx nearest_arrivals"),
      ("trigger file reader and storage", "mass/core/channel_group.py TESGroup.calc_external_trigger_timing")],
     [("subframes_after_last_external_trigger ...", "per-pulse results in the HDF5 file", "MicrocalDataSet")],
     ["nearest_arrivals", "TESGroup.calc_external_trigger_timing", "ChannelGroup.calcExternalTriggerTiming"])

prop("P07", "LJH copy, append, truncate and merge tools never lose or invent data",
     "For every source, destination and argument, the LJH rewriting tools either produce a file that reads back as exactly the requested records "
     "with their times and header facts, or raise; they never modify a source file nor an existing destination they were not told to overwrite. "
     "When the disk fills, a write is torn or an open fails part-way, the error is reported, what was written is a prefix of the requested "
     "result, and repeating the call after the fault clears gives the complete result.",
     ["inputs", "fault_sequences", "crash_points", "histories"],
     "every sequence of tool calls over LJH 2.1/2.2 files with torn tails, with the disk filling at every byte and open() failing at every call",
     "tests run each tool once on good files and a good disk",
     ["mass/core/ljh_modify.py", "bin/ljh_truncate", "bin/ljh_merge", "mass/core/ljh_util.py"],
     [("copy/append", "mass/core/ljh_modify.py ljh_copy_traces, ljh_append_traces"),
      ("truncate", "mass/core/ljh_modify.py ljh_truncate"),
      ("merge", "mass/core/ljh_util.py ljh_merge"),
      ("in-place transformation", "mass/core/ljh_modify.py LJHModify")],
     [],
     ["the files produced"])

prop("P08", "Converting LJH to OFF is complete, ordered, exact and never silently short",
     "For every pulse file, projector set and chunk size, the converted OFF file holds exactly one record per complete input record, in order, with its "
     "frame count, timestamp, model coefficients, pretrigger mean and residual equal to the linear-algebra definition, and the input "
     "file is untouched. If a read, a write or the disk fails the error is raised, and converting again gives a file identical to an undisturbed one.",
     ["inputs", "configurations", "fault_sequences", "crash_points"],
     "every chunk size, record count (zero included), torn input tail, file list and output collision, with disk and open faults",
     "one test converts one file with one chunk size and compares a few numbers",
     ["mass/core/ljh2off.py", "mass/core/pulse_model.py", "mass/core/projectors_script.py"],
     [("segment loop", "mass/core/ljh2off.py ljh_records_to_off"),
      ("file pairing and overwrite", "mass/core/ljh2off.py multi_ljh2off_loop, ljh2off"),
      ("projector files", "mass/core/pulse_model.py PulseModel.toHDF5/fromHDF5")],
     [],
     ["the OFF file produced", "OffFile"])

prop("P09", "Closing and reopening an analysis anywhere changes none of its results",
     "For every sequence of analysis steps and every set of points at which the program is ended and the data reopened with their cached "
     "results (also read-only from the cache file alone), the stored per-pulse values, average pulses, noise, filters, calibrations, corrections, cuts and bad-channel "
     "marks equal those of the same sequence run without interruption, and the steps that follow compute the same results.",
     ["histories", "schedules", "configurations"],
     "every ordering of analysis steps with restarts inserted anywhere, for arrival-time-safe and 5-lag filters, with and without noise files and states",
     "tests reopen a few finished analyses and look at single values",
     ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/cut.py", "mass/core/channel_group_hdf5_only.py"],
     [("per-pulse datasets", "mass/core/channel.py MicrocalDataSet.__setup_vectors"),
      ("reloading filters, calibrations, cuts, corrections", "mass/core/channel.py MicrocalDataSet.__load_*"),
      ("group state", "mass/core/channel_group.py CutFieldMixin, TESGroup.__init__")],
     [("the *_mass.hdf5 file", "durable state of an analysis", "TESGroup.hdf5_file")],
     ["TESGroup, MicrocalDataSet attributes, TESGroupHDF5"])

prop("P10", "An interrupted analysis step redone gives the undisturbed result",
     "If an analysis step is stopped at any point - by Ctrl-C, an exception, or a failing write to the cache file - and the step is then repeated, in the same "
     "session or after reopening the data, every result equals that of an undisturbed run. "
     "No step treats a partial result left in the cache as finished, and the cache can always be reopened.",
     ["crash_points", "fault_sequences", "histories"],
     "every analysis step interrupted at every library source line and at every HDF5 mutation, continued in-session or after reopening, repeatedly",
     "no test interrupts a step",
     ["mass/core/channel.py", "mass/core/channel_group.py", "mass/core/cut.py", "mass/core/phase_correct.py", "mass/calibration/energy_calibration.py"],
     [("already-done tests", "mass/core/channel.py summarize_data, compute_noise, filter_data, drift_correct, phase_correct, calibrate, compute_*_filter"),
      ("flush points", "mass/core/channel.py hdf5 flush calls")],
     [("the *_mass.hdf5 file", "durable state of an analysis", "TESGroup.hdf5_file")],
     ["TESGroup, MicrocalDataSet attributes after repetition"])

prop("P11", "Results do not depend on how the data are divided for processing",
     "For every pulse file, also one cut short in mid-record, summaries, filtered values, averages and conversions are the same whatever the segment size, whether segments "
     "divide the file evenly or leave one record or none over, and whether channels are processed together, alone or in another order. "
     "The compiled and the plain implementations of the same step agree within single-precision rounding wherever they define the "
     "same quantity (timestamps, pretrigger mean and rms, post-peak derivative, minimum, trigger shift, peak position); pretrigger mean and rms, minimum, average, "
     "filtered value and phase (of transformed data, where a transform is given) and the average pulse are those the definitions give for the encoded records.",
     ["configurations", "schedules", "inputs"],
     "every segment size from one record up, every record count, torn tails, channel orders, compiled and plain paths",
     "tests use one segment per file (their files are far smaller than the default segment)",
     ["mass/core/channel.py", "mass/core/cython_channel.pyx", "mass/core/analysis_algorithms.pyx", "mass/core/files.py"],
     [("segment loops", "mass/core/channel.py summarize_data, filter_data"),
      ("compiled kernels", "mass/core/cython_channel.pyx, mass/core/analysis_algorithms.pyx filter_data_5lag_cython")],
     [], ["p_* vectors"])

prop("P12", "Cuts behave like named sets of pulses over any history",
     "Over every history of registering, unregistering, applying and clearing boolean and categorical cut fields, with restarts anywhere, each pulse is good exactly when no registered boolean "
     "field cuts it, each category shows the label last assigned (or its default), fields never disturb one another, and a field registered anew starts clean. "
     "Requests that cannot be met (unknown field, too many fields, bad label) are refused without changing anything.",
     ["histories", "fault_sequences"],
     "every sequence of registry and cut operations on several channels, with reopening in between and fields at the capacity limits",
     "tests exercise fixed short sequences",
     ["mass/core/cut.py", "mass/core/channel_group.py"],
     [("bit allocation and masks", "mass/core/cut.py Cuts"),
      ("registry in HDF5", "mass/core/channel_group.py CutFieldMixin")],
     [("cut_boolean_field_desc, cut_categorical_field_desc, cut_used_bit_flags, per-channel mask", "cut state", "HDF5 file")],
     ["Cuts.good, bad, cut, clear_cut, category_codes, select_category"])

prop("P13", "One failing channel never stops or alters the others (LJH groups)",
     "In every group operation, a channel whose processing raises is marked bad with the reason and the remaining channels get exactly the results they would get without it; "
     "Ctrl-C is passed on to the user and marks nothing bad. Over every history of failures, explicit good/bad marking and reopening, "
     "the good and bad sets, the reasons, iteration and the counts agree with each other and with the last marking of each channel.",
     ["fault_sequences", "histories", "schedules"],
     "every subset of channels failing at every step, by data faults and injected exceptions, mixed with good/bad marking and restarts",
     "the test runner itself switches this behaviour off (errors are rethrown under pytest), so tests never exercise it",
     ["mass/core/channel.py", "mass/core/channel_group.py"],
     [("per-channel loop", "mass/core/channel.py _add_group_loop"),
      ("bad-channel marks", "mass/core/channel_group.py TESGroup.set_chan_bad, set_chan_good")],
     [("why_bad", "why a channel is bad, also in HDF5", "TESGroup")],
     ["TESGroup.good_channels, bad_channels, why_chan_bad, iteration"])

prop("P14", "One failing channel never stops or alters the others (OFF groups)",
     "In every OFF group operation, a channel that raises is marked bad with the reason and the others get exactly the results they would get without it; Ctrl-C is passed on. "
     "Over every history of failures, explicit marking, and temporary inclusion of bad channels, the views of good channels, all channels, counts and "
     "iteration agree with the last marking of each channel.",
     ["fault_sequences", "histories"],
     "every subset of channels failing at every step, mixed with marking, filtering and including bad channels",
     "one test marks one channel bad; failures inside group operations are rethrown under test",
     ["mass/off/channels.py", "mass/off/util.py"],
     [("per-channel loop", "mass/off/channels.py add_group_loop"),
      ("bad-channel views", "mass/off/channels.py ChannelGroup.includeBad, keys, stats; GroupLooper")],
     [("markedBadBool, markedBadReason", "channel health", "Channel")],
     ["ChannelGroup iteration, len, keys, badChannels"])

prop("P15", "Saved calibrations and corrections come back exactly, or not at all",
     "For every calibration curve, phase correction and pulse model built by any sequence of edits, saving and loading gives an object that converts every input identically "
     "and keeps names, points, uncertainties and options; saving again replaces, and never mixes with, what was saved before. "
     "If saving is cut short, loading never silently gives a wrong object, and saving again repairs it.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "every edit history of calibration points and options, several objects under several names, interrupted at every HDF5 mutation and source line",
     "tests save and load two fixed calibrations and one correction without faults",
     ["mass/calibration/energy_calibration.py", "mass/core/phase_correct.py", "mass/core/pulse_model.py"],
     [("calibration storage", "mass/calibration/energy_calibration.py save_to_hdf5, load_from_hdf5"),
      ("correction storage", "mass/core/phase_correct.py toHDF5, fromHDF5"),
      ("projector storage", "mass/core/pulse_model.py toHDF5, fromHDF5")],
     [], ["EnergyCalibration, PhaseCorrector, PulseModel after loading"])

prop("P16", "Recipes evaluate to the composition they were defined with; books survive saving",
     "For every history of adding, replacing and removing recipes, the value of a derived attribute is the composition of the functions it was bound to when it was "
     "defined (a recipe keeps the ingredient definitions that were current then; replacing an ingredient changes only what is defined later), applied to the raw record "
     "fields, for every index form (all, slice, list, list of slices, state, cut). A request that names an unknown or repeated ingredient, or an existing recipe without "
     "overwrite, is refused and changes nothing. A saved recipe book loaded elsewhere, also in a fresh process, gives the same values and the same attributes; a failed "
     "or interrupted save leaves the book saved before in place and never loads as a different one.",
     ["histories", "fault_sequences", "crash_points", "inputs"],
     "every history of recipe edits and evaluations with random dependency graphs, and save/load with disk faults, interruptions and process death",
     "tests evaluate a few fixed recipes",
     ["mass/off/util.py", "mass/off/channels.py"],
     [("recipe evaluation", "mass/off/util.py Recipe, RecipeBook.add, RecipeBook.craft"),
      ("index forms", "mass/off/channels.py Channel.getAttr"),
      ("persistence", "mass/off/util.py RecipeBook.to_file, from_file, mass/off/channels.py ChannelGroup.saveRecipeBooks, loadRecipeBooks")],
     [("craftedIngredients", "recipes by name", "RecipeBook")],
     ["RecipeBook.craft", "Channel.getAttr", "attributes of Channel"])

prop("P17", "Raw data files are never modified by reading or analysing them",
     "Over every sequence of opening, refreshing, analysing and converting, successful, failing or interrupted, the raw pulse, noise, OFF, state and trigger files keep their exact "
     "bytes (apart from what the DAQ program appends); an attempt to write to the presented data is refused or has no effect; an output or cache path that names a raw file is refused; "
     "opening a group leaves a cache that another session holds open as it is; and no file appears or disappears except the documented cache and output files.",
     ["histories", "fault_sequences", "crash_points"],
     "every sequence of library operations with interruptions and I/O faults, comparing all input bytes and the directory listing",
     "tests check one read-only view",
     ["mass/core/files.py", "mass/off/off.py", "mass/core/channel.py", "mass/core/channel_group.py", "mass/core/ljh2off.py", "mass/core/ljh_util.py"],
     [("read-only maps", "mass/core/files.py LJHFile._open_mm, mass/off/off.py OffFile._updateMmap"),
      ("output paths", "mass/core/channel_group.py TESGroup.__init__, mass/core/ljh2off.py, mass/core/ljh_modify.py")],
     [], ["raw files on disk"])

prop("P18", "Channels and groups release what they open, also when opening fails",
     "After closing a group or file, and after any failed or interrupted open, the process holds no more open files or maps of the data than before, "
     "so open/refresh/close can be repeated without limit; a group whose opening failed part-way can be opened again once the fault clears.",
     ["histories", "fault_sequences"],
     "every sequence of open, refresh, close and failing open with descriptor exhaustion at every open call",
     "two tests lower the descriptor limit once on the success path",
     ["mass/off/off.py", "mass/off/channels.py", "mass/core/channel_group.py", "mass/core/files.py"],
     [("closing and dropping", "mass/off/off.py OffFile.close, mass/off/channels.py ChannelGroup.__del__, mass/core/channel_group.py TESGroup "
       "(hdf5_file.close(), external triggers), mass/core/files.py LJHFile._open_mm")],
     [], ["open descriptors and maps of the process"])

prop("P19", "Neighbour lists and crosstalk flags are exact and complete",
     "For every channel map, a channel's neighbour list holds every channel of the map with its exact squared distance and its rank (the place of that distance among all distances possible within the map's extent). For every set of "
     "arrival times, veto window and choice of neighbours, a pulse is flagged exactly when a pulse of a chosen neighbour arrived within the window before or after it, "
     "in total and by category, however close the pulses and overlapping the windows. Flags forced anew replace the old ones, and a list or flags "
     "left incomplete by an interruption are never taken for finished.",
     ["histories", "inputs", "fault_sequences"],
     "all arrival-time series, maps and windows, in every order of setting, flagging, forcing, reopening and interruption",
     "no test computes a neighbour list or a crosstalk flag",
     ["mass/core/channel.py"],
     [("neighbour lists and flags", "mass/core/channel.py MicrocalDataSet.set_nearest_neighbors_list, flag_crosstalking_pulses")],
     [], ["neighbour lists and flags stored for every channel"])

prop("P20", "Histograms and exports hold exactly the selected pulses of good channels",
     "For every history of growing files, states, cuts, default cuts, categories, marks and reopening, a histogram (of a channel, of each channel, or summed over a "
     "group) counts exactly the pulses selected by the states or categories, time range, cut or user function that was asked for, each once, leaving out bad channels "
     "and values that are not numbers; and the exported HDF5 histograms, energies, times and trigger times by state, and energies as text, hold exactly those pulses. "
     "An export that a failing write cuts short is reported, and leaves the session able to export again.",
     ["histories", "inputs", "fault_sequences"],
     "all record streams, state histories (repeated, empty or no states), cuts, bins and mark histories, with a write failing or interrupting anywhere in an export",
     "tests histogram one static file with one state list, and export no state with several periods",
     ["mass/off/channels.py", "mass/core/channel.py", "mass/core/channel_group.py"],
     [("OFF histograms", "mass/off/channels.py Channel.hist, ChannelGroup.hist, ChannelGroup.hists"),
      ("OFF exports", "mass/off/channels.py histsToHDF5, energyTimestampLabelToHDF5"),
      ("LJH histograms", "mass/core/channel.py MicrocalDataSet.hist; mass/core/channel_group.py TESGroup.hist, hists"),
      ("energies as text", "mass/core/channel_group.py TESGroup.save_pulse_energies_ascii")],
     [], ["histograms and exported histograms, energies and times of real groups"])

prop("P21", "A group takes in exactly the chosen files, paired by channel",
     "For every directory of several runs' files (names that share beginnings or contain _chan, spaces or brackets; empty files; files appearing meanwhile), a group opened "
     "from a pattern, list or tuple in any order takes in exactly the files asked for that are not left out by the choice of channels, in channel order for a pattern and in "
     "the given order for a list; each channel presents the pulses and the noise of its own channel number's files; states, external triggers and the cache belong to the "
     "same run; two files of one channel, or nothing left, are refused before anything is written; the caller's lists stay as they were; and the name utilities agree.",
     ["inputs", "histories", "fault_sequences"],
     "all sets of runs, channels, file names, orders, choices and directories, files appearing between openings, and opens failing anywhere in an opening",
     "tests open lists that are already sorted and paired, of runs with plain names, in absolute places",
     ["mass/core/channel_group.py", "mass/core/ljh_util.py", "mass/core/files.py", "mass/off/channels.py"],
     [("choice and pairing", "mass/core/channel_group.py TESGroup.__init__; mass/core/ljh_util.py remove_unpaired_channel_files"),
      ("names and channel numbers", "mass/core/ljh_util.py; mass/core/files.py LJHFile"),
      ("OFF files of a run", "mass/off/channels.py getOffFileListFromOneFile, ChannelGroup")],
     [], ["channels, file names, pulses and noise of real groups"])

prop("P22", "Noise results are those of each channel's own usable noise records",
     "For every set of noise files (odd or even record length, continuous or not, with disturbed records, too few records, alone or beside pulse files) and every history of "
     "computing, forcing, assuming white noise, other limits, single channels, interruptions repeated, and reopening, a channel's noise spectrum and autocorrelation are those the "
     "definitions give for exactly its own records within the excursion limit; where no record is usable the step fails for that channel alone, says so, and keeps the earlier "
     "result; a step that is not forced keeps what is there; the segmented variant agrees with the same definitions for every segment length.",
     ["inputs", "histories", "fault_sequences"],
     "all noise files, limits, lengths of segments, orders of steps, restarts, and cache writes failing or interrupting anywhere in a step",
     "tests compute noise once, of undisturbed records, in one session",
     ["mass/core/channel.py", "mass/core/channel_group.py", "mass/mathstat/power_spectrum.py"],
     [("noise steps", "mass/core/channel.py MicrocalDataSet.compute_noise, assume_white_noise, compute_noise_nlags"),
      ("noise records", "mass/core/channel.py NoiseRecords; mass/mathstat/power_spectrum.py PowerSpectrum")],
     [], ["noise_autocorr and noise_psd of real groups"])

prop("P30", "Optimal filters have unit gain, stated resolution and no DC response",
     "For every pulse shape, noise autocorrelation and filter option, a computed filter responds to the model pulse with the nominal peak, is insensitive to a constant, and its predicted resolution is that of the noise model.",
     ["inputs"], "all pulse shapes, noise models and options", "tests use a few pulse shapes",
     ["mass/core/optimal_filtering.py"], [("filter computation", "mass/core/optimal_filtering.py FilterMaker")])

prop("P31", "Line-shape models and fits are correct for every line and parameter",
     "Every fluorescence-line model is a normalised density with the tabulated components, convolved correctly with the detector response, and fits recover the parameters they were generated with.",
     ["inputs"], "all lines, resolutions, tails and backgrounds", "tests fit a few spectra",
     ["mass/calibration/fluorescence_lines.py", "mass/calibration/line_models.py"],
     [("line models", "mass/calibration/line_models.py"), ("line data", "mass/calibration/fluorescence_lines.py")])

prop("P32", "Calibration curves pass through their points, and their inverse inverts them",
     "For every valid set of calibration points and every curve type, the exact curve passes through every point, the inverse conversion undoes the forward one within its stated precision, and approximate curves stay within their uncertainties.",
     ["inputs"], "all point sets, curve types and options", "tests use a few point sets",
     ["mass/calibration/energy_calibration.py", "mass/mathstat/interpolate.py"],
     [("curve construction", "mass/calibration/energy_calibration.py EnergyCalibration")])

prop("P33", "Statistical and numerical helper functions equal their definitions",
     "For every input, the robust estimators, entropies, spline, Toeplitz and spectrum helpers equal their mathematical definitions within rounding.",
     ["inputs"], "all numeric inputs", "tests sample a few inputs",
     ["mass/mathstat"], [("helpers", "mass/mathstat/robust.pyx, entropy.pyx, interpolate.py, toeplitz.py, power_spectrum.py")])

prop("P34", "Filter and detector efficiency models follow the tabulated physics",
     "For every stack of materials and every energy, transmission and efficiency follow from the tabulated attenuation, combine multiplicatively and propagate the stated uncertainties.",
     ["inputs"], "all stacks and energies", "tests evaluate a few stacks",
     ["mass/materials"], [("efficiency models", "mass/materials/efficiency_models.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
