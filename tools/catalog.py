#!/opt/venv/bin/python
"""
The catalogue of properties: generates properties.jsonl, MANIFEST.json and
KNOWN_FINDINGS.txt, so that the three stay in step.  A property whose check
module does not exist yet is listed under not_applicable.
"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
C = "CHECLabPy/"


def prop(id, title, statement, over, text, tests, files, mechanism,
         observe=None, technique=None, note="", state=None):
    P.append(dict(
        id=id, title=title, statement=" ".join(statement.split()),
        over=over.split(), text=" ".join(text.split()),
        tests=" ".join(tests.split()), files=files, mechanism=mechanism,
        observe=observe or [], technique=technique,
        note=" ".join(note.split()), state=state or []))


PBT = "property-based testing (Hypothesis): "

prop(
    "C01", "HDF5 tables read back exactly what was written",
    """For every sequence of dataframes appended to any number of tables of one
    HDF5 file, in any interleaving and however the writer buffers and flushes
    them, each table reads back as exactly the concatenation, in order, of the
    non-empty frames appended to it (as they were when appended: the caller may
    go on to reuse a frame): same rows, columns and types, nothing lost,
    duplicated or reordered. Whole-table reads, row-range selections, column
    selections, selections by a condition on a column and chunked iteration (with a given or the default chunk
    size) all give the same rows, and the list of tables and the row count and
    column names of a table agree with it. A directly written dataframe reads
    back exactly (with its index), and writing again to the same name replaces
    it.""",
    "histories inputs", """all interleavings of appends to several tables, with
    frames of 0 to many rows, all column types, and buffer flushes at any
    point; all (start, stop) ranges and chunk sizes""",
    """The existing I/O tests need a private data file and never write a file;
    buffer boundaries (0.5 GB) are never reached.""",
    [C + "core/io/hdf5_writer.py", C + "core/io/hdf5_reader.py"],
    [("HDF5Writer buffers frames per key and flushes by memory use and at exit",
      "hdf5_writer.py: append/_append_to_file/finish"),
     ("HDF5Reader reads by key, range, column and chunk", "hdf5_reader.py")],
    technique=PBT + "model (list of frames per table) against every read path")

prop(
    "C02", "A writing session ended by an exception keeps what was appended",
    """When an exception ends the with-block of an HDF5 writer (or appender) at
    any point, the exception propagates unchanged and the file is closed and
    holds everything appended, written and recorded before that point: all
    rows of every table and all metadata. A file so left can be read, and the
    rows that were flushed earlier are not repeated.""",
    "crash_points histories", """every position in every sequence of appends,
    writes and metadata additions at which the session can be aborted, by any
    exception type""",
    "No existing test writes an HDF5 file, let alone aborts one.",
    [C + "core/io/hdf5_writer.py", C + "core/io/hdf5_appender.py"],
    [("__exit__ finishes and closes the store", "hdf5_writer.py, hdf5_appender.py")],
    technique=PBT + "fault injection at every step of generated sessions")

prop(
    "C03", "HDF5 metadata and mapping round-trip and are isolated per table",
    """Metadata recorded for a table reads back equal (value and kind), per
    table and without leaking between tables, repeated additions being merged
    with the latest value winning; the camera mapping dataframe and all its own
    metadata read back equal, whatever the user did to what was read before.
    The writer also records the byte count of every
    table, their total and the package version in the main metadata. Reserved
    metadata names are refused with a ValueError and asking for an unknown
    table, metadata or mapping raises a KeyError, neither harming the file. A
    table recorded as larger than 8 GB is only read whole when that is forced,
    and otherwise refused with a MemoryError.""",
    "histories inputs", """all dictionaries of supported values, all orders of
    metadata, mapping, append and write calls""",
    "No existing test writes metadata.",
    [C + "core/io/hdf5_writer.py", C + "core/io/hdf5_reader.py",
     C + "utils/mapping.py"],
    [("metadata stored in pytables attributes", "hdf5_writer.py: add_metadata"),
     ("mapping with its metadata", "hdf5_writer.py: add_mapping")],
    technique=PBT + "dictionary model per table")

prop(
    "C04", "Appending to an existing HDF5 file only adds",
    """Re-opening an HDF5 file to append, in any number of sessions, leaves all
    existing tables, metadata and the mapping unchanged except for the rows
    and metadata added, which read back after the existing ones in order. The
    recorded byte counts and total cover the whole file after each session
    exactly as for one continuous writing session, within the size of an index
    per flush.""",
    "histories", "all sequences of write and append sessions on one file",
    "HDF5Appender has no test.",
    [C + "core/io/hdf5_appender.py", C + "core/io/hdf5_writer.py"],
    [("HDF5Appender re-opens the store in append mode", "hdf5_appender.py")],
    technique=PBT + "model of the file over generated session histories")

prop(
    "C05", "All ways to read a DL1 file give the same rows",
    """For every DL1 file, events accessed by index, by event id, by iterating
    over events, rows or chunks (selected or all), and by selecting columns
    all give the same rows, in file order, each event with exactly its pixels;
    event ids that are not in the file raise IndexError. The header
    values (numbers of events, modules, pixels, samples, cells, times, serial
    numbers, temperatures, DAC and HV settings, configuration, mapping) equal
    those the file was written with, and module or superpixel numbers beyond
    the camera's raise IndexError.""",
    "inputs", "all DL1 files (event ids, pixel counts, columns) and all accesses",
    "The reader's tests need a private data file (absent) and sample one event.",
    [C + "core/io/dl1_reader.py", C + "core/io/hdf5_reader.py"],
    [("DL1Reader row/event lookup", "dl1_reader.py")],
    technique=PBT + "differential between access paths and the written model")

prop(
    "C06", "Deprecated monitor tables of a DL1 file are read consistently",
    """For DL1 files that contain slow-control monitor tables, every read path
    (whole, selection, per-column, chunked or row iteration, averages) returns
    the stored monitor values for the right table, and matching a monitor
    column to the events gives, for every event row, the monitor value of the
    monitor entry recorded with that row (and of its pixel or module).""",
    "inputs", "all monitor tables, event-to-monitor indices and columns",
    "No existing test has monitor data.",
    [C + "core/io/dl1_reader.py"],
    [("MonitorReader and get_matched_monitor_column", "dl1_reader.py")],
    technique=PBT + "differential against the written monitor tables")

prop(
    "C07", "Waveform readers index, iterate and limit events consistently",
    """For every raw (R0) or calibrated (R1) run, iterating, integer
    (negative too), slice and list indexing return the same events with the
    event's own samples, index, first cell, tack, CPU time in nanoseconds and
    stale / missing-packet flags; limits on events and on skipped first and
    last events are respected. Indices outside the run raise IndexError, and
    unsupported index types TypeError. Arrays handed out stay valid after later
    events are read.""",
    "inputs histories", "all runs and all orders of index operations",
    "The only waveform tests need files and the TARGET libraries (absent).",
    [C + "core/io/waveform.py", C + "core/io/tio.py"],
    [("WaveformReader.__getitem__/__iter__", "waveform.py"),
     ("TIOReader._get_event", "tio.py")],
    technique=PBT + "differential against the generated run, through a stand-in for target_io",
    note="target_io/target_calib are replaced by stand-ins in vf/fakes")

prop(
    "C08", "The right reader is chosen for every file, and wrong ones refused",
    """Opening any file through the generic factory picks the reader whose
    format the file's content announces (independent of its name, and for
    compressed files too), and the R0 and R1 readers accept exactly the runs
    of their level and raise an error for the others.""",
    "inputs configurations", "all file kinds, names, compression and data levels",
    "Tests need private files.",
    [C + "core/io/waveform.py", C + "core/io/tio.py", C + "core/io/simtel.py"],
    [("from_path and is_compatible", "waveform.py, tio.py, simtel.py")],
    technique=PBT + "generated files against the format rule")

prop(
    "C09", "Simulated events reach the user in the camera's pixel order",
    """Whatever the pixel order of the simulation file, the waveforms, true
    charges and pixel-wise arrays read from it are those of the pixel at the
    same row and column of the camera mapping, for every event; the simulated
    shower, pointing and header values are passed on unchanged, and the reader
    iterates, indexes and limits the events like the other readers.""",
    "inputs", "all permutations of pixels and all event contents",
    "No test opens a simulation file; the permutation is the whole difficulty.",
    [C + "core/io/simtel.py", C + "utils/mapping.py"],
    [("pixel reordering by row and column", "simtel.py: SimtelReader")],
    technique=PBT + "generated simulated cameras with a known permutation",
    note="ctapipe and target_calib are replaced by stand-ins")

prop(
    "C10", "Waveform reducers are pure, column-driven and history-free",
    """A waveform reducer called on an event never changes the event's
    waveforms, returns exactly its active columns (one value per event or one
    per pixel), and the values depend neither on which other columns are
    active nor on which events were processed before. A class's columns are
    those its own methods declare; a column name declared twice raises
    AttributeError, an unknown column is refused, and asking for values before
    any event was processed raises ValueError.""",
    "inputs histories configurations", """all waveforms, all subsets of active
    columns, all orders of events""",
    "Tests sample one hand-made waveform per reducer.",
    [C + "core/reducer.py", C + "waveform_reducers/*.py"],
    [("WaveformReducer / column decorator", "core/reducer.py")],
    technique=PBT + "metamorphic relations over reducers, columns and event orders")

prop(
    "C11", "The reducer chain resolves its configuration by precedence",
    """For every combination of built-in defaults, configuration file and
    keyword arguments, the chain activates exactly the columns that the most
    specific source enables: keywords over file over defaults (by default the
    baseline, saturation, average-waveform and camera-average cross-correlation
    columns), and with a configuration file the columns it does not list are
    inactive. Reducer
    settings are passed on the same way. For each event the chain produces
    exactly the union of the active columns of its reducers, with the values
    the reducers give on their own.""",
    "configurations", "all configurations of columns and settings",
    "Tests try two fixed configurations.",
    [C + "core/chain.py", C + "core/reducer.py"],
    [("WaveformReducerChain configuration merging", "core/chain.py")],
    technique=PBT + "reference resolution of generated configurations")

prop(
    "C12", "Window reducers integrate exactly their documented window",
    """For every set of waveforms, the average-waveform, saturation, baseline
    (common) and superpixel reducers give, per pixel, exactly the sum, mean,
    deviation, maximum or count over the samples of their documented window:
    the extraction time is the peak of the average waveform (kept at least 10
    samples from both ends) unless given, windows are cut at the readout
    edges, and superpixel values are those of the summed waveforms of the four
    pixels of each superpixel, repeated for each of them.""",
    "inputs", "all waveforms, lengths, window settings and extraction times",
    "Tests try one waveform.",
    [C + "waveform_reducers/average_wf.py", C + "waveform_reducers/common.py",
     C + "waveform_reducers/saturation.py",
     C + "waveform_reducers/superpixel.py"],
    [("AverageWF, Common, Saturation, SPAmplitude", "waveform_reducers/")],
    technique=PBT + "slow reference implementation")

prop(
    "C13", "Cross-correlation charge extraction follows the reference pulse",
    """For every reference pulse and waveforms, the cross-correlation reducers
    give the correlation of the waveform with the reference pulse, normalised
    so that the reference pulse itself extracts its own charge, evaluated at
    the peak of the average, local or neighbouring pixels' waveform; the
    extraction is linear in the amplitude, unaffected by other pixels where it
    is local, and follows a shift of the pulse in time.""",
    "inputs", "all waveforms, pulse shapes, sampling and peak positions",
    "Tests try one waveform with one reference pulse.",
    [C + "waveform_reducers/cross_correlation.py"],
    [("CrossCorrelation family", "cross_correlation.py")],
    technique=PBT + "reference correlation and metamorphic (scale, shift, permute) relations")

prop(
    "C14", "Pulse timing follows the pulse",
    """For every set of waveforms the timing reducer's pulse time, width and
    rise time agree with an independent evaluation of their definition (window
    around the event time, interpolated threshold crossings, zero where the
    peak lies on the edge, not-a-number where a crossing does not exist), do
    not depend on the pulse amplitude, and move with the pulse when it is
    shifted in time.""",
    "inputs", "all waveforms including flat, negative, edge and noisy ones",
    "Tests try one waveform.",
    [C + "waveform_reducers/timing.py"],
    [("Timing and its compiled helpers", "timing.py")],
    technique=PBT + "slow reference and metamorphic relations")

prop(
    "C15", "Sliding-window and peak-integrator reducers integrate their window",
    """For every waveform, the sliding-window reducers sum exactly the window
    with the largest average (globally, per pixel, or over neighbouring
    pixels), and the peak integrators sum exactly the documented window around
    the peak of the average, local or neighbour waveform, giving the charge and
    time of each pixel.""",
    "inputs", "all waveforms, window sizes and pixel neighbourhoods",
    "No test covers these reducers (ctapipe is not installed).",
    [C + "waveform_reducers/sliding_window.py",
     C + "waveform_reducers/ctapipe_integrators.py"],
    [("sliding window and ctapipe integrators", "waveform_reducers/")],
    technique=PBT + "slow reference implementation",
    note="ctapipe is replaced by a stand-in")

prop(
    "C16", "NNLS pulse extraction reconstructs the pulses in the waveform",
    """For waveforms that are sums of non-negative pulses of the reference
    shape, well above the reducer's noise tolerance, the non-negative
    least-squares reducer reports non-negative charges that sum to the
    injected charge, its per-pulse columns (largest pulse, pulse in time with
    the event) are consistent with each other, one pixel's values do not
    depend on the others, and scaling all waveforms scales the charges.""",
    "inputs", "all sets of pulse positions and amplitudes",
    "The reducer has no test.",
    [C + "waveform_reducers/nnls_pulse_extraction.py"],
    [("NNLSPulseExtraction", "nnls_pulse_extraction.py")],
    technique=PBT + "synthesised waveforms with known pulses")

prop(
    "C17", "DL1 production keeps every good event, pixel and header value",
    """For every raw or simulated run, the produced DL1 file holds, for each
    event that is neither stale nor missing packets, one row per pixel with the
    event's identifiers and the values the configured reducers give for that
    event's (baseline-subtracted, time-corrected) waveforms, in order and with
    floats in single precision; skipped events are counted. The header holds
    the run's own numbers, times, temperatures, serial numbers and settings.
    The output path follows the input path unless given, and the input is
    never overwritten.""",
    "inputs histories configurations",
    "all runs, skip patterns, configurations and command-line options",
    "The production script has no test.",
    [C + "scripts/extract_dl1.py", C + "core/io/hdf5_writer.py",
     C + "core/chain.py", C + "utils/waveform.py"],
    [("extract_dl1 main loop and DL1Writer", "scripts/extract_dl1.py")],
    technique=PBT + "end-to-end runs against an event-by-event reference",
    note="target_io/target_calib/ctapipe are replaced by stand-ins")

prop(
    "C18", "The generated DL1 configuration reproduces the defaults",
    """The configuration file that the package generates lists every column of
    every reducer exactly once, and running the chain with this file activates
    exactly the same columns, with the same results, as running it without
    any; editing one entry changes exactly that column.""",
    "configurations inputs", "all edits of the generated configuration",
    "The script has no test.",
    [C + "scripts/generate_dl1_config.py", C + "core/chain.py"],
    [("generate_dl1_config", "scripts/generate_dl1_config.py")],
    technique=PBT + "differential between default and generated configuration")

prop(
    "C19", "The rolling baseline is the mean of the last events",
    """For every run and base length, the baseline subtracted from the event
    just processed is, per pixel, the mean of the baseline samples over the
    last n processed events (itself included), the memory being initialised
    from the first n events of the run; subtraction changes nothing else.""",
    "histories", "all sequences of events, base lengths and sample counts",
    "No test covers it.",
    [C + "utils/waveform.py"],
    [("BaselineSubtractor ring buffer", "utils/waveform.py")],
    technique=PBT + "reference list of past events")

prop(
    "C20", "Waveform shifting, averaging and dead-pixel search are exact",
    """Shifting a waveform so that its event's peak falls on the requested
    sample moves every sample by exactly that number of samples and pads with
    zeros; the average waveform is the mean of the so aligned waveforms over
    exactly the requested events and pixels; the dead pixel list contains
    exactly the pixels whose average waveform, over the first events, peaks
    below the given fraction of the camera's mean peak.""",
    "inputs", "all waveforms, shifts and runs",
    "No test covers these helpers.",
    [C + "utils/waveform.py"],
    [("shift_waveform, get_average_wf, obtain_dead_pixel_list", "utils/waveform.py")],
    technique=PBT + "slow reference")

prop(
    "C21", "Time calibration shifts each pixel by its own correction",
    """For every set of waveforms and per-pixel time corrections, calibrating
    replaces each pixel's waveform by its linear interpolation at the corrected
    times (continued from the edge samples beyond the readout), leaving the
    waveform unchanged for a zero correction, moving it by exactly n samples
    for a whole-sample correction, and never mixing pixels.""",
    "inputs", "all waveforms and correction values",
    "No test covers it.",
    [C + "calib/time_calibrator.py"],
    [("TimeCalibrator and its compiled helper", "calib/time_calibrator.py")],
    technique=PBT + "slow reference interpolation and metamorphic relations")

prop(
    "C22", "Calibration coefficients are applied to the right pixel",
    """For every calibration file, the amplitude calibrator, the illumination
    profile correction, the SiPM data sheet and the waveform calibrator give,
    for each pixel or voltage, the value its file defines (linear interpolation
    between tabulated points), elementwise, invertibly and without modifying
    their input.""",
    "inputs", "all calibration tables and inputs",
    "No test covers these classes.",
    [C + "calib/amplitude_calibrator.py", C + "calib/illumination_profile.py",
     C + "calib/sipm_data_sheet.py", C + "calib/waveform.py"],
    [("calibration classes", "calib/")],
    technique=PBT + "direct evaluation of the table")

prop(
    "C23", "Pixel masks combine and round-trip",
    """For every sequence of mask edits, the pixels reported for each kind of
    defect are exactly those marked, a superpixel is bad in high voltage when
    any of its four pixels is marked, the combined mask is their union, and a
    mask committed to disk (under its time stamp) loads back equal; the mask
    loaded by default is the one of the latest time stamp.""",
    "histories inputs", "all edit sequences, timestamps and reload points",
    "No test covers it.",
    [C + "calib/pixel_masks.py"],
    [("PixelMask and PixelMasks", "calib/pixel_masks.py")],
    technique=PBT + "set model over edit histories")

prop(
    "C24", "Amplitude matching stays in range, terminates and honours masks",
    """For every detector response, the iterative amplitude matching only ever
    requests DAC values within 10 to 255, sets masked superpixels to the
    documented value, changes a superpixel's DAC only towards its target (by
    the documented steps of 10, 5 or 1, or back to the previous value), and
    finishes in a bounded number of iterations with every superpixel's DAC
    final. For a noise-free monotone response the final DAC is the one nearest
    to the target (255 where the target is out of reach), and one superpixel's
    result does not depend on the others. A step that made it worse is taken
    back before continuing with the next smaller steps; when all superpixels
    are final a second pass starts afresh from there with steps of 1, so that
    it also follows a response that changed in between.""",
    "histories inputs", "all responses, noise, masks and starting DACs",
    "No test covers it.",
    [C + "calib/amplitude_matcher.py"],
    [("AmplitudeMatcher state machine", "calib/amplitude_matcher.py")],
    technique=PBT + "simulated detectors driven over the whole history")

prop(
    "C25", "Statistical functions match their definitions everywhere",
    """For all arguments in their domain the compiled Poisson, binomial,
    normal and x*log(y) functions agree with the exact values to double
    precision (including extreme arguments), sum or integrate to one, and the
    running mean and variance (Welford) equal those of all values seen,
    whatever the order or batching.""",
    "inputs histories", "all arguments and all update sequences",
    "Tests compare a handful of arguments.",
    [C + "stats/pdf.py", C + "stats/welfords.py"],
    [("numba probability functions, Welford update", "stats/")],
    technique=PBT + "differential against scipy / arbitrary precision / two-pass")

prop(
    "C26", "The SiPM spectrum models are the distributions they claim to be",
    """For all physical parameters the Gentile and MAPM single-photoelectron
    spectra are non-negative, integrate to their normalisation, have the
    expected pedestal and mean, agree with an independent evaluation of the
    model (contributions below 1e-4 may be left out), and reduce to the simpler
    model in the limits (no crosstalk, one illumination); the spectra of
    several illuminations share all parameters but the illumination, and the
    fitted likelihood is that of the spectra.""",
    "inputs", "all parameter values in the physical range",
    "Tests compare sums at one parameter set.",
    [C + "spectrum_fitters/gentile.py", C + "spectrum_fitters/mapm.py"],
    [("sipm_gentile_spe, mapm_spe", "spectrum_fitters/")],
    technique=PBT + "independent model evaluation and invariants")

prop(
    "C27", "Spectrum fitter parameters are book-kept consistently",
    """For every sequence of parameter edits, each fit parameter keeps its own
    initial value, limits, fixed flag and multiplicity: lists of parameters
    per illumination expand to one entry per illumination and collapse back;
    saving the configuration and loading it into a new fitter reproduces the
    same parameters, range and bins, and entries that are not used when
    loading are reported.""",
    "histories configurations", "all edit, save and load sequences",
    "Tests try single edits.",
    [C + "core/spectrum_fitter.py"],
    [("SpectrumParameter, SpectrumParameterCollection, SpectrumFitter",
      "core/spectrum_fitter.py")],
    technique=PBT + "model of the parameter table over histories")

prop(
    "C28", "A spectrum fit respects its data, limits and fixed parameters",
    """For every set of charges and settings, the histogram that is fitted
    counts exactly the charges within the range; the fitted parameters respect
    their limits and fixed values and describe the charges no worse than the
    initial ones, the fit and initial curves are the model at those parameters,
    where one parameter alone is free its value is the best one and its error
    the change that makes the agreement worse by one, and the result does not depend on the order of the charges, nor on fits
    done before with the same fitter.""",
    "inputs histories configurations", "all charges, bin settings, limits, fixed sets",
    "Tests run one fit.",
    [C + "core/spectrum_fitter.py", C + "spectrum_fitters/*.py"],
    [("SpectrumFitter.apply and its minimisation", "core/spectrum_fitter.py")],
    technique=PBT + "reference histogram and metamorphic relations over fits")

prop(
    "C29", "The SPE script fits every pixel once, serially or in parallel",
    """For every set of DL1 input files, the single-photoelectron extraction
    writes, for each pixel, the result of fitting exactly that pixel's charges
    of each file, identically whether run serially or with several processes;
    the output tables have one row per pixel in pixel order, and the metadata
    and mapping describe exactly the inputs.""",
    "inputs configurations schedules", "all inputs, pixel counts and process counts",
    "The script has no test.",
    [C + "scripts/extract_spe.py", C + "core/spectrum_fitter.py"],
    [("SpectrumFitProcessor", "scripts/extract_spe.py")],
    technique=PBT + "differential serial / parallel / direct fit")

prop(
    "C30", "Charge resolution is the RMS deviation from the true charge",
    """For every set of true and measured charges, the charge resolution per
    pixel and for the camera is the root mean square deviation from the true
    charge (with the Poisson variance added for simulated true charges),
    absolute and relative to the true charge, over all entries at once,
    independent of the order, of the types and of how the entries were split
    into additions or flushed; entries of zero true charge are ignored.""",
    "histories inputs", "all inputs, splits, orders and flush points",
    "No test covers it.",
    [C + "utils/resolutions.py"],
    [("ChargeResolution accumulation", "utils/resolutions.py")],
    technique=PBT + "two-pass reference over all splits")

prop(
    "C31", "Charge statistics are the mean and deviation per pixel and level",
    """For every set of entries, the charge statistics per (pixel, amplitude)
    and for the camera are the exact mean, standard deviation and count of all
    entries, independent of the order, splitting and flushing of the
    additions.""",
    "histories inputs", "all inputs, splits, orders and flush points",
    "No test covers it.",
    [C + "utils/resolutions.py"],
    [("ChargeStatistics accumulation", "utils/resolutions.py")],
    technique=PBT + "two-pass reference over all splits")

prop(
    "C32", "Superpixel and module mappings regroup the pixel mapping",
    """For every camera mapping, the superpixel and module mappings derived
    from it have one row per superpixel or module, at the mean position of
    exactly its own pixels and with its own module, row and column, ordered by
    index; size and metadata follow, and converting to the TARGET mapping and
    back loses nothing.""",
    "inputs", "all camera layouts",
    "The mapping functions have no test.",
    [C + "utils/mapping.py"],
    [("get_superpixel_mapping, get_tm_mapping, get_tc_mapping_from_clp_mapping",
      "utils/mapping.py")],
    technique=PBT + "direct regrouping of generated layouts")

prop(
    "C33", "Row and column numbers follow the pixel positions",
    """For every pixel grid (any module gaps, offsets, pixel order, numbers
    of rows and columns) the row and column computed from positions number the
    distinct y and x positions consecutively from zero in ascending order, so
    that pixels share a row exactly when they share a y position.""",
    "inputs", "all grids, permutations and numerical noise",
    "No test covers it.",
    [C + "utils/mapping.py"],
    [("get_row_column", "utils/mapping.py")],
    technique=PBT + "reference ranking of positions")

prop(
    "C34", "Camera images show each pixel's value at its position",
    """For every camera mapping and image, the camera displays draw each
    pixel's value at that pixel's position (each module's and superpixel's for
    the derived mappings), update all of it when the image changes, colour it
    by the given limits or else the range of the image, and refuse images of
    the wrong size; texts, highlights and annotations (module labels, flashers,
    telescope up) are put at the requested pixels and change nothing else;
    saving creates the folder and the file.""",
    "inputs histories", "all layouts, images and update sequences",
    "Plotting has no test.",
    [C + "plotting/camera.py"],
    [("CameraImage, CameraImageImshow", "plotting/camera.py")],
    technique=PBT + "inspection of the drawn artists against the mapping")

prop(
    "C35", "Runlists, HV configs and file lists are read faithfully",
    """For every runlist, the opened table has one row per line (without
    comments), indexed by run, with the right columns and the path of each
    run's file (and its reader, if asked for) in the runlist's folder; sorting
    files orders numbers in names by value; reading an HV configuration back
    gives the DAC and HV-on setting written for each module and superpixel;
    creating a folder creates its parents and nothing else.""",
    "inputs", "all runlists, file names and configurations",
    "No test covers it.",
    [C + "utils/files.py"],
    [("open_runlist_*, sort_file_list, extract_hv_cfg", "utils/files.py")],
    technique=PBT + "round-trip of generated files")

prop(
    "C36", "Flasher identification picks the brightest flasher",
    """For every event, the flasher flag is the index of the flasher (each
    lit by its module among four) whose module has the largest mean peak
    amplitude, or -1 when any of the four is below the threshold of 30, for
    every pixel of the event.""",
    "inputs", "all waveforms around the threshold and between groups",
    "No test covers it.",
    [C + "waveform_reducers/flag_flasher.py"],
    [("FlagFlashers", "waveform_reducers/flag_flasher.py")],
    technique=PBT + "direct evaluation")

prop(
    "C37", "Waveform displays show each pixel's waveform in its place",
    """For every camera mapping and set of waveforms, the displays per module
    and per pixel have one panel per module (pixel) at its row and column,
    showing exactly the waveforms of its own pixels, the averages, and the
    list of exactly those pixels that peak below the given fraction of the
    camera average; panels are coloured by the peak of their waveform, exactly
    the requested pixels are highlighted, and a reset restores the outlines.
    Simple waveform plots show the given curve with the given labels.""",
    "inputs histories", "all layouts, waveforms and highlight sequences",
    "Plotting has no test.",
    [C + "plotting/waveform.py", C + "plotting/setup.py"],
    [("WaveformPlotter, CameraTMWaveformPlotter, CameraPixelWaveformPlotter",
      "plotting/waveform.py")],
    technique=PBT + "inspection of the drawn artists against the mapping")

prop(
    "C38", "The SPE plots show the fit results of each pixel",
    """For every fit result, the spectrum plot shows, for each illumination,
    the fitted histogram and the fit curve in one colour, labelled with its own
    illumination, and a table of initial and fitted values with errors of
    exactly the fit parameters. The plotting script draws, for every parameter
    of an SPE file, the values and errors of each pixel at its position and
    their histogram, and the spectrum of the chosen pixel, into the files
    named after them; the extraction script's plot mode shows the fit of the
    chosen pixel and writes nothing.""",
    "inputs configurations", "all fit results, layouts and chosen pixels",
    "No test covers the plots.",
    [C + "plotting/spe.py", C + "scripts/plot_spe.py",
     C + "scripts/extract_spe.py"],
    [("SpectrumFitPlotter and plot_spe", "plotting/spe.py, scripts/plot_spe.py")],
    technique=PBT + "inspection of the drawn artists against the fit results")

prop(
    "C39", "The resolution plots show the computed values and the CTA curves",
    """For every table of charge resolutions or statistics, the plots show,
    for the pixel asked for or the camera, the means per logarithmic bin of
    charge of exactly its entries (for the statistics relative to the
    amplitude, for the relative plot divided by the requirement), with errors
    combined in quadrature; requirement, goal and Poisson curves
    are those of the CTA formula, undefined beyond their range (1000 and 2000
    photoelectrons), and neither stores nor inputs are changed.""",
    "inputs", "all tables, bins and charges",
    "No test covers the plots.",
    [C + "plotting/resolutions.py"],
    [("ChargeResolutionPlotter, ChargeMeanPlotter, bin_points",
      "plotting/resolutions.py")],
    technique=PBT + "reference binning and direct evaluation of the curves")

prop(
    "C40", "New reducers and fitters are found and offered by name",
    """For every hierarchy of classes, the family of a class consists of exactly
    its non-abstract descendants, each once, however deep they are and however
    many parents they have; a factory produces exactly the class named, with
    the arguments given, and raises KeyError for any other name. Files added
    to the reducer or fitter folder, also ones deriving from existing or other
    new classes and documented in any style, are found without other changes:
    their columns are inactive unless enabled, work when enabled, change no
    other column and appear once, as False, in the generated configuration,
    which remains readable; their fitters are offered and produced.""",
    "inputs histories", """all hierarchies, all added classes, columns and
    documentation styles""",
    "Tests use only the existing classes.",
    [C + "core/__init__.py", C + "core/factory.py",
     C + "waveform_reducers/__init__.py", C + "spectrum_fitters/__init__.py",
     C + "scripts/generate_dl1_config.py"],
    [("child_subclasses", "core/__init__.py"),
     ("Factory.produce", "core/factory.py"),
     ("WaveformReducerChain", "core/chain.py")],
    technique=PBT + "generated class hierarchies against a model of the "
                    "family; generated source files added to a scratch copy "
                    "of the package")

prop(
    "C41", "Plots use the given axes or their own figure, and are saved whole",
    """For every sequence of creating and saving plots, a plotter given axes
    draws into those and makes no figure; otherwise it makes exactly one
    figure with one pair of axes, as wide as 90% (side by side 60%) of the
    text width and in the golden ratio, with larger texts when it is for a
    talk. A legend is put on its own axes.
    Saving finishes the plot once, makes missing folders, writes all that the
    figure shows (and nothing of other figures) with the options given, and
    closes only its own figure.""",
    "histories inputs", """all sequences of plotters of all kinds and of
    saving them""",
    "No test covers the plots.",
    [C + "plotting/setup.py", C + "utils/files.py"],
    [("Plotter", "plotting/setup.py")],
    technique=PBT + "sequences against a model of the figures that exist and "
                    "of what each of them shows, looked up in the images")

prop(
    "C42", "The ROOT file holds the content of the DL1 file",
    """For every DL1 file without monitor tables, the conversion to ROOT writes
    exactly one tree with all rows and columns of the data in order and with
    their types, one with the mapping, and one with a single entry holding
    every header value: numbers as they are, texts as texts, absent values as
    "None", and times (in header and rows) as nanoseconds since 1970. The
    output is named after the input unless given, is written and closed, and
    the input is unchanged.""",
    "inputs", "all numeric tables, headers, times and paths",
    "No test covers the script.",
    [C + "scripts/convert_hd52root.py", C + "core/io/dl1_reader.py"],
    [("main script", "scripts/convert_hd52root.py")],
    technique=PBT + "comparison with what stand-ins for ROOT were given")

prop(
    "C43", "The results of the documented analysis are those of the waveforms",
    """For every run, measured or simulated, and every camera, what a user
    obtains from it by extracting charges at a given time and window and then
    reading, drawing, averaging or comparing them in any order is what follows
    directly from the waveforms of its good events: the table, the single
    events and columns, the mean per pixel, the image seen at the place of each
    pixel (or of its superpixel or module) with the mapping in the DL1 file,
    the charge statistics, and for simulations the charge resolution. Results
    that are added to the file in between are read back and change none of
    this.""",
    "inputs histories", """all runs, cameras, extraction windows and sequences
    of analysis steps""",
    "No test covers the parts together.",
    [C + "scripts/extract_dl1.py", C + "core/io/dl1_reader.py",
     C + "core/io/hdf5_appender.py", C + "plotting/camera.py",
     C + "utils/mapping.py", C + "utils/resolutions.py"],
    [("the workflows of examples/", "scripts/extract_dl1.py, plotting/camera.py")],
    technique=PBT + "recomputation from the generated waveforms, with the "
                    "images looked up in the rendered figures")
