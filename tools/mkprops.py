"""Writes /verif/properties.jsonl (the single place the property texts live)."""
import json

P = []


def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(
        dict(
            id=id,
            title=title,
            statement=statement,
            quantifier=dict(over=over, text=text),
            why_tests_cant=why,
            anchors=dict(
                files=files,
                state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                mechanism=[dict(name=a, where=b) for a, b in mech],
                observe_at=list(observe),
                hook_needed=hook,
            ),
        )
    )


R = "resistics/"
add(
    "C01",
    "An interrupted dataset write never leaves a mixed or altered dataset",
    "If the process is killed, or an I/O operation fails, at any point while a time series, decimated, windowed or spectra dataset is being written, to a new folder or over an existing dataset, every later read of that folder either returns exactly the earlier dataset, exactly the new dataset, or raises an error. No read ever combines the arrays of one write with the metadata of another or returns shortened or altered arrays, and a folder whose metadata can be read can also be read in full. A write that returned normally is the one that is read back.",
    ["crash_points", "fault_sequences", "inputs"],
    "every crash point (including part way through a single write call), every failing system call and every short write during a write, over every sequence of datasets previously written to the folder",
    "The tests write nothing to disk under faults; the stable ones do not exercise the dataset writers at all.",
    [R + "common.py", R + "time.py", R + "decimate.py", R + "window.py", R + "spectra.py"],
    [("metadata written last, data first", "TimeWriterNumpy.run, DecimatedDataWriter.run, WindowedDataWriter.run, SpectraDataWriter.run"), ("metadata file", "WriteableMetadata.write")],
    [("metadata.json", "description of the dataset", "dataset folder"), ("data.npy / data.npz", "arrays of the dataset", "dataset folder")],
    ["TimeReaderNumpy.run", "DecimatedDataReader.run", "WindowedDataReader.run", "SpectraDataReader.run"],
)
add(
    "C02",
    "Acknowledged datasets survive restarts and read back exactly",
    "Whatever dataset (time series, decimated, windowed or spectra) a writer acknowledged, a freshly started process reads back the same arrays bit for bit with the same type and shape and the same metadata, with times exact to the resolution they were given in. This holds when the operating system performs reads and writes only partially, when the clock jumps and after any number of overwrites with datasets of other shapes, and it holds again for a dataset that is read and written on.",
    ["inputs", "histories", "fault_sequences"],
    "every dataset content and metadata value, every history of earlier writes to the same folder, every pattern of short reads and writes",
    "No stable test writes or reads a dataset; round trips depend on values, shapes, times and what was in the folder before.",
    [R + "time.py", R + "decimate.py", R + "window.py", R + "spectra.py", R + "common.py", R + "sampling.py"],
    [("JSON metadata with high resolution times", "TimeMetadata, DecimatedMetadata, WindowedMetadata, SpectraMetadata, datetime_to_string"), ("numpy containers", "writers and readers of each dataset kind")],
    [],
    ["each writer's run followed by the matching reader's run in a new process"],
)
add(
    "C03",
    "Project creation is recoverable and never replaces an existing project",
    "Whenever creating a project is killed or fails at any point, trying again with the same details either succeeds or reports that the project exists, and afterwards the project opens with exactly the requested details and the complete folder structure. Creating a project where one already exists always fails and leaves the existing project's details unchanged. Files and folders that were already in the chosen directory are never modified.",
    ["crash_points", "fault_sequences", "histories"],
    "every crash point and I/O fault in every sequence of creation attempts, over every initial content of the directory",
    "The project code cannot even be imported by the stable tests, and no test interrupts it.",
    [R + "letsgo.py", R + "project.py", R + "common.py"],
    [("existence check then folders then description last", "ProjectCreator.run"), ("description file", "WriteableMetadata.write")],
    [("resistics.json", "marks and describes a project", "project folder")],
    ["new()", "load()"],
)
add(
    "C04",
    "Opening a project finds exactly the readable measurements",
    "Opening or re-opening a project lists exactly those measurements present at that moment that some configured reader can read, each with the first such reader in configured order and with the metadata stored for it; measurements that are damaged, incomplete or failing to read are left out without affecting any other. The time span reported for a site or for the project is that of its listed measurements, and the sites reported as concurrent with a site are exactly the other ones whose time span overlaps its own, whatever the wall clock says.",
    ["histories", "fault_sequences", "configurations"],
    "every history of adding, replacing, damaging and removing measurements, every I/O fault while opening, every clock value and every list of readers",
    "Depends on the state of many folders and on the moment of opening; the stable tests never open a project.",
    [R + "letsgo.py", R + "project.py", R + "time.py", R + "common.py"],
    [("reader loop with failures swallowed per measurement", "ProjectLoader._load_measurement"), ("time spans", "ProjectLoader.run, ProjectLoader._load_site, Project.get_concurrent")],
    [],
    ["load()", "reload()", "Project.get_concurrent"],
)
add(
    "C05",
    "Results do not depend on listing order, clock, CPU count or timezone",
    "For a given stored project, configuration and request, the measurements found, the windows selected, the data gathered, the stored evaluation spectra and the transfer functions computed are identical whatever order the operating system lists folders in, whatever the wall clock and timezone are, and however many CPUs the machine has.",
    ["schedules", "inputs", "configurations"],
    "every order of every folder listing, every clock and timezone setting, every CPU count, for every arrangement of measurements including overlapping ones",
    "A test sees one listing order, one clock and one machine.",
    [R + "common.py", R + "gather.py", R + "letsgo.py", R + "spectra.py", R + "project.py"],
    [("folder listing", "dir_contents"), ("choice between overlapping measurements", "get_site_level_wins"), ("parallel transforms", "FourierTransform")],
    [],
    ["load()", "process_time_to_evals", "Selector.run", "ProjectGather.run", "process_evals_to_tf", "quick_tf"],
)
add(
    "C06",
    "Gathered data from different sites always refers to the same windows",
    "For any arrangement of measurements over any sites (gaps, overlaps, different lengths, missing or unreadable spectra), gathering uses exactly the time windows for which every requested site has stored spectra. For every evaluation frequency, row i of the output, input and cross data comes from the same time window and holds exactly the values stored for it by one measurement of the respective site, for the requested channels in the requested order. The measurements and histories reported as contributing are exactly those whose values were used.",
    ["inputs", "histories", "fault_sequences"],
    "every arrangement of measurements and windows over one to four sites, every choice of output, input and cross site, every subset of interrupted or failed spectra writes",
    "Needs many multi-site arrangements checked against a model; the stable tests cannot import the gathering code.",
    [R + "gather.py", R + "project.py", R + "spectra.py"],
    [("global window index", "get_site_level_wins, Selector.run"), ("local to combined index mapping", "ProjectGather._get_indices, _populate_data")],
    [],
    ["Selector.run", "ProjectGather.run", "QuickGather.run"],
)
add(
    "C07",
    "Processing converges to the fault-free result after crashes and retries",
    "However the processing of a project is interrupted by crashes, I/O errors and restarts, and however its tasks are interleaved over workers, re-running the tasks that did not finish, or met an I/O error, leaves exactly the evaluation spectra and transfer functions that one undisturbed sequential run produces. No leftover of an interrupted attempt changes, blocks or adds to a later result, and re-running a finished task changes nothing but timestamps.",
    ["schedules", "crash_points", "fault_sequences", "histories"],
    "every interleaving of processing tasks on several workers, every crash point and I/O fault in them, followed by fault-free retries",
    "Tests run one undisturbed task at a time, and none that is stable runs the project pipeline.",
    [R + "letsgo.py", R + "common.py", R + "spectra.py", R + "time.py", R + "gather.py", R + "regression.py"],
    [("tasks communicate only through the project folder", "process_time, process_time_to_evals, process_evals_to_tf"), ("writers", "ResisticsWriter._check_dir")],
    [],
    ["contents of the evals and results folders", "get_solution()"],
)
add(
    "C08",
    "No operation changes its inputs or results obtained earlier",
    "Running any reader, time, decimation, window, spectra, calibration, gathering, regression or solving step or any writer leaves everything passed to it (arrays, metadata, histories, parameters, configuration) exactly as it was, also when it fails part way. Data obtained earlier never changes because of later operations, including the replacement on disk of the dataset it was read from. Pipelines sharing data and configuration, interleaved in any way, each produce what they produce alone.",
    ["schedules", "programs", "fault_sequences"],
    "every program of processing steps and writes over shared data, every interleaving of several such programs, every I/O fault in the writes",
    "Each test uses fresh data once and never looks at the inputs afterwards.",
    [R + "time.py", R + "decimate.py", R + "window.py", R + "spectra.py", R + "calibrate.py", R + "gather.py", R + "regression.py", R + "common.py"],
    [("copy of metadata and history before adding to it", "new_time_data, get_history, the metadata handling of every process and writer"), ("copy of arrays", "TimeReaderNumpy.read_data, TimeProcess.run")],
    [],
    ["snapshots of all live objects before and after every step"],
)
add(
    "C09",
    "Saved histories list exactly the steps applied, once each, in order",
    "The processing history stored with a dataset or transfer function lists exactly the reading, processing and writing steps that produced it, in the order they were applied, each once and with the parameters it ran with. Failed or repeated attempts, restarts, other pipelines working on the same data at the same time and jumps of the clock neither add, drop, duplicate nor reorder entries.",
    ["schedules", "programs", "fault_sequences", "histories"],
    "every program of steps, every interleaving with other programs, every failure and retry of its writes, every clock jump",
    "Tests look at single records, never at the history of a multi-step run with failures.",
    [R + "common.py", R + "time.py", R + "decimate.py", R + "window.py", R + "spectra.py", R + "calibrate.py", R + "regression.py"],
    [("record per step", "ResisticsProcess._get_record, History.add_record")],
    [],
    ["history of data in memory and of data read back by a new process"],
)
add(
    "C10",
    "Time series range reads are exact slices; damaged data is never returned",
    "Reading a time range or sample range of a stored time series returns exactly the samples of the full recording in that range, with metadata whose sample count, first and last times describe exactly those samples. If the data file is missing, unreadable or holds fewer samples than needed for the request, the read raises an error and never returns fewer samples than its metadata states.",
    ["inputs", "fault_sequences", "crash_points"],
    "every range given by times or samples, every recording, every truncation point and I/O fault of the data file, for binary and text data",
    "The stable tests contain no time series reads, and truncation points and ranges are unbounded.",
    [R + "time.py", R + "sampling.py"],
    [("range to samples", "TimeReader._get_read_samples"), ("metadata of a range", "TimeReader._get_return_metadata"), ("data access", "TimeReaderNumpy.read_data, TimeReaderAscii.read_data")],
    [],
    ["TimeReaderNumpy.run", "TimeReaderAscii.run"],
)
add(
    "C11",
    "A stored transfer function is only ever replaced by a complete new one",
    "A transfer function that was computed and acknowledged can be fetched again after any restart with exactly the values, frequencies, definition and history that were returned, under the site, configuration, sampling frequency and postfix it was requested for. A later computation that is killed or fails at any point leaves the previously stored one fetched exactly as before, unless the new one is already completely stored. Transfer functions stored under other names are never affected.",
    ["crash_points", "fault_sequences", "histories"],
    "every history of computations for several sites, configurations and postfixes, every crash point and I/O fault in them",
    "No stable test computes or stores a transfer function.",
    [R + "letsgo.py", R + "regression.py", R + "project.py", R + "common.py"],
    [("solution file", "Solution, WriteableMetadata.write, get_solution_name, get_results_path")],
    [("results/<site>/<config>/*.json", "stored transfer functions", "project folder")],
    ["process_evals_to_tf", "get_solution()"],
)
add(
    "C12",
    "Saved configurations behave identically after any number of restarts",
    "A configuration saved as JSON and loaded by a new process is equal to the original for any selection and parameters of readers, processors, solvers and transfer functions that can be saved, and processing with it gives identical results. Loading never modifies the loaded content, so that the same content can be loaded any number of times, alone or inside another configuration, with the same outcome.",
    ["configurations", "histories"],
    "every combination of registered processes and parameters, every chain of save, restart and load",
    "Tests save at most a default configuration once.",
    [R + "config.py", R + "common.py", R + "transfunc.py"],
    [("process registry", "ResisticsProcess.validate, ResisticsProcess.__init_subclass__"), ("transfer function registry", "TransferFunction.validate")],
    [],
    ["Configuration.json / parse_raw", "process_time_to_evals with the reloaded configuration"],
)
add(
    "C13",
    "Calibration faults are contained to the affected channel and recorded",
    "Each selected channel is calibrated with the data of the first configured calibration reader whose file for that sensor is present and readable, and equals the stored spectra divided by the sensor response interpolated to its frequencies. A channel with no usable file is left exactly unchanged, and channels not selected are unchanged. A missing, damaged or unreadable file for one channel never affects another channel, and the history states for every selected channel which file was used or that there was none.",
    ["fault_sequences", "inputs", "configurations"],
    "every assignment of missing, torn, unparsable and unreadable calibration files to channels, every list of readers and channels, every window and frequency count",
    "The two stable calibration tests read one intact file and calibrate nothing.",
    [R + "calibrate.py"],
    [("reader loop with failures swallowed per channel", "SensorCalibrator._get_cal_data"), ("application", "Calibrator._calibrate")],
    [],
    ["SensorCalibrator.run"],
)
add(
    "C14",
    "A failing reader never hides another reader that can read the data",
    "Reading a data folder with a list of readers returns exactly what the first reader in the list that succeeds returns on its own. Failures of earlier readers of any kind (missing or damaged metadata, wrong type of data, I/O errors, unexpected exceptions) never escape or change the result, and if every reader fails a time data read error naming the folder is raised.",
    ["fault_sequences", "configurations"],
    "every list of readers, every folder content and every I/O fault during the attempts",
    "Depends on combinations of reader lists, folder states and faults that no stable test covers.",
    [R + "letsgo.py", R + "time.py", R + "errors.py"],
    [("reader loop", "quick_read")],
    [],
    ["quick_read", "quick_spectra", "quick_tf"],
)
add(
    "C15",
    "Writers told not to overwrite never change an existing dataset",
    "A dataset writer with overwriting disabled that finds the target folder existing raises a write error and leaves every byte in that folder as it was, and otherwise stores the complete dataset. When several such writers race for the same folder exactly one stores its dataset completely and every other one reports an error. With overwriting enabled the outcome is a complete dataset of the last write, and files of other datasets are never touched.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of several writers on the same and on different folders, every history of earlier writes",
    "Races and histories of writes are not exercised by any test.",
    [R + "common.py", R + "time.py", R + "decimate.py", R + "window.py", R + "spectra.py"],
    [("target folder check", "ResisticsWriter._check_dir")],
    [],
    ["each writer's run"],
)
add(
    "C16",
    "Windows are tied to absolute time however recordings are interrupted",
    "For recordings on a common time base that are interrupted and restarted at arbitrary points at any number of sites, every window of a given global index covers the same absolute time interval at every site and in every measurement, and at the recorded sampling rate it holds exactly the samples recorded in that interval. Every interval that is fully recorded inside one measurement is present as a window, no window reaches outside its measurement, and the window times reported match the samples in them.",
    ["histories", "inputs", "fault_sequences"],
    "every sequence of recorder outages and restarts at every site, every reference time, window size and overlap",
    "Tests use a handful of fixed starts; none relates independent recordings to each other.",
    [R + "window.py", R + "decimate.py", R + "sampling.py"],
    [("global window index", "datetime_to_win, get_first_and_last_win, get_win_table"), ("window data", "Windower")],
    [],
    ["Windower.run", "WindowedData.get_local", "WindowedData.get_global", "SpectraData.get_timestamps"],
)
add(
    "C17",
    "Tasks on different outputs never make each other fail",
    "Workers processing different measurements, sites or configurations of one project at the same time, each writing only its own outputs into shared parent folders that may not exist yet, all succeed in every interleaving, and each output is what the worker produces alone.",
    ["schedules"],
    "every interleaving of two to four workers at every file system operation",
    "Folder creation races appear only in particular interleavings of processes.",
    [R + "common.py", R + "letsgo.py"],
    [("folder creation", "ResisticsWriter._check_dir, process_evals_to_tf, ProjectCreator")],
    [],
    ["process_time", "process_time_to_evals", "process_evals_to_tf", "all dataset writers"],
)
add(
    "C18",
    "Long processing campaigns do not run out of file handles",
    "Opening projects and reading, writing, processing, gathering and calibrating datasets any number of times in one process, including attempts that fail because a dataset is missing or damaged, keeps the number of open files bounded: every file an operation opened is closed when it returns, apart from data that stays mapped while it is in use. A limit on open files is therefore never reached because of datasets handled earlier.",
    ["histories", "fault_sequences"],
    "every history of operations on intact and damaged datasets under a limit on open files",
    "A leak only shows after many operations in one process; tests do a few.",
    [R + "spectra.py", R + "decimate.py", R + "window.py", R + "time.py", R + "calibrate.py", R + "common.py"],
    [("container reads", "DecimatedDataReader.run, WindowedDataReader.run, SpectraDataReader.run"), ("with blocks", "WriteableMetadata.write, SensorCalibrationTXT")],
    [],
    ["table of open handles after every operation"],
)
add(
    "C19",
    "Sample and time conversions are mutually inverse and exact",
    "Converting a sample number to a time and back gives the same sample for every sampling frequency and start time, and times outside a recording are rejected.",
    ["inputs"],
    "every sampling frequency, start time and sample number",
    "Tests cover selected values of an unbounded numeric domain.",
    [R + "sampling.py"],
    [("conversions", "sample_to_datetime, datetime_to_sample, from_time_to_sample, to_time_to_sample")],
)
add(
    "C20",
    "Decimation parameters keep evaluation frequencies below Nyquist per level",
    "For every sampling frequency and setup, each level's evaluation frequencies are descending, lie below that level's Nyquist frequency, and level factors multiply up from their increments.",
    ["inputs", "configurations"],
    "every sampling frequency and decimation setup",
    "Tests cover selected values of an unbounded numeric domain.",
    [R + "decimate.py"],
    [("setup", "DecimationSetup.run, DecimationParameters")],
)
add(
    "C21",
    "Spectra equal the windowed transform interpolated to evaluation frequencies",
    "For every windowed dataset and parameters, spectra are the detrended, tapered discrete Fourier transform of each window and evaluation data are its linear interpolation at the evaluation frequencies.",
    ["inputs", "configurations"],
    "every array, window function and frequency list",
    "Tests cover selected arrays.",
    [R + "spectra.py"],
    [("transform", "FourierTransform.run"), ("interpolation", "EvaluationFreqs.run")],
)
add(
    "C22",
    "Noise-free data give back the transfer function that generated them",
    "For spectra generated exactly by a linear relation between input and output channels, the prepared equations are satisfied by that relation and the least squares solver returns it.",
    ["inputs"],
    "every transfer function definition and spectra",
    "Needs scikit-learn, which the test environment lacks; the domain is unbounded.",
    [R + "regression.py", R + "transfunc.py"],
    [("equations", "RegressionPreparerGathered, RegressionPreparerSpectra"), ("solvers", "SolverScikit and children")],
)
add(
    "C23",
    "Time domain processors act per channel and keep metadata consistent",
    "For every recording and parameter, scaling, offset, filter, resampling, decimation and shifting processors act on each channel independently and return data whose shape, sampling rate and times agree with their metadata.",
    ["inputs", "configurations"],
    "every recording and parameter value",
    "Tests cover selected arrays.",
    [R + "time.py"],
    [("processors", "TimeProcess and children")],
)

add(
    "C24",
    "Operations change nothing on disk outside of their own output",
    "Whatever operation is run on a project or dataset (opening, reading, processing, gathering, calibrating, fetching, creating, writing), and wherever it is killed or fails, every recording, calibration file, project file, dataset, transfer function and file of the user that is not the output the operation was asked to write stays byte for byte as it was. Operations that only read or compute change nothing on disk at all, and nothing is left behind outside of the requested output.",
    ["crash_points", "fault_sequences", "histories", "schedules"],
    "every operation, project content, kill point, I/O failure and interleaving of two workers",
    "Tests look at what an operation should produce, never at the rest of the disk, least of all after a failure.",
    [R + "letsgo.py", R + "common.py", R + "time.py", R + "spectra.py", R + "gather.py", R + "calibrate.py", R + "project.py"],
    [("output folders", "process_time, process_time_to_evals, process_evals_to_tf"), ("writing", "ResisticsWriter._check_dir, WriteableMetadata.write"),
     ("reading", "TimeReaderNumpy.read_data (memory mapped), ProjectLoader")],
    [],
    ["the folders around a project before and after every operation"],
)
add(
    "C25",
    "An operation that meets I/O errors fails or gives the undisturbed result",
    "When I/O operations fail, once or persistently (I/O errors, full disk, missing permission, no descriptors, no memory, partial reads and writes), every operation (opening and creating projects, time processing, evaluation spectra, transfer functions, fetching, quick processing, reading and writing datasets) ends within a bounded number of steps, and either raises an error or returns and stores exactly what it does undisturbed. It never reports success with missing, partial, outdated or degraded output, except where leaving something out is documented: calibration files (C13) and other measurements or their spectra (C04, C06).",
    ["fault_sequences", "crash_points"],
    "every operation and every I/O operation of it, failing once or from then on, with every kind of error",
    "No test makes I/O fail; which of several hundred I/O operations fails decides which handler runs.",
    [R + "letsgo.py", R + "common.py", R + "time.py", R + "decimate.py", R + "window.py", R + "spectra.py", R + "project.py"],
    [("handlers of errors", "quick_read, ProjectLoader, TimeReader.run"), ("storing", "process_time, process_time_to_evals, process_evals_to_tf, ProjectCreator")],
    [],
    ["return value or error of every operation", "stored output read by a new process"],
)

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
