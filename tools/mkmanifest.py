"""Writes /verif/MANIFEST.json"""
import json
import sys
from pathlib import Path

here = Path(__file__).resolve().parent.parent
sys.path.insert(0, str(here))
TECH = "deterministic simulation with fault injection"
NOTE = {
    "C01": ("fault_enumeration", "Every seam point of each explored write is hit with a crash before, a crash after, torn writes and I/O errors; the writes themselves (kind, content, earlier content of the folder, buffer size) are sampled by seed. Crash model: process death, completed system calls survive (no power loss)."),
    "C02": ("exploration", "Seeded search over dataset contents, overwrite histories, restarts, short reads and writes, clock jumps; compared bit for bit with the data passed to the writer."),
    "C03": ("fault_enumeration", "Every seam point of project creation is hit with crashes and I/O errors for each explored directory content and sequence of attempts; those are sampled by seed. Crash model: process death."),
    "C04": ("exploration", "Seeded search over project contents, reader lists, damage and I/O errors; compared with an independent model of which reader reads what and with the time spans computed from the recordings."),
    "C05": ("exploration", "Each seed runs one scenario on simulated machines that differ in listing order, clock, CPU count and timezone, and compares every result with the first machine."),
    "C06": ("exploration", "Seeded search over arrangements of recordings, missing and damaged spectra and I/O errors; compared with a reference gatherer that works on the stored spectra alone."),
    "C07": ("exploration", "Seeded search over interleavings, crashes, I/O errors and restarts of whole projects; compared with one sequential undisturbed run."),
    "C08": ("exploration", "Seeded search over random interleaved programs of processing steps with I/O failures; every live object is compared with its snapshot after each step and results with those obtained alone."),
    "C09": ("exploration", "Seeded search over random interleaved programs with failures, retries and restarts; histories are compared with the list of steps the program applied."),
    "C10": ("exploration", "Seeded search over recordings, ranges, damage and I/O faults; compared with slices computed from the recording itself."),
    "C11": ("fault_enumeration", "Every seam point of storing a transfer function is hit with crashes and I/O errors; projects, names and histories of computations are sampled by seed. Crash model: process death."),
    "C12": ("exploration", "Seeded search over configurations and restart chains; loaded configurations are compared field by field and by the results of processing with them."),
    "C13": ("exploration", "Seeded search over calibration files, damage, I/O faults and channel selections; compared with a reference calibration computed with numpy from the stored files."),
    "C14": ("exploration", "Seeded search over lists of readers, damage and I/O faults; compared with what every reader of the list does on its own under the same faults."),
    "C15": ("exploration", "Seeded search over writers, folder contents, faults and interleavings of racing writers; folders are compared byte for byte."),
    "C16": ("exploration", "Seeded search over outages of recorders; every sample carries its absolute index so that the interval covered by each window is read off its contents."),
    "C17": ("exploration", "Seeded search over interleavings of concurrent workers at every I/O operation; outcomes are compared with those of the worker running alone."),
    "C18": ("exploration", "Seeded search over campaigns of operations with failing attempts; the table of open files of the simulated process is checked after every operation and limits on it are injected."),
    "C24": ("exploration", "Seeded search over operations, project contents, kill points, I/O failures and interleavings of two workers; the project and the folders around it are compared byte for byte before and after every operation."),
    "C25": ("exploration", "Seeded search over operations and failing I/O operations (once or persistent) chosen from a dry run; returned and stored results are compared with an undisturbed run, and the number of I/O operations and waits is bounded."),
}
NA = {
    "C19": "Pure arithmetic on numbers without I/O, time, scheduling or state: there is nothing for a simulator to control or a fault to hit (input testing or proof would be the technique).",
    "C20": "A pure function of a few parameters: no nondeterminism or fault can influence it, so simulated executions decide nothing a plain call would not.",
    "C21": "A numerical identity of a pure function of its input arrays; the environment cannot influence it (the number of CPUs, the one exception, is decided by C05).",
    "C22": "A numerical identity of pure functions of the gathered data; no I/O, time or scheduling takes part in it.",
    "C23": "Numerical behaviour of pure functions of one array each; what depends on the environment or on shared state is decided by C05, C08 and C09.",
}
checks = []
na = [dict(property=k, reason=v) for k, v in NA.items()]
for pid, (level, note) in NOTE.items():
    if not (here / "dst" / "props" / f"{pid.lower()}.py").exists():
        na.append(dict(property=pid, reason="The check is still being built."))
        continue
    checks.append(dict(
        property=pid, quick_cmd=f"./check {pid} --tier quick", thorough_cmd=f"./check {pid} --tier thorough",
        technique=TECH, level=level, level_note=note))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na,
         notes="No hooks in /repo: the seams are the Python level system calls (os, io, pathlib, zipfile, time, "
               "tempfile, uuid) replaced inside the simulated process only. Replay a failure with ./check <id> --replay <file>.")
(here / "MANIFEST.json").write_text(json.dumps(m, indent=1) + "\n")
