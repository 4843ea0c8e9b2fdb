"""Time series readers with trouble of their own, for the checks on reader lists"""
from ..lib import *  # noqa
from resistics.errors import MetadataReadError, TimeDataReadError

EXC = {
    "meta": lambda p: MetadataReadError(p, "simulated"),
    "data": lambda p: TimeDataReadError(p, "simulated"),
    "os": lambda p: OSError(5, "simulated"),
    "key": lambda p: KeyError("simulated"),
    "value": lambda p: ValueError("simulated"),
    "memory": lambda p: MemoryError("simulated"),
    "runtime": lambda p: RuntimeError("simulated"),
    "assert": lambda p: AssertionError("simulated"),
    "stop": lambda p: StopIteration("simulated"),
    "index": lambda p: IndexError("simulated"),
    "notimpl": lambda p: NotImplementedError("simulated"),
    "unicode": lambda p: UnicodeDecodeError("utf-8", b"x", 0, 1, "simulated"),
}


class DstBrokenReader(TimeReaderNumpy):
    """Fails on every dataset"""

    kind: str = "runtime"
    late: bool = False

    def read_metadata(self, dir_path):
        if self.late:
            return super().read_metadata(dir_path)
        raise EXC[self.kind](dir_path)

    def read_data(self, *args):
        raise EXC[self.kind](args[0])


class DstPickyReader(TimeReaderNumpy):
    """Reads datasets of one system only"""

    system: str = ""

    def read_metadata(self, dir_path):
        metadata = super().read_metadata(dir_path)
        if metadata.system != self.system:
            raise MetadataReadError(dir_path, f"Not a {self.system} dataset")
        return metadata


class DstOwnReader(TimeReader):
    """A reader for a format of the user, without any JSON; may read numpy datasets too"""

    both: bool = False

    def read_metadata(self, dir_path):
        path = dir_path / "HEADER.TXT"
        if self.both and not path.exists():
            return TimeReaderNumpy().read_metadata(dir_path)
        try:
            with path.open("rb") as f:
                marker, _, text = f.read().partition(b"\n")
            if marker != b"OWN":
                raise ValueError("Not a header")
            metadata = TimeMetadata.parse_raw(text)
        except Exception as exc:
            raise MetadataReadError(path, str(exc))
        if not self._check_data_files(dir_path, metadata):
            raise MetadataReadError(path, "Data file missing")
        return metadata


def make_reader(spec):
    name, kw = spec
    return {
        "numpy": TimeReaderNumpy, "ascii": TimeReaderAscii, "broken": DstBrokenReader,
        "picky": DstPickyReader, "own": DstOwnReader,
    }[name](**kw)


def gen_readers(rng, n_max=4, late=False, own=False):
    out = []
    if own and rng.random() < 0.5:
        out.append(["own", {"both": rng.random() < 0.4}])
    for _ in range(rng.randrange(1, n_max + 1)):
        out.append(pick(
            rng, ["numpy", {}], ["numpy", {}], ["numpy", {"apply_scalings": False}], ["ascii", {}],
            ["ascii", {"n_header": 0, "apply_scalings": False}],
            ["broken", {"kind": pick(rng, *EXC), "late": late and rng.random() < 0.5}],
            ["picky", {"system": pick(rng, "A", "B")}],
        ))
    if own:
        rng.shuffle(out)
    return out


def can_read_metadata(spec, form, system):
    """Whether a reader can read the metadata of an undamaged dataset of a form"""
    name, kw = spec
    if name == "numpy":
        return form == "npy"
    if name == "ascii":
        return form == "txt"
    if name == "own":
        return form == "own" or (kw["both"] and form == "npy")
    if name == "broken":
        return form == "npy" and kw["late"]
    return form == "npy" and system == kw["system"]


def write_measurement(path, form, td):
    """A measurement folder in the form of npy or txt, written by hand"""
    path.mkdir(parents=True, exist_ok=True)
    meta = TimeMetadata(**td.metadata.dict())
    if form == "npy":
        np.save(str(path / "data.npy"), td.data)
        name = "data.npy"
    elif form == "own":
        (path / "rec.bin").write_bytes(np.ascontiguousarray(td.data, dtype=float).tobytes())
        name = "rec.bin"
    else:
        np.savetxt(str(path / "data.txt"), np.asarray(td.data, dtype=float).T, fmt="%.17g")
        name = "data.txt"
    for c in meta.chans:
        meta.chans_metadata[c].data_files = [name]
    if form == "own":
        (path / "HEADER.TXT").write_bytes(b"OWN\n" + meta.json().encode())
    else:
        (path / "metadata.json").write_text(meta.json())
    return TimeMetadata.parse_raw(meta.json())
