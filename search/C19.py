"""Oracle: the lines and rows computed directly from the objects handed in."""
import shutil
import tempfile
from types import SimpleNamespace

from search.common import *

RULE = "1-7 frames x 0-5 objects x 1-4 videos, boxes of any sign and size, given frame numbers, information file given or found in the folder"


def objs(rng, n):
    return [[int(rng.choice([0, 1, 7, 12, 123456])) + k, [round(float(v), 3) for v in rng.choice([-1, 1, 1000, 1e-3, 1e6]) * rng.uniform(-1, 1, 4)]] for k in range(n)]


def corners():
    rng = np.random.default_rng(7)
    out = []
    for kind in ("pred", "acc"):
        for own in (0, 1):
            for fr in ([0], [1], [3], [0, 0], [1, 0], [0, 1], [0, 2, 0], [2, 2, 2], [1] * 5, [0, 0, 3, 0], list(range(6))):
                out.append(dict(kind=kind, own=own, dt="f8", videos=[[dict(o=objs(rng, n), n=None) for n in fr]] * (2 if kind == "acc" else 1)))
    out.append(dict(kind="acc", own=0, dt="f8", videos=[[dict(o=objs(rng, n), n=None) for n in fr] for fr in ([0], [1], [2, 0], [0, 0, 1], [1])]))
    out.append(dict(kind="pred", own=0, dt="f8", videos=[[dict(o=objs(rng, 2), n=v) for v in (5, 3, 3, 10, 0)]]))
    out.append(dict(kind="pred", own=1, dt="f4", videos=[[dict(o=[[1, [0.0, 0.0, 0.0, 0.0]], [2, [-1.5, -2.25, 3.0, 4.5]]], n=None)]]))
    return out


def gen(rng, k):
    kind = ["pred", "acc"][k % 2]
    vids = []
    for _ in range(1 if kind == "pred" else int(rng.integers(1, 5))):
        vids.append([dict(o=objs(rng, int(rng.choice([0, 1, 1, 2, 3, 5]))), n=int(rng.integers(0, 30)) if kind == "pred" and rng.random() < 0.2 else None)
                     for _ in range(int(rng.integers(1, 8)))])
    return dict(kind=kind, own=int(rng.integers(2)), dt=["f8", "f8", "f4", "i8"][int(rng.integers(4))], videos=vids)


class Info:
    def __init__(self, n):
        self.n = n

    def search(self, variable_name):
        assert variable_name == "seqLength", variable_name
        return self.n


def mk(o, dt):
    b = np.array(o[1], dtype=float).reshape(2, 2)
    return SimpleNamespace(id=o[0], estimate=b.astype({"f8": float, "f4": np.float32, "i8": int}[dt]), label=None, live_points=np.array([True, True]))


def expect(frame, o):
    e = o.estimate
    return [frame, o.id, e[0, 0], e[0, 1], e[1, 0] - e[0, 0], e[1, 1] - e[0, 1], -1, -1, -1, -1]


def open_fds(path):
    out = 0
    for f in os.listdir("/proc/self/fd"):
        try:
            out += os.readlink("/proc/self/fd/" + f) == path
        except OSError:
            pass
    return out


def check(c):
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c19_"))
    try:
        return run(c, tmp)
    finally:
        shutil.rmtree(tmp)


def seq(tmp, v, frames):
    d = os.path.join(tmp, "in", f"seq{v}")
    os.makedirs(d)
    with open(os.path.join(d, "seqinfo.ini"), "w") as f:
        f.write(f"[Sequence]\nname=seq{v}\nimDir=img1\nframeRate=30\nseqLength={len(frames)}\nimWidth=1920\nimHeight=1080\nimExt=.jpg\n")
    return d


def run(c, tmp):
    from norfair import metrics

    if c["kind"] == "pred":
        frames = c["videos"][0]
        d = seq(tmp, 0, frames)
        save = os.path.join(tmp, "out")
        w = metrics.PredictionsTextFile(d, save_path=save, **({"information_file": Info(len(frames))} if c["own"] else {}))
        files = [os.path.join(a, x) for a, _, b in os.walk(save) for x in b]
        need(len(files) == 1, f"{len(files)} files were made")
        want = []
        for k, fr in enumerate(frames):
            need(open_fds(files[0]) > 0, f"the file is closed before frame {k + 1} of {len(frames)}")
            os_ = [mk(o, c["dt"]) for o in fr["o"]]
            keep = [(o.id, o.estimate.copy()) for o in os_]
            w.update(list(os_), **({} if fr["n"] is None else {"frame_number": fr["n"]}))
            for o, (i, e) in zip(os_, keep):
                need(o.id == i and np.array_equal(o.estimate, e), "objects are modified")
            want += [expect(k + 1 if fr["n"] is None else fr["n"], o) for o in os_]
        need(open_fds(files[0]) == 0, "the file is not closed after the last frame")
        text = open(files[0]).read()
        need(text == "" or text.endswith("\n"), "the last line is not complete")
        lines = text.split("\n")[:-1]
        need(len(lines) == len(want), f"{len(lines)} lines for {len(want)} objects")
        for l, x in zip(lines, want):
            f = l.split(",")
            need(len(f) == 10, f"line {l!r} has {len(f)} fields")
            need(f[0] == str(x[0]) and f[1] == str(x[1]), f"line {l!r}: frame {x[0]}, id {x[1]}")
            need(close([float(v) for v in f], x, 1e-6), f"line {l!r} should be {x}")
            need(all(float(v) == -1 for v in f[6:]), f"line {l!r} ends with -1 four times")
        return None
    a = metrics.Accumulators()
    want, paths = [], []
    for v, frames in enumerate(c["videos"]):
        d = seq(tmp, v, frames)
        paths.append(d)
        a.create_accumulator(d, **({"information_file": Info(len(frames))} if c["own"] else {}))
        rows = []
        for k, fr in enumerate(frames):
            need(len(a.matrixes_predictions) == v, f"video {v} collected before its frame {k + 1} of {len(frames)}")
            os_ = [mk(o, c["dt"]) for o in fr["o"]]
            a.update(list(os_))
            rows += [expect(k + 1, o) for o in os_]
        want.append(np.array(rows, dtype=float).reshape(-1, 10))
        need(len(a.matrixes_predictions) == v + 1, f"video {v} is not collected after its last frame")
        need([str(p) for p in a.paths] == paths, f"paths {a.paths} of videos {paths}")
        for j, m in enumerate(want):
            got = a.matrixes_predictions[j]
            n = np.shape(got)[0]
            need(n == len(m), f"video {j}: {n} rows for {len(m)} objects")
            if n:
                need(close(np.asarray(got, dtype=float), m, 1e-6), f"video {j}: rows {np.asarray(got).tolist()} should be {m.tolist()}")
    return None


def nontrivial(c):
    return any(f["o"] for v in c["videos"] for f in v)
