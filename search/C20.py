"""Oracle: the rows of the file, filtered per frame; for keys, the first line
that starts with the key."""
import shutil
import tempfile

from search.common import *

RULE = "0-12 rows x 7-10 columns, rows in any order, some with a fractional or negative frame number, frames without rows, rows after the last frame, lengths 0-8, iterated one to three times; information files with repeated, prefixed, empty, negative and textual values and unknown keys"


def row(rng, frame, ncol):
    r = [frame, -1] + [round(float(v), 2) for v in (rng.uniform(-100, 1000), rng.uniform(-100, 1000), rng.uniform(0, 500), rng.uniform(0, 500), rng.uniform(-1, 1))]
    return (r + [-1, -1, -1])[:ncol]


def corners():
    rng = np.random.default_rng(3)
    out = []
    for own in (0, 1):
        for length, frames in ((0, []), (3, []), (1, [1]), (3, [2]), (3, [3]), (3, [3, 1]), (4, [4, 3, 2, 1]), (2, [1, 2, 3, 5, 1]), (3, [1, 1, 1]), (5, [5, 1, 5, 1, 5, 1]),
                               (3, [0, 1, 3]), (2, [7]), (3, [1.25, 1, 2.5, 3]), (2, [2, 1.5, 0.75, 1, 2.125]), (3, [-1, -2, 1]), (2, [1e9, 2, 1.0]), (12, [12, 2, 10, 1, 11, 9])):
            for ncol in (7, 10):
                out.append(dict(kind="det", own=own, length=length, rows=[row(rng, f, ncol) for f in frames], again=2))
    T = "[Sequence]\nname=MOT17-02\nimDir=img1\nframeRate=30\nseqLength=600\nimWidth=1920\nimExt=.jpg\nneg=-5\nempty=\nbare\nframeRate=25\nspaced = 7\nfloat=1.5\nzero=007"
    for k in ("name", "imDir", "frameRate", "seqLength", "imWidth", "imExt", "neg", "empty", "bare", "spaced", "float", "zero", "nothere", "ame", "NAME", "[Sequence]", "seqLength=600", "seqLengthX"):
        out.append(dict(kind="info", text=T, key=k))
    out += [dict(kind="info", text="", key="a"), dict(kind="info", text="a", key="a"), dict(kind="info", text="a=1\r\na=2\r\n", key="a"),
            dict(kind="info", text="\n\nb=2\n a=3\n", key="a"), dict(kind="info", text="ab=1\na=2\n", key="a"), dict(kind="info", text="ab=1\na=2\n", key="ab")]
    # superscripts and circled numbers are no decimal digits; other scripts' decimals may be read either way
    out += [dict(kind="info", text=f"a=1\nb={v}\nc=3", key="b") for v in ("²", "1²", "①", "½", "٣", "1٣", "é1", "１２")]
    return out


def gen(rng, k):
    if k % 3 == 0:
        keys = ["a", "b", "ab", "seqLength", "imWidth"]
        vals = ["1", "12", "0", "-3", "", "x", "1x", "1.5", "img 1", " 4", "=5", "0012"]
        ls = [str(rng.choice(keys)) + str(rng.choice(["=", "=", " ", ""])) + str(rng.choice(vals)) for _ in range(int(rng.integers(0, 7)))]
        return dict(kind="info", text="\n".join(ls) + ("\n" if rng.random() < 0.5 else ""), key=str(rng.choice(keys + ["zz"])))
    length = int(rng.integers(0, 9))
    ncol = int(rng.choice([7, 8, 10]))
    return dict(kind="det", own=int(rng.integers(2)), length=length, again=int(rng.integers(1, 4)),
                rows=[row(rng, int(rng.integers(1, length + 3)) + (float(rng.choice([-0.5, 0.125, 0.5])) if rng.random() < 0.08 else 0), ncol) for _ in range(int(rng.choice([0, 1, 1, 2, 3, 5, 12])))])


class Info:
    def __init__(self, n):
        self.n = n

    def search(self, variable_name):
        assert variable_name == "seqLength", variable_name
        return self.n


def check(c):
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c20_"))
    try:
        return info(c, tmp) if c["kind"] == "info" else dets(c, tmp)
    finally:
        shutil.rmtree(tmp)


def info(c, tmp):
    from norfair import metrics

    path = os.path.join(tmp, "seqinfo.ini")
    with open(path, "w", newline="") as f:
        f.write(c["text"])
    i = metrics.InformationFile(path)
    key = c["key"]
    hits = [l[len(key) + 1:] for l in c["text"].replace("\r\n", "\n").split("\n") if l.startswith(key)]
    for _ in range(2):  # looking up does not change anything
        try:
            v = i.search(key)
        except ValueError:
            need(not hits, f"an error for the key {key!r}, which is there")
            continue
        need(hits, f"{v!r} for the key {key!r}, which is not there")
        want = int(hits[0]) if hits[0] and all(x in "0123456789" for x in hits[0]) else hits[0]
        if hits[0].isdecimal() and not hits[0].isascii() and type(v) is int and v == int(hits[0]):
            continue
        need(type(v) is type(want) and v == want, f"{v!r} for the key {key!r}, should be {want!r}")


def dets(c, tmp):
    from norfair import Detection, metrics

    os.makedirs(os.path.join(tmp, "det"))
    with open(os.path.join(tmp, "det", "det.txt"), "w") as f:
        for r in c["rows"]:
            f.write(",".join(str(v) for v in r) + "\n")
    with open(os.path.join(tmp, "seqinfo.ini"), "w") as f:
        f.write(f"[Sequence]\nname=x\nframeRate=30\nseqLength={c['length']}\nimWidth=10\n")
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        p = metrics.DetectionFileParser(tmp, **({"information_file": Info(c["length"])} if c["own"] else {}))
    for n in range(c["again"]):
        got = []
        for fr in p:
            got.append(list(fr))
            need(len(got) <= c["length"], "more frames than the sequence has")
        need(len(got) == c["length"], f"iteration {n + 1}: {len(got)} frames, the sequence has {c['length']}")
        for f, ds in enumerate(got, 1):
            want = [([[r[2], r[3]], [r[2] + r[4], r[3] + r[5]]], r[6]) for r in c["rows"] if r[0] == f]
            need(len(ds) == len(want), f"iteration {n + 1}: frame {f} has {len(ds)} detections, the file has {len(want)} rows")
            for d in ds:
                need(isinstance(d, Detection), f"a {type(d).__name__} is not a detection")
                need(np.shape(d.points) == (2, 2) and np.shape(d.scores) == (2,), f"points {np.shape(d.points)}, scores {np.shape(d.scores)}")
                j = [j for j, (q, s) in enumerate(want) if close(d.points, q, 1e-5) and close(d.scores, [s, s], 1e-5)]
                need(j, f"frame {f}: {np.asarray(d.points).tolist()} with {np.asarray(d.scores).tolist()} is none of the remaining rows {want}")
                want.pop(j[0])
    # an iteration that is broken off starts over as well
    if c["length"] >= 2:
        it = iter(p)
        next(it)
        need(len(list(p)) == c["length"], "iterating after a broken-off iteration does not start over")


def nontrivial(c):
    return bool(c.get("rows") or c.get("text"))
