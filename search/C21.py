"""Oracle: a recorded source and output (stand-ins for cv2's capture and
writer), the documented paths and codecs; one run with real files."""
import contextlib
import io
import shutil
import tempfile
import time

from search.common import *
import cv2

RULE = "0-7 frames, cameras and files, failing reads of three kinds, all subsets of frames written, paths with dots, folders and ~, given and default codec, rate and extension; sequence folders of 0-5 images"
REAL = {k: getattr(cv2, k) for k in ("VideoCapture", "VideoWriter", "waitKey", "destroyAllWindows", "imread", "imshow", "VideoWriter_fourcc")}
W = {}  # the world of the current case
clock = time.time


class Capture:
    def __init__(self, src, *a):
        W["sources"].append(src)
        self.pos = 0

    def get(self, prop):
        return {cv2.CAP_PROP_FRAME_COUNT: W["count"], cv2.CAP_PROP_FPS: W["fps"], cv2.CAP_PROP_FRAME_HEIGHT: 4.0, cv2.CAP_PROP_FRAME_WIDTH: 6.0}.get(prop, 0.0)

    def isOpened(self):
        return True

    def read(self, *a):
        if W["released"]:
            return False, None
        p = self.pos
        self.pos += 1
        W["log"].append(("read", p))
        if p in W["fails"]:
            return W["fails"][p]
        return (True, W["frames"][p]) if p < len(W["frames"]) else (False, None)

    def release(self):
        W["released"] = True
        W["log"].append(("release",))


class Writer:
    def __init__(self, filename, fourcc, fps, frameSize, isColor=True):
        W["log"].append(("open", filename, fourcc, fps, tuple(frameSize), isColor))

    def isOpened(self):
        return True

    def write(self, frame):
        W["log"].append(("write", frame))

    def release(self):
        W["log"].append(("release_out",))


FAKE = dict(VideoCapture=Capture, VideoWriter=Writer, waitKey=lambda *a: -1, destroyAllWindows=lambda: None,
            imread=lambda p, *a: W["log"].append(("imread", p)) or ("img", p), imshow=lambda *a: None, VideoWriter_fourcc=lambda *c: "".join(c))


@contextlib.contextmanager
def world(real=False, frozen=False, **kw):
    W.clear()
    W.update(sources=[], log=[], released=False, fails={}, frames=[], count=1.0, fps=25.0)
    W.update(kw)
    here, home = os.getcwd(), os.environ.get("HOME")
    tmp = os.path.realpath(tempfile.mkdtemp(prefix="c21_"))
    os.chdir(tmp)
    os.environ["HOME"] = tmp
    for k, v in (REAL if real else FAKE).items():
        setattr(cv2, k, v)
    if frozen:
        time.time = lambda: 1000.0
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield tmp
    finally:
        time.time = clock
        for k, v in REAL.items():
            setattr(cv2, k, v)
        os.chdir(here)
        if home is not None:
            os.environ["HOME"] = home
        shutil.rmtree(tmp)


FILES = ["video.mp4", "in/a.mp4", "in/a.b.mp4", "in.d/clip.avi", "noext", "~/x.mp4", "in/sp ace.mov"]
OUTS = [None, "folder", "folder/", "out.mp4", "folder/out.avi", "f.d", "no/such/dir.MP4", "o.AvI", "o.mp4", "o.webm", "mp4", "4"]


def corners():
    out = []
    for src in ["cam"] + FILES:
        for o in OUTS:
            out.append(dict(kind="video", src=src, cam=3, out=o, ext=None, cc=None, fps=None, n=2, fail=None, writes=[0, 1], shape=[4, 6], color=True, label="", frozen=False))
    for n in (0, 1, 2, 5):
        for fail in (None, ["ff", 0], ["tn", 0], ["ff", 1], ["tn", 1], ["ft", 1]):
            for writes in ([], [0], [1], [0, 1, 2, 3, 4], [0, 0, 1]):
                out.append(dict(kind="video", src="cam", cam=0, out="folder", ext="avi", cc=None, fps=None, n=n, fail=fail, writes=writes, shape=[4, 6], color=True, label="l", frozen=False))
    for cnt in (1.0, 2.0, 99.0, -1.0):  # the number of frames in a file's header is an estimate
        for src in ("cam", "video.mp4"):
            out.append(dict(kind="video", src=src, cam=0, out="folder", ext="avi", cc=None, fps=None, n=4, fail=None, writes=[0, 3], shape=[4, 6], color=True, label="", frozen=False, count=cnt))
    for fps in (None, 0.0, 10, 29.97):
        for cc in (None, "avc1", "H264"):
            for ext in (None, "avi", "mkv", "MP4"):
                out.append(dict(kind="video", src="video.mp4", cam=0, out="folder", ext=ext, cc=cc, fps=fps, n=1, fail=None, writes=[0], shape=[5, 2], color=False, label="", frozen=True))
    out.append(dict(kind="bad", cam=None, path=None))
    for cam in (0, 3, True, "0", 1.0, [1]):
        out.append(dict(kind="bad", cam=cam, path="video.mp4"))
        out.append(dict(kind="bad", cam=cam, path=None))
    out += [dict(kind="bad", cam=None, path="missing.mp4"), dict(kind="bad", cam=None, path="folder"), dict(kind="bad", cam=None, path="video.mp4", count=0.0), dict(kind="bad", cam=None, path="video.mp4")]
    for f in ("a.mp4", "a.MP4", "a.Mp4", "a.avi", "A.AVI", "mp4", "avi", "a.mp", "", "mp", "a.mp4.txt", "a.mp44", "avimp4", "x.mov", "a.4pm", "dir.mp4/x"):
        for cc in (None, "avc1"):
            out.append(dict(kind="codec", name=f, cc=cc))
    for n in (0, 1, 2, 5):
        for make in (True, False):
            for own in (True, False):
                out.append(dict(kind="frames", n=n, make=make, own=own, path="seq-01", ext=".jpg", again=2))
    out.append(dict(kind="frames", n=3, make=True, own=False, path="a.b/MOT17.02", ext=".png", again=1))
    out.append(dict(kind="real", n=5))
    return out


def gen(rng, k):
    if k % 8 == 0:
        return dict(kind="codec", name="".join(rng.choice(list("avimp4AVIMP.x")) for _ in range(int(rng.integers(0, 6)))), cc=None if rng.random() < 0.8 else "avc1")
    if k % 8 == 1:
        return dict(kind="frames", n=int(rng.integers(0, 12)), make=bool(rng.integers(2)), own=bool(rng.integers(2)), path=str(rng.choice(["seq", "x/y.z", "MOT17-02"])), ext=str(rng.choice([".jpg", ".png"])), again=int(rng.integers(1, 3)))
    n = int(rng.integers(0, 8))
    src = str(rng.choice(["cam"] + FILES))
    fail = None if rng.random() < 0.6 or not n else [str(rng.choice(["ff", "tn", "ft"])), int(rng.integers(0, n))]
    return dict(kind="video", src=src, cam=int(rng.integers(0, 12)), out=[None, *OUTS][int(rng.integers(len(OUTS)))], ext=[None, "avi", "mp4", "MP4", "mkv"][int(rng.integers(5))],
                cc=[None, None, "avc1"][int(rng.integers(3))], fps=[None, 10, 29.97, 0.0][int(rng.integers(4))], n=n, fail=fail,
                writes=sorted(int(x) for x in rng.integers(0, n, int(rng.integers(0, n + 3)))) if n else [], shape=[int(rng.integers(1, 9)), int(rng.integers(1, 9))],
                color=bool(rng.integers(2)), label=str(rng.choice(["", "x" * 200])), frozen=bool(rng.random() < 0.2),
                count=float(rng.choice([max(n, 1), max(n, 1), max(n - 2, 1), n + 3, -1])))


def check(c):
    return globals()["k_" + c["kind"]](c)


def files(tmp):
    for f in FILES:
        p = os.path.join(tmp, f.replace("~/", ""))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
    os.makedirs(os.path.join(tmp, "folder"))
    os.makedirs(os.path.join(tmp, "f.d"))


def codec_of(name):
    return {"avi": "XVID", "mp4": "mp4v"}.get(name[-3:].lower())


def k_codec(c):
    with world(fps=30.0):
        from norfair import Video

        v = Video(camera=0, output_fourcc=c["cc"])
        try:
            r = v.get_codec_fourcc(c["name"])
        except Exception:
            need(c["cc"] is None and codec_of(c["name"]) is None, f"codec of {c['name']!r} is an error")
            return
        want = c["cc"] or codec_of(c["name"])
        need(want is not None, f"codec of {c['name']!r} is {r!r} and no error")
        need(r == want, f"codec of {c['name']!r} is {r!r}, should be {want!r}")


def k_bad(c):
    with world(count=c.get("count", 5.0)) as tmp:
        from norfair import Video

        files(tmp)
        kw = {}
        if c["cam"] is not None:
            kw["camera"] = c["cam"]
        if c["path"] is not None:
            kw["input_path"] = c["path"]
        usage = (c["cam"] is None) == (c["path"] is None) or c["cam"] is not None and type(c["cam"]) is not int
        bad = usage or c["path"] is not None and (not os.path.isfile(c["path"]) or c.get("count") == 0)
        try:
            Video(**kw)
        except Exception as e:
            need(bad, f"Video({kw}) raises {type(e).__name__}: {e}")
            need(not usage or isinstance(e, ValueError), f"Video({kw}) raises {type(e).__name__}")
            return
        need(not bad, f"Video({kw}) is no error")


def k_video(c):
    shape = tuple(c["shape"]) + ((3,) if c["color"] else ())
    frames = [np.full(shape, k + 1, dtype=np.uint8) for k in range(c["n"])]
    fails = {}
    if c["fail"] is not None and c["fail"][1] < c["n"]:
        fails[c["fail"][1]] = {"ff": (False, None), "tn": (True, None), "ft": (False, np.zeros((1, 1, 3), np.uint8))}[c["fail"][0]]
    with world(frames=frames, fails=fails, count=float(c.get("count", max(c["n"], 1))), fps=25.0, frozen=c["frozen"]) as tmp:
        from norfair import Video

        files(tmp)
        kw = {"camera": c["cam"]} if c["src"] == "cam" else {"input_path": c["src"]}
        for k, n in (("out", "output_path"), ("ext", "output_extension"), ("cc", "output_fourcc"), ("fps", "output_fps")):
            if c[k] is not None:
                kw[n] = c[k]
        if c["label"]:
            kw["label"] = c["label"]
        v = Video(**kw)
        need(W["sources"] == [c["cam"] if c["src"] == "cam" else os.path.expanduser(c["src"])], f"sources {W['sources']}")
        o = c["out"] or "."
        if os.path.isdir(o):
            name = f"camera_{c['cam']}" if c["src"] == "cam" else c["src"].split("/")[-1].split(".")[0]
            want = os.path.join(o, f"{name}_out.{c['ext'] or 'mp4'}")
        else:
            want = o
        got = v.get_output_file_path()
        need(got == want, f"output path {got!r}, should be {want!r}")
        cc = c["cc"] or codec_of(want)
        total = fails and c["fail"][1] if fails else c["n"]
        delivered, written = 0, []
        copies = [f.copy() for f in frames]
        for f in v:
            k = delivered
            need(k < total, f"{k + 1} frames delivered, there are {total}")
            need(f is frames[k] or np.array_equal(f, copies[k]) and np.shape(f) == copies[k].shape, f"frame {k} is not the source's frame {k}")
            need([e for e in W["log"] if e[0] == "read"] [-1:] == [("read", k)] and not W["released"], f"source state when frame {k} is delivered: {W['log'][-3:]}")
            delivered += 1
            for x in c["writes"]:
                if x != k:
                    continue
                if cc is None:
                    try:
                        v.write(f)
                    except Exception:
                        continue
                    need(False, f"writing to {want!r} without a codec is no error")
                v.write(f)
                written.append(k)
        need(delivered == total, f"{delivered} frames delivered, there are {total}")
        log = W["log"]
        opens = [e for e in log if e[0] == "open"]
        need(len(opens) == (1 if written else 0), f"{len(opens)} outputs opened for {len(written)} frames")
        if written:
            a = opens[0]
            fps = 25.0 if c["fps"] is None else c["fps"]
            need(a[1] == want and a[2] == cc, f"output opened as {a[1:3]}, should be {(want, cc)}")
            need(a[3] == fps, f"output opened with {a[3]} frames per second, should be {fps}")
            need(a[4] == (shape[1], shape[0]), f"output opened with size {a[4]}, the first frame's is {(shape[1], shape[0])}")
        ws = [e[1] for e in log if e[0] == "write"]
        need(len(ws) == len(written) and all(np.array_equal(x, copies[k]) for x, k in zip(ws, written)), f"{len(ws)} frames in the output, {len(written)} were written")
        kinds = [e[0] for e in log]
        need("release" in kinds, "the source is not released")
        need(("release_out" in kinds) == bool(written), "the output is not released" if written else "an output is released that is not there")
        last = max([k for k, x in enumerate(kinds) if x in ("read", "write")], default=-1)
        need(all(k > last for k, x in enumerate(kinds) if x in ("release", "release_out")), f"released before the end: {kinds}")


class Info:
    def __init__(self, d):
        self.d = d

    def search(self, variable_name):
        return self.d[variable_name]


def k_frames(c):
    with world() as tmp:
        from norfair.video import VideoFromFrames

        os.makedirs(c["path"])
        d = dict(name="x", imDir="img1", frameRate=14, seqLength=c["n"], imWidth=640, imHeight=480, imExt=c["ext"])
        with open(os.path.join(c["path"], "seqinfo.ini"), "w") as f:
            f.write("[Sequence]\n" + "".join(f"{k}={v}\n" for k, v in d.items()))
        v = VideoFromFrames(c["path"], save_path="save", make_video=c["make"], **({"information_file": Info(d)} if c["own"] else {}))
        opens = [e for e in W["log"] if e[0] == "open"]
        need(len(opens) == c["make"], f"{len(opens)} outputs opened")
        if c["make"]:
            a = opens[0]
            want = os.path.join("save", "videos", os.path.split(c["path"])[1] + ".mp4")
            need(a[1:5] == (want, "mp4v", 14, (640, 480)), f"output opened with {a[1:5]}")
        for n in range(c["again"]):
            W["log"].clear()
            k = 0
            for f in v:
                k += 1
                need(k <= c["n"], "more frames than the sequence has")
                want = os.path.join(c["path"], "img1", f"{k:06d}" + c["ext"])
                need(f == ("img", want) and W["log"].count(("imread", want)) == 1, f"frame {k} is {f}, should be {want}")
                if c["make"] and n == 0:
                    v.update(f)
                    log = [e[0] for e in W["log"] if e[0] != "imread"]
                    need(log[:k] == ["write"] * k and ("release_out" in log[k:]) == (k == c["n"]) and "write" not in log[k:], f"after frame {k} of {c['n']}: {log}")
                    need(W["log"][[e[0] for e in W["log"]].index("write")][1][0] == "img", "another frame is written")
            need(k == c["n"], f"{k} frames, the sequence has {c['n']}")
        if c["n"] >= 2:
            next(iter(v))
            need(len(list(v)) == c["n"], "iterating after a broken-off iteration does not start over")


def k_real(c):
    with world(real=True):
        from norfair import Video

        w = cv2.VideoWriter("in.avi", cv2.VideoWriter_fourcc(*"MJPG"), 12.0, (64, 48))
        if not w.isOpened():
            return None
        for k in range(c["n"]):
            w.write(np.full((48, 64, 3), 40 * k + 20, np.uint8))
        w.release()
        v = Video(input_path="in.avi", output_path="out.avi", output_fourcc="MJPG")
        got = []
        for f in v:
            got.append(float(f.mean()))
            v.write(f)
        need(len(got) == c["n"] and all(abs(g - 40 * k - 20) < 5 for k, g in enumerate(got)), f"frames {got}")
        r = cv2.VideoCapture("out.avi")
        got = []
        while True:
            ok, f = r.read()
            if not ok:
                break
            got.append((float(f.mean()), f.shape))
        need(len(got) == c["n"] and all(abs(g - 40 * k - 20) < 8 and s == (48, 64, 3) for k, (g, s) in enumerate(got)), f"frames read back {got}")
        need(abs(r.get(cv2.CAP_PROP_FPS) - 12) < 0.1, "frame rate of the output")
        r.release()


def nontrivial(c):
    return c["kind"] != "video" or c["n"] > 0
