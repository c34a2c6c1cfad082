"""Oracle: the canvas pixel by pixel."""
from search.common import *

RULE = "frames 1-9 x 1-9, 1-4 channels, scales 0.3-3, attenuations 0-1, histories of 1-5 frames with displacements inside, partly and wholly outside"


def corners():
    out = []
    for H, W in ((1, 1), (4, 6), (5, 3), (7, 7)):
        for sc in (0.5, 1, 1.5, 2, 3):
            mv = [[0, 0], [1, 0], [0, -2], [W, H], [-W, -H], [3 * W, 0], [0, -3 * H], [-40, 35], [0.4, -0.6], [2.5, -3.5], [-1, H + 1]]
            out.append(dict(H=H, W=W, C=3, scale=sc, att=0.3, seed=H, mvs=mv))
    out.append(dict(H=3, W=4, C=1, scale=2, att=0.0, seed=1, mvs=[[0, 0], [1, 1], [5, 5]]))
    out.append(dict(H=3, W=4, C=4, scale=2, att=1.0, seed=1, mvs=[[0, 0], [1, 1], [5, 5]]))
    return out


def gen(rng, k):
    H, W = int(rng.integers(1, 10)), int(rng.integers(1, 10))
    s = float(rng.choice([1, 4, 12]))
    return dict(H=H, W=W, C=int(rng.choice([1, 3, 4])), scale=rnd(rng, 0.3, 3, 2), att=rnd(rng, 0, 1, 2), seed=int(rng.integers(1 << 30)),
                mvs=[[rnd(rng, -s, s, int(rng.integers(0, 2))), rnd(rng, -s, s, int(rng.integers(0, 2)))] for _ in range(rng.integers(1, 6))])


def check(c):
    import norfair.utils
    from norfair.camera_motion import TranslationTransformation
    from norfair.drawing.fixed_camera import FixedCamera

    rng = np.random.default_rng(c["seed"])
    H, W, C = c["H"], c["W"], c["C"]
    cam = FixedCamera(scale=c["scale"], attenuation=c["att"])
    ch, cw = int(np.round(H * c["scale"])), int(np.round(W * c["scale"]))
    old = np.zeros((ch, cw, C), np.uint8)
    past = []
    for k, (mx, my) in enumerate(c["mvs"]):
        f = rng.integers(1, 256, size=(H, W, C)).astype(np.uint8)
        f0 = f.copy()
        r = cam.adjust_frame(f, TranslationTransformation(np.array([mx, my], float)))
        ty, tx = int(np.round(ch // 2 - H // 2 - my)), int(np.round(cw // 2 - W // 2 - mx))
        want = old.copy() if k == 0 else (old * (1 - c["att"])).astype(np.uint8)
        for y in range(ch):
            for x in range(cw):
                if 0 <= y - ty < H and 0 <= x - tx < W:
                    want[y, x] = f0[y - ty, x - tx]
        need(isinstance(r, np.ndarray) and r.shape == want.shape, f"canvas {getattr(r, 'shape', None)}, expected {want.shape}")
        need(r.dtype == np.uint8, f"canvas of {r.dtype}")
        if not np.array_equal(r, want):
            y, x = np.argwhere((r != want).any(axis=2))[0]
            need(False, f"frame {k}, displacement {mx, my}: pixel {y, x} is {r[y, x].tolist()}, expected {want[y, x].tolist()}")
        need(np.array_equal(f, f0), "the frame was modified")
        for p, q in past:
            need(np.array_equal(p, q), "a canvas returned earlier was modified")
        past.append((r, want.copy()))
        old = want
