"""Oracle: hex digits by table, names by PIL's and matplotlib's color tables
(pyvc/colors.json), palettes by a plain list."""
import string

from search.common import *

RULE = ("hex strings of 3 and 6 digits in any case, every single-character corruption, lengths 0-9, unicode digits and newlines, every color name, "
        "tuples/lists/arrays of numbers, palettes of 1-7 mixed colors, all names, hashables of several kinds incl. negative, colliding and None")
NAMES = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "pyvc", "colors.json")))
HEX = "0123456789abcdefABCDEF"


def hexval(s):
    """BGR or None if malformed"""
    if not s.startswith("#") or any(c not in HEX for c in s[1:]) or len(s) not in (4, 7):
        return None
    d = [HEX.index(c) if c in "0123456789abcdef" else HEX.index(c) - 6 for c in s[1:]]
    if len(d) == 3:
        d = [x for x in d for _ in range(2)]
    return (d[4] * 16 + d[5], d[2] * 16 + d[3], d[0] * 16 + d[1])


def corners():
    bad = ["", "#", "#12", "#1234", "#12345", "#1234567", "#12345g", "#12g", "123456", "# 12345", "#+12345", "#12_345", "#-1", "##12345", "#12345\n", "#fff\n", "#fff ", " #fff",
           "#١٢٣", "#１２３", "#123456\n", "#ffffff\r\n", "#0x1234", "\n#fff", "#fff#fff", "a#fff", "#é11"]
    out = [dict(kind="hex", s=s) for s in bad + ["#123456", "#abcdef", "#ABCDEF", "#aBcDeF", "#000000", "#ffffff", "#f0F", "#000", "#fff", "#123", "#Abc", "#090A0b"]]
    out += [dict(kind="names")]
    out += [dict(kind="notname", s=s) for s in ("nocolor", "", "Red", "RED", "red ", "_colors", "rgb(1,2,3)", "bluex")]
    out += [dict(kind="tuple", v=v, how=h) for v in ([1, 2, 3], [0, 0, 0], [255, 255, 255], [1.9, 2.2, 254.999]) for h in ("tuple", "list", "array", "npint")]
    for p in (["red"], [[1, 2, 3], [4, 5, 6]], ["#f00", "blue", [1, 2, 3]], ["tab1", "#123456", [5, 5, 5], [5, 5, 5], "cb3"], [[9, 8, 7]] * 7):
        for how in ("list", "tuple", "gen"):
            out.append(dict(kind="palette", p=p, how=how, seed=1))
    out += [dict(kind="pname", s=s) for s in ("tab10", "tab20", "colorblind", "nope", "", "TAB10", "_colors", "red", "#ffffff", "tab10 ")]
    out += [dict(kind="badpalette", p=p) for p in (["red", "nope"], ["#12"], ["#fff\n"], ["blue", [1, 2, 3], "#zzzzzz"])]
    out += [dict(kind="default", c=c) for c in ("red", "#0f0", [1, 2, 3])]
    return out


def gen(rng, k):
    def color():
        r = rng.random()
        if r < 0.3:
            return sorted(NAMES)[rng.integers(len(NAMES))]
        if r < 0.6:
            return "#" + "".join(HEX[rng.integers(22)] for _ in range(rng.choice([3, 6])))
        return [int(x) for x in rng.integers(0, 256, size=3)]

    r = k % 4
    if r == 0:
        s = "#" + "".join(HEX[rng.integers(22)] for _ in range(rng.choice([3, 6])))
        if rng.random() < 0.4:
            j = int(rng.integers(len(s) + 1))
            x = str(rng.choice(list("gG#xz -+_.\n\t /:@`g") + ["²", "٣", "é"]))
            s = s[:j] + x + s[j + int(rng.integers(2)):]
        return dict(kind="hex", s=s)
    if r == 1:
        return dict(kind="tuple", v=[rnd(rng, 0, 255, int(rng.integers(0, 3))) for _ in range(3)], how=["tuple", "list", "array"][rng.integers(3)])
    if r == 2:
        return dict(kind="palette", p=[color() for _ in range(rng.integers(1, 8))], how=["list", "tuple", "gen"][rng.integers(3)], seed=int(rng.integers(1 << 30)))
    return dict(kind="badpalette", p=[color() for _ in range(rng.integers(0, 4))] + ["#" + "g" * 6])


def bgr(c):
    if isinstance(c, str):
        return hexval(c) if c.startswith("#") else tuple(NAMES[c])
    return tuple(int(x) for x in c)


def state(P):
    return [tuple(c) for c in P._colors], tuple(P._default_color)


class Same:
    """equal values in different objects; several ones collide"""

    def __init__(self, k):
        self.k = k

    def __eq__(self, o):
        return isinstance(o, Same) and self.k == o.k

    def __hash__(self):
        return -self.k // 2


def check(c):
    from norfair.drawing.color import PALETTES, Color, Palette, hex_to_bgr, parse_color

    Palette.set("tab10")
    Palette.set_default_color("black")
    kind = c["kind"]
    if kind == "hex":
        want = hexval(c["s"])
        for f in (hex_to_bgr, parse_color):
            if f is parse_color and not c["s"].startswith("#"):
                continue
            try:
                r = f(c["s"])
            except (ValueError, AttributeError) as e:
                r = None
            need(r == want and (r is None or (type(r) is tuple and all(type(x) is int for x in r))), f"{f.__name__}({c['s']!r}) = {r}, expected {want}")
    elif kind == "names":
        for n, v in NAMES.items():
            r = parse_color(n)
            need(r == tuple(v), f"parse_color({n!r}) = {r}, expected {tuple(v)}")
            need(getattr(Color, n) == tuple(v), f"Color.{n}")
        need([tuple(x) for x in PALETTES["tab20"]] == [tuple(NAMES[f"tab{i}"]) for i in range(1, 21)], "tab20")
        need([tuple(x) for x in PALETTES["tab10"]] == [tuple(NAMES[f"tab{i}"]) for i in range(1, 21, 2)], "tab10")
        need([tuple(x) for x in PALETTES["colorblind"]] == [tuple(NAMES[f"cb{i}"]) for i in range(1, 11)], "colorblind")
    elif kind == "notname":
        if c["s"].startswith("_"):
            return
        try:
            r = parse_color(c["s"])
        except Exception:
            return
        need(False, f"parse_color({c['s']!r}) = {r}")
    elif kind == "tuple":
        v = c["v"]
        src = {"tuple": tuple, "list": list, "array": np.array, "npint": lambda x: tuple(np.array(x).astype(np.uint8))}[c["how"]](v)
        r = parse_color(src)
        need(type(r) is tuple and r == tuple(int(x) for x in v) and all(type(x) is int for x in r), f"parse_color({src!r}) = {r!r}")
    elif kind == "palette":
        want = [bgr(x) for x in c["p"]]
        given = [tuple(x) if isinstance(x, list) else x for x in c["p"]]
        d0 = state(Palette)[1]
        Palette.set({"list": lambda: given, "tuple": lambda: tuple(given), "gen": lambda: iter(given)}[c["how"]]())
        need(state(Palette)[0] == want, f"palette {state(Palette)[0]}, expected {want}")
        need(state(Palette)[1] == d0, "default color changed")
        rng = np.random.default_rng(c["seed"])
        ints = [int(x) for x in rng.integers(-10 ** 6, 10 ** 6, size=6)]
        for x, y in [(i, int(str(i))) for i in ints] + [(0, 0), (0, False), (1, True), (1, 1.0), (-1, -1), (-2, -2), ("", ""), ("car", "".join("car")), ((1, "a"), (1, "a")), ((), ())] + [(Same(k), Same(k)) for k in range(5)]:
            r = Palette.choose_color(x)
            need(tuple(r) in want, f"choose_color({x!r}) = {r} is not in the palette")
            need(Palette.choose_color(y) == r, f"choose_color differs for equal values {x!r}")
            need(Palette.choose_color(x) == r, f"choose_color({x!r}) changes")
        need(tuple(Palette.choose_color(None)) == d0, "None does not get the default color")
        need(state(Palette) == (want, d0), "choosing changed the palette")
        given.append("white")
        given[0] = (1, 1, 1)
        given.reverse()
        need(state(Palette) == (want, d0), "the palette changes with the list it was set from")
    elif kind == "pname":
        Palette.set(["red", "#00f"])
        before = state(Palette)
        want = {"tab10": [f"tab{i}" for i in range(1, 21, 2)], "tab20": [f"tab{i}" for i in range(1, 21)], "colorblind": [f"cb{i}" for i in range(1, 11)]}
        try:
            Palette.set(c["s"])
        except ValueError:
            need(c["s"] not in want, f"{c['s']!r} rejected")
            need(state(Palette) == before, "a failure changed the palette")
            return
        need(c["s"] in want, f"unknown palette {c['s']!r} accepted")
        need(state(Palette)[0] == [tuple(NAMES[n]) for n in want[c["s"]]], f"palette {c['s']}")
    elif kind == "badpalette":
        before = state(Palette)
        try:
            Palette.set([tuple(x) if isinstance(x, list) else x for x in c["p"]])
        except Exception:
            need(state(Palette) == before, "a failure changed the palette")
            need(state(Palette)[0] == [tuple(NAMES[f"tab{i}"]) for i in range(1, 21, 2)], "a failure changed the predefined palette")
            return
        need(False, f"palette {c['p']} accepted")
    elif kind == "default":
        v = tuple(c["c"]) if isinstance(c["c"], list) else c["c"]
        Palette.set_default_color(v)
        need(state(Palette)[1] == bgr(c["c"]), "default color")
        need(tuple(Palette.choose_color(None)) == bgr(c["c"]), "None does not get the default color")
