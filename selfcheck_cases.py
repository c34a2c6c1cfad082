"""Snippets for selfcheck.py.  Arguments: a, b (n,2) reals; v, w (n,) reals (w positive);
m (n,) bool; M (2,2) invertible; s, t reals; i index; j maybe negative index; n size;
u (n,3) uint8; z (3,2); e (n,) ints; l list of n reals; d dict; q bool; x, y ints (y > 0)."""
ARGS = "a, b, v, w, m, M, s, t, i, j, n, u, z, e, l, d, q, x, y"

EXPRS = """
a + b
a - s
s - a
a * b
a / w[:, None]
a ** 2
-a
abs(a)
np.abs(a - b)
a == b
a != b
a < b
a <= s
v > w
v >= 0
(v > 0) & m
(v > 0) | m
~m
m ^ (v > 0)
a.T
a.T @ b
a @ M
M @ a.T
z @ M
np.dot(a, M)
a.sum()
a.sum(axis=0)
a.sum(axis=1)
np.sum(a, axis=1, keepdims=True)
a.mean()
a.mean(axis=0)
np.mean(a, axis=1)
a.min()
a.max()
a.min(axis=0)
a.max(axis=1)
np.amax(a)
v.argmin()
v.argmax()
np.argmin(a)
np.argmax(z)
z.argmin(axis=1)
z.argmin(axis=0)
v.any()
m.any()
m.all()
np.any(v > 1)
np.all(a > -3)
np.all(a > 0, axis=1)
np.any(a > 0, axis=1)
np.count_nonzero(m)
np.count_nonzero(v)
m.sum()
v.prod()
z.prod(axis=0)
np.prod(z, axis=1)
a[i]
a[i, 1]
a[j]
v[j]
a[:, 0]
a[:, 1:]
a[1:]
a[:1]
a[:-1]
a[::-1]
a[:, ::-1]
a[0:n, 0]
a[None]
a[:, None, :]
v[:, None]
v[np.newaxis, :]
a[m]
v[m]
a[~m]
a[m, 0]
a[v > 0]
a[m].shape
len(a[m])
a[[0]]
z[[2, 0]]
z[[True, False, True]]
z[np.array([1, 1, 0])]
a[..., 0]
np.where(m, v, w)
np.where(m, v, 0)
np.where(m[:, None], a, b)
np.argwhere(m).shape
len(np.where(m)[0])
np.zeros((n, 2))
np.ones(n)
np.full((n, 2), s)
np.eye(2)
np.eye(3, 2)
np.eye(2, 3, 1)
np.identity(2)
np.zeros_like(a)
np.ones_like(v)
np.full_like(v, 7)
np.diag(M)
np.diag([s, t])
np.diag(np.array([1.0, 2.0, 3.0]))
M.diagonal()
np.hstack([a, b])
np.vstack([a, b])
np.hstack((v, w))
np.vstack((v, w))
np.stack([v, w])
np.stack([v, w], axis=1)
np.concatenate([a, b])
np.concatenate([a, b], axis=1)
np.concatenate((v, w))
np.column_stack((v, w))
np.array([s, t])
np.array([[s, t], [1, 2]])
np.array([v, w])
np.array([s, 1])
np.array([1, 2, 3])
np.array([True, False])
np.array(l)
np.asarray(a)
np.array(a, dtype=float)
a.astype(int)
v.astype(bool)
m.astype(int)
m.astype(float)
e.astype(float)
u.astype(int)
u.astype(float) * 0.5
a.copy()
a.flatten()
a.ravel()
z.reshape(2, 3)
z.reshape(-1)
z.reshape((6, 1))
z.reshape(-1, 3)
a.reshape(-1, 2)
a.reshape(n, 2, 1)
v.reshape(-1, 1)
v.reshape((1, -1))
np.expand_dims(a, 0)
np.expand_dims(v, 1)
v.reshape(-1, 1).squeeze(1)
np.squeeze(M[:1])
a.shape
a.ndim
a.size
len(a)
np.shape(a)
np.maximum(a, b)
np.minimum(v, s)
np.clip(v, -1, 1)
np.clip(v, 0, None)
v.clip(0)
np.sign(v)
np.square(v)
np.round(v)
np.around(v * 10) / 10
np.round(v, 1)
np.rint(v)
v.round()
np.floor_divide(e, 2) if False else e // 2
e % 3
e // y
e * 2 + 1
e / 2
e == 0
e[m]
np.logical_and(m, v > 0)
np.logical_or(m, v > 0)
np.logical_not(m)
np.logical_xor(m, v > 0)
np.isnan(v)
np.isfinite(a)
np.isinf(v)
np.array_equal(a, b)
np.array_equal(a, a.copy())
np.array_equal(a, v)
np.linalg.inv(M) @ M
np.linalg.inv(M)
np.linspace(0, 1, y)
np.linspace(0.99, 0.01, n)
np.repeat(v, 2)
np.repeat(np.array([1.0, 2.0]), y)
np.outer(np.array([1, 2]), np.array([3, 4, 5]))
np.broadcast_to(v, (2, n))
np.multiply(a, 2)
np.divide(v, w)
np.add(v, 1)
np.subtract(v, w)
np.power(v, 2)
np.negative(v)
np.transpose(a)
np.reshape(z, (2, 3))
np.atleast_2d(v)
np.ndim(a)
u + u
u * 0.5
(u * 0.5).astype(np.uint8)
u.sum()
u[:, 0]
u.max()
a.tolist()
v.tolist()
float(v[i])
int(v[i])
bool(m[i])
float(s)
int(s)
int(t)
round(s)
round(s * 2)
abs(s)
abs(x)
-x
x // y
x % y
x / y
x ** 2
divmod(x, y)
x < y
x == y
x != y and s < t
x > 0 or q
not q
min(s, t)
max(s, t, 0)
min(l)
max(l)
sum(l)
len(l)
l[i]
l[j]
l[-1]
l[0]
l[1:]
l[:-1]
l[:2]
l[::-1] if False else list(reversed(l))
l + [s]
[s] + l
[p * 2 for p in l]
[p for p in l if p > 0]
len([p for p in l if p > 0])
[(k, p) for k, p in enumerate(l)]
[p + r for p, r in zip(l, v)]
[p for p in range(y)]
list(range(2, 5))
list(range(5, 0, -2))
sum(p for p in l if p > 0)
any(p > 1 for p in l)
all(p > -1 for p in l)
sorted([s, t, 0.5])
sorted([3, 1, 2], reverse=True)
sorted([(2, "b"), (1, "a")], key=lambda p: p[0])
tuple(l) == tuple(l)
s in [1, 2, s]
x in (1, 2, 3)
"k" in d
d["k"]
d.get("zz", 5)
d.get("h")
len(d)
list(d)
list(d.keys())
list(d.values())
list(d.items())
{**d, "new": s}["new"]
dict(k=s)["k"]
(s, t)[0]
(s, t)[x > 0]
s if q else t
"a-b".split("-")
"ab" + "cd"
"abc"[1:]
"abc"[::-1]
"aXb".lower()
"x".join(["1", "2"])
"abc".startswith("ab")
"abc" == "abd"
str(12)
str(True)
str(None)
f"{3}-{'a'}"
"%d" % 3
"{} {}".format(1, "b")
"7".zfill(3)
"12".isdigit()
isinstance(s, float)
isinstance(x, int)
isinstance(a, np.ndarray)
isinstance(l, list)
isinstance(l, (tuple, list))
type(l) is list
callable(len)
hasattr(a, "shape")
getattr(a, "shape")[1]
(lambda p, r=2: p * r)(s)
a[5]
v[n]
l[n]
d["missing"]
1 / (x - x)
s + "a"
None + 1
len(3)
int("12")
int("ff", 16)
float("1.5")
[1, 2, 3].index(2)
[1, 2, 3].count(2)
np.zeros((0, 2)).sum()
np.zeros((0, 2)).shape
len(np.zeros((0, 3)))
np.zeros(0).any()
np.zeros(0).all()
np.zeros((3, 0)).shape
np.zeros(0).max()
np.vstack([np.zeros((0, 2)), a])
np.array([[1, 2], [3, 4]])[0]
np.array([[1.5, 2], [3, 4]])[:, 0]
np.array([[s, t]]).T
np.array([1, 2]) / 2
np.array([5, 7]) // 2
np.array([5, 7]) * 1.5
np.array([1, 2]).astype(float)
np.array([[1, 2], [3, 4]]).sum(axis=0)
np.array([1, 2]) @ np.array([3, 4])
M @ np.array([s, t])
np.array([s, t]) @ M
(a - b)[0] @ (a - b)[0]
a[0] * M
M * a[0][:, None]
a + np.array([s, t])
a * np.array([[2], ]) if n == 1 else a
np.max([v, w], axis=0)
np.minimum(a[:, 0], a[:, 1])
(a > b).sum()
(a > b).sum(axis=1)
np.sum(m) / len(m)
v[m].sum()
v[m].mean() if m.any() else 0
a[m].sum(axis=0)
a[m].mean(axis=0) if m.any() else None
np.sum(v[v > 0])
np.abs(a[:, None, :] - z[None, :, :]).sum(axis=2)
((a[:, None, :] - z[None]) ** 2).sum(axis=-1)
(v[:, None] < z[:, 0][None, :])
np.unique(e).shape[0] > 0
np.arange(3) if False else 0
"""

BODIES = """
r = []
for p in l:
    r.append(p * 2)
return r
---
r = 0
for p in l:
    if p > 0:
        r += 1
return r
---
r = 0
for p in l:
    r += p
return r
---
r = None
for p in l:
    if r is None or p < r:
        r = p
return r
---
r = -5
for p in l:
    r = max(r, p)
return r
---
r = []
for k, p in enumerate(l):
    if p > 0:
        r.append((k, p))
return r
---
for k in range(n):
    a[k] = b[k] * 2
return a
---
for k in range(n):
    if m[k]:
        v[k] = 0
return v
---
v[m] = 0
return v
---
v[m] = w[m]
return v
---
v[m] += 1
return v
---
a[m] = 1.5
return a
---
a[:, 0] = v
return a
---
a[0] = [s, t]
return a
---
a[i, 1] += 3
return a
---
a += 1
return a
---
a -= b
return a
---
a *= s
return a
---
c = a
c += 1
return a
---
c = a.copy()
c += 1
return a
---
c = a[:, 0]
c += 1
return a
---
c = a.T
c[0] = 5
return a
---
c = a.reshape(-1)
c[0] = 9
return a
---
c = a.flatten()
c[0] = 9
return a
---
c = a[m]
c += 1
return a
---
c = np.asarray(a)
c[0, 0] = 4
return a
---
c = np.array(a)
c[0, 0] = 4
return a
---
M[0, 1], M[1, 0] = M[1, 0], M[0, 1]
return M
---
v[v < 0] = 0
v[v > 1] = 1
return v
---
l.append(s)
l.insert(0, t)
return l
---
l[0] = s
return l
---
k = l
k.append(1.0)
return l
---
k = l[:]
k.append(1.0)
return l
---
k = list(l)
k.append(1.0)
return len(l)
---
return l.pop()
---
l.pop(0)
return l
---
l.pop()
return l
---
l.extend([s, t])
return l
---
k = [[] for p in l]
k[0].append(s)
return k[0]
---
r = {}
for k in ("a", "b"):
    r[k] = s
return r
---
d["z"] = s
d["k"] += 1
return d
---
try:
    r = d["nope"]
except KeyError:
    r = s
return r
---
try:
    r = 1
    raise ValueError("x")
except (TypeError, ValueError) as err:
    r = 2
finally:
    r = r + 1
return r
---
try:
    return s
finally:
    d["k"] = 9
---
def g(p, *rest, k=1, **kw):
    return p + len(rest) + k + len(kw)
return g(s, 1, 2, k=3, z=4)
---
def make():
    c = 0
    def inc():
        nonlocal c
        c += 1
        return c
    return inc
g = make()
g()
return g()
---
fs = []
for k in range(3):
    fs.append(lambda: k)
return [g() for g in fs]
---
class A:
    z = 1
    def __init__(self, p):
        self.p = p
    @property
    def double(self):
        return self.p * 2
    def m(self):
        return self.z + self.p
class B(A):
    def m(self):
        return super().m() + 10
o = B(s)
o.z = 5
return (o.m(), o.double, A.z, isinstance(o, A))
---
class A:
    @classmethod
    def c(cls, p):
        cls.n = p
        return cls.n
    @staticmethod
    def st(p):
        return p + 1
return (A.c(s), A.n, A.st(t))
---
k = 0
while k < 3:
    k += 1
    if k == 2:
        break
else:
    k = 10
return k
---
for p in [1, 2, 3]:
    if p == 5:
        break
else:
    return s
return t
---
r = 0
for p in [1, 2, 3]:
    if p == 2:
        continue
    r += p
return r
---
p, (r, *c) = s, [t, 1, 2]
return (p, r, c)
---
assert x < 100
return x
---
r = s
r += 1 if q else 2
return r
---
if s < t < 10:
    return 1
elif q:
    return 2
return 3
---
r = np.zeros((n, n))
for k in range(n):
    for o in range(n):
        r[k, o] = v[k] - w[o]
return r
---
r = np.zeros((n, 2))
for k, (p, o) in enumerate(zip(a, b)):
    r[k] = p + o
return r
---
r = np.zeros(n)
for k, p in enumerate(a):
    r[k] = p.sum()
return r
---
r = 0
for p in a:
    r += p[0]
return r
---
r = np.zeros(2)
for p in a:
    r += p
return r
---
r = []
for p in a:
    if p[0] > 0:
        r.append(p)
return len(r)
---
for p in a:
    p[0] = 7
return a
---
for p in a:
    p += 1
return a
---
r = True
for p in l:
    if p < 0:
        r = False
return r
---
r = -1
for k, p in enumerate(l):
    if p > 0:
        r = k
return r
---
for k, p in enumerate(l):
    if p > 0:
        return k
return -1
---
for p in l:
    if p > 1:
        raise ValueError("big")
return s
---
for p in l:
    if p < 0:
        break
else:
    return 1
return 0
---
r = list(l)
for k in range(len(l)):
    r[k] = l[k] + 1
return r
---
c = np.where(m, v, w)
c[0] = 100
return v
---
u[0] = 300 - 45
return u
---
u[:] = (u * 0.9).astype("uint8")
return u
---
r = u.astype(np.uint8)
r[0, 0] = 1
return u
---
r = np.zeros((3, 3), np.uint8)
r[0:2, 1:3] = 7
return r
---
r = np.zeros((3, 3))
r[1:, :2] = z[:2, :2]
return r
---
r = np.zeros((4, 4))
r[:2, :2] = M
r[2:, 2:] = np.eye(2)
return r
---
r = np.ones((2, 3))
r[[0, 1], [2, 0]] = 5
return r
---
r = np.eye(3)
r[:, 1] *= 2
return r
---
r = np.array([1, 2, 3])
r[0] = 2.7
return r
---
r = np.array([True, False])
r[1] = 5
return r
---
r = np.array([1.0, 2.0])
c = r
r = r + 1
return c
---
g = (p * 2 for p in l)
return sum(g)
---
return next(p for p in [1, 2, 3] if p > 1)
---
return next((p for p in [1, 2] if p > 5), None)
---
return max(l, key=lambda p: -p)
---
return min([(s, 1), (t, 2)], key=lambda p: p[0])[1]
---
global G
G = s
return G
---
import math
return math.sqrt(16)
---
r = sorted(l)
return r[0]
---
return [p for p in [1, None, 2] if p is not None]
---
o = None
return o is None
---
r = [0] * 3
r[1] = s
return r
---
r = set([1, 2, 2])
return len(r)
---
r = {1, 2} | {3}
return 3 in r
---
del d["k"]
return len(d)
---
r = l.copy()
r.reverse()
return r
---
r = [3, 1, 2]
r.sort()
return r
---
r = [1, 2, 3, 4]
del r[1:3]
return r
---
r = [1, 2, 3]
r[1:] = [9]
return r
---
r = [[1, 2], [3]]
return [p for o in r for p in o]
---
r = [s, t]
p, o = r
return o
---
return [*l, s]
---
return (*l, s)
---
a, b = b, a
return a
---
return a if (k := len(a)) > 2 else b
"""

CASES = []
for e_ in EXPRS.strip().splitlines():
    CASES.append((f"expr{len(CASES)}", f"def f({ARGS}):\n    return {e_}\n"))
for b_ in BODIES.strip().split("\n---\n"):
    CASES.append((f"body{len(CASES)}", f"def f({ARGS}):\n" + "".join("    " + l + "\n" for l in b_.splitlines())))
