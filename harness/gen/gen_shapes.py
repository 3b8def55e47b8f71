#!/usr/bin/env python3
"""Writes src/props/shape_types.rs: instantiations of the built-in types, every constructor over every
kind of argument and random nestings of them."""
import os, random
R = random.Random(23)
INTS = "u8 u16 u32 u64 u128 usize i8 i16 i32 i64 i128 isize".split()
HASH = INTS + ["bool", "char", "()", "String", "&'static str", "Cow<'static, str>", "PathBuf", "&'static Path", "SocketAddr", "IpAddr",
               "Ipv4Addr", "Ipv6Addr", "ConstTypeId", "Leaf", "Pick", "PhantomData<u32>", "camino::Utf8PathBuf"] + [f"NonZero<{t}>" for t in INTS]
LEAF = HASH + ["f32", "f64", "Link", "PhantomData<[u8]>", "PhantomData<dyn Send>", "RandomState"]
def key(d):
    k = R.random()
    if d == 0 or k < .5: return R.choice(HASH)
    return R.choice([lambda: f"Vec<{key(d-1)}>", lambda: f"Option<{key(d-1)}>", lambda: f"[{key(d-1)}; {R.choice([0,1,2,3,7])}]",
                     lambda: f"({key(d-1)}, {key(d-1)})", lambda: f"Arc<{key(d-1)}>"])()
def ty(d):
    if d == 0: return R.choice(LEAF)
    t = lambda: ty(R.randrange(d))
    n = R.randint(1, 12)
    return R.choice([
        lambda: f"Vec<{t()}>", lambda: f"Option<{t()}>", lambda: f"&'static [{t()}]", lambda: f"Arc<{t()}>", lambda: f"Weak<{t()}>",
        lambda: f"NonNull<{t()}>", lambda: f"[{t()}; {R.choice([0,1,2,3,5,9,32,33,1000])}]", lambda: f"BTreeMap<{key(d-1)}, {t()}>",
        lambda: f"HashMap<{key(d-1)}, {t()}>", lambda: f"HashMap<{key(d-1)}, {t()}, OwnHasher>", lambda: f"Wrap<{t()}>", lambda: f"Both<{t()}, {t()}>",
        lambda: "(" + ", ".join(t() for _ in range(n)) + ("," if n == 1 else "") + ")"])()
out = []
def add(t):
    if t not in out: out.append(t)
for t in LEAF: add(t)
for i, t in enumerate(LEAF):
    for c in ["Vec<{}>", "Option<{}>", "&'static [{}]", "Arc<{}>", "Weak<{}>", "NonNull<{}>", "[{}; 3]"]:
        if i % 3 == 0 or t in ("u8", "u32", "u64", "String", "Leaf", "Pick", "f64", "Link", "()", "NonZero<u64>"): add(c.format(t))
for n in range(1, 13):
    for _ in range(5):
        ts = [R.choice(LEAF) for _ in range(n)]
        add("(" + ", ".join(ts) + ("," if n == 1 else "") + ")")
for n in (0, 1, 2, 3, 4, 8, 31, 32, 33, 64, 255, 4096): add(f"[u16; {n}]")
for k in ("u8", "String", "Leaf", "char"):
    for v in ("u8", "u64", "String", "Leaf", "f32"):
        add(f"BTreeMap<{k}, {v}>"); add(f"HashMap<{k}, {v}>")
    add(f"HashMap<{k}, {k}, OwnHasher>")
while len(out) < 640: add(ty(R.choice([1, 2, 2, 3, 3, 4])))
here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "../src/props/shape_types.rs"), "w") as f:
    f.write("// written by gen/gen_shapes.py\nfn types() -> Vec<(&'static str, Arg)> {\n    vec![\n")
    for t in out: f.write(f'        ("{t}", <{t} as Say>::desc as Arg),\n')
    f.write("    ]\n}\n")
