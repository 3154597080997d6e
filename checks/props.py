"""What each property's check builds and runs, and how much its monitors must see."""
import os, sys
Unit = sys.modules["__main__"].Unit
import progs
import compat

STD = "std::allocator<T>"
AR = "Alloc<T,T,PolPlain>"
HK = "Alloc<T,T,Pol<false,false,false,3>>"     # construct and destroy hooks
U32 = "Alloc<T,T,Pol<false,false,false,0,std::uint32_t>>"
U16 = "Alloc<T,T,Pol<false,false,false,0,std::uint16_t>>"
PT = "PtrAlloc<T,T>"
OFF = "OffAlloc<T,T>"
OFFSET_FLAGS = ["-DVT_HAVE_OFFSET_PTR"] if os.path.exists("/usr/include/boost/interprocess/offset_ptr.hpp") else []
# libstdc++'s own temporary buffers ignore the alignment of over-aligned types
# (sort and merge use them), so these types run without the algorithms.
NOALG = "c.algos=false"


def unit(name, src, T, alloc=None, seg=None, base=None, cases=None, shards=2, san="none", flags=(), extra=None, **kw):
    d = {"VT_T": T}
    for k, v in (("VT_ALLOC", alloc), ("VT_SEG", seg), ("VT_BASE", base), ("VT_CASES", cases)):
        if v is not None:
            d[k] = v
    for k, v in (extra or {}).items():
        d["VT_" + k] = v
    return Unit(name, src, d, san, shards, flags=list(flags), **kw)


def hist(name, T, alloc, seg, base, cases=48, shards=2, san="none", counted=False, reg=False, log=False, cfg="", flags=(), **kw):
    e = {}
    for k, v in (("COUNTED", counted), ("REG", reg), ("LOG", log)):
        if v:
            e[k] = "true"
    if cfg:
        e["CFG"] = cfg
    return unit(name, "u_hist.cpp", T, alloc, seg, base, cases, shards, san, flags, e, **kw)


LONG = "c.max_n=60000,c.ops=300,c.bulk=20000,c.deep_div=900"


def c01():
    return [
        hist("u32/tiny", "u32", STD, 16, 64, 200, 4),
        hist("u64/arena", "u64", AR, 40, 80, 160, 3),
        hist("u8/std", "std::uint8_t", STD, 7, 96, 160, 2),
        hist("tracked/arena", "Tracked", AR, 96, 64, 160, 3, counted=True, reg=True),
        hist("tracked/seg1", "Tracked", AR, 1, 64, 100, 2, counted=True),
        hist("string/std", "std::string", STD, 160, 96, 100, 3),
        hist("moveonly", "MoveOnly", AR, 100, 80, 100, 2, counted=True),
        hist("pod/default", "Pod24", STD, 1024, 768, 24, 2, cfg="c.max_n=9000,c.ops=9000,c.bulk=900,c.deep_div=4"),
        hist("u32/long", "u32", STD, 1024, 768, 6, 3, cfg="c.max_n=200000,c.ops=500,c.bulk=60000,c.deep_div=900"),
        hist("string/long", "std::string", STD, 320, 144, 4, 2, cfg="c.max_n=100000,c.ops=400,c.bulk=40000,c.deep_div=900"),
        hist("tracked/asan", "Tracked", AR, 64, 80, 24, 2, "asan", counted=True),
        hist("u64/asan", "u64", STD, 48, 64, 24, 2, "asan"),
        tall(alloc=STD), tall("Tracked", seg=1, top=150000),
    ] + forms()


# Empty elements in memory that is reserved and never touched.
def giant():
    return [unit("over 2^32 elements", "u_giant.cpp", "Nil", None, "(1u<<26)", 96, 1, 1, timeout=600)]


# The smallest nodes and segments: heights of about twenty.
def tall(T="u32", alloc=AR, seg=4, top=280000, cases=4, shards=2, san="none", base=64, flags=()):
    return unit("tall/%s/%s" % (T.lower().replace("std::", ""), alloc.split("<")[0].replace("std::", "") + ("/" + san if san != "none" else "")), "u_tall.cpp", T, alloc, seg, base, cases, shards, san, flags,
                {"TOP": top, "REG": "true" if "Tracked" in T else "false"})


# Every form of construction, against std::list.
def forms(all_sizes=True):
    def f(name, seg, base, cases, san="none", flags=()):
        return [unit("%s/%d" % (name, k), "u_construct.cpp", "T", None, seg, base, cases, 1, san, flags, {"PART": k}) for k in (1, 2, 4, 8)]
    return f("forms/small", 64, 80, 1000, flags=["-O1"]) + f("forms/default", 1024, 768, 300, flags=["-O0"]) + \
        (f("forms/seg1", 1, 64, 300, flags=["-O0"]) + f("forms/asan", 100, 64, 40, "asan", ["-O0", "-fno-sanitize=undefined"]) if all_sizes else [])


def iters(mode):
    def f():
        m = {"MODE": mode}
        def it(name, T, alloc, seg, base, cases, shards=2, san="none", maxn=90, flags=(), long=0):
            return unit(name, "u_iter.cpp", T, alloc, seg, base, cases, shards, san, flags, dict(m, MAXN=maxn, **({"LONG": long} if long else {})))
        return (giant() if mode < 5 else []) + [
            tall(), tall("std::string", STD, 1, 70000),
            it("u32/b3", "u32", STD, 16, 64, 480, 4),
            it("u64/b4", "u64", AR, 40, 80, 360, 3),
            it("tracked/b3", "Tracked", AR, 96, 64, 240, 2, maxn=70),
            it("u8/b5", "std::uint8_t", STD, 7, 96, 300, 2),
            it("string/seg1", "std::string", STD, 1, 80, 80, 2, maxn=60),
            it("pod/wide", "Pod24", STD, 1024, 160, 24, 2, maxn=1200),
            it("u32/long", "u32", STD, 1024, 768, 12, 2, long=120000), it("u32/long/deep", "u32", STD, 8, 64, 8, 2, long=30000), it("u32/nodes of 100", "u32", STD, 8, 1616, 12, 2, long=4000), it("u64/nodes of 300", "u64", STD, 8, 4816, 6, 1, long=4000), it("tracked/long", "Tracked", AR, 256, 160, 8, 2, long=20000),
            it("fancy/b3", "u32", PT, 12, 64, 60, 2, maxn=60),
            it("u64/asan", "u64", STD, 48, 64, 16, 2, "asan", maxn=60),
            it("tracked/asan", "Tracked", AR, 64, 80, 12, 2, "asan", maxn=60),
        ]
    return f


def c06():
    def b(name, base, cases, shards, seg=16, maxn=400, ops=3000):
        return unit(name, "u_balance.cpp", "u32", None, seg, base, cases, shards, extra={"OPS": ops, "MAXN": maxn})
    return [
        b("exact/b3", 64, 48, 4), b("exact/b4", 80, 60, 3), b("exact/b5", 96, 80, 2), b("exact/b6", 112, 40, 3),
        b("exact/b9", 160, 40, 3, seg=20, maxn=700), b("exact/b30", 496, 12, 2, seg=8, maxn=2500), b("exact/b100", 1616, 6, 2, seg=4, maxn=4000), b("exact/seg1", 80, 24, 2, seg=4, maxn=200), b("exact/seg2", 64, 24, 2, seg=8, maxn=250),
        tall(), tall("u64", seg=32, top=300000),
        hist("shape/u64", "u64", AR, 40, 80, 120, 3, flags=["-DVT_TARGETS"]),
        hist("shape/tracked", "Tracked", AR, 96, 64, 100, 2, counted=True, flags=["-DVT_TARGETS"]),
        hist("shape/string", "std::string", AR, 160, 96, 60, 2, flags=["-DVT_TARGETS"]),
        hist("shape/pod", "Pod24", AR, 100, 70, 60, 2, flags=["-DVT_TARGETS"]), hist("shape/odd", "Odd3", AR, 31, 200, 40, 2, flags=["-DVT_TARGETS"]),
        hist("shape/default", "Pod24", AR, 1024, 768, 12, 2, cfg="c.max_n=9000,c.ops=9000,c.bulk=900,c.deep_div=4", flags=["-DVT_TARGETS"]),
    ]


def c07():
    out = []
    for n, T, seg, base, lo, hi in (("u64", "u64", 1024, 768, 16384, 1048576), ("tracked", "Tracked", 128, 80, 1000, 64000), ("seg1", "Tracked", 1, 64, 1000, 64000),
                                    ("string", "std::string", 320, 144, 2000, 128000), ("pod/b300", "Pod24", 72, 4816, 8000, 512000)):
        out.append(unit(n, "u_cost.cpp", T, AR, seg, base, 4, 4, "cov", ["-fno-builtin", "-Wl,--wrap=memmove", "-Wl,--wrap=memcpy"], {"SMALL": lo, "LARGE": hi}))
    return out


# Element classes with unusual traits; allocators with unusual hooks.
def traits(names, ledger, alloc="std::allocator", seg=48, base=64, cases=60, T=None, blocks=0, san="none"):
    return [unit(("%s/%s" % (n, T)) if T else n.lower(), "u_traits.cpp", T or n, n if T else alloc, seg, base, cases, 1, san,
                 extra={"LEDGER": ledger, "OPS": 600, "BLOCKS": blocks, "HOOKED": int(ledger == 2 or n.startswith("Only"))}) for n in names]


def c08():
    return traits(["Empty", "EmptyFinal", "EmptyDerived"], 1, seg=5) + traits(["Poly", "TrivAssign", "Swapping", "Derived"], 1) + traits(["CountsCopies", "DtorOnly", "Nested"], 0) + \
        traits(["Empty", "Swapping", "Poly"], 1, "Bare", 9, 80, 10, san="asan") + [
        tall("Tracked", seg=1, top=150000), tall("TrackedThrowMove", seg=1, top=150000), tall("MoveOnly", seg=1, top=70000),
        hist("tracked/registry", "Tracked", AR, 96, 64, 240, 4, counted=True, reg=True),
        hist("tracked/seg1", "Tracked", AR, 1, 64, 120, 2, counted=True, reg=True),
        hist("tracked/wide", "Tracked", AR, 480, 112, 60, 2, counted=True, reg=True, cfg="c.max_n=900,c.ops=1500,c.bulk=120"),
        hist("throwing-move type", "TrackedThrowMove", AR, 100, 80, 120, 2, counted=True, reg=True),
        hist("moveonly", "MoveOnly", AR, 100, 80, 120, 2, counted=True, reg=True),
        hist("copyonly", "CopyOnly", AR, 96, 64, 120, 2, counted=True, reg=True),
        hist("nodefault", "NoDefault", AR, 96, 96, 100, 2, counted=True, reg=True),
        hist("aligned", "AlignedNT", AR, 256, 64, 80, 2, cfg=NOALG),
        hist("selftriv", "SelfTriv", AR, 48, 64, 200, 2),
        hist("tracked/long", "Tracked", AR, 256, 160, 4, 2, counted=True, reg=True, cfg=LONG), hist("owner/long", "Owner", AR, 1024, 768, 4, 2, cfg=LONG),
        hist("throwing-move type/long", "TrackedThrowMove", AR, 256, 160, 4, 2, counted=True, reg=True, cfg=LONG),
        hist("owner/asan", "Owner", AR, 40, 64, 40, 3, "asan"),
        hist("tracked/asan", "Tracked", AR, 64, 80, 24, 2, "asan", counted=True),
        hist("string/asan", "std::string", STD, 160, 64, 24, 2, "asan"),
        unit("transfer/tracked", "u_transfer.cpp", "Tracked", "Alloc<T,T,P>", 96, 64, 400, 1, extra={"POL": "Pol<false,false,false>", "MODE": 10}),
        unit("faults/11", "u_fault.cpp", "Tracked", AR, 96, 64, 240, 1, extra={"MODE": 11}), unit("faults/12", "u_fault.cpp", "Tracked", AR, 96, 64, 240, 1, extra={"MODE": 12}),
        unit("faults/13", "u_fault.cpp", "TrackedThrowMove", AR, 96, 64, 240, 1, extra={"MODE": 13}),
    ]


def c09():
    H1, H2 = (HK.replace("3>", "%d>" % h) for h in (1, 2))
    return sum([traits(["Usual", "ConstHooks", "StaticHooks", "Defaulted", "Own", "Inherits", "StdAll", "Adapted"], 2, T=T, seg=g, blocks=1) +
                traits(["StdHooks"], 2, T=T, seg=g) + traits(["Bare", "StdMemory", "OnlyConstruct", "OnlyDestroy"], 0, T=T, seg=g, blocks=1) for T, g in (("u32", 16), ("Owning", 96), ("Plain", 48))], []) + [
        hist("hooks/tracked", "Tracked", HK, 96, 64, 160, 3, counted=True, log=True),
        hist("hooks/u32", "u32", HK, 16, 64, 200, 3, log=True),
        hist("hooks/pod", "Pod24", HK, 72, 80, 120, 2, log=True),
        hist("hooks/copyonly", "CopyOnly", HK, 64, 64, 80, 2, counted=True, log=True),
        hist("construct only/u32", "u32", H1, 16, 64, 100, 2),
        hist("destroy only/u32", "u32", H2, 16, 64, 100, 2),
        hist("construct only/tracked", "Tracked", H1, 64, 80, 60, 1, counted=True),
        hist("destroy only/tracked", "Tracked", H2, 64, 80, 60, 1, counted=True),
        tall(), tall("Tracked", HK, 1, 150000),
        hist("plain/u32", "u32", AR, 12, 64, 160, 3),
        hist("plain/seg1", "u64", AR, 1, 64, 100, 2),
        hist("plain/long", "u32", AR, 1024, 768, 4, 2, cfg=LONG), hist("hooks/long", "u64", HK, 256, 160, 4, 2, log=True, cfg=LONG),
        hist("plain/string", "std::string", AR, 160, 96, 80, 2),
        hist("small size_type", "u32", U32, 16, 80, 80, 1),
        hist("plain/asan", "u64", AR, 48, 64, 20, 2, "asan"),
        unit("transfer/hooks", "u_transfer.cpp", "u32", "Alloc<T,T,P>", 16, 64, 600, 1, extra={"POL": "Pol<false,false,false,3>", "MODE": 10}),
        unit("transfer/hooks/tracked", "u_transfer.cpp", "Tracked", "Alloc<T,T,P>", 96, 64, 400, 1, extra={"POL": "Pol<true,false,true,3>", "MODE": 10}),
        unit("faults", "u_fault.cpp", "Tracked", AR, 160, 80, 200, 2, extra={"MODE": 12}),
        unit("faults/hooks", "u_fault.cpp", "Tracked", HK, 160, 80, 200, 2, extra={"MODE": 11, "LOG": "true"}),
    ]


def transfers(mode):
    def f():
        out = []
        cases = 1500
        for a in (0, 1):
            for b in (0, 1):
                for c in (0, 1):
                    pol = "Pol<%s>" % ",".join("true" if x else "false" for x in (a, b, c))
                    T = ("Tracked", "u32", "std::string", "Tracked")[(a * 2 + b + c) % 4]
                    out.append(unit("%d%d%d/%s" % (a, b, c, T.replace("std::", "").lower()), "u_transfer.cpp", T, "Alloc<T,T,P>", 96 if T != "u32" else 16, 64,
                                    cases, 1, extra={"POL": pol, "MODE": mode}))
        for n, T, pol in (("000/u32", "u32", "Pol<false,false,false>"), ("111/u32", "u32", "Pol<true,true,true>"), ("010/moveonly", "MoveOnly", "Pol<false,true,false>"),
                          ("000/moveonly", "MoveOnly", "Pol<false,false,false>"), ("111/string", "std::string", "Pol<true,true,true>")):
            out.append(unit(n, "u_transfer.cpp", T, "Alloc<T,T,P>", 96 if T != "u32" else 16, 80, cases, 1, extra={"POL": pol, "MODE": mode}))
        for n, T, pol, seg, long in (("000/long", "u32", "Pol<false,false,false>", 1024, 80000), ("101/long", "Tracked", "Pol<true,false,true>", 256, 20000), ("011/long", "std::string", "Pol<false,true,true>", 320, 30000), ("000/deep", "u32", "Pol<false,false,false>", 8, 3000)):
            out.append(unit(n, "u_transfer.cpp", T, "Alloc<T,T,P>", seg, 160, 12, 2, extra={"POL": pol, "MODE": mode, "LONG": long}))
        out += [tall(), tall("Tracked", "Alloc<T,T,PolProp>", 1, 150000)]
        for n, T, pol in (("000/asan", "Tracked", "Pol<false,false,false>"), ("111/asan", "std::string", "Pol<true,true,true>"), ("101/asan", "u32", "Pol<true,false,true>")):
            out.append(unit(n, "u_transfer.cpp", T, "Alloc<T,T,P>", 96 if T != "u32" else 16, 64, 150, 1, "asan", extra={"POL": pol, "MODE": mode}))
        return out
    return f


def faults(mode):
    def f():
        e = {"MODE": mode}
        def fa(name, T, alloc, seg, base, cases, shards=2, san="none", **kw):
            return unit(name, "u_fault.cpp", T, alloc, seg, base, cases, shards, san, extra=dict(e, **kw))
        if mode == 11:
            return [
                fa("tracked", "Tracked", AR, 160, 80, 2100, 4),
                fa("tracked/seg1", "Tracked", AR, 1, 64, 1500, 4),
                fa("tracked/b3", "Tracked", AR, 96, 64, 1500, 3),
                fa("nodefault", "NoDefault", AR, 96, 64, 900, 2),
                fa("u32", "u32", AR, 16, 64, 900, 2),
                fa("string", "std::string", AR, 96, 64, 600, 2),
                fa("tracked/asan", "Tracked", AR, 96, 64, 60, 3, "asan"),
                tall(), tall("Tracked", seg=1, top=150000), tall("NoDefault", seg=1, top=70000),
                fa("tracked/deep", "Tracked", AR, 32, 64, 750, 3, MAXN=160),
                fa("tracked/long", "Tracked", AR, 256, 160, 48, 3, LONG=12000), fa("u32/long", "u32", AR, 1024, 768, 48, 2, LONG=60000), fa("u32/nodes of 100", "u32", AR, 8, 1616, 48, 2, LONG=3000),
            ]
        if mode == 12:
            return [
                fa("tracked", "Tracked", AR, 160, 80, 1500, 4),
                fa("tracked/seg1", "Tracked", AR, 1, 64, 900, 3),
                fa("throwing-move type", "TrackedThrowMove", AR, 96, 64, 900, 3),
                fa("propagating", "Tracked", "Alloc<T,T,PolProp>", 96, 64, 900, 3),
                fa("nodefault", "NoDefault", AR, 96, 64, 600, 2),
                fa("u32", "u32", AR, 16, 64, 600, 2),
                fa("tracked/asan", "Tracked", AR, 96, 64, 50, 3, "asan"),
                tall(), tall("Tracked", seg=1, top=150000),
                fa("tracked/deep", "Tracked", AR, 32, 64, 360, 3, MAXN=140),
                fa("tracked/long", "Tracked", AR, 256, 160, 32, 3, LONG=10000), fa("u32/long", "u32", AR, 1024, 768, 24, 2, LONG=60000), fa("u32/nodes of 100", "u32", AR, 8, 1616, 24, 2, LONG=3000),
            ]
        return [
            fa("throwing-move type", "TrackedThrowMove", AR, 160, 80, 2100, 4),
            fa("throwing-move type/b3", "TrackedThrowMove", AR, 96, 64, 1800, 4),
            fa("throwing-move type/seg1", "TrackedThrowMove", AR, 1, 64, 900, 2),
            fa("copyonly", "CopyOnly", AR, 96, 64, 1500, 3),
            fa("construct hook", "Tracked", HK, 96, 64, 1200, 3, LOG="true", CONSTRUCT="true"),
            fa("construct hook/throwing-move type", "TrackedThrowMove", HK, 128, 80, 900, 2, LOG="true", CONSTRUCT="true"),
            fa("throwing-move type/asan", "TrackedThrowMove", AR, 96, 64, 60, 3, "asan"),
            tall("TrackedThrowMove", seg=1, top=150000), tall("CopyOnly", seg=1, top=70000),
            fa("throwing-move type/deep", "TrackedThrowMove", AR, 64, 64, 600, 3, MAXN=160),
            fa("throwing-move type/long", "TrackedThrowMove", AR, 256, 160, 32, 3, LONG=10000),
        ]
    return f


def c15():
    def a(name, T, alloc, seg, base, cases, shards=2, san="none"):
        return unit(name, "u_algo.cpp", T, alloc, seg, base, cases, shards, san)
    return [a("keyed", "Keyed", AR, 64, 80, 1500, 3), a("keyedpod", "KeyedPod", AR, 64, 80, 1500, 3), a("keyedmove", "KeyedMove", AR, 64, 80, 1500, 3),
            a("keyed/seg1", "Keyed", AR, 1, 64, 800, 2), a("pod/b3", "KeyedPod", STD, 16, 64, 1500, 2), a("keyed/asan", "Keyed", AR, 64, 80, 120, 2, "asan"),
            a("pod/asan", "KeyedPod", AR, 16, 64, 120, 2, "asan"),
            unit("pod/long", "u_algo.cpp", "KeyedPod", STD, 1024, 768, 16, 4, extra={"BIG": 150000}), unit("keyed/long", "u_algo.cpp", "Keyed", AR, 256, 160, 8, 4, extra={"BIG": 40000}),
            unit("keyedmove/long", "u_algo.cpp", "KeyedMove", AR, 256, 160, 4, 2, extra={"BIG": 30000})]


def c16():
    def a(name, T, alloc, seg, base, cases=8000, shards=1, san="none"):
        return unit(name, "u_cmp.cpp", T, alloc, seg, base, cases, shards, san)
    return [a("u32", "u32", STD, 16, 64), a("part", "Part", STD, 32, 64), a("backwards", "Backwards", STD, 12, 80), a("finer", "Finer", STD, 32, 64), a("partial", "Partial", STD, 12, 64), a("double", "double", STD, 32, 64),
            a("string", "std::string", STD, 96, 64), a("u8", "std::uint8_t", STD, 5, 80), a("u8/default", "std::uint8_t", STD, 1024, 768),
            a("signed char", "signed char", STD, 6, 64), a("char", "char", STD, 16, 80), a("short", "short", STD, 12, 64), a("bool", "bool", STD, 5, 64), a("long long", "long long", STD, 40, 64),
            unit("u32/long", "u_cmp.cpp", "u32", STD, 1024, 768, 16, 2, extra={"LONG": 150000}), unit("string/long", "u_cmp.cpp", "std::string", STD, 320, 144, 8, 2, extra={"LONG": 40000}),
            a("u32/asan", "u32", STD, 16, 64, 600, 1, "asan"), a("string/asan", "std::string", STD, 96, 64, 400, 1, "asan")]


def c17():
    out = []
    for n, T, seg, base in (("tracked", "Tracked", 96, 64), ("u32", "u32", 16, 64), ("pod", "Pod24", 72, 80), ("string", "std::string", 160, 64),
                            ("copyonly", "CopyOnly", 96, 80), ("selftriv", "SelfTriv", 48, 64), ("tracked/seg1", "Tracked", 1, 64)):
        out.append(unit(n, "u_alias.cpp", T, AR, seg, base, 1200, 2))
    out += [unit("u32/long", "u_alias.cpp", "u32", STD, 1024, 768, 20, 2, extra={"LONG": 80000}), unit("string/long", "u_alias.cpp", "std::string", AR, 320, 144, 10, 2, extra={"LONG": 30000}),
            unit("tracked/long", "u_alias.cpp", "Tracked", AR, 256, 160, 6, 2, extra={"LONG": 20000})]
    for n, T, seg in (("tracked/asan", "Tracked", 96), ("string/asan", "std::string", 160), ("u32/asan", "u32", 16)):
        out.append(unit(n, "u_alias.cpp", T, AR, seg, 64, 80, 2, "asan"))
    return out


def c18():
    out = giant()
    for i, (T, seg, base) in enumerate((
            ("u32", 0, 0), ("u32", 4, 0), ("u32", 8, 17), ("u32", 12, 64), ("u32", 20, 79), ("u32", 28, 95), ("u32", 32, 127),
            ("std::uint8_t", 1, 64), ("std::uint8_t", 2, 80), ("std::uint8_t", 3, 112), ("std::uint16_t", 9, 144),
            ("Big200", 199, 64), ("Big200", 1024, 768), ("Odd3", 8, 64), ("Odd3", 1024, 100), ("Aligned64", 64, 64), ("Aligned64", 300, 80), ("AlignedNT", 130, 64),
            ("Blob5", 33, 64), ("Blob6", 60, 80), ("Blob7", 63, 96), ("Blob12", 1024, 768), ("Blob16", 128, 80), ("Blob16", 1024, 64), ("Blob16a", 160, 80), ("Blob32", 256, 64),
            ("Blob32a", 400, 80), ("Blob48", 480, 64), ("Blob128", 1024, 80), ("Blob256", 1024, 64), ("Blob1000", 8000, 80))):
        out.append(hist("%s/%d/%d" % (T.replace("std::", ""), seg, base), T, AR, seg, base, 60, 1, cfg=NOALG if "Aligned" in T or T == "Blob32a" else ""))
    out += [
        hist("default/u64", "u64", STD, 1024, 768, 12, 2, cfg="c.max_n=20000,c.ops=20000,c.bulk=1500,c.deep_div=4"),
        hist("default/string", "std::string", STD, 1024, 768, 6, 1, cfg="c.max_n=5000,c.ops=8000,c.bulk=600,c.deep_div=4"),
        hist("Blob4096", "Blob4096", AR, 1024, 64, 4, 1, cfg="c.max_n=150,c.ops=800,c.deep_div=4"),
        tall(), tall("Blob16", seg=16), tall("Odd3", STD, 3),
        hist("wide nodes", "u32", STD, 8, 4816, 6, 1, cfg="c.max_n=6000,c.ops=8000,c.bulk=700,c.deep_div=4"),
        hist("huge segments", "std::uint8_t", STD, "262144", 64, 4, 1, cfg="c.max_n=900000,c.ops=1500,c.bulk=60000,c.deep_div=200"),
        hist("size_type 32", "u32", U32, 16, 64, 80, 2), hist("size_type 32/tracked", "Tracked", U32, 96, 80, 60, 1, counted=True),
        hist("fancy", "u32", PT, 16, 80, 24, 1),
        hist("size_type 16", "u32", U16, 16, 80, 60, 1), hist("size_type 16/string", "std::string", U16, 160, 80, 40, 1),
        hist("size_type 16/full", "u32", U16, 256, 80, 6, 2, cfg="c.max_n=32000,c.ops=20000,c.bulk=6000,c.deep_div=2"),
        hist("operators/pod", "EvilPod", AR, 64, 80, 60, 1), hist("operators/nontrivial", "EvilNT", AR, 96, 80, 60, 1), hist("bool", "bool", STD, 6, 80, 60, 1),
        unit("nodes over 65535", "u_wide.cpp", "u32", STD, 4, 1120016, 3, 3, extra={"TOP": 70000, "CHURN": 200}),
        unit("nodes of 300, three levels", "u_wide.cpp", "u32", STD, 4, 4816, 3, 3, extra={"TOP": 70000, "CHURN": 200}),
        unit("nodes of 200, three levels", "u_wide.cpp", "u64", STD, 8, 3216, 3, 3, extra={"TOP": 40000, "CHURN": 200}),
        unit("nodes of 1000, three levels", "u_wide.cpp", "std::uint8_t", STD, 1, 16016, 1, 1, extra={"TOP": 600000, "CHURN": 200}),
        *[unit("nodes of %d" % n, "u_wide.cpp", T, STD, g, 16 + 16 * n, 4, 1, extra={"TOP": top, "CHURN": 200})
          for n, T, g, top in ((255, "u32", 4, 3000), (256, "u32", 4, 3000), (257, "u32", 4, 3000), (256, "std::uint8_t", 3, 6000), (127, "std::uint16_t", 2, 2000), (128, "u64", 8, 2000), (129, "u32", 4, 2000), (512, "u32", 4, 4000))],
        *[hist("segments of %d" % n, "std::uint8_t", STD, n, 64, 12, 1, cfg="c.max_n=9000,c.ops=2500,c.bulk=900,c.deep_div=10") for n in (127, 128, 255, 256, 257)],
        *[hist("segments of %d" % n, "std::uint8_t", STD, n, 64, 2, 1, cfg="c.max_n=400000,c.ops=500,c.bulk=80000,c.deep_div=200") for n in (65535, 65536, 65537)],
        unit("nodes of 65535", "u_wide.cpp", "u32", STD, 4, 1048576, 2, 2, extra={"TOP": 70000, "CHURN": 200}),
        hist("tiny/asan", "u32", STD, 4, 0, 16, 1, "asan"), hist("aligned/asan", "AlignedNT", AR, 130, 64, 12, 1, "asan", cfg=NOALG), hist("odd/asan", "Odd3", STD, 8, 64, 16, 1, "asan"),
        hist("default/asan", "u64", STD, 1024, 768, 3, 1, "asan", cfg="c.max_n=9000,c.ops=2000,c.bulk=900,c.deep_div=2"),
    ]
    return out


def c19():
    A = "asan"
    def it(name, mode, T, alloc, seg, base, cases, **kw):
        return unit(name, "u_iter.cpp", T, alloc, seg, base, cases, 2, A, extra={"MODE": mode, "MAXN": 50}, **kw)
    def msan(name, T, seg, base, maxn=300):
        return unit("msan/" + name, "u_msan.cpp", T, None, seg, base, 60, 1, "msan", ["-fsanitize-memory-use-after-dtor", "-fno-sanitize-memory-param-retval"], extra={"MAXN": maxn})
    return [
        hist("hist/u32", "u32", STD, 16, 64, 32, 3, A), hist("hist/u8", "std::uint8_t", STD, 7, 80, 32, 2, A),
        hist("hist/u64", "u64", STD, 48, 64, 32, 3, A), hist("hist/pod", "Pod24", STD, 72, 112, 20, 2, A),
        hist("hist/string", "std::string", STD, 160, 64, 24, 3, A), hist("hist/owner", "Owner", STD, 40, 80, 24, 2, A),
        hist("hist/tracked", "Tracked", AR, 96, 64, 24, 2, A, counted=True), hist("hist/odd", "Odd3", STD, 8, 64, 20, 2, A),
        hist("hist/aligned", "AlignedNT", STD, 130, 64, 12, 2, A, cfg=NOALG), hist("hist/aligned pod", "Aligned64", STD, 300, 64, 12, 1, A, cfg=NOALG),
        hist("hist/default", "u64", STD, 1024, 768, 4, 2, A, cfg="c.max_n=9000,c.ops=2000,c.bulk=900,c.deep_div=2"),
        hist("clang/string", "std::string", STD, 160, 64, 16, 2, A, cxx="clang++"), hist("clang/u32", "u32", STD, 16, 64, 16, 2, A, cxx="clang++"),
        it("iter/laws", 2, "u32", STD, 16, 64, 10), it("iter/access", 3, "u64", STD, 40, 80, 16), it("iter/segments", 4, "std::string", STD, 160, 64, 8), it("iter/chain", 5, "u32", STD, 12, 64, 10),
        tall(top=12000, san="asan"), tall("std::string", STD, 1, 9000, san="asan"),
        unit("faults/12", "u_fault.cpp", "std::string", AR, 64, 64, 30, 2, A, extra={"MODE": 12}),
        unit("faults/13", "u_fault.cpp", "TrackedThrowMove", AR, 96, 64, 30, 2, A, extra={"MODE": 13}),
        unit("transfer", "u_transfer.cpp", "std::string", "Alloc<T,T,P>", 96, 64, 100, 1, A, extra={"POL": "Pol<false,false,false>", "MODE": 10}),
        unit("algo", "u_algo.cpp", "Keyed", AR, 64, 80, 80, 1, A), unit("range", "u_range.cpp", "std::string", STD, 160, 64, 40, 1, A),
        unit("alias", "u_alias.cpp", "std::string", STD, 160, 64, 60, 1, A), unit("compare", "u_cmp.cpp", "std::string", STD, 96, 64, 300, 1, A),
        unit("workload", "u_work.cpp", "std::uint64_t", None, 1024, 768, 40, 1, A),
        msan("u32", "u32", 16, 64), msan("u8", "std::uint8_t", 7, 80), msan("seg1", "u64", 1, 64), msan("owner", "Nontrivial", 32, 80), msan("padded", "Wide", 100, 80),
        msan("default", "u64", 1024, 768, 3900),
        hist("valgrind/u32", "u32", STD, 16, 64, 4, 2, "vg", cfg="c.ops=400,c.max_n=120"), hist("valgrind/u8", "std::uint8_t", STD, 7, 80, 3, 1, "vg", cfg="c.ops=400,c.max_n=120"),
        hist("valgrind/string", "std::string", STD, 160, 64, 4, 2, "vg", cfg="c.ops=400,c.max_n=120"), hist("valgrind/pod", "Pod24", STD, 72, 80, 4, 1, "vg", cfg="c.ops=400,c.max_n=120"),
    ]


def c20():
    def t(name, T, seg, base, cases=10, rounds=1500):
        return unit(name, "u_thread.cpp", T, None, seg, base, cases, 1, "tsan", ["-pthread"], {"ROUNDS": rounds})
    return [t("u64", "u64", 40, 64), t("u64/default", "u64", 1024, 768), t("pod", "Pod24", 72, 80), t("string", "std::string", 160, 64), t("string/seg1", "std::string", 1, 80),
            t("u64/seg1", "u64", 1, 64), t("u8", "std::uint8_t", 8, 96)]


def c21():
    out = []
    for n, T, seg, base in (("tracked", "Tracked", 96, 64), ("nodefault", "NoDefault", 128, 80), ("moveonly", "MoveOnly", 64, 64), ("tracked/seg1", "Tracked", 1, 64),
                            ("moveonly/wide", "MoveOnly", 480, 112), ("throwing-move type", "TrackedThrowMove", 96, 64), ("throwing-move type/wide", "TrackedThrowMove", 480, 112)):
        out.append(unit(n, "u_copies.cpp", T, AR, seg, base, 900, 2))
    out += [unit("tracked/long", "u_copies.cpp", "Tracked", AR, 256, 160, 16, 2, extra={"LONG": 20000}), unit("throwing-move type/long", "u_copies.cpp", "TrackedThrowMove", AR, 256, 160, 8, 2, extra={"LONG": 20000})]
    out.append(unit("moveonly/hooks", "u_copies.cpp", "MoveOnly", HK, 64, 64, 400, 1))
    out += [hist("throwing-move type/histories", "TrackedThrowMove", AR, 100, 80, 40, 1, counted=True),
            hist("moveonly/histories", "MoveOnly", AR, 100, 80, 60, 2, counted=True), hist("nodefault/histories", "NoDefault", AR, 96, 64, 60, 2, counted=True),
            hist("copyonly/histories", "CopyOnly", AR, 96, 64, 40, 1, counted=True)]
    return out + forms(False)


def c22():
    out = []
    for n, T, seg, base in (("u32", "u32", 16, 64), ("tracked", "Tracked", 96, 64), ("string", "std::string", 160, 80)):
        out.append(hist("checked/" + n, T, PT, seg, base, 60, 3))
        if OFFSET_FLAGS:
            out.append(hist("offset/" + n, T, OFF, seg, base, 60, 2, flags=OFFSET_FLAGS))
    out += [
        tall(alloc=PT, top=40000), *([tall(alloc=OFF, top=140000, flags=OFFSET_FLAGS)] if OFFSET_FLAGS else []), tall(alloc=PT, top=9000, base=136, flags=["-DVT_PTR_LIFE"]),
        hist("checked/u8", "std::uint8_t", PT, 7, 96, 40, 2), hist("checked/seg1", "u64", PT, 1, 64, 40, 2), hist("checked/long", "u32", PT, 256, 160, 4, 2, cfg=LONG),
        hist("checked/u32/asan", "u32", PT, 12, 80, 10, 2, "asan"), hist("checked/string/asan", "std::string", PT, 160, 64, 10, 2, "asan"),
    ]
    if OFFSET_FLAGS:
        out.append(hist("offset/u32/asan", "u32", OFF, 12, 80, 10, 2, "asan", flags=OFFSET_FLAGS))
    for n, T, seg, base in (("u32", "u32", 16, 136), ("tracked", "Tracked", 96, 160), ("seg1", "std::string", 1, 200)):
        out.append(hist("lifetimes/" + n, T, PT, seg, base, 40, 2, flags=["-DVT_PTR_LIFE"]))
    for mode in (2, 3, 4, 5):
        out.append(unit("checked/iter%d" % mode, "u_iter.cpp", ("u32", "Tracked")[mode % 2], PT, 16 if mode % 2 == 0 else 64, 64, 30, 2, extra={"MODE": mode, "MAXN": 60}))
    return out


def c23():
    out = []
    for n, T, seg, base in (("tracked", "Tracked", 96, 64), ("u32", "u32", 16, 64), ("string", "std::string", 160, 80), ("u8", "std::uint8_t", 7, 64), ("copyonly", "CopyOnly", 64, 64)):
        out.append(unit(n, "u_range.cpp", T, AR, seg, base, 1500, 2))
    out += [unit("u32/long", "u_range.cpp", "u32", STD, 1024, 768, 20, 2, extra={"LONG": 100000}), unit("string/long", "u_range.cpp", "std::string", AR, 320, 144, 8, 2, extra={"LONG": 40000})]
    out += [unit("u32/asan", "u_range.cpp", "u32", STD, 16, 64, 100, 1, "asan"), unit("string/asan", "u_range.cpp", "std::string", STD, 160, 64, 60, 1, "asan")]
    return out + forms(False)


def c24():
    out = []
    for n, T, seg, base, cases in (("u64", "std::uint64_t", 1024, 768, 900), ("u8", "std::uint8_t", 1024, 768, 900), ("u64/b3", "std::uint64_t", 48, 64, 500), ("u8/b4", "std::uint8_t", 5, 80, 500)):
        out.append(unit(n, "u_work.cpp", T, None, seg, base, cases, 2))
    return out


def c25():
    def n(name, T, pol, seg, base, cases=3000, shards=1, san="none", alloc="Alloc<T,T,P>"):
        return unit(name, "u_nothrow.cpp", T, alloc, seg, base, cases, shards, san, extra={"POL": "Pol<%s>" % pol})
    return [n("tracked/111", "Tracked", "true,true,true", 96, 64), n("tracked/000", "Tracked", "false,false,false", 96, 80), n("u32/010", "u32", "false,true,false", 16, 64),
            n("u32/000", "u32", "false,false,false", 4, 64), n("string/001", "std::string", "false,false,true", 160, 64), n("moveonly/110", "MoveOnly", "true,true,false", 64, 64),
            n("moveonly/000", "MoveOnly", "false,false,false", 64, 96), n("throwing-move type/000", "TrackedThrowMove", "false,false,false", 96, 64), n("throwing-move type/111", "TrackedThrowMove", "true,true,true", 96, 64),
            n("copyonly/011", "CopyOnly", "false,true,true", 96, 64), n("hooks/000", "Tracked", "false,false,false,3", 96, 64), n("pod/wide", "Pod24", "true,true,true", 240, 160),
            n("tracked/seg1", "Tracked", "false,false,false", 1, 64), n("u8/111", "std::uint8_t", "true,true,true", 7, 80),
            unit("u32/long", "u_nothrow.cpp", "u32", "Alloc<T,T,P>", 1024, 768, 40, 2, extra={"POL": "Pol<true,true,true>", "LONG": 60000}), unit("tracked/long", "u_nothrow.cpp", "Tracked", "Alloc<T,T,P>", 256, 160, 20, 2, extra={"POL": "Pol<false,false,false>", "LONG": 20000}),
            n("tracked/asan", "Tracked", "false,true,false", 96, 64, 150, 2, "asan"), n("string/asan", "std::string", "true,true,true", 96, 64, 150, 2, "asan")]


HOOKS = ["no operation of the sequence runs concurrently with another on the same sequence (except in C20)"]
HISTORY = "pseudo-random histories, growing and shrinking by phases over 1-3 sequences, every result compared with std::vector models; distinct = distinct (segment lengths, height) shapes checked"
PROPS = {
    "C01": dict(units=c01, rule=HISTORY, expect={"operations": 500000, "deep_checks": 10000, "bulk_ops": 50000}),
    "C02": dict(units=iters(2), evaluations="landings", rule="all pairs of positions of sequences of many shapes, walked by every operator; distinct = distinct shapes", expect={"landings": 1000000, "shapes": 500}),
    "C03": dict(units=iters(3), evaluations="positions", rule="every index of sequences of many shapes through every accessor, writes read back through the others; distinct = distinct shapes", expect={"positions": 20000, "out_of_range": 1000}),
    "C04": dict(units=iters(4), evaluations="segment_jumps", rule="every iterator, run and in-range count n of sequences of many shapes; distinct = distinct shapes", expect={"segment_jumps": 100000}),
    "C05": dict(units=iters(5), evaluations="chained_calls", rule="chains of single, counted and range modifications each starting from the previous result; distinct = distinct shapes", expect={"chained_calls": 100000}),
    "C06": dict(units=c06, evaluations="structure_checks", rule="the whole tree rebuilt from logged index-block accesses after modifications; plus shapes from segment lengths and live allocations after histories; distinct = distinct shapes", expect={"structure_checks": 100000, "node_occupancies": 1000000}),
    "C07": dict(units=c07, evaluations="measured_calls", rule="the work of each operation kind, counted in executed control-flow edges, moves, bytes and allocations, at two sizes a factor 64 apart; distinct = distinct growth comparisons", expect={"measured_calls": 100000}),
    "C08": dict(units=c08, rule=HISTORY + "; element types keep a registry of live objects by address", expect={"operations": 500000, "deep_checks": 10000}),
    "C09": dict(units=c09, rule=HISTORY + "; every block and every constructed object in a ledger of the allocator", expect={"operations": 500000, "deep_checks": 10000}),
    "C10": dict(units=transfers(10), rule="random programs of copies, moves, assignments and swaps among four sequences and three allocators under all propagation policies", expect={"operations": 50000}),
    "C11": dict(units=faults(11), evaluations="faults_injected", level="fault_enumeration", rule="each operation repeated on an identical sequence with the 1st, 2nd, ... throwing event made to throw until it succeeds", expect={"faults_injected": 10000}),
    "C12": dict(units=faults(12), evaluations="faults_injected", level="fault_enumeration", rule="each bulk operation or constructor repeated with the 1st, 2nd, ... throwing event made to throw until it succeeds", expect={"faults_injected": 10000}),
    "C13": dict(units=faults(13), evaluations="faults_injected", level="fault_enumeration", rule="each operation repeated with the 1st, 2nd, ... element move, copy or allocator construct made to throw until it succeeds", expect={"faults_injected": 10000}),
    "C14": dict(units=transfers(14), rule="iterators and references held across swaps, move constructions and move assignments under all propagation policies, then used in every way", expect={"operations": 20000, "held_iterators": 20000}),
    "C15": dict(units=c15, rule="sort, merge, unique, remove, remove_if, reverse and splice on elements with hidden identities against stable std::list algorithms, with and without temporary buffers", expect={"operations": 20000}),
    "C16": dict(units=c16, rule="all six operators over pairs of sequences with different histories against std::vector; distinct = distinct pairs of shapes", expect={"operations": 100000, "equal_pairs": 1000, "less_pairs": 1000, "greater_pairs": 1000}),
    "C17": dict(units=c17, rule="every operation that takes a value, given references to elements of the sequence at many pairs of source and position", expect={"operations": 100000}),
    "C18": dict(units=c18, rule=HISTORY + "; a matrix of element sizes, alignments, segment and index targets, size types", expect={"operations": 500000, "deep_checks": 10000}),
    "C19": dict(units=c19, rule="the workloads of the other properties with AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer (gcc and clang) or valgrind memcheck watching", expect={"operations": 100000}),
    "C20": dict(units=c20, evaluations="concurrent_reads", rule="threads started together, reading one sequence, writing distinct elements or using sequences that once shared storage, under ThreadSanitizer", expect={"concurrent_reads": 100000}),
    "C21": dict(units=c21, rule="copies, moves and default constructions counted around every operation", expect={"operations": 50000}),
    "C22": dict(units=c22, rule=HISTORY + "; through pointer classes that know their block (every dereference checked) and through self-relative offset pointers", expect={"operations": 200000}),
    "C23": dict(units=c23, rule="constructors, assign and insert over sources of every iterator category that log each access", expect={"operations": 50000, "elements_transferred": 1000000}),
    "C24": dict(units=c24, programs=[progs.programs, progs.documents], rule="generators replayed step by step over watching containers; the real generator, benchmark and documentation programs built and run; distinct = distinct data sets", expect={"replays": 1000, "benchmark_runs": 50, "document_runs": 15}),
    "C25": dict(units=c25, evaluations="nothrow_calls", level="fault_enumeration", rule="sequences of many shapes under all propagation policies, every operation documented not to throw called while every allocation and element copy throws; the same promises read off as noexcept; distinct = distinct (height, size) in which an element was removed", expect={"nothrow_calls": 100000, "noexcept_checks": 500, "throwing_calls": 100, "vectors": 5000}),
    "C26": dict(units=lambda: [], programs=[compat.builds], rule="one self-checking program built by gcc and clang in C++11 to C++23 at several levels from two translation units; the same histories in each; distinct = distinct digests", expect={"builds": 9, "runs": 50, "digests": 400, "operations": 500000}),
}
