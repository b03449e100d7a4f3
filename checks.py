"""Per-property check table: harness files, bounds and assumptions."""
COMMON_ASSUMPTIONS = [
    "the LLVM-18 front end (clang++ -std=c++17) and the executor's LLVM-IR semantics; sampled paths are re-run on the natively compiled code on every run and must agree",
    "libstdc++ container templates are executed from their real headers; its out-of-line parts (exceptions, rb-tree and list hooks, hashing policy, _Bit_reference assignment) are the models in rt/rt_ir.cpp",
    "x86-64 little-endian data layout",
    "Z3 4.8.12 answers are correct",
]
ALL = ["USER", "SEQ1", "SEQ2", "SEQ3", "ASSOC1", "ASSOC2", "SUM1", "SUM2", "PTR", "POLY"]
ZOO_BOUNDS = ("the listed types of harness/zoo.h and poly.h (about 130 instantiations, nesting up to 4 levels, over-aligned and split-array classes included); every scalar, character and key value symbolic; "
              "outer lengths 0..3 (thorough 0..4) plus the fixed lengths 17, 33, 65, 130, 260 (thorough: 22 lengths up to 1025), inner lengths 0..1 or a fixed pattern 0..2 for large shapes; string lengths 0,1,3,15,16,20; "
              "up to 4 (thorough 6) independently chosen shape decisions (lengths, alternatives, null/non-null, dynamic types) per value, further ones follow a fixed pattern; build with and without SERIALIZATION_ERROR_CHECKING")
ZOO_BOUNDS_S = ZOO_BOUNDS.replace("outer lengths 0..3 (thorough 0..4) plus the fixed lengths 17, 33, 65, 130, 260 (thorough: 22 lengths up to 1025)", "outer lengths 0..2 plus one or two fixed large lengths (17, 33)")
ZOO_OUT = "other lengths, deeper nesting, types not in the zoo; keys hashed by std::hash are concrete (their hash modulo a prime is out of the solver's reach), as are the keys of containers longer than 4"
CHECKS = {}


def zoo(prop, src, groups=ALL, extra=(), **kw):
    CHECKS[prop] = dict({"files": [{"src": src, "groups": groups}] + list(extra), "bounds": ZOO_BOUNDS_S, "outside": ZOO_OUT}, **kw)


def rt(prop, groups, *extra):
    CHECKS[prop] = {"files": [{"src": "roundtrip.cpp", "groups": groups}] + list(extra), "bounds": ZOO_BOUNDS, "outside": ZOO_OUT}


rt("C01", ["USER"])
rt("C03", ["SEQ1", "SEQ2", "SEQ3"])
rt("C04", ["ASSOC1", "ASSOC2"])
rt("C05", ["SUM1", "SUM2"])
rt("C06", ["PTR"])
rt("C07", ["POLY"], {"src": "poly_order.cpp"}, {"src": "many_classes.cpp", "groups": ["127", "254", "32766"], "samples": 1, "optional": True})
zoo("C02", "sizes.cpp")
zoo("C13", "purity.cpp")
zoo("C21", "stable.cpp")
zoo("C22", "isolation.cpp", extra=[{"src": "iso_misc.cpp"}])
zoo("C19", "balance.cpp", extra=[{"src": "faults.cpp"}])
zoo("C08", "inplace.cpp")
zoo("C09", "callermem.cpp")
zoo("C10", "wrongtype.cpp", extra=[{"src": "wrongtype2.cpp"}, {"src": "many_tags.cpp", "samples": 1}])
CHECKS["C07"]["bounds"] += "; the same with 127, 254 and 32766 other classes registered before"
CHECKS["C10"]["bounds"] += "; 264 distinct types compared pairwise"
CHECKS["C11"] = {"files": [{"src": "asym.cpp", "configs": ["checked"]}], "bounds": 'build with SERIALIZATION_ERROR_CHECKING; sizing, packing and reading passes that pass 0..4 (thorough 0..7) elements each in every combination, for elements of 1, 4 and 8 bytes, user classes and arrays, directly and inside vectors, pointers and polymorphic objects; element values symbolic; every recorded per-object size of a 3-level object replaced by an arbitrary 64-bit value', "outside": 'asymmetries of more elements; the unchecked build, where nothing is promised; differences that cancel out within the same object'}
CHECKS["C23"] = {"files": [{"src": "faults.cpp"}], "bounds": 'one exception of four kinds (two user types by value, an int, bad_alloc) thrown at every one of the first 10 (thorough 40) serialize calls or constructions, or from every one of the first 14 (thorough 40) allocations, of size, footprint, serialize to memory/file-less stream, deserialize and in-place deserialize, for 20 class/container/pointer shapes with up to 3 elements; thrown values symbolic; both builds', "outside": 'two faults in one operation; faults in constructors of types outside harness/fault.h; larger objects'}
CHECKS["C12"] = {"files": [{"src": "footprint.cpp"}], "bounds": 'the listed types of harness/footprint.cpp and the zoo (containers with 0..3 elements or 17, 33; capacities from every growth/shrink pattern up to 9 elements; strings up to 50 characters; null and non-null owned, shared, raw, opaque, void and function pointers; symbolic offset); expectation written out from the documented formulas independently of the library; both builds', "outside": 'other lengths and types; MPI and Kokkos handles other than the opaque pointer stand-ins'}
zoo("C14", "backends.cpp")
CHECKS["C14"]["bounds"] += "; output streams with raw and with formatted use"
zoo("C15", "sequence.cpp")
CHECKS["C18"] = {"files": [{"src": "construct.cpp", "groups": ["CA", "CB", "CC", "CD"], "samples": 1}], "bounds": '8 combinations of tagged constructor / intrusive, free or specialised reconstruct / default constructor, each as top-level object and in 25 positions (members, arrays, every container, optional, variant, smart pointers, polymorphic pointees), lengths 0..3, deserialized from memory, stream and file, out of place and in place; every construction, copy, move and destruction of every object is tracked by address; both builds', "outside": 'classes whose constructors throw (C19, C23); longer containers'}
CHECKS["C17"] = {"files": [{"src": "traverse.cpp"}], "bounds": '45 types (scalars, arrays, every container, nested and split classes, byte-copied types, pointers, polymorphic graphs), lengths 0..2 and 17, user serializers of four styles (object, constructed in place, typed hook, packing/sizing mode) and one with per-type dispatch; every recorded call is compared with a list written out independently of the library; both builds', "outside": 'the order among the components of one std::tuple (unspecified by the language here); data that the library passes through a temporary (enums, durations, vector<bool> bits, container sizes)'}
CHECKS["C24"] = {"files": [{"src": "bytecopy.cpp", "groups": ["B%d" % i for i in range(14)]}], "bounds": '16 byte-copyable types declared in each of the four ways (padding, bit-fields, unions, pointers, over-aligned, templates, derived, without default constructor), every byte of the object symbolic, singly, as members, C arrays, std::array, pointees and vectors of 0..5 (thorough 0..8) and 33 elements, in 8 other containers; 6 types that must not be byte-copied in 16 positions each, 20 variants with a deep alternative in every position; memory, in place and stream; both builds', "outside": 'larger counts (see C20); padding inside list, map, optional, variant and tuple elements, which are moved into place by the language, not by the library'}
CHECKS["C20"] = {"files": [{"src": "big.cpp", "opt": "O1", "novalidate": True}], "bounds": 'element counts symbolic in 64 bits: up to 2^60/sizeof(T) for sizing, footprinting and traversal; up to 4 GiB + 16 MiB of symbolic data for packing, unpacking, vectors, strings, streams, caller buffers and (stand-in) files, content compared at a symbolic index; one to three blocks per object, and raw pieces of symbolic element size (up to 64) and count; both builds, IR at -O1', "outside": 'containers whose elements need a serialize call each (their number is a loop bound); data beyond 4 GiB + 16 MiB in one trip; 32-bit platforms'}
CHECKS["C16"] = {"files": [{"src": "files.cpp"}], "bounds": '6 types with lengths 0..3 or 17, 33 (contents symbolic) over a modelled file (page cache, durable storage, descriptors, mappings); no previous file, a shorter or a longer one; any one of the first 12 system calls failing with any errno 1..133, also together with an exception from user code; both builds', "outside": 'kernel behaviour beyond the model of harness/fakefs.h; two independent failing calls; files larger than 8 KiB (sizes: C20)'}

# containers and shapes far beyond the zoo's, one operation per property
for prop, grp in {"C03": "RTQ", "C04": "RTA", "C05": "RTS", "C02": "SZ", "C08": "IP", "C13": "PU", "C15": "ST", "C19": "BA"}.items():
    CHECKS[prop]["files"].append({"src": "extreme.cpp", "groups": [grp], "samples": 1})
    CHECKS[prop]["bounds"] += "; containers of 1030 and 4099 (C03, C04 also 65540) elements with symbolic ones at spread-out positions, 300 alternatives, 40 components, 30 levels of nesting, unused capacity up to 5000 elements, empty std::array, custom allocators"

NOT_APPLICABLE = {
    "C25": "Kokkos is not installed in the sandbox, so view_serialize.h and the other kokkos_* headers cannot be compiled to IR (nor natively): there is no real code to execute symbolically here.",
}
