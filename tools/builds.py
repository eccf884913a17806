"""Builds the harness programs from the current working tree of /repo."""
import concurrent.futures as cf, os, subprocess

CXX = "g++"
REL = "-std=c++11 -O2 -DNDEBUG -w"
DBG = "-std=c++11 -O1 -g1 -DCFT_ASSERT_FAIL_THROWS -w"
SAN = ("-std=c++11 -O1 -g1 -fsanitize=address,undefined -fno-sanitize-recover=undefined "
       "-fsanitize-address-use-after-scope -DCFT_ASSERT_FAIL_THROWS -w")


def _prog(src, flags, extra=""):
    return [["{cxx} " + flags + " -I{repo}/src -I{verif}/harness {verif}/harness/" + src + " -o {out} " + extra + " -lfmt"]]


# target -> list of stages, each a list of commands that may run in parallel
TARGETS = {}
for h in ("solver", "greedy", "fixing", "subgrad", "repeat", "quality", "io", "util", "cli", "progress"):
    TARGETS[h + ".rel"] = _prog(h + ".cpp", REL)
    TARGETS[h + ".dbg"] = _prog(h + ".cpp", DBG)
    TARGETS[h + ".san"] = _prog(h + ".cpp", SAN)
TARGETS["timelimit.rel"] = _prog("timelimit.cpp", REL)
TARGETS["tool.rel"] = [_prog("tool.cpp", REL)[0] + ["{cxx} " + REL + " -I{repo}/src {repo}/src/main.cpp -o {out}.accft -lfmt"]]
TARGETS["tool.san"] = [_prog("tool.cpp", REL)[0] + ["{cxx} " + SAN + " -I{repo}/src {repo}/src/main.cpp -o {out}.accft -lfmt"]]

# differently configured builds of the library as shared objects next to the harness
SO = "-fPIC -shared -fvisibility=hidden -fno-gnu-unique -Wl,-Bsymbolic -I{repo}/src -I{verif}/harness {verif}/harness/variant.cpp"
REL3 = "-std=c++11 -O3 -DNDEBUG -w"


def _types(c, r, f="float", tag=False):
    if tag:
        c, r, f = "'ext::Tag<%s,1>'" % c, "'ext::Tag<%s,2>'" % r, "'ext::Tag<%s,3>'" % f
    return ("-DVF_TAGGED " if tag else "") + "-DCFT_CIDX_TYPE=%s -DCFT_RIDX_TYPE=%s '-DCFT_REAL_TYPE=%s'" % (c, r, f.strip("'"))


CONFIGS = {"ref": "", "i16u8": _types("int16_t", "uint8_t"), "u8i8": _types("uint8_t", "int8_t"), "i8u16": _types("int8_t", "uint16_t"),
           "u64i64": _types("uint64_t", "int64_t"), "i64u64": _types("int64_t", "uint64_t"), "u32i32": _types("uint32_t", "int32_t"),
           "u8u8": _types("uint8_t", "uint8_t"), "i8i8": _types("int8_t", "int8_t"),
           "tag": _types("int32_t", "int16_t", tag=True), "tagsmall": _types("uint16_t", "uint8_t", tag=True),
           "double": _types("int32_t", "int16_t", "double"), "longdouble": _types("int32_t", "int16_t", "long double"),
           "tagdouble": _types("int64_t", "int32_t", "double", tag=True)}


def _opt(cmd):
    """A configuration that a change to the library may legitimately no longer compile with: left out then."""
    return cmd + " 2>/dev/null || true"


def _so(name, flags, defs):
    return "{cxx} " + flags + " " + defs + " " + SO + " -o {out}." + name + ".so -lfmt"


TARGETS["variants.types"] = [["{cxx} " + REL + " -I{verif}/harness {verif}/harness/variants.cpp -o {out} -ldl"] +
                             [_opt(_so(n, REL3, d)) if n not in ("ref", "u32i32") else _so(n, REL3, d) for n, d in CONFIGS.items()]]
TARGETS["variants.checked"] = [["{cxx} " + SAN + " -I{verif}/harness {verif}/harness/variants.cpp -o {out} -ldl",
                                _so("rel", REL3, ""), _so("chk", SAN, "")]]
TARGETS["variants.chktypes"] = [["{cxx} " + SAN + " -I{verif}/harness {verif}/harness/variants.cpp -o {out} -ldl",
                                 _so("rel", REL3, ""), _opt(_so("chki8i8", SAN, CONFIGS["i8i8"])), _opt(_so("chki8u16", SAN, CONFIGS["i8u16"])),
                                 _opt(_so("chktag", SAN, CONFIGS["tagsmall"])), _opt(_so("chkdouble", SAN, CONFIGS["double"]))]]
TARGETS["paired.rel"] = [["{cxx} " + REL + " -I{verif}/harness {verif}/harness/paired.cpp -o {out} -ldl", _so("tree", REL, ""),
                          _so("ref", REL, "").replace("-I{repo}/src", "-I{verif}/reference/src")]]
TARGETS["pysolver"] = [["sh {verif}/tools/build_py.sh {repo} {out}", _so("native", REL3, "")]]


def path(build, target):
    return os.path.join(build, target)


def _sh(cmd):
    p = subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        raise RuntimeError("build failed: %s\n%s" % (cmd, p.stdout[-3000:]))


def build(bdir, repo, verif, targets):
    def one(t):
        for stage in TARGETS[t]:
            cmds = [c.format(cxx=CXX, repo=repo, verif=verif, out=path(bdir, t), build=bdir) for c in stage]
            if len(cmds) == 1:
                _sh(cmds[0])
            else:
                with cf.ThreadPoolExecutor(8) as ex:
                    list(ex.map(_sh, cmds))
    with cf.ThreadPoolExecutor(8) as ex:
        list(ex.map(one, targets))
