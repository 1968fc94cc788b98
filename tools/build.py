"""Builds the library of /repo's working tree, in several configurations, with a
harness of /verif/harness on top. Objects are cached by a hash of every input
(all of /repo/src, the harness sources, the flags), never by time stamps."""
import concurrent.futures as cf, hashlib, os, re, shutil, subprocess, sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
HARNESS = os.path.join(VERIF, "harness")

UB = "signed-integer-overflow,shift,bounds,bool,enum,unreachable,return,null,integer-divide-by-zero,vla-bound"
ARCH = ["-march=x86-64-v2", "-maes", "-mpclmul"]
CONFIGS = {
    # name: (cc, cxx, flags, link flags)
    "asan":   ("gcc", "g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-DENABLE_MEMORY_LOCK"], []),
    "debug":  ("gcc", "g++", ["-O0", "-g1", "-DENABLE_MEMORY_LOCK"], []),
    "opt":    ("gcc", "g++", ["-O1", "-g1", "-DENABLE_MEMORY_LOCK"], []),
    "rel":    ("gcc", "g++", ["-O2", "-g1", "-DNDEBUG", "-DENABLE_MEMORY_LOCK"], []),
    "nolock": ("gcc", "g++", ["-O2", "-g1", "-DNDEBUG"], []),
    "clang":  ("clang", "clang++", ["-O3", "-g1", "-DNDEBUG", "-DENABLE_MEMORY_LOCK"], []),
    "uchar":  ("gcc", "g++", ["-O3", "-g1", "-funsigned-char", "-ftrivial-auto-var-init=zero", "-DNDEBUG", "-DENABLE_MEMORY_LOCK"], []),
    "pattern": ("clang", "clang++", ["-O1", "-g1", "-ftrivial-auto-var-init=pattern"], []),
    "limb32": ("gcc", "g++", ["-O2", "-g1", "-include", HARNESS + "/cfg_limb32.h", "-DENABLE_MEMORY_LOCK"], []),
    "noasm":  ("gcc", "g++", ["-O2", "-g1", "-include", HARNESS + "/cfg_noasm.h", "-DENABLE_MEMORY_LOCK"], []),
    "noudbl": ("gcc", "g++", ["-O2", "-g1", "-include", HARNESS + "/cfg_noasm.h", "-DMBEDTLS_NO_UDBL_DIVISION", "-DENABLE_MEMORY_LOCK"], []),
    "native": ("gcc", "g++", ["-O2", "-g1", "-march=native", "-DENABLE_MEMORY_LOCK"], []),
    "tsan":   ("clang", "clang++", ["-O1", "-g1", "-fsanitize=thread", "-DENABLE_MEMORY_LOCK"], []),
    "msan":   ("clang", "clang++", ["-O1", "-g1", "-DENABLE_MEMORY_LOCK"], []),
    # with puncturable encryption, over the stand-in of harness/relic for RELIC
    "relic":  ("gcc", "g++", ["-O1", "-g1", "-fno-omit-frame-pointer", "-fsanitize=address", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-DENABLE_MEMORY_LOCK", "-I" + HARNESS + "/relic"], []),
    "relicrel": ("gcc", "g++", ["-O2", "-g1", "-DNDEBUG", "-DENABLE_MEMORY_LOCK", "-I" + HARNESS + "/relic"], []),
    "relicfuzz": ("clang", "clang++", ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-DENABLE_MEMORY_LOCK", "-DPBT_LIBFUZZER", "-I" + HARNESS + "/relic"], ["-fsanitize=fuzzer"]),
    "fuzz":   ("clang", "clang++", ["-O1", "-g1", "-fsanitize=fuzzer-no-link,address", "-fsanitize=" + UB, "-fno-sanitize-recover=all", "-DENABLE_MEMORY_LOCK", "-DPBT_LIBFUZZER"], ["-fsanitize=fuzzer"]),
}
WRAPS = ["sodium_malloc", "sodium_allocarray", "sodium_free", "sodium_mprotect_noaccess", "sodium_mprotect_readonly", "sodium_mprotect_readwrite"]

class BuildError(Exception):
    pass

def lib_sources(ppke=False):
    text = open(os.path.join(REPO, "src/CMakeLists.txt")).read()
    text = re.sub(r"#[^\n]*", "", text)
    m = re.search(r"add_library\(\s*sse_crypto\s([^)]*)\)", text)
    if not m:
        raise BuildError("no add_library(sse_crypto ...) in src/CMakeLists.txt")
    names = re.findall(r"[^\s\"]+\.(?:cpp|cc|c)\b", m.group(1))
    return [n for n in names if ppke or not (n.startswith("ppke/") or n == "puncturable_enc.cpp")]

def tree_hash(paths):
    h = hashlib.sha256()
    for root in paths:
        if os.path.isfile(root):
            files = [root]
        else:
            files = sorted(os.path.join(d, f) for d, _, fs in os.walk(root) for f in fs)
        for f in files:
            h.update(f.encode()); h.update(open(f, "rb").read())
    return h.hexdigest()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), r.stdout[-6000:]))

def compile_cmd(src, obj, cfg, extra=()):
    cc, cxx, flags, _ = CONFIGS[cfg]
    inc = ["-I" + REPO + "/src", "-I" + REPO + "/src/include", "-I" + REPO + "/src/include/sse/crypto"]
    if src.endswith(".c"):
        return [cc, "-std=gnu99", "-w", "-fPIC"] + ARCH + flags + inc + list(extra) + ["-c", src, "-o", obj]
    return [cxx, "-std=gnu++11", "-w", "-fPIC", "-include", "cstdint", "-include", "stdexcept", "-include", "array"] + ARCH + flags + inc + list(extra) + ["-c", src, "-o", obj]

def compile_cmd_h(src, obj, cfg, extra=()):
    c = compile_cmd(src, obj, cfg, extra)
    return [x if x != "-std=gnu++11" else "-std=gnu++14" for x in c]

def is_header(path):
    return not path.endswith((".c", ".cpp", ".cc"))

def content_hash(root, headers_only):
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(root)):
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            if headers_only and not is_header(p):
                continue
            h.update(p.encode() + b"\0"); h.update(open(p, "rb").read())
    return h.hexdigest()

def includes_sources(root):
    pat = re.compile(rb"^\s*#\s*include\s*[\"<][^\">]*\.(c|cc|cpp)[\">]", re.M)
    return any(pat.search(open(os.path.join(d, f), "rb").read()) for d, _, fs in os.walk(root) for f in fs)

def build(jobs, log=lambda s: None):
    """jobs: list of (harness source names, config, extra defines, out name).
    Returns {(out, config): binary path}. An object's name is a hash of its source, of
    every header it could include, and of its flags; a program's, of its objects."""
    def H(*x):
        return hashlib.sha256(repr(x).encode()).hexdigest()[:20]
    tool_hash = tree_hash([os.path.join(VERIF, "tools", "norelic.sh"), os.path.abspath(__file__)])
    # a source file that includes another source file makes every file a header
    lib_hdr = content_hash(REPO + "/src", not includes_sources(REPO + "/src"))
    har_hdr = content_hash(HARNESS, not includes_sources(HARNESS))
    odir = os.path.join(BUILD, "obj")
    os.makedirs(odir, exist_ok=True)
    tasks, result, links = {}, {}, {}
    for harness, cfg, defs, out in jobs:
        ppke = cfg.startswith("relic")
        standin = tree_hash([HARNESS + "/relic"]) if ppke else ""
        cc, cxx, flags, lflags = CONFIGS[cfg]
        objs = []
        for s in lib_sources(ppke):
            path = os.path.join(REPO, "src", s)
            body = open(path, "rb").read()
            obj = os.path.join(odir, "lib_%s_%s_%s.o" % (s.replace("/", "_"), cfg, H(path, body, lib_hdr, standin, tool_hash, cfg, flags)))
            if s == "utils.cpp" and not ppke:
                gen = obj[:-2] + ".gen.cpp"
                if not os.path.exists(gen):
                    run(["bash", os.path.join(VERIF, "tools/norelic.sh"), path, gen + ".tmp"]); os.rename(gen + ".tmp", gen)
                path = gen
            tasks[obj] = compile_cmd(path, obj + ".tmp", cfg)
            objs.append(obj)
        for hsrc in ["core.cpp", "ref.cpp", "track.cpp"] + (["relic/relic_model.cpp"] if ppke else []) + list(harness):
            extra = ["-I" + HARNESS] + list(defs)
            path = os.path.join(HARNESS, hsrc)
            obj = os.path.join(odir, "h_%s_%s_%s.o" % (hsrc.replace("/", "_"), cfg, H(path, open(path, "rb").read(), har_hdr, lib_hdr, tool_hash, cfg, flags, sorted(defs))))
            tasks[obj] = compile_cmd_h(path, obj + ".tmp", cfg, extra)
            objs.append(obj)
        wraps = WRAPS + [x for x in _extra_wraps.get(out, [])]
        d = os.path.join(BUILD, cfg + "-" + H(objs, wraps, lflags))
        os.makedirs(d, exist_ok=True)
        binp = os.path.join(d, out)
        links[binp] = [cxx] + flags + lflags + objs + ["-o", binp + ".tmp"] + ["-Wl,--wrap=" + w for w in wraps] + ["-lsodium", "-lcrypto"] + (["-lgmpxx"] if ppke else []) + ["-lgmp", "-lpthread", "-ldl"]
        result[(out, cfg)] = binp
    # largest first: harness TUs and template-heavy files
    todo = [(o, c) for o, c in tasks.items() if not os.path.exists(o)]
    todo.sort(key=lambda oc: (0 if "/h_" in oc[0] else 1, 0 if ".cpp" in oc[0] else 1))
    def one(oc):
        run(oc[1]); os.rename(oc[0] + ".tmp", oc[0])
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        list(ex.map(one, todo))
        def lk(bc):
            if not os.path.exists(bc[0]):
                run(bc[1]); os.rename(bc[0] + ".tmp", bc[0])
        list(ex.map(lk, links.items()))
    return result

_extra_wraps = {}
def extra_wraps(out, names):
    _extra_wraps[out] = names
