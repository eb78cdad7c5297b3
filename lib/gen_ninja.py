#!/usr/bin/env python3
"""Writes build.ninja for one sanitizer flavour: the library sources of /repo (found by globbing, so that
new or moved files are picked up) plus the drivers of /verif/harness."""
import glob, os, sys, subprocess

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

LIBS_DIRS = {
    "core": ["vrs", "vrs/helpers", "vrs/os", "vrs/oss/logging", "vrs/utils/xxhash"],
    "utils": ["vrs/utils", "vrs/utils/converters", "vrs/utils/cli"],
}
EXTRA = {"utils": ["tools/vrs/VrsCommand.cpp"]}
# need facebookresearch/ocean, which is not here; stubbed in harness/ocean_stubs.cpp like /opt/vp does
LEFT_OUT = {"vrs/utils/PixelFrameOcean.cpp", "vrs/utils/PixelFrameOptions.cpp"}

# thousands of template instantiations: four times faster to compile without optimisation
SLOW = {"vrs/DataLayout.cpp": "-O0"}

FLAVOURS = {
    # shipping configuration (NDEBUG) with address + undefined sanitizers
    "asan": dict(
        cc="clang++",
        flags="-O1 -gline-tables-only -DNDEBUG -fno-omit-frame-pointer -fsanitize=address,undefined "
              "-fno-sanitize=vptr,alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow -fno-sanitize-recover=all "
              f"-fsanitize-ignorelist={HERE}/lib/ubsan.ignore",
        link="-fsanitize=address,undefined"),
    "tsan": dict(
        cc="clang++",
        flags="-O1 -gline-tables-only -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread -DVRS_BUILDTYPE_TSAN",
        link="-fsanitize=thread"),
    # asynchronous writes included: for drivers that stand in for aio_write (glibc's own threads can't be watched)
    "tsaio": dict(
        cc="clang++",
        flags="-O1 -gline-tables-only -DNDEBUG -fno-omit-frame-pointer -fsanitize=thread",
        link="-fsanitize=thread"),
    "plain": dict(cc="clang++", flags="-O1 -gline-tables-only -DNDEBUG", link=""),
}
# the calls harness/vio.cpp stands in for
VIO = "fopen fopen64 fclose fwrite fread fseeko fseek fflush ftruncate ftruncate64 open close pwrite pread aio_write aio_error aio_return"
COMMON = ("-std=c++17 -fPIC -w -pthread -DFMT_SHARED -DOPUS_IS_AVAILABLE -DOSS_BUILD_MODE "
          f"-I{REPO} -I{REPO}/vrs/oss -isystem /usr/include/opus -I{HERE}/harness")
LIBS = "-lfmt -llz4 -lzstd -lxxhash -ljpeg -lturbojpeg -lpng -lopus -lboost_filesystem -lboost_system -lrt -lpthread"


# and those of harness/perturb.cpp
SCHED = "pthread_mutex_lock pthread_mutex_unlock fwrite"


def main():
    flavour, bdir = sys.argv[1], sys.argv[2]
    f = FLAVOURS[flavour]
    os.makedirs(bdir, exist_ok=True)
    support = [h for h in sorted(glob.glob(f"{HERE}/harness/*.cpp")) if not os.path.basename(h).startswith("drv_")]
    out = ["ninja_required_version = 1.5"]
    out.append(f"rule cxx\n  command = {f['cc']} {f['flags']} {COMMON} $extra -MD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc")
    out.append("rule ar\n  command = rm -f $out && ar crs $out $in")
    out.append(f"rule link\n  command = {f['cc']} {f['link']} -pthread $in $wrap {LIBS} -o $out")
    for lib, dirs in LIBS_DIRS.items():
        srcs = []
        for d in dirs:
            for p in sorted(glob.glob(f"{REPO}/{d}/*.cpp")):
                rel = os.path.relpath(p, REPO)
                if rel not in LEFT_OUT and not rel.endswith("_fb.cpp"):
                    srcs.append(rel)
        srcs += [e for e in EXTRA.get(lib, []) if os.path.exists(f"{REPO}/{e}")]
        srcs.sort(key=lambda s: -os.path.getsize(f"{REPO}/{s}"))
        objs = []
        for s in srcs:
            o = "obj/" + s[:-4] + ".o"
            extra = SLOW.get(s, "")
            out.append(f"build {o}: cxx {REPO}/{s}" + (f"\n  extra = {extra}" if extra else ""))
            objs.append(o)
        out.append(f"build lib{lib}.a: ar {' '.join(objs)}")
    for s in support:
        o = "obj/support/" + os.path.basename(s)[:-4] + ".o"
        out.append(f"build {o}: cxx {s}\n  extra = -O0")
    for src in sorted(glob.glob(f"{HERE}/harness/drv_*.cpp")):
        d = os.path.basename(src)[:-4]
        uses, wrap, opt, more = ["core"], "", "-O0", []
        for line in open(src):
            if line.startswith("// WRAP:"):
                wrap += " ".join(f"-Wl,--wrap={w}" for w in line[8:].split()) + " "
            elif line.startswith("// USES:"):
                uses = line[8:].split()
            elif line.startswith("// OPT:"):
                opt = line[7:].strip()
            elif line.startswith("// WITH:"):
                more = line[8:].split()
        if "vio" in more:
            wrap += " ".join(f"-Wl,--wrap={w}" for w in VIO.split()) + " "
        if "perturb" in more:
            wrap += " ".join(f"-Wl,--wrap={w}" for w in SCHED.split()) + " "
        objs = [f"obj/drv/{d}.o", "obj/support/vh.o"] + [f"obj/support/{m}.o" for m in more]
        libs = []
        if "utils" in uses:
            objs.append("obj/support/ocean_stubs.o")
            libs.append("libutils.a")
        libs.append("libcore.a")
        out.append(f"build obj/drv/{d}.o: cxx {src}\n  extra = {opt}")
        # the two libraries refer to each other
        out.append(f"build {d}: link {' '.join(objs)} | {' '.join(libs)}\n  wrap = {wrap} -Wl,--start-group {' '.join(libs)} -Wl,--end-group")
    text = "\n".join(out) + "\n"
    path = os.path.join(bdir, "build.ninja")
    if not os.path.exists(path) or open(path).read() != text:
        with open(path, "w") as fp:
            fp.write(text)


main()
