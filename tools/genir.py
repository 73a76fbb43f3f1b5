#!/usr/bin/env python3
"""Generate the whole-program LLVM IR (harness + cbm + std) from /repo's current tree.

usage: genir.py BUILD_DIR [FEATURE]  -> BUILD_DIR/prog.ll, BUILD_DIR/names.txt
"""
import os, re, subprocess, sys, glob, shutil

ENV = dict(os.environ)
ENV.update(RUSTUP_TOOLCHAIN="stable", RUSTC_BOOTSTRAP="1", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")
for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
    ENV.pop(k, None)
# Unoptimised, un-inlined, merged IR; overflow checks/debug assertions come from the profile.
ENV["RUSTFLAGS"] = "-C no-prepopulate-passes -Zinline-mir=no -Awarnings --cfg verif_ir"

PANIC = (
    "core::panicking::panic_fmt",
    "core::panicking::panic_nounwind_fmt",
    "core::panicking::panic_nounwind_fmt::runtime",
    "std::panicking::panic_handler",
    "std::process::abort",
    "alloc::alloc::handle_alloc_error",
)


def llvm_bin():
    sr = subprocess.check_output(["rustc", "--print", "sysroot"], env=ENV, text=True).strip()
    return os.path.join(sr, "lib/rustlib/x86_64-unknown-linux-gnu/bin")


def main():
    build = os.path.abspath(sys.argv[1])
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    tgt = os.path.join(build, "irtarget")
    os.makedirs(tgt, exist_ok=True)
    hdir = os.path.join(build, "harness")
    for f in glob.glob(os.path.join(tgt, "debug/deps/*.ll")):
        os.unlink(f)
    for f in glob.glob(os.path.join(tgt, "debug/.fingerprint/vharness-*")):  # always re-emit
        shutil.rmtree(f, ignore_errors=True)
    r = subprocess.run(
        ["cargo", "rustc", "--offline", "--lib", "--crate-type", "staticlib", "--target-dir", tgt,
         "--manifest-path", os.path.join(hdir, "Cargo.toml")] + (["--features", sys.argv[2]] if len(sys.argv) > 2 else []) + ["--", "--emit=llvm-ir"],
        env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    lls = glob.glob(os.path.join(tgt, "debug/deps/*.ll"))
    if r.returncode != 0 or len(lls) != 1:
        sys.stderr.write(r.stdout[-4000:])
        sys.stderr.write("genir: IR generation failed\n")
        sys.exit(4)
    names, keep = {}, []
    args_init = None
    out = os.path.join(build, "raw.ll")
    fn_re = re.compile(r'@("?)([A-Za-z0-9_.$-]+)\1\(')
    last = None
    with open(lls[0], errors="replace") as f, open(out, "w") as o:
        skip = False
        for line in f:
            if skip:
                if line.startswith("}"):
                    skip = False
                continue
            if line.startswith("; ") and not line.startswith("; Function Attrs"):
                last = line[2:].strip()
                continue
            if line.startswith("define "):
                m = fn_re.search(line)
                n = m.group(2)
                d = last or n
                last = None
                names[n] = d
                if d.split("::<")[0] in PANIC or d in PANIC:
                    # panic entry points end the path in the engine
                    l = line.rstrip()
                    assert l.endswith("{")
                    l = l[:-1]
                    l = re.sub(r"^define (?:(?:internal|private|hidden|weak|weak_odr|linkonce_odr|protected|dso_local) )*", "declare ", l)
                    l = re.sub(r" personality ptr @\S+", "", l)
                    l = re.sub(r" !\w+ !\d+", "", l)
                    l = re.sub(r" comdat(\(\S+\))?", "", l)
                    o.write(l + "\n")
                    skip = True
                    continue
                if "core::hash::sip::Hasher<" in d and (d.endswith("::write") or d.endswith("::finish")):
                    line = re.sub(r"^define (?:(?:internal|private|hidden|weak_odr|linkonce_odr) )*", "define ", line)
                    line = re.sub(r" comdat(\(\S+\))?", "", line)
                    # attributes follow the parameter list: insert noinline before the group reference
                    line = re.sub(r" #(\d+)", r" noinline #\1", line, count=1)
                    keep.append(n)
                if n.startswith("h_"):
                    keep.append(n)
            elif "ARGV_INIT_ARRAY" in line and line.startswith("@"):
                # the function that receives the program's arguments
                m = re.search(r"ptr @([A-Za-z0-9_.$]+)", line)
                args_init = m and m.group(1)
            elif line.startswith("declare ") and "@vx_args_init(" in line:
                continue
            elif not line.startswith(";"):
                last = None if line.strip() else last
            o.write(line)
        if args_init:
            o.write("define void @vx_args_init(i32 %%c, ptr %%v, ptr %%e) {\n  call void @%s(i32 %%c, ptr %%v, ptr %%e)\n  ret void\n}\n" % args_init)
    # inlinehint/alwaysinline attributes of the hashed functions live in shared groups: noinline wins over
    # inlinehint; alwaysinline is not used by these functions.
    with open(os.path.join(build, "names.txt"), "w") as f:
        for n, d in names.items():
            f.write(n + "\t" + d + "\n")
    opt = os.path.join(llvm_bin(), "opt")
    final = os.path.join(build, "prog.ll")
    r = subprocess.run(
        [opt, "-S", "--internalize-public-api-list=" + ",".join(keep),
         "-passes=internalize,globaldce,default<O1>,internalize,globaldce", "-vectorize-loops=false",
         "-vectorize-slp=false", "-strip-debug", out, "-o", final + ".tmp"],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-4000:])
        sys.stderr.write("genir: opt failed\n")
        sys.exit(4)
    os.replace(final + ".tmp", final)
    os.unlink(out)
    os.unlink(lls[0])
    print("IR: %d bytes, %d keep" % (os.path.getsize(final), len(keep)))


main()
