"""Builds the native engine from the repository's current sources, with an in-process transport and
random draws under control of the explorer (lib/native), and drives it."""
import concurrent.futures
import ctypes
import glob
import hashlib
import os
import re
import shutil
import subprocess
import sys

import harness as H

NATIVE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native")
BUILD = os.path.join(H.VERIF, "build", "native")
CC = os.path.join(H.REPO, "src", "cc", "lib")
FLAGS = ["-std=c++20", "-fPIC", "-fvisibility=hidden", "-w", "-O1", "-g1", "-DNDEBUG", "-DGLOG_NO_ABBREVIATED_SEVERITIES"]
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]
WRAP = ["_ZNSt28__atomic_futex_unsigned_base%sEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE" % n
        for n in ("19_M_futex_wait_until", "26_M_futex_wait_until_steady")] + ["_ZNSt6thread20hardware_concurrencyEv"]


def sources():
    out = []
    for d in ("", "graph", "distributed"):
        out += sorted(glob.glob(os.path.join(CC, d, "*.cc")))
    return out


def service_header(proto):
    """The generated part of the transport interface, from the service definitions."""
    text = re.sub(r"//[^\n]*", "", open(proto).read())
    pkg = re.search(r"package\s+([\w.]+)\s*;", text).group(1).replace(".", "::")
    out = ["#pragma once", '#include "vp_grpc.h"', '#include "src/cc/lib/distributed/service.pb.h"', "namespace %s {" % pkg]
    for m in re.finditer(r"service\s+(\w+)\s*\{((?:[^{}]|\{[^{}]*\})*)\}", text):
        name, rpcs = m.group(1), re.findall(r"rpc\s+(\w+)\s*\(\s*(\w+)\s*\)\s*returns\s*\(\s*(\w+)\s*\)", m.group(2))
        out.append("class %s final { public:" % name)
        out.append("class StubInterface { public: virtual ~StubInterface() = default; };")
        out.append("class Stub final : public StubInterface { public: explicit Stub(std::shared_ptr<grpc::Channel> c) : m_c(std::move(c)) {}")
        for f, a, b in rpcs:
            for p in ("PrepareAsync", "Async"):
                out.append("std::unique_ptr<grpc::ClientAsyncResponseReader<%s>> %s%s(grpc::ClientContext *, const %s &r, "
                           "grpc::CompletionQueue *cq) { return std::make_unique<grpc::ClientAsyncResponseReader<%s>>("
                           "grpc::vp_prepare(m_c->vp_address, \"%s.%s\", r, cq)); }" % (b, p, f, a, b, name, f))
        out.append("private: std::shared_ptr<grpc::Channel> m_c; };")
        out.append("static std::unique_ptr<Stub> NewStub(const std::shared_ptr<grpc::Channel> &c) { return std::make_unique<Stub>(c); }")
        out.append("class Service : public grpc::Service { public:")
        for f, a, b in rpcs:
            out.append("virtual grpc::Status %s(grpc::ServerContext *, const %s *, %s *) { return grpc::Status("
                       "grpc::StatusCode::UNIMPLEMENTED, \"\"); }" % (f, a, b))
        out.append("};")
        out.append("class AsyncService : public grpc::Service { public:")
        for f, a, b in rpcs:
            out.append("void Request%s(grpc::ServerContext *, %s *r, grpc::ServerAsyncResponseWriter<%s> *w, grpc::CompletionQueue *, "
                       "grpc::ServerCompletionQueue *cq, void *tag) { vp_wait(\"%s.%s\", grpc::VpWaiting{r, "
                       "[w](std::shared_ptr<grpc::VpCall> c) { w->vp_call = c; }, cq->vp, tag}); }" % (f, a, b, name, f))
        out.append("}; };")
    out.append("}")
    return "\n".join(out) + "\n"


def patched_repeated_field(gen):
    """Later versions of protobuf declare the iterators of repeated fields contiguous; so does this copy."""
    src = "/usr/include/google/protobuf/repeated_field.h"
    text = open(src).read()
    if "iterator_concept" in text:
        return
    text, n = re.subn(r"(class RepeatedIterator \{(?:\s*private:.*?)?\s*public:)",
                      r"\1\n  using iterator_concept = ::std::contiguous_iterator_tag;\n", text, count=1, flags=re.S)
    if n != 1:
        raise BuildError("unexpected " + src)
    os.makedirs(os.path.join(gen, "google/protobuf"))
    with open(os.path.join(gen, "google/protobuf/repeated_field.h"), "w") as f:
        f.write(text)


def _hash(flags):
    h = hashlib.sha256(repr(flags).encode())
    files = sources() + sorted(glob.glob(os.path.join(CC, "**", "*.h"), recursive=True)) + \
        sorted(glob.glob(os.path.join(CC, "**", "*.proto"), recursive=True)) + \
        sorted(glob.glob(os.path.join(NATIVE, "**", "*.*"), recursive=True)) + [os.path.abspath(__file__)]
    for f in files:
        if "/benchmark/" in f or not os.path.isfile(f):
            continue
        h.update(os.path.relpath(f, H.REPO if f.startswith(H.REPO) else H.VERIF).encode() + b"\0")
        h.update(open(f, "rb").read() + b"\0")
    return h.hexdigest()[:20]


class BuildError(Exception):
    pass


def _run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), p.stdout[-3000:]))


def build(asan=True, control=True):
    """Path of the library; built when the sources changed."""
    flags = FLAGS + (ASAN if asan else []) + (["-include", "vp_random.h" if control else "vp_std.h"])
    out = os.path.join(BUILD, _hash(flags))
    lib = os.path.join(out, "libwrapper.so")
    if os.path.exists(lib):
        return lib
    tmp = out + ".tmp%d" % os.getpid()
    gen = os.path.join(tmp, "gen")
    os.makedirs(os.path.join(gen, "src/cc/lib/distributed"))
    rel = "src/cc/lib/distributed/service.proto"
    proto = os.path.join(H.REPO, rel)
    _run(["protoc", "-I", H.REPO, "--cpp_out=" + gen, proto])
    with open(os.path.join(gen, "src/cc/lib/distributed/service.grpc.pb.h"), "w") as f:
        f.write(service_header(proto))
    patched_repeated_field(gen)
    inc = ["-I", gen, "-I", os.path.join(NATIVE, "include"), "-I", H.REPO, "-I", CC]
    if not control:
        shim = os.path.join(tmp, "inc")
        shutil.copytree(os.path.join(NATIVE, "include"), shim)
        shutil.rmtree(os.path.join(shim, "boost"))
        inc[3] = shim
    cxx = ["ccache", "g++"] if os.environ.get("VP_CCACHE") else ["g++"]
    jobs = [(s, os.path.join(tmp, "%d.o" % i)) for i, s in enumerate(
        sources() + [os.path.join(gen, "src/cc/lib/distributed/service.pb.cc"), os.path.join(NATIVE, "vp.cc")])]
    jobs.sort(key=lambda j: -os.path.getsize(j[0]))
    with concurrent.futures.ThreadPoolExecutor(min(8, os.cpu_count() or 1)) as ex:
        list(ex.map(lambda j: _run(cxx + flags + inc + ["-c", j[0], "-o", j[1]]), jobs))
    _run(["g++", "-shared", "-fPIC"] + (ASAN if asan else []) + ["-o", os.path.join(tmp, "libwrapper.so")] +
         [o for _, o in jobs] + ["-Wl,--wrap=" + w for w in WRAP] +
         ["-lprotobuf"] + ["-l" + os.path.basename(x)[3:-3] for x in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.so"))] +
         ["-Wl,--as-needed", "-lstdc++fs", "-ldl", "-lpthread"])
    for _, o in jobs:
        os.remove(o)
    for old in glob.glob(os.path.join(BUILD, "*")):
        if old != tmp and ".tmp" not in old and not os.environ.get("VP_CCACHE"):
            shutil.rmtree(old, ignore_errors=True)
    os.rename(tmp, out)
    return lib


def activate():
    """Build the library and start the check again with the address checker loaded."""
    if os.environ.get("VP_NATIVE") == "1":
        return
    import time
    t0 = time.time()
    try:
        lib = build()
    except BuildError as e:
        print("the native library does not build: %s" % e)
        sys.exit(3)
    gcc = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
    std = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE, text=True).stdout.strip()
    env = dict(os.environ, VP_NATIVE="1", VP_SCRATCH=H.scratch(), VP_T0=repr(t0), SNARK_LIB_PATH=lib, LD_PRELOAD="%s:%s" % (gcc, std),
               ASAN_OPTIONS="detect_leaks=0:quarantine_size_mb=32:malloc_context_size=6:allocator_may_return_null=1:"
               "abort_on_error=0:exitcode=99:handle_segv=1:log_path=" + os.path.join(H.scratch(), "asan"))
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


def crash_info(pid):
    """What the address checker said about a process that died."""
    path = re.search(r"log_path=([^:]+)", os.environ.get("ASAN_OPTIONS", "")).group(1)
    try:
        text = open("%s.%d" % (path, pid)).read()
    except OSError:
        return ""
    m = re.search(r"ERROR: AddressSanitizer: ([^\n]{0,80})", text)
    fr = re.findall(r"#\d+ \S+ in (.+?) (?:\(?/\S*/)?([\w.]+:\d+)", text)[:4]
    return "%s at %s" % (m.group(1).split(" on ")[0] if m else "error", ", ".join("%s %s" % (a[:60], b) for a, b in fr))
