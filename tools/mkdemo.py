#!/usr/bin/env python3
"""mkdemo.py ID 'SRC SRC..' ['extra g++ flags'] [timeout]: (re)writes seeded/ID/demo.sh and the stand-in headers it needs."""
import os
import shutil
import sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
i = sys.argv[1]
srcs = sys.argv[2]
extra = sys.argv[3] if len(sys.argv) > 3 else ""
tmo = sys.argv[4] if len(sys.argv) > 4 else "60"
d = os.path.join(ROOT, "seeded", i)
os.makedirs(d, exist_ok=True)
shutil.rmtree(os.path.join(d, "stubs"), ignore_errors=True)
shutil.copytree(os.path.join(ROOT, "stubs"), os.path.join(d, "stubs"))
D = ("-w -O0 -DTESTING -DUSE_LOGGING=0 -DAPPLICATION_VERSION_MAJOR=0 -DAPPLICATION_VERSION_MINOR=0 "
     "-DAPPLICATION_VERSION_PATCH=0 -DTARGET_PLATFORM=Linux -DTARGET_ARCHITECTURE=x86_64 -DCOMPANY_NAME=MaidSafe "
     "-DAPPLICATION_NAME=Common -DASIO_HAS_MOVE -DBOOST_ASIO_HAS_MOVE -DASIO_HAS_STD_ARRAY -DASIO_HAS_STD_ATOMIC "
     "-DASIO_HAS_STD_SHARED_PTR -DASIO_HAS_STD_CHRONO -DASIO_HAS_STD_SYSTEM_ERROR -DASIO_HAS_VARIADIC_TEMPLATES "
     "-DBOOST_FILESYSTEM_VERSION=3 -DBOOST_THREAD_VERSION=4")
open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
# cwd: the repository.  Compiles the demonstration with the repository's sources and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d); trap 'rm -r "$t"' EXIT
std=${STD:-c++11}
n=0
pids=()
for s in "$here/demo.cc" %s; do
  n=$((n+1))
  g++ -std=$std %s %s -I"$here/stubs" -include "$here/stubs/msa_prelude.h" -include asio/io_service.hpp \\
    -Iinclude -Isrc -c "$s" -o "$t/$n.o" & pids+=($!)
done
for p in "${pids[@]}"; do wait "$p" || exit 9; done
g++ %s "$t"/*.o -o "$t/demo" -lboost_filesystem -lboost_program_options -lboost_thread -lboost_chrono -lboost_date_time \\
  -lboost_system -lcryptopp -lsqlite3 -pthread -ldl -no-pie -Wl,-z,lazy -Wl,--unresolved-symbols=ignore-all || exit 9
cd "$t" && timeout %s ./demo
""" % (" ".join("src/maidsafe/common/" + s for s in srcs.split()), D, extra, extra, tmo))
