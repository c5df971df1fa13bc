#!/usr/bin/env python3
"""Copies the server of /repo to BUILD/net-src with a way in to its `main`, and
writes the manifests of the server, the client and the checker."""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(sys.argv[1], "net-src")
REPO = "/repo"
WAY_IN = "\n#[doc(hidden)]\npub fn sim_main() -> ::std::result::Result<(), ::std::string::String> {\n    ::tokio::sim::Ended::ended(main())\n}\n"
shutil.rmtree(OUT, ignore_errors=True)
os.makedirs(os.path.join(OUT, "client"))
s, d = os.path.join(REPO, "server"), os.path.join(OUT, "server")
shutil.copytree(os.path.join(s, "src"), os.path.join(d, "src"))
for f in os.listdir(s):
    if f.endswith(".md"):
        shutil.copy(os.path.join(s, f), d)
main = os.path.join(d, "src", "main.rs")
with open(main, "a") as f:
    f.write(WAY_IN)
own = os.path.exists(os.path.join(d, "src", "lib.rs"))
deps = f'''
[dependencies]
hop-engine = {{ path = "{REPO}/engine", default-features = false }}
tokio = {{ path = "{HERE}/tokio" }}
'''
rest = f'env_logger = {{ path = "{HERE}/env_logger" }}\nlog = {{ version = "0.4", default-features = false }}\n'
head = '[package]\nname = "%s"\nversion = "0.1.0"\nedition = "2018"\n\n[lib]\nname = "%s"\npath = "%s"\n'
if own:
    # A library of the server's own, next to its program.
    os.makedirs(os.path.join(OUT, "own"))
    open(os.path.join(OUT, "own", "Cargo.toml"), "w").write(head % ("hop-server", "hop_server", os.path.join(d, "src", "lib.rs")) + deps + rest)
    rest += f'hop-server = {{ path = "{OUT}/own" }}\n'
open(os.path.join(d, "Cargo.toml"), "w").write(head % ("server-main", "server_main", "src/main.rs") + deps + rest)
# The interactive program, in the same way, and the library that it uses.
s, d = os.path.join(REPO, "cli", "bin"), os.path.join(OUT, "cli")
shutil.copytree(os.path.join(s, "src"), os.path.join(d, "src"))
for f in os.listdir(s):
    if f.endswith(".md"):
        shutil.copy(os.path.join(s, f), d)
with open(os.path.join(d, "src", "main.rs"), "a") as f:
    f.write(WAY_IN)
deps_cli = deps.replace(f'tokio = {{', f'hop = {{ path = "{OUT}/client", default-features = false, features = ["std"] }}\ntokio = {{')
os.makedirs(os.path.join(OUT, "cli-lib"))
open(os.path.join(OUT, "cli-lib", "Cargo.toml"), "w").write(head % ("hop-cli-lib", "hop_cli", f"{REPO}/cli/lib/src/lib.rs") + deps_cli)
open(os.path.join(d, "Cargo.toml"), "w").write(head % ("cli-main", "cli_main", "src/main.rs") + deps_cli + f'hop-cli-lib = {{ path = "{OUT}/cli-lib" }}\n')
open(os.path.join(OUT, "client", "Cargo.toml"), "w").write(
    head % ("hop", "hop", f"{REPO}/client/src/lib.rs") + deps.replace("tokio = { ", "tokio = { optional = true, ")
    + 'async-trait = { version = "0.1", default-features = false }\n\n[features]\ndefault = ["std", "tokio"]\nstd = []\n')
open(os.path.join(OUT, "Cargo.toml"), "w").write(open(os.path.join(HERE, "Cargo.toml.in")).read().replace("@HERE@", HERE))
lock = os.path.join(HERE, "Cargo.lock")
if os.path.exists(lock):
    shutil.copy(lock, OUT)
