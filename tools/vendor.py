#!/usr/bin/env python3
"""tools/vendor.py LIBRARY OUT LOCK...: one directory with links to the sources of all crates that
the lock files name, from cargo's cache and from what comes with the Rust standard library."""
import json, os, re, sys

library, out, locks = sys.argv[1], sys.argv[2], sys.argv[3:]
cache = os.path.expanduser("~/.cargo/registry/src")
places = [os.path.join(cache, d) for d in os.listdir(cache)] + [os.path.join(library, "vendor")]
for lock in locks:
    text = open(lock).read()
    for name, version, sha in re.findall(r'\[\[package\]\]\nname = "(.*)"\nversion = "(.*)"\nsource = ".*"\nchecksum = "(.*)"', text):
        crate = f"{name}-{version}"
        at = next((p for p in (os.path.join(d, crate) for d in places) if os.path.isdir(p)), None)
        if at is None:
            # Crates for other platforms are not there, and not needed
            continue
        to = os.path.join(out, crate)
        os.makedirs(to, exist_ok=True)
        for f in os.listdir(at):
            if f not in (".cargo-checksum.json", ".cargo-ok") and not os.path.lexists(os.path.join(to, f)):
                os.symlink(os.path.join(at, f), os.path.join(to, f))
        with open(os.path.join(to, ".cargo-checksum.json"), "w") as f:
            json.dump({"files": {}, "package": sha}, f)
