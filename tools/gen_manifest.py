#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of checks below."""
import json

T = "deterministic simulation with fault injection"
SIM = ("Seeded exploration, not proof: every read, seek, write, clock and entropy call of the library goes to the simulator, "
       "each scenario is exactly repeatable from its seed. Trusted: the independent Ogg/Vorbis reference model in sim/simcore. ")
CLI = "Seeded exploration: the real binary runs as its own process, every file, entropy and clock call of it passes a shim that follows the scenario; the same seed repeats the same run. Trusted: the shim, and the library as the reference for the bytes (which the other checks judge)."
CHECKS = {
 "C01": (T + "; outputs decoded and compared with an independent reference decoder", "exploration", SIM + "Valid streams of every shape the model's generator knows (floor 1)."),
 "C02": (T + "; granule positions compared with a reference model", "exploration", SIM),
 "C03": (T + "; strict independent Ogg Vorbis parser as the oracle", "exploration", SIM),
 "C04": (T + "; failures placed at the recorded operations of a fault-free run", "exploration", SIM + "Small runs get a failure at every operation, bigger ones at sampled ones."),
 "C05": (T + "; short reads and writes, interruptions, starting positions; byte equality", "exploration", SIM),
 "C06": (T + "; flipped stored bytes, checksums forged or not", "exploration", SIM),
 "C07": (T + "; the input ends (crash of its writer) at any byte", "exploration", SIM),
 "C08": (T + "; damaged pages, headers and audio behind valid checksums; operation, time and output oracles", "exploration", SIM),
 "C09": (T + "; the output is fed back, runs repeated under other entropy, delivery and clocks", "exploration", SIM),
 "C10": (T + "; real threads of which the simulator lets one run at a time and preempts it at I/O, entropy, clock, log and lock operations and at single instructions; compared with solo runs and sequential orders", "exploration", "Seeded exploration of programs, schedules and faults; each scenario runs in a fresh process and is exactly repeatable. Trusted: the thread scheduler in sim/src/sched.rs. Preemption at instructions covers the window in which serials are drawn, elsewhere threads switch at operations."),
 "C11": (T + "; sequences of remuxes in fresh processes, and the real program under a shim, repeated in worlds with other entropy, clocks and delivery", "exploration", "Seeded exploration of values, histories and worlds; each scenario is exactly repeatable. Trusted: the seams for entropy, clock and environment."),
 "C12": (T + "; simulated entropy source, serials compared with a model", "exploration", SIM),
 "C13": (T + "; the real program under a shim that fails, shortens or kills at its system calls", "exploration", CLI),
 "C14": (T + "; the real program under a recording shim, results compared with the library", "exploration", CLI),
 "C15": (T + "; torn comment headers, actions compared with a model", "exploration", SIM),
 "C16": (T + "; bit sequences over simulated endpoints compared with a one-bit-at-a-time model", "exploration", "Seeded exploration of operation sequences, delivery and failures of the endpoint; trusted: the bit model in sim/simcore."),
 "C17": (T + "; optimizers of several streams take turns in a seeded order; typestate history compared with a model", "exploration", SIM),
 "C18": (T + "; one remuxer reused over a seeded history of failed, faulted and successful runs", "exploration", SIM),
 "C19": (T + "; code lengths compared with an independently computed optimum", "exploration", SIM),
 "C20": (T + "; the simulated source changes between or during the passes", "exploration", SIM),
 "C22": (T + "; the WebAssembly module runs in a simulated JavaScript host, over histories of remuxes with failing entropy; compared with the native library", "exploration", "Seeded exploration of inputs, histories and entropy failures. Trusted: the host in wasm/host.mjs, which stands in for the code that wasm-bindgen generates, and the native library as the reference (which the other checks judge)."),
 "C21": (T + "; interleaved and chained streams under simulated delivery", "exploration", SIM),
}
NA = {
 "C23": "A pure function of one 32-bit word: no schedule, clock, I/O, fault or interleaving for a simulator to decide.",
}
NA = {k: v for k, v in NA.items() if k not in CHECKS}
m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "checks": [
  {"property": p, "quick_cmd": f"bin/check {p}", "thorough_cmd": f"bin/check {p} thorough", "technique": t, "level": l, "level_note": n.strip()}
  for p, (t, l, n) in sorted(CHECKS.items())
 ],
 "not_applicable": [{"property": p, "reason": r} for p, r in sorted(NA.items())],
 "notes": "No hooks in /repo: the library's own seams (Read + Seek source, Write sink, OggVorbisStreamMangler, getrandom's custom backend, the log crate, and interposition of the C library's clock_gettime, syscall, sched_yield and getrandom in the simulator, and of its file, entropy and clock functions in a preloaded shim for the command-line program) are enough."
}
open("/verif/MANIFEST.json", "w").write(json.dumps(m, indent=1) + "\n")
