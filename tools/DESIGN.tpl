# Model checking square/sudo_pair

## 1. Approach

What users run is the compiled plugin `libsudo_pair.so`, called by sudo through
a C table of callbacks, and the script `sample/bin/sudo_approve`.  Every check
drives *those*, built from `/repo`'s working tree, in a controlled environment,
and enumerates **every** behaviour of that environment within stated bounds.
There is no sampling, no fuzzing and no solver; there is no hand-written model
of the plugin that could drift from it either: the transition system explored
*is* the implementation, and the model is the oracle beside it.

* `mc` (Rust, `/verif/mc`) `dlopen`s the plugin and patches the plugin's own
  GOT (`got.rs`, `wraps.rs`), so that every libc call that can observe or change
  the world (files, sockets, select/poll, signals, umask, ids, ...) is handed to
  `world.rs` first.  Calls still reach the real kernel, in a scratch directory;
  what `mc` owns is each answer the environment chooses: who connects when and
  says what, short and interrupted I/O, failures, SIGINT, death, the order in
  which two processes run.  A call that would block is where the next step of
  the environment is chosen; if there is none the execution is over ("hung").
* All nondeterminism goes through `Cx::input` (a value of the input domain:
  full cartesian products), `Cx::pick` and `Cx::flag` (departures from the
  undisturbed run).  `explore.rs` does a stateless depth-first search by replay
  over all choice sequences with at most *b* departures; b = 0, 1, 2, ... in turn,
  so that the first counterexample is minimal.  A replay file holds the choice
  sequence; `./check ID --replay FILE` runs it again.
* The oracle of a property is a small reference model in its module
  (`mc/src/props/cNN.rs`), written from the documentation, which predicts what
  the user, the pair, the kernel objects and the log must show.  It is compared
  with every execution, so each execution is also a conformance check of that
  model against the implementation ("traces validated").
* Each harness names outcomes it must have seen (`expect`); one that never
  occurred is reported as *no answer* (exit 2), so a check cannot pass
  vacuously.
* A probe plugin (`/verif/probe`, path dependency on `/repo/sudo_plugin`) is
  driven the same way for what the library promises to *any* plugin (C11..C17):
  its methods do what the explorer chooses (return, fail with any chain of
  causes, panic with any payload).  C19 loads the repository's example plugin.
* The script runs unmodified under bash (`script.rs`) as an unprivileged user,
  with recording stand-ins for sudo, socat, clear (and stty, getent where they
  are not the point); a preloaded shim shows a scratch directory as
  `/var/run/sudo_pair`.  C27 uses the real stty on a pseudo terminal.
* Earlier sessions: sudo runs one session per process, but nothing in the plugin
  interface says so, and a value remembered from before must not decide anything.
  Every harness of a plugin with at most 20 000 executions (all in the thorough tier)
  is run again after three histories of earlier sessions in the same process, with
  other users, targets, options, templates, umask and handlers, ended in every way
  (`earlier.rs`); its oracle is the same.
* The code's own constants: what a program compares its input with is mostly
  written in its text.  `dict.rs` collects the numbers (with neighbours, products,
  shifts) and string literals of /repo's Rust sources, adds a few words that invite
  a special case, and the harnesses `constants`, `contents` and `words` of
  fifteen properties put every one in every place where nothing may depend on it
  (facts, options, both environments, arguments, chunks, lengths, sizes, versions,
  answers).  This only adds inputs to the fixed domains; nothing is judged by the
  text, and a constant computed in some other way is beyond it.
* Two processes (C22): each is a forked child that stops before each call that
  touches the socket directory or a socket; the scheduler picks who goes on.

No hook in /repo is needed: GOT patching needs no source change.  `./check ID`
builds what it needs (about 10 s when nothing is cached) into `/verif/target`.
Quick runs take 2 to 80 s each; thorough runs raise the bounds and are cut off
at 50 minutes per property by iterative deepening (the evidence says which
bounds were completed).  Long runs are deterministic: no seed is used.

Containment: the plugin runs with the socket directory, prompts, `/dev/log` and
default paths remapped into a scratch directory that is removed afterwards; a
call with any other path that could change something is counted as an *escape*,
not performed, and fails the check.  The script runs as uid 65534.

## 2. Properties

Times are quick runs; "b" is the bound on departures (quick/thorough).  The
harnesses, their domains and their counts are in the table of section 3.

C01 *exemptions* (31 s). Inputs: who becomes whom with which groups, -g, lists,
hints in all spellings, command paths of arbitrary bytes, all texts of the lists
up to a length, every other documented key. Oracle: the six documented
exemptions over the *facts*; exempt means returning 1 without a socket, prompt
or wait. Unit tests never call `open` at all.

C02 *explicit yes* (32 s, b 2/3). All first bytes, all two-byte answers, all ways
to end, three connections in every order, all failing/short/interrupted calls,
prompt sizes around the transport's. Oracle: approved iff the complete prompt was
sent and then y/Y was the first byte received from that connection.

C03 *-u with -g* (5 s). All spellings, changes, exemptions and positions of the key.
C04 *who can reach the socket* (3 s, b 1/2). At every boundary between two system
calls, the kernel's permission check is evaluated for every candidate (and in one
harness each really connects); all umasks' classes, effective groups and faults.
C05 *directory and object at the path* (8 s). All 4096 modes × owners × euids; every
kind of object; every fault.
C06 *nothing left behind* (12 s, b 2/3). Every way an attempt can end, compared before
and after: names, umask, descriptors, dispositions, mask, cwd, ids, limits; the
session's connection is close-on-exec; all 512 umasks; whatever can be in the way.
C07 *every byte of output* (32 s), C08 *no redirected stdin* (11 s), C25 *resizes* (13 s),
C32 *during the session* (16 s). All sequences of chunks by stream and size, all
hints, faults in every write, the pair typing or leaving at every instant, or reading
only when sudo waits for him, every text of two bytes and of special meaning, every
error number, and long histories. Oracle: what the pair received is the concatenation of what was accepted;
after he left everything non-empty is refused.
C09 *Ctrl-C* (29 s). SIGINT at each wait (for a connection, for room for the
prompt, for the answer) under every disposition (handler, flags, mask); restarts and
partial writes follow signal(7).
C10 *prompts* (34 s), C20 *the command shown* (30 s), C28 *instructions* (28 s). All templates
over 18 symbols, every byte after %, odd values in every fact; all 2^18 flag
combinations, odd values, command lines; in C28 the text shown is read as a helper
would, typed, and run through the real script back to the real socket.
C11 *errors and panics* (73 s), C12 *callbacks* (10 s), C13 *life of a plugin* (19 s),
C14 *option lists* (11 s), C15 *facts* (81 s), C16 *versions* (40 s), C17 *printing* (31 s):
the probe plugin, with the complete value domains or all histories up to a depth.
C18 *approval script* (20 s), C27 *its terminal* (7 s): the real script, all states and
arguments, signals at each instant, failing commands, keys.
C19 *example plugin* (5 s). C21 *tables* (2 s): every member's offset, size, signature,
and what really answers in each slot.
C22 *two at once* (48 s, 2/4 preemptions), C24 *killed* (27 s): interleavings; death before
each system call, then a session of the same name.
C23 *courtesies* (7 s, b 3/4): combinations of failing courtesies against each answer.
C26 *acting alone* (32 s, 2/3 steps): plugin + script + kernel permissions + a model of
sudo, against all step sequences of one user at all instants.
C29 *version* (2 s), C30 *options* (14 s), C31 *system log* (13 s).

None is claimed as not applicable: each is a statement about executions, and
executions are what is enumerated.

HARNESSES
## 4. Defects found and repaired

All were first seen as violations on the unchanged tree, shown against the real
code, and are recorded in `known_findings.jsonl`; for each the check was seen to
fail again with the repair taken back.

| commit | property | what failed |
|---|---|---|
FIXES

Open (listed, printed as KNOWN-FINDING): C15 `nice=-5` is read as absent, because
the public field is an `Option<u64>`.

## 5. False alarms met and corrected

* C21 first demanded that different slots hold different functions; the linker
  folds identical code. Now each slot is called and what answers is compared.
* C26 counted an open with an empty command as a session; it is sudo's version
  display. C18/C26's hostile words used unset variables, which bash rejects anyway.
* C14's size harness ran into its own buffer limit. C31's logger queue overflowed
  because the harness did not read it while the plugin wrote.
* C27 numbered the failing stty calls; a harmless refactoring shifts them. Failing
  commands are now identified by what precedes the connection.
* C29 assumed sudo's level constant for information is 1 (it is 4).
* C30 used the word `binary_path` without `=` as "no option"; by C14 an entry
  without `=` is its own value. Option paths that are not UTF-8 fall back to the
  default, which is not judged.
* C28 used user and host names that are not UTF-8; such sessions are refused.
* C06 reported the logger's descriptor, which the syslog crate opens without
  close-on-exec; that is a dependency's, and harmless, so it is left out.
* A peer was looked up by a reused descriptor number (`world.rs`).

## 6. Seen, and not judged

Behaviour that the properties deliberately leave open (documented in each
property's assumptions): a listener descriptor of 1024 or more; Ctrl-C while the
answer's echo or, later, output waits for the pair to read; timeouts added to the wait
for a pair (they fail closed); `SUDO_UID` forged when the script is run directly
(the script runs with the forger's own rights, and the socket's permissions
decide); `runas_groups` given together with `preserve_groups`; the keys `cmnd_cwd`
and `cmnd_chroot` of newer sudos; cwd, user or host in user_info that are not UTF-8
(refused); a malformed `gids_enforced` falls back to the default; `PS4` together
with `TRACE`; SIGTERM of the script alone while socat stays; a blocking logger; a
pair who half-closes.

## 7. Planted bugs

Written from a property's text and the code, before looking at what its check
covers. Each is caught by its property's own check in the quick tier (and the check
is quiet without it); the demonstrations drive the built plugin through ctypes
(`tools/drive.py`, copied beside each).

SEEDS

Bugs in `sample/bin/sudo_approve` are not kept there, since a patch to it does not
count as a source change; two were planted and are caught: the terminal's settings not
saved before they are changed (C27), and the caller's id taken from the wrong place (C18).

Besides these, campaigns of about 510 small changes (mutants) written by hand were run
against the checks of the properties they concern, in fourteen rounds: conditions negated, weakened or
moved; steps dropped or reordered; constants, lengths and types changed; errors
swallowed or turned into others; state kept or reset at the wrong time; limits on
sizes, counts and histories; bytes and texts treated specially; state remembered from
session to session. Those first missed led to new harnesses (C05 all modes, C06 umasks
and limits, C13 histories, C22 leftovers, C31 and C32 as a whole, the "long", "many",
"powers", "errnos", "texts", "constants", "pairs", "repeats", "again", "held", "obstacles" and
"slow" harnesses, and the earlier sessions). What remains undetected is equivalent: `sock-gid-always` (chown to
the gid the socket has already), `sock-mode-grp-usr`, `sock-umask-weak` (the directory
is closed at that time), `unlink-initial-ignored`, `dir-notdir` and
`init-err-drops-env` (another step fails in the same way), `print-4096` (a short write
is continued). Each of the repairs of section 4 was taken back alone and seen to be
reported by its property.

A program made 1114 mechanical mutants of all sources of the three crates (statements
dropped, operators and constants changed, names swapped for their neighbours, errors
ignored, bodies emptied) and the quick checks were run against the 794 that remained
after leaving out texts of messages and debug logging: 227 do not build, 483 are caught,
and each of the 84 survivors was read. They are equivalent (an unreachable arm, a second
line of defence behind the kernel's own, a lock step of drop and close), touch only
what debug builds or logs of debug level show, or reword a message; four
were not and are caught since (C12 the library's default for hints, C17 a writer that
takes part of a line, C20 sudoedit's own name, and a join only C20 sees).

Quietness was tried on seven batches of refactorings of all source files (helpers
extracted, loops rewritten, poll for select, fs::metadata for stat, statements
reordered, the script's tests merged): all checks and demonstrations stayed quiet.

## 8. How to extend it

A property is an entry in `tools/genprops.py` and a module in `mc/src/props`; then
`tools/genprops.py`, `./check --build`, `./check ID`, `tools/genmanifest.py`, and after
a full run `tools/gendesign.py`, which fills the tables of this file from
`tools/DESIGN.tpl`.
