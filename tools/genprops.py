import json
P=[]
def p(id,title,stmt,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="sudo_pair/src/lib.rs"; S="sudo_pair/src/socket.rs"; T="sudo_pair/src/template.rs"; E="sudo_pair/src/errors.rs"
C="sudo_plugin/src/core.rs"; IO="sudo_plugin/src/plugin/io_env.rs"; ST="sudo_plugin/src/plugin/io_state.rs"; M="sudo_plugin/src/macros.rs"
OM="sudo_plugin/src/options/option_map.rs"; TR="sudo_plugin/src/options/traits.rs"; CI="sudo_plugin/src/options/command_info.rs"; UI="sudo_plugin/src/options/user_info.rs"; SE="sudo_plugin/src/options/settings.rs"
PF="sudo_plugin/src/output/print_facility.rs"; V="sudo_plugin/src/version.rs"; SYS="sudo_plugin-sys/src/lib.rs"; AP="sample/bin/sudo_approve"; EX="examples/raw_plugin_api/src/lib.rs"; ER="sudo_plugin/src/errors.rs"
NOT="sudo_pair's lib.rs and socket.rs have no tests at all; "

p("C01","Only the documented exemptions let a session run without a pair",
 "A sudo session is let through without a pair if, and only if, a documented exemption holds: it is invoked by the user sudo itself runs as (root); it changes neither user nor group; it runs the approval command; the policy asked for no output logging; the invoking user is in an exempted group; or no group the command will hold (its effective group included) is an enforced one. An exempt session proceeds at once, with no socket, prompt or wait; any other session never proceeds unapproved, whatever bytes its command path and options contain.",
 ["inputs","configurations"],"every combination of invoking and target uid/gid/group vectors, requested -u/-g, logging hints, command paths (including non-UTF-8), enforced and exempted group lists",
 NOT+"the rule is a function of a dozen attributes whose interactions (which uid, which gid, which group vector, which default) no sampled test settles.",
 [L,C,IO,CI],[("exemption predicate chain","sudo_pair/src/lib.rs is_exempt and is_sudoing_*"),("command group set","sudo_plugin/src/plugin/io_env.rs runas_gids"),("no-command (-V) shortcut","sudo_plugin/src/core.rs open")],
 [("gids_enforced/gids_exempted","configured group lists","sudo_pair/src/lib.rs PluginOptions")],["return code of the I/O plugin's open","whether a socket is bound"])
p("C02","Without a pair's explicit yes there is no session",
 "A session that needs a pair is let through only if whoever connected to that session's own socket was first sent the complete approval prompt and then answered with `y` or `Y` as the first byte. Any other answer, a disconnect, an interrupted wait, or a failing system call needed to ask or to hear the pair refuses the session (an interrupted or short write of the prompt may be resumed). With an answer of `y` or `Y` and no failure the session is let through.",
 ["fault_sequences","inputs","schedules"],"every first answer byte, every peer behaviour (early close, half close, several connections in any order), every single and double failure or interruption of a system call",
 NOT+"tests would have to fail each system call at each point and try each byte; the dangerous cases are a read that returns nothing and a second peer's answer.",
 [L,S,E],[("response defaults to no","sudo_pair/src/lib.rs remote_pair_prompt"),("errors map to deny","sudo_pair/src/errors.rs From<Error> for OpenStatus"),("select then accept one peer","sudo_pair/src/socket.rs Socket::open")],
 [("response","one answer byte, pre-set to n","sudo_pair/src/lib.rs remote_pair_prompt")],["return code of open","bytes exchanged on the socket"])
p("C03","Changing both user and explicit group is refused unless exempt",
 "A session that needs a pair, changes to a different user and also names a group explicitly (-g) is refused at once: no socket is created and nobody is asked. This holds however the user or group is spelled. An exempt session may combine both, and a session that needs a pair and changes to a different user without -g, or only changes group through -g, is not refused for this reason (one that changes neither in a way a pair could hold has nobody to ask and is refused, too).",
 ["inputs","configurations"],"all combinations of changed/unchanged user, -u/-g given or not (any byte string), changed or unchanged effective group, exempt or not",
 NOT+"it relates three independent inputs (settings, user info, command info).",
 [L,SE],[("user-and-group check","sudo_pair/src/lib.rs is_sudoing_to_user_and_group")],None,["return code of open","whether a socket is bound"])
p("C04","Only someone already holding the target privileges can reach the socket",
 "At every instant from its creation to its removal, the approval socket can be connected to only by root or by someone acting as the target user (when the user changes) or holding the target group (when only the group changes by -g); the invoking user acting only as himself, and not already holding that group, cannot, while those entitled can connect as long as sudo waits. It lies in the configured directory and is named `<invoking uid>.<sudo pid>.sock`. When neither kind of change can be established, no socket is opened and the session is refused.",
 ["schedules","configurations"],"every instant between two system calls of the plugin, every candidate peer credential, every target user/group and initial umask",
 NOT+"the guarantee concerns every intermediate instant between bind, chown and chmod, which no test observes.",
 [S,L],[("umask 0777 before bind","sudo_pair/src/socket.rs Socket::open"),("owner/group/mode selection","sudo_pair/src/lib.rs socket_uid, socket_gid, socket_mode"),("socket name","sudo_pair/src/lib.rs socket_path")],None,["connect(2) attempted under each credential at each instant"])
p("C05","Insecure socket places are refused and foreign files left alone",
 "If the socket's directory is missing, is not a directory, is not owned by the user sudo runs as, or is writable by group or others, the session is refused and nothing there is created or removed; any other directory is accepted. Whatever lies at the socket's own path is never opened or written, and is removed only if it is a leftover socket (or a link to one, in which case only the link goes); anything else there refuses the session and stays as it was.",
 ["configurations","inputs"],"every permission mode (all 4096), owner and kind of the directory; every kind of object at the socket path",
 NOT+"4096 modes times owners times kinds of pre-existing object.",
 [S],[("directory check","sudo_pair/src/socket.rs enforce_ownership"),("stale socket removal","sudo_pair/src/socket.rs unlink")],None,["return code of open","directory contents before and after"])
p("C06","However an open attempt ends, nothing is left behind",
 "Whether a session is approved, declined, interrupted or fails at any system call, when the open attempt returns the socket's name is gone from the filesystem, the process's umask, signal handling, working directory and ids are what they were before, and no file descriptor stays open beyond the pair's connection of an approved session, which the command does not inherit, and the logger's. After the session is closed none of these remain, and the pair sees end of file.",
 ["fault_sequences","histories"],"every single and double system-call failure (other than of the clean-up operations themselves), every peer behaviour, every initial umask and SIGINT disposition",
 NOT+"each early-return path must restore three pieces of process state.",
 [S,L],[("unconditional unlink and umask restore","sudo_pair/src/socket.rs Socket::open"),("signal handler restore","sudo_pair/src/socket.rs ctrl_c_aborts_syscalls"),("shutdown on drop","sudo_pair/src/socket.rs Drop")],None,["filesystem, umask(2), sigaction(2), descriptor table after open/close"])
p("C07","The pair sees every byte of output, or the session ends",
 "In a paired session every chunk of command output (terminal, stdout or stderr) that the plugin accepts has by then been sent to the pair completely, unchanged, exactly once and in the order sudo delivered it, however the transport splits or interrupts the writes, and besides output and resizes nothing is sent to him once his answer has been echoed, not even when the session is closed. A chunk that cannot be sent completely makes the plugin tell sudo to terminate the session. An exempt session accepts all output and sends nothing anywhere.",
 ["histories","fault_sequences","inputs"],"every sequence of output calls up to the bound, chunk sizes from 1 byte past 64 KiB, every byte value, every pattern of short, interrupted and failing writes",
 NOT+"short and interrupted writes never happen in a unit test on a quiet socket.",
 [L,S,C],[("write_all of each chunk","sudo_pair/src/lib.rs log_output"),("write errors become SessionTerminated","sudo_pair/src/errors.rs From<Error> for LogStatus")],None,["return codes of log_ttyout/log_stdout/log_stderr","bytes received by the peer"])
p("C08","Paired sessions take no redirected standard input",
 "In a session that needed a pair, every piece of data arriving on a redirected standard input is refused by telling sudo to terminate, whichever logging hints the policy set; none is ever accepted, before or after other activity. An exempt session accepts redirected standard input.",
 ["histories","inputs","configurations"],"every history of callbacks around the input, every combination of logging hints, input sizes and contents",
 NOT+"the guarantee spans the policy's hints, the exemption rule and the dispatch layer.",
 [L,C],[("log_stdin denies unless exempt","sudo_pair/src/lib.rs log_stdin"),("hint gate","sudo_plugin/src/core.rs log_stdin")],None,["return code of log_stdin"])
p("C09","Ctrl-C always ends the wait for a pair",
 "While sudo waits for a pair to connect, to take the prompt or to answer, a SIGINT ends the wait and refuses the session, even if the handler in force asks for interrupted system calls to be restarted. The handler itself is still the one that runs, with the flags and mask it was installed with (a signal that is ignored stays ignored), and after the wait exactly the previous disposition (handler, flags and mask) is in force.",
 ["schedules","configurations"],"SIGINT at every blocking point, every initial handler flag combination, any number of earlier interruptions",
 NOT+"needs signals delivered while blocked at specific points.",
 [S],[("SA_RESTART masked during reads and writes","sudo_pair/src/socket.rs ctrl_c_aborts_syscalls"),("select instead of a retried accept","sudo_pair/src/socket.rs Socket::open")],None,["return code of open under SIGINT","sigaction before/after"])
p("C10","Prompts are exactly the configured template, expanded once",
 "The prompts shown to the pair and to the invoking user are byte for byte the configured template with every known `%`-directive replaced by its documented value, every unknown directive by its own character, and inserted text never expanded again; a `%` ending the template is dropped. A template that is missing or unreadable is replaced by the built-in minimal one. The values are those of this session, whatever bytes they contain.",
 ["inputs","configurations"],"all templates up to the bound over an alphabet of directives, escapes, literals and arbitrary bytes; all values of the session attributes, including ones containing `%`",
 "twelve template unit tests sample a dozen strings; none covers the mapping from directives to session attributes or the default templates.",
 [T,L],[("single-pass expansion","sudo_pair/src/template.rs Spec::expand"),("directive table","sudo_pair/src/lib.rs template_spec")],None,["bytes received by the peer before its answer","bytes written to the user's tty"])
p("C11","Plugin errors and panics always fail closed at the C boundary",
 "Whatever a plugin's method does (succeed, return any error, or panic) sudo receives a valid return code: success, exactly the status that error asks for, or refusal (-1 from open and show_version, 0 from the logging and resize callbacks) for a panic. No panic crosses into or aborts sudo. Each error is reported once on the user's error channel with its whole chain of causes, one line per cause prefixed with the plugin's name, and reporting always terminates.",
 ["histories","fault_sequences","programs"],"every callback, every outcome of it (each status, each error-chain length, panic), every failure of the printing facility",
 "no test calls the C entry points at all.",
 [C,ER,PF],[("catch_unwind at each entry point","sudo_plugin/src/core.rs"),("status conversions","sudo_plugin/src/core.rs From impls"),("write_error","sudo_plugin/src/output/print_facility.rs")],None,["return code of each C callback","calls to sudo's printf"])
p("C12","Each sudo callback reaches its own plugin method with the exact data",
 "Each logging or resize call made by sudo reaches exactly the plugin method of the same name, once, with exactly the bytes (or sizes) sudo passed, and no other method; a version display reaches it as verbose exactly if sudo asked for that. If the policy's hint for that stream is off the method is not called and the data is accepted, unless the plugin declares that it ignores hints; resizes are never subject to hints.",
 ["inputs","configurations","programs"],"all callbacks times all 32 hint combinations times hint-ignoring or not times buffer lengths and contents",
 "no test calls the C entry points; the five near-identical wrappers differ only in names.",
 [C,M],[("per-stream wrappers","sudo_plugin/src/core.rs log_*"),("callback table","sudo_plugin/src/macros.rs sudo_io_plugin")],None,["method invocations recorded by a probe plugin"])
p("C13","Plugin and environment live exactly from open to close",
 "Over any history of opens, callbacks and closes: a plugin instance exists exactly between an open that succeeded and the next close, is told of the close exactly once with sudo's arguments, and is dropped exactly once. Callbacks outside that span are refused without reaching a plugin. Every open is judged and served on its own arguments alone, whatever was opened, refused, panicked or closed before it.",
 ["histories"],"every call history up to the bound over opens (accepted, refused, malformed, panicking, without a command), every callback, closes (normal and panicking)",
 "no test drives the life cycle; the state is two process-wide statics.",
 [ST,C,M],[("static env and plugin slots","sudo_plugin/src/plugin/io_state.rs init, drop")],[("SUDO_IO_ENV, SUDO_IO_PLUGIN","current environment and plugin","sudo_plugin/src/macros.rs")],["method invocations and drops recorded by a probe plugin"])
p("C14","Option lists from sudo are decoded exactly",
 "A NULL-terminated list of `key=value` strings is decoded so that each key is the text before the first `=`, its value everything after it (all bytes kept), an entry without `=` is its own value, and the last of several entries with one key wins; a NULL list is empty and no other key exists. Reading a value as a type yields exactly the value its whole text denotes and fails, without panicking, for a missing key, non-UTF-8 text, or text (or any list element) that does not denote a value of that type.",
 ["inputs"],"all lists up to the bound over an alphabet of separators, letters and non-UTF-8 bytes; for each type all texts up to the bound over digits, signs, separators and junk, plus every boundary of each integer type",
 "nine unit tests sample one or two entries each.",
 [OM,TR],[("raw list parser","sudo_plugin/src/options/option_map.rs from_raw"),("typed getters","sudo_plugin/src/options/traits.rs FromSudoOption")],None,["OptionMap get/get_str/get_bytes"])
p("C15","Session facts are taken from the right keys, or the session is refused",
 "Every documented field describing the session (sudo settings, invoking user, command) has the value sudo gave under its documented key, in the documented notation, and its documented default when the key is absent. A missing or malformed mandatory fact refuses the session; a malformed optional one counts as absent and never causes a panic. No key influences any other field.",
 ["inputs","configurations"],"every field with absent, well-formed and malformed values, singly and in pairs of fields",
 "no test constructs these structures; there are about 75 near-identical field assignments.",
 [SE,UI,CI],[("field tables","sudo_plugin/src/options/settings.rs, user_info.rs, command_info.rs TryFrom<OptionMap>")],None,["public fields of the plugin environment"])
p("C16","Unsupported sudo API versions are refused, supported ones accepted",
 "An open call is refused, with a message naming both versions and before any plugin code runs, exactly when sudo's API version is lower than 1.9 comparing major first and then minor; every other version is accepted and reported to the plugin unchanged. Packing and unpacking versions are mutually inverse for all 16-bit major and minor numbers and agree with the C macros.",
 ["inputs"],"all 2^32 versions for the arithmetic; every major with every boundary minor and all 65536 minors of the boundary majors for open",
 "doc-tests sample three versions and nothing calls open with one.",
 [V,SYS,IO],[("version gate","sudo_plugin/src/version.rs check"),("packing","sudo_plugin-sys/src/lib.rs sudo_api_mkversion")],None,["return code of open","environment's api_version"])
p("C17","Text printed through sudo appears literally and completely",
 "Text a plugin prints through sudo's printf facility appears to the user exactly as given, whatever bytes (such as `%`) it contains, once, at the right level (information or error); text that cannot be printed (containing NUL, printf absent or failing) yields an error, never partial interpretation or a crash. This includes the prompt shown to the invoking user when there is no terminal, and error messages.",
 ["inputs","fault_sequences"],"all texts up to the bound over an alphabet of printf metacharacters, letters and arbitrary bytes; each result of the facility",
 "no test supplies a printf; format directives only matter for special inputs.",
 [PF,L],[("printf bridge","sudo_plugin/src/output/print_facility.rs write"),("tty fallback","sudo_pair/src/lib.rs local_pair_prompt")],None,["calls to sudo's printf, formatted as C does"])
p("C18","The approval script never lets users approve themselves or runs their input",
 "For every pair of arguments, environment and socket state, the approval script connects to a socket only if its caller's original uid (the one sudo recorded in SUDO_UID, or else his own) differs from the session's uid and that exact session's socket is writable to it; otherwise it re-runs itself through sudo as the socket's owner or group (whichever the mode names) with the same arguments, or stops. Nothing in its arguments is ever executed or makes it touch another path.",
 ["inputs","configurations"],"all combinations of caller uid, SUDO_UID, session uid and pid (including malformed arguments), socket owner, group and mode, writability",
 "the script has no tests.",
 [AP],[("self-approval check","sample/bin/sudo_approve main"),("dispatch on socket mode","sample/bin/sudo_approve main")],None,["commands the script runs (socat, sudo), exit status"])
p("C19","The example plugin denies every command",
 "In every history of calls and for every API version the example approval plugin refuses every command, tells the user why when sudo gave it a printing facility, and sets sudo's error string too when, and only when, the API is new enough (1.17) to provide one. It never touches an error-string pointer otherwise and never crashes.",
 ["histories","inputs"],"all call histories up to the bound, versions around 1.17 and extremes, printf present or absent",
 "the example has no tests.",
 [EX],[("check","examples/raw_plugin_api/src/lib.rs check")],[("SUDO_PRINT, SUDO_API_VERSION","remembered by open","examples/raw_plugin_api/src/lib.rs")],["return codes, errstr, printf calls"])
p("C20","The pair is shown the whole command, flags and all",
 "The command text shown to the pair consists of sudo's program name, every recorded flag the user gave (each with its value) exactly when it was given, and then every element of the command line, complete, unchanged and in order, separated by spaces.",
 ["inputs","configurations"],"all 2^16 flag combinations, argument vectors up to the bound, arbitrary argument bytes",
 "nothing tests the reconstruction.",
 [IO,SE],[("invocation","sudo_plugin/src/plugin/io_env.rs invocation"),("flags","sudo_plugin/src/options/settings.rs flags")],None,["text expanded for %C"])
p("C21","Exported plugin tables match sudo's C interface slot by slot",
 "For each of sudo's four plugin kinds and its helper structures, every member has the type constant, offset and size the C header gives it, so a function stored under a name is the one sudo calls for that name; an empty plugin has the right kind and version and no functions. The pair plugin exports open, close, show_version, the five logging callbacks and change_winsize, and leaves all other slots empty.",
 ["programs"],"every member of every exported structure, every slot of every plugin kind",
 "the bindgen layout tests abort on the installed compiler, so nothing checks layouts.",
 [SYS,"sudo_plugin-sys/src/bindings/sudo_plugin.x86-64.rs",M],[("bindings","sudo_plugin-sys/src/bindings"),("empty constructors","sudo_plugin-sys/src/lib.rs")],None,["bytes of the exported structures read through the C layout"])
p("C22","Concurrent sessions never interfere with each other",
 "Two sudo processes pairing at the same time, for the same or different users and in the same directory, each wait for, obey and report to only the pair that connected to their own socket, and neither removes, replaces or widens the other's socket, under every interleaving of their system calls. In particular approving one never approves the other.",
 ["schedules"],"all interleavings of the two sessions' system calls within the preemption bound, times each session's answer",
 "tests run one process; the sessions share the directory and socket naming.",
 [S,L],[("per-session socket name","sudo_pair/src/lib.rs socket_path"),("stale removal limited to own path","sudo_pair/src/socket.rs unlink")],None,["return codes and peers of both sessions"])
p("C23","Failures of mere courtesies never change the decision",
 "Failing to show the invoking user the local prompt (terminal missing, unwritable or failing, printf missing or failing), to read either template, to log, to remove the socket after use, or to echo the answer never turns an approved session into a refused one nor the reverse. The prompt still reaches the user by sudo's error channel when the terminal cannot take it.",
 ["fault_sequences"],"every single and double failure among these operations, times every kind of answer",
 NOT+"each of these failures needs a particular system call to fail at a particular point.",
 [L,S],[("ignored results","sudo_pair/src/lib.rs local_pair_prompt, remote_pair_prompt; sudo_pair/src/socket.rs Socket::open")],None,["return code of open","printf calls"])
p("C24","A killed sudo never blocks or weakens a later session",
 "If sudo dies (SIGKILL) at any point of an open attempt or session, a later session that happens to reuse the same uid and pid works as if nothing had been left behind: it is let through only by its own pair's yes, reaches only its own pair, and its socket is as protected as ever. What the dead session leaves is at most its socket, never with wider access than a live one.",
 ["crash_points","histories"],"a kill before every system call of the plugin (first session), followed by a complete second session under each answer; two crashes in a row",
 NOT+"needs a crash at each point and a restart on the remains.",
 [S],[("stale socket removal before bind","sudo_pair/src/socket.rs unlink")],None,["remains on disk, return code of the second open"])
p("C25","Terminal resizes reach the pair exactly",
 "In a paired session each terminal resize is sent to the pair as exactly the escape sequence `ESC [ 8 ; rows ; columns t` with the numbers sudo gave, in order with the surrounding output and regardless of logging hints; if it cannot be sent completely the session is terminated. An exempt session accepts it and sends nothing.",
 ["inputs","histories","fault_sequences"],"row/column pairs over all digit lengths and extremes, interleaved with output, with short, interrupted and failing writes",
 "nothing tests change_winsize.",
 [L,C],[("resize relay","sudo_pair/src/lib.rs change_winsize")],None,["bytes received by the peer","return code of change_winsize"])
p("C26","No user can gain a session acting alone",
 "Whatever sequence of steps a single unprivileged user takes (connecting to the socket as himself at any moment, running the approval script directly or through sudo, with any arguments and environment), no session of his that needs a pair is ever let through; one step by a different user entitled to the target lets it through. ",
 ["schedules","histories"],"all sequences of user steps up to the bound, at every instant of the plugin's system calls",
 "spans plugin, file permissions and approval script, which no test combines.",
 [L,S,AP],[("socket permissions","sudo_pair/src/socket.rs"),("self-approval check","sample/bin/sudo_approve"),("approval command exemption","sudo_pair/src/lib.rs is_sudoing_approval_command")],None,["return code of open"])
p("C27","The approver's terminal is always given back as it was",
 "However the approval script comes to an end (the connection closes, fails, the approver types Ctrl-C, Ctrl-D or Ctrl-\\, a signal arrives, the terminal hangs up, a command it uses fails), the approver's terminal has exactly the settings it had before, and it is never changed when they could not be saved. While connected each key reaches the session at once and unechoed, so that a single `y` is an answer and Ctrl-C still ends everything.",
 ["fault_sequences","inputs","schedules"],"each way of ending, from each initial terminal setting; each signal at each instant; each command failing; each key",
 "the script has no tests, and restoring only matters when something goes wrong at a particular instant.",
 [AP],[("saved settings and trap","sample/bin/sudo_approve approve_unix_socket")],None,["termios of a pseudo terminal before, during and after"])
p("C28","Following the instructions shown approves exactly this session",
 "The command the invoking user is told to have run, with the shipped prompts and with the built-in ones, is a complete command line: the configured approval binary, his own uid and this sudo's pid. Whoever is entitled and runs just that reaches this session and decides it by his answer, and no other session; the shipped configuration makes the plugin ask. What the pair is asked names the user, host, directory and command of this session.",
 ["inputs","configurations","histories"],"session values of all kinds (user, host, directory, command, ids, approval binary) times prompt (shipped, built-in) times kind of helper and answer",
 "spans prompt files, template expansion, argument order of the script, and socket naming, which no test combines.",
 [L,T,AP,"sample/etc/sudo_pair.prompt.user","sample/etc/sudo_pair.prompt.pair","sample/etc/sudo.conf"],[("template values","sudo_pair/src/lib.rs template_spec"),("built-in prompts","sudo_pair/src/lib.rs DEFAULT_USER_PROMPT, DEFAULT_PAIR_PROMPT"),("arguments","sample/bin/sudo_approve main")],None,["text shown to user and pair","return code of open"])
p("C29","Asking for the version shows this plugin's, and does nothing else",
 "When sudo asks for versions (no command to run) the plugin accepts, prints its own name and its own version through sudo's information channel and otherwise does nothing: no socket, no prompt, no wait, no change to any file, whoever asks and however it is configured. A version display leaves nothing behind that changes how a later session is judged.",
 ["inputs","configurations","histories","fault_sequences"],"callers, options, hints and places of all kinds with failing system calls; every history of displays and sessions up to the bound",
 "nothing tests show_version.",
 [C,L,M],[("no-command shortcut","sudo_plugin/src/core.rs open"),("version line","sudo_plugin/src/core.rs show_version"),("name and version","sudo_pair/src/lib.rs NAME, VERSION")],None,["calls to sudo's printf","return codes","files"])
p("C30","Each option of the Plugin line has exactly its documented effect",
 "Each of the six documented options, given in any combination and order among any other words, has exactly the effect the documentation gives it, and an option not given has its documented default: where the socket is, which file each prompt is read from, what the approval command is, which groups are enforced and exempted. No other word has any effect, and the options of one session have none on another.",
 ["configurations","histories"],"every subset and every order of the six options, each with its values, among words that are none, for sessions exempt and not; histories of configurations",
 "nothing tests PluginOptions; a wrong default only shows where that option is left out.",
 [L,"README.md"],[("options and defaults","sudo_pair/src/lib.rs PluginOptions")],None,["path bound","texts shown to user and pair","return code of open"])
p("C31","The system log tells each session's story truthfully",
 "With a system logger present every session leaves, before it may run, a record of whether it is exempt or requires a pair, and, if a pair was asked, of whether he approved or declined it; an approved session's end is recorded, too. Nothing is recorded as approved that was not let through by a pair, however the session's system calls fail. Each record goes to the authorization facility and names the invoking uid, the target's ids, the command and its arguments (long ones may be cut), and this plugin and its version; what is typed or shown in the session and the environment are never recorded.",
 ["inputs","histories","fault_sequences"],"sessions of all kinds with all 256 answers; every single and double failure of system calls; command lines of all lengths up to half a megabyte; histories of sessions",
 "nothing tests the records; whether one is missing depends on the outcome, failures and sizes.",
 [L],[("records","sudo_pair/src/lib.rs slog calls in open, remote_pair_prompt, close"),("drain","sudo_pair/src/lib.rs slog")],None,["datagrams received at /dev/log","return code of open"])
p("C32","During the session the pair decides its end, and nothing else",
 "In an approved session nothing the pair sends after his answer, in whatever amount and whenever, and no slowness of his in reading, changes anything: output and resizes keep reaching him and redirected input stays refused, and closing the session does not wait for him. As soon as he has closed his connection every further non-empty piece of output and every resize is refused for good, so that sudo ends the command, and sudo itself is not harmed by writing to nobody. Nobody else can connect and take his place.",
 ["histories","inputs","schedules"],"all sequences of the pair's and the session's steps up to the bound; every byte typed; the pair leaving at every system call, with failures; a pair who reads only when sudo waits for him",
 NOT+"needs a peer that acts during the session.",
 [L,S],[("relay to the peer","sudo_pair/src/lib.rs log_output"),("connection","sudo_pair/src/socket.rs Socket")],None,["return codes of the logging callbacks","bytes received by the peer"])
for x in P:
    x["statement"]=x["statement"].strip()
    n=x["statement"].count(". ")+1
    if n>3: print("sentences",x["id"],n)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
