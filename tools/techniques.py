NOTE = 'every execution within the stated bounds is run on the unmodified release build of the plugin; bounds, executions, states and transitions are in the evidence file'
T = {
 'C18': ('stateless model checking of the real script: every combination of arguments, environment, caller, socket state and fault within the bounds is run under bash with recording stand-ins for sudo, socat and the terminal commands, and judged by a reference model',
         'the unmodified script runs under the installed bash and coreutils; a preloaded shim shows a scratch directory as /var/run/sudo_pair; bounds and counts are in the evidence file'),
 'C26': ('stateless model checking of the composed system: all sequences of attacker steps up to the bound at every instant of the real plugin, with the real script and kernel permission checks; sudo itself is modelled',
         'plugin and script are the real ones; sudo (SUDO_UID, identities) is a small model; bounds and counts are in the evidence file'),
 'C27': ('stateless model checking of the real script on a real pseudo terminal: every ending, signal instant, failing command, key and initial setting within the bounds, judged by comparing terminal settings',
         'the unmodified script runs under the installed bash and stty; socat, clear and sudo are stand-ins; bounds and counts are in the evidence file'),
 'C28': ('stateless model checking of the composed system: all session values, prompts, helpers and answers within the bounds, on the real plugin, shipped prompts and real script, judged by a reference model',
         'plugin, prompts and script are the real ones; sudo and the terminal are small models; bounds and counts are in the evidence file'),
}
