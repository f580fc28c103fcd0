"""Writes MANIFEST.json from the registry (python3 -m sim.manifest in /verif)."""
import json, os
from . import checks

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON = ' Seeded sampling, so absence of a violation is evidence, not proof; it trusts the simulator runtime (cpp/rt.cpp) and the compiler.'
NOTE = {
 'C01': 'Explores seeded interleavings of real library code at the granularity of single memory accesses; oracle: the same programs run alone in a pristine process. Interleavings are sequentially consistent.',
 'C02': 'Happens-before race detection (vector clocks, byte granularity) in simulated interleavings of real library code; covers code reached by the generated calls.',
 'C03': 'Settings object under a write watch at every access of library code, plus settings-in-force probes, under injected faults at every kind of place.',
 'C04': 'Outcome after seeded histories (with failing calls) against the outcome in a pristine process.',
 'C05': 'Allocation failures at places taken from a reference execution of the same plan, once and persistent; oracle: reference outcome, bad_alloc or terminate.',
 'C06': 'Every access of library code checked against shadow memory, conservation of blocks over repetitions, under injected faults; trusts the red zones and quarantine of the simulated heap.',
 'C07': 'Histories with faults against an executable value model of expressions, matrices and tables.',
 'C08': 'Faults during solves; oracle: residuals evaluated by an independent Python model of the equations.',
 'C09': 'Invalid numbers injected and natural, errors at every depth; oracle independent of the code.',
 'C10': 'Step, libm-call and iteration budgets as deterministic verdicts; the bounds are stated in the check.',
 'C11': 'Sink failure at every kind of byte position, log levels, stream masks; oracle: the silent execution.',
 'C12': 'Sink failure at byte positions over the whole text; oracle: exact text or reported prefix.',
 'C13': 'Locale switches between any two calls with compiled glibc locales and custom facets; oracle: the run in the C locale.',
 'C14': 'Stack high-water measured at every function entry of real code while sizes grow; completion on small stacks.',
 'C15': 'Throwing, re-entrant callbacks at every invocation; oracle: identity of the exception and the non-re-entrant run.',
 'C16': 'Environment (heap contents, addresses, reuse, errno, fenv flags, rand state, thread) varied per run; oracle: the benign run.',
 'C17': 'Fingerprint of process state around every call, under injected faults.',
 'C18': 'Byte faults on formula text in transit; oracle: accepted expressions behave consistently, others are exceptions, neighbours unaffected.',
 'C19': 'The real scripts run under an interposer that owns listing order, hash seed, signals and failures at each file operation; clang-format is a deterministic stand-in.',
 'C20': 'The real program main() run in-process on a simulated console; oracle: the library answers word by word.',
 'C21': 'Start-up and exit simulated: the order of initialisers and destructors, and the calls between them, come from the seed; oracle: the same calls in the middle of a process. Other translation units\' statics are those of the host.',
 'C22': 'Histories of table calls with allocation failures, every view of every table against an executable reference map after every call.',
}
REASON = {
 'N01': 'Reading a well-formed text is a pure function of the text: no schedule, fault, history, clock or environment changes it (those parts are claimed in C01, C04, C13, C16, C18); deciding it is plain input generation against a grammar.',
 'N02': 'The round trip is a pure function of one expression; nothing a simulator controls takes part in it.',
 'N03': 'Mathematical correctness of derivatives is a pure function of expression and variable; no schedule, fault or environment takes part.',
 'N04': 'Value preservation by simplification is a pure function of one expression; no schedule, fault or environment takes part.',
 'N05': 'The linear solver is a pure function of its matrix and right-hand side; no schedule, fault or environment takes part.',
 'N06': 'Substitution is a pure function of expression and mapping; aliasing, failure and history parts are claimed in C07.',
 'N07': 'Matrix algebra is a pure function of the operands; aliasing, failure and history parts are claimed in C07.',
 'N08': 'Structural equality and variable listing are pure functions of the expressions; no schedule, fault or environment takes part.',
 'N09': 'Which mathematical function an operator applies is a pure function of its arguments; no schedule, fault or environment takes part.',
 'N10': 'The position in a parse error is a pure function of the text; its independence of locale, history and environment is claimed in C13, C04 and C16.',
 'N11': 'Equality of two builds is a comparison of two pure functions of the input; every claimed property is decided on both builds instead.',
 'N12': 'Printing and rereading a number is a pure function of the number; its independence of locale and environment is claimed in C13 and C16.',
 'N13': 'Which values an iteration starts from is a pure function of the arguments; faults and schedules do not take part (what a returned solution must satisfy under faults is claimed in C08).',
}


def main():
    cl, na = [], []
    for line in open(os.path.join(V, 'properties.jsonl'), encoding='utf-8'):
        p = json.loads(line)['id']
        try:
            c = checks.get(p)
        except (ImportError, KeyError, AttributeError):
            na.append({'property': p, 'reason': REASON.get(p, 'no check has been built for it yet')})
            continue
        cl.append({'property': p, 'quick_cmd': 'python3 check.py ' + p, 'thorough_cmd': 'VERIF_TIER=thorough python3 check.py ' + p,
                   'evidence_file': 'evidence/%s.json' % p, 'technique': c.technique, 'level': c.level, 'level_note': NOTE[p] + COMMON})
    m = {'version': 1, 'setup_cmd': 'python3 sim/build.py', 'checks': cl, 'not_applicable': na,
         'notes': 'No hooks in /repo: the simulator gets control through compiler instrumentation, symbol wrapping and interposition. '
                  'python3 check.py <ID> --replay FILE executes a replay file.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w', encoding='utf-8') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    print(len(cl), 'claimed,', len(na), 'not')


if __name__ == '__main__':
    main()
