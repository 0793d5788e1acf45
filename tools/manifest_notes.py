EXH = 'explicit-state model checking on the real code: exhaustive enumeration of bounded input spaces, every result compared with a reference model'
FAULT = 'explicit-state model checking on the real code with a fault injector: every failure point of every enumerated run'
TRUST = ' Trusts the reference model in harness/ref, which shares no code with goclj, and that faults show within the bounds (all spaces and their sizes are in the evidence file).'
DEFAULT = (EXH, 'Holds for every case of the enumerated spaces.' + TRUST)
NOTES = {
 'C01': (EXH, 'All strings and token sequences up to the bounds, every edit of a corpus, every rune, all option and transform sets: a panic, a hang (watchdog) or tree-and-error is a violation. Larger inputs than the bounds are only sampled by the scale spaces.'),
 'C03': (EXH, 'Positions of every node and error compared with a reference reader that counts bytes, lines and columns itself.' + TRUST),
 'C05': ('explicit-state model checking: breadth-first exploration of all edit histories of a tree to a depth, with state hashing; links of the real nodes compared with a model after every step', 'Complete for the listed trees, child lists and history lengths.'),
 'C06': (FAULT.replace('fault injector', 'scripted reader'), 'Every chunking of short texts, every cut and failure offset of longer ones; the result for the whole text at once is the oracle.'),
 'C07': ('stateless model checking: exhaustive enumeration of texts, abandonment points and reader gatings; the goroutines of the real code are counted after each', 'Goroutine counts are taken until they settle; steps inside the runtime scheduler are driven by gated readers, not enumerated.'),
 'C08': ('stateless model checking: the instrumented real code under a controlled scheduler, all interleavings of two runs up to a preemption bound; all orders of earlier runs; all ordered pairs in fresh processes under the race detector with hand-overs it cannot see', 'Statements are the scheduling points; results alone are the oracle. Interleavings beyond the preemption bound and inside statements are left to the race detector runs.'),
 'C13': ('stateless model checking: the instrumented real code with every map iteration order enumerated (all permutations of small maps, rotations of larger ones)', 'Maps ranged over in goclj are permuted by an overlay; the first order seen is the oracle.'),
 'C14': (EXH.replace('a reference model', 'the same tokens spelled differently'), 'Every respelling of the blanks of the enumerated texts, place by place and together; the output for one spelling is the oracle.'),
 'C26': (FAULT, 'A destination failing at every byte offset of the enumerated outputs in five ways; for the tool, file size limits at every offset, a full device and a closed pipe.'),
 'C27': (EXH, 'The product of configuration values, whole-file variants, token sequences and edits, and of all places a configuration is looked for, each run through the real tool.' + TRUST),
 'C28': (EXH, 'All argument lists of up to three (thorough: four) inputs in all modes, run through the real tool against a sequential model of files and output; runs are repeated to check that nothing changes the second time.'),
 'C29': (EXH, 'All trees of up to three paths of a pool, extension lists and ways to write arguments, run through the real tool against a model of the selection.'),
 'C30': ('stateless model checking with crash and fault injection: every sequence of up to two (thorough: three) faults at the file-system calls of the real process, under ptrace', 'Every call below the working directory is killed before and after, fails, is torn or meets a full disk; every malformed input at every position. The process is interrupted, not the machine (no power loss).'),
}
NA = {}
