#!/usr/bin/env python3
"""Writes known_findings.txt from the fix: commits of /repo."""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXES = """
88d9b56 C02 a newline or comment after ^, #^, #_ or #= was taken for the operand ("^\\na b" had a newline as metadata; formatting lost code)
04b712f C09 "~ @x" was printed as "~@x", an unquote-splice
6b91f91 C09 a tag written "# _" was printed as "#_", a discard
579efa8 C19 (def x "a\\n  b" ;c\\n) had its string realigned although it is the value
55c897e C12 a comment ended by a lone CR, or the last one before a delimiter, swallowed the code after it
035de32 C03 tags, reader conditionals and namespaced maps reported positions one or two columns off
4b38ca7 C02 \\backspace and short octal escapes were rejected or misread, signs after a character literal accepted
2fbd2cf C02 ##Inf, ##-Inf and ##NaN were rejected
eddfcb5 C07 the lexer's goroutine stayed blocked for ever when parsing stopped at an error
f3040c4 C08 one newline node was shared between all trees, a data race between printers
3336cde C08 a printer's second tree was laid out with the first one's requires; user overrides leaked into the defaults of other printers
3540cc8 C13 with sorting off, rewritten requires came out in map iteration order
3fb0bba C22 a newline before an if's test counted as one before its first arm
4866b3e C16 the second element of a pair wasn't indented further after a blank line
7faddd7 C17 an override for a qualified name lost to one for the unqualified name when the symbol was written qualified
12d022f C04 stacked and tagged discards: #_ #_ a b dropped only a; #_ ^m x left x
8e608ab C04 (comment ...) with a newline or comment before its head wasn't recognised
563f1ea C26 cljfmt exited 0 when its output couldn't be written (/dev/full)
0315e23 C30 an interrupted -w left a truncated file and no copy of the original
d18d0e7 C21 sorting separated ^metadata and #tags from their item
2c06a43 C21 a comment beside :require or :import moved to an item when sorting
c525983 C31 newlines and comments counted in a reader conditional's length
128efd1 C19 a docstring line that ends in a backslash before a blank was realigned into an escaped quote
4672dcc C09 (:import a. .b) was split into a package and an empty class name
05a2b30 C04 a list headed by a list that is headed by comment was taken for a comment form
e7bfdd9 C16 what follows a list that starts with a newline was aligned with the wrong column
26b80e9 C16 alignment counted bytes, not characters
e2552d5 C16 what follows a multi-line string on its last line was aligned with where the string would end on one line
7e5aa8e C16 bindings of let-like function literals #(let [...]) weren't indented
d6ed9d1 C22 blank lines at the start of a file weren't consolidated
468f280 C17 aliases and refers were only found in requires with particular options in a particular order
84c2181 C16 every vector of a letfn was taken for its bindings
10ba773 C02 a symbolic value after # or #' was taken for a tag or var name
650507e C11 an ns clause given its style by the transform was laid out only the next time
ea41377 C09 (:import 1a.b) style symbols were split into parts that aren't symbols
158e820 C24 :refer :all was taken for an unknown option and dropped
c69d43b C24 :refer-macros of a namespace that is also used were lost
8ebe2d8 C24 metadata and tags were separated from their require
7ab61f4 C24 comments and metadata inside rewritten requires were lost
a99fbbc C24 comments in refer lists that are merged were lost
652c249 C25 comments moved to the end of the clause when unused requires were removed
463664c C25 bare requires were reordered when unused requires were removed
0fd3fc9 C20 the first item of an ns clause stayed on the clause's line if it had metadata
c2406f1 C18 metadata and tags counted as arguments of thread-first macros
dad26f4 C22 metadata and tags stayed behind when an if arm got its own line
5a42771 C27 discarded forms in the configuration file were taken for configuration
8b15b48 C29 a link to a directory, or a named pipe, with the name of a Clojure file stopped directory walks
e59d8e4 C24 comments in a refer list were dropped if a later option overrode it
ac97a60 C02 surrogates were accepted as unicode character literals (\\uD800)
88d5231 C17 overrides for / did not apply to it with a namespace, as in a//
aa52d05 C25 a referred name / was removed though it was used
c67efd2 C29 a directory that is given by a symbolic link was silently passed over
f356288 C25 a require that provides imported classes was removed if the :import was written as a symbol clause, in a reader conditional, or with a comment or metadata before the package
35c0d8e C11 with use-to-require, a refer list holding only a line break became an empty refer list, which the next run dropped
675d888 C01 input nested millions deep exhausted the stack, which ended the process
97893d6 C30 when a file was rewritten through a symbolic link, the backup was next to the link, and a failing write replaced the link and left the file truncated
9ebf5d5 C01 comments that end in a carriage return took quadratic time: 100000 of them, more than a minute
f9c95e2 C28 -w failed for files whose names are almost as long as names can be, as the name of the backup was longer
"""
lines = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'], stdout=subprocess.PIPE, text=True).stdout
for l in FIXES.strip().splitlines():
    h, p, what = l.split(' ', 2)
    assert h + ' fix:' in log, h
    lines.append('fixed: property=%s %s %s' % (p, h, what))
for l in log.splitlines():
    if ' fix:' in l:
        assert l[:7] in FIXES, l
with open(os.path.join(V, 'known_findings.txt'), 'w') as f:
    f.write('# Genuine defects of the original code. All have been repaired; "known: property=ID case="..."" lines\n# would list recorded ones (there are none).\n')
    f.write('\n'.join(lines) + '\n')
print(len(lines), 'fixed')
