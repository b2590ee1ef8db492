"""Writes known_findings.jsonl (run by hand after a change, never by a check)."""
import json
import os
import re

FIXES = """de31263 C01,C13 nested template calls without arguments, or handing on $*, crashed selint
6784f25 C14 the second level argument of gen_context was over-read when it is shorter than the first (entry reported as malformed)
51e4d4a C14,C04 line endings and trailing blanks became part of raw file contexts, <<none>> at the end of the file and blank CRLF lines were reported, a lone dash was over-read
a4b2bf4 C02 modules.conf entries without trailing whitespace were read past their end
b7f2d1a C02 permission macros containing themselves exhausted the stack
47bc279 C01 an access vector file (common definition only) given as te file crashed C-001
495d68c C18,C11,C12 ifdef inside require blocks: internal error in C-006, names treated as not required in W-001/W-002/W-003
4881ec9 C06,C04 disable comments followed by whitespace or a CRLF line ending were ignored
c9b06f3 C06 disable comments covered the wrong statement (require line with several names, optional with else branch, statements without a node)
e6dad81 C12 W-002 reported the declared alias of a type
2c7a06f C04 blocks whose opening spans lines were reported on a later line
8c9ec91 C06 a disable comment on the module statement was a syntax error
94f116e C10,C01 directories named like policy or support files aborted the scan with an undocumented exit status
623541e C01,C13 a template argument substituted more than once overflowed the buffer
26e154c C13,C15 calls to templates whose expansion fails vanished from the parse tree
019fce6 C08 declarations of templates called by interfaces depended on the file order
29e6c45 C13 arguments made of several words shifted the positional arguments of template calls
7285b50 C18,C20 the default require ordering was not applied without a configuration file, and documented differently from the code
214bb6a C03,C04 comments on a last line without line break were syntax errors
ee6c072 C03 identifiers starting with dnl swallowed the rest of their line
4d35612 C19 statements without a place in the ordering hid violations and made C-001 fail internally
2389ee3 C08,C09 the layer of a module depended on how the path to its interface file is written
39ba5f6 C20,C02 a directory given as configuration file ended selint with an undocumented exit status
ecc4308 C19 type transitions were sorted into the section of their target instead of their source
1cc37a8 C01 files with several 100000 statements exhausted the stack when freed
4a289f3 C03 files starting with 10000 comment lines were rejected
efa888b C02 an empty check id (-d '') was read past its end
3b19160 C02 an empty path argument crashed the scan for files
246e082 C03 an excluded name of a single letter followed by a space was a syntax error
66c5d1d C19 the lines of foo_ and foo_t were ordered as one section
a336971 C13,C01 a substituted name whose argument is missing was not terminated
5970da4 C14 a file context line with an unknown file type specifier was not reported as malformed
be197ca C14 a raw file context whose level has categories was reported as malformed
21f8e2a C24 check ids like W-1 or C-001x, which match no check, were not announced
b7510ae C15 the argument number in W-007 counted the entries of lists in braces"""


def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, "known_findings.jsonl"), "w") as f:
        for l in FIXES.split("\n"):
            c, ps, what = re.match(r"(\S+) (\S+) (.*)", l).groups()
            for p in ps.split(","):
                f.write(json.dumps({"property": p, "status": "fixed", "what": "fixed: property=%s %s %s" % (p, c, what)}) + "\n")


if __name__ == "__main__":
    main()
