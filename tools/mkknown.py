#!/usr/bin/env python3
"""Writes /verif/known_findings.json from the list below and a trace of the
open findings as they are today: mkknown.py TRACE.ndjson (driver run output)."""
import json, sys, subprocess, os
WHAT = {
 1: "Reload appends the body of an unparseable section to itself: [raw] with 'free text' becomes 'free text\\nfree text' after reloading the unchanged source",
 2: "Reload adds the nested values of a key once more: 'a =' with nested 'x' has nested values x, x after reloading the unchanged source",
 3: "Reload with AllowNonUniqueSections adds every section of the unchanged source once more",
 4: "Reload with AllowShadows and AllowDuplicateShadowValues adds every shadow value once more: 'a = 1' twice gives four values",
 6: "Reload with AllowShadows fails on an unchanged source that has auto-increment keys ('- = 1')",
 7: "Reload with AllowShadows and AllowBooleanKeys fails on an unchanged source that has a boolean key ('c')",
}
FIXED = """
C05 07b1014 a comment set through the API with an empty line made saving panic
C07 a389539 DeleteKey did not fold the case of the name with insensitive keys
C07 f44ebfc NewSection("DEFAULT") created a second section next to the default one when section names are insensitive
C06 e30891d Must methods did not update the section's key map, and a deleted key came back into it
C14 73f43ad Strings split at the bytes of a non-ASCII delimiter
C14 ccca51e Strings dropped a trailing backslash
C09 0e5935f interpolation grew without bound (exponentially) for keys that refer to themselves several times
C18 4ab83bd Python-style multi-line values were cut depending on the reader's buffer size
C03 4dfbf2a values ending with a backslash, starting with quotes or holding escaped comment symbols changed when saved and loaded
C04 e173f96 the raw body of an unparseable section without final newline ran into the next section when saved
C03 6ba765e a boolean key whose value was changed lost the value when saved
C23 bec724e SectionsByName and NestedValues handed out the internal slices
C10 b42da1f ChildSections listed a child once per namesake with non-unique sections
C15 6b9bd5e strict mapping ignored invalid list elements
C15 49a8b91 mapping to pointers and slices of named types, or non-time struct fields, panicked
C15 9dd1a11 mapping a duration to an unsigned field panicked
C15 68c27ba durations: pointers, zero and negative values
C15 005af06 out-of-range numbers wrapped around in narrow integer and float fields
C15 a87dacb a nonunique slice field without section made mapping fail
C15 978f32c an embedded pointer that was set already was replaced
C16 d664aad reflecting stopped after an empty nonunique slice or a StructReflector field
C16 c0eae1e nil pointers to structs made reflecting panic; *time.Time was taken for a section
C15 e47efb9 mapping to a slice of struct pointers from non-unique sections panicked
C16 ff1e6e5 reflecting a slice left old values of the key in place
C16 2c0d709 reflecting into a child section overwrote the parent's key of that name
C16 e26e9b8ae4 placeholder
C17 ed83974 listing and reading raced with writers
C17 181fad8 new boolean keys and raw sections were marked without taking the lock
C17 c472778 Key() from several goroutines created a key more than once
C13 e2989f9 lenient lists kept the clamped value of out-of-range elements
C13 a407636 In and Range methods accepted an invalid value as zero
C01 62869f5 key-value delimiters outside ASCII were not found
C16 54dea50 reflecting a slice of structs as a key panicked
C09 f029e5e splitting a value took time quadratic in its length (a value grown by references kept Strings busy for minutes)
C13 2dfd04f candidate times were compared as structs (zone included) and range bounds in whole seconds
C03 0f610d0 a value that is a triple double quote was lost when saved and loaded
C14 d7439d4 an escaped delimiter of several characters was taken apart when splitting
C13 4dd5575 Must methods without a default returned the clamped value of an out-of-range text
C15 9de70fd mapping and reflecting slices of other types as sections, or of nil pointers, panicked
C22 d139190 with a space required before inline comments, a comment starting with ; and holding " #" was kept in the value
C05 d5fd267 with CR LF as the line break, only the first line of a comment got a comment marker when saved, and the others became entries
C10 fdbbe5e a boolean key that had other values before was saved as its name alone, losing them
C15 c981430 a section named like a time field hid the field's key
C14 738384a splitting a value replaced bytes that are not valid UTF-8
C12 e2613f4 a negative index panicked or corrupted the indexes of other sections
"""
FIXED = FIXED.replace("e26e9b8ae4 placeholder", "e9b8ae4 reflecting an allowshadow slice without AllowShadows kept the last element only")
op = []
for l in open(sys.argv[1]):
    c = json.loads(l)
    if c["id"] not in WHAT: continue
    c["steps"] = c["steps"][:3]
    last = c["steps"][-1]
    op.append(dict(property="C11", kind="mismatch", step=len(c["steps"]), what=WHAT[c["id"]], out=last["out"],
                   steps=[{k: v for k, v in s.items() if k != "out"} for s in c["steps"]]))
fixed = []
for l in FIXED.strip().splitlines():
    p, h, what = l.split(" ", 2)
    h = subprocess.run(["git", "-C", "/repo", "rev-parse", h], capture_output=True, text=True, check=True).stdout.strip()
    fixed.append("fixed: property=%s %s %s" % (p, h, what))
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
json.dump(dict(open=op, fixed=fixed), open(os.path.join(here, "known_findings.json"), "w"), indent=1, ensure_ascii=False)
print(len(op), len(fixed))
