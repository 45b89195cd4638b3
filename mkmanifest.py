#!/usr/bin/env python3
"""Writes MANIFEST.json: mkmanifest.py ID..., the properties whose check exists."""
import json, os, sys

here = os.path.dirname(os.path.abspath(__file__))
BASE = ("Generated-input search only: says the property held on the cases of the run, not on all inputs. "
        "Trusts the harness's own schema, spelling writer and reader, Go's time and net/url packages and the embedded zone database.")
T = {
 "C01": ("property-based testing (rapid): round trip of generated calendars", "Every property of every component is a site; contents compared through exported fields."),
 "C02": ("property-based testing (rapid): differential against an independent strict reader", "The reader shares no code with the library."),
 "C03": ("property-based testing (rapid): independent spelling writer as reference, plus mutated texts judged by a reference reading", "Texts the standard allows but the library is known to refuse are listed as known findings and not generated."),
 "C04": ("property-based testing (rapid): invariant on the physical lines plus unfold-and-reread", "Line widths and fold offsets swept by text lengths over 1 to 4 octet characters."),
 "C05": ("property-based testing (rapid): metamorphic, refolding and re-chunking the input stream (thorough: also coverage-guided Go fuzzing)", "Read boundaries placed around folds and around common buffer sizes."),
 "C06": ("generative fuzzing with structured mutators (thorough: also coverage-guided Go fuzzing)", "Each case runs under a processor-time and memory watchdog; a dead process is replayed before it counts."),
 "C07": ("property-based testing (rapid): systematic structural damage, and random line edits judged by a reference reading", "Only damage that the statement names is required to be rejected; the undamaged text must decode for a case to count."),
 "C08": ("property-based testing (rapid): malformed value, parameter and line grammar, and random edits judged by a reference reading", "Forms the statement leaves open are not asserted either way."),
 "C09": ("property-based testing (rapid): invalid values planted anywhere in valid calendars", "The calendar without the planted value must encode for a case to count."),
 "C10": ("property-based testing (rapid): accept-or-refuse round trip of unconstrained calendars", "Zone names the system cannot load are compared by an independent reader."),
 "C11": ("fault injection driven by property-based testing (rapid): read failure at generated offsets", "Offsets swept over the whole text, with the error alone and together with data."),
 "C12": ("fault injection driven by property-based testing (rapid): write failure at generated offsets", "Partial, empty and full acceptance before the failure."),
 "C13": ("property-based testing (rapid): metamorphic, inserting unknown content", "Unknown content drawn from names near to and far from the known ones."),
 "C14": ("property-based testing (rapid): metamorphic, re-casing names and keywords", "Only ASCII letters are re-cased."),
 "C15": ("property-based testing (rapid): round trip, independent reader and independent spelling of texts", "Every text property and text list is a site."),
 "C16": ("property-based testing (rapid): round trip, independent reader and independent spelling of parameters", "Every parameter of every property is a site."),
 "C17": ("property-based testing (rapid): round trip, independent reader and spelling of dates and times, under several local zones", "Workers run with different TZ settings."),
 "C18": ("property-based testing (rapid): round trip, reference reading of generated and mutated durations and periods", "Every duration and period property is a site."),
 "C19": ("property-based testing (rapid): round trip, reference reading of generated and mutated rules", "Every rule property is a site."),
 "C20": ("property-based testing (rapid): round trip, reference reading of generated and mutated values", "Every such property is a site."),
 "C21": ("property-based testing (rapid): keyword tables checked in every carrier, with near-miss keywords", "The table is named by the exported constants."),
 "C22": ("property-based testing (rapid): round trip, independent reader and spelling of addresses", "URI equality is that of the standard URL type."),
 "C23": ("property-based testing (rapid): generated alarms with permuted and damaged lines", "All five kinds in both carriers."),
 "C24": ("property-based testing (rapid): idempotence and determinism of re-encoding, also on mutated accepted texts (thorough: also coverage-guided Go fuzzing)", "Bytes compared exactly."),
 "C25": ("stateful property-based testing (rapid): generated operation histories, sequential and concurrent, under the race detector", "Interleavings are those the scheduler produced, not all."),
 "C26": ("property-based testing (rapid): single planted faults, the error matched against a table of kinds", "Only kinds of fault the library reports uniformly are in the table; an input that is not refused is left to other checks."),
 "C27": ("property-based testing (rapid): helpers called on generated values, results changed and called again", "Small types are covered whole."),
 "C28": ("property-based testing (rapid): metamorphic, appending octets to documents", "The document must decode alone, and in the same reads, for a case to count."),
 "C29": ("property-based testing (rapid): metamorphic, joining parts and removing properties", "Each part must be accepted alone for a case to count."),
 "C30": ("property-based testing (rapid): invariant over the objects of decoded calendars; metamorphic, sharing equal parts of calendars to encode", "Places are found by reflection over exported fields."),
}
done = sys.argv[1:]
checks = [{"property": i, "quick_cmd": "./check.sh %s quick" % i, "thorough_cmd": "./check.sh %s thorough" % i,
           "evidence_file": "evidence/%s.json" % i, "technique": T[i][0],
           "level": "fault_enumeration" if i in ("C11", "C12") else "exploration",
           "level_note": T[i][1] + " " + BASE} for i in sorted(T) if i in done]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
     "not_applicable": [{"property": i, "reason": "check not built yet"} for i in sorted(T) if i not in done],
     "notes": "No hooks: the harness drives the exported API from outside and builds against /repo's working tree. See DESIGN.md."}
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
