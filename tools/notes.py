NOTE["C04"] = ("runtime monitor: compiled charstrings executed by an independent Type 2 interpreter", "exploration",
  "Random, patterned and boundary glyph programs; every emitted charstring is executed by an independent strict interpreter. Trusts harness/t2 and harness/cffref as transcriptions of TN5177/TN5176.")
NOTE["C05"] = ("runtime monitor: differential execution against an independent Type 2 interpreter", "exploration",
  "Grammar-generated programs with subroutine tables of 0..40000 entries and single-fault mutants; trusts the reference interpreter harness/t2. No verdict where TN5177 leaves behaviour undefined.")
NOTE["C17"] = ("runtime monitor: model-based online checking of every parser operation", "exploration",
  "Random operation sequences over random data and adversarial readers, each operation compared with a simple byte-slice model.")
NOTE["C13"] = ("runtime monitor: written CFF files parsed by an independent strict parser; hand-made files read back", "exploration",
  "Random CFF fonts (simple and CID-keyed, all charset/encoding/FDSelect shapes, numbers over the whole float64 and int32 range) compared field by field with what an independent parser of the written bytes and cff.Read report; hand-assembled files in every legal encoding variant are read back. BlueScale outside [0,1] and StdHW/StdVW outside [0,10000] are outside the represented domain.")
NOTE["C11"] = ("runtime monitor: encoded glyf/loca tables and decoded outlines compared with an independent encoder/decoder and golang.org/x/image", "exploration",
  "Random glyph sets of 1..65535 glyphs in every legal flag/delta/component form, sizes around the loca limits; emitted bytes and decoded points are compared with the generator's own data.")
NOTE["C12"] = ("runtime monitor: encoded tables parsed at specification offsets, derived fields and query results recomputed from the outlines, golang.org/x/image as second reader", "exploration",
  "Random and boundary Info values for hhea/hmtx (every constant-tail length up to 64 glyphs, random up to 65535), head, maxp, OS/2 (versions 0-5 on the reading side) and post, plus complete random fonts (TrueType, CFF, CID-keyed). Non-representable derived values are not judged.")
NOTE["C09"] = ("runtime monitor: encoded cmap tables decoded by an independent implementation, lookups swept over the code space and compared with the generating map, golang.org/x/image as second reader", "exploration",
  "Random maps (runs, gaps, constant/random/descending glyphs, boundary codes, up to 65536 entries); every code point 0..65535 of every encoded map is compared, 0x10000..0x10FFFF on a sample; hand-made subtables in formats 0, 4, 6, 12; random key sets. Trusts harness/raw/cmap.go.")
NOTE["C14"] = ("runtime monitor: encoded name/post/script tables decoded by independent parsers and golang.org/x/image, and compared with the generating model after a round trip", "exploration",
  "All supported languages, ids 0..65535, string storage up to both sides of the 16-bit limits, both codecs swept over all code points, glyph name lists up to 65535 entries, every script/language pair of the tag tables through an encoded script list.")
NOTE["C08"] = ("runtime monitor: encoded GSUB/GPOS/GDEF bytes walked by an independent strict decoder (every byte owned by one structure) and compared with the original and the library's own reader", "exploration",
  "All 26 subtable kinds from 1 to 65536 entries incl. the exact 64 KiB acceptance boundary, lookup lists of 0..300 lookups up to 1 MB, feature/script lists around the 16-bit limits, every script/language tag, glyph sets and class tables over all 65536 glyphs, a catalogue of unrepresentable data. A refusal is accepted only if an independent size bound is exceeded. Value records of one pair subtable are all present or all absent.")
NOTE["C03"] = ("runtime monitor: written files judged by a strict container checker, header.Read and golang.org/x/image", "exploration",
  "Random table maps (1..4095 tables, lengths 0..3 MB, all scaler types, with and without head) and complete random fonts of 1..65535 glyphs in all output forms; x/image must report the same glyph count, upem, character map, advances, TrueType names and outlines (simple, composite, CFF). What x/image does not support (counted) is not compared.")

NOTE["C01"] = ("runtime monitor: reflective dump of every reachable field of constructed and foreign fonts compared across write/read/write/read cycles; emitted bytes compared between generations", "exploration",
  "Random complete fonts of all three outline kinds (1..65535 glyphs) compared field by field with their documented normal form; foreign files (assembled table by table from independent encoders, with missing, odd or inconsistent tables) and the installed real fonts must reach a fixed point after one read/write cycle, byte for byte. Fonts without any timestamp are exempt from the byte comparison (the unique identifier contains today's date).")

NOTE["C18"] = ("runtime monitor: fault-injecting writers, readers, streams, files and pipes around the real read and write functions; every error, byte count, accepted prefix and resulting font checked", "fault_enumeration",
  "Every fault position of files up to 2000 bytes, all write-call boundaries and a sample of positions for longer files (up to 170 KB real fonts); five writer failure modes, persistent and single faults on the reading side. Files which change while they are being read are outside the property.")

NOTE["C06"] = ("runtime monitor: results of Context.Apply compared with an independent reference shaper working on glyph identities", "exploration",
  "Random programs (1-5 lookups over all subtable kinds, flags and GDEF classes, all orders), each run on every sequence of length 0..6 over alphabets of 2..5 glyphs, plus longer random sequences and lookups which were written and read back. Outcomes the specification and the documented decisions leave open are not judged, or all documented variants are accepted (see assumptions in the evidence).")

NOTE["C07"] = ("runtime monitor: panic, text-conservation, length, history and table-immutability monitors around Context.Apply and Layouter.Layout", "exploration",
  "Constructed lookup programs (all kinds, out-of-range indices, empty lists, self-references, up to 100 nested actions), tables read back after byte mutation, and layouters on real, constructed and corrupted fonts; sequences of 0..200 glyphs with shared text memory; every call is repeated on shared and fresh contexts. Programs which can legitimately produce more than 200000 glyphs are not run.")

NOTE["C15"] = ("runtime monitor: feature selection, complete layouts, kerning and synthetic ligatures compared with a direct evaluation of the documented steps", "exploration",
  "Random script/feature lists (1..20 language systems), fonts (constructed, re-read, foreign, real), strings, languages and switch maps; kern tables of 0..60000 pairs with every subtable flag combination; every f-ligature subset. Single lookups are applied by the library's own engine on both sides (judged by C06).")

NOTE["C20"] = ("runtime monitor: every generated name list checked for completeness, uniqueness, kept names, origin and stability", "exploration",
  "Random patterns of missing, duplicate, invalid and placeholder-like names, short and long TrueType name lists, random character maps (incl. glyphs outside the font) and GSUB 1/2/3/4 lookups, CID conversion with and without text, foreign and real files; fonts of 1..3000 glyphs; random family names over all bytes.")
NOTE["C19"] = ("runtime monitor: lookup lists described and parsed back, texts from an independent writer compared with the lists they mean, goroutine/line-number/panic monitors around every call", "exploration",
  "Random lookup lists in every form the language has syntax for (GSUB 1-6, GPOS 1-4, 7-8 contexts through the shared code, all flag subsets), fonts with/without/with misleading names and character maps, GOMAXPROCS 1..16 with competing goroutines; random bytes, random tokens and single-token mutations of valid texts. Exploration, not exhaustive; which of several glyphs with the same name is meant is not judged.")

NOTE["C10"] = ("runtime monitor: every subset compared with the original font by following the references from the listed glyphs", "exploration",
  "Random fonts (TrueType with nested composites, simple and CID-keyed CFF; constructed, foreign, real; up to 60000 glyphs; all four character map formats; GSUB 1.1/4.1 chains and GPOS 2.1 tables) and glyph lists (sorted, reversed, shuffled, with spare capacity); outlines, widths, names, CIDs, private dictionaries, matrices, encodings, character maps, rules, pairs, feature selections, shaping results and layouts are compared before and after writing and reading the subset, and for subsets of subsets. Glyphs present only as components or ligatures may be without character codes.")

NOTE["C16"] = ("race detector and runtime monitor: concurrent calls on one shared font compared with the same calls run alone, font and slice capacities checked for changes", "exploration",
  "Constructed, foreign and real fonts (TrueType, simple and CID-keyed CFF, with layout tables, shared standard names); 2 to 8 goroutines, 1 to 8 threads, 27 kinds of calls, yields inside writers and between calls; half of the runs do the concurrent calls before anything has been called alone, and 160 runs use a process of their own. Only schedules which occur are judged; the race detector sees unordered accesses whichever way they happen.")

NOTE["C02"] = ("runtime monitor: panic, crash, hang, CPU time and allocation monitors around every decoder call and accessor call", "exploration",
  "20 decoders; unchanged, mutated, truncated (every prefix) and word-by-word changed tables from constructed, foreign and real fonts, random bytes, inputs built to be expensive (shared subtables, nested subroutines, ranges covering all glyphs, many records sharing a string), hill climbing on the memory used, and several megabytes of padding or patterns. Allocation and CPU time are bounded by A+B*len with constants per decoder, so that only super-linear growth or a large constant is seen; accessors are judged for panics only.")
