claim("C17","exploration","random histories over a simulated seekable device (short reads, EOF with data, empty reads, displaced head) against a byte-slice model",
 "Seeded search, not exhaustive: 160k histories per quick run, 6M thorough. Trusts the byte-slice model in sim/worker/props/c17.go.")
claim("C18","exploration","fault-injecting output devices and input devices: for generated fonts, faults at seeded (in 1 run of 12: all) positions; oracle on error and byte count for writes, error-or-identical-font for reads",
 "Seeded search over fonts and fault positions. A byte is 'needed' if it lies inside table data (truncation, persistent failure) or if flipping it changes the fault-free outcome (bad ranges, stand-alone CFF). Writers which break the io.Writer contract (short count with nil error) are outside the claim.")
claim("C19","exploration","simulated schedules of the lexer and parser goroutines over generated lookup lists, texts with known meaning and mutated texts; round-trip, meaning, termination, leak and line-number oracles",
 "Seeded search over fonts, lookup lists, texts and schedules. Only lookup forms the language has syntax for are generated; the RTL flag, GPOS 7/8 and vertical advances have none.")
claim("C16","exploration","seeded schedules of 2-4 goroutines using shared fonts under the race detector; every result compared with the same call made alone on a fresh copy; font and argument snapshots",
 "Seeded search over fonts, calls and schedules. Map iteration order is pinned within a run (order dependence is judged by other properties). Data races are those the Go race detector sees in the simulated schedule.")
claim("C07","exploration","seeded histories of Apply and Layout calls over well-formed, out-of-range and damaged tables under seeded map orders; panic, termination, text, length, history and aliasing oracles",
 "Seeded search. Excludes what the library declares unimplemented (vertical advances, device offsets, GPOS type 5). Termination is judged by a budget of 600M yield points per run (observed maximum: 16M).")
claim("C02","exploration","seeded storage faults (damage, truncation, replaced and removed tables) and adversarial raw tables for 19 decoders; panic, termination (step budget) and allocation (heap budget) oracles on decoding, all accessors and re-encoding",
 "Seeded search, not exhaustive. Time is judged in yield points and memory in heap growth, both against a bound linear in the input size plus a constant: 150M steps + 2000 per byte and 768 MB + 8000 B per byte for whole fonts and the big decoders, 25M + 2000 and 96 MB + 8000 for the small ones.")
claim("C01","exploration","seeded generations of files: fonts are built twice from the same choices, written, re-read after a restart with only the bytes surviving and written again, under clock jumps, time zone changes, map orders and storage devices with short reads; generated, damaged and near-limit files as further starting points",
 "Seeded search. The comparison uses the normal form in c01Diff (e.g. cap height and x-height 0 are derived on reading, CFF coordinates to 1e-4, timestamps to the second, plain language tags expanded). Domain limits: CFF coordinate steps below 32000, contiguous CFF encodings, names which fit the post and name tables.")
claim("C20","exploration","seeded histories of naming calls, installation, file write and restart (only the bytes survive) on fonts with missing, duplicate and colliding names, under changing map iteration orders; completeness, uniqueness, preservation, inference and stability oracles",
 "Seeded search. 'Inferred' is judged against the character map and the substitution rules: a glyph with an unused character or variant/ligature name available must not get a placeholder. Substitution rules refer to existing glyphs; derived names longer than 55 bytes may fall back to placeholders; surrogate code points are exempt.")
claim("C15","exploration","seeded histories of layout and feature-selection calls on constructed fonts and on fonts re-read after a restart, under changing map iteration orders and input devices with short reads; pipeline composition, independent rule interpreter, kern folding model, ligature and feature-selection oracles",
 "Seeded search. Language matching itself is taken from golang.org/x/text (default script first); composition uses the library's own Context for complicated rules and an independent interpreter for GSUB 1, 2, 4 and GPOS 1, 2. Overflow of 16-bit kerning sums is not modelled; fractional CFF widths may differ by 1.")
