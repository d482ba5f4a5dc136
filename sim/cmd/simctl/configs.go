package main

// propCfg is the search plan for one property.
type propCfg struct {
	id              string
	level           string
	quick, thorough uint64 // runs
	batch           uint64 // runs per worker process
	race            bool
	rule            string
	real, stub      []string
	assume          []string
}

var configs = map[string]*propCfg{}

func reg(c *propCfg) {
	if c.level == "" {
		c.level = "exploration"
	}
	configs[c.id] = c
}

func init() {
	reg(&propCfg{id: "C17", quick: 160000, thorough: 6000000, batch: 2000,
		rule: "one run = one history of 1..41 (thorough: 1..201) operations on a parser.Parser over a simulated device of 0..5000 bytes; positions, sizes and lengths are biased to multiples of the 1024-byte window and to the end of the input. Non-trivial: at least two operations and two device accesses. Distinct: hash of the complete event log (operations, results, device transfers).",
		real: []string{"parser.Parser (all exported methods)"},
		stub: []string{"io.ReadSeeker device (short reads, EOF with data, empty reads, non-zero initial head position)"},
	})

	reg(&propCfg{id: "C18", quick: 15000, thorough: 400000, batch: 200,
		rule: "one run = one generated font (TrueType, CFF or CID-keyed; 1..12, sometimes up to 400 glyphs; with or without layout tables; tables re-ordered, with gaps, unknown tables, missing optional tables) or table map, one input or output function, and 1..31 injected faults (1 run in 12: a fault at every position of the file). Non-trivial: the fault-free operation succeeded and at least one fault position was tried. Distinct: hash of the complete event log (device transfers, faults, results).",
		real: []string{"sfnt.Read", "sfnt.Font.Write", "WriteTrueTypePDF", "WriteOpenTypeCFFPDF", "cff.Font.Write", "cff.Read", "header.Read/Write", "every table codec below them"},
		stub: []string{"output device (full after k bytes, short last write, rejected write, transient failure or short write of the n-th call)", "input device (truncation, unreadable from offset k, unreadable range, transient failure of the n-th access, short reads, EOF with data, size changing under the reader) behind io.ReaderAt, io.Reader and both"},
	})

	reg(&propCfg{id: "C19", quick: 45000, thorough: 3000000, batch: 1000,
		rule: "one run = one generated font (2..300 glyphs; names normal, missing, unusual or outside the language; character map plain, odd, empty or absent), one generated lookup list, and either Explain then Parse, or Parse of a generated text with known meaning, or Parse of 1..6 mutated or random texts, under a seeded goroutine schedule (mean preemption gap 3..2000 yield points, or none). Non-trivial: at least one text was parsed. Distinct: hash of the event log (lookup kinds, texts, results).",
		real: []string{"builder.Parse (parser, lexer goroutine, string decoder)", "builder.ExplainGsub", "builder.ExplainGpos", "cmap.Table.GetBest"},
		stub: []string{"goroutine scheduler (seeded, single processor, preemption at yield points)"},
	})

	reg(&propCfg{id: "C16", quick: 6000, thorough: 400000, batch: 15, race: true,
		rule: "one run = one or two generated fonts (TrueType, CFF, CID-keyed; constructed, or loaded from a file; with and without layout tables, standard Macintosh names, missing or duplicate names), 2..4 goroutines with 1..3 (thorough: 1..6) read-only calls each on the shared font under a seeded schedule (mean preemption gap 2..1500 yield points, or none), and the same calls made alone on fresh copies. Non-trivial: at least two goroutines ran. Distinct: hash of the event log (fonts, calls, results).",
		real: []string{"sfnt.Font methods (Write, WriteTrueTypePDF, WriteOpenTypeCFFPDF, Subset, Clone, metrics, names, NewLayouter/Layout)", "cff.Font", "glyf", "cmap", "gtab.NewContext/Apply, FindLookups, Encode", "builder.ExplainGsub/ExplainGpos/Parse", "sfnt.Read (goroutines loading fonts of their own)", "the Go race detector's happens-before analysis"},
		stub: []string{"goroutine scheduler (seeded, single processor, preemption at yield points)", "output and input devices (yield points at every transfer)", "map iteration order (constant)"},
	})

	reg(&propCfg{id: "C07", quick: 150000, thorough: 2000000, batch: 500,
		rule: "one run = one set of GSUB/GPOS/GDEF tables (well-formed, with indices and rows out of range, or decoded from damaged bytes), and either a history of 1..4 Apply calls on one set of contexts for sequences of 0..200 glyphs, or of 1..5 Layout calls on one layouter; every call is repeated on fresh tables with fresh contexts under other map iteration orders. Non-trivial: at least one call changed its sequence. Distinct: hash of the event log (tables, calls, results).",
		real: []string{"gtab.Context.Apply", "gtab.Read", "gdef.Read", "Info.FindLookups", "sfnt.Layouter.Layout", "cmap.Table.GetBest"},
		stub: []string{"map iteration order (seeded)", "storage (damaged bytes)"},
	})

	reg(&propCfg{id: "C02", quick: 150000, thorough: 6000000, batch: 250,
		rule: "one run = one input for one of 19 decoders (made by the library's own encoders, or by raw table generators which cover all table formats, share pieces between offsets and use extreme counts; whole files: tables replaced, damaged and removed inside a consistent container), 0..8 storage faults and truncation, then every accessor and re-encoder on the decoded value. Non-trivial: every run. Distinct: hash of the event log (decoder, input size, faults, outcome).",
		real: []string{"sfnt.Read", "header.Read", "cff.Read", "cmap.Decode, Get, GetBest", "glyf.Decode, SimpleGlyph.Decode", "gtab.Read", "gdef.Read", "coverage.Read/ReadSet", "classdef.Read", "name.Decode", "head.Read", "hmtx.Decode", "maxp.Read", "os2.Read", "post.Read", "kern.Read", "accessors and encoders of the decoded values"},
		stub: []string{"storage (damaged, truncated and adversarial bytes)", "allocator and step accounting (patched runtime)", "map iteration order (seeded)"},
	})

	reg(&propCfg{id: "C01", quick: 30000, thorough: 1500000, batch: 200,
		rule: "one run = one font (constructed with extreme field values, or read from a file whose tables were replaced or damaged) followed through 1..3 generations of write, restart (only the bytes survive) and read, with clock jumps, time zone changes, other map iteration orders and short reads in between. Non-trivial: the font was written at least once. Distinct: hash of the event log (bytes written, device transfers, results).",
		real: []string{"sfnt.Font.Write", "sfnt.Read", "every table codec below them", "header.Write", "header.Read"},
		stub: []string{"clock and time zone", "map iteration order (seeded)", "input device (short reads, EOF with data)", "storage (only the bytes survive a restart)"},
	})

	reg(&propCfg{id: "C20", quick: 120000, thorough: 5000000, batch: 1000,
		rule: "one run = one font (TrueType, CFF, CID-keyed; constructed or read from a damaged file; names missing, duplicate, invalid, colliding with generated names, list too short or too long; ordinary or extreme character maps; substitution rules of all kinds) and a history of 2..12 calls (MakeGlyphNames, MakeSimple, EnsureGlyphNames, GlyphName, write and restart) with clock jumps and other map iteration orders in between, or one set of style values for PostScriptName. Non-trivial: at least two glyphs. Distinct: hash of the event log (names before and after, calls).",
		real: []string{"sfnt.Font.MakeGlyphNames, EnsureGlyphNames, GlyphName, PostScriptName", "cff.Outlines.MakeSimple", "names.FromUnicode", "cmap.Table.GetBest", "sfnt.Read, sfnt.Font.Write (names read back)"},
		stub: []string{"clock and time zone", "map iteration order (seeded)"},
	})

	reg(&propCfg{id: "C15", quick: 60000, thorough: 5000000, batch: 500,
		rule: "one run = one font (constructed, or written and read back once or twice; TrueType, CFF, CID-keyed; 1..5 character maps of formats 0, 4, 6, 12, some unusable; proportional or fixed pitch; with GSUB/GPOS/GDEF tables, with rules simple enough for an independent interpreter, or without tables but with a kern table and ligature characters) and a history of Layout calls for 1..2 layouters (language, feature switches) under clock jumps and changing map iteration orders; or one script list with 1..20 language systems and a history of 1..6 feature selections. Non-trivial: at least one character was laid out, or there are features and lookups to select. Distinct: hash of the event log (queries, results).",
		real: []string{"sfnt.Font.NewLayouter", "sfnt.Layouter.Layout", "gtab.Info.FindLookups", "gtab.Context.Apply (composition; rules are also checked against an independent interpreter for GSUB 1, 2, 4 and GPOS 1, 2)", "cmap.Table.GetBest and the subtable decoders", "kern.Read and the conversion to GPOS", "standard ligatures", "sfnt.Read, sfnt.Font.Write"},
		stub: []string{"clock and time zone", "map iteration order (seeded)", "input device (short reads, EOF with data)", "storage (only the bytes survive a restart)"},
	})
}
