id="c19-shared-classes"; prop="C19"
needs="a contextual lookup with two class-based subtables (joined with ||), the later of which defines classes for other glyphs"
breaks="the class table is shared between the subtables of a lookup, so the first subtable also gets the classes of the later ones"
edits=[("opentype/gtab/builder/parser.go","""			inputClasses = make(classdef.Table) // make sure to not change subtable.Input
			maps.Clear(inputClassIdx)
			backtrackClasses = make(classdef.Table) // make sure to not change subtable.Backtrack
			maps.Clear(backtrackClassIdx)
			lookaheadClasses = make(classdef.Table) // make sure to not change subtable.Lookahead
			maps.Clear(lookaheadClassIdx)
""","""			inputClasses = make(classdef.Table) // make sure to not change subtable.Input
			backtrackClasses = make(classdef.Table) // make sure to not change subtable.Backtrack
			for _, idx := range []map[string]uint16{inputClassIdx, backtrackClassIdx, lookaheadClassIdx} {
				maps.Clear(idx)
			}
""")]
dir="opentype/gtab/builder"
demo='''package builder
import ("testing";"seehuhn.de/go/sfnt";"seehuhn.de/go/sfnt/cff";"seehuhn.de/go/sfnt/opentype/gtab")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "B", "C"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &sfnt.Font{Outlines: o}
	ll, err := Parse(f, "GSUB6: lookaheadclass :a: = [A]\\n inputclass :a: = [A]\\n /A/ | :a: | :a: -> 0@0 ||\\n lookaheadclass :a: = [B]\\n inputclass :a: = [B]\\n /B/ | :a: | :a: -> 0@0\\n")
	if err != nil { t.Fatal(err) }
	if s := ll[0].Subtables[0].(*gtab.ChainedSeqContext2); s.Lookahead[1] != 1 || s.Lookahead[2] != 0 { t.Fatal(s.Lookahead) }
}
'''
