id="c19-drain-line"; prop="C19"
needs="a parse error on a line which is not the last one of the text"
breaks="after an error only the rest of the current line is drained from the lexer, whose goroutine stays blocked forever"
edits=[("opentype/gtab/builder/parser.go","""			for range tokens {
				// drain the lexer
			}
""","""			for t := range tokens {
				// drain the lexer
				if t.typ == itemEOL || t.typ == itemEOF {
					break
				}
			}
""")]
dir="opentype/gtab/builder"
demo='''package builder
import ("testing";"runtime";"time";"seehuhn.de/go/sfnt";"seehuhn.de/go/sfnt/cff")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "B"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &sfnt.Font{Outlines: o}
	before := runtime.NumGoroutine()
	for i := 0; i < 20; i++ {
		_, err := Parse(f, "GSUB1: A : B\\nGSUB1: A -> B\\n")
		if err == nil { t.Fatal("accepted") }
	}
	for i := 0; i < 100 && runtime.NumGoroutine() > before; i++ { time.Sleep(10*time.Millisecond) }
	if n := runtime.NumGoroutine(); n > before { t.Fatal(n, before) }
}
'''
