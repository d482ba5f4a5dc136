id="c16-match-buffer"; prop="C16"
needs="two goroutines shaping through separate contexts at the same time, one interrupted inside the match of a GSUB 4 rule"
breaks="ligature matching uses a package-level position buffer shared by all contexts"
edits=[("opentype/gtab/gsub.go","""	var matchPos []int
	var skipPos []int
	var text []rune
ligLoop:""","""	matchPos := ligMatchPos
	defer func() { ligMatchPos = matchPos }()
	var skipPos []int
	var text []rune
ligLoop:"""),("opentype/gtab/gsub.go","""// apply implements the [Subtable] interface.
func (l *Gsub4_1) apply(""","""// ligMatchPos is the buffer for the matched positions, kept between calls.
var ligMatchPos []int

// apply implements the [Subtable] interface.
func (l *Gsub4_1) apply(""")]
dir="opentype/gtab"; flags="-race "
demo='''package gtab
import ("testing";"sync";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage")
func TestDemo(t *testing.T) {
	ll := LookupList{{Meta: &LookupMetaInfo{LookupType: 4}, Subtables: []Subtable{
		&Gsub4_1{Cov: coverage.Table{1: 0}, Repl: [][]Ligature{{{In: []glyph.ID{2, 3}, Out: 4}}}}}}}
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() { defer wg.Done()
			ctx := NewContext(ll, nil, []LookupIndex{0})
			for i := 0; i < 500; i++ {
				out := ctx.Apply([]glyph.Info{{GID: 1}, {GID: 2}, {GID: 3}})
				if len(out) != 1 || out[0].GID != 4 { t.Error("wrong"); return }
			} }()
	}
	wg.Wait()
}
'''
