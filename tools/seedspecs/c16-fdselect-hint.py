id="c16-fdselect-hint"; prop="C16"
needs="a CID-keyed font with more than one private dict, read from a file with a format 3 FDSelect, used by two goroutines at once"
breaks="the FD selector of a font which was read from a file remembers the segment of the previous query in the closure; sequential use is right, concurrent use races and can return the wrong private dict"
edits=[("cff/fdselect.go","""		return func(gid glyph.ID) int {
			idx := sort.Search(int(nRanges),
				func(i int) bool { return gid < end[i] })
			return int(fdIdx[idx])
		}, nil
""","""		// Glyphs are mostly queried in order: start with the segment found
		// by the previous query.
		hint := 0
		return func(gid glyph.ID) int {
			inHint := gid < end[hint] && (hint == 0 || gid >= end[hint-1])
			if !inHint {
				hint = sort.Search(int(nRanges),
					func(i int) bool { return gid < end[i] })
			}
			return int(fdIdx[hint])
		}, nil
""")]
dir="cff"; flags="-race "
demo='''package cff
import ("bytes";"testing";"sync";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/parser")
func TestDemo(t *testing.T) {
	enc := FDSelectFn(func(g glyph.ID) int { return int(g) / 10 }).encode(40)
	p := parser.New(bytes.NewReader(enc))
	fd, err := readFDSelect(p, 40, 4)
	if err != nil { t.Fatal(err) }
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() { defer wg.Done()
			for i := 0; i < 2000; i++ { g := glyph.ID((i*7 + k*10) % 40)
				if fd(g) != int(g)/10 { t.Error("wrong"); return } } }()
	}
	wg.Wait()
}
'''
