id="c01-classdef-adjacent"; prop="C01"
needs="a class definition table with a run of one class directly followed (no gap) by a single glyph of another class, where the range format is the smaller one"
breaks="the size computation and the writer of class ranges disagree for adjacent ranges: a range is dropped"
edits=[("opentype/classdef/classdef.go","""		if segStart >= 0 && class != segClass {
			segCount++
			segStart = -1
		}
		if segStart == -1 {
			if class != 0 {""","""		if segStart >= 0 && class != segClass {
			segCount++
			segStart = -1
		} else if segStart == -1 {
			if class != 0 {""")]
dir="opentype/classdef"
demo='''package classdef
import ("testing";"bytes";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/parser")
func TestDemo(t *testing.T) {
	info := Table{}
	for i := 1; i < 40; i++ { info[glyph.ID(i)] = 1 }
	info[20] = 2
	data := info.Append(nil)
	if len(data) != info.AppendLen() { t.Fatal(len(data), info.AppendLen()) }
	p := parser.New(bytes.NewReader(data))
	got, err := Read(p, 0)
	if err != nil { t.Fatal(err) }
	for i := 0; i < 50; i++ { if got[glyph.ID(i)] != info[glyph.ID(i)] { t.Fatal(i) } }
}
'''
