id="c15-liga-alias"; prop="C15"
needs="a proportional font without GSUB table which contains at least two of the standard f-ligatures"
breaks="the component lists of the synthesised ligatures share memory, so that all but the last ligature match the wrong sequence"
edits=[("ligatures.go","			In:  slices.Clone(gg[2:]),\n","			In:  slices.Clip(gg[2:]),\n")]
dir="."
demo='''package sfnt
import ("testing";"seehuhn.de/go/sfnt/cmap";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/gtab")
func TestDemo(t *testing.T) {
	info := standardLigatures(cmap.Format4{'f': 1, 'i': 2, 'l': 3, 0xFB01: 4, 0xFB02: 5})
	st := info.LookupList[0].Subtables[0].(*gtab.Gsub4_1)
	if l := st.Repl[0][0]; l.In[0] != 2 || l.Out != glyph.ID(4) { t.Fatal(st.Repl) }
}
'''
