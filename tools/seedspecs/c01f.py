id="c01-cmap-language"; prop="C01"
needs="a font with two Macintosh cmap subtables which differ in their language only"
breaks="subtables which differ in language only are written in map iteration order: two writes of the same font differ"
edits=[("cmap/cmap.go","""		if ext[i].EncodingID != ext[j].EncodingID {
			return ext[i].EncodingID < ext[j].EncodingID
		}
		return ext[i].Language < ext[j].Language
""","""		return ext[i].EncodingID < ext[j].EncodingID
""")]
dir="cmap"
demo='''package cmap
import ("testing";"bytes")
func TestDemo(t *testing.T) {
	tab := Table{}
	for l := uint16(0); l < 5; l++ {
		f := &Format0{}
		f.Data[65] = byte(l + 1)
		tab[Key{PlatformID: 1, EncodingID: 0, Language: l}] = f.Encode(l)
	}
	first := tab.Encode()
	for i := 0; i < 200; i++ { if !bytes.Equal(first, tab.Encode()) { t.Fatal(i) } }
}
'''
