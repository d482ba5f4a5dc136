id="c01-format12-gap"; prop="C01"
needs="a character map with characters above U+FFFF installed with InstallCMap, where two characters which are not neighbours are mapped to consecutive glyphs"
breaks="format 12 segments are continued across gaps in the character codes: later characters are mapped to wrong glyphs, and characters in the gap become mapped"
edits=[("cmap/format12.go","		if keys[i] != keys[i-1]+1 || cmap[keys[i]] != cmap[keys[i-1]]+1 {","		if cmap[keys[i]] != cmap[keys[i-1]]+1 {")]
dir="cmap"
demo='''package cmap
import "testing"
func TestDemo(t *testing.T) {
	m := Format12{'A': 1, 'C': 2, 'D': 3, 0x1F600: 4}
	tab := Table{{PlatformID: 3, EncodingID: 10}: m.Encode(0)}
	s, err := tab.GetBest()
	if err != nil { t.Fatal(err) }
	for _, r := range []rune{'A', 'B', 'C', 'D', 'E', 0x1F600} { if s.Lookup(r) != m.Lookup(r) { t.Fatal(r) } }
}
'''
