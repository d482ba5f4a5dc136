id="c20-complete-first"; prop="C20"
needs="a font where every glyph has a name but two names coincide"
breaks="the list is considered complete before duplicates are cleared, so that a glyph ends up with an empty name"
edits=[("names.go","""	used := make(map[string]bool)
	for gid, name := range glyphNames {
		if used[name] {
			glyphNames[gid] = ""
		} else {
			used[name] = true
		}
	}

	complete := true
	for _, name := range glyphNames {
		if name == "" {
			complete = false
			break
		}
	}
""","""	complete := true
	used := make(map[string]bool)
	for gid, name := range glyphNames {
		complete = complete && name != ""
		if used[name] {
			glyphNames[gid] = ""
		} else {
			used[name] = true
		}
	}
""")]
dir="."
demo='''package sfnt
import ("testing";"seehuhn.de/go/sfnt/cff")
func TestDemo(t *testing.T) {
	o := &cff.Outlines{}
	for _, n := range []string{".notdef", "A", "A"} { o.Glyphs = append(o.Glyphs, cff.NewGlyph(n, 500)) }
	f := &Font{Outlines: o}
	if nn := f.MakeGlyphNames(); nn[2] == "" || nn[2] == "A" { t.Fatal(nn) }
}
'''
