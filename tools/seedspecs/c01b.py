id="c01-langsys-share"; prop="C01"
needs="two languages of the same script with identical optional features but different required features"
breaks="adjacent language systems with the same optional features share one LangSys table, so one of them comes back with the wrong required feature"
edits=[("opentype/gtab/scriptlist.go","""		for _, lRec := range langSysRecords {
			lRec.offs = uint16(pos)
			pos += 6""","""		for i, lRec := range langSysRecords {
			if i > 0 && slices.Equal(lRec.langSys.Optional, langSysRecords[i-1].langSys.Optional) {
				// the feature list is already stored
				lRec.offs = langSysRecords[i-1].offs
				continue
			}
			lRec.offs = uint16(pos)
			pos += 6"""),("opentype/gtab/scriptlist.go","""import (
""","""import (
	"slices"
""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"bytes";"golang.org/x/text/language";"seehuhn.de/go/sfnt/parser")
func TestDemo(t *testing.T) {
	a, b := language.MustParse("de-Latn-x-latn-deu"), language.MustParse("tr-Latn-x-latn-trk")
	info := ScriptListInfo{
		a: {Required: 1, Optional: []FeatureIndex{0, 2}},
		b: {Required: 0xFFFF, Optional: []FeatureIndex{0, 2}},
	}
	data := info.encode()
	got, err := readScriptList(parser.New(bytes.NewReader(data)), 0)
	if err != nil { t.Fatal(err) }
	for k, v := range info { if got[k] == nil || got[k].Required != v.Required || len(got[k].Optional) != 2 { t.Fatal(k, got[k]) } }
}
'''
