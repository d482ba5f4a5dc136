id="c01-mark-set-zero"; prop="C01"
needs="a lookup which uses the first mark filtering set (index 0)"
breaks="the markFilteringSet field is left out of the lookup table when the index is 0, while the flag is still written"
edits=[("opentype/gtab/lookup.go","""			if li.Meta.LookupFlags&UseMarkFilteringSet != 0 {
				buf = append(buf,
""","""			if li.Meta.MarkFilteringSet != 0 {
				buf = append(buf,
""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"golang.org/x/text/language";"bytes";"seehuhn.de/go/sfnt/glyph";"seehuhn.de/go/sfnt/opentype/coverage")
func TestDemo(t *testing.T) {
	for set := uint16(0); set < 2; set++ {
		info := &Info{ScriptList: ScriptListInfo{language.MustParse("und-Latn-x-latn"): {Required: 0xFFFF, Optional: []FeatureIndex{0}}}, FeatureList: FeatureListInfo{{Tag: "test", Lookups: []LookupIndex{0}}}, LookupList: LookupList{{Meta: &LookupMetaInfo{LookupType: 1, LookupFlags: UseMarkFilteringSet, MarkFilteringSet: set}, Subtables: []Subtable{&Gsub1_2{Cov: coverage.Table{1: 0}, SubstituteGlyphIDs: []glyph.ID{2}}}}}}
		data := info.Encode()
		_ = data
		got, err := Read(bytes.NewReader(data), TypeGsub)
		if err != nil { t.Fatal(err) }
		if got.LookupList[0].Meta.MarkFilteringSet != set || len(got.LookupList[0].Subtables) != 1 { t.Fatal(set) }
	}
}
'''
