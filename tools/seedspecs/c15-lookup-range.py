id="c15-lookup-range"; prop="C15"
needs="a feature which refers to a lookup directly behind the end of the lookup list"
breaks="feature selection returns a lookup index which does not exist"
edits=[("opentype/gtab/lookup.go","""		if l >= numLookups {
			continue
		}
		ll = append""","""		if l > numLookups {
			continue
		}
		ll = append""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"golang.org/x/text/language")
func TestDemo(t *testing.T) {
	info := &Info{ScriptList: map[language.Tag]*Features{language.MustParse("und-Zzzz"): {Required: 0}}, FeatureList: FeatureListInfo{{Tag: "ccmp", Lookups: []LookupIndex{0, 1}}}, LookupList: LookupList{{Meta: &LookupMetaInfo{LookupType: 1}}}}
	if ll := info.FindLookups(language.Und, nil); len(ll) != 1 { t.Fatal(ll) }
}
'''
