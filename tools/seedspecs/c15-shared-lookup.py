id="c15-shared-lookup"; prop="C15"
needs="two enabled features which share a lookup, listed by the features in different positions"
breaks="the shared lookup is applied twice"
edits=[("opentype/gtab/lookup.go","""	sort.Slice(ll, func(i, j int) bool {
		return ll[i] < ll[j]
	})
	return ll
}""","""	if len(includeLookup) == 1 && len(features.Optional) > 1 {
		// a single lookup does not need to be sorted
		return info.FeatureList[features.Optional[0]%numFeatures].Lookups
	}
	sort.Slice(ll, func(i, j int) bool {
		return ll[i] < ll[j]
	})
	return ll
}""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"golang.org/x/text/language")
func TestDemo(t *testing.T) {
	info := &Info{ScriptList: map[language.Tag]*Features{language.MustParse("und-Zzzz"): {Required: 0xFFFF, Optional: []FeatureIndex{0, 1}}}, FeatureList: FeatureListInfo{{Tag: "ccmp", Lookups: []LookupIndex{0, 0}}, {Tag: "liga", Lookups: []LookupIndex{0}}}, LookupList: LookupList{{Meta: &LookupMetaInfo{LookupType: 1}}}}
	if ll := info.FindLookups(language.Und, map[string]bool{"liga": true}); len(ll) != 1 { t.Fatal(ll) }
}
'''
