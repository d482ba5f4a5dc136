id="c16-sort-features"; prop="C16"
needs="a language system whose optional features are not listed in increasing order, used by two layouters created at the same time or written afterwards"
breaks="FindLookups sorts the feature list of the shared script table in place"
edits=[("opentype/gtab/lookup.go","""	for _, f := range features.Optional {
		if f >= numFeatures {
			continue
		}
""","""	optional := features.Optional
	sort.Slice(optional, func(i, j int) bool { return optional[i] < optional[j] })
	for i, f := range optional {
		if f >= numFeatures {
			break
		}
		if i > 0 && f == optional[i-1] {
			continue // listed twice
		}
""")]
dir="opentype/gtab"
demo='''package gtab
import ("testing";"golang.org/x/text/language")
func TestDemo(t *testing.T) {
	opt := []FeatureIndex{2, 0, 1}
	info := &Info{ScriptList: ScriptListInfo{language.MustParse("und-Zzzz"): &Features{Required: 0xFFFF, Optional: opt}},
		FeatureList: FeatureListInfo{{Tag: "aaaa"}, {Tag: "bbbb"}, {Tag: "cccc"}}}
	info.FindLookups(language.English, map[string]bool{"aaaa": true})
	if opt[0] != 2 || opt[1] != 0 { t.Fatal(opt) }
}
'''
