id="c16-std-strings"; prop="C16"
needs="two goroutines writing CFF fonts (any fonts) as the first users in the process"
breaks="the reverse index of the CFF standard strings becomes a lazily built package-level map without synchronisation: concurrent writers race, and can see a half-filled map"
edits=[("cff/strings.go","""		ss.rev = make(map[string]int32)
		for i, s := range stdStrings {
			ss.rev[s] = int32(i)
		}
""","""		if stdRev == nil {
			stdRev = make(map[string]int32)
			for i, s := range stdStrings {
				stdRev[s] = int32(i)
			}
		}
		ss.rev = make(map[string]int32)
		for s, i := range stdRev {
			ss.rev[s] = i
		}
"""),("cff/strings.go","""// from Appendix A of the CFF specification
var std""","""// stdRev is the inverse of stdStrings, built when first needed.
var stdRev map[string]int32

// from Appendix A of the CFF specification
var std""")]
dir="cff"; flags="-race "
demo='''package cff
import ("testing";"sync")
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ {
		wg.Add(1)
		go func() { defer wg.Done()
			ss := &cffStrings{}
			for i, s := range stdStrings { if ss.lookup(s) != int32(i) { t.Error("wrong"); return } } }()
	}
	wg.Wait()
}
'''
