id="c15-kern-override"; prop="C15"
needs="a kern table with two subtables, the second of which has the override flag and lists a pair of the first"
breaks="override values are added instead of replacing the earlier value"
edits=[("kern/kern.go","		isOverride := flags&0b00001000 != 0","		isOverride := flags&0b00001010 == 0b00001000 && len(res) == 0")]
dir="kern"
demo='''package kern
import ("testing";"bytes";"seehuhn.de/go/sfnt/glyph")
func TestDemo(t *testing.T) {
	d := []byte{0,0,0,2, 0,0,0,20,0,1, 0,1,0,6,0,0,0,0, 0,1,0,2,0,9, 0,0,0,20,0,9, 0,1,0,6,0,0,0,0, 0,1,0,2,0,5}
	k, err := Read(bytes.NewReader(d))
	if err != nil { t.Fatal(err) }
	if v := k[glyph.Pair{Left: 1, Right: 2}]; v != 5 { t.Fatal(v) }
}
'''
