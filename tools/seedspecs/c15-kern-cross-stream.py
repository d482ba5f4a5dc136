id="c15-kern-cross-stream"; prop="C15"
needs="a kern table with a cross-stream subtable in addition to the usual one"
breaks="vertical shifts from the cross-stream subtable are added to the horizontal kerning"
edits=[("kern/kern.go","flags&0b11110101 != 1","flags&0b00000001 != 1")]
dir="kern"
demo='''package kern
import ("testing";"bytes";"seehuhn.de/go/sfnt/glyph")
func TestDemo(t *testing.T) {
	d := []byte{0,0,0,1, 0,0,0,20,0,5, 0,1,0,6,0,0,0,0, 0,1,0,2,0,9}
	k, err := Read(bytes.NewReader(d))
	if err != nil { t.Fatal(err) }
	if len(k) != 0 { t.Fatal(k[glyph.Pair{Left: 1, Right: 2}]) }
}
'''
