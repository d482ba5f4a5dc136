id="c16-pad-append"; prop="C16"
needs="a TrueType font with a table (cvt, fpgm, prep, gasp) of odd length whose byte slice has spare capacity, written by two goroutines or sharing its array with other data"
breaks="header.Write appends the padding to the table slices: it writes zeros behind the end of the caller's shared table data"
edits=[("header/write.go","""	var pad [3]byte
	for _, name := range tableNames {
		body := tables[name]
		n, err := w.Write(body)
		totalSize += int64(n)
		if err != nil {
			return totalSize, err
		}
		if k := n % 4; k != 0 {
			l, err := w.Write(pad[:4-k])
			totalSize += int64(l)
			if err != nil {
				return totalSize, err
			}
		}
	}
""","""	for _, name := range tableNames {
		// tables start on 4-byte boundaries
		body := tables[name]
		for len(body)%4 != 0 {
			body = append(body, 0)
		}
		n, err := w.Write(body)
		totalSize += int64(n)
		if err != nil {
			return totalSize, err
		}
	}
""")]
dir="header"
demo='''package header
import ("testing";"io")
func TestDemo(t *testing.T) {
	all := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	_, err := Write(io.Discard, ScalerTypeTrueType, map[string][]byte{"cvt ": all[:5], "prep": all[5:]})
	if err != nil { t.Fatal(err) }
	for i, b := range all { if int(b) != i+1 { t.Fatal(all) } }
}
'''
