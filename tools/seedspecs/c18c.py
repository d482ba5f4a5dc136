id="c18-last-entry"; prop="C18"
needs="a file whose physically last table is not the last entry of the directory and is cut short by a few bytes"
breaks="the reader only probes the end of the table with the highest start offset recorded last in the directory, so truncated files are accepted with silently shortened tables"
edits=[("header/tables.go","""	sort.Slice(coverage, func(i, j int) bool {
		if coverage[i].Start != coverage[j].Start {
			return coverage[i].Start < coverage[j].Start
		}
		return coverage[i].End < coverage[j].End
	})
	if coverage[0].Start < 12 {
""","""	sorted := append([]alloc(nil), coverage...)
	sort.Slice(sorted, func(i, j int) bool {
		if sorted[i].Start != sorted[j].Start {
			return sorted[i].Start < sorted[j].Start
		}
		return sorted[i].End < sorted[j].End
	})
	if sorted[0].Start < 12 {
"""),("header/tables.go","""		if coverage[i-1].End > coverage[i].Start {
""","""		if sorted[i-1].End > sorted[i].Start {
""")]
dir="header"
demo='''package header
import ("bytes";"testing")
func TestDemo(t *testing.T) {
	buf := &bytes.Buffer{}
	_, err := Write(buf, ScalerTypeTrueType, map[string][]byte{"head": make([]byte, 54), "post": make([]byte, 32), "DSIG": make([]byte, 20)})
	if err != nil { t.Fatal(err) }
	data := buf.Bytes()
	dsig := int(data[12+8])<<24 | int(data[12+9])<<16 | int(data[12+10])<<8 | int(data[12+11])
	_ = dsig
	if _, err := Read(bytes.NewReader(data)); err != nil { t.Fatal(err) }
	for k := 0; k < len(data); k++ {
		if _, err := Read(bytes.NewReader(data[:k])); err == nil { t.Fatal("truncated file accepted", k, len(data)) }
	}
}
'''
