id="c20-ps-subfamily"; prop="C20"
needs="a font whose width class is none of the nine defined ones"
breaks="only the family name is cleaned, the description of the width adds parentheses to the PostScript name"
edits=[("font.go","""	name := f.FamilyName + "-" + f.Subfamily()
""",""),("font.go","""	return re.ReplaceAllString(name, "")
""","""	name := re.ReplaceAllString(f.FamilyName, "")
	return name + "-" + strings.ReplaceAll(f.Subfamily(), " ", "")
""")]
dir="."
demo='''package sfnt
import ("testing";"strings")
func TestDemo(t *testing.T) {
	f := &Font{FamilyName: "My Font", Width: 11}
	if n := f.PostScriptName(); strings.ContainsAny(n, "()") { t.Fatalf("%q", n) }
}
'''
