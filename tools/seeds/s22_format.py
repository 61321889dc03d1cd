ID="s22-bidi"; PROP="C22"; PKG="."
NEEDS="text with a Unicode format character, such as a right-to-left override"
BREAKS="invisible control characters of a file reach the terminal when the box is printed"
EDITS=[("internal/util/string.go","	if unicode.IsGraphic(r) {","	if unicode.In(r, unicode.GraphicRanges...) || unicode.Is(unicode.Cf, r) {")]
DEMO='''package mp4
import "strings"
import "testing"
func TestSeedDemo(t *testing.T) {
	s, err := Stringify(&Hdlr{Name: "a\\u202eb\\u00e9"}, Context{})
	if err != nil || strings.Contains(s, "\\u202e") || !strings.Contains(s, "a.b\\u00e9") {
		t.Fatalf("%q %v", s, err)
	}
}
'''
