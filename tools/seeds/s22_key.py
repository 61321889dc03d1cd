ID="s22-namespace"; PROP="C22"; PKG="."
NEEDS="a metadata key whose namespace is not printable"
BREAKS="the namespace of a key is printed unescaped, so a file can emit raw control characters"
EDITS=[("box_types_metadata.go",'''		return fmt.Sprintf("\\"%s\\"", util.EscapeUnprintables(string(k.KeyNamespace))), true''','''		return fmt.Sprintf("\\"%s\\"", k.KeyNamespace), true''')]
DEMO='''package mp4
import "strings"
import "testing"
func TestSeedDemo(t *testing.T) {
	s, err := Stringify(&Keys{EntryCount: 1, Entries: []Key{{KeySize: 11, KeyNamespace: []byte("md\\x1ba"), KeyValue: []byte("x\\ny")}}}, Context{})
	if err != nil || strings.Contains(s, "\\x1b") || !strings.Contains(s, `"md.a"`) {
		t.Fatalf("%q %v", s, err)
	}
}
'''
