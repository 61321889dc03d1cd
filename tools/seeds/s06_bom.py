ID="s06-bom"; PROP="C06"; PKG="."
NEEDS="text that starts with a byte order mark"
BREAKS="the mark is dropped on reading, so the text does not come back as written and the sizes differ when it is written again"
EDITS=[("marshaller.go","	v.SetString(string(data))\n\n	return nil\n","	v.SetString(string(bytes.TrimPrefix(data, []byte(\"\\xef\\xbb\\xbf\"))))\n\n	return nil\n")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	u := &Url{Location: "\\ufeffhttp://a"}
	var w bytes.Buffer
	n, err := Marshal(&w, u, Context{})
	if err != nil {
		t.Fatal(err)
	}
	var g Url
	if _, err := Unmarshal(bytes.NewReader(w.Bytes()), n, &g, Context{}); err != nil {
		t.Fatal(err)
	}
	if g.Location != u.Location {
		t.Fatalf("%q came back as %q", u.Location, g.Location)
	}
}
'''
