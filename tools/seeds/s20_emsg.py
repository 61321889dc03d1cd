ID="s20-emsg-count"; PROP="C20"; PKG="."
NEEDS="a version 1 event message whose strings are not ASCII only"
BREAKS="the bits taken by the two strings are counted in characters, not octets, so message data is read past the end or cut"
EDITS=[("box_types_iso14496_12.go","		rbits += uint64(len(emsg.SchemeIdUri)+len(emsg.Value)+2) * 8","		rbits += uint64(len([]rune(emsg.SchemeIdUri+emsg.Value))+2) * 8")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	for _, s := range []string{"urn:test", "urn:caf\\u00e9"} {
		e := &Emsg{FullBox: FullBox{Version: 1}, SchemeIdUri: s, Value: "1", MessageData: []byte("abc")}
		var w bytes.Buffer
		if _, err := Marshal(&w, e, Context{}); err != nil {
			t.Fatal(err)
		}
		var d Emsg
		n, err := Unmarshal(bytes.NewReader(w.Bytes()), uint64(w.Len()), &d, Context{})
		if err != nil || n != uint64(w.Len()) || d.SchemeIdUri != s || string(d.MessageData) != "abc" {
			t.Fatal(s, n, err, d)
		}
	}
}
'''
