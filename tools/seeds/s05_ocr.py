ID="s05-es-url-and-ocr"; PROP="C05"; PKG="."
NEEDS="an elementary stream descriptor with both a URL and an OCR stream"
BREAKS="the OCR stream number is not coded when a URL is there, so what follows is misread"
EDITS=[("box_types_iso14496_14.go","		return esds.OcrStreamFlag\n","		return esds.OcrStreamFlag && esds.URLLength == 0\n")]
DEMO='''package mp4
import "bytes"
import "testing"
func TestSeedDemo(t *testing.T) {
	e := &Esds{Descriptors: []Descriptor{{Tag: ESDescrTag, Size: 10, ESDescriptor: &ESDescriptor{ESID: 5, UrlFlag: true, OcrStreamFlag: true, URLLength: 2, URLString: []byte("ab"), OCRESID: 0x1234}}}}
	var w bytes.Buffer
	if _, err := Marshal(&w, e, Context{}); err != nil {
		t.Fatal(err)
	}
	want := []byte{0, 0, 0, 0, 3, 0x80, 0x80, 0x80, 10, 0, 5, 0x60, 2, 'a', 'b', 0x12, 0x34}
	if !bytes.Equal(w.Bytes(), want) {
		t.Fatalf("%x want %x", w.Bytes(), want)
	}
}
'''
