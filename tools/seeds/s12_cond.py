ID="s12-cond-before-plain"; PROP="C12"
NEEDS="a type with an unconditional registration made after a conditional one that applies in the context"
BREAKS="conditional registrations win over a more recent unconditional one"
EDITS=[("mp4.go","		if boxDef.isTarget == nil || boxDef.isTarget(ctx) {\n			return boxDef\n		}\n	}","		if boxDef.isTarget != nil && boxDef.isTarget(ctx) {\n			return boxDef\n		}\n	}\n	for i := len(boxDefs) - 1; i >= 0; i-- {\n		if boxDefs[i].isTarget == nil {\n			return &boxDefs[i]\n		}\n	}")]
DEMO='''package mp4
import "testing"
type demoA struct { AnyTypeBox; A uint8 `mp4:"0,size=8"` }
type demoB struct { AnyTypeBox; B uint16 `mp4:"0,size=16"` }
func TestSeedDemo(t *testing.T) {
	bt := StrToBoxType("zzz1")
	AddAnyTypeBoxDefEx(&demoA{}, bt, func(c Context) bool { return c.UnderWave })
	AddAnyTypeBoxDef(&demoB{}, bt)
	b, err := bt.New(Context{UnderWave: true})
	if err != nil {
		t.Fatal(err)
	}
	if _, ok := b.(*demoB); !ok {
		t.Fatalf("%T", b)
	}
}
'''
