package mp4

import "testing"

// C10: the context and the path of every box follow the tree.
func TestVerifC10(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(5000) && !v.late(); i++ {
		d := v.genFile(i%5 == 4)
		plan := vPlan{salt: v.r.Uint64()}
		f := &vFile{}
		m, _ := v.walkFile(d, plan, f, true)
		v.eval("%d boxes: %.100x", len(m.got), d)
		if m.ctx != "" {
			v.fail("context", "%s; file %x handler plan %x", m.ctx, d, plan.salt)
			return
		}
		if m.path != "" {
			v.fail("path", "%s; file %x handler plan %x", m.path, d, plan.salt)
			return
		}
	}
}
