package mp4

import "testing"

// C09: traversal visits each box once, in order, inside its parent.
func TestVerifC09(t *testing.T) {
	v := newV(t)
	defer v.done()
	for i := 0; i < v.rounds(4000) && !v.late(); i++ {
		d := v.genFile(i%3 == 2)
		plan := vPlan{salt: v.r.Uint64()}
		if v.r.Intn(10) == 0 {
			plan.failAt = 1 + v.r.Intn(6)
		}
		f := &vFile{dataErr: v.r.Intn(2) == 0, short: v.r.Intn(2) == 0}
		m, bad := v.walkFile(d, plan, f, true)
		v.eval("file of %d bytes, %d boxes visited: %.100x", len(d), len(m.got), d)
		if bad != "" {
			v.fail("traversal", "%s; file %x handler plan %x fail %d", bad, d, plan.salt, plan.failAt)
			return
		}
	}
	// a source that fails: the error surfaces, at whatever operation
	for i := 0; i < v.rounds(150) && !v.late(); i++ {
		d := v.genFile(false)
		for op := 1; op < 60; op++ {
			f := &vFile{data: d, failOp: op}
			n := 0
			var err error
			v.guard("traversal", "failing source", func() {
				_, err = ReadBoxStructure(f, func(h *ReadHandle) (interface{}, error) {
					n++
					if !h.BoxInfo.IsSupportedType() {
						return nil, nil
					}
					return h.Expand()
				})
			})
			if !f.failed {
				break
			}
			v.eval("operation %d fails", op)
			if err == nil {
				v.fail("source-error", "operation %d of the source failed, traversal reports success; file %x", op, d)
				return
			}
		}
	}
}
