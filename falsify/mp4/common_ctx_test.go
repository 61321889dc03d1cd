package mp4

// ctx draws a reading context.
func (v *vctx) ctx() Context {
	b := func() bool { return v.r.Intn(3) == 0 }
	return Context{IsQuickTimeCompatible: b(), QuickTimeKeysMetaEntryCount: v.r.Intn(3), UnderWave: b(), UnderIlst: b(), UnderIlstMeta: b(), UnderIlstFreeMeta: b(), UnderUdta: b()}
}
