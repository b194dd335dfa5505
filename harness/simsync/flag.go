package zz_verif_simsync

import "sync/atomic"

type onceFlag struct{ v atomic.Uint32 }

func (f *onceFlag) get() bool { return f.v.Load() != 0 }
func (f *onceFlag) set()      { f.v.Store(1) }
