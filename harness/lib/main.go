//go:build js && wasm

// Library harness: the real kuneiform packages behind a message interface that the
// simulator drives.  Every request runs on its own goroutine.
package main

import (
	"encoding/json"
	"runtime"
	"syscall/js"
)

func main() {
	st := newState()
	done := js.Global().Get("kfDone")
	submit := js.FuncOf(func(this js.Value, args []js.Value) any {
		id := args[0].Int()
		var req request
		if err := json.Unmarshal([]byte(args[1].String()), &req); err != nil {
			panic(err)
		}
		src := make([]byte, args[2].Length())
		js.CopyBytesToGo(src, args[2])
		go func() {
			if req.Op == "mem" { // what this process holds after collecting garbage
				for i := 0; i < 3; i++ {
					runtime.GC()
				}
				var m runtime.MemStats
				runtime.ReadMemStats(&m)
				b, _ := json.Marshal(map[string]any{"bytes": m.HeapAlloc, "objects": m.HeapObjects, "goroutines": runtime.NumGoroutine()})
				done.Invoke(id, string(b))
				return
			}
			r := st.run(req, string(src))
			b, _ := json.Marshal(r)
			done.Invoke(id, string(b))
		}()
		return nil
	})
	js.Global().Set("kfSubmit", submit)
	<-make(chan bool)
}
