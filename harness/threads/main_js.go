//go:build js && wasm

package main

import (
	"encoding/json"
	"syscall/js"

	sched "github.com/kwilteam/kuneiform/zz_verif_simsched"
)

func main() {
	done := js.Global().Get("kfDone")
	js.Global().Set("kfThreads", js.FuncOf(func(this js.Value, args []js.Value) any {
		var sc scenario
		if err := json.Unmarshal([]byte(args[0].String()), &sc); err != nil {
			panic(err)
		}
		go func() {
			fin := start(sc)
			<-sched.Finished()
			b, _ := json.Marshal(fin())
			done.Invoke(string(b))
		}()
		return nil
	}))
	js.Global().Set("kfKick", js.FuncOf(func(this js.Value, args []js.Value) any { return sched.Kick() }))
	<-make(chan bool)
}
