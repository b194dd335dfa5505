//go:build !js

package main

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime"
	"strings"
	"time"

	sched "github.com/kwilteam/kuneiform/zz_verif_simsched"
)

// reads a scenario from standard input, writes the outcome to the file named by the
// first argument; standard output belongs to the code under test
func main() {
	b, err := io.ReadAll(os.Stdin)
	if err != nil {
		panic(err)
	}
	var sc scenario
	if err := json.Unmarshal(b, &sc); err != nil {
		panic(err)
	}
	fin := start(sc)
	go watch()
	<-sched.Finished()
	o, _ := json.Marshal(fin())
	if err := os.WriteFile(os.Args[1], o, 0o600); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// watch notices that the holder of the baton is stuck in a primitive the scheduler does
// not know, and hands the baton on.  Real time decides only when that is noticed:
// until then nothing moves.
func watch() {
	last, same := -1, 0
	for {
		time.Sleep(20 * time.Millisecond)
		s := sched.StepsNow()
		if s != last {
			last, same = s, 0
			continue
		}
		if same++; same < 5 {
			continue
		}
		same = 0
		id := sched.CurGoid()
		if id < 0 || stuck(id) {
			sched.Kick()
		}
	}
}

func stuck(id int64) bool {
	buf := make([]byte, 1<<20)
	s := string(buf[:runtime.Stack(buf, true)])
	i := strings.Index("\n"+s, fmt.Sprintf("\ngoroutine %d [", id))
	if i < 0 {
		return false
	}
	line := s[i:]
	if j := strings.IndexByte(line, '\n'); j >= 0 {
		line = line[:j]
	}
	for _, w := range []string{"chan receive", "chan send", "select", "sync.", "semacquire"} {
		if strings.Contains(line, "["+w) {
			return true
		}
	}
	return false
}
