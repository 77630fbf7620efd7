package main

import (
	"fmt"
	"os"
	"sort"
	"sync"
)

var profOn = os.Getenv("GOSX_PROF") != ""
var profMu sync.Mutex
var profCnt = map[string]int{}
var profTot int

func (m *Machine) prof() {
	profMu.Lock()
	defer profMu.Unlock()
	profTot++
	seen := map[string]bool{}
	if m.cur == nil {
		return
	}
	for _, f := range m.cur.frames {
		if !seen[f.fn.name] {
			seen[f.fn.name] = true
			profCnt[f.fn.name]++
		}
	}
}

func profDump() {
	if !profOn {
		return
	}
	var ks []string
	for k := range profCnt {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return profCnt[ks[i]] > profCnt[ks[j]] })
	for i, k := range ks {
		if i > 70 {
			break
		}
		fmt.Fprintf(os.Stderr, "%5.1f%% %s\n", 100*float64(profCnt[k])/float64(profTot), k)
	}
}
