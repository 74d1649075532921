// Command par calls the work splitter directly: par <jobs> <results>. It is a
// program of its own so that a change of this internal function's signature
// doesn't stop the other checks.
package main

import (
	"encoding/binary"
	"os"
	"sync"

	"github.com/bnb-chain/zkbnb-setup/common"
)

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var out []byte
	u32 := func() int {
		v := binary.BigEndian.Uint32(b)
		b = b[4:]
		return int(v)
	}
	for len(b) > 0 {
		n, cpus := u32(), u32()
		var mu sync.Mutex
		var seg []byte
		count := 0
		hits := make([]int32, n) // written without a lock: the race detector watches
		work := func(s, e int) {
			for i := s; i < e; i++ {
				hits[i]++
			}
			mu.Lock()
			defer mu.Unlock()
			seg = binary.BigEndian.AppendUint32(seg, uint32(s))
			seg = binary.BigEndian.AppendUint32(seg, uint32(e))
			count++
		}
		if cpus == 0 {
			common.Parallelize(n, work)
		} else {
			common.Parallelize(n, work, cpus)
		}
		mu.Lock()
		out = binary.BigEndian.AppendUint32(out, uint32(count))
		out = append(out, seg...)
		for _, h := range hits {
			out = append(out, byte(h))
		}
		mu.Unlock()
	}
	if err := os.WriteFile(os.Args[2], out, 0644); err != nil {
		panic(err)
	}
}
