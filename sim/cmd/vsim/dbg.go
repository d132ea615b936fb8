package main

import (
	"encoding/json"
	"fmt"
	"os"
)

// dumpSelf writes the input of one selftest configuration, or the wad that a
// specification file describes, to a file.
func dumpSelf(seed int64, i int, path, spec string) {
	r := NewRng(uint64(seed)*7919+uint64(i), "selftest")
	w := genWad(r, genOpt{maxLevels: 3, odd: true, hexen: 0.2})
	if spec != "" {
		b, err := os.ReadFile(spec)
		w = &WadSpec{}
		if err == nil {
			err = json.Unmarshal(b, w)
		}
		if err != nil {
			fail("%v", err)
		}
	} else {
		b, _ := json.Marshal(w)
		fmt.Println(string(b))
	}
	os.WriteFile(path, w.Bytes(), 0666)
}
