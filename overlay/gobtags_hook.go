package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"strings"
)

// With VERIF_CONVERT set the tool's own conversions are applied to the lines of the standard input
func init() {
	if os.Getenv("VERIF_CONVERT") == "" {
		return
	}
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<24)
	for in.Scan() {
		f := strings.SplitN(in.Text(), ",", 2)
		pc, err := makeUint16PC(f[0])
		id, err2 := makeByteID(f[1])
		fmt.Println(pc, err != nil, hex.EncodeToString(id), err2 != nil)
	}
	os.Exit(0)
}
