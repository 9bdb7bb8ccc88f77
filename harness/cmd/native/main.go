package main

import (
	"fmt"
	"os"

	"verifharness/h"
	"verifharness/vk"
)

func main() {
	name, err := vk.Load(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(5)
	}
	f := h.Registry[name]
	if f == nil {
		fmt.Println("no harness", name)
		os.Exit(5)
	}
	f()
	fmt.Println("PASSED")
}
