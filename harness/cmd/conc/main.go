// conc replays a harness under a given schedule. It is built from
// instrumented copies of the sources.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"strconv"

	"verifharness/h"
	"verifharness/vk"
	"verifharness/vkrt"
)

func main() {
	name, err := vk.Load(os.Args[1])
	if err != nil {
		fmt.Println(err)
		os.Exit(7)
	}
	f := h.Registry[name]
	if f == nil {
		fmt.Println("no harness", name)
		os.Exit(7)
	}
	var r struct {
		Steps []vkrt.Step `json:"steps"`
		Race  bool        `json:"race"`
		Clock string      `json:"clock"`
		Sleep string      `json:"sleep"`
	}
	b, _ := os.ReadFile(os.Args[1])
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Println(err)
		os.Exit(7)
	}
	vkrt.Race, vkrt.Virtual, vkrt.MaxProgress = r.Race, r.Clock == "virtual", r.Sleep == "maxprogress"
	vkrt.Verbose = os.Getenv("VKRT_TRACE") != ""
	if n := vk.Param("numcpu"); n > 0 {
		vkrt.NumCPU = n
	}
	vk.YieldHook = vkrt.Yield
	seed, _ := strconv.ParseInt(os.Getenv("VKRT_SEED"), 10, 64)
	if os.Getenv("VKRT_FREE") != "" {
		r.Steps = nil
	}
	vkrt.Main(r.Steps, seed, f)
	fmt.Println("PASSED")
	os.Exit(0)
}
