// Package sim is the harness's view of the simulator in the patched runtime.
package sim

import (
	_ "unsafe"
)

// Config has the same layout as runtime.simCfg.
type Config struct {
	Seed     uint64
	Policy   uint32
	Gap      uint32
	Depth    uint32
	Span     uint32
	Starve   uint32
	Replay   uint32
	NCPU     int32
	Pool     uint32
	Tick     int64
	MaxSteps uint64
	DevStep  []uint64
	DevVal   []uint32
	RecStep  []uint64
	RecVal   []uint32
	Log      []Event
}

// Event has the same layout as runtime.simEvent.
type Event struct {
	Step    uint64
	G       uint32
	Kind    uint32
	A, B, C int64
}

// Out has the same layout as runtime.simOut.
type Out struct {
	Steps    uint64
	Switches uint64
	Preempts uint64
	Choices  uint64
	Hash     uint64 // of the schedule
	Hist     uint64 // of the logged history
	SimTime  int64
	NRec     int64
	Overflow int64
	Live     int64
	Created  int64
	TimerRun int64
	Jumps    int64
	MaxRunq  int64
	NLog     int64
	Drops    int64
	Panicked int64
	Fatal    string
	Arg      any
	NPC      int64
	PCs      [48]uintptr
}

// Results of Run.
const (
	Idle  = 0
	Limit = 1
	Crash = 2
)

//go:linkname Begin runtime.simBegin
func Begin(c *Config)

//go:linkname Go runtime.simGo
func Go(f func())

//go:linkname Run runtime.simRun
func Run() int

//go:linkname Result runtime.simResult
func Result(o *Out)

//go:linkname Yield runtime.simYield
func Yield()

//go:linkname choose runtime.simChoose
func choose(n uint32) uint32

// Choose is a recorded decision in [0, n) whose default is 0.
func Choose(n int) int { return int(choose(uint32(n))) }

//go:linkname ID runtime.simID
func ID() uint32

//go:linkname Steps runtime.simSteps
func Steps() uint64

//go:linkname Active runtime.simActive
func Active() bool

//go:linkname Log runtime.simLog
func Log(kind uint32, a, b, c int64)

//go:linkname Count runtime.simCount
func Count(i int, d int64) int64

//go:linkname GateWait runtime.simGateWait
func GateWait(i int)

//go:linkname GateOpen runtime.simGateOpen
func GateOpen(i int)

//go:linkname GateClose runtime.simGateClose
func GateClose(i int)

//go:linkname GateWaiting runtime.simGateWaiting
func GateWaiting(i int) int

//go:linkname PoolFaults runtime.simPoolFaults
func PoolFaults(on bool)

// Work gives the scheduler n opportunities.
func Work(n int) {
	for i := 0; i < n; i++ {
		Yield()
	}
}
