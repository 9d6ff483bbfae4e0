// run is the child process of the monitors: it drives one property's workload
// against the instrumented code under test and writes a report.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"strings"
	"time"

	"github.com/sonirico/visigoth"

	"verifharness/kit"
	"verifharness/vsched"
)

var props = map[string]func(*kit.Ctx){}

func main() {
	prop := flag.String("prop", "", "")
	tier := flag.String("tier", "quick", "")
	seed := flag.Uint64("seed", 1, "")
	shard := flag.Int("shard", 0, "")
	nshards := flag.Int("nshards", 1, "")
	only := flag.Int("only", -1, "")
	out := flag.String("out", "", "")
	dict := flag.String("dict", "", "")
	limit := flag.Duration("limit", 10*time.Minute, "")
	mode := flag.String("mode", "cover", "")
	part := flag.String("part", "", "")
	scale := flag.Float64("scale", 1, "")
	flag.Parse()
	switch *mode {
	case "off":
		vsched.Mode = vsched.ModeOff
	case "cover":
		vsched.Mode = vsched.ModeCover
	case "perturb":
		vsched.Mode = vsched.ModePerturb
	case "controlled":
		vsched.Mode = vsched.ModeControlled
	default:
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(3)
	}
	key := *prop
	if *part != "" {
		key += "/" + *part
	}
	f := props[key]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", key)
		os.Exit(3)
	}
	if strings.Contains(*prop, "/") {
		os.Exit(3)
	}
	c := kit.NewCtx(*prop, *tier, *seed, *shard, *nshards, *only, *out, kit.LoadDict(*dict), *limit)
	c.Scale = *scale
	c.Clocks = *part != "slow"
	setPads(c.Dict)
	if keepers = ownGoroutines(); keepers {
		// They outlive any session of the scheduler, so it cannot control them.
		c.Count("repositories keep goroutines: schedules are not controlled", 1)
		if vsched.Mode == vsched.ModeControlled {
			vsched.Mode = vsched.ModePerturb
		}
	}
	go c.Watchdog(cpuLimit)
	f(c)
	c.Write()
}

// cpuLimit is the processor time one operation may burn without any progress.
const cpuLimit = 100 * time.Second

var keepers bool // what ownGoroutines found

// ownGoroutines: does a repository have goroutines from the start?
func ownGoroutines() bool {
	repo := visigoth.NewIndexRepo(visigoth.NewMemoryIndexBuilder(kit.SpaceTokenizer{}))
	defer runtime.KeepAlive(repo)
	for k := 0; k < 5; k++ { // an initialization may take a moment
		if len(targetGoroutines()) == 0 {
			return false
		}
		time.Sleep(20 * time.Millisecond)
	}
	return true
}
