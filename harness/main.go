package main

import (
	"flag"
	"fmt"
	"os"
	"time"
)

type args struct {
	in, in2, out, mode, bin string
	n, k                    int
	seed                    int64
	tier                    string
}

var commands = map[string]func(args){
	"tokreplay":  cmdTokReplay,
	"scanrecord": cmdScanRecord,
	"stage":      cmdStage,
	"scen":       cmdScen,
	"genreplay":  cmdGenReplay,
	"flags":      cmdFlags,
	"fold":       cmdFold,
	"alone":      cmdAlone,
	"shared":     cmdShared,
	"race":       cmdRace,
	"baddict":    cmdBadDict,
	"lag":        cmdLag,
	"fault":      cmdFault,
	"stream":     cmdStream,
	"queue":      cmdQueue,
	"html":       cmdHtml,
	"flagscan":   cmdFlagScan,
	"web":        cmdWeb,
	"cli":        cmdCli,
	"dict":       cmdDict,
	"compose":    cmdCompose,
	"select":     cmdSelect,
	"lagcli":     cmdLagCli,
	"distinct":   cmdDistinct,
	"trie":       cmdTrie,
	"gencon":     cmdGenCon,
	"gentags":    cmdGenTags,
	"gennames":   cmdGenNames,
	"scaletext":  cmdScaleText,
}

func main() {
	if len(os.Args) < 2 || commands[os.Args[1]] == nil {
		fmt.Fprintln(os.Stderr, "usage: vh COMMAND flags")
		os.Exit(2)
	}
	var a args
	fs := flag.NewFlagSet(os.Args[1], flag.ExitOnError)
	fs.StringVar(&a.in, "in", "", "")
	fs.StringVar(&a.in2, "in2", "", "")
	fs.StringVar(&a.out, "out", "", "")
	fs.StringVar(&a.mode, "mode", "", "")
	fs.StringVar(&a.bin, "bin", "", "")
	fs.IntVar(&a.n, "n", 1, "")
	fs.IntVar(&a.k, "k", 0, "")
	fs.Int64Var(&a.seed, "seed", 1, "")
	fs.StringVar(&a.tier, "tier", "quick", "")
	fs.StringVar(&hangOut, "hang", "", "")
	fs.StringVar(&dataDir, "data", dataDir, "")
	limit := fs.Int("limit", 60, "seconds for one case")
	fs.Parse(os.Args[2:])
	watchdog(time.Duration(*limit) * time.Second)
	commands[os.Args[1]](a)
}
