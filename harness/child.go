package main

import (
	"encoding/hex"
	"fmt"
	"os"
	"strconv"

	"github.com/kisom/psignify/signify"
)

// childMain is run in a helper process.
func childMain(what string, args []string) {
	switch what {
	case "exec":
		childExec(args)
	case "entropy":
		childEntropy(args)
	case "sealentropy":
		childSealEntropy(args)
	case "gen": // base name, passphrase (hexadecimal), rounds
		pass, _ := hex.DecodeString(args[1])
		var opts *signify.GenerateOptions
		if r, _ := strconv.Atoi(args[2]); r > 0 {
			opts = &signify.GenerateOptions{Rounds: r}
		}
		if err := signify.GenerateKey(args[0], pass, opts); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	default:
		fatal("unknown helper %q", what)
	}
}
