// Command daemon checks the properties of whole daemons on a virtual LAN.
package main

import (
	"os"

	fluclient "github.com/flu-network/client"

	"verif/mc/explore"
	"verif/mc/vs"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "-script" {
		runScript(os.Args[2], os.Stdout)
		return
	}
	explore.Main()
}

func mainOf() {
	fluclient.VerifMain()
	vs.ExitProc(0, "main returned")
}
