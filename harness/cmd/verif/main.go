// The check of one property: verif <property> [options].
package main

import (
	"os"

	"verif/harness/lib"
	"verif/harness/props"
)

func main() {
	if len(os.Args) > 1 && os.Args[1] == "history" {
		props.HistoryMain()
		return
	}
	lib.Main(props.All)
}
