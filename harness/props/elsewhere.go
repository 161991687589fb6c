//go:build elsewhere

package props

import (
	"syscall"
	"time"

	"verif/harness/lib"
)

func init() {
	surroundingsOf = func(moment int64, answer string, all bool) {
		time.VerifMoment.Store(moment)
		syscall.VerifAll.Store(all)
		if answer == "" {
			syscall.VerifAnswer.Store(nil)
			return
		}
		if syscall.VerifNames.Load() == nil {
			names := lib.Names()
			syscall.VerifNames.Store(&names)
		}
		syscall.VerifAnswer.Store(&answer)
	}
	asked = syscall.VerifAsked.Load
}
