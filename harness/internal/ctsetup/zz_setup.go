package ctsetup

import (
	"itko.dev/internal/ctmonitor"
	"itko.dev/internal/ctsubmit"
)

// VerifSetup: a log is set up, started, used and monitored.
func VerifSetup() { ctsubmit.ZZSetup(MainMain, ctmonitor.ZZMonitor) }

// VerifSetupFails: one of the steps fails.
func VerifSetupFails() { ctsubmit.ZZSetupFails(MainMain) }
