// check runs the check of a property
package main

import (
	"time"
	_ "time/tzdata"

	"verif/harness/internal/checks"
	"verif/harness/internal/drive"
	"verif/harness/internal/rt"
)

func main() {
	drive.Quiet()
	// so that the local time zone is not taken for UTC unnoticed, it has odd offsets and daylight saving
	loc, err := time.LoadLocation("America/St_Johns")
	if err != nil {
		panic(err)
	}
	time.Local = loc
	if checks.Child() {
		return
	}
	rt.Main(checks.Properties())
}
