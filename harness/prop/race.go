package prop

import (
	"fmt"
	"io"
	"os"
)

var raceOffset int64

// Races returns the reports that the race detector produced since the last time
// it was called. It always returns an empty string if the race detector is not
// in use.
func Races() string {
	path := os.Getenv("VERIF_RACE_LOG")
	if path == "" {
		return ""
	}
	f, err := os.Open(fmt.Sprintf("%s.%d", path, os.Getpid()))
	if err != nil {
		return ""
	}
	defer f.Close()
	if _, err := f.Seek(raceOffset, io.SeekStart); err != nil {
		return ""
	}
	data, err := io.ReadAll(f)
	if err != nil {
		return ""
	}
	raceOffset += int64(len(data))
	return string(data)
}
