package kit

import (
	"syscall"
	"time"
)

// wallNow reads the real clock even inside a synctest bubble (where time.Now
// is the controlled clock).
func wallNow() time.Time {
	var tv syscall.Timeval
	syscall.Gettimeofday(&tv)
	return time.Unix(tv.Sec, tv.Usec*1000)
}

func wallSleep(d time.Duration) { time.Sleep(d) }
