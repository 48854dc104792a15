package props

import "time"

func parseTimeRef(s string) (time.Time, error) { return time.Parse(time.RFC3339Nano, s) }
