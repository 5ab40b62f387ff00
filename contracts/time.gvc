package ripsrc/branchmeta

extern time
func Parse
trusted
ensures [C17] layout == "2006-01-02T15:04:05Z07:00" ==> (result1 == 0) == rfc3339_ok(value) && (result1 == 0 ==> result0 == rfc3339(value))
ensures [C21] layout == "Mon Jan 2 15:04:05 2006 -0700" ==> (result1 == 0) == date_ok(value) && result0 == date_val(value)
assume time.Parse reads the date formats of git
