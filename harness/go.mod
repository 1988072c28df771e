module ninepverif

go 1.27

require github.com/Harvey-OS/ninep v0.0.0

replace github.com/Harvey-OS/ninep => /repo
