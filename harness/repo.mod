module github.com/Harvey-OS/ninep

go 1.27
