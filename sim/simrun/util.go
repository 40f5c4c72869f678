package main

import "syscall"

func errnoText(e int) string { return syscall.Errno(e).Error() }
