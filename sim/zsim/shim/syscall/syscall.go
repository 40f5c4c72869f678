package syscall
