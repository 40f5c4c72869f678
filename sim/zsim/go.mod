module zsim

go 1.24
