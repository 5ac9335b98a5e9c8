module replay

go 1.24
