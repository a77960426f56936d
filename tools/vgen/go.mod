module vgen

go 1.24
