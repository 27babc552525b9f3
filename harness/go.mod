module harness
go 1.13
require github.com/Andrew-M-C/go.jsonvalue v0.0.0
replace github.com/Andrew-M-C/go.jsonvalue => /repo
