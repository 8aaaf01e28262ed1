module xsqlverif

go 1.20

require github.com/akito0107/xsqlparser v0.0.0

require (
	github.com/google/go-cmp v0.3.1 // indirect
	golang.org/x/xerrors v0.0.0-20190717185122-a985d3407aa7 // indirect
)

replace github.com/akito0107/xsqlparser => /repo
